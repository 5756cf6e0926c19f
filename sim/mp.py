"""multiprocessing under simulator control.

Worker processes are real forked processes (real memory isolation, real shared
arrays, real exit codes), but each runs only when the simulator lets it: it stops
at every operation on a pipe, queue, lock or pool and after a decided number of
lines of hatchet code, and waits on a control socket.  Pipes, queues, locks and
pools themselves live in the kernel below, so capacity, delivery, interleaving,
stalls and kills are the simulator's choice.  The calling process is the last
schedulable entity; its blocking operations run the scheduler loop.
"""

import collections
import errno
import os
import pickle
import random
import signal
import socket
import struct
import sys
import traceback
import types
import weakref

from . import core

INF = float("inf")

_kernel = None  # in the calling process of a simulated run
_child = None  # in a simulated worker


def active():
    return _kernel is not None or _child is not None


# ------------------------------------------------------------------ plan -----
class Plan:
    """Knobs and faults of one run, decided up front."""

    def __init__(self, cpus=4, capacity=65536, faults=(), start_fail=None, pipe_fail=None,
                 preempt=True, runaway=200000):
        self.cpus = cpus
        self.capacity = capacity
        self.faults = list(faults)  # dicts: worker, at, kind, [duration]
        self.start_fail = start_fail
        self.pipe_fail = pipe_fail
        self.preempt = preempt
        self.runaway = runaway


# --------------------------------------------------------------- channels ----
class Channel:
    """A byte stream with bounded capacity."""

    def __init__(self, cid, capacity):
        self.cid = cid
        self.capacity = capacity
        self.buf = bytearray()
        self.readers = set()
        self.writers = set()


class Proc:
    def __init__(self, ordinal, name):
        self.ordinal = ordinal
        self.name = name
        self.os_pid = None
        self.sock = None
        self.op = None  # pending operation
        self.alive = True
        self.exitcode = None
        self.nsteps = 0
        self.stalled_until = 0.0
        self.pool = None
        self.job = None
        self.daemon = False
        self.executor = None

    def __repr__(self):
        return self.name


MAIN = Proc(-1, "main")


# ------------------------------------------------------------- operations ----
class Op:
    """step() is called while ready() holds, until it returns True."""

    result = None
    exc = None
    deadline = INF
    label = "op"

    def ready(self):
        return True

    def step(self):
        return True

    def timeout(self):
        self.exc = None
        self.result = None

    def cancel(self):
        pass


class Yield(Op):
    label = "run"


class Sleep(Op):
    label = "sleep"

    def __init__(self, k, t):
        self.deadline = k.sim.now + max(0.0, t)

    def ready(self):
        return False


class Send(Op):
    label = "send"

    def __init__(self, k, proc, ch, data):
        self.k, self.proc, self.ch = k, proc, ch
        self.data = struct.pack("!q", len(data)) + data

    def ready(self):
        return not self.ch.readers or len(self.ch.buf) < self.ch.capacity

    def step(self):
        ch = self.ch
        if not ch.readers:
            self.exc = BrokenPipeError(errno.EPIPE, "Broken pipe")
            return True
        room = ch.capacity - len(ch.buf)
        n = min(room, len(self.data))
        if n > 8 and self.k.sim.chance(1, 4, "short-write"):
            n = 1 + self.k.sim.choose(n, "short-write-len")
            self.k.sim.count("short pipe writes")
        ch.buf += self.data[:n]
        self.data = self.data[n:]
        if self.data:
            self.k.sim.count("messages delivered in several pieces")
        return not self.data


class Recv(Op):
    label = "recv"

    def __init__(self, k, proc, ch):
        self.k, self.ch = k, ch
        self.got = bytearray()
        self.need = 8

    def ready(self):
        return bool(self.ch.buf) or not self.ch.writers

    def step(self):
        ch = self.ch
        if not ch.buf:
            if self.got:
                self.exc = OSError("got end of file during message")
            else:
                self.exc = EOFError()
            return True
        take = min(len(ch.buf), self.need - len(self.got))
        self.got += ch.buf[:take]
        del ch.buf[:take]
        if len(self.got) == 8 and self.need == 8:
            n = struct.unpack("!q", bytes(self.got))[0]
            if not 0 <= n < 1 << 40:
                self.exc = OSError("bad message length")
                return True
            self.need += n
        if len(self.got) == self.need:
            self.result = bytes(self.got[8:])
            return True
        return False


class Poll(Op):
    label = "poll"

    def __init__(self, k, ch, timeout):
        self.ch = ch
        self.result = False
        self.deadline = INF if timeout is None else k.sim.now + max(0.0, timeout)

    def ready(self):
        return bool(self.ch.buf) or not self.ch.writers

    def step(self):
        self.result = True
        return True

    def timeout(self):
        self.result = False


class WaitAny(Op):
    label = "wait"

    def __init__(self, k, items, timeout):
        # items: list of ('conn', Channel) or ('proc', Proc)
        self.items = items
        self.result = []
        self.deadline = INF if timeout is None else k.sim.now + max(0.0, timeout)

    def _ready(self):
        out = []
        for i, (kind, x) in enumerate(self.items):
            if kind == "conn" and (x.buf or not x.writers):
                out.append(i)
            elif kind == "proc" and not x.alive:
                out.append(i)
        return out

    def ready(self):
        return bool(self._ready())

    def step(self):
        self.result = self._ready()
        return True


class Join(Op):
    label = "join"

    def __init__(self, k, proc, timeout):
        self.p = proc
        self.deadline = INF if timeout is None else k.sim.now + max(0.0, timeout)

    def ready(self):
        return not self.p.alive


class Cond(Op):
    """waits for a kernel-side predicate"""

    def __init__(self, k, label, pred, act=None, timeout=None, on_timeout=None):
        self.label = label
        self.pred, self.act = pred, act
        self.on_timeout = on_timeout
        self.deadline = INF if timeout is None else k.sim.now + max(0.0, timeout)

    def ready(self):
        return self.pred()

    def step(self):
        if self.act:
            try:
                self.result = self.act()
            except Exception as e:
                self.exc = e
        return True

    def timeout(self):
        if self.on_timeout:
            try:
                self.result = self.on_timeout()
            except Exception as e:
                self.exc = e


# ------------------------------------------------------------------ queue ----
class KQueue:
    """multiprocessing.Queue: per-process buffer, feeder, one pipe, two locks."""

    def __init__(self, k, maxsize, simple):
        self.k = k
        self.simple = simple
        self.ch = k.new_channel()
        self.maxsize = maxsize
        self.outstanding = 0
        self.buffers = {}  # Proc -> deque of bytes
        self.sending = {}  # Proc -> Send
        self.wlock = None  # Proc holding the write lock
        self.rlock = None
        self.unfinished = 0

    def feeder_can(self, proc):
        if proc in self.sending:
            return self.sending[proc].ready()
        return bool(self.buffers.get(proc)) and self.wlock is None

    def feeder_step(self, proc):
        if proc not in self.sending:
            data = self.buffers[proc].popleft()
            self.wlock = proc
            self.sending[proc] = Send(self.k, proc, self.ch, data)
            return
        s = self.sending[proc]
        if s.step():
            del self.sending[proc]
            self.wlock = None

    def empty_buffer(self, proc):
        return proc not in self.sending and not self.buffers.get(proc)


class QueueGet(Op):
    label = "queue.get"

    def __init__(self, k, proc, q, block, timeout):
        self.k, self.proc, self.q = k, proc, q
        self.recv = None
        if not block:
            self.deadline = k.sim.now
        elif timeout is not None:
            self.deadline = k.sim.now + max(0.0, timeout)

    def ready(self):
        if self.recv is None:
            # get() takes the read lock, then polls
            return self.q.rlock in (None, self.proc) and bool(self.q.ch.buf)
        return self.recv.ready()

    def step(self):
        if self.recv is None:
            self.q.rlock = self.proc
            self.recv = Recv(self.k, self.proc, self.q.ch)
            self.deadline = INF
        if self.recv.step():
            self.q.rlock = None
            self.q.outstanding -= 1
            self.result, self.exc = self.recv.result, self.recv.exc
            return True
        return False

    def timeout(self):
        import queue

        self.exc = queue.Empty()


# ----------------------------------------------------------------- kernel ----
class Kernel:
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.procs = []
        self.channels = {}
        self.queues = {}
        self.locks = {}
        self.pools = {}
        self.nid = 0
        self.nstarts = 0
        self.npipes = 0
        self.main_op = None
        self.fired = []
        self.loops = self.idle = 0
        MAIN.alive = True
        MAIN.stalled_until = 0.0
        MAIN.op = None

    # objects
    def new_channel(self):
        self.nid += 1
        ch = Channel(self.nid, self.plan.capacity)
        ch.readers.add(MAIN)
        ch.writers.add(MAIN)
        self.channels[ch.cid] = ch
        return ch

    def new_queue(self, maxsize, simple):
        q = KQueue(self, maxsize, simple)
        self.nid += 1
        self.queues[self.nid] = q
        return self.nid

    # processes
    def fork(self, body, name, daemon=False):
        n = self.nstarts
        self.nstarts += 1
        if self.plan.start_fail == n:
            self.fire("fork-fails")
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        p = Proc(len(self.procs), name)
        p.daemon = daemon
        ours, theirs = socket.socketpair()
        self.sim.ev("fork", p.ordinal)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                ours.close()
                for q in self.procs:
                    if q.sock is not None:
                        q.sock.close()
                try:
                    os.close(self.sim.result_fd)
                except OSError:
                    pass
                _become_child(theirs, p.ordinal, self.plan.preempt)
                code = _child_body(body)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code & 0xFF)
        theirs.close()
        p.os_pid = pid
        p.sock = ours
        for ch in self.channels.values():
            if MAIN in ch.readers:
                ch.readers.add(p)
            if MAIN in ch.writers:
                ch.writers.add(p)
        p.op = Yield()
        p.first = True
        self.procs.append(p)
        self.sim.count("worker processes forked")
        return p

    def reap(self, p):
        _, st = os.waitpid(p.os_pid, 0)
        p.alive = False
        p.exitcode = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        p.sock.close()
        p.sock = None
        p.op = None
        for ch in self.channels.values():
            ch.readers.discard(p)
            ch.writers.discard(p)
        for q in self.queues.values():
            q.buffers.pop(p, None)
            q.sending.pop(p, None)
            # a lock held by a dead process stays locked, as in reality
        self.sim.ev("exit", p.ordinal, p.exitcode)
        if p.pool is not None:
            p.pool.worker_died(p)
        if p.executor is not None:
            p.executor.worker_died(p)

    def kill(self, p, sig=signal.SIGKILL):
        if p.alive:
            try:
                os.kill(p.os_pid, sig)
            except OSError:
                pass
            if sig != signal.SIGKILL:
                # the worker may be waiting on its control socket: let the signal end it
                pass
            self.reap(p)

    def fire(self, kind, p=None):
        self.sim.fault(kind)
        self.fired.append((kind, p.ordinal if p else None))

    # one step of a child: give it the result of its operation, run it to the next
    def resume(self, p, order=None):
        op = p.op
        quantum = 0
        if self.plan.preempt:
            k = self.sim.choose(4, "quantum")
            if k == 1:
                quantum = 1 + self.sim.choose(4, "quantum-lines")
            elif k >= 2:
                quantum = 1 + self.sim.choose(60, "quantum-lines")
        msg = pickle.dumps((op.result, op.exc, quantum, order))
        p.op = None
        try:
            _send(p.sock, msg)
        except OSError:
            self.reap(p)
            return
        while True:
            req = _recv(p.sock)
            if req is None:
                self.reap(p)
                return
            p.op = self.make_op(p, pickle.loads(req))
            if p.op is not None:
                return
            # immediate operations are answered at once
            _send(p.sock, pickle.dumps((self._imm, None, None, None)))

    def make_op(self, p, req):
        kind = req[0]
        self.sim.ev("op", p.ordinal, kind)
        if kind == "yield":
            return Yield()
        if kind == "send":
            return Send(self, p, self.channels[req[1]], req[2])
        if kind == "recv":
            return Recv(self, p, self.channels[req[1]])
        if kind == "poll":
            return Poll(self, self.channels[req[1]], req[2])
        if kind == "wait":
            items = []
            for k, x in req[1]:
                items.append((k, self.channels[x] if k == "conn" else self.procs[x]))
            return WaitAny(self, items, req[2])
        if kind == "close":
            ch = self.channels[req[1]]
            (ch.readers if req[2] == "r" else ch.writers).discard(p)
            self._imm = None
            return None
        if kind == "sleep":
            return Sleep(self, req[1])
        if kind == "qput":
            q = self.queues[req[1]]
            if q.simple:
                def can():
                    return q.wlock is None

                return SimplePut(self, p, q, req[2])
            if q.maxsize > 0:
                return QPut(self, p, q, req[2], req[3], req[4])
            q.buffers.setdefault(p, collections.deque()).append(req[2])
            q.outstanding += 1
            q.unfinished += 1
            return Yield()
        if kind == "qget":
            return QueueGet(self, p, self.queues[req[1]], req[2], req[3])
        if kind == "qempty":
            q = self.queues[req[1]]
            self._imm = not q.ch.buf
            return None
        if kind == "qdone":
            q = self.queues[req[1]]
            q.unfinished -= 1
            self._imm = None
            return None
        if kind == "qjoin":
            q = self.queues[req[1]]
            return Cond(self, "queue.join", lambda: q.unfinished <= 0)
        if kind == "qsize":
            self._imm = self.queues[req[1]].outstanding
            return None
        if kind == "qflush":
            return Cond(
                self, "queue.flush",
                lambda: all(q.empty_buffer(p) for q in self.queues.values()),
            )
        if kind == "acquire":
            lk = self.locks[req[1]]
            t = req[3] if req[2] else 0
            return Cond(
                self, "acquire", lambda: lk.can(p), lambda: lk.take(p), t, lambda: False
            )
        if kind == "release":
            lk = self.locks[req[1]]
            try:
                lk.give(p)
                self._imm = None
            except ValueError as e:
                self._imm = e
            return None
        if kind == "event":
            lk = self.locks[req[1]]
            if req[2] == "wait":
                return Cond(
                    self, "event.wait", lambda: lk.flag, lambda: True, req[3], lambda: False
                )
            self._imm = lk.op(req[2])
            return None
        if kind == "pool_get":
            pool = self.pools[req[1]]
            return Cond(self, "task.get", lambda: pool.has_task(p), lambda: pool.take(p))
        if kind == "pool_put":
            pool = self.pools[req[1]]
            return PoolPut(self, pool, p, req[2])
        raise core.HarnessError("unknown operation %r" % (kind,))

    # the scheduler loop
    def entities(self):
        out = []
        if self.main_op is not None and self.main_op.ready():
            out.append(("main", MAIN, None))
        for p in self.procs:
            if p.alive and p.op is not None and p.stalled_until <= self.sim.now:
                if p.op.deadline <= self.sim.now and not p.op.ready():
                    p.op.timeout()
                    p.op = _Done(p.op)
                if p.op.ready():
                    out.append(("proc", p, None))
        for qid, q in self.queues.items():
            for p in list(q.buffers):
                if p.alive and p.stalled_until <= self.sim.now and q.feeder_can(p):
                    out.append(("feeder", p, q))
        return out

    def run_main(self, op):
        """Run op on behalf of the calling process."""
        if self.main_op is not None:
            raise core.HarnessError("nested blocking operation")
        self.main_op = op
        try:
            while True:
                self.loops += 1
                if self.loops > self.plan.runaway:
                    raise core.SimDeadlock(
                        "no end after %d scheduler steps (%s)" % (self.loops, op.label)
                    )
                self.idle += 1
                if self.idle > 2000:
                    # a caller that polls: time passes until a stalled process goes on
                    self.idle = 0
                    t = min([p.stalled_until for p in self.procs
                             if p.alive and p.stalled_until > self.sim.now], default=INF)
                    if t < INF:
                        self.sim.now = t
                ents = self.entities()
                if not ents:
                    if not self.advance():
                        raise core.SimDeadlock(
                            "the caller waits in %s; %s"
                            % (op.label, ", ".join(
                                "%s: %s" % (
                                    p, (p.op.label if p.op else "?") if p.alive
                                    else "dead (%s)" % p.exitcode)
                                for p in self.procs))
                        )
                    if op.deadline <= self.sim.now and not op.ready():
                        op.timeout()
                        self.sim.sched("main", "timeout")
                        break
                    continue
                kind, p, q = ents[self.sim.choose(len(ents), "who")]
                self.sim.now += 1e-4
                if kind == "main":
                    self.sim.sched("main", op.label)
                    if op.step():
                        break
                elif kind == "feeder":
                    self.idle = 0
                    if self.strike(p):
                        continue
                    self.sim.sched("feeder", p.ordinal)
                    q.feeder_step(p)
                else:
                    self.idle = 0
                    if self.strike(p):
                        continue
                    p.nsteps += 1
                    if p.op.step():
                        self.sim.sched(p.ordinal, p.op.label)
                        self.resume(p, getattr(p, "order", None))
                        p.order = None
                    else:
                        self.sim.sched(p.ordinal, p.op.label, "part")
                if op.deadline <= self.sim.now and not op.ready():
                    op.timeout()
                    self.sim.sched("main", "timeout")
                    break
        finally:
            self.main_op = None
        if op.exc is not None:
            raise op.exc
        return op.result

    def strike(self, p):
        """Apply a planned fault to p; True if it cannot run now."""
        for f in self.plan.faults:
            if f.get("done") or f["worker"] != p.ordinal or p.nsteps < f["at"]:
                continue
            f["done"] = True
            kind = f["kind"]
            if kind == "kill":
                self.fire("kill in " + (p.op.label if p.op else "?"), p)
                self.kill(p)
                return True
            if kind == "stall":
                self.fire("stall", p)
                p.stalled_until = self.sim.now + f["duration"]
                return True
            if kind == "raise":
                self.fire("raise in worker", p)
                p.order = f["exc"]
        return False

    def advance(self):
        """Jump to the next point in time at which somebody can run."""
        t = INF
        if self.main_op is not None:
            t = min(t, self.main_op.deadline)
        for p in self.procs:
            if p.alive and p.op is not None:
                if p.stalled_until > self.sim.now:
                    t = min(t, p.stalled_until)
                elif p.op.deadline < INF:
                    t = min(t, p.op.deadline)
        for q in self.queues.values():
            for p in q.buffers:
                if p.alive and p.stalled_until > self.sim.now:
                    t = min(t, p.stalled_until)
        if t == INF:
            return False
        if t > self.sim.now:
            self.sim.now = t
        return True

    def finish(self):
        for p in self.procs:
            if p.alive:
                p.pool = p.executor = None
                self.kill(p)


class _Done(Op):
    def __init__(self, op):
        self.result, self.exc = op.result, op.exc
        self.label = op.label


class SimplePut(Op):
    label = "queue.put"

    def __init__(self, k, p, q, data):
        self.k, self.p, self.q, self.data = k, p, q, data
        self.send = None

    def ready(self):
        if self.send is None:
            return self.q.wlock is None
        return self.send.ready()

    def step(self):
        if self.send is None:
            self.q.wlock = self.p
            self.q.outstanding += 1
            self.send = Send(self.k, self.p, self.q.ch, self.data)
        if self.send.ready() and self.send.step():
            self.q.wlock = None
            self.exc = self.send.exc
            return True
        return False


class QPut(Op):
    label = "queue.put"

    def __init__(self, k, p, q, data, block, timeout):
        self.p, self.q, self.data = p, q, data
        if not block:
            self.deadline = k.sim.now
        elif timeout is not None:
            self.deadline = k.sim.now + timeout

    def ready(self):
        return self.q.outstanding < self.q.maxsize

    def step(self):
        self.q.buffers.setdefault(self.p, collections.deque()).append(self.data)
        self.q.outstanding += 1
        self.q.unfinished += 1
        return True

    def timeout(self):
        import queue

        self.exc = queue.Full()


class KLock:
    def __init__(self, value, recursive=False, bound=None):
        self.value = value
        self.recursive = recursive
        self.bound = bound
        self.owner = None
        self.depth = 0

    def can(self, p):
        return self.value > 0 or (self.recursive and self.owner is p)

    def take(self, p):
        if self.recursive and self.owner is p:
            self.depth += 1
            return True
        self.value -= 1
        self.owner = p
        self.depth = 1
        return True

    def give(self, p):
        if self.recursive:
            self.depth -= 1
            if self.depth:
                return
        if self.bound is not None and self.value >= self.bound:
            raise ValueError("semaphore or lock released too many times")
        self.value += 1
        self.owner = None


class KEvent:
    def __init__(self):
        self.flag = False

    def op(self, what):
        if what == "set":
            self.flag = True
        elif what == "clear":
            self.flag = False
        return self.flag


def begin(sim, plan):
    global _kernel
    _kernel = Kernel(sim, plan)
    return _kernel


def end():
    global _kernel
    if _kernel is not None:
        k, _kernel = _kernel, None
        k.finish()


# --------------------------------------------------------- control socket ----
def _send(sock, data):
    sock.sendall(struct.pack("!I", len(data)) + data)


def _read(sock, n):
    out = b""
    while len(out) < n:
        try:
            c = sock.recv(n - len(out))
        except OSError:
            return None
        if not c:
            return None
        out += c
    return out


def _recv(sock):
    h = _read(sock, 4)
    if h is None:
        return None
    return _read(sock, struct.unpack("!I", h)[0])


# ------------------------------------------------------------------ child ----
class _ChildSim:
    """what remains of the simulator in a worker: it decides nothing"""

    def __init__(self, ordinal):
        self.rng = random.Random(ordinal)
        self.now = 0.0

    def choose(self, n, label=None):
        return self.rng.randrange(n) if n > 1 else 0

    def ev(self, *a):
        pass

    def count(self, *a):
        pass


class ChildState:
    def __init__(self, sock, preempt):
        self.sock = sock
        self.quantum = 0
        self.preempt = preempt
        self.tracing = False

    def call(self, *req):
        """one blocking operation"""
        old = sys.gettrace()
        if old is not None:
            sys.settrace(None)
        try:
            _send(self.sock, pickle.dumps(req))
            msg = _recv(self.sock)
            if msg is None:
                os._exit(9)
            result, exc, quantum, order = pickle.loads(msg)
            if quantum is not None:
                self.quantum = quantum
        finally:
            if old is not None:
                sys.settrace(old)
        if order is not None:
            raise _ORDERS[order]()
        if exc is not None:
            raise exc
        return result

    def trace(self, frame, event, arg):
        if "/hatchet/" not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.quantum:
            self.quantum -= 1
            if self.quantum == 0:
                self.call("yield")
        return self.line


_ORDERS = {
    "MemoryError": MemoryError,
    "OSError": lambda: OSError(errno.EIO, "Input/output error"),
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": lambda: SystemExit(3),
}


def _become_child(sock, ordinal, preempt):
    global _kernel, _child
    _kernel = None
    _child = ChildState(sock, preempt)
    stub = _ChildSim(ordinal)
    core.set_current(stub)
    from . import env

    if env._space is not None:
        env._space.sim = stub
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    # wait until the simulator starts this worker
    msg = _recv(sock)
    if msg is None:
        os._exit(9)
    _, _, quantum, order = pickle.loads(msg)
    _child.quantum = quantum or 0
    _child.order = order


def _child_body(body):
    if _child.preempt:
        sys.settrace(_child.trace)
    code = 0
    try:
        if _child.order is not None:
            raise _ORDERS[_child.order]()
        body()
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code
        else:
            code = 1
    except BaseException:
        sys.settrace(None)
        traceback.print_exc()
        code = 1
    sys.settrace(None)
    _child.quantum = 0
    try:
        _child.call("qflush")
    except BaseException:
        pass
    return code


def _call(make, *req):
    """run an operation wherever we are"""
    if _child is not None:
        return _child.call(*req)
    k = _kernel
    if k is None:
        raise core.HarnessError("multiprocessing used outside a simulated run: %r" % (req[0],))
    op = k.make_op(MAIN, req)
    if op is None:
        r = k._imm
        if isinstance(r, Exception):
            raise r
        return r
    return k.run_main(op)


def sleep(t):
    _call(None, "sleep", t)


# ------------------------------------------------------- public interface ----
class Api:
    """The names of one package (multiprocessing or multiprocess)."""

    def __init__(self, pkgname):
        self.pkg = __import__(pkgname)
        self.pickler = __import__(pkgname + ".reduction", fromlist=["x"]).ForkingPickler
        self.real = {}
        api = self

        class Connection:
            def __init__(self, rcid, wcid):
                self._r, self._w = rcid, wcid
                self._closed = False

            readable = property(lambda s: s._r is not None)
            writable = property(lambda s: s._w is not None)
            closed = property(lambda s: s._closed)

            def _check(self):
                if self._closed:
                    raise OSError("handle is closed")

            def send_bytes(self, buf, offset=0, size=None):
                self._check()
                if self._w is None:
                    raise OSError("connection is read-only")
                b = bytes(buf)[offset:]
                _call(None, "send", self._w, b if size is None else b[:size])

            def send(self, obj):
                self._check()
                if self._w is None:
                    raise OSError("connection is read-only")
                _call(None, "send", self._w, bytes(api.dumps(obj)))

            def recv_bytes(self, maxlength=None):
                self._check()
                if self._r is None:
                    raise OSError("connection is write-only")
                return _call(None, "recv", self._r)

            def recv(self):
                return api.pickler.loads(self.recv_bytes())

            def poll(self, timeout=0.0):
                self._check()
                if self._r is None:
                    raise OSError("connection is write-only")
                return _call(None, "poll", self._r, timeout)

            def fileno(self):
                raise core.HarnessError("fileno() of a simulated connection")

            def close(self):
                if not self._closed:
                    self._closed = True
                    if self._r is not None:
                        _call(None, "close", self._r, "r")
                    if self._w is not None:
                        _call(None, "close", self._w, "w")

            def __del__(self):
                try:
                    if not self._closed and active():
                        self.close()
                except BaseException:
                    pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __reduce__(self):
                raise core.HarnessError("connections cannot be sent in the simulation")

        self.Connection = Connection

        class Process:
            _count = 0

            def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *,
                         daemon=None):
                Process._count += 1
                self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
                self.name = name or "Process-%d" % Process._count
                self.daemon = bool(daemon)
                self._p = None
                self._closed = False

            def run(self):
                if self._target:
                    self._target(*self._args, **self._kwargs)

            def start(self):
                if _kernel is None:
                    raise core.HarnessError("a process started outside a simulated run")
                assert self._p is None, "cannot start a process twice"
                self._p = _kernel.fork(self.run, self.name, self.daemon)
                # as in reality, the target is forgotten by the parent
                del self._target, self._args, self._kwargs

            def _need(self):
                assert self._p is not None, "can only join a started process"
                return self._p

            def join(self, timeout=None):
                p = self._need()
                _kernel.run_main(Join(_kernel, p, timeout))

            def is_alive(self):
                if self._p is None:
                    return False
                return self._p.alive

            @property
            def exitcode(self):
                return None if self._p is None or self._p.alive else self._p.exitcode

            @property
            def pid(self):
                return None if self._p is None else self._p.os_pid

            ident = pid

            @property
            def sentinel(self):
                return Sentinel(self._need())

            def terminate(self):
                p = self._need()
                if p.alive:
                    _kernel.sim.count("workers terminated by the caller")
                _kernel.kill(p, signal.SIGTERM)

            def kill(self):
                _kernel.kill(self._need(), signal.SIGKILL)

            def close(self):
                if self._p is not None and self._p.alive:
                    raise ValueError("Cannot close a process while it is still running.")
                self._closed = True

        self.Process = Process

        class Queue:
            _simple = False

            def __init__(self, maxsize=0, *, ctx=None):
                if _kernel is None:
                    raise core.HarnessError("a queue made outside a simulated run")
                self._q = _kernel.new_queue(maxsize, self._simple)

            def put(self, obj, block=True, timeout=None):
                _call(None, "qput", self._q, bytes(api.dumps(obj)), block, timeout)

            def get(self, block=True, timeout=None):
                return api.pickler.loads(_call(None, "qget", self._q, block, timeout))

            def put_nowait(self, obj):
                self.put(obj, False)

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                return _call(None, "qempty", self._q)

            def qsize(self):
                return _call(None, "qsize", self._q)

            def full(self):
                return False

            def close(self):
                pass

            def join_thread(self):
                _call(None, "qflush")

            def cancel_join_thread(self):
                pass

            def task_done(self):
                _call(None, "qdone", self._q)

            def join(self):
                _call(None, "qjoin", self._q)

        self.Queue = Queue
        self.JoinableQueue = Queue

        class SimpleQueue(Queue):
            _simple = True

            def __init__(self, *, ctx=None):
                Queue.__init__(self)

            def put(self, obj):
                _call(None, "qput", self._q, bytes(api.dumps(obj)), True, None)

            def get(self):
                return api.pickler.loads(_call(None, "qget", self._q, True, None))

        self.SimpleQueue = SimpleQueue

    def dumps(self, obj):
        old = sys.gettrace()
        sys.settrace(None)
        try:
            return self.pickler.dumps(obj)
        finally:
            sys.settrace(old)

    # factories
    def Pipe(self, duplex=True):
        k = _kernel
        if k is None:
            raise core.HarnessError("a pipe made outside a simulated run")
        n = k.npipes
        k.npipes += 1
        if k.plan.pipe_fail == n:
            k.fire("pipe creation fails")
            raise OSError(errno.EMFILE, "Too many open files")
        a = k.new_channel()
        if not duplex:
            return self.Connection(a.cid, None), self.Connection(None, a.cid)
        b = k.new_channel()
        return self.Connection(a.cid, b.cid), self.Connection(b.cid, a.cid)

    def wait(self, object_list, timeout=None):
        objs = list(object_list)
        items = []
        for o in objs:
            if isinstance(o, Sentinel):
                items.append(("proc", o.p.ordinal))
            elif isinstance(o, self.Connection):
                items.append(("conn", o._r))
            else:
                raise core.HarnessError("wait() on %r" % (o,))
        got = _call(None, "wait", items, timeout)
        return [objs[i] for i in got]

    def Lock(self):
        return _mk_lock(1, bound=1)

    def RLock(self):
        return _mk_lock(1, recursive=True)

    def Semaphore(self, value=1):
        return _mk_lock(value)

    def BoundedSemaphore(self, value=1):
        return _mk_lock(value, bound=value)

    def Event(self):
        k = _kernel
        k.nid += 1
        k.locks[k.nid] = KEvent()
        return SimEvent(k.nid)

    def Manager(self):
        raise core.HarnessError("multiprocessing managers are not simulated")

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
             context=None):
        return SimPool(self, processes, initializer, initargs, maxtasksperchild)

    def cpu_count(self):
        if _kernel is not None:
            return _kernel.plan.cpus
        return os.cpu_count() or 1

    def active_children(self):
        return []

    def get_context(self, method=None):
        return self

    def current_process(self):
        return self.real["current_process"]()

    NAMES = (
        "Process Pipe Queue SimpleQueue JoinableQueue Lock RLock Semaphore BoundedSemaphore "
        "Event Manager Pool cpu_count active_children get_context"
    ).split()

    def __getattr__(self, name):
        if name in ("pkg", "real"):
            raise AttributeError(name)
        return getattr(self.pkg, name)

    def install(self):
        for n in self.NAMES:
            self.real[n] = getattr(self.pkg, n)
            setattr(self.pkg, n, getattr(self, n))
        name = self.pkg.__name__
        conn = __import__(name + ".connection", fromlist=["x"])
        conn.Pipe = self.Pipe
        conn.wait = self.wait
        pool = __import__(name + ".pool", fromlist=["x"])
        pool.Pool = self.Pool
        queues = __import__(name + ".queues", fromlist=["x"])
        queues.Queue = self.Queue
        queues.SimpleQueue = self.SimpleQueue
        proc = __import__(name + ".process", fromlist=["x"])
        self.real["BaseProcess"] = proc.BaseProcess


class Sentinel:
    def __init__(self, p):
        self.p = p


def _mk_lock(value, recursive=False, bound=None):
    k = _kernel
    if k is None:
        return __import__("threading").Lock()
    k.nid += 1
    k.locks[k.nid] = KLock(value, recursive, bound)
    return SimLock(k.nid)


class SimLock:
    def __init__(self, lid):
        self.lid = lid

    def acquire(self, block=True, timeout=None):
        return _call(None, "acquire", self.lid, block, timeout)

    def release(self):
        _call(None, "release", self.lid)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimEvent:
    def __init__(self, lid):
        self.lid = lid

    def set(self):
        _call(None, "event", self.lid, "set", None)

    def clear(self):
        _call(None, "event", self.lid, "clear", None)

    def is_set(self):
        return _call(None, "event", self.lid, "get", None)

    def wait(self, timeout=None):
        return _call(None, "event", self.lid, "wait", timeout)


# ------------------------------------------------------------------- pool ----
class RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


class MaybeEncodingError(Exception):
    pass


class PoolPut(Op):
    label = "result.put"

    def __init__(self, k, pool, p, data):
        self.pool, self.p, self.data = pool, p, data

    def step(self):
        self.pool.deliver(self.p, self.data)
        return True


class SimPool:
    """Semantics of multiprocessing.pool.Pool, including that a task whose worker is
    killed is never finished although the worker is replaced."""

    _ids = 0

    def __init__(self, api, processes, initializer, initargs, maxtasksperchild):
        k = _kernel
        if k is None:
            raise core.HarnessError("a pool made outside a simulated run")
        self.api, self.k = api, k
        if processes is None:
            processes = k.plan.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = processes
        self.init = (initializer, initargs)
        self.max = maxtasksperchild
        SimPool._ids += 1
        self.pid = SimPool._ids
        k.pools[self.pid] = self
        self.tasks = collections.deque()
        self.jobs = {}
        self.njob = 0
        self.state = "run"
        self.workers = []
        self.respawned = 0
        for _ in range(self.n):
            self.spawn()

    def spawn(self):
        p = self.k.fork(self.worker_body, "PoolWorker-%d" % len(self.k.procs), True)
        p.pool = self
        self.workers.append(p)

    # in the worker
    def worker_body(self):
        init, args = self.init
        if init is not None:
            init(*args)
        done = 0
        while self.max is None or done < self.max:
            task = _child.call("pool_get", self.pid)
            if task is None:
                break
            func, args, kwds = self.api.pickler.loads(task)
            try:
                res = (True, func(*args, **kwds))
            except Exception as e:
                tb = traceback.format_exc()
                e.__cause__ = None
                res = (False, (e, tb))
            try:
                data = bytes(self.api.dumps(res))
            except Exception as e:
                data = bytes(self.api.dumps(
                    (False, (MaybeEncodingError(repr(e)), "unpicklable result"))))
            _child.call("pool_put", self.pid, data)
            done += 1

    # in the kernel
    def has_task(self, p):
        # idle workers of a closed pool stay until its last job is done
        return bool(self.tasks) or self.state == "terminate" or (
            self.state == "close" and not self.jobs_pending())

    def take(self, p):
        if self.tasks:
            job, i, data = self.tasks.popleft()
            p.job = (job, i)
            return data
        return None

    def deliver(self, p, data):
        job, i = p.job
        p.job = None
        ok, value = self.api.pickler.loads(data)
        if not ok:
            e, tb = value
            e.__cause__ = RemoteTraceback(tb)
            value = e
        if job in self.jobs:
            self.jobs[job].set(i, ok, value)

    def worker_died(self, p):
        if p in self.workers:
            self.workers.remove(p)
        if p.job is not None:
            self.k.sim.count("pool tasks lost with their worker")
            p.job = None
        if self.state == "run" or (self.state == "close" and self.jobs_pending()):
            self.respawned += 1
            if self.respawned > 50:
                raise core.SimDeadlock("the pool restarts failing workers for ever")
            self.spawn()

    def jobs_pending(self):
        return any(not j.done for j in self.jobs.values())

    # submission
    def _check(self):
        if self.state != "run":
            raise ValueError("Pool not running")

    def _submit(self, res, calls):
        self.njob += 1
        self.jobs[self.njob] = res
        res.total = len(calls)
        res.values = [None] * len(calls)
        res.got = [False] * len(calls)
        if not calls:
            res.finish()
        for i, c in enumerate(calls):
            try:
                data = bytes(self.api.dumps(c))
            except Exception as e:
                res.set(i, False, e)
                continue
            self.tasks.append((self.njob, i, data))
        return res

    def _chunks(self, func, items, chunksize, star):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        if not items:
            chunksize = 0
        calls = []
        i = 0
        while i < len(items):
            part = items[i:i + chunksize]
            calls.append((_starmap if star else _map, (func, part), {}))
            i += chunksize
        return calls

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return self._submit(MapRes(self, callback, error_callback),
                            self._chunks(func, iterable, chunksize, False))

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return self._submit(MapRes(self, callback, error_callback),
                            self._chunks(func, iterable, chunksize, True))

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        return self._submit(ApplyRes(self, callback, error_callback), [(func, args, kwds)])

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        self._check()
        res = self._submit(MapRes(self, None, None), [(func, (x,), {}) for x in iterable])
        return ImapIter(self, res, ordered=True)

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        res = self._submit(MapRes(self, None, None), [(func, (x,), {}) for x in iterable])
        return ImapIter(self, res, ordered=False)

    def close(self):
        if self.state == "run":
            self.state = "close"

    def terminate(self):
        self.state = "terminate"
        self.tasks.clear()
        for p in list(self.workers):
            p.pool = None
            self.k.kill(p, signal.SIGTERM)
        self.workers = []

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        self.k.run_main(Cond(
            self.k, "pool.join",
            lambda: not self.tasks and not any(p.alive for p in self.workers)))

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


def _map(func, part):
    return list(map(func, part))


def _starmap(func, part):
    return [func(*a) for a in part]


class MapRes:
    chunked = True

    def __init__(self, pool, callback, error_callback):
        self.pool = pool
        self.cb, self.ecb = callback, error_callback
        self.done = False
        self.success = True
        self.value = None
        self.arrival = []

    def set(self, i, ok, value):
        self.got[i] = True
        self.values[i] = (ok, value)
        self.arrival.append(i)
        if not ok and self.success:
            self.success = False
            self.value = value
        if all(self.got):
            self.finish()

    def finish(self):
        self.done = True
        if self.success:
            if self.chunked:
                self.value = []
                for ok, v in self.values:
                    if isinstance(v, list):
                        self.value.extend(v)
            else:
                self.value = self.values[0][1]
            if self.cb:
                self.cb(self.value)
        elif self.ecb:
            self.ecb(self.value)

    def ready(self):
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError("not ready")
        return self.success

    def wait(self, timeout=None):
        self.pool.k.run_main(Cond(self.pool.k, "pool result", lambda: self.done, None, timeout))

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.done:
            raise __import__("multiprocessing").TimeoutError
        if self.success:
            return self.value
        raise self.value


class ApplyRes(MapRes):
    chunked = False


class ImapIter:
    def __init__(self, pool, res, ordered):
        self.pool, self.res, self.ordered = pool, res, ordered
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self, timeout=None):
        r = self.res
        if self.i >= r.total:
            raise StopIteration
        if self.ordered:
            pred = lambda: r.got[self.i]
        else:
            pred = lambda: len(r.arrival) > self.i
        self.pool.k.run_main(Cond(self.pool.k, "imap result", pred))
        ok, v = r.values[self.i if self.ordered else r.arrival[self.i]]
        self.i += 1
        if ok:
            return v
        raise v

    next = __next__


# --------------------------------------------------- concurrent.futures ------
class SimExecutor:
    """ProcessPoolExecutor: a killed worker breaks the pool."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.api = APIS["multiprocessing"]
        self.pool = SimPool(self.api, max_workers, initializer, initargs, None)
        self.broken = False
        self.pool.worker_died = self.worker_died

    def worker_died(self, p):
        from concurrent.futures.process import BrokenProcessPool

        if p in self.pool.workers:
            self.pool.workers.remove(p)
        if self.pool.state != "run" and p.exitcode == 0:
            return
        self.broken = True
        for j in self.pool.jobs.values():
            if not j.done:
                j.success = False
                j.value = BrokenProcessPool("A process in the process pool was terminated")
                j.done = True

    def submit(self, fn, /, *args, **kwargs):
        from concurrent.futures.process import BrokenProcessPool

        if self.broken:
            raise BrokenProcessPool("pool is broken")
        return SimFuture(self.pool.apply_async(fn, args, kwargs))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in futs:
                yield f.result()

        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if self.pool.state == "run":
            self.pool.close()
            if wait and not self.broken:
                self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class SimFuture:
    def __init__(self, res):
        self.res = res

    def result(self, timeout=None):
        return self.res.get(timeout)

    def exception(self, timeout=None):
        self.res.wait(timeout)
        return None if self.res.success else self.res.value

    def done(self):
        return self.res.done


def _as_completed(futs, timeout=None):
    futs = list(futs)
    if not all(isinstance(f, SimFuture) for f in futs):
        yield from _real_as_completed(futs, timeout)
        return
    left = list(futs)
    while left:
        _kernel.run_main(Cond(_kernel, "as_completed", lambda: any(f.res.done for f in left)))
        for f in list(left):
            if f.res.done:
                left.remove(f)
                yield f


APIS = {}


def install():
    global _real_as_completed
    for n in ("multiprocessing", "multiprocess"):
        try:
            APIS[n] = Api(n)
        except ImportError:
            continue
        APIS[n].install()
    import concurrent.futures
    import concurrent.futures.process

    _real_as_completed = concurrent.futures.as_completed
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.as_completed = _as_completed
