"""Caller threads under simulator control, and exceptions at decided lines.

Real threads run one at a time; the running thread gives up the baton only at
lines of hatchet code (after a decided number of them), at locks, and at its end.
Lines of Node's and Frame's special methods are not switch points: they run as
callbacks inside pandas, whose calls are atomic in this simulation.
"""

import dis
import functools
import sys
import threading

from . import core

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_Thread = threading.Thread
_active = None


def _switchable(code):
    fn = code.co_filename
    if "/repo/hatchet/" not in fn:
        return False
    if code.co_name.startswith("__") and code.co_name not in ("__init__", "__call__"):
        if fn.endswith(("/node.py", "/frame.py")):
            return False
    if code.co_name == "tuple_repr" or code.co_name == "<module>":
        return False
    return True


class Task:
    def __init__(self, i, fn):
        self.i = i
        self.fn = fn
        self.go = _real_Lock()
        self.go.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.waiting = None  # predicate
        self.quantum = 0
        self.lines = 0


class Sched:
    def __init__(self, sim, max_quantum=40, rate=3, max_lines=3000000):
        self.sim = sim
        self.max_quantum = max_quantum
        self.rate = rate
        self.tasks = []
        self.main = _real_Lock()
        self.main.acquire()
        self.cur = None
        self.deadlock = None
        self.switches = 0
        self.max_lines = max_lines
        self.total = 0

    def run(self, fns):
        global _active
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        threads = []
        for t in self.tasks:
            th = _real_Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            threads.append(th)
        _active = self
        try:
            self._dispatch()
            self.main.acquire()
        finally:
            _active = None
        if self.deadlock:
            raise core.SimDeadlock(self.deadlock)
        for th in threads:
            th.join()
        return self.tasks

    def _body(self, t):
        t.go.acquire()
        try:
            sys.settrace(self._trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            t.exc = e
        t.done = True
        self._dispatch()

    def _quantum(self):
        k = self.sim.choose(self.rate + 1, "quantum")
        if k == 0:
            return 0  # until it blocks or ends
        return 1 + self.sim.skewed(self.max_quantum if k < self.rate else 2000, "lines")

    def _dispatch(self):
        """Pick the next thread; called by the one that stops running."""
        runnable = [
            t for t in self.tasks if not t.done and (t.waiting is None or t.waiting())
        ]
        if not runnable:
            if any(not t.done for t in self.tasks):
                self.deadlock = "every remaining thread waits for a lock"
            self.main.release()
            return
        t = runnable[self.sim.choose(len(runnable), "thread")]
        self.sim.sched("thread", t.i, t.lines)
        self.sim.now += 1e-5
        t.waiting = None
        t.quantum = self._quantum()
        if t is not self.cur:
            self.switches += 1
        self.cur = t
        t.go.release()

    def _yield(self, t):
        old = sys.gettrace()
        sys.settrace(None)
        self._dispatch()
        t.go.acquire()
        sys.settrace(old)

    def _trace(self, frame, event, arg):
        if not _switchable(frame.f_code):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            t = self.cur
            t.lines += 1
            self.total += 1
            if self.total > self.max_lines:
                sys.settrace(None)
                raise core.SimDeadlock("no end after %d lines" % self.total)
            if t.quantum:
                t.quantum -= 1
                if t.quantum == 0:
                    self._yield(t)
        return self._line

    def block(self, pred):
        t = self.cur
        if pred():
            return
        t.waiting = pred
        self._yield(t)


class SimLock:
    """threading.Lock / RLock for code under test"""

    _recursive = False

    def __init__(self):
        self._owner = None
        self._depth = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._recursive and self._owner == me and self._depth:
            self._depth += 1
            return True
        if self._depth:
            if not blocking:
                return False
            if _active is None:
                raise core.SimDeadlock("a lock is acquired twice by one thread")
            while self._depth:
                _active.block(lambda: not self._depth)
        self._owner = me
        self._depth = 1
        return True

    def release(self):
        if not self._depth:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if not self._depth:
            self._owner = None

    def locked(self):
        return bool(self._depth)

    def _at_fork_reinit(self):
        self._owner = None
        self._depth = 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _recursive = True


class _ThreadingModule:
    Lock = SimLock
    RLock = SimRLock

    def __getattr__(self, name):
        return getattr(threading, name)


vthreading = _ThreadingModule()


def install():
    pass


# -- exceptions at a decided line -------------------------------------------------
@functools.lru_cache(None)
def _with_exits(code):
    """offsets at which a with statement starts to call __exit__(None, None, None)

    The interpreter cannot raise between the end of the block and that call.
    """
    ins = list(dis.get_instructions(code))
    out = set()
    for i in range(len(ins) - 3):
        if ins[i + 3].opname == "CALL" and ins[i + 3].arg == 2 and all(
                x.opname == "LOAD_CONST" and x.argval is None for x in ins[i:i + 3]):
            out.add(ins[i].offset)
    return out


def _leaves_with(code, offset):
    return offset in _with_exits(code)


class Interrupter:
    """Raises exc at the k-th line of hatchet code executed inside the block."""

    def __init__(self, k, exc):
        self.k = k
        self.exc = exc
        self.n = 0
        self.fired = None

    def _trace(self, frame, event, arg):
        if not _switchable(frame.f_code):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and not _leaves_with(frame.f_code, frame.f_lasti):
            self.n += 1
            if self.n == self.k:
                self.fired = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                sys.settrace(None)
                raise self.exc
        return self._line

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
