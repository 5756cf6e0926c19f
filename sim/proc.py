"""External programs under simulator control: stands for subprocess.Popen.

A started program is a script of delays, writes to its stdout and stderr, and an end
(exit status or signal). It runs when the caller blocks on it, and as far ahead as the
simulator decides otherwise, until it fills a pipe. Time is virtual. A caller that waits
for a program that cannot go on is reported as hanging.
"""

import errno
import io
import os
import shlex
import subprocess
import sys
import threading

from . import core, env

_Real = subprocess.Popen
_active = None


class Program:
    """what the next started program does"""

    def __init__(self, steps, end, capacity=65536, start_errno=None):
        self.steps = steps  # ("delay", seconds), ("out", bytes), ("err", bytes), ("close", "out"/"err")
        self.end = end  # exit status, or minus a signal number
        self.capacity = capacity
        self.start_errno = start_errno


class Child:
    def __init__(self, sim, program, argv, sinks):
        self.sim, self.argv = sim, argv
        self.steps = [list(s) for s in program.steps]
        self.end = program.end
        self.capacity = program.capacity
        # stream -> "pipe", an open file descriptor, or None
        self.sinks = sinks
        self.buf = {"out": bytearray(), "err": bytearray()}
        self.reader_open = {s: sinks[s] == "pipe" for s in sinks}
        self.writer_open = {"out": True, "err": True}
        self.dead = None  # returncode once it has ended
        self.reaped = False
        self.ignored_polls = 0
        self.written = 0

    # -- the program's side
    def step(self, until=None):
        """Runs one step; False if the program is blocked or has ended."""
        if self.dead is not None:
            return False
        if not self.steps:
            self._end(self.end)
            return True
        s = self.steps[0]
        if s[0] == "delay":
            now = env._clock.mono
            dt = s[1]
            if until is not None and now + dt > until:
                env._clock.advance(max(0.0, until - now))
                s[1] = dt - max(0.0, until - now)
                return None
            env._clock.advance(dt)
            self.steps.pop(0)
            return True
        if s[0] == "close":
            self.writer_open[s[1]] = False
            self.steps.pop(0)
            return True
        sink = self.sinks[s[0]]
        if sink == "pipe":
            if not self.reader_open[s[0]]:
                self._end(-13)
                return True
            room = self.capacity - len(self.buf[s[0]])
            if room <= 0:
                return False
            part = s[1][:room]
            self.buf[s[0]] += part
        else:
            part = s[1]
            if sink is not None:
                os.write(sink, part)
        self.written += len(part)
        s[1] = s[1][len(part):]
        if not s[1]:
            self.steps.pop(0)
        return True

    def _end(self, code):
        self.dead = code
        self.steps = []
        self.writer_open = {"out": False, "err": False}

    def ahead(self):
        """the program runs on while the caller does something else"""
        n = self.sim.choose(4, "ahead")
        if n == 3:
            n = 1 + self.sim.choose(30, "far-ahead")
        for _ in range(n):
            if not self.step(until=env._clock.mono):
                break

    def until(self, cond, deadline=None, what=""):
        """Runs the program until cond(); None at the deadline."""
        while not cond():
            r = self.step(until=deadline)
            if r is None:
                return None
            if r is False and not cond():
                if threading.active_count() > 1:
                    raise core.HarnessError("a program blocked while several threads run")
                raise core.Violation(
                    "converter-hang", "%s waits for a program that waits for its %s to be read" % (
                        what, "output" if len(self.buf["out"]) >= self.capacity else "error output"))
        return True


class _Pipe(io.RawIOBase):
    def __init__(self, child, stream):
        self._c, self._s = child, stream

    def readable(self):
        return True

    def readinto(self, b):
        c, s = self._c, self._s
        c.ahead()
        c.until(lambda: c.buf[s] or not c.writer_open[s], what="reading")
        n = min(len(b), len(c.buf[s]))
        if n > 1 and c.sim.choose(2, "short-read"):
            n = 1 + c.sim.choose(n, "read-size")
        b[:n] = c.buf[s][:n]
        del c.buf[s][:n]
        return n

    def fileno(self):
        raise core.HarnessError("the descriptor of a program's pipe is used directly")

    def close(self):
        if not self.closed:
            self._c.reader_open[self._s] = False
        super().close()


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        w = _active
        if w is None:
            raise core.HarnessError("a program is started outside the simulation")
        self.args = args
        if shell:
            line = args if isinstance(args, str) else args[0]
            try:
                argv = shlex.split(line)
            except ValueError:
                argv = []
            if any(x in line for x in "|<>;&`$"):
                raise core.HarnessError("shell command: %s" % line[:100])
        else:
            argv = [args] if isinstance(args, (str, bytes, os.PathLike)) else list(args)
            argv = [os.fspath(a) for a in argv]  # TypeError as in exec
            for a in argv:
                if "\0" in (a if isinstance(a, str) else ""):
                    raise ValueError("embedded null byte")
        w.starts += 1
        program = w.programs.pop(0) if w.programs else None
        if program is None:
            raise core.HarnessError("more programs started than scripted: %r" % (argv,))
        if program.start_errno:
            w.sim.fault("start-" + errno.errorcode[program.start_errno])
            raise OSError(program.start_errno, os.strerror(program.start_errno), argv[0] if argv else "")
        exe = executable or (argv[0] if argv else "")
        w.check_command(exe, argv)
        sinks = {}
        for name, arg in (("out", stdout), ("err", stderr)):
            if arg == subprocess.PIPE:
                sinks[name] = "pipe"
            elif arg is None or arg == subprocess.DEVNULL:
                sinks[name] = None
            elif arg == subprocess.STDOUT:
                sinks[name] = "out"
            else:
                sinks[name] = os.dup(arg if isinstance(arg, int) else arg.fileno())
                w.fds.append(sinks[name])
        c = self._child = Child(w.sim, program, argv, sinks)
        if sinks["err"] == "out":
            # both streams in the order in which they are written
            for s in c.steps:
                if s[0] == "err":
                    s[0] = "out"
            c.sinks["err"] = None
        w.children.append(c)
        self.pid = 40000 + len(w.children)
        self.returncode = None
        self.stdin = None
        if stdin == subprocess.PIPE:
            self.stdin = io.BytesIO() if not (text or universal_newlines or encoding) else io.StringIO()
        as_text = bool(text or universal_newlines or encoding or errors)
        self.stdout = self._open("out", as_text, encoding, errors, bufsize)
        self.stderr = self._open("err", as_text, encoding, errors, bufsize)
        self.text_mode = as_text
        c.ahead()

    def __class_getitem__(cls, item):
        return cls

    def _open(self, s, as_text, encoding, errors, bufsize):
        if self._child.sinks[s] != "pipe":
            return None
        raw = _Pipe(self._child, s)
        f = raw if bufsize == 0 else io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding=encoding, errors=errors) if as_text else f

    def _reap(self):
        if self._child.dead is not None:
            self._child.reaped = True
            self.returncode = self._child.dead
        return self.returncode

    def poll(self):
        if self.returncode is not None:
            return self.returncode
        c = self._child
        before = (len(c.steps), c.written, env._clock.mono)
        c.ahead()
        if self._reap() is None:
            c.ignored_polls = 0 if before != (len(c.steps), c.written, env._clock.mono) else c.ignored_polls + 1
            if c.ignored_polls > 5000:
                raise core.Violation("converter-hang", "polling a program for ever that waits for its output to be read")
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            c = self._child
            deadline = None if timeout is None else env._clock.mono + timeout
            if c.until(lambda: c.dead is not None, deadline, "wait()") is None:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._reap()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        c = self._child
        deadline = None if timeout is None else env._clock.mono + timeout
        out = {}
        for name, f in (("out", self.stdout), ("err", self.stderr)):
            out[name] = bytearray() if f is not None else None
            if f is not None and f.closed:
                raise ValueError("I/O operation on closed file")
        saved = getattr(self, "_partial", None) or {"out": b"", "err": b""}

        def drain():
            for name in out:
                if out[name] is not None and c.buf[name]:
                    n = len(c.buf[name])
                    if n > 1 and c.sim.choose(3, "short-read") == 0:
                        n = 1 + c.sim.choose(n, "read-size")
                    out[name] += c.buf[name][:n]
                    del c.buf[name][:n]

        while True:
            drain()
            if c.dead is not None and not any(c.buf[n] for n in out if out[n] is not None):
                break
            if c.dead is None:
                r = c.step(until=deadline)
                if r is None:
                    self._partial = {n: saved[n] + bytes(out[n] or b"") for n in out}
                    raise subprocess.TimeoutExpired(self.args, timeout)
                if r is False and not any(c.buf[n] for n in out if out[n] is not None):
                    raise core.HarnessError("program blocked on a stream nobody reads")
        res = []
        for name, f in (("out", self.stdout), ("err", self.stderr)):
            if f is None:
                res.append(None)
                continue
            data = saved[name] + bytes(out[name])
            if self.text_mode:
                data = data.decode(f.encoding, f.errors).replace("\r\n", "\n").replace("\r", "\n")
            f.close()
            res.append(data)
        self._reap()
        return tuple(res)

    def send_signal(self, sig):
        if self.poll() is None:
            self._child._end(-int(sig))

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f is not None:
                f.close()
        self.wait()


class World:
    def __init__(self, sim, check_command):
        self.sim = sim
        self.programs = []
        self.children = []
        self.fds = []
        self.starts = 0
        self.check_command = check_command

    def unreaped(self):
        return [c for c in self.children if not c.reaped]


def _refuse(name):
    def f(*a, **k):
        raise core.HarnessError("%s is not modelled" % name)

    return f


def begin(sim, check_command):
    """From now on subprocess starts simulated programs only."""
    global _active
    _active = World(sim, check_command)
    for m in list(sys.modules.values()):
        name = getattr(m, "__name__", "")
        if name == "subprocess" or name.startswith("hatchet"):
            for k, v in list(vars(m).items()):
                if v is _Real:
                    setattr(m, k, SimPopen)
    for n in ("system", "posix_spawn", "posix_spawnp", "spawnv", "spawnve", "spawnvp"):
        setattr(os, n, _refuse("os." + n))
    return _active
