"""The seams around the code under test, installed before hatchet is imported.

Everything is off (passes through) until a scenario switches it on.
"""

import builtins
import ctypes
import datetime as _dt
import gc
import os
import sys
import threading as _threading
import time as _time
import weakref

from . import core, mp
from .sched import vthreading

real_id = builtins.id
real_listdir = os.listdir
real_scandir = os.scandir
real_time = _time.time
real_perf = _time.perf_counter
real_mono = _time.monotonic
real_sleep = _time.sleep
real_datetime = _dt.datetime
real_date = _dt.date


# -- memory addresses ----------------------------------------------------------
class AddressSpace:
    """Decides what id() returns inside hatchet, like an allocator would.

    Objects alive at the same time have distinct addresses; the address of a dead
    object may be given to a later one.
    """

    def __init__(self, sim):
        self.sim = sim
        self.live = {}  # real id -> (address, weakref or strong reference)
        self.free = []
        self.used = set()
        self.keep = []
        self.fresh = 0
        self.reused = 0
        self.base = 0x7F0000000000

    def _dead(self, rid, addr):
        def cb(_):
            if self.live.get(rid, (None,))[0] == addr:
                del self.live[rid]
                self.free.append(addr)

        return cb

    def addr(self, obj):
        rid = real_id(obj)
        e = self.live.get(rid)
        if e is not None:
            ref = e[1]
            if (ref() if isinstance(ref, weakref.ref) else ref) is obj:
                return e[0]
            del self.live[rid]
            self.free.append(e[0])
        n = len(self.free)
        k = self.sim.choose(8, "addr")
        if n and k >= 4:
            a = self.free.pop(self.sim.choose(n, "addr-reuse"))
            self.reused += 1
        else:
            self.fresh += 1
            if k == 0:
                a = self.base + 64 * (len(self.used) + 1)
            else:
                a = self.base + 64 * (1 << 20) + 64 * self.sim.choose(1 << 20, "addr-new")
            while a in self.used:
                a += 64
        self.used.add(a)
        try:
            ref = weakref.ref(obj, self._dead(rid, a))
        except TypeError:
            ref = obj
        self.live[rid] = (a, ref)
        return a


_space = None


def _virtual_id(obj):
    if _space is None:
        return real_id(obj)
    return _space.addr(obj)


def addresses(sim):
    """From now on id() in hatchet is decided by the simulator."""
    global _space
    _space = AddressSpace(sim)
    return _space


# -- clocks --------------------------------------------------------------------
class Clock:
    """A wall clock that may be set, and a monotonic clock that may not."""

    def __init__(self, sim, start=1_700_000_000.0):
        self.sim = sim
        self.wall = start
        self.mono = 5000.0

    def advance(self, dt):
        self.wall += dt
        self.mono += dt
        self.sim.now += dt

    def step(self, dt):
        self.wall += dt


_clock = None


def clock(sim, start=1_700_000_000.0):
    global _clock
    _clock = Clock(sim, start)
    _dt.datetime = VirtualDatetime
    return _clock


class _VirtualDatetimeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)


class VirtualDatetime(real_datetime, metaclass=_VirtualDatetimeMeta):
    @classmethod
    def now(cls, tz=None):
        if _clock is None:
            return real_datetime.now(tz)
        if tz is None:
            # a deployment in UTC
            return real_datetime(1970, 1, 1) + _dt.timedelta(seconds=_clock.wall)
        return real_datetime.fromtimestamp(_clock.wall, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if _clock is None:
            return real_datetime.utcnow()
        return real_datetime(1970, 1, 1) + _dt.timedelta(seconds=_clock.wall)


def _v_time():
    return _clock.wall if _clock is not None else real_time()


def _v_time_ns():
    return int(_v_time() * 1e9)


def _v_mono():
    return _clock.mono if _clock is not None else real_mono()


def _v_perf():
    return _clock.mono if _clock is not None else real_perf()


def _v_sleep(s):
    if _clock is not None:
        _clock.advance(s)
    elif mp.active():
        mp.sleep(s)
    else:
        real_sleep(s)


_real_strftime = _time.strftime
_real_localtime = _time.localtime
_real_gmtime = _time.gmtime


def _v_strftime(fmt, t=None):
    return _real_strftime(fmt, t if t is not None else _v_localtime())


def _v_localtime(secs=None):
    return _real_gmtime(_v_time() if secs is None else secs) if _clock else _real_localtime(secs)


def _v_gmtime(secs=None):
    return _real_gmtime(_v_time() if secs is None else secs)


class _VirtualTimeModule:
    """stands for ``time`` in hatchet's modules"""

    def __getattr__(self, name):
        return getattr(_time, name)

    time = staticmethod(_v_time)
    time_ns = staticmethod(_v_time_ns)
    monotonic = staticmethod(_v_mono)
    monotonic_ns = staticmethod(lambda: int(_v_mono() * 1e9))
    perf_counter = staticmethod(_v_perf)
    perf_counter_ns = staticmethod(lambda: int(_v_perf() * 1e9))
    process_time = staticmethod(_v_perf)
    sleep = staticmethod(_v_sleep)
    strftime = staticmethod(_v_strftime)
    localtime = staticmethod(_v_localtime)
    gmtime = staticmethod(_v_gmtime)


class _VirtualDatetimeModule:
    def __getattr__(self, name):
        return getattr(_dt, name)

    datetime = VirtualDatetime


# -- directory listings --------------------------------------------------------
_listing = None  # function(path, list of names) -> permuted list; an OSError in it is raised there


def _v_listdir(path="."):
    names = real_listdir(path)
    if _listing is None:
        return names
    names = _listing(path, names)
    for n in names:
        if isinstance(n, OSError):
            raise n
    return names


class _ScandirIter:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        e = next(self.it)
        if isinstance(e, OSError):
            raise e
        return e

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _v_scandir(path="."):
    if _listing is None:
        return real_scandir(path)
    with real_scandir(path) as it:
        entries = {e.name: e for e in it}
    return _ScandirIter(
        [n if isinstance(n, OSError) else entries[n] for n in _listing(path, list(entries))]
    )


def permuted_listings(sim, prefix):
    """Directory listings below prefix come in an order the simulator decides."""
    global _listing

    def order(path, names):
        p = os.path.abspath(os.fsdecode(path))
        if not p.startswith(prefix):
            return names
        sim.count("directory listings permuted")
        return sim.shuffle(sorted(names), "listing")

    _listing = order


def plain_listings():
    global _listing
    _listing = None


# -- libc ----------------------------------------------------------------------
OPEN, READ, WRITE, TRUNC, SYNC, CLOSE = range(6)
_shim = None


def shim():
    global _shim
    if _shim is None:
        lib = ctypes.CDLL(None)
        try:
            lib.vs_arm
        except AttributeError:
            raise core.HarnessError("the I/O shim is not loaded")
        lib.vs_arm.argtypes = [ctypes.c_char_p]
        lib.vs_rule.argtypes = [
            ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int
        ]
        lib.vs_fired.argtypes = [ctypes.c_int]
        lib.vs_fired.restype = ctypes.c_long
        lib.vs_count.argtypes = [ctypes.c_int]
        lib.vs_count.restype = ctypes.c_long
        lib.vs_budget.argtypes = [ctypes.c_long]
        lib.vs_enospc.restype = ctypes.c_long
        lib.vs_nlog.restype = ctypes.c_long
        lib.vs_logkind.argtypes = [ctypes.c_long]
        lib.vs_logoff.argtypes = [ctypes.c_long]
        lib.vs_logoff.restype = ctypes.c_longlong
        lib.vs_loglen.argtypes = [ctypes.c_long]
        lib.vs_loglen.restype = ctypes.c_longlong
        lib.vs_logdata.argtypes = [ctypes.c_long]
        lib.vs_logdata.restype = ctypes.POINTER(ctypes.c_char)
        _shim = lib
    return _shim


def write_log():
    """[(kind, offset, bytes)]: kind 0 write, 1 truncate to offset, 2 open with O_TRUNC"""
    lib = shim()
    out = []
    for i in range(lib.vs_nlog()):
        n = lib.vs_loglen(i)
        data = lib.vs_logdata(i)[:n] if n > 0 else b""
        out.append((lib.vs_logkind(i), lib.vs_logoff(i), data))
    return out


# -- installation --------------------------------------------------------------
_installed = False


class _Terminal:
    """standard output, taken for a terminal"""

    def __init__(self, real):
        self._real = real

    def isatty(self):
        return True

    def __getattr__(self, name):
        return getattr(self._real, name)


def terminal():
    sys.stdout = _Terminal(sys.stdout)


def hatchet_modules():
    return [
        m for name, m in sorted(sys.modules.items())
        if m is not None and (name == "hatchet" or name.startswith("hatchet."))
    ]


def _patch_module(m):
    d = m.__dict__
    d["id"] = _virtual_id
    for k, v in list(d.items()):
        if v is _time:
            d[k] = _vtime
        elif v is _threading:
            d[k] = vthreading
        elif v is _threading.Lock or v is _threading.RLock:
            d[k] = getattr(vthreading, "Lock" if v is _threading.Lock else "RLock")
        elif v is _dt:
            d[k] = _vdt
        elif v is real_datetime:
            d[k] = VirtualDatetime
        elif v is real_listdir:
            d[k] = _v_listdir
        elif v is real_scandir:
            d[k] = _v_scandir
        elif callable(v) and getattr(v, "__module__", None) == "time":
            repl = _TIMEFUNCS.get(getattr(v, "__name__", ""))
            if repl:
                d[k] = repl


_vtime = _VirtualTimeModule()
_vdt = _VirtualDatetimeModule()
_TIMEFUNCS = {
    "time": _v_time, "time_ns": _v_time_ns, "monotonic": _v_mono, "perf_counter": _v_perf,
    "sleep": _v_sleep, "strftime": _v_strftime, "localtime": _v_localtime, "gmtime": _v_gmtime,
}


def install():
    """Import everything, then put the seams in."""
    global _installed
    from . import sched

    shim()
    sched.install()
    mp.install()
    import pandas, numpy, tables  # noqa: F401
    import threading

    from . import sched as _s

    keep = threading.Lock, threading.RLock
    _preimport()
    # locks that hatchet's modules make while they are imported
    threading.Lock, threading.RLock = _s.SimLock, _s.SimRLock
    try:
        _import_hatchet()
    finally:
        threading.Lock, threading.RLock = keep
    os.listdir = _v_listdir
    os.scandir = _v_scandir
    for m in hatchet_modules():
        _patch_module(m)
    for n, f in _TIMEFUNCS.items():
        setattr(_time, n, f)
    _installed = True
    gc.collect()
    gc.freeze()


def _preimport():
    """everything hatchet imports, so that its own modules alone are left"""
    for n in (
        "textx pydot yaml IPython caliperreader multiprocess dill sqlite3 cProfile pstats "
        "xml.etree.ElementTree timemory concurrent.futures concurrent.futures.process "
        "concurrent.futures.thread concurrent.futures._base IPython.display IPython.core.magic "
        "matplotlib numexpr tables json glob subprocess tempfile logging"
    ).split():
        try:
            __import__(n)
        except Exception:
            pass


def _import_hatchet():
    import importlib
    import pkgutil

    import hatchet

    if not hatchet.__file__.startswith("/repo/"):
        raise core.HarnessError("hatchet comes from %s" % hatchet.__file__)
    for pkg in ("readers", "writers", "query", "util", "cython_modules.libs", "external"):
        mod = importlib.import_module("hatchet." + pkg)
        for m in pkgutil.iter_modules(mod.__path__, mod.__name__ + "."):
            if m.name.startswith("hatchet.vis"):
                continue
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass


def begin_run(sim):
    gc.disable()
    sys.setrecursionlimit(1000)


def end_run(sim):
    global _space, _clock, _listing
    if _space is not None:
        sim.count("addresses handed out", _space.fresh + _space.reused)
        if _space.reused:
            sim.count("addresses of dead objects handed out again", _space.reused)
    _space = None
    _clock = None
    _dt.datetime = real_datetime
    _listing = None
    shim().vs_disarm()
