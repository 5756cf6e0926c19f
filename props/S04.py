"""The profiler never overwrites or loses a profile it has written."""

import errno
import os
import pstats

from sim import env
from sim.core import Violation
from sim.sched import Sched

SETTINGS = {
    "quick": {"runs": 2500, "cap_s": 120},
    "thorough": {"runs": 60000, "cap_s": 700},
    "rule": "a run drives one to three profilers on a virtual clock through a history of collections, "
    "resets and dumps (default name, new names, names of existing files and directories, merging "
    "earlier files), with the clock standing still, advancing, being set back or to the same time of "
    "another day, full disks, failing and short writes and failing opens, and dumps from concurrent "
    "threads; after each step every file written before is compared byte by byte and new files are "
    "read with pstats; non-trivial: a dump met an existing file of its name",
    "states": "digests of (how the dump was made, files already there, clock movement, fault)",
    "real": ["hatchet.util.profiler.Profiler, cProfile, pstats, marshal, the file system"],
    "stub": ["datetime and time (virtual clock)", "libc open and write return values under faults",
             "threading of concurrent dumps"],
    "assumptions": ["a file left by a failed dump is no profile"],
}


def work_a():
    return 1


def work_b():
    return work_a() + 1


def work_c(n):
    for _ in range(n):
        work_b()


def counts(fn):
    """calls of the workload's functions in a profile file"""
    st = pstats.Stats(fn)
    out = {}
    for (_, _, name), v in st.stats.items():
        if name.startswith("work_"):
            out[name] = out.get(name, 0) + v[1]
    return out


def add(a, b):
    return {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}


class Dir:
    """what the directory held, to the byte"""

    def __init__(self, top):
        self.top = top
        self.files = {}
        self.torn = set()

    def look(self):
        out = {}
        for d, _, names in os.walk(self.top):
            for n in names:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.top)] = f.read()
        return out

    def new(self, what):
        """names of the files that appeared; all others must be as they were"""
        now = self.look()
        for n, data in self.files.items():
            if n in self.torn:
                continue
            if n not in now:
                raise Violation("file-lost", "%s: %s is gone" % (what, n))
            if now[n] != data:
                raise Violation("file-changed", "%s: %s was changed" % (what, n))
        fresh = sorted(set(now) - set(self.files))
        self.files = now
        return fresh


def scenario(sim):
    from hatchet.util.profiler import Profiler

    top = sim.tmp("w")
    os.makedirs(os.path.join(top, "sub"))
    os.chdir(top)
    d = Dir(top)
    clock = env.clock(sim, start=1.6e9 + sim.choose(86400 * 365, "epoch"))
    lib = env.shim()
    profs, want = [], []
    for _ in range(1 + sim.choose(3, "profilers")):
        profs.append(Profiler())
        want.append({})
    profiles = {}  # file -> counts
    merge = []  # files to merge
    met = [False]
    if sim.chance(1, 4, "foreign"):
        n = sim.pick(["hatchet-profile.pstats", "notes.txt", "out.pstats"], "foreign-file")
        with open(n, "w") as f:
            f.write("not a profile\n")
        d.files = d.look()

    def collect(i):
        """between start and stop"""
        n, m = sim.choose(5, "b-calls"), sim.choose(4, "a-calls")
        work_c(n)
        for _ in range(m):
            work_a()
        got = {"work_c": 1}
        if n:
            got["work_b"] = n
        if n + m:
            got["work_a"] = n + m
        return got

    def target(label="name"):
        k = sim.choose(5, label)
        if k == 0:
            return ""
        if k == 1:
            return sim.pick(["out.pstats", "run2", os.path.join("sub", "p.pstats")], "new")
        if k == 2 and d.files:
            return sim.pick(sorted(d.files), "existing")
        if k == 3:
            return os.path.join(top, "abs.pstats")
        return ""

    def default_taken(name):
        n = name or "hatchet-profile.pstats"
        if os.path.exists(n):
            met[0] = True
            return True
        return False

    def accept(fresh, expect, what):
        if len(fresh) != len(expect):
            raise Violation("dumps-lost", "%s: %d dumps made the files %r" % (what, len(expect), fresh))
        left = list(expect)
        for n in fresh:
            try:
                c = counts(os.path.join(top, n))
            except Exception as e:
                raise Violation("unreadable-profile", "%s: %s: %r" % (what, n, e))
            if c not in left:
                raise Violation("wrong-profile", "%s: %s holds %r, expected %r" % (what, n, c, left))
            left.remove(c)
            profiles[n] = c

    for step in range(1 + sim.choose(12, "steps")):
        move = sim.weighted([(4, "still"), (2, "tick"), (1, "back"), (1, "day"), (1, "midnight")], "clock")
        if move == "tick":
            clock.advance(sim.choose(40, "seconds") / 4.0)
        elif move == "back":
            clock.step(-float(sim.choose(7200, "back")))
            sim.fault("clock set back")
        elif move == "day":
            clock.advance(86400.0 * (1 + sim.choose(3, "days")))
        elif move == "midnight":
            clock.wall = (clock.wall // 86400 + 1) * 86400.0
        i = sim.choose(len(profs), "profiler")
        p = profs[i]
        op = sim.weighted([(4, "stop"), (4, "write"), (1, "reset"), (3, "fault"), (2, "threads"), (1, "print")], "op")
        def show(x):
            return repr(x).replace(top, "TOP")

        what = "step %d, profiler %d, clock %s, %s" % (step, i, move, op)
        if op == "reset":
            sim.note(what)
            p.reset()
            want[i] = {}
            p.start()
            got = collect(i)
            default_taken("")
            p.stop()
            want[i] = add(want[i], got)
            accept(d.new(what), [want[i]], what)
        elif op == "stop":
            sim.note(what)
            p.start()
            got = collect(i)
            default_taken("")
            p.stop()
            want[i] = add(want[i], got)
            accept(d.new(what), [want[i]], what)
        elif op == "print":
            # reading a profile as text neither writes nor changes anything
            if not want[i]:
                continue
            sim.note(what)
            text = str(p)
            shown = {}
            for line in text.splitlines():
                words = line.split()
                if words and "(work_" in words[-1]:
                    shown[words[-1].split("(")[1].rstrip(")")] = int(words[0].split("/")[0])
            if shown != want[i]:
                raise Violation("wrong-text", "%s: shows %r, expected %r" % (what, shown, want[i]))
            if d.new(what):
                raise Violation("dumps-lost", "%s: wrote files" % what)
        elif op == "write":
            if not want[i]:
                continue
            name = target()
            # the user keeps the list of files to merge
            extra = ""
            if profiles and sim.chance(1, 4, "add"):
                if not merge or sim.choose(2, "more"):
                    merge.append(os.path.join(top, sim.pick(sorted(profiles), "merge")))
                extra = ", ".join(os.path.basename(m) for m in merge)
            what += " %s%s" % (show(name), " merging %s" % extra if extra else "")
            sim.note(what)
            taken = default_taken(name)
            exp = want[i]
            if extra:
                before = list(merge)
                for m in before:
                    exp = add(exp, profiles[os.path.relpath(m, top)])
                p.write_to_file(name, add_pstats_files=merge)
                if merge != before:
                    raise Violation("argument-changed", "%s: the list of files to merge has %d entries, had %d" % (
                        what, len(merge), len(before)))
            else:
                p.write_to_file(name)
            accept(d.new(what), [exp], what)
            sim.state((op, len(d.files), move, taken, bool(extra)))
        elif op == "fault":
            stopping = not want[i] or sim.chance(1, 3, "stopping")
            name = "" if stopping else target()
            kind = sim.pick(["write-error", "short-write", "full", "open-error", "close-error"] + (
                [] if stopping else ["missing-dir"]), "fault")
            if kind == "missing-dir":
                name = os.path.join("nowhere", "p.pstats")
            what += " %s with %s" % ("stop" if stopping else show(name), kind)
            sim.note(what)
            if stopping:
                p.start()
                want[i] = add(want[i], collect(i))
            taken = default_taken(name)
            lib.vs_arm(top.encode())
            if kind == "write-error":
                lib.vs_rule(env.WRITE, 0, sim.pick([errno.EIO, errno.ENOSPC], "errno"), -1, 1)
            elif kind == "short-write":
                lib.vs_rule(env.WRITE, 0, errno.EIO, sim.choose(200, "keep"), 1)
            elif kind == "full":
                lib.vs_budget(sim.choose(300, "budget"))
            elif kind == "open-error":
                lib.vs_rule(env.OPEN, sim.choose(2, "nth"), sim.pick(
                    [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC], "errno"), -1, 1)
            elif kind == "close-error":
                lib.vs_rule(env.CLOSE, sim.choose(2, "nth"), errno.EIO, -1, 0)
            try:
                if stopping:
                    p.stop()
                else:
                    p.write_to_file(name)
                raised = None
            except Exception as e:
                raised = e
            fired = kind == "missing-dir" or lib.vs_enospc() > 0 if kind in ("full", "missing-dir") else \
                lib.vs_fired(0) > 0
            lib.vs_disarm()
            if fired:
                sim.fault(kind)
            sim.state((kind, stopping, len(d.files), move, taken, raised is not None))
            fresh = d.new(what)
            if raised is None:
                accept(fresh, [want[i]], what)
            else:
                if not fired:
                    raise Violation("raised-without-fault", "%s: %r" % (what, raised))
                sim.note("  raised %s" % show(raised))
                d.torn.update(fresh)
        else:
            ready = [k for k in range(len(profs)) if want[k]]
            if not ready:
                continue
            jobs = []
            name = target()
            for _ in range(2 + sim.choose(2, "dumps")):
                k = sim.pick(ready, "by")
                if any(k == j for j, _ in jobs):
                    continue
                jobs.append((k, name if sim.choose(3, "same-name") else target()))
            what += " %s" % show(jobs)
            sim.note(what)
            s = Sched(sim, max_quantum=8)
            tasks = s.run([lambda k=k, n=n: profs[k].write_to_file(n) for k, n in jobs])
            for t in tasks:
                if t.exc is not None:
                    raise Violation("dump-failed", "%s: %r" % (what, t.exc))
            if len(jobs) > 1:
                sim.count("concurrent dumps", len(jobs))
                met[0] = True
            accept(d.new(what), [want[k] for k, _ in jobs], what)
    if met[0]:
        sim.nontrivial()
