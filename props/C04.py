"""Damaged or unreadable HPCToolkit data is rejected, never filled in."""

import errno
import os

from sim import env, hpct, mp
from sim.core import SimDeadlock, Violation

from .C03 import check_values

SETTINGS = {
    "quick": {"runs": 1500, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "rule": "a run generates an HPCToolkit database, cuts metric files, lets opens and reads fail in "
    "libc, injects exceptions into reader processes, kills or stalls them, and loads it; afterwards "
    "the undamaged database is loaded in the same process; non-trivial: a fault fired",
    "states": "digests of (fault kinds, files, workers, outcome)",
    "real": ["HPCToolkitReader", "read_metricdb_file in forked processes", "RawArray shared memory",
             "pandas", "numpy.fromfile and libc stdio"],
    "stub": ["multiprocessing.Pool scheduling and transport (a task whose worker is killed is never "
             "finished, as in CPython)", "libc open/read results (LD_PRELOAD)"],
    "assumptions": ["damage that leaves every file as long as its counts require is not detectable"],
}


def scenario(sim):
    from hatchet import GraphFrame

    db = hpct.generate(sim, max_nodes=8)
    path = sim.tmp("db")
    hpct.write(db, path)
    files = sorted(f for f in os.listdir(path) if f.endswith(".metric-db"))
    kind = sim.weighted(
        [(4, "truncate"), (3, "read-error"), (2, "open-error"), (2, "raise"), (2, "kill"),
         (2, "stall"), (1, "vanish"), (1, "fork"), (1, "truncate+stall"), (1, "shared-cut")], "damage")
    cpus = 1 + sim.choose(4, "cpus")
    plan = mp.Plan(cpus=cpus)
    damaged = {}
    note = ""
    lib = env.shim()
    if "truncate" in kind or kind == "shared-cut":
        n = 1 if kind != "shared-cut" else 1 + sim.choose(len(files), "how-many")
        for _ in range(n):
            f = sim.pick(files, "file")
            data = open(os.path.join(path, f), "rb").read()
            size = len(data)
            cut = size - 1 - (sim.skewed(size - 1, "cut") if sim.chance(1, 2, "deep")
                              else sim.choose(min(size, 20), "cut"))
            damaged.setdefault(f, data)
            with open(os.path.join(path, f), "r+b") as fd:
                fd.truncate(cut)
            note += "%s cut to %d of %d; " % (f, cut, size)
        sim.fault("metric file truncated")
    for w in range(2):
        if "stall" in kind or sim.chance(1, 6, "more-stall"):
            plan.faults.append({"worker": sim.choose(cpus, "stalled"), "at": sim.skewed(30, "at"),
                                "kind": "stall", "duration": 10.0 ** sim.choose(6, "stall-len")})
    if kind == "kill":
        plan.faults.append({"worker": sim.choose(cpus, "target"), "at": sim.skewed(40, "at"),
                            "kind": "kill"})
    if kind == "raise":
        plan.faults.append({"worker": sim.choose(cpus, "target"), "at": sim.skewed(40, "at"),
                            "kind": "raise", "exc": sim.pick(["MemoryError", "OSError"], "exc")})
    if kind == "fork":
        plan.start_fail = sim.choose(cpus, "fork-fail")
    vanish = None
    if kind == "vanish":
        vanish = sim.pick(files, "file")
    lib.vs_arm(path.encode())
    if kind == "read-error":
        # reads of the XML, of the header and of every metric file count
        lib.vs_rule(env.READ, sim.skewed(4 + 3 * len(files), "nth"), errno.EIO, -1,
                    sim.choose(2, "sticky"))
    if kind == "open-error":
        lib.vs_rule(env.OPEN, sim.skewed(2 + len(files), "nth"),
                    sim.pick([errno.EACCES, errno.EMFILE, errno.ENOENT, errno.EIO], "errno"), -1,
                    sim.choose(2, "sticky"))
    sim.note("%s; %d files, %d nodes, %d reader processes; %s faults %s" % (
        kind, len(files), db.num_nodes, cpus, note, plan.faults))
    if vanish:
        # the file disappears after the directory was listed: every later open fails
        real = {}

        def gone(p, names):
            fn = os.path.join(path, vanish)
            if os.path.exists(fn) and vanish in names:
                real["data"] = open(fn, "rb").read()
                real["left"] = real.get("left", 1 + sim.choose(3, "listings")) - 1
            return names

        # decided by the number of directory listings seen
        left = [sim.choose(4, "listings")]

        def listing(p, names):
            if os.path.abspath(os.fsdecode(p)) != path or vanish not in names:
                return names
            if left[0] == 0:
                damaged[vanish] = open(os.path.join(path, vanish), "rb").read()
                os.unlink(os.path.join(path, vanish))
                sim.fault("metric file vanished after it was listed")
            left[0] -= 1
            return names

        env._listing = listing
    k = mp.begin(sim, plan)
    killed = False
    try:
        try:
            res = GraphFrame.from_hpctoolkit(path)
            out = "returned"
        except SimDeadlock as e:
            if "pool tasks lost with their worker" in sim.counters:
                raise Violation("hang:pool-worker-killed", str(e))
            raise
        except Exception as e:
            res = e
            out = "raised"
    finally:
        mp.end()
        env.plain_listings()
    io_fired = kind in ("read-error", "open-error") and lib.vs_fired(0) > 0
    lib.vs_disarm()
    if io_fired:
        sim.fault("libc " + kind)
    fired = [f for f, _ in k.fired if f != "stall"]
    sim.state((kind, len(files), cpus, out))
    if out == "raised":
        if not (damaged or io_fired or fired):
            raise Violation("raised-without-fault", repr(res))
    else:
        if "truncate" in kind or kind == "shared-cut":
            raise Violation("damage-accepted", "%s but a GraphFrame was returned" % note)
        # whatever happened, the answer must be the complete one
        check_values(db, res)
    # afterwards the same process can load the intact database
    for f, data in damaged.items():
        with open(os.path.join(path, f), "wb") as fd:
            fd.write(data)
    mp.begin(sim, mp.Plan(cpus=1 + sim.choose(3, "cpus")))
    try:
        again = GraphFrame.from_hpctoolkit(path)
    finally:
        mp.end()
    check_values(db, again)
