"""A failing worker makes a parallel filter fail, never hang or drop rows."""

from sim import env, gen, model, mp
from sim.core import Violation

from .common import gen_pred, outcome

SETTINGS = {
    "quick": {"runs": 1600, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "rule": "a run filters a generated GraphFrame in parallel while workers are killed, stalled, "
    "interrupted by injected exceptions, fail to start or die inside the predicate, at positions "
    "the seed decides; non-trivial: a fault fired",
    "states": "digests of (workers, fired faults, outcome)",
    "real": ["GraphFrame.filter", "parallel_apply in forked processes", "squash", "pandas",
             "dill/pickle"],
    "stub": ["multiprocess.Process/Pipe/Queue/Pool/Lock scheduling and transport"],
    "assumptions": ["a hang is the absence of any runnable process, or 200000 scheduler steps"],
}


def scenario(sim):
    s = gen.spec(sim, ordered=True, max_nodes=20, min_nodes=2, nan=True, sparse=True)
    big = sim.chance(1, 4, "big")
    if big:
        # results larger than any pipe buffer
        s = gen.spec(sim, ordered=True, max_nodes=60, min_nodes=30, levels=2, extra=False)
    pred = gen_pred(sim, s, empties=False)
    nproc = min(2 + sim.choose(4, "procs"), len(s.rows) + 1)
    names = sorted({v["name"] for _, v in s.rows})
    mode = sim.weighted([(2, "faults"), (2, "predicate"), (1, "both"), (1, "startup")], "mode")
    if mode in ("predicate", "both"):
        pred.boom = sim.pick(names, "boom")
        pred.boom_exc = sim.pick(
            ["ValueError", "KeyError", "MemoryError", "kill", "exit", "unpicklable", "SystemExit"],
            "boom-exc")
    faults = []
    if mode in ("faults", "both"):
        for _ in range(1 + sim.choose(3, "nfaults")):
            f = {"worker": sim.choose(nproc, "target"), "at": sim.skewed(40, "at"),
                 "kind": sim.pick(["stall", "kill", "raise", "kill"], "kind")}
            if f["kind"] == "stall":
                f["duration"] = 10.0 ** sim.choose(6, "stall-len")
            if f["kind"] == "raise":
                f["exc"] = sim.pick(["MemoryError", "OSError", "SystemExit", "KeyboardInterrupt"],
                                    "exc")
            faults.append(f)
    plan = mp.Plan(cpus=1 + sim.choose(8, "cpus"),
                   capacity=sim.pick([65536, 4096, 256, 64], "capacity"), faults=faults,
                   start_fail=sim.choose(nproc, "fork-fail") if mode == "startup" else None,
                   pipe_fail=sim.choose(nproc, "pipe-fail")
                   if mode == "startup" and sim.chance(1, 2, "pipe") else None)
    sim.note("%s | filter %s, %d workers, pipe %d bytes, faults %s, fork/pipe fails %s/%s" % (
        s if not big else "%d rows" % len(s.rows), pred, nproc, plan.capacity, faults,
        plan.start_fail, plan.pipe_fail))
    gf = gen.build(s)
    ref_gf = gen.build(s)
    if sim.chance(1, 4, "addresses"):
        env.addresses(sim)
    squash = not sim.chance(1, 3, "nosquash")

    # what a filter in one process answers; a predicate that ends the process must
    # count as failing
    def reference():
        try:
            return outcome(lambda: ref_gf.filter(pred, squash=squash, num_procs=1))
        except SystemExit as e:
            return "raised", e

    kind_s, ref = reference()
    before = model.deep_snap(gf)
    k = mp.begin(sim, plan)
    try:
        try:
            kind_p, res = outcome(lambda: gf.filter(pred, squash=squash, num_procs=nproc))
        except (KeyboardInterrupt, SystemExit) as e:
            kind_p, res = "raised", e
        fired = [f for f, _ in k.fired if f != "stall"]
        killed_by_predicate = any(not p.alive and p.exitcode != 0 for p in k.procs)
    finally:
        mp.end()
    if pred.boom is not None and kind_s == "raised":
        sim.fault("predicate: " + pred.boom_exc)
    sim.state((nproc, tuple(sorted(set(fired))), kind_p, kind_s))
    model.require_same("operand-changed", before, model.deep_snap(gf), "after a failed filter")
    if kind_p == "raised":
        if kind_s == "raised" or fired:
            return
        raise Violation("raised-without-fault", "%r with faults %s" % (res, k.fired))
    if kind_s == "raised":
        raise Violation(
            "failure-swallowed",
            "the predicate fails (%r) but filter returned %d rows" % (ref, len(res.dataframe)))
    model.require_same("wrong-rows", model.snap(ref), model.snap(res), "sequential/parallel")
