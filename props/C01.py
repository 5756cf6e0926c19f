"""Parallel filtering equals sequential filtering under every schedule."""

from sim import env, gen, model, mp
from sim.core import Violation

from .common import gen_pred, outcome

SETTINGS = {
    "quick": {"runs": 1600, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "rule": "a run generates a GraphFrame (1-24 nodes, 0-2 extra index levels, shuffled rows, "
    "non-unique names, missing values), a predicate, a worker count (2 to more than rows) and a "
    "pipe capacity, filters it in parallel under a random schedule with stalls and compares with "
    "the sequential result; non-trivial: at least two workers were forked",
    "states": "digests of the (rows, workers, outcome) configuration",
    "real": ["GraphFrame.filter", "parallel_apply in forked processes", "squash", "pandas",
             "dill/pickle"],
    "stub": ["multiprocess.Process/Pipe/Queue/Pool/Lock scheduling and transport"],
    "assumptions": ["workers are preempted at lines of hatchet code and at pipe operations; "
                    "pandas calls are atomic"],
}


def scenario(sim):
    from hatchet.graphframe import GraphFrame  # noqa: F401

    s = gen.spec(sim, ordered=True, max_nodes=24, dag=True, nan=True, sparse=True, large=100)
    pred = gen_pred(sim, s)
    nrows = len(s.rows)
    nproc = sim.weighted(
        [(4, 2), (4, 3), (3, 4), (2, 8), (1, nrows), (2, nrows + 1), (1, 2 * nrows + 3)], "procs")
    nproc = min(max(2, nproc), 40)
    squash = bool(sim.choose(2, "squash"))
    update = bool(sim.choose(2, "update"))
    gf = gen.build(s)
    ref_gf = gen.build(s)
    if sim.chance(1, 3, "addresses"):
        env.addresses(sim)
    stalls = []
    for _ in range(sim.choose(3, "stalls")):
        stalls.append({"worker": sim.choose(nproc, "stalled"), "at": sim.skewed(30, "stall-at"),
                       "kind": "stall", "duration": 10.0 ** sim.choose(6, "stall-len")})
    plan = mp.Plan(cpus=1 + sim.choose(8, "cpus"),
                   capacity=sim.pick([65536, 4096, 256, 16], "capacity"), faults=stalls)
    sim.note("%s | filter %s, %d workers, squash=%s, update=%s, pipe %d bytes, stalls %s" % (
        s, pred, nproc, squash, update, plan.capacity, stalls))

    kind_s, ref = outcome(lambda: ref_gf.filter(pred, squash=squash, update_inc_cols=update,
                                                num_procs=1))
    before = model.deep_snap(gf)
    mp.begin(sim, plan)
    try:
        kind_p, res = outcome(lambda: gf.filter(pred, squash=squash, update_inc_cols=update,
                                                num_procs=nproc))
        if len(mp._kernel.procs) >= 2:
            sim.nontrivial()
    finally:
        mp.end()
    sim.state((nrows, nproc, kind_s, squash))
    if kind_s == "raised":
        if kind_p != "raised":
            raise Violation("no-error", "sequential filter raised %r, parallel one did not" % ref)
        if type(res).__name__ != type(ref).__name__:
            raise Violation("other-error", "sequential %r, parallel %r" % (ref, res))
        return
    if kind_p == "raised":
        raise Violation("parallel-raised", "%r" % res)
    model.require_same("operand-changed", before, model.deep_snap(gf))
    if not squash:
        if res.graph is not gf.graph:
            raise Violation("other-graph", "the filtered GraphFrame has another graph")
        mine = {id(n) for n in model.Walk(gf.graph).nodes}
        for n in res.dataframe.index.get_level_values("node"):
            if id(n) not in mine:
                raise Violation("foreign-node", "row indexed by a copy of node %r" % n)
    model.require_same("result-differs", model.snap(ref), model.snap(res), "sequential/parallel")
