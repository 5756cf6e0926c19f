"""Read-only analyses of a shared GraphFrame can run in concurrent threads."""

import os
import warnings

from sim import env, gen, model, sched
from sim.core import Violation

from . import ops

SETTINGS = {
    "quick": {"runs": 2500, "cap_s": 150},
    "thorough": {"runs": 40000, "cap_s": 700},
    "rule": "a run builds one to three GraphFrames (shared children, several roots, ranks and threads; also "
    "copies on one graph) and starts 2-4 threads, each with a sequence of one to three non-modifying "
    "operations on them, all parameters decided beforehand; the simulator switches between the threads at "
    "lines of hatchet code; every outcome must equal that of the same operation alone on an identical "
    "GraphFrame, and the shared GraphFrames must be unchanged at the end; non-trivial: a switch happened "
    "inside an operation and two operations succeeded",
    "states": "digests of the sequence of (thread, line count) switches",
    "real": ["filter, queries, squash, copies, arithmetic, aggregation, rendering, export, round trips, pandas"],
    "stub": ["thread scheduling (one thread at a time, switched at hatchet lines)", "whether stdout is a terminal",
             "id() in hatchet (simulated allocator)"],
    "assumptions": ["calls into pandas and PyTables are atomic", "threads write to files of their own"],
}


KINDS = ["query", "query", "query", "query", "filter-query", "filter-query", "filter", "squash", "copy", "deepcopy", "add", "sub", "div", "groupby",
         "tree", "dot", "flamegraph", "literal", "to_dict", "to_json", "traverse", "graph-eq", "hdf", "json"]


def scenario(sim):
    warnings.simplefilter("ignore")
    env.addresses(sim)
    if sim.choose(2, "terminal"):
        env.terminal()
        sim.note("standard output is a terminal")
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(2, ["time"]), (3, ["time", "bytes"])], "metrics")
    specs = []
    for k in range(1 + sim.choose(3, "graphframes")):
        if specs and sim.chance(1, 4, "copy"):
            specs.append(0)
            sim.note("graphframe %d: a copy of graphframe 0" % k)
            continue
        s = gen.spec(sim, ordered=True, max_nodes=6, dag=sim.chance(1, 4, "dag"), levels=levels, metrics=metrics, large=100,
                     inc=True, sparse=sim.chance(1, 4, "sparse"), nan=sim.chance(1, 4, "nan"))
        sim.note("graphframe %d: %s" % (k, s))
        specs.append(s)

    def build_all():
        out = []
        for s in specs:
            out.append(out[0].copy() if s == 0 else gen.build(s))
        return out

    only = None
    if sim.choose(2, "focus"):
        # the threads do few kinds of things
        only = [sim.pick(KINDS, "kind") for _ in range(1 + sim.choose(3, "kinds"))]
        if levels and set(only) == {"groupby"}:
            only = ["query"]
        sim.note("only %s" % only)
    plans = []
    nthreads = 2 + sim.skewed(2, "threads")
    for t in range(nthreads):
        plan = []
        for k in range(1 + sim.choose(3, "operations")):
            a = sim.choose(len(specs), "operand")
            b = sim.choose(len(specs), "operand2")
            # also what another thread does
            others = [x for p in plans for x in p if "hdf" not in x[0].name]
            if others and sim.chance(1, 3, "same-operation"):
                op, a, b = sim.pick(others, "which")
            else:
                d = sim.tmp("t%d" % t)
                os.makedirs(d, exist_ok=True)
                s = specs[a] or specs[0]
                op = ops.gen_op(sim, s, kinds=("new", "value"), scratch=d, only=only)
            plan.append((op, a, b))
        plans.append(plan)
        sim.note("thread %d: %s" % (t, [(str(o), a, b) for o, a, b in plan]))

    alone = [[ops.outcome_of(op, *pick(build_all(), a, b))[0] for op, a, b in plan] for plan in plans]
    shared = build_all()
    before = [model.deep_snap(g) for g in shared]

    def body(plan):
        def f():
            return [ops.outcome_of(op, shared[a], shared[b])[0] for op, a, b in plan]
        return f

    sc = sched.Sched(sim, max_quantum=sim.pick([12, 60, 300], "max-quantum"))
    tasks = sc.run([body(p) for p in plans])
    ok = 0
    for t in tasks:
        if t.exc is not None:
            raise t.exc
        for (op, a, b), want, got in zip(plans[t.i], alone[t.i], t.result):
            sim.observe("%d %s" % (t.i, op), got)
            if want[0] == "ok":
                ok += 1
            if got != want:
                raise Violation("Q02-result", "thread %d: %s on %d, %d: %s" % (
                    t.i, op, a, b, model.diff(want, got) or "%s, alone %s" % (got, want)))
    for k, g in enumerate(shared):
        model.require_same("Q02-shared", before[k], model.deep_snap(g), "shared GraphFrame %d" % k)
    if sc.switches > len(tasks) and ok >= 2:
        sim.nontrivial()


def pick(gfs, a, b):
    return gfs[a], gfs[b]
