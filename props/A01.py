"""An operation that fails leaves the GraphFrames it was given unchanged."""

import errno
import os

import numpy as np

from sim import env, gen, model
from sim.core import Violation
from sim.sched import Interrupter

from . import ops
from .common import Pred, gen_pred

SETTINGS = {
    "quick": {"runs": 1800, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "rule": "a run generates two GraphFrames, picks an operation and lets it fail: an interrupt or "
    "MemoryError at a decided line of hatchet code, a predicate, query predicate or aggregation "
    "function that raises at a decided call, or a failing write of a checkpoint; operands are compared "
    "with snapshots, then the operation is repeated and compared with the result on fresh GraphFrames; "
    "non-trivial: the fault fired",
    "states": "digests of (operation, kind of fault, line or call, outcome)",
    "real": ["all of hatchet's operations, pandas, PyTables"],
    "stub": ["the exception (raised by the tracer at the decided line)", "libc write results"],
    "assumptions": ["exceptions arrive at lines of hatchet code and in user callbacks, not inside "
                    "pandas or C code"],
}


class Boom(Exception):
    pass


class Counter:
    """raises at the n-th call"""

    def __init__(self, n, exc):
        self.n, self.exc, self.calls = n, exc, 0

    def __call__(self):
        self.calls += 1
        if self.calls == self.n:
            raise self.exc


def scenario(sim):
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(3, ["time"]), (2, ["time", "bytes"])], "metrics")
    kw = dict(levels=levels, metrics=metrics, dag=sim.chance(1, 3, "dag"), inc=bool(sim.choose(2, "inc")))
    s1 = gen.spec(sim, ordered=True, max_nodes=8, **kw)
    s2 = gen.spec(sim, ordered=True, max_nodes=6, **kw)
    scratch = sim.tmp("io")
    how = sim.weighted([(5, "line"), (3, "callback"), (1, "write")], "how")
    share = sim.chance(1, 5, "share")  # both operands over one graph

    def fresh():
        a = gen.build(s1)
        b = a.copy() if share else gen.build(s2)
        return a, b

    exc = sim.pick([KeyboardInterrupt, MemoryError, Boom], "exc")
    fault = None
    lib = env.shim()
    if how == "line":
        op = ops.gen_op(sim, s1, kinds=("new", "value", "inplace"), scratch=scratch,
                        only=("filter filter-query squash copy deepcopy add sub mul div groupby json "
                              "dict-round hdf tree dot flamegraph literal to_dict to_json query "
                              "graph-eq to_hdf iadd isub imul").split())
        a, b = fresh()
        dry = Interrupter(0, None)
        with dry:
            try:
                op(a, b)
            except Exception:
                pass
        lines = dry.n
        if not lines:
            return
        # every stretch of the operation is as likely as any other
        k = 1 + sim.choose(lines, "line")

        def run(a, b):
            nonlocal fault
            i = Interrupter(k, exc("injected"))
            try:
                with i:
                    return op(a, b)
            finally:
                if i.fired:
                    fault = "%s at %s" % (exc.__name__, i.fired)

        again = op
        a, b = fresh()
    elif how == "write":
        op = ops.gen_op(sim, s1, kinds=("value",), scratch=scratch, only=["to_hdf"])
        a, b = fresh()
        lib.vs_arm(scratch.encode())
        cls = sim.pick([env.WRITE, env.OPEN, env.TRUNC, env.CLOSE], "io")
        nth = sim.skewed(20, "nth")
        eno = sim.pick([errno.ENOSPC, errno.EIO], "errno")
        sticky = sim.choose(2, "sticky")

        def run(a, b):
            nonlocal fault
            lib.vs_rule(cls, nth, eno, -1, sticky)
            try:
                return op(a, b)
            finally:
                if lib.vs_fired(0):
                    fault = "errno %d at the %d. operation of class %d" % (eno, nth, cls)
                lib.vs_disarm()
                for f in os.listdir(scratch):
                    os.unlink(os.path.join(scratch, f))

        again = op
    else:
        c = Counter(1 + sim.skewed(20, "call"), exc("injected"))
        which = sim.weighted([(3, "filter"), (3, "query"), (2, "drop"), (2, "groupby")], "callback")
        if which == "groupby" and levels:
            which = "drop"
        a, b = fresh()
        if which == "filter":
            p = gen_pred(sim, s1)
            sq = bool(sim.choose(2, "squash"))

            def run(a, b):
                def f(row):
                    c()
                    return p(row)

                return a.filter(f, squash=sq, num_procs=1)

            def again(a, b):
                return a.filter(p, squash=sq, num_procs=1)
        elif which == "query":
            pat = ops.gen_query_pattern(sim, s1)
            armed = [True]

            def hook(row):
                if armed[0]:
                    c()

            for _, pr in pat:
                pr.hook = hook
            sq = bool(sim.choose(2, "squash"))

            def run(a, b):
                armed[0] = True
                return a.filter(ops.build_query(pat), squash=sq)

            def again(a, b):
                armed[0] = False
                return a.filter(ops.build_query(pat), squash=sq)
        else:
            agg = ops.AGGS[sim.pick(sorted(ops.AGGS), "agg")]

            def failing(x):
                c()
                return agg(x)

            if which == "drop":
                def run(a, b):
                    return a.drop_index_levels(function=failing)

                def again(a, b):
                    a = a.copy()
                    a.drop_index_levels(function=agg)
                    return a
            else:
                by = "tag" if "tag" in s1.columns else "name"

                def run(a, b):
                    return a.groupby_aggregate([by], {m: failing for m in s1.exc + s1.inc})

                def again(a, b):
                    return a.groupby_aggregate([by], {m: agg for m in s1.exc + s1.inc})
        op = which

    derived = a.copy()
    snaps = [model.deep_snap(x) for x in (a, b, derived)]
    sim.note("%s | %s; operation %s, fault: %s" % (s1, s2 if not share else "shared graph", op, how))
    try:
        run(a, b)
        out = "returned"
    except KeyboardInterrupt:
        out = "raised"
        if how == "callback":
            fault = "callback raised"
    except Exception as e:
        out = "raised"
        if how == "callback" and c.calls >= c.n:
            fault = "callback raised"
    if fault:
        sim.fault("%s: %s" % (how, exc.__name__ if how != "write" else "I/O error"))
    sim.state((str(op).split("(")[0], how, fault, out))
    inplace = getattr(op, "kind", "") == "inplace" or (op == "drop" and out == "returned")
    if not inplace:
        model.require_same("operand-changed", snaps[0], model.deep_snap(a), "%s, %s:" % (op, fault))
    model.require_same("right-operand-changed", snaps[1], model.deep_snap(b), "%s, %s:" % (op, fault))
    model.require_same("relative-changed", snaps[2], model.deep_snap(derived), "%s, %s:" % (op, fault))
    if inplace:
        return
    # the operands remain usable
    fa, fb = fresh()
    want, _ = ops.outcome_of(again, fa, fb)
    got, _ = ops.outcome_of(again, a, b)
    model.require_same("unusable-afterwards", want, got, "%s after %s:" % (op, fault))
