"""Analysis results do not depend on memory addresses or hash seeds."""

from sim import env, formats, gen, model, mp
from sim.core import Violation

from . import ops

SETTINGS = {
    "quick": {"runs": 900, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "hash_variants": 2,
    "rule": "a run builds or reads one to three GraphFrames (siblings with equal frames, shared children, "
    "several roots, ranks and threads) and applies a history of up to 10 operations to them; the same "
    "history is applied once more to the same inputs with other node addresses, and all of it in two "
    "interpreters with different hash seeds; every result, also text and errors, must be the same, "
    "including the order of rows, columns and metric lists; non-trivial: at least two operations "
    "succeeded on a graph of more than two nodes",
    "states": "digests of (operation, outcome kind, nodes, rows, index levels)",
    "real": ["every GraphFrame operation, query, rendering, export and round trip, pandas, PyTables"],
    "stub": ["id() in hatchet (simulated allocator)", "the SpotDB library handle",
             "process scheduling of the HPCToolkit reader's pool"],
    "assumptions": ["query results are compared as sets of nodes", "graphs without cycles"],
}


def inputs(sim):
    """functions that build the same input again and again"""
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(2, ["time"]), (3, ["time", "bytes"]), (1, ["time", "bytes", "misses", "flops"])],
                           "metrics")
    out = []
    for k in range(1 + sim.choose(3, "inputs")):
        if sim.chance(1, 4, "read"):
            kind = sim.pick(formats.KINDS, "format")
            p = formats.generate(sim, kind, 7)
            p.write(sim.tmp("in%d" % k))
            sim.note("input %d: %s" % (k, p))

            def f(p=p, kind=kind):
                if kind == "hpctoolkit":
                    mp.begin(sim, mp.Plan(cpus=1))
                try:
                    r = p.load()
                finally:
                    if kind == "hpctoolkit":
                        mp.end()
                return r if isinstance(r, list) else [r]
        else:
            s = gen.spec(sim, ordered=True, max_nodes=9, dag=sim.chance(1, 3, "dag"), levels=levels, metrics=metrics, large=100,
                         inc=bool(sim.choose(2, "inc")), sparse=sim.chance(1, 4, "sparse"),
                         norows=sim.chance(1, 4, "norows"), attrs=sim.chance(1, 3, "attrs"), nan=True)
            sim.note("input %d: %s" % (k, s))

            def f(s=s):
                return [gen.build(s)]
        out.append(f)
    return out


def groups_usable(gf):
    """cyclic results of aggregations cannot be used further"""
    seen, path = set(), set()

    def visit(n):
        if id(n) in path:
            return False
        if id(n) in seen:
            return True
        seen.add(id(n))
        path.add(id(n))
        ok = all(visit(c) for c in n.children)
        path.discard(id(n))
        return ok

    return bool(gf.graph.roots) and all(visit(r) for r in gf.graph.roots)


class World:
    def __init__(self, sim, builders):
        env.addresses(sim)
        self.pool = [g for f in builders for g in f()]

    def apply(self, op, i, j):
        a = self.pool[i]
        b = None if j is None else self.pool[j]
        out, r = ops.outcome_of(op, a, b)
        if op.kind == "inplace":
            # what a failed change leaves behind is part of the result, too
            out.append(ops.plain(a))
        return out, r

    def keep(self, op, i, out, r):
        if out[0] == "raised":
            if op.kind == "inplace":
                del self.pool[i]
        elif op.kind == "inplace":
            if r is not None:
                self.pool[i] = r
        elif op.kind == "new":
            for g in r if isinstance(r, list) else [r]:
                if len(self.pool) < 5 and groups_usable(g):
                    self.pool.append(g)


def scenario(sim):
    scratch = sim.tmp("s")
    builders = inputs(sim)
    w = World(sim, builders)
    start = [ops.plain(g) for g in w.pool]
    history = []
    succeeded = 0
    for step in range(1 + sim.choose(10, "steps")):
        if not w.pool:
            break
        i = sim.choose(len(w.pool), "on")
        a = w.pool[i]
        spec = ops.spec_of(a)
        op = ops.gen_op(sim, spec, ("new", "new", "value", "inplace"), scratch)
        j = None
        if op.binary:
            same = [k for k, o in enumerate(w.pool) if o.dataframe.index.names == a.dataframe.index.names]
            j = sim.pick(same, "with")
        what = "step %d: %s of %d%s" % (step, op, i, "" if j is None else ", %d" % j)
        sim.note(what)
        out, r = w.apply(op, i, j)
        n, rows = len(model.Walk(a.graph)), len(a.dataframe)
        sim.state((op.name.split("(")[0], out[0], n, rows, a.dataframe.index.nlevels))
        sim.observe(what.split(" of ")[0].split("(")[0], out)
        if out[0] == "ok":
            succeeded += n > 2
        else:
            sim.note("  raised %s" % out[1])
        w.keep(op, i, out, r)
        history.append((what, op, i, j, out))
    if succeeded > 1:
        sim.nontrivial()
    v = World(sim, builders)
    model.require_same("input-differs", start, [ops.plain(g) for g in v.pool], "the inputs")
    for what, op, i, j, out in history:
        again, r = v.apply(op, i, j)
        model.require_same("depends-on-addresses", out, again, what + ":")
        v.keep(op, i, again, r)
