"""GraphFrames derived from one another are independent afterwards."""

from sim import env, formats, gen, model
from sim.core import Violation

from . import ops

SETTINGS = {
    "quick": {"runs": 2200, "cap_s": 150},
    "thorough": {"runs": 40000, "cap_s": 700},
    "rule": "a run keeps a pool of GraphFrames (built, copied, deep-copied, filtered, squashed, combined, "
    "aggregated, reloaded) and a history of up to 14 steps that derive another member from one or two "
    "members or change a member in place (columns, cells, rows, metric lists, metadata, arithmetic, "
    "frames, graph edits); after every step every other member's deep snapshot is compared; "
    "non-trivial: a member was changed while another derived from it was alive",
    "states": "digests of (how the watched member is related to the changed one, kind of change)",
    "real": ["every GraphFrame operation, readers and writers for JSON, literal and HDF5, pandas"],
    "stub": ["id() in hatchet (simulated allocator)"],
    "assumptions": ["shallow copies share stored cells and the graph; unsquashed filters and arithmetic "
                    "of GraphFrames with one graph share the graph"],
}


class Member:
    def __init__(self, gf, gg, cg, how, spec):
        self.gf, self.gg, self.cg, self.how, self.spec = gf, gg, cg, how, spec
        self.snap = model.deep_snap(gf)


def bare(gf):
    """the same data in a GraphFrame constructed without any optional argument"""
    from hatchet.graphframe import GraphFrame

    return GraphFrame(gf.graph, gf.dataframe.copy())


def without_cells(s):
    s = dict(s)
    names, cols, rows = s["table"]
    s["table"] = [names, cols, [r[0] for r in rows]]
    s.pop("dtypes")
    return s


def related(a, b):
    if a.cg == b.cg:
        return "shares cells"
    if a.gg == b.gg:
        return "shares graph"
    return "separate"


READ = [k for k in formats.KINDS if k != "hpctoolkit"]

MUTATORS = ["iadd", "isub", "imul", "idiv", "drop-levels", "update-inc", "gen-exc", "assign", "cell", "metadata",
            "metric-list", "subgraph-sum", "unify", "frame", "edge", "default", "delete-column",
            "drop-rows", "sort", "loc-node", "rename", "nested-list", "export", "nested-metadata"]


def wreck(x):
    """Change every container a caller was handed."""
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            wreck(v)
        x.clear()


def mutate(sim, m, others):
    """(description, function, level): level of sharing the change may travel along"""
    gf = m.gf
    kind = sim.pick(MUTATORS, "mutator")
    if kind in ("frame", "edge"):
        nodes = model.Walk(gf.graph).nodes
        if not nodes:
            return kind, lambda: None, "none"
        n = nodes[sim.choose(len(nodes), "node")]
        if kind == "frame":
            def f():
                n.frame.attrs["mark"] = "x"
        else:
            def f():
                from hatchet.frame import Frame
                from hatchet.node import Node

                c = Node(Frame({"name": "new", "type": "function"}))
                n.add_child(c)
                c.add_parent(n)
                gf.graph.enumerate_traverse()
                gf.graph.enumerate_depth()
        return kind, f, "graph"
    if kind == "default":
        def f():
            gf.default_metric = "other"
        return kind, f, "none"
    if kind == "delete-column":
        cols = [c for c in gf.dataframe.columns if c != "name"]
        if not cols:
            return kind, lambda: None, "none"
        c = sim.pick(cols, "column")

        def f():
            del gf.dataframe[c]
            for lst in (gf.exc_metrics, gf.inc_metrics):
                if c in lst:
                    lst.remove(c)
        return kind, f, "none"
    if kind == "drop-rows":
        def f():
            gf.dataframe.drop(gf.dataframe.index[:1], inplace=True)
        return kind, f, "none"
    if kind == "sort":
        def f():
            gf.dataframe.sort_index(inplace=True, ascending=False)
        return kind, f, "none"
    if kind == "rename":
        def f():
            gf.dataframe.rename(columns={"name": "label"}, inplace=True)
            gf.dataframe["name"] = gf.dataframe["label"]
        return kind, f, "none"
    if kind == "loc-node":
        nodes = list(gf.dataframe.index.get_level_values("node"))
        if not nodes or "time" not in gf.dataframe.columns:
            return kind, lambda: None, "none"
        n = nodes[sim.choose(len(nodes), "node")]

        def f():
            gf.dataframe.loc[n, "time"] = 4711.0
        return kind, f, "cells"
    if kind == "export":
        which = sim.pick(["to_literal", "to_dict", "show_metric_columns"], "export")

        def f():
            wreck(getattr(gf, which)())
        return which, f, "export"
    if kind == "nested-metadata":
        def f():
            wreck(list(gf.metadata.values()))
        return kind, f, "none"
    if kind == "nested-list":
        def f():
            gf.exc_metrics.insert(0, "time")
            gf.inc_metrics.append("time")
            gf.metadata.clear()
        return kind, f, "none"
    op = ops.make(sim, kind, m.spec)
    other = sim.pick(others, "operand") if op.binary else None

    def f():
        return op(gf, other.gf if other else None)

    level = "none"
    if kind in ("cell",) or (kind == "subgraph-sum" and op.name.endswith("None)")):
        level = "cells"
    if other is not None:
        return (op.name, f, "operand") if other.gg == m.gg else (op.name, f, "new-graph")
    return op.name, f, level


def scenario(sim):
    scratch = sim.tmp("s")
    pool = []
    fresh = [0]

    def group():
        fresh[0] += 1
        return fresh[0]

    def build():
        s = gen.spec(sim, ordered=True, max_nodes=6, dup=bool(sim.choose(2, "dup")), dag=sim.chance(1, 6, "dag"),
                     recursion=True, inc=bool(sim.choose(2, "inc")), levels=levels, metrics=metrics)
        g = gen.build(s)
        if sim.chance(1, 6, "bare"):
            g = bare(g)
            sim.note("built without optional arguments: %s" % s)
            return Member(g, group(), group(), "bare", s)
        sim.note("built: %s" % s)
        return Member(g, group(), group(), "built", s)

    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(3, ["time"]), (2, ["time", "bytes"])], "metrics")
    for k in range(1 + sim.choose(2, "inputs")):
        if sim.chance(1, 5, "read"):
            # GraphFrames a reader returned, also several from one call
            kind = sim.pick(READ, "format")
            p = formats.generate(sim, kind, 6)
            sim.note("read: %s" % p)
            r = p.write(sim.tmp("in%d" % k)).load()
            gg = group()  # the timesteps of a series have one graph
            for g in r[:3] if isinstance(r, list) else [r]:
                pool.append(Member(g, gg, group(), kind, ops.spec_of(g)))
        else:
            pool.append(build())
    env.addresses(sim)
    for step in range(1 + sim.choose(14, "steps")):
        if len(pool) < 6 and sim.chance(1, 2, "derive"):
            m = sim.pick(pool, "from")
            if sim.chance(1, 8, "unrelated"):
                pool.append(build())
                what = "step %d, building another" % step
            else:
                kinds = ("new",)
                op = ops.gen_op(sim, m.spec, kinds, scratch)
                other = sim.pick(pool, "with") if op.binary else None
                what = "step %d, member %d = %s of %d%s" % (
                    step, len(pool), op, pool.index(m), ", %d" % pool.index(other) if other else "")
                sim.note(what)
                try:
                    r = op(m.gf, other.gf if other else None)
                except Exception as e:
                    r = None
                    sim.note("raised %s" % type(e).__name__)
                if r is not None:
                    gg, cg = group(), group()
                    if op.name == "copy":
                        gg, cg = m.gg, m.cg
                    elif op.name.startswith("filter(") and "squash=False" in op.name:
                        gg = m.gg
                    elif other is not None and other.gg == m.gg:
                        gg = m.gg
                    pool.append(Member(r, gg, cg, op.name.split("(")[0], m.spec))
            changed, level = None, "none"
        else:
            m = sim.pick(pool, "target")
            name, f, level = mutate(sim, m, pool)
            what = "step %d, changing member %d (%s): %s" % (step, pool.index(m), m.how, name)
            sim.note(what)
            try:
                f()
            except Exception as e:
                sim.note("raised %s" % type(e).__name__)
                if level == "graph":
                    raise
                if name in ("iadd", "isub", "imul", "idiv", "unify") and len(pool) > 1:
                    # what a failed in-place operation leaves is nobody's promise
                    pool.remove(m)
            changed = m if level != "export" else None
            if len(pool) > 1:
                sim.nontrivial()
            for o in pool:
                if o is not m:
                    sim.state((related(o, m), o.how, m.how, name.split("(")[0]))
        for i, o in enumerate(pool):
            if o is changed:
                continue
            now = model.deep_snap(o.gf)
            if changed is not None and level == "graph" and o.gg == changed.gg:
                o.snap = now
                continue
            a, b = o.snap, now
            if changed is not None and level == "cells" and o.cg == changed.cg:
                a, b = without_cells(a), without_cells(b)
                o.snap = now
            d = model.diff(a, b)
            if d:
                raise Violation(
                    "changed:%s" % (related(o, changed) if changed else "by deriving"),
                    "%s changed member %d (%s): %s" % (what, i, o.how, d))
        if changed is not None:
            if level == "new-graph":
                changed.gg = group()
            changed.snap = model.deep_snap(changed.gf)
