"""Graph and table stay consistent through every history of operations."""

from sim import env, formats, gen, model, mp
from sim.core import Violation
from sim.sched import Interrupter

from . import ops

SETTINGS = {
    "quick": {"runs": 1600, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "rule": "a run starts from one to three GraphFrames, built or read from generated profiles of 15 kinds, "
    "and applies up to 14 operations (filters, queries, squashes, copies, arithmetic, aggregation, round "
    "trips through JSON, HDF5 and literals, in-place changes), some of which are made to fail at a "
    "decided line; after each step the structure of every live GraphFrame is checked; non-trivial: at "
    "least two operations succeeded",
    "states": "digests of (where the GraphFrame came from, last operation, nodes, rows, index levels)",
    "real": ["every reader, GraphFrame operation and round trip, pandas, PyTables"],
    "stub": ["id() in hatchet (simulated allocator)", "the SpotDB library handle",
             "process scheduling of the HPCToolkit reader's pool"],
    "assumptions": ["graphs without cycles; results of failed in-place operations are not used"],
}


class Member:
    def __init__(self, gf, how, spec, loose, dag, origin):
        self.gf, self.how, self.spec, self.loose, self.dag = gf, how, spec, loose, dag
        self.origin = origin


def is_dag(gf):
    return any(len(n.parents) > 1 for n in model.Walk(gf.graph).nodes)


def cyclic(gf):
    color = {}

    def visit(n):
        color[id(n)] = 1
        for c in n.children:
            k = color.get(id(c))
            if k == 1 or (k is None and visit(c)):
                return True
        color[id(n)] = 2
        return False

    return any(visit(r) for r in gf.graph.roots if id(r) not in color)


def scenario(sim):
    scratch = sim.tmp("s")
    pool = []
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(3, ["time"]), (2, ["time", "bytes"])], "metrics")

    def take(r, how, loose, origin, what):
        for g in r if isinstance(r, list) else [r]:
            model.check_structure(g, what, root_parents=loose, tree_depths=not loose)
            if cyclic(g) or how == "groupby_aggregate" and any(n.parents for n in g.graph.roots):
                return
            if len(pool) < 6:
                pool.append(Member(g, how, ops.spec_of(g), loose, is_dag(g), origin))

    def start(k):
        if sim.chance(1, 2, "read"):
            kind = sim.pick(formats.KINDS, "format")
            p = formats.generate(sim, kind, 7)
            sim.note("input %d: %s" % (k, p))
            if kind == "hpctoolkit":
                mp.begin(sim, mp.Plan(cpus=1 + sim.choose(3, "cpus")))
            try:
                r = p.write(sim.tmp("in%d" % k)).load()
            finally:
                if kind == "hpctoolkit":
                    mp.end()
            sim.count("read " + kind)
            take(r, "read", False, kind, "reading %s" % p)
            return
        dag = sim.chance(1, 4, "dag")
        s = gen.spec(sim, ordered=True, max_nodes=8, dag=dag, levels=levels, metrics=metrics, large=100,
                     inc=bool(sim.choose(2, "inc")), sparse=sim.chance(1, 3, "sparse"),
                     norows=sim.chance(1, 3, "norows"), attrs=sim.chance(1, 3, "attrs"))
        sim.note("input %d: %s" % (k, s))
        take(gen.build(s), "built", False, "built", "building")

    env.addresses(sim)
    for k in range(1 + sim.choose(3, "inputs")):
        start(k)
    succeeded = 0
    for step in range(1 + sim.choose(14, "steps")):
        m = sim.pick(pool, "on")
        kinds = ("new", "new", "inplace") if sim.chance(1, 3, "inplace") else ("new",)
        op = ops.gen_op(sim, m.spec, kinds, scratch)
        others = [o for o in pool if o.spec.levels == m.spec.levels
                  and set(m.spec.exc + m.spec.inc) == set(o.spec.exc + o.spec.inc)]
        o = sim.pick(others, "with") if op.binary else None
        # which graphs may have roots with parents
        dag = m.dag or (o is not None and o.dag)
        loose = m.loose or (o is not None and o.loose)
        if op.name.startswith(("filter(", "squash")) and dag:
            loose = True
        if op.name.startswith("groupby"):
            loose = True
        what = "step %d: %s of member %d (%s)%s" % (
            step, op, pool.index(m), m.origin, ", %d" % pool.index(o) if o else "")
        sim.note(what)
        fault = sim.chance(1, 5, "fault")
        r = failed = None
        if fault:
            i = Interrupter(1 + sim.skewed(400, "line"), MemoryError("injected"))
            try:
                with i:
                    r = op(m.gf, o.gf if o else None)
            except Exception as e:
                failed = e
            if i.fired:
                sim.fault("MemoryError in an operation")
                sim.note("  MemoryError at %s" % i.fired)
        else:
            try:
                r = op(m.gf, o.gf if o else None)
            except Exception as e:
                failed = e
        if failed is not None:
            sim.note("  raised %s" % type(failed).__name__)
            if op.kind == "inplace":
                pool.remove(m)
                if not pool:
                    start(3)
        else:
            succeeded += 1
            if op.kind == "inplace":
                m.loose = loose
                m.spec = ops.spec_of(m.gf)
                m.dag = is_dag(m.gf)
                m.how = op.name.split("(")[0]
            elif r is not None:
                take(r, op.name.split("(")[0], loose, m.origin, what)
        for k, x in enumerate(pool):
            model.check_structure(x.gf, "%s; member %d (%s)" % (what, k, x.origin), root_parents=x.loose,
                                  tree_depths=not x.loose)
            df = x.gf.dataframe
            sim.state((x.origin, x.how, len(model.Walk(x.gf.graph)), len(df), df.index.nlevels))
    if succeeded > 1:
        sim.nontrivial()
