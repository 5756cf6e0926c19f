"""Inclusive and exclusive metrics stay consistent with the graph."""

import numpy as np

from sim import env, gen, model
from sim.core import Violation
from sim.sched import Interrupter

from . import ops

SETTINGS = {
    "quick": {"runs": 2200, "cap_s": 150},
    "thorough": {"runs": 40000, "cap_s": 700},
    "rule": "a run generates a GraphFrame (up to 10 nodes, shared children, ranks and threads with missing "
    "rows, missing values, exclusive or only inclusive metrics) and applies a history of up to 8 steps: "
    "recomputing inclusive columns, generating exclusive ones, subgraph and subtree sums, dropping "
    "index levels with several aggregates, changes of cells, filters, squashes, copies and arithmetic, under simulated node addresses; some "
    "recomputations are interrupted at a decided line and repeated; every recomputation is compared "
    "with a model computed from the values before it; non-trivial: a recomputation over a node with "
    "descendants was checked",
    "states": "digests of (kind of recomputation, nodes, rows, index levels, tree or shared children)",
    "real": ["update_inclusive_columns, generate_exclusive_columns, subgraph_sum, subtree_sum, pandas"],
    "stub": ["id() in hatchet (simulated allocator)"],
    "assumptions": ["every node has a row for at least one rank and thread"],
}


class State:
    """The table of a GraphFrame as plain values, and its edges."""

    def __init__(self, gf):
        w = model.Walk(gf.graph)
        self.roots = [w.index[id(r)] for r in gf.graph.roots]
        self.children = [[w.index[id(c)] for c in n.children] for n in w.nodes]
        df = gf.dataframe
        names = list(df.index.names)
        at = names.index("node")
        cols = [list(df[c]) for c in df.columns]
        self.columns = list(df.columns)
        self.keys, self.rows = [], {}
        for i, label in enumerate(df.index):
            label = (label,) if len(names) == 1 else label
            key = (w.index[id(label[at])],) + tuple(
                model.norm(x) for j, x in enumerate(label) if j != at)
            self.keys.append(key)
            self.rows[key] = {c: model.norm(cols[j][i]) for j, c in enumerate(self.columns)}
        self.exc, self.inc = list(gf.exc_metrics), list(gf.inc_metrics)
        self.rest = [model.canon_graph(gf.graph), gf.default_metric, model.norm(gf.metadata),
                     id(gf.graph), [id(n) for n in w.nodes]]

    def below(self, i):
        seen, todo = [], [i]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.append(x)
                todo.extend(self.children[x])
        return seen

    def is_tree(self):
        return all(sum(i in c for c in self.children) + (i in self.roots) == 1
                   for i in range(len(self.children)))

    def full(self):
        """every node has a row for every rank and thread"""
        labels = {k[1:] for k in self.keys}
        return len(self.rows) == len(self.children) * len(labels)

    def numeric(self, c):
        return all(not isinstance(r[c], str) or r[c] == "nan" for r in self.rows.values())

    def combine(self, col, how="sum"):
        out = {}
        for k in self.keys:
            v = [self.rows[(d,) + k[1:]][col] for d in self.below(k[0]) if (d,) + k[1:] in self.rows]
            v = [x for x in v if x != "nan"]
            out[k] = (max(v) if how == "max" else sum(v)) if v else "nan"
        return out

    def put(self, col, values):
        if col not in self.columns:
            self.columns.append(col)
        for k in self.keys:
            self.rows[k][col] = values[k]

    # -- the operations -------------------------------------------------------
    def update(self):
        if not self.exc:
            return
        new = [m[:-len("(exc)")].strip() if m.endswith("(exc)") else m + " (inc)" for m in self.exc]
        sums = [self.combine(m) for m in self.exc]
        for m, v in zip(new, sums):
            self.put(m, v)
        self.inc = list(dict.fromkeys(new + self.inc))

    def generate(self, only):
        pairs = []
        for m in self.inc:
            if only and m not in only or not self.numeric(m):
                continue
            if m.endswith("(inc)"):
                if m[:-len("(inc)")].strip() not in self.exc:
                    pairs.append((m[:-len("(inc)")].strip(), m))
            else:
                pairs.append((m + " (exc)", m))
        for exc, inc in pairs:
            v = {}
            for k in self.keys:
                x = self.rows[k][inc]
                for c in self.children[k[0]]:
                    y = self.rows[(c,) + k[1:]][inc]
                    if x != "nan" and y != "nan":
                        x -= y
                v[k] = x
            self.put(exc, v)
        self.exc = list(dict.fromkeys(self.exc + [e for e, _ in pairs]))

    def sums(self, cols, out, how):
        vals = [self.combine(c, how) for c in cols]
        for o, v in zip(out or cols, vals):
            self.put(o, v)

    def drop(self, how):
        """one row per node: metrics by the function, the rest from the first row"""
        rows = {}
        for k in self.keys:
            rows.setdefault(k[:1], []).append(self.rows[k])
        self.keys = [k for k in dict.fromkeys(k[:1] for k in self.keys)]
        self.rows = {}
        for k in self.keys:
            self.rows[k] = {}
            for c in self.columns:
                v = [r[c] for r in rows[k]]
                if c in self.exc + self.inc:
                    v = [x for x in v if x != "nan"]
                    v = [how(v) if v else "nan"]
                self.rows[k][c] = v[0]


AGGREGATES = {
    "mean": (np.mean, lambda v: sum(v) / len(v)), "max": (np.max, max), "min": (np.min, min),
    "default": (None, lambda v: sum(v) / len(v)), "median": (np.median, lambda v: float(np.median(v))),
    "spread": (lambda x: x.max() - x.min(), lambda v: max(v) - min(v)),
}


def close(a, b):
    if a == b:
        return True
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def compare(want, got, what):
    if want.keys != got.keys:
        raise Violation("rows-changed", "%s: %r, were %r" % (what, got.keys, want.keys))
    if want.columns != got.columns:
        raise Violation("columns-differ", "%s: %r, expected %r" % (what, got.columns, want.columns))
    for k in want.keys:
        for c in want.columns:
            a, b = want.rows[k][c], got.rows[k][c]
            if not close(a, b):
                raise Violation("value-differs", "%s: %s of row %r is %r, expected %r" % (what, c, k, b, a))
    for n in ("exc", "inc"):
        if getattr(want, n) != getattr(got, n):
            raise Violation("metric-lists-differ", "%s: %s %r, expected %r" % (
                what, n, getattr(got, n), getattr(want, n)))
    model.require_same("graph-changed", want.rest, got.rest, what)


def inclusive_only(sim, gf):
    """leave only the inclusive columns, as some profilers deliver them"""
    suffix = sim.choose(2, "suffix")
    for m in list(gf.exc_metrics):
        gf.dataframe = gf.dataframe.drop(columns=[m])
        if not suffix:
            gf.dataframe = gf.dataframe.rename(columns={m + " (inc)": m})
            gf.inc_metrics[gf.inc_metrics.index(m + " (inc)")] = m
    del gf.exc_metrics[:]
    gf.default_metric = gf.inc_metrics[0]


def scenario(sim):
    dag = sim.chance(1, 3, "dag")
    s = gen.spec(sim, ordered=True, max_nodes=10, dag=dag, large=100, sparse=sim.chance(1, 3, "sparse"),
                 nan=sim.chance(1, 2, "nan"), inc=bool(sim.choose(2, "inc")),
                 negative=sim.chance(1, 4, "negative"))
    gf = gen.build(s)
    sim.note(str(s))
    if s.inc and sim.choose(2, "inclusive-only"):
        inclusive_only(sim, gf)
        sim.note("only inclusive: %r" % gf.inc_metrics)
    env.addresses(sim)
    undo = None  # inclusive values before exclusive ones were generated from them
    for step in range(1 + sim.choose(8, "steps")):
        pre = State(gf)
        if any(k not in {q[0] for q in pre.keys} for k in range(len(pre.children))):
            return  # squash can leave callers without rows; out of scope
        kind = sim.weighted([(4, "update"), (3, "generate"), (2, "sums"), (2, "cell"), (2, "derive"),
                             (1, "drop")], "step")
        again = sim.chance(1, 3, "again")
        what = "step %d, %s" % (step, kind)
        if kind == "update":
            def f():
                gf.update_inclusive_columns()
            pre.update()
        elif kind == "generate":
            only = sim.pick([None, None, gf.inc_metrics[:1]], "only")
            arg = only[0] if only and sim.choose(2, "string") else only
            can = pre.full() or all(
                (c,) + k[1:] in pre.rows for k in pre.keys for c in pre.children[k[0]])

            def f():
                gf.generate_exclusive_columns(arg) if only else gf.generate_exclusive_columns()
            if not can:
                continue  # reported by an error, not by values
            pre.generate(only)
        elif kind == "sums":
            cols = [c for c in gf.exc_metrics + gf.inc_metrics if pre.numeric(c)]
            cols = sim.subset(cols, "columns") or cols[:1]
            out = sim.pick([None, ["out%d" % i for i in range(len(cols))]], "out")
            how = sim.pick(["sum", "max"], "function")
            tree = pre.is_tree() and pre.full() and sim.choose(2, "subtree")
            again = again and out is not None
            kw = {} if how == "sum" else {"function": lambda x: x.max()}
            what += "%s %r %r %s" % ("-tree" if tree else "", cols, out, how)

            def f():
                (gf.subtree_sum if tree else gf.subgraph_sum)(cols, out, **kw)
            pre.sums(cols, out, how)
        elif kind == "drop":
            if not all(pre.numeric(c) for c in pre.exc + pre.inc):
                continue
            name = sim.pick(sorted(AGGREGATES), "aggregate")
            func, how = AGGREGATES[name]
            what += " %s" % name
            sim.note(what)
            (gf.drop_index_levels() if func is None else gf.drop_index_levels(func))
            pre.drop(how)
            now = State(gf)
            pre.keys.sort()
            now.keys.sort()
            compare(pre, now, what)
            sim.state((kind, name, len(pre.children), len(pre.keys)))
            undo = None
            continue
        elif kind == "cell":
            op = ops.make(sim, sim.pick(["cell", "assign"], "change"), s) if gf.exc_metrics == s.exc else None
            if op is not None:
                sim.note("step %d, %s" % (step, op))
                op(gf)
                undo = None
            continue
        else:
            op = ops.gen_op(sim, ops.spec_of(gf), ("new",), None, io=False,
                            only=("filter", "squash", "copy", "deepcopy", "add", "json"))
            sim.note("step %d, %s" % (step, op))
            try:
                gf = op(gf, gf) if op.binary else op(gf)
            except Exception as e:
                sim.note("  raised %s" % type(e).__name__)
            if len(gf.dataframe) == 0:
                return
            undo = None
            continue
        sim.note(what)
        if kind != "sums" and sim.chance(1, 4, "fault"):
            i = Interrupter(1 + sim.skewed(300, "line"), sim.pick([MemoryError, KeyboardInterrupt], "exc")("injected"))
            try:
                with i:
                    f()
            except (MemoryError, KeyboardInterrupt):
                sim.fault("interrupted recomputation")
                sim.note("  interrupted at %s" % i.fired)
                # the lists of metrics are those the failed call left
                exc, inc = list(gf.exc_metrics), list(gf.inc_metrics)
                if kind == "update":
                    pre.inc = list(dict.fromkeys(pre.inc[:len(pre.exc)] + inc))
                f()
        else:
            f()
        post = State(gf)
        compare(pre, post, what)
        if again:
            f()
            compare(post, State(gf), what + " repeated")
        if kind == "generate" and pre.is_tree():
            undo = {c: {k: post.rows[k][c] for k in post.keys} for c in post.inc
                    if all(post.rows[k][c] != "nan" for k in post.keys)}
            undo = {c: v for c, v in undo.items()
                    if (c + " (exc)" if not c.endswith("(inc)") else c[:-5].strip()) in post.exc}
            if step == 0:
                gf.update_inclusive_columns()
                now = State(gf)
                for c, v in undo.items():
                    for k in v:
                        if not close(v[k], now.rows[k][c]):
                            raise Violation("not-inverse", "%s: %s of %r is %r, was %r" % (
                                what, c, k, now.rows[k][c], v[k]))
        sim.state((kind, len(post.children), len(post.keys), gf.dataframe.index.nlevels, post.is_tree()))
        if any(post.children):
            sim.nontrivial()
