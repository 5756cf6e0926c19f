"""A catalogue of GraphFrame operations with parameters decided by the simulator.

kind: "new" returns a GraphFrame and leaves its operands alone, "value" returns a plain
value and leaves its operands alone, "inplace" changes the first operand (only).
"""

import os

import numpy as np
import pandas as pd

from sim import gen, model

from .common import Pred, gen_pred


class Op:
    def __init__(self, name, kind, fn, binary=False, graph="same"):
        self.name, self.kind, self.fn, self.binary = name, kind, fn, binary
        # what the result's graph is: same, new, or none
        self.graph = graph

    def __call__(self, a, b=None):
        return self.fn(a, b) if self.binary else self.fn(a)

    def __str__(self):
        return self.name


class MetricPred:
    """A query predicate on a node's rows (a row, or a table of rows for an indexed node)."""

    def __init__(self, kind, arg, hook=None):
        self.kind, self.arg, self.hook = kind, arg, hook

    def __call__(self, row):
        if self.hook is not None:
            self.hook(row)
        if self.kind == "all":
            return True
        if isinstance(row, pd.DataFrame):
            name, time = row["name"].iloc[0], row["time"].max()
        else:
            name, time = row["name"], row["time"]
        if self.kind == "name":
            return name == self.arg
        if self.kind == "notname":
            return name != self.arg
        if self.kind == "ge":
            return bool(time >= self.arg)
        raise AssertionError

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.arg)


def spec_names(s):
    return sorted({v["name"] for _, v in s.rows})


def gen_query_pattern(sim, s, maxlen=3, hook=None):
    """[(quantifier, predicate)]"""
    out = []
    for _ in range(1 + sim.choose(maxlen, "query-len")):
        q = sim.pick([".", "*", "+", 2], "quantifier")
        k = sim.pick(["all", "name", "notname", "ge"], "qpred")
        arg = None
        if k in ("name", "notname"):
            arg = sim.pick(spec_names(s), "qname")
        elif k == "ge":
            arg = sim.choose(65, "qarg") / 8.0
        out.append((q, MetricPred(k, arg, hook)))
    return out


def build_query(pattern):
    from hatchet.query import Query

    q = Query()
    q.match(*pattern[0])
    for p in pattern[1:]:
        q.rel(*p)
    return q


def gen_dialect_query(sim, s):
    """(text, query object for filter) in the object or string dialect, or compound"""
    multi = len(s.levels) > 1
    name = sim.pick(spec_names(s), "qname")
    form = sim.choose(6 if not multi else 4, "dialect")
    if form == 0:
        return [("*", {"name": name})] if not multi else ["*", {"name": name}]
    if form == 1:
        return [("+", {"name": name}), "*"]
    if form == 2:
        return ["*", ("*", {"time": ">= %s" % (sim.choose(65, "qarg") / 8.0)})]
    if form == 3:
        return [{"depth": "<= %d" % sim.choose(4, "qdepth")}, "*"]
    if form == 4:
        return 'MATCH (".", p)->("*") WHERE p."name" = "%s"' % name
    return 'MATCH ("*", p) WHERE p."time" >= %s' % (sim.choose(65, "qarg") / 8.0)


AGGS = {"mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min}


def gen_op(sim, s, kinds=("new", "value", "inplace"), scratch=None, io=True, only=None):
    """An operation that usually applies to GraphFrames of specification s."""
    names = []
    if "new" in kinds:
        names += ["filter", "filter", "filter-query", "squash", "copy", "deepcopy", "add", "sub",
                  "mul", "div", "groupby", "json", "dict-round"]
        if io and scratch:
            names += ["hdf"]
    if "value" in kinds:
        names += ["tree", "dot", "flamegraph", "literal", "to_dict", "to_json", "query",
                  "graph-eq", "traverse", "columns"]
        if io and scratch:
            names += ["to_hdf"]
    if "inplace" in kinds:
        names += ["iadd", "isub", "imul", "idiv", "drop-levels", "update-inc", "gen-exc", "assign",
                  "cell", "metadata", "metric-list", "subgraph-sum", "unify"]
    if len(s.levels) > 1:
        # groupby_aggregate is defined for a table indexed by nodes only
        names = [n for n in names if n != "groupby"]
    if only:
        names = [n for n in names if n in only]
    n = sim.pick(names, "op")
    return make(sim, n, s, scratch)


def spec_of(gf):
    """what the operation generator needs to know of a GraphFrame"""
    s = gen.Spec()
    s.levels = list(gf.dataframe.index.names)
    s.exc, s.inc = list(gf.exc_metrics), list(gf.inc_metrics)
    s.columns = list(gf.dataframe.columns)
    s.default = gf.default_metric
    names = list(gf.dataframe["name"]) if "name" in s.columns else []
    s.rows = [((i,), {"name": str(n)}) for i, n in enumerate(names)] or [((0,), {"name": "main"})]
    return s


def make(sim, n, s, scratch=None):
    from hatchet.graphframe import GraphFrame
    from hatchet.query import ConjunctionQuery, DisjunctionQuery, NegationQuery

    multi = len(s.levels) > 1
    rank, thread = 0, 0
    metric = sim.pick(s.exc, "metric") if s.exc else "time"

    if n == "filter":
        p = gen_pred(sim, s)
        sq, up = bool(sim.choose(2, "squash")), bool(sim.choose(2, "update"))
        return Op("filter(%s, squash=%s, update=%s)" % (p, sq, up), "new",
                  lambda g: g.filter(p, squash=sq, update_inc_cols=up, num_procs=1))
    if n == "filter-query":
        q = gen_dialect_query(sim, s)
        sq = bool(sim.choose(2, "squash"))
        mode = sim.pick(["any", "all"], "mode") if multi else "off"
        return Op("filter(%r, squash=%s)" % (q, sq), "new",
                  lambda g: g.filter(q, squash=sq, multi_index_mode=mode))
    if n == "squash":
        up = bool(sim.choose(2, "update"))
        return Op("squash(%s)" % up, "new", lambda g: g.squash(update_inc_cols=up))
    if n == "copy":
        return Op("copy", "new", lambda g: g.copy())
    if n == "deepcopy":
        return Op("deepcopy", "new", lambda g: g.deepcopy())
    if n in ("add", "sub", "mul", "div"):
        import operator

        if sim.choose(2, "operator-form"):
            f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul,
                 "div": operator.truediv}[n]
        else:
            def f(a, b, n=n):
                return getattr(a, n)(b)
        return Op(n, "new", f, binary=True)
    if n == "groupby":
        by = "tag" if "tag" in s.columns else "name"
        ms = s.exc + s.inc
        if len(ms) > 1 and sim.chance(1, 3, "agg-some"):
            ms = sim.subset(ms, "agg-metrics") or ms[:1]
        agg = {m: AGGS[sim.pick(sorted(AGGS), "agg")] for m in ms}
        return Op("groupby_aggregate(%r, %s)" % (by, sorted(agg)), "new",
                  lambda g: g.groupby_aggregate([by], agg))
    if n == "json":
        return Op("from_json(to_json())", "new", lambda g: GraphFrame.from_json(g.to_json()))
    if n == "dict-round":
        return Op("from_literal(to_literal())", "new",
                  lambda g: GraphFrame.from_literal(g.to_literal()))
    if n == "hdf":
        fn = os.path.join(scratch, "round%d.hdf" % sim.choose(2, "file"))

        def f(g):
            g.to_hdf(fn)
            return GraphFrame.from_hdf(fn)

        return Op("from_hdf(to_hdf())", "new", f)
    if n == "to_hdf":
        fn = os.path.join(scratch, "out%d.hdf" % sim.choose(2, "file"))
        return Op("to_hdf", "value", lambda g: g.to_hdf(fn))
    if n == "tree":
        rank = sim.choose(2, "rank") if multi else 0
        ctx = bool(sim.choose(2, "expand"))
        kw = {}
        if sim.choose(2, "colours"):
            # of effect on a terminal
            kw["colormap"] = sim.pick(["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "Spectral"], "colormap")
            kw["invert_colormap"] = bool(sim.choose(2, "invert"))
            kw["highlight_name"] = bool(sim.choose(2, "highlight"))
            if sim.choose(2, "annotations"):
                kw["annotation_column"] = "name"
                kw["colormap_annotations"] = sim.pick(["RdBu", "PRGn", ["\033[31m", "\033[32m"]], "annotation-map")
            if sim.choose(3, "depth") == 2:
                kw["depth"] = 1 + sim.choose(3, "levels")
        shown = metric
        if sim.chance(1, 3, "metrics-shown"):
            # with a warning, if there are more than two
            shown = sim.shuffle(s.exc + s.inc, "shown")[:1 + sim.choose(3, "how-many")] or metric
        if sim.chance(1, 4, "numbers"):
            kw.update(precision=sim.choose(4, "precision"), min_value=sim.choose(3, "min"), max_value=sim.choose(40, "max"))
        if sim.chance(1, 4, "no-header"):
            kw["render_header"] = False
        if sim.chance(1, 4, "context"):
            kw["context_column"] = sim.pick([c for c in s.columns if isinstance(c, str)] or ["name"], "context-column")
        if sim.chance(1, 4, "annotation"):
            kw["annotation_column"] = sim.pick([c for c in s.columns if isinstance(c, str)] or ["name"], "annotated")
            if sim.choose(2, "named-colours") and kw["annotation_column"] == "name":
                kw["colormap_annotations"] = {n: "\033[3%dm" % (i % 7) for i, n in enumerate(spec_names(s))}
        if "thread" in s.levels:
            kw["thread"] = sim.choose(2, "thread")
        return Op("tree(%r, rank=%d, %s)" % (shown, rank, kw), "value",
                  lambda g: g.tree(metric_column=shown, rank=rank, expand_name=ctx, **kw))
    if n in ("dot", "flamegraph", "literal"):
        kw = {}
        if sim.chance(1, 2, "one-of-many") and multi:
            kw = {"rank": sim.choose(2, "rank"), "thread": sim.choose(2, "thread")}
        if n == "literal":
            if sim.chance(1, 3, "categories"):
                kw["cat_columns"] = sim.subset([c for c in s.columns if isinstance(c, str)], "columns")
            return Op("to_literal(%s)" % kw, "value", lambda g: g.to_literal(**kw))
        if sim.chance(1, 3, "threshold"):
            kw["threshold"] = sim.choose(4, "threshold") / 4.0
        if n == "dot":
            return Op("to_dot(%r, %s)" % (metric, kw), "value", lambda g: g.to_dot(metric=metric, **kw))
        return Op("to_flamegraph(%r, %s)" % (metric, kw), "value", lambda g: g.to_flamegraph(metric=metric, **kw))
    if n == "to_dict":
        return Op("to_dict", "value", lambda g: g.to_dict())
    if n == "to_json":
        return Op("to_json", "value", lambda g: g.to_json())
    if n == "query":
        pat = [gen_query_pattern(sim, s, 3) for _ in range(2)]
        form = sim.choose(5, "compound")

        def f(g):
            if form == 4:
                # the old-style interface, with an engine for all graphframes
                from hatchet.query import QueryMatcher

                m = QueryMatcher().match(*pat[0][0])
                for x in pat[0][1:]:
                    m.rel(*x)
                return m.apply(g)
            a, b = build_query(pat[0]), build_query(pat[1])
            q = [a, ConjunctionQuery(a, b), DisjunctionQuery(a, b), NegationQuery(a)][form]
            return g.query_engine.apply(q, g.graph, g.dataframe)

        return Op("query(%r, %d)" % (pat, form), "value", f)
    if n == "graph-eq":
        return Op("graph == graph", "value", lambda a, b: a.graph == b.graph, binary=True)
    if n == "traverse":
        order = sim.pick(["pre", "post"], "order")
        return Op("traverse(%s)" % order, "value",
                  lambda g: [x._hatchet_nid for x in g.graph.traverse(order=order)]
                  + [len(g.graph), g.graph.is_tree()])
    if n == "columns":
        return Op("show_metric_columns", "value", lambda g: g.show_metric_columns())
    # -- in place ---------------------------------------------------------------
    if n in ("iadd", "isub", "imul", "idiv"):
        m = "__%s__" % n

        def f(a, b):
            return getattr(a, m)(b)

        return Op(n, "inplace", f, binary=True)
    if n == "unify":
        # changes both operands; the callers that use it give it a copy
        return Op("unify", "inplace", lambda a, b: a.unify(b.copy()), binary=True)
    if n == "drop-levels":
        ag = sim.pick(sorted(AGGS), "agg")
        return Op("drop_index_levels(%s)" % ag, "inplace",
                  lambda g: g.drop_index_levels(function=AGGS[ag]))
    if n == "update-inc":
        return Op("update_inclusive_columns", "inplace", lambda g: g.update_inclusive_columns())
    if n == "gen-exc":
        return Op("generate_exclusive_columns", "inplace",
                  lambda g: g.generate_exclusive_columns())
    if n == "subgraph-sum":
        out = sim.pick([None, ["out"]], "out")
        if sim.chance(1, 4, "of-a-tree"):
            return Op("subtree_sum(%r, %r)" % (metric, out), "inplace", lambda g: g.subtree_sum([metric], out))
        return Op("subgraph_sum(%r, %r)" % (metric, out), "inplace",
                  lambda g: g.subgraph_sum([metric], out))
    if n == "assign":
        col = sim.pick(["extra1", metric], "column")
        v = sim.choose(9, "value") / 2.0

        def f(g):
            g.dataframe[col] = v

        return Op("dataframe[%r] = %s" % (col, v), "inplace", f)
    if n == "cell":
        i = sim.choose(50, "row")
        v = 1000.0 + sim.choose(9, "value")

        def f(g):
            df = g.dataframe
            df.iloc[i % len(df), list(df.columns).index(metric)] = v

        return Op("cell %d of %r = %s" % (i, metric, v), "inplace", f)
    if n == "metadata":
        k = sim.pick(["run", "new"], "key")

        def f(g):
            g.metadata[k] = 99

        return Op("metadata[%r] = 99" % k, "inplace", f)
    if n == "metric-list":
        which = sim.pick(["exc_metrics", "inc_metrics"], "list")
        how = sim.choose(2, "how")

        def f(g):
            lst = getattr(g, which)
            if how == 0 or not lst:
                if "zero" not in g.dataframe.columns:
                    g.dataframe = g.dataframe.assign(zero=0.0)
                if "zero" not in g.exc_metrics + g.inc_metrics:
                    lst.append("zero")
            else:
                lst.pop()

        return Op("%s %s" % (which, ["append", "pop"][how]), "inplace", f)
    raise AssertionError(n)


def plain(x):
    """A comparable value for whatever an operation returned."""
    from hatchet.graphframe import GraphFrame
    from hatchet.node import Node

    if isinstance(x, GraphFrame):
        return ["graphframe", model.snap(x)]
    if isinstance(x, Node):
        return ["node", x._hatchet_nid]
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(n, Node) for n in x):
            return ["nodes", sorted(n._hatchet_nid for n in x)]
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return model.norm(x)


def outcome_of(op, a, b=None):
    """['ok', plain result] or ['raised', type name]; and the raw result"""
    try:
        r = op(a, b)
    except Exception as e:
        return ["raised", type(e).__name__], e
    return ["ok", plain(r)], r
