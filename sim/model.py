"""Snapshots of GraphFrames as plain values, consistency checks, comparisons."""

import math

import numpy as np
import pandas as pd

from .core import Violation


def norm(v):
    """A plain comparable value."""
    if v is None:
        return None
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        if v == int(v) and abs(v) < 1e15:
            return int(v)
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if v is pd.NA or v is pd.NaT:
        return "nan"
    return repr(v)


class Walk:
    """An identity-based walk over a graph, independent of hatchet's traversals."""

    def __init__(self, graph):
        self.graph = graph
        self.nodes = []
        self.index = {}
        stack = list(reversed(list(graph.roots)))
        order = []
        seen = {}
        todo = list(graph.roots)
        while todo:
            n = todo.pop(0)
            if id(n) in seen:
                continue
            seen[id(n)] = n
            order.append(n)
            todo.extend(n.children)
        self.nodes = order
        self.index = {id(n): i for i, n in enumerate(order)}

    def __len__(self):
        return len(self.nodes)


def check_structure(gf, what="", tree_depths=True, lookup=True, root_parents=False):
    """A05's invariants on one GraphFrame.

    root_parents: a node with several callers, one of them a removed root, may be both a root
    and a child (squash keeps both call paths); groups of nodes may call each other.
    """

    def bad(sig, msg):
        raise Violation(sig, "%s: %s" % (what, msg))

    g = gf.graph
    w = Walk(g)
    if len(set(map(id, g.roots))) != len(g.roots):
        bad("root-repeated", "a root is listed twice")
    for r in g.roots:
        if r.parents and not root_parents:
            bad("root-has-parent", "root %r has parents %r" % (r, r.parents))
    for n in w.nodes:
        if len(set(map(id, n.children))) != len(n.children):
            bad("child-repeated", "node %r lists a child twice" % n)
        if len(set(map(id, n.parents))) != len(n.parents):
            bad("parent-repeated", "node %r lists a parent twice" % n)
        for c in n.children:
            if not any(p is n for p in c.parents):
                bad("missing-parent-link", "%r is a child of %r but does not list it" % (c, n))
        for p in n.parents:
            if id(p) not in w.index:
                bad("foreign-parent", "%r has a parent outside the graph: %r" % (n, p))
            if not any(c is n for c in p.children):
                bad("missing-child-link", "%r is a parent of %r but does not list it" % (p, n))
    nids = [n._hatchet_nid for n in w.nodes]
    if len(set(nids)) != len(nids):
        bad("duplicate-node-ids", "node ids %r" % sorted(nids))
    if tree_depths and not any(r.parents for r in g.roots):
        for n in w.nodes:
            want = sorted({p._depth + 1 for p in n.parents}) or [0]
            if n._depth not in want:
                bad("wrong-depth", "%r has depth %r, expected %s" % (n, n._depth, want))
    df = gf.dataframe
    if "node" not in df.index.names:
        bad("no-node-level", "index levels %r" % list(df.index.names))
    nodes = df.index.get_level_values("node")
    for n in nodes:
        if id(n) not in w.index:
            bad("row-of-foreign-node", "row of %r, which is no node of the graph" % n)
    labels = set()
    for label in df.index:
        label = tuple(label) if df.index.nlevels > 1 else (label,)
        key = tuple(
            ("node", id(x)) if nm == "node" else norm(x) for nm, x in zip(df.index.names, label))
        if key in labels:
            bad("row-repeated", "two rows for %r" % (label,))
        labels.add(key)
    if lookup:
        for i, n in enumerate(nodes):
            try:
                got = df.loc[n] if df.index.nlevels == 1 else df.loc[(n,)]
                found = 1 if isinstance(got, pd.Series) and df.index.nlevels == 1 else len(got)
            except KeyError:
                found = 0
            want = sum(1 for m in nodes if m is n)
            if found != want:
                bad("row-lookup", "looking up %r finds %d rows of %d" % (n, found, want))
    for m in list(gf.exc_metrics) + list(gf.inc_metrics):
        if m not in df.columns:
            bad("metric-without-column", "metric %r is no column of %r" % (m, list(df.columns)))
    for lst, nm in ((gf.exc_metrics, "exc"), (gf.inc_metrics, "inc")):
        if len(set(lst)) != len(lst):
            bad("metric-repeated", "%s metrics %r" % (nm, lst))


def graph_struct(graph, ids=True):
    """nested plain description in traversal order: frames, ids, depths, edges"""
    w = Walk(graph)
    out = []
    for n in w.nodes:
        out.append([
            norm(n.frame.attrs),
            n._hatchet_nid if ids else None,
            n._depth,
            [w.index.get(id(c), -1) for c in n.children],
            [w.index.get(id(p), -1) for p in n.parents],
        ])
    return [[w.index[id(r)] for r in graph.roots], out, bool(graph.node_ordering)]


def canon_graph(graph, ids=True, depth=True):
    """Description independent of the order of child lists: sorted by traversal id."""
    w = Walk(graph)
    nodes = sorted(w.nodes, key=lambda n: n._hatchet_nid)
    pos = {id(n): i for i, n in enumerate(nodes)}
    out = []
    for n in nodes:
        out.append([
            norm(n.frame.attrs),
            n._hatchet_nid if ids else None,
            n._depth if depth else None,
            sorted(pos[id(c)] for c in n.children),
            sorted(pos.get(id(p), -1) for p in n.parents),
        ])
    return [sorted(pos[id(r)] for r in graph.roots), out]


def table(gf, by="position", order=True):
    """Rows as [index labels, values]; nodes named by their place in the graph."""
    w = Walk(gf.graph)
    nodes = sorted(w.nodes, key=lambda n: n._hatchet_nid)
    pos = {id(n): i for i, n in enumerate(nodes)}
    df = gf.dataframe
    names = list(df.index.names)
    rows = []
    cols = list(df.columns)
    data = [list(df.iloc[:, j]) for j in range(len(cols))]
    for i, label in enumerate(df.index):
        if df.index.nlevels == 1:
            label = (label,)
        key = []
        for nm, x in zip(names, label):
            key.append(pos.get(id(x), "foreign") if nm == "node" else norm(x))
        rows.append([key, [norm(d[i]) for d in data]])
    if not order:
        rows.sort(key=lambda r: repr(r))
    return [names, [norm(c) for c in cols], rows]


def snap(gf, ids=True):
    """Everything observable of a GraphFrame, as a plain value."""
    return {
        "graph": canon_graph(gf.graph, ids),
        "table": table(gf),
        "dtypes": [str(t) for t in gf.dataframe.dtypes],
        "exc": list(gf.exc_metrics),
        "inc": list(gf.inc_metrics),
        "default": gf.default_metric,
        "metadata": norm(gf.metadata),
    }


def deep_snap(gf):
    """snap() plus identities: nothing at all may have been touched."""
    d = snap(gf)
    d["struct"] = graph_struct(gf.graph)
    d["node_identity"] = [id(n) for n in Walk(gf.graph).nodes]
    d["row_identity"] = [
        id(n) for n in gf.dataframe.index.get_level_values("node")
    ] if "node" in gf.dataframe.index.names else None
    d["graph_identity"] = id(gf.graph)
    return d


def diff(a, b, path=""):
    """First difference between two plain values, as text."""
    if type(a) is not type(b):
        return "%s: %r / %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d / %d elements: %r / %r" % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b:
        return "%s: %r / %r" % (path, a, b)
    return None


def require_same(sig, a, b, what=""):
    d = diff(a, b)
    if d:
        raise Violation(sig, "%s %s" % (what, d))


# -- path-keyed view of trees ---------------------------------------------------
def path_of(n):
    p = []
    while True:
        p.append(tuple(sorted((k, str(v)) for k, v in n.frame.attrs.items())))
        if not n.parents:
            break
        n = n.parents[0]
    return tuple(reversed(p))


def path_table(gf):
    """{(path, other labels): {column: value}}; the paths must be unique in the table."""
    df = gf.dataframe
    names = list(df.index.names)
    out = {}
    cols = list(df.columns)
    data = {c: list(df[c]) for c in cols}
    for i, label in enumerate(df.index):
        if df.index.nlevels == 1:
            label = (label,)
        key = []
        for nm, x in zip(names, label):
            key.append(path_of(x) if nm == "node" else norm(x))
        key = tuple(key)
        if key in out:
            raise Violation("duplicate-row", "two rows for %r" % (key,))
        out[key] = {c: norm(data[c][i]) for c in cols}
    return out


def path_graph(gf):
    """sorted list of all paths in a tree or forest"""
    return sorted(path_of(n) for n in Walk(gf.graph).nodes)
