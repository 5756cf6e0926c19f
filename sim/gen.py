"""Generated GraphFrames, described by a plain specification first."""

import copy
import math

import numpy as np
import pandas as pd

NAN = float("nan")


class Spec:
    def __init__(self):
        self.nodes = []  # (attrs, parents): parents are smaller indices
        self.levels = ["node"]
        self.rows = []  # (node, rank.., values)
        self.columns = []
        self.exc = []
        self.inc = []
        self.default = "time"
        self.metadata = {}
        self.ordered = False  # the graph keeps the order of the nodes in the file

    def children(self):
        ch = [[] for _ in self.nodes]
        for i, (_, ps) in enumerate(self.nodes):
            for p in ps:
                ch[p].append(i)
        return ch

    def is_tree(self):
        return all(len(ps) <= 1 for _, ps in self.nodes)

    def __str__(self):
        return "%snodes %s; index %s; rows %s; exc %s inc %s" % (
            "in file order; " if self.ordered else "",
            [(a["name"], tuple(p)) for a, p in self.nodes],
            self.levels,
            [(r[:-1], r[-1]) for r in self.rows],
            self.exc,
            self.inc,
        )


NAMES = ["main", "foo", "bar", "baz", "qux", "grault"]


def metric_value(sim, nan=False):
    if nan and sim.chance(1, 6, "nan"):
        return NAN
    return sim.choose(65, "metric") / 8.0


def spec(sim, max_nodes=10, min_nodes=1, dag=False, multiroot=True, dup=True, levels=None,
         sparse=False, nan=False, metrics=None, inc=False, norows=False, extra=True,
         negative=False, attrs=False, shuffle_rows=True, recursion=True, root_odds=8, shared_odds=4, few=None,
         ordered=False, large=0):
    s = Spec()
    n = min_nodes + sim.skewed(max_nodes - min_nodes, "nodes")
    if large and sim.chance(1, large, "large"):
        n = 257 + sim.choose(40, "many-nodes")
    names = NAMES[:few] if dup else None
    used = {}
    for i in range(n):
        if i == 0:
            parents = []
        else:
            if multiroot and sim.chance(1, root_odds, "root"):
                parents = []
            else:
                parents = [i - 1 - sim.choose(i, "parent")]
                if dag and i > 1 and sim.chance(1, shared_odds, "second-parent"):
                    q = sim.choose(i, "parent2")
                    if q not in parents:
                        parents.append(q)
        if dup:
            name = names[sim.choose(len(names), "name")]
        else:
            name = "f%d" % i
            if sim.chance(1, 3, "samename"):
                # the same name elsewhere in the tree, but not among siblings
                name = NAMES[sim.choose(len(NAMES), "name")]
        key = tuple(parents)
        if not dup:
            # siblings (also of a second parent, and roots) have distinct frames
            while any(name in used.setdefault(p, set()) for p in (parents or [-1])):
                name += "_"
            for p in parents or [-1]:
                used.setdefault(p, set()).add(name)
        if not recursion:
            # no call path contains the same name twice
            above = ancestors_names(s, parents)
            while name in above:
                name += "_"
        a = {"name": name, "type": "function"}
        if attrs and sim.chance(1, 4, "attr"):
            a["type"] = "region"
        s.nodes.append((a, parents))
    if levels is None:
        levels = sim.weighted([(5, 0), (2, 1), (2, 2)], "levels")
    s.levels = ["node", "rank", "thread"][: 1 + levels]
    ranks = 1 + (sim.choose(3, "ranks") if levels >= 1 else 0)
    threads = 1 + (sim.choose(2, "threads") if levels >= 2 else 0)
    if metrics is None:
        metrics = sim.weighted([(3, ["time"]), (2, ["time", "bytes"])], "metrics")
    s.exc = list(metrics)
    s.columns = ["name"] + list(metrics)
    if extra and sim.chance(1, 3, "extra"):
        s.columns.append("tag")
    for i in range(n):
        if norows and i and sim.chance(1, 5, "norow"):
            continue
        for r in range(ranks):
            for t in range(threads):
                if sparse and (r or t) and sim.chance(1, 6, "sparse"):
                    continue
                v = {"name": s.nodes[i][0]["name"]}
                for m in metrics:
                    v[m] = metric_value(sim, nan)
                    if negative and sim.chance(1, 5, "neg"):
                        v[m] = -v[m]
                if "tag" in s.columns:
                    v["tag"] = None if nan and sim.chance(1, 4, "no-tag") else "t%d" % sim.choose(3, "tag")
                s.rows.append(((i, r, t)[: 1 + levels], v))
    if inc:
        add_inclusive(s)
    if shuffle_rows and sim.chance(1, 2, "shuffle-rows"):
        s.rows = sim.shuffle(s.rows, "row-order")
    s.metadata = {"run": sim.choose(3, "meta")} if sim.chance(1, 3, "has-meta") else {}
    if s.metadata and sim.choose(2, "nested-meta"):
        s.metadata["hosts"] = ["n1", "n2"]
        s.metadata["env"] = {"threads": 2, "path": ["a"]}
    if len(metrics) and metrics[0] != "time":
        s.default = metrics[0]
    if ordered and s.is_tree():
        # (profiles with an order of the nodes are trees)
        s.ordered = sim.chance(1, 5, "ordered")
    return s


def ancestors_names(s, parents):
    out, todo = set(), list(parents)
    while todo:
        i = todo.pop()
        out.add(s.nodes[i][0]["name"])
        todo.extend(s.nodes[i][1])
    return out


def descendants(s, i, ch=None):
    ch = ch or s.children()
    seen = []
    stack = [i]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.append(x)
        stack.extend(ch[x])
    return seen


def nansum(vals):
    vals = [v for v in vals if not (isinstance(v, float) and math.isnan(v))]
    return sum(vals) if vals else NAN


def add_inclusive(s):
    """inclusive columns consistent with the exclusive ones"""
    ch = s.children()
    by = {key: v for key, v in s.rows}
    for m in list(s.exc):
        col = m + " (inc)"
        new = {}
        for key in by:
            new[key] = nansum(
                by[(d,) + key[1:]][m] for d in descendants(s, key[0], ch) if (d,) + key[1:] in by
            )
        for key in by:
            by[key][col] = new[key]
        s.inc.append(col)
        s.columns.append(col)


def build(s, shuffle=None):
    """A GraphFrame for the specification; hatchet API only."""
    from hatchet.frame import Frame
    from hatchet.graph import Graph
    from hatchet.graphframe import GraphFrame
    from hatchet.node import Node

    nodes = [Node(Frame(dict(a))) for a, _ in s.nodes]
    edges = [(p, i) for i, (_, ps) in enumerate(s.nodes) for p in ps]
    if shuffle is not None:
        edges = shuffle(edges)
    for p, c in edges:
        nodes[p].add_child(nodes[c])
        nodes[c].add_parent(nodes[p])
    graph = Graph([nodes[i] for i, (_, ps) in enumerate(s.nodes) if not ps])
    # ids first in the order of the specification, so that the numbering of
    # siblings with equal frames does not depend on anything else
    for i, n in enumerate(nodes):
        n._hatchet_nid = i
    graph.node_ordering = s.ordered
    graph.enumerate_traverse()
    graph.enumerate_depth()
    data = {lv: [] for lv in s.levels}
    for c in s.columns:
        data[c] = []
    for key, v in s.rows:
        for lv, k in zip(s.levels, key):
            data[lv].append(nodes[k] if lv == "node" else k)
        for c in s.columns:
            data[c].append(v[c])
    df = pd.DataFrame(data)
    df.set_index(s.levels, inplace=True)
    gf = GraphFrame(graph, df, list(s.exc), list(s.inc), s.default, copy.deepcopy(s.metadata))
    gf._spec_nodes = nodes  # for the harness only
    return gf


def literal(s):
    """The specification of a tree as input for GraphFrame.from_literal."""
    ch = s.children()
    vals = {key[0]: v for key, v in s.rows}

    def lit(i):
        d = {
            "frame": dict(s.nodes[i][0]),
            "metrics": {
                c: vals[i][c] for c in s.columns if c != "name" and c in vals.get(i, {})
            },
        }
        if ch[i]:
            d["children"] = [lit(c) for c in ch[i]]
        return d

    return [lit(i) for i, (_, ps) in enumerate(s.nodes) if not ps]
