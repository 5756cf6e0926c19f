"""GraphFrame arithmetic gives the right values and preserves its operands."""

import math
import operator

import numpy as np

from sim import env, gen, model
from sim.core import Violation

from .common import Pred

SETTINGS = {
    "quick": {"runs": 3500, "cap_s": 150},
    "thorough": {"runs": 30000, "cap_s": 700},
    "rule": "a run keeps a pool of GraphFrames (built, copied, deep-copied, filtered, results of earlier "
    "steps) and a history of 1-6 arithmetic steps between members, under simulated node addresses; each "
    "result is compared with a model on call-path-keyed rows; non-trivial: at least two steps, or "
    "operands sharing a graph",
    "states": "digests of (operation, relation of the operands, kinds of missing call paths)",
    "real": ["add/sub/mul/div, operators, unify, Graph.union, graphframe_modules, pandas"],
    "stub": ["id() in hatchet (simulated allocator)"],
    "assumptions": ["operands have the same metrics, ranks and threads; call paths are unique, or the operands "
                    "share nodes alike (parts of one graph); graphs in which siblings have equal frames and "
                    "several parents are compared by a + copy of a"],
}

OPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": lambda a, b: float(np.divide(np.float64(a), np.float64(b))),
}


class Tracked:
    """A GraphFrame together with what its table must be."""

    def __init__(self, gf, rows, paths, what):
        self.gf, self.rows, self.paths, self.what = gf, rows, paths, what


def observe(gf, metrics):
    t = model.path_table(gf)
    return {k: {m: v[m] for m in metrics + ["name"]} for k, v in t.items()}


def isnan(v):
    return isinstance(v, float) and math.isnan(v)


def num(v):
    return float(v) if isinstance(v, str) else v


def expect(op, left, right, metrics):
    """rows, flags (None where the operation does not set any)"""
    f = OPS[op]
    lp, rp = {k[0] for k in left}, {k[0] for k in right}
    rows, flags = {}, {}
    for k, v in left.items():
        w = dict(v)
        if k[0] in rp:
            if k in right:
                for m in metrics:
                    a, b = num(v[m]), num(right[k][m])
                    r = math.nan if isnan(a) or isnan(b) else f(a, b)
                    # an undefined result may leave the left operand's value
                    if isnan(r):
                        w[m] = ("nan", v[m])
                    elif op == "div" and b == 0:
                        w[m] = ("inf", "-inf")  # the model does not keep the sign of zeros
                    else:
                        w[m] = model.norm(r)
            flags[k] = 0
        else:
            flags[k] = 1
        rows[k] = w
    for k, v in right.items():
        if k[0] not in lp:
            w = dict(v)
            for m in metrics:
                w[m] = "nan"
            rows[k] = w
            flags[k] = 2
    return rows, flags, bool(lp ^ rp)


def compare(what, gf, rows, flags, onesided, metrics, paths):
    got = observe(gf, metrics)
    if set(got) != set(rows):
        raise Violation("rows-differ", "%s: missing %r, unexpected %r" % (
            what, sorted(set(rows) - set(got)), sorted(set(got) - set(rows))))
    actual = {}
    for k, w in rows.items():
        actual[k] = dict(got[k])
        for c, v in w.items():
            g = got[k][c]
            if isinstance(v, tuple):
                if g not in v:
                    raise Violation("value-differs", "%s: %s of %r is %r, expected %r or %r" % (
                        what, c, k, g, v[0], v[1]))
            elif g != v and not close(g, v):
                raise Violation("value-differs", "%s: %s of %r is %r, expected %r" % (
                    what, c, k, g, v))
    gp = model.path_graph(gf)
    if len(set(gp)) != len(gp):
        raise Violation("path-duplicated", "%s: %r" % (what, gp))
    if set(gp) != paths:
        raise Violation("graph-differs", "%s: %r, expected %r" % (what, gp, sorted(paths)))
    if onesided:
        if "_missing_node" not in gf.dataframe.columns:
            raise Violation("no-flags", what)
        t = model.path_table(gf)
        for k, fl in flags.items():
            if t[k]["_missing_node"] != fl:
                raise Violation("wrong-flag", "%s: _missing_node of %r is %r, expected %r" % (
                    what, k, t[k]["_missing_node"], fl))
    return actual


def close(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def in_place(op, a, b):
    if op == "add":
        a += b
    elif op == "sub":
        a -= b
    elif op == "mul":
        a *= b
    else:
        a = a.__idiv__(b)
    return a


PURE = {
    "add": [lambda a, b: a + b, lambda a, b: a.add(b)],
    "sub": [lambda a, b: a - b, lambda a, b: a.sub(b)],
    "mul": [lambda a, b: a * b, lambda a, b: a.mul(b)],
    "div": [lambda a, b: operator.truediv(a, b), lambda a, b: a.div(b)],
}


def scenario(sim):
    which = sim.weighted([(7, None), (2, general), (3, parts)], "graphs")
    if which:
        return which(sim)
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(3, ["time"]), (2, ["time", "bytes"])], "metrics")
    ranks = sim.choose(3, "nranks")
    pool = []
    for i in range(1 + sim.choose(3, "inputs")):
        s = gen.spec(sim, max_nodes=7, dup=False, levels=levels, metrics=metrics, nan=True,
                     negative=True, inc=False, large=100)
        widen(sim, s, levels, ranks)
        g = gen.build(s)
        pool.append(Tracked(g, observe(g, metrics), set(model.path_graph(g)), "input%d" % i))
        sim.note("input%d: %s" % (i, s))
    env.addresses(sim)
    steps = 1 + sim.choose(6, "steps")
    for _ in range(steps):
        kind = sim.weighted([(4, "pure"), (3, "inplace"), (2, "copy"), (2, "deepcopy"), (1, "filter")],
                            "step")
        a = sim.pick(pool, "left")
        if kind in ("copy", "deepcopy", "filter"):
            if kind == "filter":
                names = sorted({v["name"] for v in a.rows.values()})
                p = Pred("notname", sim.pick(names, "name"))
                sq = bool(sim.choose(2, "squash")) and len(a.rows) > 1
                try:
                    g = a.gf.filter(p, squash=sq, update_inc_cols=False, num_procs=1)
                except Exception as e:
                    if type(e).__name__ != "EmptyFilter":
                        raise
                    continue
                if sq and len(set(model.path_graph(g))) != len(model.path_graph(g)):
                    continue
                sim.note("%s = %s.filter(%s, squash=%s)" % (len(pool), a.what, p, sq))
            else:
                g = getattr(a.gf, kind)()
                sim.note("%d = %s.%s()" % (len(pool), a.what, kind))
            pool.append(Tracked(g, observe(g, metrics), set(model.path_graph(g)),
                                "%s of %s" % (kind, a.what)))
            continue
        b = sim.pick(pool, "right")
        op = sim.pick(sorted(OPS), "operator")
        shared = a.gf.graph is b.gf.graph
        what = "%s %s %s%s" % (a.what, op, b.what, " in place" if kind == "inplace" else "")
        sim.note(what + (" (one graph)" if shared else ""))
        rows, flags, onesided = expect(op, a.rows, b.rows, metrics)
        paths = a.paths | b.paths
        sim.state((op, kind, shared, a is b, sorted(set(flags.values()))))
        if shared or len(pool) > 2:
            sim.nontrivial()
        others = [(t, model.deep_snap(t.gf)) for t in pool
                  if not (kind == "inplace" and t is a)]
        if kind == "pure":
            g = sim.pick(PURE[op], "form")(a.gf, b.gf)
        else:
            g = in_place(op, a.gf, b.gf)
            if g is not a.gf:
                raise Violation("in-place-result", "%s did not return its left operand" % what)
        actual = compare(what, g, rows, flags, onesided, metrics, paths)
        model.check_structure(g, what)
        for t, before in others:
            if kind == "inplace" and a is b and t is b:
                continue
            model.require_same("operand-changed", before, model.deep_snap(t.gf),
                               "%s changed %s:" % (what, t.what))
        if kind == "pure":
            pool.append(Tracked(g, actual, paths, "(%s)" % what))
        else:
            a.rows, a.paths = actual, paths
            sim.count("in-place steps")


def widen(sim, s, levels, ranks):
    """every operand has the same ranks and threads"""
    if not levels:
        return
    threads = 2 if levels == 2 else 1
    cols = [c for c in s.columns if c != "name" and c != "tag"]
    have = {k[0] for k, _ in s.rows}
    rows = []
    for i in sorted(have):
        for r in range(ranks + 1):
            for t in range(threads):
                v = {"name": s.nodes[i][0]["name"]}
                for c in cols:
                    v[c] = sim.choose(65, "metric") / 8.0
                if "tag" in s.columns:
                    v["tag"] = "t%d" % sim.choose(3, "tag")
                rows.append(((i, r, t)[: 1 + levels], v))
    s.rows = sim.shuffle(rows, "row-order") if sim.choose(2, "shuffle-rows") else rows


def general(sim):
    """any graph: arithmetic with a copy of the same GraphFrame"""
    s = gen.spec(sim, max_nodes=10, dag=True, nan=True, inc=bool(sim.choose(2, "inc")), large=100)
    a = gen.build(s)
    sim.note("general graph: %s" % s)
    if sim.choose(2, "addresses"):
        env.addresses(sim)
    how = sim.pick(["same", "copy", "deepcopy", "rebuilt"], "partner")
    b = {"same": lambda: a, "copy": a.copy, "deepcopy": a.deepcopy,
         "rebuilt": lambda: gen.build(s)}[how]()
    op = sim.pick(sorted(OPS), "operator")
    sim.note("%s with %s" % (op, how))
    sim.nontrivial()
    sim.state(("general", how, op, s.is_tree()))
    sa, sb = model.deep_snap(a), model.deep_snap(b)
    ta = model.table(a)
    r = PURE[op][0](a, b)
    model.require_same("operand-changed", sa, model.deep_snap(a), "left operand of %s:" % op)
    model.require_same("operand-changed", sb, model.deep_snap(b), "right operand of %s:" % op)
    model.check_structure(r, op)
    tr = model.table(r)
    if len(model.Walk(r.graph)) != len(model.Walk(a.graph)):
        raise Violation("graph-differs", "%d nodes, expected %d" % (
            len(model.Walk(r.graph)), len(model.Walk(a.graph))))
    if len(tr[2]) != len(ta[2]):
        raise Violation("rows-differ", "%d rows, expected %d" % (len(tr[2]), len(ta[2])))
    if "_missing_node" in r.dataframe.columns and any(r.dataframe["_missing_node"]):
        raise Violation("wrong-flag", "nothing is missing: %r" % list(r.dataframe["_missing_node"]))
    metrics = a.exc_metrics + a.inc_metrics
    for (key, vals), (rk, rv) in zip(ta[2], tr[2]):
        if key[1:] != rk[1:]:
            raise Violation("rows-differ", "%r / %r" % (key, rk))
        for m in metrics:
            x, y = num(vals[ta[1].index(m)]), rv[tr[1].index(m)]
            want = math.nan if isnan(x) else OPS[op](x, x)
            ok = y in ("nan", model.norm(x)) if isnan(want) else close(y, model.norm(want))
            if not ok:
                raise Violation("value-differs", "%s of row %r: %r %s itself gives %r" % (
                    m, key, x, op, y))
    if op == "add" and how == "deepcopy":
        b2 = a.deepcopy()
        b2 += a
        model.require_same("in-place-differs", model.snap(r)["table"][2], model.snap(b2)["table"][2])


def part(sim, s, cut):
    """a part of the graph of s, with rows of its own: every node is reachable from a root"""
    t = gen.Spec()
    t.levels, t.columns, t.exc, t.inc = s.levels, list(s.columns), list(s.exc), list(s.inc)
    new = {}
    for i, (a, ps) in enumerate(s.nodes):
        kept = [p for p in ps if p in new and not (cut and sim.chance(1, 5, "cut edge"))]
        if (ps and not kept) or (not ps and cut and len(s.nodes) > i + 1 and sim.chance(1, 8, "cut root")):
            continue
        new[i] = len(t.nodes)
        t.nodes.append((a, [new[p] for p in kept]))
    for key, v in s.rows:
        if key[0] in new:
            w = dict(v)
            for m in s.exc:
                w[m] = gen.metric_value(sim, True)
            t.rows.append(((new[key[0]],) + key[1:], w))
    if t.rows:
        t.rows = sim.shuffle(t.rows, "row order")
    return t, new


def parts(sim):
    """operands that are parts of one graph in which nodes can have several parents"""
    s = gen.spec(sim, max_nodes=9, min_nodes=3, dag=True, dup=False, shared_odds=2, extra=False)
    (sa, ia), (sb, ib) = part(sim, s, True), part(sim, s, sim.chance(4, 5, "cut"))
    if not sa.nodes or not sb.nodes:
        return
    a, b = gen.build(sa), gen.build(sb)
    sim.note("a: %s" % sa)
    sim.note("b: %s" % sb)
    op = sim.pick(sorted(OPS), "operator")
    inplace = sim.chance(1, 3, "in place")
    sim.note(op + (" in place" if inplace else ""))
    if sim.choose(2, "addresses"):
        env.addresses(sim)
    # nodes of both are the same if a call path both operands have leads to them
    edges = [{(p, i) for i, k in idx.items() for p in s.nodes[i][1] if p in idx and idx[p] in t.nodes[k][1]}
             for t, idx in ((sa, ia), (sb, ib))]
    same = set()
    for i, (_, ps) in enumerate(s.nodes):
        if i in ia and i in ib:
            roots = not sa.nodes[ia[i]][1] and not sb.nodes[ib[i]][1] and not ps
            if roots or any(p in same and (p, i) in edges[0] and (p, i) in edges[1] for p in ps):
                same.add(i)
    keys = [{i: (i, 0 if i in same else side) for i in idx} for side, idx in ((1, ia), (2, ib))]
    children, roots, rows = {}, set(), []
    for side, (t, idx) in enumerate(((sa, ia), (sb, ib))):
        back = {k: i for i, k in idx.items()}
        for i, k in idx.items():
            children.setdefault(keys[side][i], set())
            if not t.nodes[k][1]:
                roots.add(keys[side][i])
            for p in t.nodes[k][1]:
                children.setdefault(keys[side][back[p]], set()).add(keys[side][i])
        rows.append({(keys[side][back[k[0]]],) + k[1:]: {c: model.norm(x) for c, x in v.items()} for k, v in t.rows})
    metrics = list(s.exc)
    want, flags, onesided = expect(op, rows[0], rows[1], metrics)
    sim.nontrivial()
    sim.state(("parts", op, inplace, len(same) < len(set(ia) & set(ib)), s.is_tree(), sorted(set(flags.values()))))
    before = model.deep_snap(a), model.deep_snap(b)
    g = in_place(op, a, b) if inplace else sim.pick(PURE[op], "form")(a, b)
    if not inplace:
        model.require_same("operand-changed", before[0], model.deep_snap(a), "left operand:")
    model.require_same("operand-changed", before[1], model.deep_snap(b), "right operand:")
    model.check_structure(g, op)
    # walk both graphs together: siblings have distinct frames
    found, back = {}, {}
    todo = [(sorted(roots), list(g.graph.roots), "roots")]
    while todo:
        expected, nodes, where = todo.pop()
        names = {s.nodes[k[0]][0]["name"]: k for k in expected}
        got = [n.frame["name"] for n in nodes]
        if sorted(got) != sorted(names):
            raise Violation("graph-differs", "%s: %r, expected %r" % (where, sorted(got), sorted(names)))
        for n in nodes:
            k = names[n.frame["name"]]
            if found.setdefault(k, n) is not n or back.setdefault(id(n), k) != k:
                raise Violation("graph-differs", "node %s is in the graph twice or shared wrongly" % n.frame["name"])
            todo.append((sorted(children[k]), list(n.children), "children of %s" % n.frame["name"]))
    df = g.dataframe
    actual = {}
    cols = {c: list(df[c]) for c in metrics + ["name"] + (["_missing_node"] if onesided and "_missing_node" in df.columns else [])}
    if onesided and "_missing_node" not in cols:
        raise Violation("no-flags", op)
    for i, label in enumerate(df.index):
        label = label if isinstance(label, tuple) else (label,)
        if id(label[0]) not in back:
            raise Violation("row-without-node", "%r" % (label,))
        k = (back[id(label[0])],) + tuple(int(x) for x in label[1:])
        if k in actual:
            raise Violation("duplicate-row", "two rows for %r" % (k,))
        actual[k] = {c: model.norm(v[i]) for c, v in cols.items()}
    if set(actual) != set(want):
        raise Violation("rows-differ", "missing %r, unexpected %r" % (
            sorted(set(want) - set(actual)), sorted(set(actual) - set(want))))
    for k, w in want.items():
        for c, v in w.items():
            x = actual[k][c]
            if not (x in v if isinstance(v, tuple) else x == v or close(x, v)):
                raise Violation("value-differs", "%s of %r is %r, expected %r" % (c, k, x, v))
        if onesided and actual[k]["_missing_node"] != flags[k]:
            raise Violation("wrong-flag", "_missing_node of %r is %r, expected %r" % (
                k, actual[k]["_missing_node"], flags[k]))
