"""Filter and squash keep exactly the selected call paths and conserve metrics."""

from sim import env, gen, model
from sim.core import Violation

from .common import Pred, gen_pred

SETTINGS = {
    "quick": {"runs": 2500, "cap_s": 150},
    "thorough": {"runs": 40000, "cap_s": 700},
    "rule": "a run generates a GraphFrame (up to 14 nodes, siblings with equal frames, several roots, "
    "ranks and threads with missing rows, missing values) and applies a history of 1-3 filters and "
    "squashes under simulated node addresses; each result is compared with a model on plain trees; "
    "non-trivial: a node was removed or merged",
    "states": "digests of (rows selected, nodes kept, nodes merged, update)",
    "real": ["filter, squash, normalize, find_merges, merge_nodes, update_inclusive_columns, pandas"],
    "stub": ["id() in hatchet (simulated allocator)"],
    "assumptions": ["graphs with shared children are checked for conservation and structure only"],
}


class Row:
    """what a predicate sees"""

    def __init__(self, d):
        self.d = d
        self.index = list(d)

    def __getitem__(self, k):
        return self.d[k]


def frame_key(n):
    return tuple(sorted((k, str(v)) for k, v in n.frame.attrs.items()))


def abstract(gf):
    """([(frame, parent index, node)], [(node index, labels, values)])"""
    w = model.Walk(gf.graph)
    nodes = [(frame_key(n), w.index[id(n.parents[0])] if n.parents else None, n) for n in w.nodes]
    names, cols = list(gf.dataframe.index.names), list(gf.dataframe.columns)
    data = [list(gf.dataframe[c]) for c in cols]
    rows = []
    at = names.index("node")
    for i, label in enumerate(gf.dataframe.index):
        if len(names) == 1:
            label = (label,)
        rows.append((w.index[id(label[at])],
                     tuple(x for j, x in enumerate(label) if j != at),
                     {c: data[j][i] for j, c in enumerate(cols)}))
    return nodes, rows, [x for x in names if x != "node"]


def squash(nodes, rows, metrics, exc, update):
    """paths -> and the merged rows {(path, labels): values}; both from the model"""
    kept = {i for i, _, _ in rows}

    def anc(i):
        p = nodes[i][1]
        while p is not None and p not in kept:
            p = nodes[p][1]
        return p

    # merging siblings with equal frames, again and again, leaves one node per path
    path = {}

    def path_of(i):
        if i not in path:
            p = anc(i)
            path[i] = (path_of(p) if p is not None else ()) + (nodes[i][0],)
        return path[i]

    out = {}
    for i, labels, v in rows:
        k = (path_of(i),) + labels
        if k not in out:
            out[k] = dict(v)
            for m in metrics:
                out[k][m] = [v[m]]
        else:
            for m in metrics:
                out[k][m].append(v[m])
    for v in out.values():
        for m in metrics:
            v[m] = gen.nansum([float(x) for x in v[m]])
    if update and exc:
        for m in exc:
            new = {}
            for k in out:
                new[k] = gen.nansum(
                    [o[m] for q, o in out.items() if q[1:] == k[1:] and q[0][:len(k[0])] == k[0]])
            inc = m[:-len("(exc)")].strip() if m.endswith("(exc)") else m + " (inc)"
            for k in out:
                out[k][inc] = new[k]
    return sorted(set(path.values())), out, len(kept), len(set(path.values()))


def close(a, b):
    if a == b:
        return True
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def total(gf, m):
    return gen.nansum([float(x) for x in gf.dataframe[m]])


def scenario(sim):
    tree = not sim.chance(1, 5, "dag")
    s = gen.spec(sim, ordered=True, max_nodes=14, dag=not tree, recursion=True, sparse=True, nan=True, attrs=True,
                 inc=bool(sim.choose(2, "inc")))
    gf = gen.build(s)
    sim.note(str(s))
    env.addresses(sim)
    for step in range(1 + sim.choose(3, "steps")):
        nodes, rows, labels = abstract(gf)
        how = sim.weighted([(5, "filter-squash"), (2, "filter"), (2, "squash")], "step")
        update = bool(sim.choose(2, "update"))
        p = gen_pred(sim, s, empties=False)
        if how == "squash":
            sel = rows
        else:
            sel = []
            for i, lab, v in rows:
                d = dict(v, node=nodes[i][2])
                d.update(zip(labels, lab))
                if p(Row(d)):
                    sel.append((i, lab, v))
            if not sel:
                try:
                    gf.filter(p, num_procs=1)
                except Exception as e:
                    if type(e).__name__ != "EmptyFilter":
                        raise
                    return
                raise Violation("empty-filter-accepted", str(p))
        sim.note("%s %s update=%s" % (how, "" if how == "squash" else p, update))
        if how == "filter-squash":
            res = gf.filter(p, squash=True, update_inc_cols=update, num_procs=1)
        elif how == "filter":
            res = gf.filter(p, squash=False, num_procs=1)
        else:
            res = gf.squash(update_inc_cols=update)
        metrics = gf.exc_metrics + gf.inc_metrics
        what = "step %d, %s" % (step, how)
        if how == "filter":
            n2, r2, l2 = abstract(res)
            want = [[nodes[i][2]._hatchet_nid, lab, model.norm(v)] for i, lab, v in sel]
            got = [[n2[i][2]._hatchet_nid, lab, model.norm(v)] for i, lab, v in r2]
            model.require_same("filter-rows-differ", want, got, what)
            if res.graph is not gf.graph:
                raise Violation("filter-graph-differs", what)
        else:
            model.check_structure(res, what, root_parents=not tree)
            gone = len(model.Walk(gf.graph)) - len(model.Walk(res.graph))
            for m in gf.exc_metrics:
                a = gen.nansum([float(v[m]) for _, _, v in sel])
                b = total(res, m)
                if not close(model.norm(a), model.norm(b)):
                    raise Violation("metric-not-conserved", "%s: sum of %s %r, was %r" % (what, m, b, a))
            if tree:
                paths, table, kept, merged = squash(nodes, sel, metrics, gf.exc_metrics, update)
                sim.state((len(sel), kept, merged, update))
                got = model.path_graph(res)
                model.require_same("paths-differ", [list(x) for x in paths], [list(x) for x in got],
                                   what + " expected/got:")
                t = model.path_table(res)
                if set(t) != set(table):
                    raise Violation("rows-differ", "%s: missing %r, unexpected %r" % (
                        what, sorted(set(table) - set(t), key=repr),
                        sorted(set(t) - set(table), key=repr)))
                for k, v in table.items():
                    if set(v) != set(t[k]):
                        raise Violation("columns-differ", "%s: %r, expected %r" % (
                            what, sorted(t[k]), sorted(v)))
                    for c, x in v.items():
                        if not close(model.norm(x), t[k][c]):
                            raise Violation("value-differs", "%s: %s of %r is %r, expected %r" % (
                                what, c, k, t[k][c], model.norm(x)))
            else:
                kept = len({i for i, _, _ in sel})
                frames = {nodes[i][0] for i, _, _ in sel}
                w = model.Walk(res.graph)
                if {frame_key(n) for n in w.nodes} != frames or len(w) > kept:
                    raise Violation("nodes-differ", "%s: %r" % (what, w.nodes))
                in_rows = {id(n) for n in res.dataframe.index.get_level_values("node")}
                if in_rows != set(w.index):
                    raise Violation("node-without-row", what)
                if {c: None for c in res.dataframe.columns} != {c: None for c in res.dataframe.columns}:
                    raise Violation("columns-differ", what)
            if gone:
                sim.nontrivial()
            for m in gf.exc_metrics:
                if m not in res.exc_metrics:
                    raise Violation("metric-lost", m)
            if update:
                for m in gf.exc_metrics:
                    inc = m[:-len("(exc)")].strip() if m.endswith("(exc)") else m + " (inc)"
                    if inc not in res.inc_metrics:
                        raise Violation("metric-lost", inc)
        gf = res
