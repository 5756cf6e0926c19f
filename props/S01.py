"""An HDF5 checkpoint restores the GraphFrame that was saved."""

import json
import os
import warnings

from sim import env, formats, fresh, gen, model, mp
from sim.core import Violation

from . import ops

SETTINGS = {
    "quick": {"runs": 1000, "cap_s": 170},
    "thorough": {"runs": 20000, "cap_s": 750},
    "hash_variants": 2,
    "rule": "a run builds or reads one to three GraphFrames and applies a history of up to 12 analysis "
    "operations, saves (new files, other keys of a file, overwriting, emptied files) and loads, in the same "
    "process or in one that has just started; every load must give the GraphFrame of the last save under "
    "that key, and behave like a copy of it; saving changes nothing; all of it in two interpreters with "
    "different hash seeds, whose loads must agree; non-trivial: a load followed a save of a GraphFrame with "
    "two nodes or more",
    "states": "digests of (kind of save or load, nodes, rows, index levels, columns, shared children)",
    "real": ["hatchet.writers, HDF5Reader, to_hdf, from_hdf, every operation of the history, pandas, PyTables, HDF5"],
    "stub": ["id() in hatchet (simulated allocator)",
             "the new process is a fork of one that has only imported hatchet"],
    "assumptions": ["GraphFrames with at least one row", "no root is also a child", "metadata is no part of the checkpoint format"],
}


def view(gf):
    """what a checkpoint keeps: positions are those of the traversal, ids are not kept"""
    order = list(gf.graph.traverse())
    w = model.Walk(gf.graph)
    if len(order) != len(w.nodes) or {id(n) for n in order} != set(w.index):
        raise Violation("S01-traversal", "traverse() visits %d nodes of %d" % (len(order), len(w.nodes)))
    pos = {id(n): i for i, n in enumerate(order)}
    df = gf.dataframe
    rows = []
    data = [list(df.iloc[:, j]) for j in range(len(df.columns))]
    for i, label in enumerate(df.index):
        label = label if df.index.nlevels > 1 else (label,)
        rows.append([[pos.get(id(x), "foreign") if nm == "node" else model.norm(x)
                      for nm, x in zip(df.index.names, label)], [model.norm(d[i]) for d in data]])
    return json.loads(json.dumps({
        "roots": sorted(pos[id(r)] for r in gf.graph.roots),
        "nodes": [[model.norm(n.frame.attrs), n._depth, sorted(pos[id(c)] for c in n.children),
                   sorted(pos.get(id(p), -1) for p in n.parents)] for n in order],
        "post": [pos[id(n)] for n in gf.graph.traverse(order="post")],
        "ordering": bool(gf.graph.node_ordering),
        "index": list(df.index.names),
        "columns": [model.norm(c) for c in df.columns],
        "dtypes": [str(t) for t in df.dtypes],
        "rows": rows,
        "exc": list(gf.exc_metrics), "inc": list(gf.inc_metrics), "default": gf.default_metric,
    }))


def load(path, key):
    from hatchet.graphframe import GraphFrame

    kw = {} if key is None else {"key": key}
    return GraphFrame.from_hdf(path, **kw)


def in_new_process(req):
    warnings.simplefilter("ignore")
    gf = load(req["path"], req["key"])
    v = view(gf)
    model.check_structure(gf, "loaded", tree_depths=False, root_parents=True)
    return v


def dense(sim):
    """few names, many shared children and roots: where squashing merges nodes of different depths"""
    s = gen.spec(sim, ordered=True, min_nodes=5, max_nodes=9, dag=True, levels=0, root_odds=3, shared_odds=2, few=2)
    sim.note("input: %s" % s)
    return [gen.build(s)]


def inputs(sim):
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    metrics = sim.weighted([(2, ["time"]), (3, ["time", "bytes"]), (1, ["cycles", "time", "bytes"])], "metrics")
    pool = []
    for k in range(1 + sim.choose(3, "inputs")):
        if sim.chance(1, 5, "read"):
            kind = sim.pick(formats.KINDS, "format")
            p = formats.generate(sim, kind, 7)
            p.write(sim.tmp("in%d" % k))
            sim.note("input %d: %s" % (k, p))
            if kind == "hpctoolkit":
                mp.begin(sim, mp.Plan(cpus=1))
            try:
                r = p.load()
            finally:
                if kind == "hpctoolkit":
                    mp.end()
            pool += r if isinstance(r, list) else [r]
            continue
        s = gen.spec(sim, ordered=True, max_nodes=8, dag=sim.chance(1, 3, "dag"), levels=levels, metrics=metrics, large=100,
                     inc=bool(sim.choose(2, "inc")), sparse=sim.chance(1, 3, "sparse"),
                     norows=sim.chance(1, 3, "norows"), attrs=sim.chance(1, 3, "attrs"),
                     nan=sim.chance(1, 2, "nan"), **sim.pick([{}, {"root_odds": 3, "shared_odds": 2}], "shape"))
        sim.note("input %d: %s" % (k, s))
        pool.append(gen.build(s))
    return pool


def usable(gf):
    """acyclic, with rows; a root that is also a child is a root in memory only"""
    from .D01 import groups_usable

    return len(gf.dataframe) > 0 and not any(r.parents for r in gf.graph.roots) and groups_usable(gf)


def scenario(sim):
    warnings.simplefilter("ignore")
    d = sim.tmp("ck")
    os.makedirs(d, exist_ok=True)
    server = fresh.Fresh(in_new_process)
    try:
        run(sim, d, server)
    finally:
        server.close()


def run(sim, d, server):
    from hatchet.graphframe import GraphFrame  # noqa: F401

    env.addresses(sim)
    scratch = sim.tmp("s")
    script = None
    if sim.chance(1, 3, "dense"):
        script = ["operation", "save", "load", "save", "load"]
    pool = [g for g in (dense if script else inputs)(sim) if usable(g)]
    disk = {}  # file -> {key: view}
    twins = {}  # (file, key) -> deep copy of what was saved
    checked = 0
    for step in range(len(script) if script else 2 + sim.skewed(10, "steps")):
        if not pool:
            break
        i = len(pool) - 1 if script else sim.choose(len(pool), "on")
        gf = pool[i]
        what = script[step] if script else sim.weighted([(4, "operation"), (4, "save"), (5, "load")], "step")
        if what == "load" and not disk:
            what = "save"
        nodes = len(model.Walk(gf.graph))
        shared = any(len(n.parents) > 1 for n in model.Walk(gf.graph).nodes)
        if what == "operation":
            op = ops.gen_op(sim, ops.spec_of(gf), ("new", "new", "inplace"), scratch, io=False,
                            only=("filter",) if script else None)
            j = None
            if op.binary:
                same = [k for k, o in enumerate(pool) if o.dataframe.index.names == gf.dataframe.index.names]
                j = sim.pick(same, "with")
            sim.note("step %d: %s of %d%s" % (step, op, i, "" if j is None else ", %d" % j))
            out, r = ops.outcome_of(op, gf, None if j is None else pool[j])
            if out[0] == "raised":
                sim.note("  raised %s" % out[1])
                if op.kind == "inplace":
                    del pool[i]
            elif op.kind == "inplace":
                if r is not None:
                    pool[i] = r
                if not usable(pool[i]):
                    del pool[i]
            elif usable(r) and len(pool) < 5:
                pool.append(r)
            continue
        f = sim.pick(["a.hdf", "b.h5"], "file")
        path = os.path.join(d, f)
        if what == "save":
            kw = {}
            how = sim.weighted([(5, "default"), (3, "key"), (1, "emptied"), (1, "compressed")], "save")
            key = "hatchet_graphframe"
            if how == "key":
                key = sim.pick(["run1", "run2", "x/y"], "key")
                kw["key"] = key
            elif how == "emptied":
                kw["mode"] = "w"
                disk.pop(f, None)
            elif how == "compressed":
                kw["complevel"] = 1 + sim.choose(9, "level")
            label = "step %d: save %d to %s %s" % (step, i, f, kw)
            sim.note(label)
            if not script and sim.chance(1, 6, "other-default"):
                # any column, or none, can be the default metric
                gf.default_metric = sim.pick([None] + gf.exc_metrics + gf.inc_metrics, "default")
                sim.note("  with the default metric %r" % (gf.default_metric,))
            before, v = model.deep_snap(gf), view(gf)
            gf.to_hdf(path, **kw)
            model.require_same("S01-saving-changes", before, model.deep_snap(gf), label)
            disk.setdefault(f, {})[key] = v
            twins[f, key] = gf.deepcopy()
            sim.state((how, nodes, len(gf.dataframe), gf.dataframe.index.nlevels, len(gf.dataframe.columns), shared))
            continue
        f = sim.pick(sorted(disk), "file")
        path = os.path.join(d, f)
        key = sim.pick(sorted(disk[f]), "key")
        want = disk[f][key]
        ask = None if len(disk[f]) == 1 and sim.choose(2, "default-key") else key
        where = "here" if script and step < 4 else sim.pick(["here", "new process"], "where")
        label = "step %d: load %s %s, %s" % (step, f, ask, where)
        sim.note(label)
        if where == "new process":
            got = server({"path": path, "key": ask})
            if got[0] != "ok":
                raise Violation("S01-load-raised", "%s: %s" % (label, " ".join(got[1:])))
            model.require_same("S01-restored", want, got[1], label)
            sim.observe(label, got[1])
        else:
            r = load(path, ask)
            v = view(r)
            model.require_same("S01-restored", want, v, label)
            sim.observe(label, v)
            model.check_structure(r, label, tree_depths=False, root_parents=True)
            twin = twins[f, key]
            if sim.choose(2, "use"):
                # the restored GraphFrame is as good as the one that was saved
                op = ops.gen_op(sim, ops.spec_of(r), ("new", "value"), scratch, io=False)
                sim.note("  then %s" % op)
                for g in (r, twin):
                    # the order in which the list holds the roots is not kept
                    order = {id(n): k for k, n in enumerate(g.graph.traverse())}
                    g.graph.roots.sort(key=lambda n: order[id(n)])
                a = ops.outcome_of(op, r, r)[0]
                b = ops.outcome_of(op, twin, twin)[0]
                model.require_same("S01-behaves", no_meta(b), no_meta(a), "%s: %s of the restored" % (label, op))
            if len(pool) < 5:
                pool.append(r)
        sim.state((where, len(want["nodes"]), len(want["rows"]), len(want["index"]), len(want["columns"])))
        if len(want["nodes"]) > 1:
            checked += 1
    if checked:
        sim.nontrivial()


def no_meta(out):
    if out[0] == "ok" and isinstance(out[1], list) and out[1] and out[1][0] == "graphframe":
        return [out[0], [out[1][0], dict(out[1][1], metadata=None)]]
    return out
