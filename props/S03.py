"""A JSON checkpoint restores the GraphFrame, and a torn one is rejected."""

import json
import warnings

from sim import env, fresh, gen, model
from sim.core import Violation
from sim.sched import Interrupter

from . import ops
from .S01 import dense, inputs, no_meta, usable

SETTINGS = {
    "quick": {"runs": 1600, "cap_s": 170},
    "thorough": {"runs": 40000, "cap_s": 750},
    "hash_variants": 2,
    "rule": "a run builds or reads GraphFrames and interleaves operations on them with writing them as JSON "
    "text, loading texts (here and in new processes, also the texts of loaded GraphFrames), loading texts cut "
    "at decided lengths, and MemoryErrors and KeyboardInterrupts at any line of writing or loading; every load "
    "must restore the GraphFrame that was written, every cut text must be rejected, writing must change "
    "nothing, and texts must not depend on hash seeds; non-trivial: a text was loaded",
    "states": "digests of (step, nodes, rows, columns, levels, shared children, place)",
    "real": ["to_json, to_dict, from_json, JsonReader, json, pandas"],
    "stub": ["id() in hatchet (simulated allocator)", "the text in place of a file: cut at decided lengths",
             "the exception at a decided line"],
    "assumptions": ["GraphFrames with at least one row", "no root is also a child", "finite or infinite "
                    "numbers, text and missing values as cells",
                    "metadata, default metric and node ordering are no part of the format"],
}


def cell(v):
    v = model.norm(v)
    return "nan" if v is None else v


def view(gf):
    w = model.Walk(gf.graph)
    df = gf.dataframe
    rows = []
    data = [list(df.iloc[:, j]) for j in range(len(df.columns))]
    for i, label in enumerate(df.index):
        label = label if df.index.nlevels > 1 else (label,)
        rows.append([[x._hatchet_nid if nm == "node" and id(x) in w.index else model.norm(x)
                      for nm, x in zip(df.index.names, label)], [cell(d[i]) for d in data]])
    return json.loads(json.dumps({
        "roots": sorted(r._hatchet_nid for r in gf.graph.roots),
        "nodes": sorted([n._hatchet_nid, model.norm(n.frame.attrs), n._depth,
                         [c._hatchet_nid for c in n.children],
                         sorted(p._hatchet_nid for p in n.parents)] for n in w.nodes),
        "index": list(df.index.names),
        "columns": [model.norm(c) for c in df.columns],
        "rows": rows,
        "exc": list(gf.exc_metrics), "inc": list(gf.inc_metrics),
    }))


def load(text):
    from hatchet.graphframe import GraphFrame

    return GraphFrame.from_json(text)


def in_new_process(req):
    warnings.simplefilter("ignore")
    gf = load(req["text"])
    v = view(gf)
    model.check_structure(gf, "loaded")
    return [v, gf.to_json()]


def scenario(sim):
    warnings.simplefilter("ignore")
    server = fresh.Fresh(in_new_process)
    try:
        run(sim, server)
    finally:
        server.close()


def expressible(gf):
    """only cells and attributes that JSON has"""
    def plain(v):
        return isinstance(model.norm(v), (str, bool, int, float, type(None)))

    df = gf.dataframe
    return all(isinstance(c, str) for c in df.columns) and all(
        plain(v) and not repr(v).startswith("array") for c in df.columns for v in df[c]) and all(
        isinstance(n.frame.attrs, dict) and all(plain(v) for v in n.frame.attrs.values())
        for n in model.Walk(gf.graph).nodes)


def run(sim, server):
    env.addresses(sim)
    script = None
    if sim.chance(1, 4, "dense"):
        script = ["operation", "write", "load", "write", "load"]
    pool = [g for g in (dense if script else inputs)(sim) if usable(g)]
    texts = []  # (text, view of what was written, deep copy of it)
    loaded = 0
    for step in range(len(script) if script else 2 + sim.skewed(12, "steps")):
        if not pool:
            break
        i = len(pool) - 1 if script else sim.choose(len(pool), "on")
        gf = pool[i]
        what = script[step] if script else sim.weighted(
            [(4, "operation"), (5, "write"), (5, "load"), (3, "cut")], "step")
        if what in ("load", "cut") and not texts:
            what = "write"
        if what == "write" and not expressible(gf):
            what = "operation"
        nodes = len(model.Walk(gf.graph))
        shared = any(len(n.parents) > 1 for n in model.Walk(gf.graph).nodes)
        fault = sim.chance(1, 6, "interrupt") and what in ("write", "load")
        it = None
        if fault:
            exc = sim.pick([MemoryError(), KeyboardInterrupt()], "exception")
            it = Interrupter(1 + sim.skewed(60 + 12 * nodes, "line"), exc)
        if what == "operation":
            op = ops.gen_op(sim, ops.spec_of(gf), ("new", "new", "inplace"), None, io=False,
                            only=("filter",) if script else None)
            j = None
            if op.binary:
                same = [k for k, o in enumerate(pool) if o.dataframe.index.names == gf.dataframe.index.names]
                j = sim.pick(same, "with")
            sim.note("step %d: %s of %d%s" % (step, op, i, "" if j is None else ", %d" % j))
            out, r = ops.outcome_of(op, gf, None if j is None else pool[j])
            if out[0] == "raised":
                sim.note("  raised %s" % out[1])
                if op.kind == "inplace":
                    del pool[i]
            elif op.kind == "inplace":
                if r is not None:
                    pool[i] = r
                if not usable(pool[i]):
                    del pool[i]
            elif usable(r) and len(pool) < 5:
                pool.append(r)
        elif what == "write":
            label = "step %d: write %d%s" % (step, i, " interrupted" if it else "")
            sim.note(label)
            before, v = model.deep_snap(gf), view(gf)
            if it:
                try:
                    with it:
                        gf.to_json()
                except (MemoryError, KeyboardInterrupt):
                    sim.fault("interrupted-write")
                    model.require_same("S03-writing-changes", before, model.deep_snap(gf), label)
            text = gf.to_json()
            model.require_same("S03-writing-changes", before, model.deep_snap(gf), label)
            if not isinstance(text, str):
                raise Violation("S03-text", "%s: to_json() gave a %s" % (label, type(text).__name__))
            sim.observe(label, text)
            texts.append((text, v, gf.deepcopy()))
            sim.state(("write", nodes, len(gf.dataframe), len(gf.dataframe.columns), gf.dataframe.index.nlevels,
                       shared))
        elif what == "cut":
            k = sim.choose(len(texts), "text")
            text = texts[k][0]
            for _ in range(1 + sim.choose(6, "cuts")):
                n = sim.choose(len(text), "length")
                if sim.chance(1, 3, "near-end"):
                    n = len(text) - 1 - sim.choose(min(12, len(text)), "missing")
                label = "step %d: load text %d cut at %d of %d" % (step, k, n, len(text))
                sim.note(label)
                sim.fault("cut")
                try:
                    g = load(text[:n])
                except Exception:
                    continue
                raise Violation("S03-torn", "%s: gave a GraphFrame of %d rows" % (label, len(g.dataframe)))
        else:
            k = len(texts) - 1 if script else sim.choose(len(texts), "text")
            text, want, twin = texts[k]
            where = "here" if script and step < 4 else sim.pick(["here", "new process"], "where")
            label = "step %d: load text %d, %s%s" % (step, k, where, " interrupted first" if it else "")
            sim.note(label)
            if it:
                try:
                    with it:
                        load(text)
                except (MemoryError, KeyboardInterrupt):
                    sim.fault("interrupted-load")
            if where == "new process":
                got = server({"text": text})
                if got[0] != "ok":
                    raise Violation("S03-load-raised", "%s: %s" % (label, " ".join(got[1:])))
                v, again = got[1]
                model.require_same("S03-restored", want, v, label)
                sim.observe(label, v)
                sim.observe(label + " again", again)
                check_text(text, again, label)
            else:
                r = load(text)
                v = view(r)
                model.require_same("S03-restored", want, v, label)
                sim.observe(label, v)
                model.check_structure(r, label)
                check_text(text, r.to_json(), label)
                if sim.choose(2, "use"):
                    # the restored GraphFrame is as good as the one that was written
                    op = ops.gen_op(sim, ops.spec_of(r), ("new", "value"), None, io=False)
                    sim.note("  then %s" % op)
                    # (deep copies have ids of their own if there were gaps)
                    if not twin.graph.node_ordering and view(twin) == want and \
                            twin.default_metric == r.default_metric and list(map(str, twin.dataframe.dtypes)) == list(map(str, r.dataframe.dtypes)):
                        for g in (r, twin):
                            # the order in which the list holds the roots is not kept
                            order = {id(n): k for k, n in enumerate(g.graph.traverse())}
                            g.graph.roots.sort(key=lambda n: order[id(n)])
                        a = ops.outcome_of(op, r, r)[0]
                        b = ops.outcome_of(op, twin, twin)[0]
                        model.require_same("S03-behaves", no_meta(b), no_meta(a),
                                           "%s: %s of the restored" % (label, op))
                        sim.count("operations compared")
                if len(pool) < 5:
                    pool.append(r)
            loaded += 1
            sim.state((where, len(want["nodes"]), len(want["rows"]), len(want["index"]), len(want["columns"])))
    if loaded:
        sim.nontrivial()


def check_text(text, again, label):
    """a further round trip changes nothing"""
    d = model.diff(json.loads(text), json.loads(again))
    if d:
        raise Violation("S03-again", "%s: written again, the text differs: %s" % (label, d))
