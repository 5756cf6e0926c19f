"""HPCToolkit loading is complete and independent of the workers' schedule."""

from sim import env, hpct, model, mp
from sim.core import Violation

SETTINGS = {
    "quick": {"runs": 1200, "cap_s": 150},
    "thorough": {"runs": 25000, "cap_s": 700},
    "rule": "a run generates an HPCToolkit database (ranks x threads x GPU streams, statements, "
    "loops, call sites, several roots), loads it twice under different worker counts, schedules, "
    "stalls and directory orders, and compares both with the values in the files; non-trivial: at "
    "least two metric files and two workers",
    "states": "digests of (ranks, threads, nodes, workers, chunks)",
    "real": ["HPCToolkitReader", "read_metricdb_file in forked processes", "RawArray shared memory",
             "subtract_exclusive_metric_vals (Cython)", "pandas", "libc file reads"],
    "stub": ["multiprocessing.Pool scheduling and transport", "os.listdir/os.scandir order"],
    "assumptions": ["databases follow the layout of HPCToolkit 2020/2021: contiguous ranks, the same "
                    "threads in every rank, node ids 1..n"],
}


def load(sim, path, plan):
    from hatchet import GraphFrame

    mp.begin(sim, plan)
    try:
        return GraphFrame.from_hpctoolkit(path)
    finally:
        mp.end()


def make_plan(sim, nfiles):
    stalls = []
    cpus = 1 + sim.choose(6, "cpus")
    for _ in range(sim.choose(3, "stalls")):
        stalls.append({"worker": sim.choose(cpus, "stalled"), "at": sim.skewed(30, "stall-at"),
                       "kind": "stall", "duration": 10.0 ** sim.choose(6, "stall-len")})
    return mp.Plan(cpus=cpus, faults=stalls)


def check_values(db, gf):
    rows, parent = hpct.expected(db)
    df = gf.dataframe
    cols = hpct.columns(db)
    levels = ["node", "rank", "thread"] if len(db.threads) > 1 else ["node", "rank"]
    if list(df.index.names) != levels:
        raise Violation("index", "index levels %r, expected %r" % (list(df.index.names), levels))
    for c in cols:
        if c not in df.columns:
            raise Violation("column-missing", "%r not in %r" % (c, list(df.columns)))
    seen = {}
    nid_node = {}
    data = {c: list(df[c]) for c in cols + ["nid"]}
    for i, label in enumerate(df.index):
        nid = int(data["nid"][i])
        r = int(label[1])
        t = int(label[2]) if len(levels) == 3 else 0
        if (nid, r, t) in seen:
            raise Violation("row-repeated", "two rows for node %d rank %d thread %d" % (nid, r, t))
        seen[nid, r, t] = {c: float(data[c][i]) for c in cols}
        if nid in nid_node and nid_node[nid] is not label[0]:
            raise Violation("two-nodes", "rows of node %d are indexed by different nodes" % nid)
        nid_node[nid] = label[0]
    missing = sorted(set(rows) - set(seen))
    if missing:
        raise Violation("row-missing", "no row for (node, rank, thread) %r" % (missing[:5],))
    more = sorted(set(seen) - set(rows))
    if more:
        raise Violation("row-invented", "rows for (node, rank, thread) %r" % (more[:5],))
    for k in sorted(rows):
        for c in cols:
            if seen[k][c] != rows[k][c]:
                raise Violation(
                    "wrong-value", "node %d rank %d thread %d %s: %r, in the file %r"
                    % (k + (c, seen[k][c], rows[k][c])))
    back = {id(n): nid for nid, n in nid_node.items()}
    w = model.Walk(gf.graph)
    if len(w) != len(parent):
        raise Violation("node-count", "%d nodes in the graph, %d in the file" % (len(w), len(parent)))
    for n in w.nodes:
        nid = back.get(id(n))
        want = parent.get(nid)
        got = [back.get(id(p)) for p in n.parents]
        if got != ([] if want is None else [want]):
            raise Violation("wrong-parent", "node %r: parents %r, expected %r" % (nid, got, want))
    exc = [c for c in cols if "(inc)" not in c and "(I)" not in c]
    inc = [c for c in cols if c not in exc]
    if list(gf.exc_metrics) != exc or list(gf.inc_metrics) != inc:
        raise Violation("metric-lists", "exc %r inc %r" % (gf.exc_metrics, gf.inc_metrics))


def scenario(sim):
    db = hpct.generate(sim)
    path = sim.tmp("db")
    hpct.write(db, path)
    nfiles = db.ranks * len(db.threads)
    plans = [make_plan(sim, nfiles), make_plan(sim, nfiles)]
    sim.note("%d ranks, threads %s, metrics %s, nodes %s; %d and %d reader processes, stalls %s" % (
        db.ranks, db.threads, db.metrics,
        [(d["tag"], d["parent"]) for d in db.nodes], plans[0].cpus, plans[1].cpus,
        [p.faults for p in plans]))
    if nfiles > 1 and max(p.cpus for p in plans) > 1:
        sim.nontrivial()
    sim.state((db.ranks, len(db.threads), len(db.nodes), plans[0].cpus, plans[1].cpus))
    env.permuted_listings(sim, path)
    if sim.chance(1, 3, "addresses"):
        env.addresses(sim)
    a = load(sim, path, plans[0])
    check_values(db, a)
    b = load(sim, path, plans[1])
    check_values(db, b)
    model.require_same("schedule-dependent", model.snap(a), model.snap(b), "two loads")
