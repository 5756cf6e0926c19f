"""Generated HPCToolkit databases and the values a reader must return for them."""

import os
import struct

from xml.sax.saxutils import quoteattr


class Db:
    pass


def generate(sim, max_nodes=14, gpu=True):
    db = Db()
    db.ranks = 10 + sim.choose(3, "ranks") if sim.chance(1, 16, "many-ranks") else 1 + sim.choose(4, "ranks")
    db.cpu_threads = 1 + sim.choose(3, "threads")
    db.gpu_threads = sim.choose(4, "streams") if gpu and db.cpu_threads >= 1 else 0
    metrics = sim.pick(
        [
            ["CPUTIME (usec) (E)", "CPUTIME (usec) (I)"],
            ["CPUTIME (sec) (E)", "CPUTIME (sec) (I)", "L2 (E)", "L2 (I)"],
            ["PAPI_TOT_CYC (E)", "PAPI_TOT_CYC (I)", "CPUTIME (usec) (E)"],
            ["CPUTIME (usec) (E)"],
        ],
        "metrics",
    )
    if sim.chance(1, 6, "many-metrics"):
        k = 3 + sim.choose(10, "more-metrics")
        more = ["EV%d (E)" % i for i in range(k)]
        metrics = metrics + (more[::-1] if sim.choose(2, "descending") else more)
    db.metrics = metrics
    n = 1 + sim.skewed(max_nodes - 1, "nodes")
    # nodes: nid = i + 1; (tag, parent index or None, name/line/file)
    db.nodes = []
    for i in range(n):
        if i == 0 or sim.chance(1, 9, "root"):
            tag, parent = "PF", None
        else:
            cands = [k for k in range(i) if db.nodes[k]["tag"] != "S"]
            parent = cands[len(cands) - 1 - sim.choose(len(cands), "parent")]
            ptag = db.nodes[parent]["tag"]
            if ptag == "C":
                tag = "PF"
            else:
                tag = sim.pick(["Pr", "L", "S", "C", "PF", "S"], "tag")
        db.nodes.append({
            "tag": tag,
            "parent": parent,
            "proc": 4 if tag == "Pr" and sim.chance(1, 8, "no name") else sim.choose(4, "proc"),
            "file": sim.choose(3, "file"),
            "line": sim.choose(30, "line") if tag != "C" else 40 + i,
        })
    db.procs = ["main", "work", "MPI_Init", "loop body", ""]
    db.files = ["/src/main.c", "/src/a/work.c", "lib.c"]
    db.mods = ["/bin/app", "libm.so"]
    # an execution thread per metric file, in the reader's order
    db.threads = list(range(db.cpu_threads)) + [500 + k for k in range(db.gpu_threads)]
    extra = sim.choose(3, "uncovered")  # nodes only in the metric files
    db.num_nodes = n + extra
    db.vals = {}
    for r in range(db.ranks):
        for t in db.threads:
            db.vals[r, t] = [
                [sim.choose(4096, "value") / 8.0 for _ in metrics] for _ in range(db.num_nodes)
            ]
    return db


def filename(db, r, t):
    return "1.app-%06d-%03d-a8c0%04x-%d-0.metric-db" % (r, t, 17, 1600 + r)


def metric_bytes(db, r, t):
    head = b"HPCPROF-metricdb__" + b"00.10" + b"b"
    head += struct.pack(">i", db.num_nodes) + struct.pack(">i", len(db.metrics))
    return head + b"".join(
        struct.pack(">d", v) for node in db.vals[r, t] for v in node
    )


def write(db, path):
    os.makedirs(path, exist_ok=True)
    for r in range(db.ranks):
        for t in db.threads:
            with open(os.path.join(path, filename(db, r, t)), "wb") as f:
                f.write(metric_bytes(db, r, t))
    with open(os.path.join(path, "experiment.xml"), "w") as f:
        f.write(xml(db))


def xml(db):
    out = ['<?xml version="1.0"?>', '<HPCToolkitExperiment version="2.0">',
           '<Header n="app"></Header>', '<SecCallPathProfile i="0" n="app">', "<SecHeader>",
           "<MetricTable></MetricTable>", "<MetricDBTable>"]
    for i, m in enumerate(db.metrics):
        out.append('<MetricDB i="%d" n=%s t="nil" />' % (i, quoteattr(m)))
    out.append("</MetricDBTable><LoadModuleTable>")
    for i, m in enumerate(db.mods):
        out.append('<LoadModule i="%d" n=%s/>' % (i + 2, quoteattr(m)))
    out.append("</LoadModuleTable><FileTable>")
    for i, m in enumerate(db.files):
        out.append('<File i="%d" n=%s/>' % (i + 2, quoteattr(m)))
    out.append("</FileTable><ProcedureTable>")
    for i, m in enumerate(db.procs):
        out.append('<Procedure i="%d" n=%s/>' % (i + 2, quoteattr(m)))
    out.append("</ProcedureTable></SecHeader><SecCallPathProfileData>")
    ch = [[] for _ in db.nodes]
    for i, d in enumerate(db.nodes):
        if d["parent"] is not None:
            ch[d["parent"]].append(i)

    def emit(i):
        d = db.nodes[i]
        a = 'i="%d" s="%d" l="%d"' % (i + 1, i + 1, d["line"])
        if d["tag"] in ("PF", "Pr"):
            a += ' lm="%d" f="%d" n="%d"' % (2 + d["proc"] % 2, d["file"] + 2, d["proc"] + 2)
        elif d["tag"] == "L":
            a += ' f="%d"' % (d["file"] + 2)
        out.append("<%s %s>" % (d["tag"], a))
        if i % 3 == 1:
            out.append('<M n="0" v="1.5"/>')
        for c in ch[i]:
            emit(c)
        out.append("</%s>" % d["tag"])

    for i, d in enumerate(db.nodes):
        if d["parent"] is None:
            emit(i)
    out.append("</SecCallPathProfileData></SecCallPathProfile></HPCToolkitExperiment>")
    return "\n".join(out)


def columns(db):
    names = []
    for m in db.metrics:
        if m in ("CPUTIME (usec) (E)", "CPUTIME (sec) (E)"):
            m = "time"
        elif m in ("CPUTIME (usec) (I)", "CPUTIME (sec) (I)"):
            m = "time (inc)"
        names.append(m)
    return names


def left_out(d):
    """call sites, and inlined procedures with no name, are no nodes"""
    return d["tag"] == "C" or d["tag"] == "Pr" and d["proc"] == 4


def expected(db):
    """{(nid, rank, thread): {column: value}} and {nid: parent nid or None}"""
    cols = columns(db)
    vals = {k: [list(v) for v in nodes] for k, nodes in db.vals.items()}
    for i, d in enumerate(db.nodes):
        if d["tag"] == "S":
            p = d["parent"]
            for k in vals:
                for j, c in enumerate(cols):
                    if "(inc)" not in c and "(I)" not in c:
                        vals[k][p][j] -= db.vals[k][i][j]
    rows = {}
    parent = {}
    for i, d in enumerate(db.nodes):
        if left_out(d):
            continue
        p = d["parent"]
        while p is not None and left_out(db.nodes[p]):
            p = db.nodes[p]["parent"]
        parent[i + 1] = None if p is None else p + 1
        for r, t in vals:
            rows[i + 1, r, t] = dict(zip(cols, vals[r, t][i]))
    return rows, parent
