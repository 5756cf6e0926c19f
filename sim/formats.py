"""Profiles in the formats hatchet reads, generated from one random calling context tree.

generate(sim, kind) -> Profile; Profile.write(directory) creates the files, Profile.load() reads
them with hatchet, Profile.values are the stored values as {(path of names, rank, thread): {column: value}}.
"""

import copy
import json
import marshal
import os

from . import gen, hpct

KINDS = ["pyinstrument", "gprof", "cprofile", "caliper-json", "caliper-ordered", "caliper",
         "caliper-series", "timemory", "tau", "hpctoolkit", "json", "hdf", "spotdb", "lists", "literal"]
FILE_KINDS = KINDS[:12]

WORDS = ["main", "solve", "init", "io", "step", "mult"]


class Tree:
    """names and parent indices; siblings have distinct names"""

    def __init__(self, sim, max_nodes=8, roots=1, min_nodes=1, recursion=True):
        self.name, self.parent = [], []
        n = min_nodes + sim.skewed(max_nodes - min_nodes, "nodes")
        taken = {}
        for i in range(n):
            p = None if i < roots else i - 1 - sim.choose(i, "parent")
            nm = WORDS[sim.choose(len(WORDS), "name")]
            above = set()
            q = p
            while q is not None and not recursion:
                above.add(self.name[q])
                q = self.parent[q]
            while nm in taken.setdefault(p, set()) or nm in above:
                nm += "_"
            taken[p].add(nm)
            self.name.append(nm)
            self.parent.append(p)

    def __len__(self):
        return len(self.name)

    def path(self, i):
        out = []
        while i is not None:
            out.append(self.name[i])
            i = self.parent[i]
        return tuple(reversed(out))

    def children(self, i):
        return [j for j in range(len(self)) if self.parent[j] == i]

    def under(self, i):
        out = [i]
        for c in self.children(i):
            out += self.under(c)
        return out


class Profile:
    def __init__(self, kind):
        self.kind = kind
        self.files = {}  # relative name -> bytes
        self.values = None
        self.note = ""
        self.dir = None
        self.fixed = None

    def write(self, directory):
        self.dir = directory
        os.makedirs(directory, exist_ok=True)
        for fn, data in self.files.items():
            p = os.path.join(directory, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        return self

    def load(self, **kw):
        return self.loader(self.dir, **kw)

    def __str__(self):
        return "%s: %s" % (self.kind, self.note)


def check_values(p, gf, what=""):
    """the values of the profile are those of the GraphFrame"""
    from .core import Violation

    if p.kind == "hpctoolkit":
        from props.C03 import check_values as check_db

        return check_db(p.db, gf)
    if p.values is None:
        return
    df = gf.dataframe
    names = list(df.index.names)
    cols = {c: list(df[c]) for v in p.values.values() for c in v or {} if c in df.columns}
    rows = {}
    for i, label in enumerate(df.index):
        d = dict(zip(names, label if isinstance(label, tuple) else (label,)))
        path, n = [], d["node"]
        while n is not None:
            f = n.frame
            path.append(f["name"] if f["type"] != "statement" or f.get("name") else
                        "%s:%s" % (os.path.basename(f["file"]), f["line"]))
            n = n.parents[0] if n.parents else None
        k = (tuple(reversed(path)), d.get("rank"), d.get("thread"))
        if k in rows:
            raise Violation("row-repeated", "%s: %s: two rows for %r" % (what, p, k))
        rows[k] = {c: v[i] for c, v in cols.items()}
    for k, v in p.values.items():
        if k not in rows:
            raise Violation("row-missing", "%s: %s: no row for %r" % (what, p, k))
        for c, x in (v or {}).items():
            if c not in rows[k]:
                raise Violation("column-missing", "%s: %s: no column %r" % (what, p, c))
            if isinstance(x, str):
                if rows[k][c] == x:
                    continue
            elif abs(rows[k][c] - x) <= 1e-9:
                continue
            raise Violation("wrong-value", "%s: %s: %s of %r is %r, in the file %r" % (
                what, p, c, k, rows[k][c], x))


def _time(sim):
    return sim.choose(400, "time") / 4.0


def generate(sim, kind=None, max_nodes=8):
    kind = kind or sim.pick(KINDS, "format")
    p = Profile(kind)
    globals()["_" + kind.replace("-", "_")](sim, p, max_nodes)
    return p


def _ht():
    import hatchet

    return hatchet.GraphFrame


def _pyinstrument(sim, p, mx):
    t = Tree(sim, mx)
    exc = [_time(sim) for _ in range(len(t))]
    inc = [sum(exc[j] for j in t.under(i)) for i in range(len(t))]

    def frame(i):
        d = {"function": t.name[i], "file_path_short": "a.py", "file_path": "/x/a.py", "line_no": i,
             "time": inc[i], "is_application_code": True}
        ch = [frame(c) for c in t.children(i)]
        if ch:
            d["children"] = ch
        return d

    doc = {"start_time": 1.0, "duration": inc[0], "sample_count": 5, "program": "a.py", "cpu_time": 1.0,
           "root_frame": frame(0)}
    p.files["profile.json"] = json.dumps(doc, indent=2).encode()
    p.loader = lambda d: _ht().from_pyinstrument(os.path.join(d, "profile.json"))
    p.values = {(t.path(i), None, None): {"time": exc[i], "time (inc)": inc[i]} for i in range(len(t))}
    p.note = "%d nodes" % len(t)


def _dag(sim, mx):
    """edges (caller, callee) of a random DAG and exclusive values"""
    n = 1 + sim.skewed(mx - 1, "functions")
    edges = []
    for i in range(1, n):
        for j in range(i):
            if sim.chance(1, 3, "edge"):
                edges.append((j, i))
    return n, edges, [_time(sim) for _ in range(n)]


def _gprof(sim, p, mx):
    n, edges, exc = _dag(sim, mx)
    names = ["%s%d" % (WORDS[sim.choose(len(WORDS), "name")], i) for i in range(n)]
    out = ["digraph {", "\tgraph [fontname=Arial];", "\tnode [shape=box];", "\tedge [fontname=Arial];"]
    for i in sim.shuffle(range(n), "order"):
        out.append('\t"%s" [color="#fc1501", label="mod\\n%s\\n%.2f%%\\n(%.2f%%)\\n1x"];' % (
            names[i], names[i], exc[i] + 1, exc[i]))
        for a, b in edges:
            if a == i:
                out.append('\t"%s" -> "%s" [label="1%%"];' % (names[a], names[b]))
    out.append("}")
    p.files["callgrind.dot"] = ("\n".join(out) + "\n").encode()
    p.loader = lambda d: _ht().from_gprof_dot(os.path.join(d, "callgrind.dot"))
    p.note = "%d functions, calls %s" % (n, edges)


def _cprofile(sim, p, mx):
    n, edges, exc = _dag(sim, mx)
    fns = []
    for i in range(n):
        # equal base names and equal function names, but never the same function twice
        f = ("/a/%d/__init__.py" % sim.choose(3, "dir"), 1 + sim.choose(2, "line"),
             sim.pick(["<module>", "run", "f"], "function"))
        while f in fns:
            f = (f[0], f[1] + 1, f[2])
        fns.append(f)
    stats = {}
    for i in range(n):
        callers = {fns[a]: (1, 1, 0.5, 0.5) for a, b in edges if b == i}
        stats[fns[i]] = (1, 1, exc[i], exc[i] + 1, callers)
    p.files["x.pstats"] = marshal.dumps(stats)
    p.loader = lambda d: _ht().from_cprofile(os.path.join(d, "x.pstats"))
    p.note = "%s, calls %s" % (fns, edges)


def _caliper_json(sim, p, mx):
    t = Tree(sim, mx, roots=1 + sim.choose(2, "roots"), min_nodes=2)
    ranks = sim.choose(4, "ranks")
    label = list(t.name)
    main = "path"
    extra = sim.subset(["count", "sum#bytes", "max#sum#papi.TOT_INS", "sum#calls"], "metrics")
    inc = bool(sim.choose(2, "inclusive"))
    text = {}
    if sim.chance(1, 3, "sampled"):
        main = "source.function#callpath.address"
        text["module#cali.sampler.pc"] = ["libc.so", "app", ""][:1 + sim.choose(3, "modules")]
        # (one line number in two files, and places together with regions, are beyond the reader)
        if sim.choose(2, "lines"):
            text["sourceloc#cali.sampler.pc"] = ["/s/a.c:%d" % (7 + k) for k in range(1 + sim.choose(3, "places"))]
            if sim.choose(2, "header"):
                text["sourceloc#cali.sampler.pc"].append("/s/inline.h:%d" % (17 + sim.choose(5, "line")))
        elif sim.choose(2, "regions"):
            text["path"] = ["phase", "loop", "halo"][:1 + sim.choose(3, "phases")]
    elif sim.chance(1, 3, "unlabelled"):
        k = 0
        for i in range(len(t)):
            if sim.chance(1, 3, "no-label"):
                label[i], t.name[i] = "", "UNKNOWN %d" % k
                k += 1
    # the nodes section, the tree in order and the other entries among it
    section = [(main, i) for i in range(len(t))]
    for c in text:
        for k in range(len(text[c])):
            section.insert(sim.choose(len(section) + 1, "place"), (c, k))
    where = {e: k for k, e in enumerate(section)}
    nodes = []
    for c, i in section:
        if c != main:
            nodes.append({"column": c, "label": text[c][i]})
        elif t.parent[i] is None:
            nodes.append({"column": c, "label": label[i]})
        else:
            nodes.append({"column": c, "label": label[i], "parent": where[(main, t.parent[i])]})
    metrics = ["sum#time.duration"] + (["inclusive#sum#time.duration"] if inc else []) + extra
    cols = sim.shuffle(metrics + (["mpi.rank"] if ranks else []) + list(text) + [main], "columns")
    called = {"sum#time.duration": "time", "inclusive#sum#time.duration": "time (inc)"}
    lines = "sourceloc#cali.sampler.pc" in text
    data = []
    p.values = {}
    # the places each node was seen at; several make each a child of the node
    seen = {}
    for r in range(max(ranks, 1)):
        v = [_time(sim) for _ in range(len(t))]
        if sim.chance(1, 2, "outside"):
            data.append([r if c == "mpi.rank" else None if c == main else
                         where[(c, 0)] if c in text else 1.5 for c in cols])
        for i in range(len(t)):
            d = {"sum#time.duration": v[i], "inclusive#sum#time.duration": sum(v[j] for j in t.under(i))}
            for m in extra:
                d[m] = sim.choose(50, "value")
            missing = i and sim.chance(1, 8, "missing")
            if r == max(ranks, 1) - 1 and i in (0, len(t) - 1):
                missing = False
            parts = 0 if missing else 1 + (sim.choose(2, "parts") if lines or "path" in text else 0)
            got = {}
            for k in range(parts):
                row = {main: where[(main, i)], "mpi.rank": r}
                for c in text:
                    row[c] = where[(c, sim.choose(len(text[c]), "entry"))]
                    if c == "path" and i and sim.chance(1, 4, "no-region"):
                        row[c] = None
                if "path" not in text and any(row == x for x, _ in got.values()):
                    continue
                place = text["sourceloc#cali.sampler.pc"][section[row["sourceloc#cali.sampler.pc"]][1]] if lines else None
                if "path" not in text and place in got:
                    continue
                share = {m: d[m] + k for m in metrics}
                data.append([row[c] if c in row else share[c] for c in cols])
                old = got.get(place, (row, dict.fromkeys(metrics, 0)))[1]
                got[place] = (row, {m: old[m] + share[m] for m in metrics})
            seen[(i, r)] = {q: sums for q, (_, sums) in got.items()}
    zero = dict.fromkeys(metrics, 0)
    for i in range(len(t)):
        places = sorted({q for r in range(max(ranks, 1)) for q in seen[(i, r)]}, key=str)
        for r in range(max(ranks, 1)):
            if len(places) > 1:
                want = [(t.path(i), zero)] + [(t.path(i) + (os.path.basename(q),), seen[(i, r)].get(q, zero))
                                              for q in places]
            else:
                want = [(t.path(i), seen[(i, r)].get(places[0], zero) if places else zero)]
            for path, d in want:
                p.values[(path, r if ranks else None, None)] = {called.get(m, m): d[m] for m in metrics}
    doc = {"data": data, "columns": cols,
           "column_metadata": [{"is_value": c not in text and c != main} for c in cols],
           "nodes": nodes, "user": "u%d" % sim.choose(3, "user")}
    p.files["profile.json"] = json.dumps(doc, indent=1).encode()
    p.loader = lambda d: _ht().from_caliper(os.path.join(d, "profile.json"))
    p.note = "%d nodes, %d ranks%s" % (len(t), ranks, ", " + ", ".join(sorted(text)) if text else "")


def _caliper_ordered(sim, p, mx):
    t = Tree(sim, mx, min_nodes=2)
    order = sim.shuffle(range(len(t)), "node-order")
    dup = sim.chance(1, 3, "duplicate")
    v = [_time(sim) for _ in range(len(t))]
    if dup and len(t) > 2:
        order[-1] = order[-2]
    doc = {"data": [[order[i], v[i], i] for i in range(len(t))],
           "columns": ["Node order", "sum#time.duration", "path"],
           "column_metadata": [{"is_value": True}, {"is_value": True}, {"is_value": False}],
           "nodes": [dict({"column": "path", "label": t.name[i]},
                          **({} if t.parent[i] is None else {"parent": t.parent[i]}))
                     for i in range(len(t))]}
    p.files["profile.json"] = json.dumps(doc, indent=1).encode()
    p.loader = lambda d: _ht().from_caliper(os.path.join(d, "profile.json"))
    p.values = {(t.path(i), None, None): {"time": v[i]} for i in range(len(t))}
    p.note = "%d nodes, order %s" % (len(t), order)


def _caliper(sim, p, mx):
    """native .cali"""
    t = Tree(sim, mx, min_nodes=2)
    ranks = sim.choose(3, "ranks")
    ordered = sim.chance(1, 4, "ordered")
    alias = bool(sim.choose(2, "alias"))
    channel = sim.chance(1, 3, "channels")
    label = sim.chance(1, 3, "label")
    cupti = not ordered and sim.chance(1, 4, "cupti")
    native = sim.chance(1, 4, "native")
    extra = sim.subset(["inclusive#sum#time.duration", "count", "max#bytes"], "metrics")
    out = [
        "__rec=node,id=2001,attr=10,data=64,parent=3",
        "__rec=node,id=2002,attr=8,data=attribute.alias,parent=2001",
        "__rec=node,id=2003,attr=2002,data=Total time,parent=5",
        "__rec=node,id=2004,attr=2002,data=Node order,parent=2",
        "__rec=node,id=2005,attr=8,data=spot.channel,parent=2001",
        "__rec=node,id=2006,attr=2005,data=regionprofile",
        "__rec=node,id=2007,attr=2005,data=other",
        "__rec=node,id=2008,attr=8,data=label,parent=2001",
        "__rec=node,id=2009,attr=8,data=cupti.activity.kind,parent=2001",
        "__rec=node,id=2010,attr=8,data=cupti.kernel.name,parent=2001",
        "__rec=node,id=2011,attr=2009,data=kernel",
        "__rec=node,id=2012,attr=2009,data=memcpy",
        "__rec=node,id=12,attr=10,data=65,parent=5",
        "__rec=node,id=13,attr=8,data=sum#time.duration,parent=12",
        "__rec=node,id=14,attr=10,data=65,parent=1",
        "__rec=node,id=15,attr=8,data=mpi.rank,parent=14",
        "__rec=node,id=16,attr=10,data=65,parent=%d" % (2003 if alias else 5),
        "__rec=node,id=17,attr=8,data=inclusive#sum#time.duration,parent=16",
        "__rec=node,id=18,attr=10,data=65,parent=%d" % (2004 if alias else 2),
        "__rec=node,id=19,attr=8,data=min#min#aggregate.slot,parent=18",
        "__rec=node,id=20,attr=8,data=count,parent=14",
        "__rec=node,id=21,attr=8,data=max#bytes,parent=12",
        "__rec=node,id=31,attr=10,data=268,parent=3",
        "__rec=node,id=32,attr=8,data=region,parent=31",
        "__rec=node,id=33,attr=10,data=512,parent=3",
        "__rec=node,id=34,attr=8,data=user,parent=33",
        "__rec=node,id=35,attr=8,data=jobs,parent=33",
        "__rec=node,id=36,attr=8,data=size,parent=33",
    ]
    attr = {"sum#time.duration": 13, "inclusive#sum#time.duration": 17, "count": 20, "max#bytes": 21}
    called = {"sum#time.duration": "time", "inclusive#sum#time.duration": "Total time" if alias and not native else "time (inc)"}
    for i in range(len(t)):
        out.append("__rec=node,id=%d,attr=32,data=%s%s" % (
            100 + i, t.name[i], "" if t.parent[i] is None else ",parent=%d" % (100 + t.parent[i])))
    for k in range(3):
        out.append("__rec=node,id=%d,attr=2008,data=text %d" % (3000 + k, k))
        out.append("__rec=node,id=%d,attr=2010,data=kernel_%d" % (3010 + k, k))
    p.values = {}
    recs = []
    slots = sim.shuffle(range(len(t)), "slots")
    for i in range(len(t)):
        if i and not ordered and sim.chance(1, 8, "missing"):
            continue
        recs += [(i, None, r) for r in range(max(ranks, 1))]
        if cupti and i:
            recs += [(i, k, 0) for k in sim.subset(["kernel_0", "kernel_1", "memcpy"], "activities")]
    if not ordered:
        recs = sim.shuffle(recs, "records")
    for i, act, r in recs:
        v = {"sum#time.duration": _time(sim)}
        for m in extra:
            v[m] = sim.choose(50, "value") if m == "count" else _time(sim)
        refs, attrs, data = [100 + i], [], []
        got = {called.get(m, m): v[m] for m in v}
        if channel:
            refs.append(2006)
        if label:
            k = sim.choose(3, "text")
            refs.append(3000 + k)
            got["label"] = "text %d" % k
        if act:
            refs += [2012] if act == "memcpy" else [2011, 3010 + int(act[-1])]
        for m in v:
            attrs.append(attr[m])
            data.append(v[m])
        if ordered:
            attrs.append(19)
            data.append(slots[i])
        if ranks:
            attrs.append(15)
            data.append(r)
        out.append("__rec=ctx,ref=%s,attr=%s,data=%s" % tuple("=".join(map(str, x)) for x in (refs, attrs, data)))
        if channel and sim.chance(1, 3, "other-channel"):
            out.append("__rec=ctx,ref=%d=2007,attr=13,data=%s" % (100 + i, _time(sim)))
        k = t.path(i) + ((act,) if act else ())
        # rows of several ranks for one node: the reader keeps the first
        if not any(q[0] == k for q in p.values):
            p.values[(k, r if ranks else None, None)] = got
    how = sim.choose(3, "strings") if label else 0
    if not how:
        for v in p.values.values():
            v.pop("label", None)
    out.append("__rec=globals,attr=34=35=36,data=me=%s=%s" % (
        sim.pick(["[a\\, b]", "(1\\,2)", "[]"], "jobs"), sim.pick(["3", "0.5", "x"], "size")))
    p.files["x.cali"] = ("\n".join(out) + "\n").encode()
    kw = {"native": True} if native else {}
    if how:
        kw["string_attributes"] = ["label"] if how == 1 else "label"
    opened = sim.chance(1, 4, "opened")

    def load(d):
        fn = os.path.join(d, "x.cali")
        if opened:
            import caliperreader

            r = caliperreader.CaliperReader()
            r.read(fn)
            fn = r
        return _ht().from_caliperreader(fn, **kw)

    p.loader = load
    p.note = "%d nodes, %d ranks%s" % (len(t), ranks, "".join(", " + w for w, c in [
        ("ordered", ordered), ("alias", alias), ("channels", channel), ("label", how), ("cupti", cupti),
        ("native", native), ("opened", opened)] if c))


def _caliper_series(sim, p, mx):
    """native .cali with one snapshot per loop iteration; loads as a list of GraphFrames"""
    t = Tree(sim, mx, min_nodes=2)
    out = [
        "__rec=node,id=12,attr=10,data=65,parent=5",
        "__rec=node,id=13,attr=8,data=sum#time.duration,parent=12",
        "__rec=node,id=14,attr=10,data=65,parent=1",
        "__rec=node,id=15,attr=8,data=loop.start_iteration,parent=14",
        "__rec=node,id=16,attr=10,data=65,parent=5",
        "__rec=node,id=17,attr=8,data=timeseries.snapshot,parent=16",
        "__rec=node,id=18,attr=10,data=65,parent=1",
        "__rec=node,id=19,attr=8,data=loop.iterations,parent=18",
        "__rec=node,id=31,attr=10,data=268,parent=3",
        "__rec=node,id=32,attr=8,data=region,parent=31",
        "__rec=node,id=33,attr=10,data=512,parent=3",
        "__rec=node,id=34,attr=8,data=user,parent=33",
    ]
    for i in range(len(t)):
        out.append("__rec=node,id=%d,attr=32,data=%s%s" % (
            100 + i, t.name[i], "" if t.parent[i] is None else ",parent=%d" % (100 + t.parent[i])))
    steps = 1 + sim.choose(4, "timesteps")
    for k in range(steps):
        for i in range(len(t)):
            if i and sim.chance(1, 8, "missing"):
                continue
            out.append("__rec=ctx,ref=%d,attr=13=15=17=19,data=%s=%d=0=1" % (100 + i, _time(sim), k))
    out.append("__rec=globals,attr=34,data=me")
    p.files["x.cali"] = ("\n".join(out) + "\n").encode()
    p.loader = lambda d: _ht().from_timeseries(os.path.join(d, "x.cali"))
    p.note = "%d nodes, %d timesteps" % (len(t), steps)


def _timemory(sim, p, mx):
    t = Tree(sim, mx, min_nodes=2)
    # where the ranks' trees are: two parallel models at once, one, or no ranks at all
    layout = sim.weighted([(4, "mpi"), (1, "upcxx"), (1, "upc"), (1, "both"), (1, "graph")], "layout")
    ranks = 1 if layout == "graph" else 2 + sim.choose(2, "ranks")
    threads = 2 if layout in ("mpi", "upcxx") and sim.chance(1, 3, "threads") else 1
    metrics = ["WALL_CLOCK"] * sim.chance(4, 5, "wall") + ["CPU_CLOCK"] * sim.choose(2, "metrics") or ["PEAK_RSS"]
    vector = sim.weighted([(3, None), (1, "list"), (1, "dict"), (1, "one")], "vector")
    if vector:
        metrics.append("PAPI_VECTOR")
    events = ["Total_cycles", "L2_cache misses"][:1 if vector == "one" else 2]
    as_dir = sim.choose(2, "directory")
    if len(metrics) > 1 and not as_dir:
        as_dir = sim.choose(2, "several-files")
    raw, more = list(t.name), [{} for _ in range(len(t))]
    if sim.chance(1, 2, "places"):
        for i in range(len(t)):
            n, at = t.name[i], "%d" % (10 + sim.choose(80, "line"))
            form = sim.choose(6, "form")
            if form == 1:
                raw[i], more[i] = "%s@%s.c:%s" % (n, n, at), {"file": n + ".c", "line": at}
            elif form == 2:
                t.name[i] = n + "/it"
                raw[i], more[i] = "%s@%s.c:%s/it" % (n, n, at), {"file": n + ".c", "line": at}
            elif form == 3:
                raw[i], more[i] = "[%s][%s.c]" % (n, n), {"file": n + ".c", "line": "0"}
            elif form == 4:
                raw[i], more[i] = "%s    [f/%s.c:%s]" % (n, n, at), {"file": n + ".c", "line": at}
            elif form == 5:
                raw[i], more[i] = "%s:%s" % (n, at), {"file": "<unknown file>", "line": at}
            else:
                more[i] = {"file": "<unknown>", "line": "0"}
    p.values = {}
    lanes = [(r, th) for r in range(ranks) for th in range(threads)]
    present = {a: [i == 0 or not sim.chance(1, 8, "missing") for i in range(len(t))] for a in lanes}
    for a in lanes:
        for i in range(1, len(t)):
            if not present[a][t.parent[i]]:
                present[a][i] = False
    for i in range(len(t)):
        if not any(present[a][i] for a in lanes):
            k = i
            while k is not None:
                present[lanes[0]][k] = True
                k = t.parent[k]

    def key(i, r, th):
        return t.path(i), None if layout == "graph" else r, th if threads > 1 else None

    docs = {}
    for m in metrics:
        trees = []
        low = m.lower()
        for r in range(ranks):
            top = []
            for th in range(threads):
                here = present[r, th]
                v = [_time(sim) for _ in range(len(t))]

                def stats(x):
                    if m != "PAPI_VECTOR":
                        return {"cereal_class_version": 0, "sum": x, "count": 1}
                    xs = [x + j for j in range(len(events))]
                    return {"sum": dict(zip("ab", xs)) if vector == "dict" else xs if vector != "one" else xs, "count": 1}

                def node(i):
                    inc = sum(v[j] for j in t.under(i) if here[j])
                    d = p.values.setdefault(key(i, r, th), dict(more[i]))
                    if m != "PAPI_VECTOR":
                        d.update({"sum.%s" % low: v[i], "sum.%s (inc)" % low: inc})
                    for j, e in enumerate(events if m == "PAPI_VECTOR" else []):
                        e = e.replace(" ", "-").replace("_", "-")
                        d.update({"sum.%s" % e: v[i] + j, "sum.%s (inc)" % e: inc + j})
                    return {"node": {"hash": 7 + i, "prefix": raw[i], "tid": [th], "pid": [100 + r],
                                     "depth": 0, "is_dummy": False,
                                     "inclusive": {"entry": {"laps": 1}, "stats": stats(inc)},
                                     "exclusive": {"entry": {"laps": 1}, "stats": stats(v[i])}},
                            "children": [node(c) for c in t.children(i) if here[c]]}

                top.append(node(0))
            root = {"cereal_class_version": 0,
                    "node": {"hash": 0, "prefix": "", "tid": [0], "pid": [100 + r], "depth": 0,
                             "is_dummy": False, "inclusive": {}, "exclusive": {}},
                    "children": top}
            trees.append([root] if sim.choose(3, "as-list") else root)
        doc = {"properties": {"cereal_class_version": 0, "id": low}, "type": low}
        if m == "PAPI_VECTOR":
            doc["type"] = {e: "" for e in events} if vector == "dict" else events
        if layout == "mpi":
            doc.update(mpi_size=ranks, mpi=trees)
        elif layout == "both":
            doc.update(mpi_size=1, mpi=trees[:1], upcxx=trees[1:])
        else:
            doc[layout] = trees
        docs["tim::component::" + m if sim.choose(2, "namespace") else m] = doc
    if as_dir:
        for m in docs:
            p.files["%s.tree.json" % m.split("::")[-1].lower()] = json.dumps({"timemory": {m: docs[m]}}, indent=1).encode()
    else:
        p.files["timemory.json"] = json.dumps({"timemory": docs}, indent=1).encode()
    for i in range(len(t)):
        for r, th in lanes:
            if ranks == 1 or threads == 1:
                p.values.setdefault(key(i, r, th), None)  # filled by the reader
    name = next(iter(p.files))
    kw = {}
    if len(metrics) > 1 and sim.choose(2, "select"):
        out = metrics.pop(sim.choose(len(metrics), "left-out"))
        kw["select"] = [(lambda m=m: m) if sim.chance(1, 4, "callable") else m for m in metrics]
        for v in p.values.values():
            for c in [c for c in v or {} if c.startswith("sum.") and (
                    (out == "PAPI_VECTOR") == (c.split(" (")[0][4:] not in ("wall_clock", "cpu_clock", "peak_rss"))
                    and (out == "PAPI_VECTOR" or c.split(" (")[0] == "sum." + out.lower()))]:
                del v[c]
    how = "directory" if as_dir else sim.pick(["file", "dict"], "how")

    def load(d):
        if how == "directory":
            return _ht().from_timemory(d, **kw)
        fn = os.path.join(d, name)
        if how == "file":
            return _ht().from_timemory(fn, **kw)
        with open(fn) as f:
            return _ht().from_timemory(json.load(f), **kw)

    p.loader = load
    p.note = "%d nodes, %s: %d ranks, %d threads, %s, %s%s%s" % (
        len(t), layout, ranks, threads, metrics, how, ", select" if kw else "", ", places" if any(more) else "")


def _tau(sim, p, mx):
    t = Tree(sim, mx)
    ranks = 1 + sim.choose(3, "ranks")
    threads = 1 + sim.choose(2, "threads")
    metrics = ["TIME"] + (["PAPI_L2_TCM"] if sim.choose(2, "metrics") else [])
    # how each node is written
    raw, more = list(t.name), [{} for _ in range(len(t))]
    if sim.chance(2, 3, "places"):
        for i in range(1, len(t)):
            n, at = t.name[i], 10 + sim.choose(80, "line")
            where = {"file": "%s.c" % n, "line": at}
            form = sim.choose(8, "form")
            if form == 1:
                raw[i], more[i] = "%s [{%s.c} {%d,1}-{%d,1}]" % (n, n, at, at + 9), dict(where, end_line=at + 9)
            elif form == 2:
                raw[i], more[i] = "%s C [{%s.c} {%d,0}]" % (n, n, at), where
            elif form == 3:
                t.name[i] = "[SAMPLE] " + n
                raw[i], more[i] = "%s [{%s.c} {%d}]" % (t.name[i], n, at), where
            elif form == 4:
                t.name[i] = "[UNWIND] " + n
                raw[i] = "[UNWIND] /src/%s.c [@] %s [{/lib/lib%s.so} {%d}]" % (n, n, n, at)
                more[i] = {"file": "/src/%s.c" % n, "module": "/lib/lib%s.so" % n, "line": at}
            elif form == 5:
                t.name[i] = "[UNWIND] " + n
                raw[i], more[i] = "[UNWIND] /lib/x.so.6 [@] %s /lib/y.so" % n, {"module": "/lib/y.so", "file": "/lib/x.so.6"}
            elif form == 6:
                t.name[i] = "[SAMPLE] " + n
                raw[i], more[i] = "[SAMPLE] %s /lib/lib%s.so" % (n, n), {"module": "/lib/lib%s.so" % n}
            elif form == 7:
                raw[i] = "%s C" % n if sim.choose(2, "C") else n
                t.name[i] = raw[i]

    def raw_path(i):
        return (raw_path(t.parent[i]) if i else ()) + (raw[i],)

    p.values = {}
    for r in range(ranks):
        for th in range(threads):
            here = [i == 0 or not sim.chance(1, 8, "missing") for i in range(len(t))]
            order = range(len(t))
            if sim.chance(1, 3, "other-order"):
                order = [0] + sim.shuffle(range(1, len(t)), "lines")
            for m in metrics:
                v = [sim.choose(100, "value") for _ in range(len(t))]
                out = ["%d templated_functions_MULTI_%s" % (len(t), m),
                       "# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name"
                       "</name><value>%s</value></attribute></metadata>" % m]
                col = "time" if m == "TIME" else m
                for i in order:
                    if not here[i] and i:
                        continue
                    inc = sum(v[j] for j in t.under(i))
                    if i:
                        out.append('"%s" 1 0 %d %d 0 GROUP="TAU_DEFAULT" ' % (raw[i], v[i], inc))
                    out.append('"%s" %d 0 %d %d 0 GROUP="TAU_CALLPATH" ' % (
                        " => ".join(raw_path(i)), 1 + i, v[i], inc))
                    p.values.setdefault((t.path(i), r, th), dict(more[i])).update({col: v[i], col + " (inc)": inc})
                fn = "profile.%d.0.%d" % (r, th)
                if len(metrics) > 1:
                    fn = "MULTI__%s/%s" % (m, fn)
                p.files[fn] = ("\n".join(out) + "\n").encode()
    p.loader = lambda d: _ht().from_tau(d)
    # the levels that exist depend on the numbers seen
    p.values = {
        (k[0], k[1] if ranks > 1 else None, k[2] if threads > 1 else None): v for k, v in p.values.items()
    }
    p.note = "%d nodes, %d ranks, %d threads, %s%s" % (
        len(t), ranks, threads, metrics, ", places" if any(more) else "")


def _hpctoolkit(sim, p, mx):
    db = hpct.generate(sim)
    p.db = db

    def write(directory, p=p):
        p.dir = directory
        os.makedirs(directory, exist_ok=True)
        hpct.write(db, directory)
        for fn in os.listdir(directory):
            f = os.path.join(directory, fn)
            if os.path.isfile(f):
                with open(f, "rb") as fh:
                    p.files[fn] = fh.read()
        return p

    p.write = write
    p.loader = lambda d: _ht().from_hpctoolkit(d)
    p.note = "HPCToolkit database"


def _saved(sim, p, mx, **kw):
    s = gen.spec(sim, max_nodes=mx, dup=False, levels=0, inc=bool(sim.choose(2, "inc")), **kw)
    p.spec = s
    p.note = str(s)
    return s


def _json(sim, p, mx):
    s = _saved(sim, p, mx)
    p.files["gf.json"] = gen.build(s).to_json().encode()

    def load(d):
        with open(os.path.join(d, "gf.json")) as f:
            return _ht().from_json(f.read())

    p.loader = load


def _hdf(sim, p, mx):
    s = _saved(sim, p, mx)
    gf = gen.build(s)

    def write(directory, p=p):
        p.dir = directory
        os.makedirs(directory, exist_ok=True)
        gf.to_hdf(os.path.join(directory, "gf.hdf"))
        with open(os.path.join(directory, "gf.hdf"), "rb") as fh:
            p.files["gf.hdf"] = fh.read()
        return p

    p.write = write
    p.loader = lambda d: _ht().from_hdf(os.path.join(d, "gf.hdf"))


class FakeSpotDB:
    """stands for the spotdb library's handle"""

    def __init__(self, runs, attrs):
        self.runs, self.attrs = runs, attrs

    def get_all_run_ids(self):
        return sorted(self.runs)

    def get_regionprofiles(self, runs):
        return copy.deepcopy({r: self.runs[r][0] for r in runs})

    def get_global_data(self, runs):
        return copy.deepcopy({r: self.runs[r][1] for r in runs})

    def get_metric_attribute_metadata(self):
        return copy.deepcopy(self.attrs)


def _spotdb(sim, p, mx):
    import sys
    import types

    sys.modules.setdefault("spotdb", types.ModuleType("spotdb"))
    keys = ["sum#time", "sum#inclusive#time", "max#bytes", "calls", "inclusive#max#bytes"]
    keys = sim.shuffle(keys[:2 + sim.choose(4, "metrics")], "metric-order")
    runs = {}
    for r in range(1 + sim.choose(2, "runs")):
        t = Tree(sim, mx)
        prof = {}
        for i in sim.shuffle(range(len(t)), "order"):
            rec = {}
            for k in keys:
                if i and sim.chance(1, 8, "missing"):
                    continue
                rec[k] = "%d" % sim.choose(50, "calls") if k == "calls" else str(_time(sim))
            prof["/".join(t.path(i))] = rec
        runs[r] = (prof, {"launchdate": 100 + r})
    attrs = {k: {"type": "int" if k == "calls" else "double"} for k in keys}
    for k in keys:
        if sim.choose(2, "alias"):
            attrs[k]["alias"] = {"sum#time": "time", "sum#inclusive#time": "time"}.get(k, k.upper())
    db = FakeSpotDB(runs, attrs)
    p.loader = lambda d: _ht().from_spotdb(db)
    p.note = "%d runs" % len(runs)


def _lists(sim, p, mx):
    """nested lists, also with repeated subtrees"""

    def lst(depth):
        out = [WORDS[sim.choose(len(WORDS), "name")]]
        if depth < 4:
            for _ in range(sim.choose(3, "children")):
                out.append(lst(depth + 1))
        return out

    ls = [lst(0) for _ in range(1 + sim.choose(2, "roots"))]
    p.loader = lambda d: _ht().from_lists(*ls)
    p.note = str(ls)


def _literal(sim, p, mx):
    s = _saved(sim, p, mx)
    lit = gen.literal(s)
    p.loader = lambda d: _ht().from_literal(lit)
