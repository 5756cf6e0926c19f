"""A query's answer depends only on the query and the data."""

import math
import re
import warnings

import pandas as pd

from sim import env, gen, model
from sim.core import Violation
from sim.sched import Interrupter

SETTINGS = {
    "quick": {"runs": 4000, "cap_s": 150},
    "thorough": {"runs": 60000, "cap_s": 700},
    "rule": "a run builds 1-3 GraphFrames (shared children, several roots, ranks and threads, missing and "
    "infinite values) and applies a history of up to 12 queries in base, object, string and compound form, "
    "new and repeated, through the GraphFrame's engine, another one's, filter() and the old-style interface, "
    "while the table changes between queries, predicates raise at a decided call or run queries themselves, "
    "and interrupts hit at decided lines; every answer is compared with a path matcher over the whole graph "
    "that is written from the query language's definition; non-trivial: two queries answered, one of them "
    "with some but not all nodes",
    "states": "digests of (form, quantifiers, condition kinds, nodes, nodes matched)",
    "real": ["hatchet.query (all dialects, compound and old-style queries), GraphFrame.filter, textX, pandas"],
    "stub": ["id() in hatchet (simulated allocator)"],
    "assumptions": ["every node has at least one row", "conditions fit the type of their column",
                    "no curly braces in strings of the string dialect"],
}

NAMES = ["main", "foo", "bar", "baz", "qux", "grault", 'op"x"', "it's", "abc\\n", "f(int) <T>"]
CMP = {
    "==": lambda a, b: a == b,
    "<": lambda a, b: a < b,
    ">": lambda a, b: a > b,
    "<=": lambda a, b: a <= b,
    ">=": lambda a, b: a >= b,
    "!=": lambda a, b: a != b,
}


class Boom(Exception):
    pass


def bad(signature, message, expected=None, actual=None):
    raise Violation(signature, "%s; expected %s, got %s" % (message, expected, actual))


# -- conditions ---------------------------------------------------------------------
class Atom:
    """kind, column, argument"""

    def __init__(self, kind, col, arg=None):
        self.kind, self.col, self.arg = kind, col, arg

    def value(self, v):
        k, a = self.kind, self.arg
        if k == "eq":
            return v == a
        if k == "starts":
            return v.startswith(a)
        if k == "ends":
            return v.endswith(a)
        if k == "contains":
            return a in v
        if k == "match":
            return re.match(a, v) is not None
        if k == "nan":
            return math.isnan(v)
        if k == "notnan":
            return not math.isnan(v)
        if k == "inf":
            return math.isinf(v)
        if k == "notinf":
            return not math.isinf(v)
        if k == "none":
            return v is None
        if k == "notnone":
            return v is not None
        return bool(CMP[k](v, a))

    def truth(self, view, mode):
        """view: (values of a column, depth, nid, leaf)"""
        if self.kind == "leaf":
            return view.leaf
        if self.kind == "notleaf":
            return not view.leaf
        if self.col == "depth":
            if self.kind == "==" and self.arg == -1:
                return view.leaf
            return self.value(view.depth)
        if self.col == "node_id":
            return self.value(view.nid)
        vals = view.column(self.col)
        if vals is None:
            return False
        got = [self.value(v) for v in vals]
        return any(got) if mode == "any" else all(got)

    def text(self, var):
        k = self.kind
        if k == "leaf":
            return "%s IS LEAF" % var
        if k == "notleaf":
            return "%s IS NOT LEAF" % var
        left = '%s."%s"' % (var, self.col)
        if k in ("nan", "notnan", "inf", "notinf", "none", "notnone"):
            return "%s IS %s%s" % (left, "NOT " if k.startswith("not") else "",
                                   k.replace("not", "").upper())
        if k in ("eq", "starts", "ends", "contains", "match"):
            word = {"eq": "=", "starts": "STARTS WITH", "ends": "ENDS WITH", "contains": "CONTAINS",
                    "match": "=~"}[k]
            return "%s %s %s" % (left, word, ("'%s'" if '"' in self.arg else '"%s"') 
                                  % self.arg)
        return "%s %s %s" % (left, "=" if k == "==" else k, self.arg)

    def object_value(self):
        """(key, value) for the object dialect"""
        k = self.kind
        if k == "leaf":
            return "depth", -1
        if k == "eq":
            return self.col, re.escape(self.arg)
        if k == "starts":
            return self.col, re.escape(self.arg) + ".*"
        if k == "ends":
            return self.col, ".*" + re.escape(self.arg)
        if k == "contains":
            return self.col, ".*" + re.escape(self.arg) + ".*"
        if k == "match":
            return self.col, "(?:%s).*" % self.arg
        if k == "nan":
            return self.col, "== np.nan"
        if k == "inf":
            return self.col, "== np.inf"
        if k == "==" and isinstance(self.arg, (int, float)):
            return self.col, self.arg
        return self.col, "%s %s" % (k, self.arg)

    def __repr__(self):
        return "%s %s %s" % (self.col, self.kind, "" if self.arg is None else self.arg)


OBJECT_KINDS = {"leaf", "eq", "starts", "ends", "contains", "match", "nan", "inf", "==", "<", ">", "<=", ">=", "!="}
STRING_KINDS = {"leaf", "notleaf", "eq", "starts", "ends", "contains", "match", "nan", "notnan", "inf", "notinf",
                "none", "notnone", "==", "<", ">", "<=", ">="}


class Conds:
    """[(connective, negated, atom)], the connective of the first is None"""

    def __init__(self, items):
        self.items = items

    def truth(self, view, mode):
        if any(a.col not in ("depth", "node_id", None) and view.column(a.col) is None
               for _, _, a in self.items):
            return False
        # "and" binds stronger than "or"
        groups = []
        for c, neg, a in self.items:
            t = a.truth(view, mode) != neg
            if c == "or" or not groups:
                groups.append(t)
            else:
                groups[-1] = groups[-1] and t
        return any(groups) if groups else True

    def text(self, var):
        out = []
        for c, neg, a in self.items:
            out.append("%s%s%s" % ("" if c is None else c.upper() + " ", "NOT " if neg else "", a.text(var)))
        return out

    def as_dict(self):
        d = {}
        for _, _, a in self.items:
            k, v = a.object_value()
            d.setdefault(k, []).append(v)
        return {k: (v[0] if len(v) == 1 else list(v)) for k, v in d.items()}

    def __repr__(self):
        return " ".join("%s%s[%r]" % ("" if c is None else c + " ", "not " if n else "", a)
                        for c, n, a in self.items) or "true"


class View:
    def __init__(self, depth, nid, leaf, cols):
        self.depth, self.nid, self.leaf, self.cols = depth, nid, leaf, cols

    def column(self, c):
        return self.cols.get(c)


class Predicate:
    """a callable for the base syntax; looks at nothing but its argument"""

    def __init__(self, conds, mode, hook=None):
        self.conds, self.mode, self.hook = conds, mode, hook

    def __call__(self, row):
        if self.hook is not None:
            self.hook(row)
        if isinstance(row, pd.DataFrame):
            node = row.index.get_level_values("node")[0]
            cols = {c: list(row[c]) for c in row.columns}
        else:
            node = row.name
            cols = {c: [row[c]] for c in row.index}
        return self.conds.truth(View(node._depth, node._hatchet_nid, not node.children, cols), self.mode)


# -- queries --------------------------------------------------------------------------
class Leaf:
    def __init__(self, form, mode, pattern):
        self.form, self.mode, self.pattern = form, mode, pattern
        self.obj = None

    def expand(self):
        out = []
        for q, c in self.pattern:
            if isinstance(q, int):
                out += [(".", c)] * q
            elif q == "+":
                out += [(".", c), ("*", c)]
            else:
                out.append((q, c))
        return out

    def answer(self, world):
        return world.match(self.expand(), self.mode)

    def raw(self):
        """what a user writes in this dialect"""
        if self.form == "object":
            out = []
            for k, (q, c) in enumerate(self.pattern):
                if not c.items:
                    out.append(q)
                elif q == "." and len(c.items) % 2:
                    out.append(c.as_dict())
                else:
                    out.append((q, c.as_dict()))
            return out
        path, where = [], []
        for k, (q, c) in enumerate(self.pattern):
            q = '"%s"' % q if isinstance(q, str) else str(q)
            if c.items:
                path.append("(%s, p%d)" % (q, k) if q != '"."' or k % 2 else "(p%d)" % k)
                t = c.text("p%d" % k)
                if where:
                    t[0] = "AND " + t[0]
                where += t
            else:
                path.append("(%s)" % q if k % 2 else "(%s, q%d)" % (q, k))
        return "MATCH " + "->".join(path) + (" WHERE " + " ".join(where) if where else "")

    def build(self, hook, old=False):
        from hatchet.query import (CypherQuery, ObjectQuery, Query, QueryMatcher,
                                   parse_string_dialect)

        if self.form == "object":
            if old and self.mode == "off":
                return QueryMatcher(self.raw())
            return ObjectQuery(self.raw(), self.mode)
        if self.form == "string":
            if old and self.mode == "off":
                return CypherQuery(self.raw())
            return parse_string_dialect(self.raw(), self.mode)
        q = QueryMatcher() if old else Query()
        for k, (w, c) in enumerate(self.pattern):
            p = Predicate(c, self.mode, hook)
            if k == 0:
                q.match(w, p)
            elif k % 2 and not old:
                q.relation(w, p)
            else:
                q.rel(w, p)
        return q

    def __repr__(self):
        return "%s%s %s" % (self.form, "" if self.mode == "off" else "(%s)" % self.mode, self.pattern)


class Compound:
    def __init__(self, op, how, parts, ops=None):
        self.op, self.how, self.parts = op, how, parts
        # the operators between the parts, applied from left to right
        self.ops = ops or [op] * (len(parts) - 1)
        self.obj = None

    def answer(self, world):
        sets = [p.answer(world) for p in self.parts]
        if self.op == "not":
            return set(range(len(world.nodes))) - sets[0]
        out = sets[0]
        for op, s in zip(self.ops, sets[1:]):
            out = out & s if op == "and" else out | s if op == "or" else out ^ s
        return out

    def raw(self):
        """the string dialect's compound forms"""
        if self.how == "where":
            head = self.parts[0].raw().partition(" WHERE ")[0] + " WHERE "
            texts = [p.raw().partition(" WHERE ")[2] for p in self.parts]
        else:
            head = ""
            texts = [p.raw() for p in self.parts]
        out = head + "{%s}" % texts[0]
        for op, t in zip(self.ops, texts[1:]):
            out += " %s {%s}" % (op.upper(), t)
        return out

    def build(self, hook, old=False):
        from hatchet import query as Q

        if self.how in ("text", "where"):
            return Q.parse_string_dialect(self.raw(), self.parts[0].mode)
        if old:
            cls = {"and": [Q.AndQuery, Q.IntersectionQuery], "or": [Q.OrQuery, Q.UnionQuery],
                   "xor": [Q.XorQuery, Q.SymDifferenceQuery], "not": [Q.NotQuery]}[self.op]
            return cls[len(self.parts) % len(cls)](
                *[p.build(hook, old=(i % 2 == 0)) for i, p in enumerate(self.parts)])
        parts = []
        for p in self.parts:
            if isinstance(p, Leaf) and p.mode == "off" and p.form != "base" and self.how == "raw":
                parts.append(p.raw())
            else:
                parts.append(p.build(hook))
        if self.how == "operator" and self.op != "not":
            out = parts[0]
            for p in parts[1:]:
                out = out & p if self.op == "and" else out | p if self.op == "or" else out ^ p
            return out
        cls = {"and": Q.ConjunctionQuery, "or": Q.DisjunctionQuery, "xor": Q.ExclusiveDisjunctionQuery,
               "not": Q.NegationQuery}[self.op]
        return cls(*parts)

    def __repr__(self):
        return "%s-%s(%s)" % ("-".join(self.ops) or self.op, self.how, ", ".join(map(repr, self.parts)))


class World:
    """a GraphFrame as the matcher sees it"""

    def __init__(self, gf):
        w = model.Walk(gf.graph)
        self.nodes = w.nodes
        self.children = [[w.index[id(c)] for c in n.children] for n in w.nodes]
        names = list(gf.dataframe.index.names)
        at = names.index("node")
        cols = list(gf.dataframe.columns)
        data = [list(gf.dataframe[c]) for c in cols]
        per = [{c: [] for c in cols} for _ in w.nodes]
        self.rows = []
        for i, label in enumerate(gf.dataframe.index):
            n = label[at] if len(names) > 1 else label
            k = w.index[id(n)]
            self.rows.append(k)
            for j, c in enumerate(cols):
                per[k][c].append(data[j][i])
        self.views = [View(n._depth, n._hatchet_nid, not n.children, per[i]) for i, n in enumerate(w.nodes)]
        self.index = w.index

    def match(self, pattern, mode):
        n = len(pattern)
        memo = {}

        def test(i, x):
            if (i, x) not in memo:
                memo[i, x] = pattern[i][1].truth(self.views[x], mode)
            return memo[i, x]

        def close(states):
            states = set(states)
            for i in range(n):
                if i in states and pattern[i][0] == "*":
                    states.add(i + 1)
            return states

        found = set()

        def go(path, states):
            x = path[-1]
            nxt = set()
            for i in states:
                if i < n and test(i, x):
                    nxt.add(i if pattern[i][0] == "*" else i + 1)
            nxt = close(nxt)
            if not nxt:
                return
            if n in nxt:
                found.update(path)
            for c in self.children[x]:
                go(path + [c], nxt)

        first = close({0})
        for x in range(len(self.nodes)):
            go([x], first)
        return found


# -- generation -----------------------------------------------------------------------
def gen_atom(sim, gf, form):
    num = [m for m in gf.exc_metrics + gf.inc_metrics]
    kinds = [(6, "name"), (6, "num"), (2, "depth"), (2, "node_id"), (1, "special"), (1, "leaf")]
    if form != "base":
        kinds.append((1, "missing"))
    k = sim.weighted(kinds, "cond")
    ops = ["==", "<", ">", "<=", ">="] + (["!="] if form != "string" else [])
    if k == "name":
        name = sim.pick(NAMES, "cond-name")
        how = sim.pick(["eq", "starts", "ends", "contains", "match"], "cond-how")
        arg = {"eq": name, "starts": name[:1 + sim.choose(2, "cond-len")], "ends": name[-1:],
               "contains": name[1:3], "match": sim.pick(["[bf]", "ma.n", ".*u", "b(ar|az)$"], "cond-re")}[how]
        return Atom(how, "name", arg)
    if k == "num":
        return Atom(sim.pick(ops, "cond-op"), sim.pick(num, "cond-col"),
                    sim.choose(33, "cond-num") / 4.0 if sim.choose(3, "cond-float") else sim.choose(9, "cond-int"))
    if k == "depth":
        return Atom(sim.pick(ops, "cond-op"), "depth", sim.choose(5, "cond-depth"))
    if k == "node_id":
        return Atom(sim.pick(ops, "cond-op"), "node_id", sim.choose(7, "cond-nid"))
    if k == "special":
        kinds = ["nan", "inf"] + (["notnan", "notinf", "notnone", "none"] if form != "object" else [])
        return Atom(sim.pick(kinds, "cond-special"), sim.pick(num, "cond-col"))
    if k == "missing":
        return Atom("==", "nowhere", 1)
    return Atom(sim.pick(["leaf"] + (["notleaf"] if form != "object" else []), "cond-leaf"), None)


def gen_conds(sim, gf, form):
    n = sim.weighted([(2, 0), (6, 1), (3, 2), (1, 3)], "conds")
    items = []
    for i in range(n):
        conn = None if i == 0 else ("and" if form == "object" else sim.pick(["and", "or"], "connective"))
        neg = form != "object" and sim.chance(1, 5, "negated")
        items.append((conn, neg, gen_atom(sim, gf, form)))
    if form == "object":
        # numbers and leaves compete for the same key; fine, but keep equal keys together
        items.sort(key=lambda t: str(t[2].object_value()[0]))
    return Conds(items)


def gen_leaf(sim, gf, form=None):
    multi = len(gf.dataframe.index.names) > 1
    form = form or sim.weighted([(4, "base"), (3, "object"), (3, "string")], "form")
    mode = sim.pick(["any", "all"], "mode") if multi else "off"
    pattern = []
    for _ in range(1 + sim.skewed(3, "length")):
        q = sim.weighted([(4, "."), (5, "*"), (3, "+"), (1, 2), (1, 3)], "quantifier")
        pattern.append((q, gen_conds(sim, gf, form)))
    return Leaf(form, mode, pattern)


def gen_query(sim, gf, depth=0):
    if depth >= 2 or sim.chance(3, 5 if depth == 0 else 4, "simple"):
        return gen_leaf(sim, gf)
    op = sim.pick(["and", "or", "xor", "not"], "op")
    how = sim.pick(["class", "operator", "raw", "text", "where"], "how")
    if how in ("text", "where") and op != "not":
        parts = [gen_leaf(sim, gf, "string") for _ in range(2 + sim.choose(2, "parts"))]
        for p in parts:
            p.mode = parts[0].mode
        if how == "where":
            # one pattern; the groups of conditions are on its nodes
            first = parts[0].pattern
            for p in parts:
                p.pattern = []
                for q, c in first:
                    c = Conds(c.items) if p is parts[0] else gen_conds(sim, gf, "string")
                    c.items = [t for t in c.items if t[2].col]
                    if not c.items:
                        c.items = [(None, False, Atom("<", "depth", 1 + sim.choose(4, "cond-depth")))]
                    c.items[0] = (None, False, c.items[0][2])
                    p.pattern.append((q, c))
        return Compound(op, how, parts, [sim.pick(["and", "or", "xor"], "op") for _ in parts[1:]])
    n = 1 if op == "not" else 2 + sim.choose(2, "parts")
    return Compound(op, "class" if how in ("text", "where") else how, [gen_query(sim, gf, depth + 1) for _ in range(n)])


def has_base(q):
    return q.form == "base" if isinstance(q, Leaf) else any(has_base(p) for p in q.parts)


def fits(q, gf):
    """IS [NOT] NONE of a column that does not exist: undefined beside other conditions"""
    if not isinstance(q, Leaf):
        return all(fits(p, gf) for p in q.parts)
    return not any(a.kind in ("none", "notnone") and a.col not in gf.dataframe.columns
                   for _, c in q.pattern for _, _, a in c.items)


class Hook:
    """what a predicate does besides answering"""

    def __init__(self):
        self.calls = 0
        self.at = None
        self.act = None

    def __call__(self, row):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            self.at = None
            self.act()


def change(sim, gf):
    df = gf.dataframe
    i = sim.choose(50, "row") % len(df)
    if sim.chance(1, 3, "rename"):
        v = sim.pick(NAMES, "new-name")
        if sim.choose(2, "all-rows"):
            # every row of the node
            n = df.index[i] if df.index.nlevels == 1 else df.index[i][0]
            df.loc[[n] if df.index.nlevels == 1 else n, "name"] = v
            return "rows of node %d = %s" % (n._hatchet_nid, v)
        df.iloc[i, list(df.columns).index("name")] = v
    else:
        m = sim.pick(gf.exc_metrics, "column")
        v = sim.weighted([(5, sim.choose(33, "value") / 4.0), (1, math.nan), (1, math.inf)], "new-value")
        df.iloc[i, list(df.columns).index(m)] = v
    return "row %d = %s" % (i, v)


def shape(q):
    if isinstance(q, Leaf):
        return (q.form, q.mode, tuple((w, tuple(a.kind for _, _, a in c.items)) for w, c in q.pattern))
    return (tuple(q.ops), q.op, q.how, tuple(shape(p) for p in q.parts))


def scenario(sim):
    from hatchet.graphframe import EmptyFilter

    warnings.simplefilter("ignore")
    env.addresses(sim)
    levels = sim.weighted([(4, 0), (2, 1), (1, 2)], "levels")
    gfs = []
    for k in range(1 + sim.choose(3, "graphframes")):
        if gfs and sim.chance(1, 3, "same-graph"):
            gfs.append(gfs[0].copy())
            sim.note("graphframe %d: a copy of graphframe 0" % k)
            continue
        s = gen.spec(sim, ordered=True, max_nodes=8, dag=sim.chance(1, 3, "dag"), levels=levels, sparse=True,
                     nan=sim.chance(1, 3, "missing-values"), extra=False, inc=bool(sim.choose(2, "inc")))
        for _, v in s.rows:
            if sim.chance(1, 25, "infinite"):
                v["time"] = sim.pick([math.inf, -math.inf], "infinity")
        sim.note("graphframe %d: %s" % (k, s))
        gfs.append(gen.build(s))
    hook = Hook()
    queries = []
    answered = partial = 0
    for step in range(2 + sim.skewed(10, "steps")):
        g = sim.choose(len(gfs), "on")
        gf = gfs[g]
        if sim.chance(1, 5, "change"):
            sim.note("step %d: graphframe %d: %s" % (step, g, change(sim, gf)))
        if queries and sim.chance(1, 3, "again"):
            q = sim.pick(queries, "which")
        else:
            q = None
        if q is None or not fits(q, gf):
            q = gen_query(sim, gf)
            q.old = sim.chance(1, 4, "old-style")
            queries.append(q)
        via = sim.weighted([(5, "engine"), (3, "filter"), (1, "other-engine"), (2, "apply" if q.old else "engine")],
                           "via")
        if via == "apply" and not (q.form == "base" or q.mode == "off" if isinstance(q, Leaf) else q.how not in ("text", "where")):
            via = "engine"
        fault = sim.weighted([(6, None), (2, "raise"), (2, "nested"), (1, "interrupt")], "fault")
        if fault in ("raise", "nested") and not has_base(q):
            fault = None
        hook.calls, hook.at = 0, None
        inner = []
        if fault in ("raise", "nested"):
            hook.at = 1 + sim.choose(14, "call")
            if fault == "raise":
                def act():
                    sim.fault("predicate-raises")
                    raise Boom()
            else:
                g2 = sim.choose(len(gfs), "nested-on")
                q2 = gen_query(sim, gfs[g2])
                e2 = sim.choose(2, "nested-engine")

                def act(q2=q2, g2=g2, e2=e2, g=g):
                    sim.fault("predicate-queries")
                    eng = gfs[(g, g2)[e2]].query_engine
                    r = eng.apply(q2.build(None), gfs[g2].graph, gfs[g2].dataframe)
                    inner.append((q2, g2, r))
            hook.act = act
        label = "step %d: %s on graphframe %d by %s" % (step, q, g, via)
        sim.note(label + ("" if fault is None else ", " + fault))
        world = World(gf)
        want = q.answer(world)
        before = model.snap(gf)
        it = None

        def run():
            if q.obj is None:
                q.obj = q.build(hook, q.old)
            obj = q.obj
            if via == "apply":
                return obj.apply(gf)
            if via == "filter":
                if isinstance(q, Leaf) and q.form != "base" and (q.mode != "off") is not None and step % 2:
                    obj = q.raw()
                r = gf.filter(obj, squash=False, num_procs=1,
                              multi_index_mode=q.mode if isinstance(q, Leaf) else "off")
                return r
            if q.old:
                obj = obj._get_new_query() if hasattr(obj, "_get_new_query") else obj
            eng = gfs[0 if via == "other-engine" else g].query_engine
            return eng.apply(obj, gf.graph, gf.dataframe)

        try:
            if fault == "interrupt":
                it = Interrupter(1 + sim.skewed(400, "line"), KeyboardInterrupt())
                with it:
                    r = run()
            else:
                r = run()
        except KeyboardInterrupt:
            sim.fault("interrupt")
            r = None
        except Boom:
            r = None
        except EmptyFilter:
            if want:
                bad("Q01-empty", "%s: raised EmptyFilter, but nodes match" % label,
                                expected=sorted(want))
            r = None
            answered += 1
        except RecursionError:
            raise
        except Exception as e:
            bad("Q01-raised", "%s: raised %s: %s" % (label, type(e).__name__, str(e)[:200]),
                            expected=sorted(want))
        model.require_same("Q01-operand", before, model.snap(gf), "%s: GraphFrame" % label)
        if fault == "raise" and r is not None and hook.at is None:
            bad("Q01-swallowed", "%s: an exception of a predicate was swallowed" % label)
        for q2, g2, r2 in inner:
            w2 = World(gfs[g2])
            got2 = sorted(w2.index[id(n)] for n in r2)
            sim.observe("nested %d" % step, got2)
            if got2 != sorted(q2.answer(w2)):
                bad("Q01-nested", "%s: a query run by a predicate: %s on graphframe %d gave other nodes"
                                % (label, q2, g2), expected=sorted(q2.answer(w2)), actual=got2)
        if r is None:
            continue
        answered += 1
        if via == "filter":
            w = World(gf)
            rows = [k for k in w.rows if k in want]
            got = [w.index.get(id(n), -1) for n in
                   (r.dataframe.index if r.dataframe.index.nlevels == 1
                    else r.dataframe.index.get_level_values("node"))]
            if got != rows:
                bad("Q01-filter", "%s: the rows of the answer are not those of the matching nodes" % label,
                                expected=rows, actual=got)
            if not want:
                bad("Q01-filter", "%s: no node matches, but EmptyFilter was not raised" % label)
        else:
            ids = [world.index.get(id(n), -1) for n in r]
            if len(set(ids)) != len(ids):
                bad("Q01-twice", "%s: a node is in the answer twice" % label, actual=sorted(ids))
            if set(ids) != want:
                bad("Q01-answer", "%s: other nodes than those on matching paths" % label,
                                expected=sorted(want), actual=sorted(ids))
        sim.observe("step %d" % step, sorted(want))
        sim.state((shape(q), len(world.nodes), len(want)))
        if want and len(want) < len(world.nodes):
            partial += 1
    if answered >= 2 and partial:
        sim.nontrivial()
