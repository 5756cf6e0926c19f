"""Data exchanged with notebook visualisations arrives unchanged."""

import importlib.util
import json
import math
import os

import pandas as pd

import hatchet
from hatchet.external.roundtrip.roundtrip import manager
from sim import gen
from sim.core import Violation
from sim.page import Page

SETTINGS = {
    "quick": {"runs": 5000, "cap_s": 150},
    "thorough": {"runs": 40000, "cap_s": 750},
    "rule": "a run drives a notebook: cells that load one of up to three visualisations and hand data to them "
    "(once, or bound to Python variables, one way or both ways), cells that assign to bound variables, cells that "
    "fetch data, and a page in which visualisations store values; the kernel runs requests in the order they come, "
    "the page processes outputs in the order they come, and when each side takes its next step, when the page's "
    "modules load and its timers fire, and when the user clicks or runs cells is decided; each value is compared "
    "where and when it arrives, each visualisation with the cell it belongs to; non-trivial: at least two values "
    "were exchanged and one of them has special characters",
    "states": "digests of (step, waiting outputs, requests, callbacks, timers, refresh)",
    "real": ["roundtrip.manager: RoundTrip, Bridge", "roundtrip.js, in node"],
    "stub": ["IPython's display and shell, Jupyter's page, DOM, kernel and require.js (sim/page.js)"],
    "assumptions": ["the page processes the outputs of one call without other steps between them", "page writes are text or numbers"],
}

PIECES = [
    "a", "value", "main.c:12", "'", '"', "\\", "\\\\", "\n", "\r\n", "\r", "\t", "\\n", "\\'", '\\"', "`", "${x}", "${1+1}",
    "{0}", "{data}", "{{", "}}", "%s", "%d", "</script>", "<b>", "&amp;", "\u00e9", "\u4e2d\u6587", "\U0001f680", "\u2028",
    "\u2029", "\b", "\f", "\v", "\x00", "\x1b[0m", "'''", '"""', "#", "//", "/*", " ", "\\u0041", "\\x41", "\ufeff", "C:\\temp\\new",
    "std::map<int, char>::operator[]", "null", "undefined", "NaN", "0",
]
SPECIAL = set("'\"\\\n\r\t`${}%<>\u2028\u2029\b\f\v\x00\x1b") | set("\u00e9\u4e2d\U0001f680\ufeff")
READS = ["print(%s)\n", "other = %s\n", "%s\n", "w9 = [%s, 1]  # v0\n", "'%s = 1'\n", "print(\n    %s,\n)\n",
         "w9 = (\n    %s\n)\n", "w9 = \\\n    %s\n"]
ASSIGNS = [
    "%s = something(1)\n", "%s=1\n", "%s += 'x'\n", "%s[0] = 3\n", "if True:\n    %s = 'v = 1'\n", "w9 = %s = None\n",
    "(%s, w9) = (\n    1,\n    2,\n)\n", "%s //= 2\n", "print(1); %s = 2\n", "def f():\n    pass\n\n%s = f()\n", "%s **= 2\n",
    "%s.loc[0] = 1\n", "%s >>= 1\n", "%s[\n    'x'\n] = 1\n", "(%s,\n w9) = (1, 2)\n", "%s \\\n    = 1\n",
    "[\n    w9,\n    %s,  # the value\n\n] = 1, 2\n", "%s = '''\n\n'''\n",
]
TREE, QUERY = "hatchet_tree_def", "jsNodeSelected"
JS = ["a", "b", "c", "data_from_py"]
PY = ["v0", "v1", "v2"]


QUERIES = [
    'MATCH ("*")->(a) WHERE a."name" IS NOT NONE',
    'MATCH ("*")->(n) WHERE n."node_id" = 3 OR n."node_id" = 7',
    '{MATCH ("*")->(n) WHERE n."node_id" = 0} AND {MATCH (r) WHERE NOT r."node_id" = 2}',
    '["*"]',
]


def load_magics():
    """hatchet.vis.loader (importing hatchet.vis itself would run npm)"""
    path = os.path.join(os.path.dirname(hatchet.__file__), "vis", "loader.py")
    spec = importlib.util.spec_from_file_location("hatchet_vis_loader", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


magics = load_magics()


def text(sim, label):
    return "".join(sim.pick(PIECES, "piece") for _ in range(sim.skewed(6, label)))


def bracketed(data):
    return "<" + str(data) + ">"


def as_json(data):
    return json.dumps(data, ensure_ascii=False, default=str)


def literal_json(data):
    return json.dumps(data.to_literal(), default=float)


def unchanged(data):
    return data


def prefixed(data):
    # a comment with 'quotes', "quotes" and a \ backslash
    return ("read: \"" + data) + '\\'


def _nested():
    def inner(data):
        if data:
            return "inner\n" + data
        return "empty"

    return inner


nested = _nested()
UP = [unchanged, prefixed, nested]


def datum(sim, plain=False):
    """(data, converter or None)"""
    kind = sim.weighted([(6, "str"), (2, "json-list"), (2, "json-dict"), (1, "int"), (1, "float"), (1, "none"),
                         (1, "bool"), (1, "tuple"),
                         (1, "frame"), (1, "series")] + ([] if plain else [(1, "graphframe"), (2, "converted")]), "kind")
    if kind == "str":
        return text(sim, "text"), None
    if kind == "json-list":
        return [text(sim, "item") for _ in range(sim.choose(3, "items"))] + [1, None, 2.5], None
    if kind == "json-dict":
        return {"name": text(sim, "item"), "children": [{text(sim, "key"): True}]}, None
    if kind == "int":
        return sim.pick([0, 7, -3, 10 ** 20], "int"), None
    if kind == "float":
        return sim.pick([0.0, 2.5, -1e-300, 0.1, math.inf], "float"), None
    if kind == "none":
        return None, None
    if kind == "bool":
        return sim.pick([True, False], "bool"), None
    if kind == "tuple":
        return (text(sim, "item"), 7), None
    if kind == "frame":
        return pd.DataFrame({"name": [text(sim, "cell"), text(sim, "cell")], "time": [1.5, 2.0]}), None
    if kind == "series":
        return pd.Series([1.0, 2.0], index=["x", "y" + text(sim, "label")]), None
    if kind == "graphframe":
        gf = gen.build(gen.spec(sim, max_nodes=4, levels=0))
        gf.dataframe["name"] = [str(n) + text(sim, "name") for n in gf.dataframe["name"]]
        return gf, literal_json
    return text(sim, "text"), sim.pick([bracketed, as_json, unchanged], "converter")


def expect(data, conv):
    """what must arrive, as (how to compare, value)"""
    if conv is not None:
        return "text", conv(data)
    if isinstance(data, str):
        return "text", data
    if data is None:
        return "text", "{}"
    if isinstance(data, (bool, tuple)):
        return "raw", list(data) if isinstance(data, tuple) else data
    if isinstance(data, (int, float)):
        return "number", data
    if isinstance(data, (list, dict)):
        return "json", data
    return "json", json.loads(data.to_json())


def same(want, got):
    how, value = want
    if how == "number" and isinstance(got, str):
        try:
            return type(value)(got) == value
        except ValueError:
            return False
    if how == "json" and isinstance(got, str):
        try:
            return json.loads(got) == value
        except ValueError:
            return False
    if how == "raw" or isinstance(got, str):
        return got == value and type(got) is type(value)
    return False


def page_text(value):
    """how the page writes a value as text"""
    if isinstance(value, str):
        return value
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, list):
        return ",".join(page_text(v) for v in value)
    return "%d" % value if value == int(value) else repr(value)


class Shell:
    def __init__(self):
        self.user_ns = {"_ih": [""]}


class Handle:
    def __init__(self, world, n):
        self.world, self.display_id = world, n

    def update(self, obj, **kw):
        self.world.emit(obj)


class World:
    N = 6

    def __init__(self, sim):
        self.sim = sim
        self.page = Page(self.N)
        self.page.on_execute, self.page.on_rerun = self.on_execute, self.on_rerun
        self.out = []  # outputs on their way to the page: (area, [messages], check)
        self.kernel = []  # requests on their way to the kernel
        self.batch, self.displays, self.cell = None, 0, 0
        self.model = {}  # page values: js name -> (how, value)
        self.watched = {}  # python name -> {js name: converter}
        self.bound = {}  # js name -> {python name: {cell: certain}}
        self.up = {}  # js name -> converter of the last binding
        self.selected, self.busy, self.refresh, self.clicked = 1, 0, False, None
        self.exchanged = self.special = 0
        self.shell = Shell()
        self.batch = []
        self.rt = manager.RoundTrip(ipy_shell=self.shell)
        self.deliver_now()

    # -- python side ---------------------------------------------------------
    def display(self, *objs, **kw):
        for o in objs:
            self.emit(o)
        if kw.get("display_id"):
            self.displays += 1
            n = kw["display_id"] if isinstance(kw["display_id"], str) else "d%d" % self.displays
            return Handle(self, n)

    def emit(self, obj):
        if hasattr(obj, "_repr_javascript_"):
            r = obj._repr_javascript_()
            self.batch.append(("run", r[0] if isinstance(r, tuple) else r))
        elif hasattr(obj, "_repr_html_"):
            h = obj._repr_html_()
            if h:
                self.batch.append(("html", h))

    def call(self, f, check):
        """one call into the bridge; its outputs go to the page, and then check() holds"""
        self.batch = []
        f()
        self.out.append((self.cell, self.batch, check))
        self.batch = None

    def deliver_now(self):
        for op, m in self.batch:
            err, _ = self.page.call("run", code=m, area=0)
            if err:
                raise Violation("page-does-not-start", err)
        self.batch = None

    # -- page side -----------------------------------------------------------
    def on_execute(self, code):
        self.kernel.append(("code", code, None))

    def on_rerun(self, ids):
        self.refresh = True
        for i in ids:
            if i == i and 0 <= i < self.N and int(i) == i:
                self.kernel.append(("cell", int(i), None))
                self.busy += 1
        self.page.call("running", n=self.busy)

    def value(self, js):
        return self.page.call("get", key=js)

    def compare(self, js, what):
        err, v = self.value(js)
        got = None if err or "undef" in v else v["data"]
        want = self.model[js]
        self.exchanged += 1
        if isinstance(want[1], str) and SPECIAL & set(want[1]):
            self.special += 1
        if err or not same(want, got):
            raise Violation("%s-arrives-changed" % what, "%s: handed over %r, the page has %s" % (
                js, want[1], err or repr(got)))

    def deliver(self):
        area, messages, check = self.out.pop(0)
        if area == "clear":
            self.page.call("clear", area=messages)
            return
        errors = []
        for op, m in messages:
            err, _ = self.page.call("html", html=m, area=area) if op == "html" else self.page.call("run", code=m, area=area)
            if err:
                errors.append(err)
        if check is not None:
            check(errors)


def vis_source(k, names):
    return (
        "// a < b && \"c\" 'd'\nif (1 < 2 && '&lt;'.length == 4) shown.push([%d, element === null || element === undefined ? null : element.area, [%s]]);\n"
        % (k, ", ".join("window.Roundtrip[%r]" % n for n in names))
    )


def scenario(sim):
    manager.display = None
    w = World.__new__(World)
    manager.display = lambda *a, **k: w.display(*a, **k)
    w.__init__(sim)
    try:
        run(sim, w)
    finally:
        w.page.close()


def run(sim, w):
    cells, packed, ccts, pages = [], [], [], []
    magics.RT = w.rt
    cct = magics.CCT(None)
    cct.vis_dist = os.path.abspath(".")
    for k in range(1 + sim.choose(3, "visualisations")):
        sends = []
        ccts.append(not any(ccts) and sim.chance(1, 4, "cct"))
        others = [j for j in range(k) if not ccts[j]]
        shared = others and not ccts[k] and sim.chance(1, 3, "same page")
        pages.append(pages[sim.pick(others, "as cell")] if shared else k)
        if ccts[k]:
            gf = gen.build(gen.spec(sim, max_nodes=5))
            gf.dataframe["name"] = [str(n) + text(sim, "name") for n in gf.dataframe["name"]]
            if sim.chance(1, 2, "integers"):
                gf.dataframe["calls"] = range(len(gf.dataframe))
                gf.exc_metrics.append("calls")
            w.shell.user_ns["cct_gf"] = gf if sim.chance(2, 3, "as graphframe") else json.loads(literal_json(gf))
            packed.append(True)
            js = os.path.abspath("vis%d.js" % k)
            with open("cct_bundle.html", "w") as f:
                f.write("<html><head><title>v</title></head><body><div id='plot-%d'></div><script src='%s'></script></body></html>" % (k, js))
            with open(js, "w") as f:
                f.write("Roundtrip['jsNodeSelected'] = %s;\n" % json.dumps(QUERIES[0]) + vis_source(k, [TREE]))
            cells.append([(None, TREE)])
            continue
        names = [s[1] for s in cells[pages[k]]] if shared else sim.subset(JS, "js names") or [JS[0]]
        for js in names:
            if sim.chance(1, 2, "literal"):
                data, conv = datum(sim)
                sends.append(("data", js, data, conv))
            else:
                sends.append(("var", js, sim.pick(PY, "variable"), sim.pick([None, None, bracketed, as_json], "converter"),
                              sim.pick([False, True], "watch"), sim.pick(UP, "up")))
        cells.append(sends)
        if shared:
            packed.append(packed[pages[k]])
            continue
        js = os.path.abspath("vis%d.js" % k)
        packed.append(sim.chance(1, 3, "packed"))
        with open("vis%d.html" % k, "w") as f:
            if packed[k]:
                f.write("<html><head><title>v</title></head><body><div id='plot-%d'></div><script src='%s'></script></body></html>" % (k, js))
            else:
                f.write("<div id='plot-%d'></div>" % k)
        with open(js, "w") as f:
            f.write(vis_source(k, [s[1] for s in sends]))
    for v in PY:
        if sim.chance(2, 3, "defined"):
            w.shell.user_ns[v] = text(sim, "initial") if sim.chance(2, 3, "text") else [text(sim, "initial"), 1]

    def send(k, s):
        if s[0] == "data":
            _, js, data, conv = s
            want = expect(data, conv)
            kw = {} if conv is None else {"to_js_converter": conv}
            w.call(lambda: w.rt.data_to_js(data, js, **kw), lambda errs: arrived(js, want, errs, k, None))
        else:
            _, js, var, conv, watch, up = s
            data = w.shell.user_ns.get(var)
            want = expect(data, conv)
            kw = {} if conv is None else {"to_js_converter": conv}
            if watch:
                w.watched.setdefault(var, {})[js] = conv
            w.call(lambda: w.rt.var_to_js("?" + var if watch else var, js, watch=watch, from_js_converter=up, **kw),
                   lambda errs: arrived(js, want, errs, k, (var, watch, up)))

    def arrived(js, want, errs, k, binding):
        if errs:
            raise Violation("sending-fails-in-page", "%s: %r: %s" % (js, want[1], errs[0]))
        w.model[js] = want
        w.compare(js, "value")
        bound = w.bound.setdefault(js, {})
        var, watch, up = binding or (None, False, unchanged)
        if w.refresh:
            w.up.pop(js, None)
        else:
            w.up[js] = up
        if watch:
            bound.setdefault(var, {})[k] = not w.refresh and w.selected - 1 == k
        else:  # may end the binding of a cell
            for cells_of in bound.values():
                for c in cells_of:
                    cells_of[c] = False

    def load(k):
        w.cell = k
        w.out.append(("clear", k, None))
        html, js = os.path.abspath("vis%d.html" % pages[k]), os.path.abspath("vis%d.js" % pages[k])
        if ccts[k]:
            data = w.shell.user_ns["cct_gf"]
            want = ("json", json.loads(literal_json(data)) if isinstance(data, hatchet.GraphFrame) else data)
            w.call(lambda: cct.cct("cct_gf"), lambda errs: view_shown(k, want, errs))
            if os.path.exists("check"):
                raise Violation("visualisation-leaves-files", "check")
            after(["get_ipython().run_line_magic('cct', 'cct_gf')\n"])
            return
        if packed[k]:
            cache = sim.chance(1, 2, "cache")
            w.call(lambda: w.rt.load_webpack(html, cache=cache), None)
        else:
            w.call(lambda: w.rt.load_web_files([html, js]), None)
        for s in cells[k]:
            send(k, s)
        w.call(lambda: w.rt.initialize(), lambda errs: visible(k, errs))
        after(["get_ipython().run_line_magic('vis%d', '')\n" % k])

    def view_shown(k, want, errs):
        w.model[QUERY] = ("raw", QUERIES[0])
        arrived(TREE, want, errs, k, ("cct_gf", False, unchanged))
        visible(k, [])

    def visible(k, errs):
        if errs:
            raise Violation("visualisation-fails", "cell %d: %s" % (k, errs[0]))
        _, shown = w.page.call("shown")
        if [s[0] for s in shown] != [pages[k]]:
            raise Violation("visualisation-missing", "cell %d: %r" % (k, shown))
        if shown[0][1] != k:
            raise Violation("visualisation-misplaced", "cell %d's visualisation is in cell %r" % (k, shown[0][1]))
        for s, got in zip(cells[k], shown[0][2]):
            if not same(w.model[s[1]], got):
                raise Violation("visualisation-sees-other-value", "%s: %r, sees %r" % (s[1], w.model[s[1]][1], got))

    def after(lines, names=()):
        w.shell.user_ns["_ih"].append("".join(lines))
        changed = [v for v in names if v in w.watched]
        wants = [(js, expect(w.shell.user_ns[v], conv)) for v in changed for js, conv in w.watched[v].items()]

        def check(errs):
            if errs:
                raise Violation("update-fails-in-page", "%s: %s" % (changed, errs[0]))
            seen = {}
            for js, want in wants:
                seen.setdefault(js, []).append(want)
            for js, many in seen.items():
                if len(many) > 1:  # bound to several variables, all assigned: any of them
                    err, v = w.value(js)
                    ok = [x for x in many if not err and "data" in v and same(x, v["data"])]
                    w.model[js] = (ok or many)[0]
                else:
                    w.model[js] = many[0]
                w.compare(js, "assigned-value")

        w.call(w.rt.manage_jupter_change, check)

    def assign():
        w.cell = 4
        lines, names = [], []
        for var in PY:
            if sim.chance(1, 3, "read"):
                lines.append(sim.pick(READS, "read") % var)
        for var in sim.subset(PY, "assigned") or [PY[0]]:
            value = text(sim, "assigned") if sim.chance(2, 3, "text") else datum(sim, True)[0]
            w.shell.user_ns[var] = value
            lines.append(sim.pick(ASSIGNS, "form") % var)
            names.append(var)
        after(lines, names)

    def fetch():
        w.cell = 5
        js, conv = sim.pick(sorted(w.model), "fetched"), sim.pick(UP, "converter")
        dest = sim.pick(["w0", "w1"], "into")
        if js == QUERY:
            conv = unchanged

        def check(errs):
            if errs:
                raise Violation("fetching-fails-in-page", "%s: %s" % (js, errs[0]))
            err, v = w.value(js)
            got = v["data"]
            want = conv(page_text(got))
            mine = [i for i, r in enumerate(w.kernel) if r[0] == "code" and r[2] is None]
            if not mine:
                raise Violation("fetched-value-not-sent", js)
            i = mine[-1]
            w.kernel[i] = ("code", w.kernel[i][1], (dest, want, "fetched-value"))

        if js == QUERY:
            w.call(lambda: cct.cct_fetch_query(dest), check)
        else:
            w.call(lambda: w.rt.fetch_data(js, dest, conv), check)

    def store():
        js = sim.pick(JS + [QUERY] * (QUERY in w.model), "stored")
        if js == QUERY:
            value = sim.pick(QUERIES, "query")
        elif sim.chance(1, 5, "number"):
            value = sim.pick([0, 1, -7, 12345], "number")
        else:
            value = text(sim, "stored")
        click = None
        if sim.chance(2, 3, "click"):
            click = sim.choose(len(cells), "clicked")
            w.page.call("click", cell=click)
            w.selected = click
            w.clicked = click
        err, _ = w.page.call("set", tag=(js, value), key=js, value=value)
        if err:
            raise Violation("page-cannot-store", "%s = %r: %s" % (js, value, err))
        w.model[js] = ("raw", value)
        w.compare(js, "stored-value")

    def callback():
        """the next callback of a loaded module, which tells Python about a stored value"""
        js, value = w.page.tags.pop(0) or (None, None)
        sent = len(w.kernel)
        err, _ = w.page.call("callback")
        if err:
            raise Violation("page-callback-fails", err)
        codes = [i for i in range(sent, len(w.kernel)) if w.kernel[i][0] == "code"]
        if js is None:
            return
        up = w.up.get(js)
        owners = w.bound.get(js, {})
        sure = [v for v, c in owners.items() if c.get(w.clicked)]
        maybe = list(owners)
        if len(sure) == 1 and maybe == sure and up is not None and not codes:
            raise Violation("stored-value-not-sent", "%s, bound to %s: %r" % (js, sure[0], value))
        if len(codes) == 1 and len(maybe) == 1 and up is not None:
            want = up(value if isinstance(value, str) else "%d" % value)
            w.kernel[codes[0]] = ("code", w.kernel[codes[0]][1], (maybe[0], want, "bound-value"))

    def kernel():
        kind, what, check = w.kernel.pop(0)
        if kind == "cell":
            if what < len(cells):
                load(what)
            w.out.append(("reply", None, None))
            return
        try:
            exec(compile(what, "<page>", "exec"), w.shell.user_ns)
            err = None
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        if check is not None:
            dest, want, name = check
            w.exchanged += 1
            if SPECIAL & set(want):
                w.special += 1
            got = w.shell.user_ns.get(dest)
            if err or got != want:
                raise Violation("%s-arrives-changed" % name, "%s: %r, Python has %s" % (dest, want, err or repr(got)))

    def page_step():
        if w.out[0][0] == "reply":
            w.out.pop(0)
            w.busy -= 1
            w.page.call("running", n=w.busy)
        else:
            w.deliver()

    def timer():
        w.page.call("timer", i=sim.choose(w.page.timers, "timer"))
        if not w.page.timers and not w.page.callbacks and not w.busy:
            w.refresh = False

    budget = 6 + sim.skewed(20, "actions")
    load(0)
    w.selected = 1
    steps = 0
    while steps < 400:
        steps += 1
        acts = []
        if w.out:
            acts.append((4, page_step))
        if w.kernel:
            acts.append((3, kernel))
        if w.page.callbacks:
            acts.append((3, callback))
        if w.page.timers:
            acts.append((1, timer))
        if budget > 0:
            acts.append((2, None))
        if not acts:
            break
        f = sim.weighted(acts, "step")
        if f is None:
            budget -= 1
            what = sim.weighted([(3, store), (3, assign), (2, "load")] + ([(2, fetch)] if w.model else []), "action")
            if what == "load":
                k = sim.choose(len(cells), "cell")
                load(k)
                w.page.call("select", cell=k + 1)
                w.selected = k + 1
                sim.sched("load")
            else:
                what()
                sim.sched(what.__name__)
        else:
            f()
            sim.sched(f.__name__)
        sim.state("%s %d %d %d %d %d" % (getattr(f, "__name__", "user"), min(len(w.out), 5), min(len(w.kernel), 4),
                                       min(w.page.callbacks, 3), min(w.page.timers, 3), w.refresh))
    else:
        pass
    for js in sorted(w.model):
        w.compare(js, "value")
    if w.page.page_errors:
        sim.note("page errors: %r" % w.page.page_errors[:3])
    if w.exchanged >= 2 and w.special:
        sim.nontrivial()
