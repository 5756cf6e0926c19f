// A notebook page for the simulator: the page's scripts run in a context of
// their own, and everything asynchronous (loaded modules, timers, the kernel's
// answers) waits until the simulator says so.  JSON lines on stdin and stdout.
"use strict";
const vm = require("vm"), fs = require("fs");

const callbacks = [], timers = [], executes = [], reruns = [], errors = [];
let selected = 1, running = 0, areas = new Map(), cells = [];

function element(tag, id, area) { return { tag, id, parentNode: area, area: area.index }; }
function area(i) {
    if (!areas.has(i)) areas.set(i, { index: i, area: i, nodes: [] });
    return areas.get(i);
}
function all() {
    return [...areas.keys()].sort((a, b) => a - b).flatMap(i => areas.get(i).nodes);
}

const host = {
    later: f => callbacks.push(f),
    timer: (f, ms) => { timers.push([f, Number(ms) || 0]); return timers.length; },
    execute: code => executes.push(String(code)),
    rerun: ids => reruns.push(Array.from(ids, Number)),
    error: text => errors.push(String(text)),
    selected: () => selected,
    running: () => running,
    byId: id => all().find(n => n.id === String(id)) || null,
    byTag: tag => all().filter(n => n.tag === tag),
    listen: (i, f) => cells[i].push(f),
    cells: () => cells.length,
};

const context = vm.createContext({ host });
function setup() {
vm.runInContext(`
var window = globalThis, self = globalThis;
var Jupyter = (function () {
    const elements = {};
    for (let i = 0; i < host.cells(); i++)
        elements[i] = {addEventListener: (kind, f) => { if (kind == "mousedown") host.listen(i, f); }};
    return {notebook: {
        get_cell_elements: () => elements,
        get_selected_index: () => host.selected(),
        kernel: {execute: (code) => host.execute(code)},
        execute_cells: (ids) => host.rerun(ids),
    }};
})();
var IPython = Jupyter;
var document = {getElementById: (id) => host.byId(id), querySelectorAll: () => []};
var console = {log() {}, warn() {}, info() {}, debug() {}, error: (...a) => host.error(a.join(" "))};
var d3 = {selectAll: (s) => ({empty: () => s != ".running" || host.running() == 0, size: () => host.running()})};
function require(names, f, g) { host.later(() => f(d3)); }
require.config = function () {};
function setTimeout(f, ms) { return host.timer(f, ms); }
var shown = [];
`, context);
}

function guard(f) {
    try { return { value: f() }; } catch (e) {
        return { error: (e && e.name || "Error") + ": " + (e && e.message || e) };
    }
}

const ops = {
    cells: m => { cells = Array.from({ length: m.n }, () => []); setup(); return null; },
    script: m => { vm.runInContext(m.code, context, { filename: "script.js" }); return null; },
    run: m => {
        context.__area = area(m.area);
        vm.runInContext("(function(element){\n" + m.code + "\n})(__area)", context, { filename: "cell.js" });
        return null;
    },
    html: m => {
        const a = area(m.area), scripts = [];
        const body = m.html.replace(/(<script[^>]*>)([^]*?)<\/script>/gi, (all, tag, code) => { scripts.push(code); return tag; });
        for (const t of body.matchAll(/<([a-zA-Z]+)([^>]*)>/g)) {
            const id = /\bid\s*=\s*["']?([^"'\s>]+)/.exec(t[2]);
            a.nodes.push(element(t[1].toLowerCase(), id ? id[1] : null, a));
        }
        for (const code of scripts) vm.runInContext(code, context, { filename: "page.js" });
        return null;
    },
    clear: m => { area(m.area).nodes = []; return null; },
    callback: () => { callbacks.shift()(); return null; },
    timer: m => { timers.splice(m.i, 1)[0][0](); return null; },
    click: m => { selected = m.cell; for (const f of cells[m.cell]) f(); return null; },
    select: m => { selected = m.cell; return null; },
    running: m => { running = m.n; return null; },
    set: m => {
        context.__key = m.key; context.__value = m.value;
        vm.runInContext("window.Roundtrip[__key] = typeof __value === 'object' ? JSON.parse(JSON.stringify(__value)) : __value", context);
        return null;
    },
    get: m => {
        context.__key = m.key;
        const v = vm.runInContext("window.Roundtrip[__key]", context);
        return v === undefined ? { undef: true } : { data: v };
    },
    shown: () => JSON.parse(vm.runInContext("JSON.stringify(shown.splice(0))", context)),
};

function handle(line) {
    const m = JSON.parse(line);
    const r = guard(() => ops[m.op](m));
    r.executes = executes.splice(0); r.reruns = reruns.splice(0); r.errors = errors.splice(0);
    r.callbacks = callbacks.length; r.timers = timers.length;
    fs.writeSync(1, JSON.stringify(r) + "\n");
}

let pending = "";
const buffer = Buffer.alloc(1 << 16);
const decoder = new (require("string_decoder").StringDecoder)("utf8");
for (;;) {
    let n = 0;
    try { n = fs.readSync(0, buffer, 0, buffer.length); } catch (e) {
        if (e.code === "EAGAIN") continue;
        if (e.code === "EOF") break;
        throw e;
    }
    if (n === 0) break;
    pending += decoder.write(buffer.subarray(0, n));
    let k;
    while ((k = pending.indexOf("\n")) >= 0) { handle(pending.slice(0, k)); pending = pending.slice(k + 1); }
}
