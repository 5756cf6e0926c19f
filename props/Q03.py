"""Profiles can be loaded in concurrent threads."""

import os
import warnings

from sim import env, formats, model, mp, sched
from sim.core import Violation

SETTINGS = {
    "quick": {"runs": 2500, "cap_s": 150},
    "thorough": {"runs": 50000, "cap_s": 750},
    "rule": "a run generates one to four profiles (15 formats, often several of one format) and starts 2-4 "
    "threads, each with a sequence of one to three loads, sometimes of the same files; the simulator switches "
    "between the threads at lines of hatchet code; every load must give the GraphFrame the same load gives "
    "alone, holding the values the generator stored; non-trivial: a switch happened inside a load and two "
    "loads succeeded",
    "states": "digests of (formats, threads, switches)",
    "real": ["every reader, pandas, PyTables, the caliperreader library"],
    "stub": ["thread scheduling (one thread at a time, switched at hatchet lines)",
             "processes of the HPCToolkit reader's pool", "id() in hatchet (simulated allocator)",
             "the SpotDB library handle"],
    "assumptions": ["calls into pandas, PyTables and other libraries are atomic"],
}


def snap(r):
    return [model.snap(g) for g in r] if isinstance(r, list) else model.snap(r)


def scenario(sim):
    warnings.simplefilter("ignore")
    env.addresses(sim)
    kind = None
    profiles = []
    for k in range(1 + sim.choose(4, "profiles")):
        if kind is None or sim.choose(3, "another-format") == 0:
            kind = sim.pick(formats.KINDS, "format")
        p = formats.generate(sim, kind, sim.pick([3, 6, 10], "max-nodes"))
        p.write(sim.tmp("p%d" % k))
        sim.note("profile %d: %s" % (k, p))
        profiles.append(p)
    plans = []
    for t in range(2 + sim.skewed(2, "threads")):
        plans.append([sim.choose(len(profiles), "profile") for _ in range(1 + sim.choose(3, "loads"))])
        sim.note("thread %d loads %s" % (t, plans[-1]))
    pools = any(p.kind == "hpctoolkit" for p in profiles)

    alone = []
    for p in profiles:
        if pools:
            mp.begin(sim, mp.Plan(cpus=1 + sim.choose(3, "cpus")))
        try:
            alone.append(snap(p.load()))
        finally:
            if pools:
                mp.end()

    def body(plan):
        def f():
            out = []
            for k in plan:
                try:
                    out.append((profiles[k].load(), None))
                except Exception as e:
                    out.append((None, e))
            return out

        return f

    sc = sched.Sched(sim, max_quantum=sim.pick([12, 60, 300], "max-quantum"))
    if pools:
        mp.begin(sim, mp.Plan(cpus=1 + sim.choose(3, "cpus")))
    try:
        tasks = sc.run([body(p) for p in plans])
    finally:
        if pools:
            mp.end()
    n = 0
    for t in tasks:
        if t.exc is not None:
            raise t.exc
        for j, (k, (got, err)) in enumerate(zip(plans[t.i], t.result)):
            label = "thread %d, load %d (%s)" % (t.i, j, profiles[k].kind)
            if err is not None:
                raise Violation("Q03-raised", "%s raised %s: %s" % (
                    label, type(err).__name__, str(err).replace(os.path.dirname(profiles[k].dir or ""), "")[:300]))
            model.require_same("Q03-result", alone[k], snap(got), label)
            if not isinstance(got, list):
                model.check_structure(got, label)
                formats.check_values(profiles[k], got, label)
            n += 1
    sim.state((sorted(p.kind for p in profiles), len(plans), sc.switches))
    sim.count("loads", n)
    if sc.switches > len(tasks) and n >= 2:
        sim.nontrivial()
