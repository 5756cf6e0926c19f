"""A loaded profile does not depend on listing order, hash seed or earlier loads."""

import errno
import os

from sim import env, formats, model, mp
from sim.core import Violation
from sim.sched import Interrupter

SETTINGS = {
    "quick": {"runs": 700, "cap_s": 150},
    "thorough": {"runs": 20000, "cap_s": 700},
    "hash_variants": 2,
    "rule": "a run writes a generated profile (15 formats), loads it, then loads it again up to four "
    "times, each time with another directory order, other node addresses and, in between, loads of "
    "other profiles of the same or another format, some of which fail (damaged files, read errors, "
    "MemoryErrors and interrupts at decided lines); all loads, in two interpreters with different hash "
    "seeds, must give the same GraphFrame, holding the values the generator stored; non-trivial: a "
    "load was repeated after another one or in another directory order",
    "states": "digests of (format, loads before, how many of them failed, directory listings)",
    "real": ["every reader, pandas, PyTables, the caliperreader library"],
    "stub": ["os.listdir/os.scandir order", "id() in hatchet (simulated allocator)",
             "the SpotDB library handle", "process scheduling of the HPCToolkit reader's pool",
             "libc open and read return values in loads that are made to fail"],
    "assumptions": ["single-threaded readers are started one at a time"],
}


def load(sim, p, cpus=None):
    if p.kind != "hpctoolkit":
        return p.load()
    mp.begin(sim, mp.Plan(cpus=cpus or 1 + sim.choose(3, "cpus")))
    try:
        return p.load()
    finally:
        mp.end()


def snap(r):
    return [model.snap(g) for g in r] if isinstance(r, list) else model.snap(r)


def damage(sim, p, d):
    """cut one file of the profile"""
    fn = sim.pick(sorted(p.files), "cut-file")
    data = p.files[fn]
    with open(os.path.join(d, fn), "wb") as f:
        f.write(data[:sim.choose(len(data), "cut")])


def other_load(sim, kind, k, lib):
    """another load, perhaps a failing one; (name, failed)"""
    q = formats.generate(sim, kind if sim.choose(2, "same-kind") else None, 6)
    d = sim.tmp("other%d" % k)
    q.write(d)
    how = sim.pick(["fine", "fine", "damaged", "read-error", "raise"], "how")
    sim.note("  other load: %s, %s" % (q.kind, how))
    if not q.files and how in ("damaged", "read-error"):
        how = "fine"
    if how == "damaged":
        damage(sim, q, d)
    elif how == "read-error":
        lib.vs_arm(d.encode())
        lib.vs_rule(sim.pick([env.READ, env.OPEN], "class"), sim.skewed(4, "nth"), errno.EIO, -1, 1)
    i = None
    try:
        if how == "raise":
            i = Interrupter(1 + sim.skewed(400, "line"),
                            sim.pick([MemoryError, KeyboardInterrupt], "exc")("injected"))
            if q.kind == "hpctoolkit":
                mp.begin(sim, mp.Plan(cpus=1))
            try:
                with i:
                    q.load()
            finally:
                if q.kind == "hpctoolkit":
                    mp.end()
        else:
            load(sim, q, 1)
        failed = False
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        sim.note("    raised %s" % type(e).__name__)
        failed = True
    finally:
        lib.vs_disarm()
    if failed:
        sim.fault("failing load (%s)" % how)
    return failed


def scenario(sim):
    kind = sim.pick(formats.KINDS, "format")
    p = formats.generate(sim, kind, 8)
    sim.note(str(p))
    d = sim.tmp("main")
    p.write(d)
    env.addresses(sim)
    lib = env.shim()
    first = load(sim, p)
    for g in first if isinstance(first, list) else [first]:
        model.check_structure(g, "first load of %s" % p)
    if not isinstance(first, list):
        formats.check_values(p, first, "first load")
    want = snap(first)
    sim.observe("first load", want)
    env.permuted_listings(sim, d)
    failed = before = 0
    for k in range(1 + sim.choose(4, "loads")):
        sim.note("load %d" % (k + 2))
        for j in range(sim.choose(3, "others")):
            before += 1
            failed += other_load(sim, kind, 10 * k + j, lib)
        if sim.choose(2, "new-addresses"):
            env.addresses(sim)
        if len(p.files) > 1 or before:
            sim.nontrivial()
        r = load(sim, p)
        now = snap(r)
        model.require_same("load-differs", want, now, "load %d of %s, %d others (%d failed) before: first/now" % (
            k + 2, p, before, failed))
        sim.observe("load", now)
        sim.state((kind, before, failed, len(p.files)))
