"""Storage failures while loading a profile are raised, never swallowed."""

import errno
import os

from sim import env, formats, model
from sim.core import Violation

from .D02 import load, snap

SETTINGS = {
    "quick": {"runs": 2000, "cap_s": 150},
    "thorough": {"runs": 40000, "cap_s": 700},
    "rule": "a run writes a generated profile (12 formats stored in files), loads it, and loads it again "
    "with a fault: the n-th open or read fails (once or from then on), reads are short, a file is "
    "missing, replaced by a directory, or vanishes after its directory was listed, or a directory "
    "listing fails at its start or part-way; the load must raise or give the complete GraphFrame, and "
    "a later load of the intact profile must be right; non-trivial: the fault fired during the load",
    "states": "digests of (format, fault, errno, position, outcome)",
    "real": ["every file reader, pandas, PyTables/HDF5, pydot, caliperreader, marshal, json, XML parsers"],
    "stub": ["return values and errno of libc open, read, pread and fread under a fault",
             "os.listdir/os.scandir order and errors",
             "process scheduling of the HPCToolkit reader's pool"],
    "assumptions": ["a rank's or metric's only file missing before the listing cannot be noticed, except "
                    "where another metric's directory has it"],
}


def scenario(sim):
    kind = sim.pick(formats.FILE_KINDS + 3 * ["tau", "timemory", "hpctoolkit"], "format")
    p = formats.generate(sim, kind, 7)
    d = sim.tmp("p")
    p.write(d)
    sim.note(str(p))
    first = load(sim, p)
    if not isinstance(first, list):
        formats.check_values(p, first, "intact profile")
    want = snap(first)
    lib = env.shim()
    kinds = ["read-error", "read-error", "open-error", "open-error", "missing", "vanish", "directory", "interrupted"]
    if kind in ("tau", "timemory", "hpctoolkit"):
        kinds += ["listing", "listing", "vanish"]
    if kind == "hpctoolkit" and sim.chance(1, 3, "cut"):
        kinds += ["no-xml"]
    for attempt in range(1 + sim.choose(3, "attempts")):
        fault = sim.pick(kinds, "fault")
        files = sorted(p.files)
        what = "attempt %d, %s" % (attempt, fault)
        fired, must = [0], False
        listed = [sim.choose(4, "listings")]
        gone = []
        if fault in ("read-error", "open-error", "interrupted"):
            cls = env.OPEN if fault == "open-error" else env.READ
            n = 1 if len(files) == 1 else 2 * len(files)
            nth = sim.skewed(8 if cls == env.READ and kind != "hdf" else 1 + n if cls == env.OPEN else 40, "nth")
            err = sim.pick([errno.EACCES, errno.ENOENT, errno.EMFILE, errno.EIO, errno.ESTALE]
                           if cls == env.OPEN else [errno.EIO, errno.EIO, errno.ESTALE, errno.ENOMEM], "errno")
            if fault == "interrupted":
                err = errno.EINTR
            sticky = 0 if fault == "interrupted" else sim.choose(2, "sticky")
            what += " %s at %d%s" % (errno.errorcode[err], nth, ", for good" if sticky else "")
            lib.vs_arm(d.encode())
            lib.vs_rule(cls, nth, err, -1, sticky)
            if cls == env.READ and nth and sim.choose(2, "short"):
                # the part of the file before the failure has been delivered
                keep = 1 + sim.choose(1200, "keep")
                what += " after %d bytes" % keep
                lib.vs_rule(cls, nth - 1, 0, keep, 0)
        elif fault in ("missing", "directory", "no-xml"):
            f = sim.pick(files, "file")
            if fault == "no-xml":
                f = "experiment.xml"
            alone = len(files) == 1 or f == "experiment.xml"
            # another metric has a profile for that rank and thread
            twin = kind == "tau" and "/" in f and sum(
                os.path.basename(x) == os.path.basename(f) for x in files) > 1 and sum(
                os.path.dirname(x) == os.path.dirname(f) for x in files) > 1
            if (fault == "missing" or kind == "tau") and not (alone or twin):
                continue
            must = True
            what += " " + f
            os.unlink(os.path.join(d, f))
            if fault == "directory":
                os.mkdir(os.path.join(d, f))
            fired[0] = 1
        elif fault == "vanish":
            f = sim.pick(files, "file")
            what += " %s after %d listings" % (f, listed[0])

            def listing(path, names):
                full = os.path.abspath(os.fsdecode(path))
                if full != os.path.dirname(os.path.join(d, f)) or os.path.basename(f) not in names:
                    return names
                if listed[0] == 0 and not gone:
                    os.unlink(os.path.join(d, f))
                    gone.append(f)
                    fired[0] = 1
                listed[0] -= 1
                return names

            env._listing = listing
        else:
            err = sim.pick([errno.EACCES, errno.EIO, errno.ESTALE, errno.EMFILE], "errno")
            at = sim.skewed(12, "entry")
            what += " %s in listing %d at entry %d" % (errno.errorcode[err], listed[0], at)

            def listing(path, names):
                full = os.path.abspath(os.fsdecode(path))
                if not full.startswith(d):
                    return names
                names = sorted(names)
                if listed[0] == 0:
                    fired[0] = 1
                    names = names[:at] + [OSError(err, os.strerror(err), path)]
                listed[0] -= 1
                return names

            env._listing = listing
        sim.note(what)
        try:
            try:
                r = load(sim, p, 1 + sim.choose(2, "cpus") if kind == "hpctoolkit" else None)
                exc = None
            except Violation:
                raise
            except Exception as e:
                r, exc = None, e
        finally:
            env.plain_listings()
            if fault in ("read-error", "open-error", "interrupted"):
                fired[0] = lib.vs_fired(0)
            lib.vs_disarm()
        if fired[0]:
            sim.fault(fault)
            sim.nontrivial()
        sim.state((kind, fault, what.split(" ")[3:], exc is not None))
        if exc is not None:
            sim.note("  raised %s" % type(exc).__name__)
            if not fired[0] and not must:
                raise Violation("raised-without-fault", "%s: %s: %r" % (what, p, exc))
        elif r is None:
            raise Violation("nothing-returned", "%s: %s" % (what, p))
        elif must:
            raise Violation("failure-swallowed", "%s: %s: a GraphFrame was returned" % (what, p))
        else:
            model.require_same("partial-data", want, snap(r), "%s: %s" % (what, p))
        # the same process loads the intact profile
        for f in files:
            fn = os.path.join(d, f)
            if os.path.isdir(fn):
                os.rmdir(fn)
            if not os.path.exists(fn):
                with open(fn, "wb") as fh:
                    fh.write(p.files[f])
        again = load(sim, p)
        model.require_same("damaged-by-failure", want, snap(again), "load after %s: %s" % (what, p))
