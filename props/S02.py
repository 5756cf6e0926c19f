"""HDF5 checkpoint failures are reported, never read back as data."""

import errno
import os
import warnings

from sim import env, fresh, gen, model
from sim.core import Violation
from sim.sched import Interrupter

from . import ops
from .S01 import in_new_process, load, view

SETTINGS = {
    "quick": {"runs": 700, "cap_s": 170},
    "thorough": {"runs": 20000, "cap_s": 750},
    "rule": "a run builds a GraphFrame, perhaps derives another one, and saves it up to four times to new files "
    "or into files with earlier checkpoints while opens, writes, truncations and closes fail (I/O errors, full disks and quotas, once or for good, "
    "after any number of bytes), writes come back short, or MemoryError and KeyboardInterrupt hit at any line; "
    "it also cuts intact files at any length and rebuilds the file a process leaves that dies between or "
    "within any two writes; a save that met a failure must raise or have written everything, the GraphFrame "
    "stays as it was, what is left is rejected or restores exactly (or is the earlier checkpoint), and saving elsewhere or again works; "
    "non-trivial: a fault fired or a damaged file was loaded",
    "states": "digests of (fault, call number, raised or not, what the remains gave)",
    "real": ["to_hdf, from_hdf, hatchet.writers, HDF5Reader, pandas, PyTables, HDF5, the file system"],
    "stub": ["libc open, write, truncate and close under faults", "id() in hatchet (simulated allocator)",
             "the exception at a decided line"],
    "assumptions": ["a dying process leaves its writes in order (no power loss)",
                    "one save per file under test, over up to two earlier checkpoints"],
}


def check_remains(sim, server, path, want, what, key=None, old=None):
    """rejected, or exactly the GraphFrame or the one before; in a new process and here"""
    got = server({"path": path, "key": key})
    res = []
    if got[0] == "crashed":
        raise Violation("S02-crash", "%s: loading it ended the process, %s" % (what, got[1]))
    if got[0] == "ok":
        if old is not None and model.diff(old, got[1]) is None:
            res.append("earlier")
        else:
            model.require_same("S02-read-back", want, got[1], what + ": the new process")
            res.append("complete")
    try:
        r = load(path, key)
    except Exception:
        if got[0] == "ok":
            raise Violation("S02-unstable", "%s: only a new process could load it" % what)
        return "rejected"
    if res == ["earlier"]:
        want = old
    model.require_same("S02-read-back", want, view(r), what)
    if got[0] != "ok":
        raise Violation("S02-unstable", "%s: only this process could load it" % what)
    return res[0]


def scenario(sim):
    warnings.simplefilter("ignore")
    server = fresh.Fresh(in_new_process)
    try:
        run(sim, server)
    finally:
        server.close()


def run(sim, server):
    lib = env.shim()
    env.addresses(sim)
    d, good = sim.tmp("disk"), sim.tmp("good")
    os.makedirs(d, exist_ok=True)
    os.makedirs(good, exist_ok=True)
    s = gen.spec(sim, ordered=True, max_nodes=8, dag=sim.chance(1, 3, "dag"), large=100, inc=bool(sim.choose(2, "inc")),
                 sparse=True, norows=sim.chance(1, 4, "norows"), nan=sim.chance(1, 4, "nan"))
    gf = gen.build(s)
    sim.note(str(s))
    if sim.chance(1, 3, "derive"):
        op = ops.gen_op(sim, s, ("new",), None, io=False)
        out, r = ops.outcome_of(op, gf, gf)
        if out[0] == "ok" and len(r.dataframe) and op.name[:3] != "gro" and not any(x.parents for x in r.graph.roots):
            sim.note("then %s" % op)
            gf = r
    before, want = model.deep_snap(gf), view(gf)
    elder = None
    if sim.chance(1, 2, "elder"):
        elder = gen.build(gen.spec(sim, ordered=True, max_nodes=5, inc=False))
        old_view = view(elder)
    for step in range(1 + sim.choose(4, "saves")):
        path = os.path.join(d, "c%d.hdf" % step)
        how = sim.weighted([(5, "write"), (2, "full"), (2, "other"), (3, "line"), (4, "cut"), (4, "crash")], "how")
        what = "step %d: %s" % (step, how)
        kw = {"complevel": 1 + sim.choose(9, "level")} if sim.chance(1, 5, "compressed") else {}
        raised = None
        fired = 0
        label = how
        old, others, start, key = None, [], b"", None
        if elder is not None and sim.choose(2, "over"):
            # there are earlier checkpoints in the file already
            keys = [[None], ["a"], [None, "a"]][sim.choose(3, "earlier-keys")]
            for k in keys:
                elder.to_hdf(path, **({"key": k} if k else {}))
            old = old_view if None in keys else None
            others = ["a"] if "a" in keys else []
            if "a" in keys:
                key = "hatchet_graphframe"
            what += " over checkpoints %s" % (keys,)
            with open(path, "rb") as fh:
                start = fh.read()
        if how in ("cut", "crash"):
            images = []
            if how == "cut":
                gf.to_hdf(path, **kw)
                with open(path, "rb") as fh:
                    data = fh.read()
                for _ in range(1 + sim.choose(4, "cuts")):
                    n = sim.choose(len(data), "length")
                    if sim.chance(1, 4, "near-end"):
                        n = len(data) - 1 - sim.skewed(min(64, len(data) - 1), "missing")
                    images.append(("%s at %d of %d" % (what, n, len(data)), data[:n]))
            else:
                lib.vs_arm(d.encode())
                lib.vs_log(1)
                gf.to_hdf(path, **kw)
                log = env.write_log()
                lib.vs_disarm()
                for _ in range(1 + sim.choose(4, "crashes")):
                    n = sim.choose(len(log), "writes")
                    if sim.choose(2, "late"):
                        n = len(log) - 1 - sim.skewed(min(20, len(log) - 1), "missing")
                    img = replay(start, log[:n])
                    text = "%s after %d of %d writes" % (what, n, len(log))
                    kind, off, data = log[n]
                    if kind == 0 and len(data) > 1 and sim.choose(2, "torn"):
                        k = 1 + sim.choose(len(data) - 1, "torn-at")
                        img = apply(img, 0, off, data[:k])
                        text += ", %d of %d bytes of the next" % (k, len(data))
                    images.append((text, bytes(img)))
            for text, img in images:
                sim.note(text)
                with open(path, "wb") as fh:
                    fh.write(img)
                res = check_remains(sim, server, path, want, text, key, old if how == "crash" else None)
                for k in others:
                    check_remains(sim, server, path, old_view, text + ", other key", k)
                sim.fault(how)
                sim.state((how, len(img) * 16 // (len(want["rows"]) * 4096 + 1), res))
                sim.count("damaged files %s" % res)
            fired = 1
        elif how == "line":
            exc = sim.pick([MemoryError(), KeyboardInterrupt()], "exception")
            k = 1 + sim.skewed(900, "line")
            what += " %s at line %d" % (type(exc).__name__, k)
            sim.note(what)
            it = Interrupter(k, exc)
            try:
                with it:
                    gf.to_hdf(path, **kw)
            except (MemoryError, KeyboardInterrupt) as e:
                raised = e
            fired = it.fired is not None
        else:
            lib.vs_arm(d.encode())
            if how == "full":
                n = sim.choose(60000, "bytes")
                what += " after %d bytes" % n
                lib.vs_budget(n)
            else:
                if how == "write":
                    cls, lim = env.WRITE, 70 if sim.choose(3, "many-writes") == 0 else 3
                    err = sim.pick([errno.EIO, errno.ENOSPC, errno.EDQUOT, 0], "errno")
                    keep = 1 + sim.choose(600, "keep") if not err else -1
                else:
                    cls = sim.pick([env.OPEN, env.TRUNC, env.CLOSE], "call")
                    label = {env.OPEN: "open", env.TRUNC: "truncate", env.CLOSE: "close"}[cls]
                    lim, keep = 4, -1
                    err = sim.pick([errno.EIO, errno.ENOSPC, errno.EACCES], "errno")
                nth = sim.skewed(lim, "call-number")
                sticky = bool(err) and sim.choose(2, "sticky")
                what += " class %d call %d %s%s" % (cls, nth, errno.errorcode[err] if err else "short %d" % keep,
                                                   ", for good" if sticky else "")
                lib.vs_rule(cls, nth, err, keep, sticky)
            sim.note(what)
            try:
                gf.to_hdf(path, **kw)
            except Exception as e:
                raised = e
            fired = lib.vs_enospc() if how == "full" else lib.vs_fired(0)
            lib.vs_disarm()
            if raised is not None and not fired:
                raise Violation("S02-raised", "%s: nothing failed, but it raised %r" % (what, raised))
        if fired:
            sim.fault(label)
            sim.nontrivial()
        if raised is not None:
            sim.note("  raised %s" % type(raised).__name__)
        model.require_same("S02-operand", before, model.deep_snap(gf), what)
        if how not in ("cut", "crash"):
            res = "none"
            if os.path.exists(path):
                res = check_remains(sim, server, path, want, what, key, old)
                for k in others:
                    r2 = check_remains(sim, server, path, old_view, what + ", other key", k)
                    if raised is None and r2 != "complete":
                        raise Violation("S02-silent", "%s: the save reported nothing, but another "
                                        "checkpoint in the file is %s" % (what, r2))
            sim.state((how, what.split(": ")[1][:40], raised is not None, res))
            if raised is None and res != "complete":
                raise Violation("S02-silent", "%s: the save reported nothing, but the checkpoint is %s" % (what, res))
        # saving goes on working: elsewhere, and here once the remains are gone
        other = os.path.join(good, "g%d.hdf" % sim.choose(2, "good-file"))
        if os.path.exists(path):
            os.unlink(path)
        for p in [other, path] if sim.choose(2, "order") else [path, other]:
            try:
                gf.to_hdf(p)
                v = view(load(p, None))
            except Exception as e:
                raise Violation("S02-later", "after %s: saving %s raised %s: %s" % (
                    what, "elsewhere" if p == other else "again", type(e).__name__, str(e)[:300].replace(d, "")))
            model.require_same("S02-later", want, v, "after %s" % what)
        os.unlink(path)


def apply(img, kind, off, data):
    img = bytearray(img)
    if kind == 2:
        return bytearray()
    if kind == 1:
        if off <= len(img):
            return img[:off]
        return img + bytes(off - len(img))
    if off > len(img):
        img += bytes(off - len(img))
    img[off:off + len(data)] = data
    return img


def replay(start, log):
    img = bytearray(start)
    for kind, off, data in log:
        img = apply(img, kind, off, data)
    return img
