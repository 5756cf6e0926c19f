"""A failing cali-query conversion is reported, never taken for a profile."""

import errno
import gc
import io
import json
import os
import stat
import warnings

from sim import env, formats, model, proc
from sim.core import HarnessError, Violation

SETTINGS = {
    "quick": {"runs": 6000, "cap_s": 170},
    "thorough": {"runs": 150000, "cap_s": 750},
    "rule": "a run generates Caliper profiles and loads .cali files one to four times; each time the simulated "
    "cali-query cannot be found or started, exits with a decided status, is killed, or ends after a decided "
    "part of its output, or succeeds; it delivers its output in decided pieces with decided delays through "
    "pipes of decided capacity, and may write much to its error output; a load must raise, or, if the output "
    "was complete and the status 0, give the GraphFrame of that output; it must not hang, and must reap every "
    "program; non-trivial: the program was started or could not be",
    "states": "digests of (fate, status, share of the output, pieces, raised or not)",
    "real": ["GraphFrame.from_caliper, CaliperReader, which(), json, pandas"],
    "stub": ["subprocess.Popen and the program behind it (scripted), its pipes and time (virtual)"],
    "assumptions": ["cali-query writes its result to its standard output and reports failures by its exit status"],
}

STATUS = [1, 2, 127, 255, -9, -11, -15, -13, -6]


def document(sim):
    p = formats.generate(sim, sim.pick(["caliper-json", "caliper-ordered"], "format"), 7)
    doc = json.loads(p.files["profile.json"])
    if sim.chance(1, 3, "unicode"):
        for n in doc["nodes"]:
            if n["label"] and "sourceloc" not in n["column"] and sim.choose(2, "accent"):
                n["label"] += sim.pick(["\u00e9", "\u4e2d\u6587", "\U0001f680"], "accent-text")
    labels = {n["label"] for n in doc["nodes"]} | {str(n["label"]) for n in doc["nodes"]}
    text = json.dumps(doc, indent=sim.pick([None, 1], "indent"), ensure_ascii=False) + "\n"
    return labels, text.encode("utf-8")


def script(sim, data, noise):
    """data in pieces with delays, and error output between them"""
    steps = []
    pieces = sim.weighted([(3, 1), (3, 4), (2, 20)], "pieces")
    cuts = sorted({sim.choose(len(data) + 1, "piece") for _ in range(pieces - 1)} | {0, len(data)}) if data else []
    for a, b in zip(cuts, cuts[1:]):
        if sim.chance(1, 3, "delay"):
            steps.append(("delay", sim.pick([0.001, 0.5, 30.0, 3600.0, 90000.0], "seconds")))
        if noise and sim.chance(1, 3, "noise"):
            steps.append(("err", b"cali-query: note\n" * (1 + sim.choose(600, "lines"))))
        steps.append(("out", data[a:b]))
    if noise:
        steps.append(("err", b"cali-query: processed\n" * (1 + sim.choose(600, "lines"))))
    if sim.chance(1, 3, "early-close"):
        steps.append(("close", "out"))
    if sim.chance(1, 3, "last-delay"):
        steps.append(("delay", sim.pick([0.001, 1.0, 7200.0], "seconds")))
    return steps


def scenario(sim):
    warnings.simplefilter("ignore")
    from hatchet.graphframe import GraphFrame
    from hatchet.readers import caliper_reader  # noqa: F401

    env.addresses(sim)
    env.clock(sim)
    bindir, other, d = sim.tmp("bin"), sim.tmp("other"), sim.tmp("data")
    for x in (bindir, other, d):
        os.makedirs(x, exist_ok=True)
    exe = os.path.join(bindir, "cali-query")
    query = sim.pick(["SELECT *,sum(time.duration) FORMAT json-split", "select function,'a b' format json-split",
                      "format json-split"], "query")
    fn = os.path.join(d, sim.pick(["run.cali", "a b.cali", "x'y.cali", "-q.cali"], "file"))
    with open(fn, "wb") as f:
        f.write(b"__rec=node,id=1\n")
    bad_command = []

    def check_command(path, argv):
        strs = [os.fsdecode(a) for a in argv]
        if os.path.realpath(os.fsdecode(path)) != os.path.realpath(exe) and os.fsdecode(path) != "cali-query":
            bad_command.append("program %s" % os.path.basename(os.fsdecode(path)))
        if query not in strs[1:] or fn not in strs[1:]:
            bad_command.append("the query or the file is missing among its %d arguments" % (len(strs) - 1))

    world = proc.begin(sim, check_command)
    docs = [document(sim) for _ in range(1 + sim.choose(2, "documents"))]
    old = os.environ.get("PATH", "")
    for step in range(1 + sim.choose(4, "loads")):
        labels, data = docs[sim.choose(len(docs), "document")]
        want = model.snap(GraphFrame.from_caliper(io.BytesIO(data)))
        fate = sim.weighted([(4, "ok"), (3, "status"), (3, "partial"), (2, "partial-status"), (1, "start"),
                             (1, "absent")], "fate")
        os.environ["PATH"] = os.pathsep.join([other, bindir] if sim.choose(2, "path-order") else [bindir, other])
        if os.path.exists(exe):
            os.unlink(exe)
        status, share = 0, len(data)
        if fate == "absent":
            how = sim.pick(["none", "not executable", "directory"], "how")
            if how == "directory":
                os.makedirs(os.path.join(other, "cali-query"), exist_ok=True)
            elif how == "not executable":
                with open(exe, "w") as f:
                    f.write("#!/bin/sh\nexit 97\n")
                os.chmod(exe, stat.S_IRUSR | stat.S_IWUSR)
            sim.fault("absent")
            label = "cali-query is absent (%s)" % how
        else:
            with open(exe, "w") as f:
                f.write("#!/bin/sh\nexit 97\n")
            os.chmod(exe, 0o755)
            if fate in ("status", "partial-status"):
                status = sim.pick(STATUS, "status")
            if fate in ("partial", "partial-status"):
                share = sim.choose(len(data), "share")
                if sim.chance(1, 4, "nearly-all"):
                    share = len(data) - 1 - sim.choose(min(8, len(data)), "missing")
            noise = sim.chance(1, 4, "noisy")
            cap = sim.pick([65536, 4096, 64, 1], "capacity")
            err = sim.pick([errno.ENOENT, errno.EACCES, errno.ENOEXEC, errno.EAGAIN, errno.ENOMEM],
                           "errno") if fate == "start" else None
            if cap == 1 and len(data) > 3000:
                cap = 64
            steps = script(sim, data[:share], noise)
            world.programs[:] = [proc.Program(steps, status, cap, err)]
            label = "%s: status %d, %d of %d bytes in %d steps, pipes of %d%s%s" % (
                fate, status, share, len(data), len(steps), cap, ", noisy" if noise else "",
                ", " + errno.errorcode[err] if err else "")
            if fate != "ok" and not err:
                sim.fault(fate)
        label = "load %d: %s" % (step, label)
        sim.note(label)
        n0 = len(world.children)
        raised, gf = None, None
        try:
            gf = GraphFrame.from_caliper(fn, query)
        except (Violation, HarnessError):
            raise
        except (Exception, SystemExit) as e:
            raised = e
        sim.note("  %s" % ("raised %s" % type(raised).__name__ if raised is not None else "ok"))
        sim.state((fate, status, share * 16 // len(data), raised is not None, len(world.children) - n0))
        sim.nontrivial()
        if bad_command:
            raise Violation("F02-command", "%s: %s" % (label, bad_command[0]))
        if raised is None:
            if status or fate in ("start", "absent"):
                raise Violation("F02-swallowed", "%s: gave a GraphFrame of %d rows" % (label, len(gf.dataframe)))
            model.require_same("F02-result", want, model.snap(gf), label)
            for n in gf.graph.traverse():
                f = n.frame
                # a place in the source has no name of its own
                name = f.get("name", None) or "%s:%s" % (f.get("file"), f.get("line"))
                if name not in labels and not (str(name).startswith("UNKNOWN ") and "" in labels):
                    raise Violation("F02-label", "%s: node %r is not among the converter's labels" % (label, name))
        elif fate == "ok":
            raise Violation("F02-raised", "%s: nothing failed, but it raised %s: %s" % (
                label, type(raised).__name__, str(raised).replace(d, "")[:300]))
        left = raised is None
        gf = raised = None
        gc.collect()
        bad = world.unreaped()
        if bad:
            raise Violation("F02-unreaped", "%s: %s without being reaped" % (
                label, "the program ended" if bad[0].dead is not None else "the program goes on"))
        sim.count("loads given" if left else "loads rejected")
        world.children.clear()
        if os.path.isdir(os.path.join(other, "cali-query")):
            os.rmdir(os.path.join(other, "cali-query"))
    os.environ["PATH"] = old
