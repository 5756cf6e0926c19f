"""A server process with one PYTHONHASHSEED that forks one child per simulated run.

Protocol (JSON lines): request {"rid", "seed" | "choices", "log", "tier", "wall"} on
stdin, reply {"rid", "status": ok|violation|discard|error|timeout, ...} on stdout.
"""

import faulthandler
import importlib
import json
import os
import select
import signal
import sys
import tempfile
import time
import traceback

_real_time = time.time
_real_monotonic = time.monotonic


def _describe(exc):
    """A stable signature for an unexpected exception: type and innermost hatchet frame."""
    where = "?"
    for fr in traceback.extract_tb(exc.__traceback__):
        if "/hatchet/" in fr.filename:
            where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return "unexpected-%s@%s" % (type(exc).__name__, where)


def _run_child(prop, req, wfd, scratch):
    from sim import core, env

    sim = core.Sim(
        seed=req.get("seed"),
        choices=req.get("choices"),
        log=req.get("log", False),
        scratch=scratch,
        tier=req.get("tier", "quick"),
        variant=req.get("variant", 0),
    )
    sim.result_fd = wfd
    core.set_current(sim)
    out = {}
    try:
        os.chdir(scratch)
        env.begin_run(sim)
        try:
            prop.scenario(sim)
            out["status"] = "ok"
        finally:
            env.end_run(sim)
    except core.Violation as v:
        out.update(status="violation", signature=v.signature, message=str(v.message)[:4000])
    except core.Discard:
        out["status"] = "discard"
    except core.SimDeadlock as e:
        out.update(status="violation", signature="hang", message="never finishes: %s" % e)
    except core.HarnessError:
        out.update(status="error", message=traceback.format_exc()[-4000:])
    except BaseException as e:
        # nothing a scenario does may raise by itself: either the code under test
        # raised where the property promises an answer, or its answer is malformed
        out.update(
            status="violation", signature=_describe(e), message=traceback.format_exc()[-4000:]
        )
    out.update(sim.result())
    data = json.dumps(out).encode()
    while data:
        data = data[os.write(wfd, data):]


def serve(propname):
    proto_out = os.dup(1)
    proto_in = os.dup(0)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("VSIM_DEBUG"):
        err = tempfile.TemporaryFile()
        os.dup2(err.fileno(), 2)
    sys.stdout = open(os.devnull, "w")

    def reply(obj):
        data = (json.dumps(obj) + "\n").encode()
        while data:
            data = data[os.write(proto_out, data):]

    try:
        import warnings

        warnings.simplefilter("ignore")
        from sim import core, env

        env.install()
        prop = importlib.import_module("props." + propname)
        if hasattr(prop, "prepare"):
            prop.prepare()
    except BaseException:
        reply({"ready": False, "error": traceback.format_exc()[-4000:]})
        return 2
    reply({"ready": True, "pid": os.getpid()})

    base = tempfile.mkdtemp(prefix="vsim.", dir="/tmp")
    buf = b""
    try:
        while True:
            while b"\n" not in buf:
                chunk = os.read(proto_in, 65536)
                if not chunk:
                    return 0
                buf += chunk
            line, buf = buf.split(b"\n", 1)
            req = json.loads(line)
            # the path has the same length and name in every run
            scratch = os.path.join(base, "run")
            os.makedirs(scratch, exist_ok=True)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    os.close(rfd)
                    os.close(proto_in)
                    os.close(proto_out)
                    _run_child(prop, req, wfd, scratch)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wfd)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            data = b""
            deadline = _real_monotonic() + req.get("wall", 60)
            timed_out = False
            while True:
                left = deadline - _real_monotonic()
                if left <= 0:
                    timed_out = True
                    break
                r, _, _ = select.select([rfd], [], [], left)
                if r:
                    chunk = os.read(rfd, 1 << 20)
                    if not chunk:
                        break
                    data += chunk
            os.close(rfd)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            _, st = os.waitpid(pid, 0)
            core.rmtree(scratch)
            if timed_out:
                reply({"rid": req["rid"], "status": "timeout"})
            else:
                try:
                    res = json.loads(data)
                except ValueError:
                    res = {"status": "crash", "message": "run ended with wait status %d" % st}
                res["rid"] = req["rid"]
                reply(res)
    finally:
        core.rmtree(base)


if __name__ == "__main__":
    faulthandler.enable()
    sys.exit(serve(sys.argv[1]))
