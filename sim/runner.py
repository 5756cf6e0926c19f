"""Seeded search over simulated runs of one property; minimises and reports violations.

usage: runner.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
       runner.py --replay FILE
       runner.py --selftest PROPERTY [N]
"""

import hashlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable

LANES = 8


class HarnessFailure(Exception):
    pass


def base_env(hashseed):
    from sim import build

    env = {
        "PATH": "/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": os.environ.get("HOME", "/root"),
        "LANG": "C.UTF-8",
        "PYTHONPATH": ROOT + ":/repo",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": str(hashseed),
        "MPLBACKEND": "agg",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "NUMEXPR_NUM_THREADS": "1",
        "MPLCONFIGDIR": "/tmp/vsim-mpl",
        "IPYTHONDIR": "/tmp/vsim-mpl",
        "LD_PRELOAD": build.shim_path(),
        "MALLOC_ARENA_MAX": "2",
    }
    for k in ("VSIM_DEBUG",):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


class Zygote:
    def __init__(self, prop, hashseed):
        self.prop = prop
        self.hashseed = hashseed
        self.start()

    def start(self):
        self.p = subprocess.Popen(
            [PY, "-m", "sim.zygote", self.prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=base_env(self.hashseed),
            cwd=ROOT,
            start_new_session=True,
        )
        self.is_ready = False

    def ready(self):
        if not self.is_ready:
            line = self.p.stdout.readline()
            try:
                msg = json.loads(line)
            except ValueError:
                raise HarnessFailure("simulator process did not start")
            if not msg["ready"]:
                raise HarnessFailure("simulator process failed:\n" + msg["error"])
            self.is_ready = True

    def run(self, **req):
        self.ready()
        req.setdefault("rid", 0)
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessFailure("simulator process died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()


def subseed(*parts):
    h = hashlib.sha256(repr(parts).encode()).hexdigest()
    return int(h[:12], 16)


def hashseed_of(seed, lane):
    # lane 0 is the documented default of a deterministic interpreter
    return subseed("hash", seed, lane) % 4294967295 if lane else 0


class Group:
    """The simulator processes that together execute one run (one per hash seed)."""

    def __init__(self, prop, hashseeds):
        self.z = [Zygote(prop, h) for h in hashseeds]
        self.hashseeds = hashseeds

    def ready(self):
        for z in self.z:
            z.ready()

    def run(self, **req):
        first = self.z[0].run(variant=0, **req)
        if first["status"] == "timeout":
            # decided by the wall clock; try once more with far more time
            req2 = dict(req, wall=req.get("wall", 60) * 3)
            again = self.z[0].run(variant=0, **req2)
            if again["status"] == "timeout":
                return {
                    "status": "violation",
                    "signature": "hang",
                    "message": "a run that normally takes well under a second did not end "
                    "within %d s, twice" % req2["wall"],
                    "choices": req.get("choices", []),
                    "timeout": True,
                }
            first = again
        if first["status"] == "crash":
            again = self.z[0].run(variant=0, **req)
            if again["status"] == "crash":
                return {
                    "status": "violation",
                    "signature": "crash",
                    "message": first["message"],
                    "choices": req.get("choices", []),
                }
            first = again
        if first["status"] in ("ok",) and len(self.z) > 1:
            for k, z in enumerate(self.z[1:], 1):
                req2 = dict(req)
                req2.pop("seed", None)
                req2["choices"] = first["choices"]
                other = z.run(variant=k, **req2)
                if other["status"] == "violation":
                    return other
                if other["status"] != "ok":
                    return other
                if other["observed"] != first["observed"]:
                    keys = []
                    for a, b in zip(first["observed"], other["observed"]):
                        if a != b:
                            keys.append(a[0])
                            diff = "%s:\n  %s\n  %s" % (a[0], str(a[1])[:1500], str(b[1])[:1500])
                            break
                    else:
                        keys.append("number-of-observations")
                        diff = "%d / %d" % (len(first["observed"]), len(other["observed"]))
                    first.update(
                        status="violation",
                        signature="differs-between-interpreters:%s" % keys[0],
                        message="same input, PYTHONHASHSEED=%s and %s give different results; %s"
                        % (self.hashseeds[0], self.hashseeds[k], diff),
                    )
                    return first
        return first

    def close(self):
        for z in self.z:
            z.close()


def load_known():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def candidates(ch, rnd):
    """Simpler choice lists, most drastic first."""
    n = len(ch)
    seen = set()

    def emit(c):
        while c and c[-1] == 0:
            c = c[:-1]
        t = tuple(c)
        if t in seen or len(t) > n or t == tuple(ch):
            return None
        seen.add(t)
        return list(t)

    out = []

    def add(c):
        e = emit(c)
        if e is not None:
            out.append(e)

    k = n // 2
    while k >= 1:
        add(ch[: n - k])
        k //= 2
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            add(ch[:i] + ch[i + size:])
            if any(ch[i:i + size]):
                add(ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:])
        size //= 2
    for i in range(n):
        if ch[i] > 1:
            add(ch[:i] + [ch[i] // 2] + ch[i + 1:])
            add(ch[:i] + [ch[i] - 1] + ch[i + 1:])
    return out


def shrink(groups, first, budget_s, tier, wall):
    """Parallel greedy minimisation; keeps the same violation signature."""
    sig = first["signature"]
    best = list(first["choices"])
    if first.get("timeout"):
        return best, 0
    t0 = time.time()
    tried = 0
    known = set()
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        cands = [c for c in candidates(best, 0) if tuple(c) not in known]
        i = 0
        while i < len(cands) and time.time() - t0 < budget_s:
            batch = cands[i:i + len(groups)]
            i += len(groups)
            res = [None] * len(batch)

            def work(k):
                try:
                    res[k] = groups[k].run(choices=batch[k], tier=tier, wall=wall)
                except HarnessFailure:
                    res[k] = {"status": "error"}

            th = [threading.Thread(target=work, args=(k,)) for k in range(len(batch))]
            for t in th:
                t.start()
            for t in th:
                t.join()
            tried += len(batch)
            for k, c in enumerate(batch):
                known.add(tuple(c))
            hit = None
            for k, r in enumerate(res):
                if r["status"] == "violation" and r["signature"] == sig and not r.get("timeout"):
                    c = list(r["choices"])
                    while c and c[-1] == 0:
                        c.pop()
                    if (len(c), sum(c)) < (len(best), sum(best)):
                        if hit is None or (len(c), sum(c)) < (len(hit), sum(hit)):
                            hit = c
            if hit is not None:
                best = hit
                improved = True
                break
    return best, tried


def settings(prop):
    import ast

    # read without importing: the property modules import hatchet
    src = open(os.path.join(ROOT, "props", prop + ".py")).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "SETTINGS":
            return ast.literal_eval(node.value)
    raise HarnessFailure("no SETTINGS in props/%s.py" % prop)


def make_groups(prop, seed, st, n):
    hv = st.get("hash_variants", 1)
    lanes = max(1, n // hv)
    groups = []
    for lane in range(lanes):
        hs = [hashseed_of(seed, lane * hv + k) for k in range(hv)]
        groups.append(Group(prop, hs))
    return groups


def explore(prop, seed, tier):
    st = settings(prop)
    total = st[tier]["runs"]
    cap = st[tier]["cap_s"]
    wall = st.get("wall", 60)
    t0 = time.time()
    groups = make_groups(prop, seed, st, LANES)
    setup_s = None
    lock = threading.Lock()
    nl = len(groups)
    agg = {
        "runs": 0, "digests": set(), "nontrivial": set(), "faults": {}, "counters": {},
        "now": 0.0, "steps": 0, "states": set(), "samples": [], "discard": 0, "sched": set(),
        "known": {},
    }
    bad = []  # (index, group, result)
    errors = []
    stop = threading.Event()
    known = {f["signature"]: f for f in load_known() if f["property"] == prop}

    def lane_loop(lane, g):
        try:
            g.ready()
            i = lane
            while i < total and not stop.is_set() and time.time() - t0 < cap:
                r = g.run(seed=subseed("run", prop, seed, i), tier=tier, wall=wall)
                if r["status"] in ("timeout", "crash", "error"):
                    with lock:
                        errors.append((i, r))
                    stop.set()
                    return
                with lock:
                    if r["status"] == "discard":
                        agg["discard"] += 1
                    elif r["status"] == "violation" and r["signature"] in known:
                        k = agg["known"].setdefault(r["signature"], [0, r])
                        k[0] += 1
                        merge(agg, r)
                    elif r["status"] == "violation":
                        bad.append((i, g, r))
                        stop.set()
                        return
                    else:
                        merge(agg, r)
                i += nl
        except HarnessFailure as e:
            with lock:
                errors.append((-1, {"status": "error", "message": str(e)}))
            stop.set()

    threads = [threading.Thread(target=lane_loop, args=(k, g)) for k, g in enumerate(groups)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    wall_s = time.time() - t0
    return st, agg, bad, errors, groups, known, wall_s


def merge(agg, r):
    agg["runs"] += 1
    agg["digests"].add(r["digest"])
    if r["nontrivial"]:
        agg["nontrivial"].add(r["digest"])
        agg["sched"].add(r["sched"])
        if len(agg["samples"]) < 4 and r["sample"]:
            agg["samples"].append(r["sample"])
    for k, v in r["faults"].items():
        agg["faults"][k] = agg["faults"].get(k, 0) + v
    for k, v in r["counters"].items():
        agg["counters"][k] = agg["counters"].get(k, 0) + v
    agg["now"] += r["now"]
    agg["steps"] += r["steps"]
    if len(agg["states"]) < 2000000:
        agg["states"].update(r["states"])


def write_evidence(prop, seed, tier, st, agg, wall_s, violations):
    hours = wall_s / 3600.0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": st["rule"],
        "samples": agg["samples"] or [["no run was non-trivial"]],
        "simulated_runs": agg["runs"],
        "discarded_runs": agg["discard"],
        "runs_per_hour": round(agg["runs"] / hours) if hours else 0,
        "seeds_per_hour": round(agg["runs"] / hours) if hours else 0,
        "simulated_time_s": round(agg["now"], 3),
        "scheduler_steps": agg["steps"],
        "fault_kinds_injected": agg["faults"],
        "probes_hit": agg["counters"],
        "distinct_interleavings": len(agg["sched"]),
        "distinct_interleavings_measure": "digest over the sequence of scheduling decisions and "
        "fired faults of a run",
        "distinct_states": len(agg["states"]),
        "distinct_states_measure": st.get("states", "digests recorded by the scenario"),
        "components_real": st.get("real", []),
        "components_stubbed": st.get("stub", []),
        "hash_seeds": [hashseed_of(seed, k) for k in range(LANES)],
        "known_findings_met": {k: v[0] for k, v in agg["known"].items()},
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": st.get("assumptions", []),
        "wall_s": round(wall_s, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))


def check(prop):
    from sim import build

    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print("check %s VERIF_SEED=%d tier=%s" % (prop, seed, tier), flush=True)
    build.ensure()
    st, agg, bad, errors, groups, known, wall_s = explore(prop, seed, tier)
    wall = st.get("wall", 60)
    try:
        if errors and not bad:
            i, r = errors[0]
            print("HARNESS ERROR in run %d (%s):\n%s" % (i, r["status"], r.get("message")))
            write_evidence(prop, seed, tier, st, agg, wall_s, 0)
            return 2
        for sig, (n, r) in sorted(agg["known"].items()):
            print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, known[sig]["what"], n))
        for f in known.values():
            if f["signature"] not in agg["known"]:
                print("KNOWN-FINDING: property=%s %s (not met in this search)" % (prop, f["what"]))
        if not bad:
            write_evidence(prop, seed, tier, st, agg, wall_s, 0)
            print(
                "ok: %d runs, %d distinct non-trivial, faults %s, %.1f s"
                % (agg["runs"], len(agg["nontrivial"]), agg["faults"], wall_s)
            )
            return 0
        bad.sort(key=lambda b: b[0])
        i, g, first = bad[0]
        run_seed = subseed("run", prop, seed, i)
        if not first["choices"] and not first.get("timeout"):
            pass
        # minimise on processes with the hash seeds of the failing run
        hs = g.hashseeds
        same = [g]
        extra = []
        if not first.get("timeout"):
            n = max(1, LANES // len(hs))
            extra = [Group(prop, hs) for _ in range(n - 1)]
            same = [g] + extra
        try:
            best, tried = shrink(same, first, st.get("shrink_s", 60), tier, wall)
        except HarnessFailure:
            best, tried = list(first["choices"]), 0
        # the final word: a fresh process, with the event log
        fresh = Group(prop, hs)
        req = {"choices": best, "tier": tier, "wall": wall, "log": True}
        if first.get("timeout") or first["signature"] == "crash":
            req.pop("choices")
            req["seed"] = run_seed
        final = fresh.run(**req)
        ok = final["status"] == "violation" and final["signature"] == first["signature"]
        if not ok and best != first["choices"]:
            req = {"choices": first["choices"], "tier": tier, "wall": wall, "log": True}
            final2 = fresh.run(**req)
            if final2["status"] == "violation":
                final, ok = final2, final2["signature"] == first["signature"]
        fresh.close()
        for e in extra:
            e.close()
        rep = {
            "property": prop,
            "verif_seed": seed,
            "tier": tier,
            "run_index": i,
            "run_seed": run_seed,
            "pythonhashseeds": hs,
            "signature": first["signature"],
            "message": final.get("message") if ok else first["message"],
            "request": req,
            "reproduced_in_fresh_process": ok,
            "original_choices": len(first["choices"]),
            "minimised_choices": len(best),
            "minimisation_runs": tried,
            "faults": final.get("faults"),
            "case": final.get("sample"),
            "trace": final.get("events"),
        }
        os.makedirs(os.path.join(ROOT, ".replays"), exist_ok=True)
        path = os.path.join(ROOT, ".replays", "%s-%d-%d.json" % (prop, seed, i))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
            f.write("\n")
        print("signature: %s" % first["signature"])
        print("message: %s" % (rep["message"] or "")[:3000])
        for line in (final.get("sample") or [])[:40]:
            print("  | " + line)
        print("faults: %s" % final.get("faults"))
        print(
            "minimised from %d to %d choices in %d runs; reproduced in a fresh process: %s"
            % (len(first["choices"]), len(best), tried, ok)
        )
        write_evidence(prop, seed, tier, st, agg, wall_s, 1)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    finally:
        for g in groups:
            g.close()


def replay(path):
    from sim import build

    build.ensure()
    rep = json.load(open(path))
    g = Group(rep["property"], rep["pythonhashseeds"])
    r = g.run(**rep["request"])
    g.close()
    for e in r.get("events", [])[-400:]:
        print(e)
    for line in r.get("sample") or []:
        print("  | " + line)
    print("status: %s %s" % (r["status"], r.get("signature", "")))
    print(r.get("message", ""))
    if r["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0 if r["status"] == "ok" else 2


def selftest(prop, n):
    """Every run twice, in different processes, with different hash seeds and loads."""
    from sim import build

    build.ensure()
    st = settings(prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    cross_hash = st.get("selftest_cross_hash", True)
    A = [Zygote(prop, 0) for _ in range(4)]
    B = [Zygote(prop, 4242 + k if cross_hash else 0) for k in range(3)]
    res = {}
    lock = threading.Lock()

    def work(tag, z, idxs):
        for i in idxs:
            r = z.run(seed=subseed("run", prop, seed, i), tier=tier, wall=120)
            with lock:
                res[tag, i] = r

    th = [threading.Thread(target=work, args=("A", z, range(k, n, 4))) for k, z in enumerate(A)]
    th += [threading.Thread(target=work, args=("B", z, range(k, n, 3))) for k, z in enumerate(B)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    diff = [
        i for i in range(n)
        if (res["A", i]["status"], res["A", i].get("digest"), res["A", i].get("choices"))
        != (res["B", i]["status"], res["B", i].get("digest"), res["B", i].get("choices"))
    ]
    print("%s: %d runs executed twice, %d differ" % (prop, n, len(diff)), diff[:10])
    stat = {}
    for r in res.values():
        stat[r["status"]] = stat.get(r["status"], 0) + 1
    print(stat)
    for z in A + B:
        z.close()
    return 1 if diff else 0


def main(argv):
    try:
        if argv[0] == "--replay":
            return replay(argv[1])
        if argv[0] == "--selftest":
            return selftest(argv[1], int(argv[2]) if len(argv) > 2 else 200)
        return check(argv[0])
    except HarnessFailure as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
