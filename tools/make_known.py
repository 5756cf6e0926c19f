"""Regenerates known_findings.json (committed; never written by a check)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIND = [
  {"property": "C04", "signature": "hang:pool-worker-killed",
   "what": "from_hpctoolkit waits forever when a process of its multiprocessing.Pool dies while it "
           "holds a file (killed, out of memory outside the task); history: kill of any reader worker "
           "between receiving a metric file and handing over its result"},
]
FIXED = [l.rstrip("\n") for l in open(os.path.join(ROOT, "tools", "fixed.txt")) if l.strip()]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": FIND, "fixed": FIXED}, f, indent=1)
    f.write("\n")
