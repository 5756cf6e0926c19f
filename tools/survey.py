"""survey.py PROPERTY SEED RUNS: run seeds without stopping and group the violations (for development).

Not used by any check.
"""

import collections
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner  # noqa: E402

prop, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
st = runner.settings(prop)
groups = runner.make_groups(prop, seed, st, runner.LANES)
found = collections.defaultdict(list)
status = collections.Counter()
lock = threading.Lock()


def lane(k, g):
    g.ready()
    for i in range(k, n, len(groups)):
        r = g.run(seed=runner.subseed("run", prop, seed, i), tier="quick", wall=st.get("wall", 60))
        with lock:
            status[r["status"]] += 1
            if r["status"] not in ("ok", "discard"):
                found[r["status"], r.get("signature")].append((len(r.get("choices", [])), i, r))


ts = [threading.Thread(target=lane, args=a) for a in enumerate(groups)]
for t in ts:
    t.start()
for t in ts:
    t.join()
print(dict(status))
for key, rs in sorted(found.items(), key=lambda kv: -len(kv[1])):
    rs.sort(key=lambda x: x[:2])
    print("==", key, len(rs))
    for size, i, r in rs[:int(os.environ.get("EX", "1"))]:
        r2 = groups[0].run(seed=runner.subseed("run", prop, seed, i), tier="quick", wall=60, log=True)
        print("  seed index", i, "choices", size)
        print("  " + str(r.get("message"))[-1500:])
        for line in (r2.get("notes") or r2.get("log") or [])[-30:]:
            print("   |", str(line)[:300])
for g in groups:
    g.close()
