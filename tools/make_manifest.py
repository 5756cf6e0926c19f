"""Regenerates MANIFEST.json from the list below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from manifest_text import TECH, NA
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(ROOT, "props", i + ".py")):
        tech, note = TECH[i]
        checks.append({
            "property": i, "quick_cmd": "./check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
