#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the check modules present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "sa", "checks", i.lower() + ".py")):
        t = T[i]
        checks.append({"property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i,
                       "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
                       "technique": t["technique"], "level": t.get("level", "other"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": T.get(i, {}).get("na", "not built yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
