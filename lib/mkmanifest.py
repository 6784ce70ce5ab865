"""Rewrites MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(here, "lib", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED.get("_na", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). No hooks are needed: all observation is at public interfaces."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
