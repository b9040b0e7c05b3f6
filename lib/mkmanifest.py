"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = json.load(open(os.path.join(V, "lib", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check registered yet"})
    elif "na" in c:
        na.append({"property": p["id"], "reason": c["na"]})
    else:
        cmd = f"{PY} {c['cmd']}"
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd, "technique": c["technique"],
                       "level": c.get("level", "model_checking"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": f"{PY} lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC; bound to /repo by replay of generated behaviours and validation of recorded traces (harness/)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
