"""Regenerate MANIFEST.json from the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(HERE, "tools", "level_notes.py")).read(), NOTES)
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "./check.sh %s --tier quick" % p,
            "thorough_cmd": "./check.sh %s --tier thorough" % p,
            "technique": NOTES["TECH"].get(p, NOTES["DEFAULT_TECH"]),
            "level": "model_checking",
            "level_note": NOTES["LEVEL"].get(p, NOTES["DEFAULT_LEVEL"]),
        })
    else:
        na.append({"property": p, "reason": NOTES["NA"].get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
