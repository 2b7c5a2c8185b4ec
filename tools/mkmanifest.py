import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES[p]
    if n.get("na"):
        na.append(dict(property=p, reason=n["na"]))
        continue
    checks.append(dict(property=p, quick_cmd="/opt/venv/bin/python check.py %s quick" % p,
                       thorough_cmd="/opt/venv/bin/python check.py %s thorough" % p,
                       technique=n["technique"], level=n["level"], level_note=n["note"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Contract-based deductive verification by a VC generator for the Python source (vlib/pyvc), discharging to exact polynomial algebra and z3; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
