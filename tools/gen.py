#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (kept in one place so they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE, HOOKS, NOTES
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); import vbuild, checks; print('monitors are built per check from /repo:', len(checks.CHECKS), 'checks')\"",
       "hooks": HOOKS,
       "checks": [], "not_applicable": NOT_APPLICABLE, "notes": NOTES}
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                          "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"],
                          "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
missing = [p["id"] for p in PROPS if p["id"] not in CHECKS and p["id"] not in [n["property"] for n in NOT_APPLICABLE]]
print(len(man["checks"]), "checks; unclaimed:", missing)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), ps)
    print("schemas ok")
except ImportError:
    print("jsonschema not here; use python3-vt")
