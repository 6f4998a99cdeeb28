#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Development helper; no registered command needs it.
"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "generated-input search with shrinking: no violation in the stated number of cases; inputs outside the generator's domain and beyond its size bounds are not covered"
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), technique="", note=NOTE, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check is one property of the Go harness in harness/; run.sh builds it from /repo's working tree and runs it. Findings and repaired defects are listed in known_findings.txt, the approach is described in DESIGN.md."}
for p in P:
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(ROOT, "properties.jsonl")):
    try: jsonschema.validate(json.loads(l), ps)
    except jsonschema.ValidationError as e: print("properties", json.loads(l)["id"], e.message)
try: jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except jsonschema.ValidationError as e: print("manifest", e.message)
