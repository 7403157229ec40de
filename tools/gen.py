#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.load(open(f)) for f in sorted(glob.glob(V + "/tools/props/*.json"))]
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(V + "/properties.jsonl", "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Static analysis over the type-checked program: extract/dndsx.cpp (libTooling) dumps every function instance of /repo; lib/ holds the program model and the shared analyses; checks/<ID>.py decides one property. See DESIGN.md."}
for p in ps:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in ps:
        jsonschema.validate({k: p[k] for k in KEYS}, sp)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
