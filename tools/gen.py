#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from tools/catalog.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in catalog.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in catalog.PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    if not os.path.exists(V + "/mc/props/%s.py" % p["id"].lower()):
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 mc/check.py %s quick" % p["id"],
        thorough_cmd="python3 mc/check.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["tech"], level="model_checking",
        level_note=p["note"]))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes=catalog.NOTES)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
