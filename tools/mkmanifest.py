#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/catalogue.py."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ns = {}
exec(open(os.path.join(HERE, "catalogue.py"), encoding="utf-8").read(), ns)
P = ns["PROPERTIES"]
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                   "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": p["tech"],
                   "level": p.get("level", "proof"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's sources as they are. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
