#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md's per-property part."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
V = os.path.dirname(here)
from props import PROPS
sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/rules")
import registry
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}},
                           ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        assert p["id"] not in registry.RULES
    else:
        assert p["id"] in registry.RULES, p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
for i in registry.RULES:
    assert i in ids, i
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py default witness", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: a rustc_private driver dumps the type-checked MIR of /repo's current tree; "
                    "python analyses decide the rules on it. No hooks in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
out = open(here + "/design_head.md").read()
out += "\n## The properties\n\n"
for p in PROPS:
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["na"]:
        out += "Not applicable: %s\n\n" % p["na"]
    else:
        out += "*Decided by %s.* %s\n\n*Assurance:* %s\n\n" % (p["technique"], p["how"], p["note"])
out += open(here + "/design_tail.md").read()
caught = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
out += "| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    out += "| %s | %s | %s | %s |\n" % (d, m["what_it_breaks"], m["needs"], caught.get(d, m["property"]))
open(V + "/DESIGN.md", "w").write(out)
print(len(checks), "checks,", len(na), "not applicable")
