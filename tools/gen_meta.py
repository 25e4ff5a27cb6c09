#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry as R
def prop(e):
    return {"id": e["id"], "title": e["title"], "statement": e["statement"],
            "quantifier": {"over": e["over"], "text": e["text"]}, "why_tests_cant": e["why"],
            "anchors": {"files": e["files"], "mechanism": [{"name": n, "where": w} for n, w in e["mech"]]}}
allp = sorted(R.ALL + R.NOT_APPLICABLE, key=lambda e: e["id"])
assert len({e["id"] for e in allp}) == len(allp)
for e in allp:
    assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(prop(e)) + "\n" for e in allp))
man = {"version": 1, "setup_cmd": "bash tools/setup.sh",
       "checks": [{"property": e["id"], "quick_cmd": "python3 check.py " + e["id"], "thorough_cmd": "python3 check.py %s --thorough" % e["id"],
                   "evidence_file": "evidence/%s.json" % e["id"], "technique": e["tech"], "level": R.LEVEL, "level_note": e["note"]} for e in sorted(R.ALL, key=lambda e: e["id"])],
       "not_applicable": [{"property": e["id"], "reason": e["reason"]} for e in R.NOT_APPLICABLE],
       "notes": "Static analysis only: a rustc driver extracts MIR facts from /repo's working tree (all backends, one cargo check), rules in sa/ decide the properties. No hooks in /repo."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
