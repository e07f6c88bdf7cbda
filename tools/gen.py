#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from gdsa/props.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from gdsa.props import P  # noqa: E402
from gdsa.registry import REGISTRY  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None},
        }
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in REGISTRY, p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"],
    })
assert set(REGISTRY) == {c["property"] for c in checks}, set(REGISTRY) ^ {c["property"] for c in checks}
m = {
    "version": 1,
    "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are static: they parse the sources under /repo/gdspy on every run and never import or execute them. The quick and thorough commands are the same: the analyses are exhaustive over the paths they enumerate and take seconds.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
