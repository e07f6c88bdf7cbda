#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, the findings, the property table, the planted bugs"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from gdsa.props import P  # noqa: E402
from gdsa.registry import RULES  # noqa: E402

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), ""]
for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
    line = line.strip()
    if line and not line.startswith("#"):
        out.append("* " + line)
out += ["", "## Properties", ""]
for p in P:
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    out.append(p["statement"])
    out.append("")
    if p["na"]:
        out.append("*Not applicable.* " + p["na"])
    else:
        out.append("*Decided by* " + p["technique"] + ". " + p["explain"])
        out.append("")
        out.append("*Why tests cannot:* " + p["why"])
        out.append("")
        out.append("*Bounds:* " + p["note"] + " Rules: " + ", ".join("`%s.%s`" % (f.__module__.split(".")[-1], f.__name__) for f in RULES[p["id"]]) + ".")
    out.append("")
out += ["## Planted bugs", "", "Each is caught by the check of its property (confirmed with `git apply`, run, undo).", "", "| bug | property | needs |", "| --- | --- | --- |"]
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip() if os.path.exists(os.path.join(ROOT, "tools", "design_tail.md")) else ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
