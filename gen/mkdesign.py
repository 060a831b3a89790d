#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md from design_head.md, the properties, design_notes.json, known findings and the recorded seed results"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "gen"))
import meta
notes = json.load(open(os.path.join(HERE, "gen", "design_notes.json")))
kf = json.load(open(os.path.join(HERE, "known-findings.json")))
kf = kf if isinstance(kf, list) else kf["findings"]
out = [open(os.path.join(HERE, "gen", "design_head.md")).read()]
out.append("## The properties\n")
for p in meta.P:
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    if p["_na"]:
        out.append("*Not applicable.* %s\n" % p["_na"])
        continue
    out.append("*Decided by* %s.\n" % p["_t"])
    n = notes.get(p["id"], {})
    for k in ("how", "oracle", "bounds", "cost", "beyond"):
        if k in n:
            out.append("*%s:* %s\n" % ({"how": "How", "oracle": "Judged against", "bounds": "Bounds and trusted base", "cost": "Cost", "beyond": "Beyond the tests"}[k], n[k]))
    out.append("*Level note:* %s\n" % p["_n"])
    fs = [e for e in kf if e["property"] == p["id"]]
    for e in fs:
        if e["status"] == "known":
            out.append("* known finding (not repaired): %s" % e["what"])
        else:
            out.append("* genuine defect, %s" % e["what"])
    if fs:
        out.append("")
out.append("## Planted bugs and what catches them\n")
out.append("Each is caught by its own property's check unless the table says *missed*. `python3 gen/seedtable.py` re-runs the table.\n")
out.append("| seed | property | reported as |\n|---|---|---|")
t = json.load(open(os.path.join(HERE, "gen", "seed_results.json")))
for k in sorted(t):
    out.append("| %s | %s | %s |" % (k, t[k][0], t[k][1].replace("|", "\\|")))
out.append("")
out.append(open(os.path.join(HERE, "gen", "design_tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
