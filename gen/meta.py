#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (run by hand; not part of any check)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties, in order
N = []      # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=(), observe=(), na=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
              "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None},
              "_t": technique, "_n": note, "_na": na})


exec(open(os.path.join(HERE, "gen", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, sort_keys=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.dont_write_bytecode = True; sys.path.insert(0, '.'); import sa.engine, sa.alias, sa.report\"",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": ("env VERIF_TIER=thorough " if p["id"] in ("C19", "C20") else "") + "python3 check.py " + p["id"],
                   "technique": p["_t"], "level": "other", "level_note": p["_n"]} for p in P if not p["_na"]],
       "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if p["_na"]],
       "notes": "Pure static analysis of /repo's working tree: nothing in /repo is imported or executed by any check. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
