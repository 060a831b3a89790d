#!/usr/bin/env python3
"""seedtable.py: applies each planted bug to a scratch copy of the sources and records what its property's check reports"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
def one(s):
    d = os.path.join(HERE, "seeded", s)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="st_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "awkward0"), os.path.join(w, "awkward0"))
        r = subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
        if r.returncode:
            return s, (prop, "patch does not apply")
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=os.path.join(w, "ev")))
        f = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("[")]
        return s, (prop, ("; ".join(f[:2])) if r.returncode == 1 else "*missed* (exit %d)" % r.returncode)
    finally:
        shutil.rmtree(w)
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    t = dict(ex.map(one, sorted(os.listdir(os.path.join(HERE, "seeded")))))
json.dump(t, open(os.path.join(HERE, "gen", "seed_results.json"), "w"), indent=1, sort_keys=True)
for k in sorted(t):
    print(k, *t[k])
