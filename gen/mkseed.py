#!/usr/bin/env python3
"""mkseed.py SPEC.py — plants the bugs a spec file lists, in a scratch copy of /repo, and keeps those that qualify.
SPEC defines S = [dict(id, property, edits=[(file, old, new[, 'first'])], demo=<python source; exits nonzero/raises when broken>, needs, breaks)]"""
import sys, os, shutil, subprocess, json, runpy, tempfile, concurrent.futures
import xml.etree.ElementTree as ET
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def run(cmd, cwd, **k):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=600, **k)


def tests(d):
    x = os.path.join(d, "..", os.path.basename(d) + ".xml")
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-W", "ignore", "--tb=short", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], d)
    bad, good = set(), set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        n = (tc.get("classname"), tc.get("name"))
        (bad if any(c.tag in ("failure", "error") for c in tc) else good if not any(c.tag == "skipped" for c in tc) else set()).add(n)
    os.unlink(x)
    return bad, good


def one(s, base_bad):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    w = os.path.join(d, "repo")
    try:
        shutil.copytree(REPO, w, symlinks=True)
        out = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(s["demo"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write("#!/bin/bash\n# run with cwd = the repository: exit 0 where the property holds, nonzero where the change broke it\n"
                    "here=$(cd \"$(dirname \"$0\")\" && pwd)\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore \"$here/demo.py\"\n")
        r = run(["bash", os.path.join(out, "demo.sh")], w)
        if r.returncode != 0:
            return s["id"], "DEMO FAILS UNCHANGED", r.stdout[-500:] + r.stderr[-900:]
        for e in s["edits"]:
            p = os.path.join(w, e[0])
            t = open(p).read()
            n = t.count(e[1])
            if n == 0 or (n > 1 and len(e) < 4):
                return s["id"], "EDIT MATCHES %d" % n, e[1]
            open(p, "w").write(t.replace(e[1], e[2], 1))
        g = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        r = run(["bash", os.path.join(out, "demo.sh")], w)
        if r.returncode == 0:
            return s["id"], "DEMO PASSES BROKEN", r.stdout[-500:]
        bad, good = tests(w)
        if bad - base_bad:
            return s["id"], "TESTS FAIL", sorted(bad - base_bad)[:4]
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(g)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        # does the property's check see it?
        env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=d + "/ev")
        c = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), s["property"]], cwd=VERIF, env=env, capture_output=True, text=True) if os.path.exists(os.path.join(VERIF, "checks", s["property"].lower() + ".py")) else None
        keep = "ok"
        return s["id"], keep, ("no check" if c is None else "check rc=%d " % c.returncode + " | ".join(l.strip()[:150] for l in c.stdout.splitlines() if l.startswith("  [") or "BROKEN" in l)[:400]) + "\n     demo: " + (r.stderr.strip().splitlines() or r.stdout.strip().splitlines() or [""])[-1][:150]
    finally:
        shutil.rmtree(d)
        if not os.path.exists(os.path.join(VERIF, "seeded", s["id"], "patch.diff")):
            shutil.rmtree(os.path.join(VERIF, "seeded", s["id"]), ignore_errors=True)


if __name__ == "__main__":
    S = runpy.run_path(sys.argv[1])["S"]
    only = set(sys.argv[2:])
    S = [s for s in S if not only or s["id"] in only]
    base = tempfile.mkdtemp(prefix="seedbase_", dir="/tmp")
    shutil.copytree(REPO, base + "/repo", symlinks=True)
    base_bad, _ = tests(base + "/repo")
    shutil.rmtree(base)
    print("base failing tests:", len(base_bad))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for n, k, o in ex.map(lambda s: one(s, base_bad), S):
            print("%-34s %s\n     %s" % (n, k, o), flush=True)
