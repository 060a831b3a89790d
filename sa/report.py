"""Findings, known-findings file, evidence file and exit status shared by all checks."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Finding(object):
    def __init__(self, rule, key, where, message, path=()):
        self.rule, self.key, self.where, self.message, self.path = rule, key, where, message, list(path)

    def as_dict(self):
        return {"rule": self.rule, "key": self.key, "where": self.where, "message": self.message, "path": self.path}


class Report(object):
    def __init__(self, pid, rule_text):
        self.pid, self.rule_text = pid, rule_text
        self.t0 = time.time()
        self.findings = []
        self.counts = {}
        self.samples = []
        self.notes = []
        self.obl = 0
        self.sat = 0
        self.floors = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, sample=None):
        self.obl += 1
        self.sat += 1
        if sample is not None and len(self.samples) < 40:
            self.samples.append(sample)

    def bad(self, rule, key, where, message, path=()):
        self.obl += 1
        for f in self.findings:
            if f.rule == rule and f.key == key:
                return
        self.findings.append(Finding(rule, key, where, message, path))

    def check(self, cond, rule, key, where, message, path=()):
        if cond:
            self.ok("%s: %s" % (rule, key))
        else:
            self.bad(rule, key, where, message, path)

    def floor(self, name, n):
        """instance counts confirmed by hand: falling below means the rule no longer sees its sites"""
        self.floors.append((name, n))


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(rep, prog, level="other", assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = {}
    for k in load_known():
        if k["property"] == rep.pid and k.get("status") == "known":
            known[(k["rule"], k["key"])] = k
    new, old = [], []
    for f in rep.findings:
        (old if (f.rule, f.key) in known else new).append(f)
    broken = ["%s=%d < %d" % (n, rep.counts.get(n, 0), m) for n, m in rep.floors if rep.counts.get(n, 0) < m]
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": rep.rule_text,
            "obligations": rep.obl, "discharged": rep.sat,
            "counts": rep.counts,
            "modules_analysed": len(prog.modules) if prog else 0,
            "functions_in_scope": len(prog.functions) if prog else 0,
            "source_digest": prog.digest_hex() if prog else "",
            "samples": rep.samples[:40],
            "known_findings": [f.as_dict() for f in old],
            "notes": rep.notes,
        },
        "assumptions": [assumptions] if isinstance(assumptions, str) else list(assumptions),
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    if new:
        ev["coverage"]["findings"] = [f.as_dict() for f in new]
    with open(os.path.join(EVID, rep.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    for f in old:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (rep.pid, f.key, f.rule, known[(f.rule, f.key)].get("what", f.message)))
    print("%s: %d obligations, %d discharged, %d known, %d new findings, %.1fs; %s" % (
        rep.pid, rep.obl, rep.sat, len(old), len(new), time.time() - rep.t0,
        ", ".join("%s=%s" % kv for kv in sorted(rep.counts.items()))))
    if new:
        rp = os.path.join(EVID, rep.pid + ".replay.json")
        with open(rp, "w") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1)
        for f in new:
            print("  [%s] %s\n     at %s\n     %s" % (f.rule, f.key, f.where, f.message))
            for p in f.path:
                print("       via %s" % p)
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s instance counts below the confirmed floor: %s" % (rep.pid, "; ".join(broken)))
        return 3
    return 0
