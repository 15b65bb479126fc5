"""Runs one check: collects what was analysed, reports violations, writes evidence."""
import json
import os
import re
import sys
import time
import traceback

from . import facts
from .facts import AnalysisBroken, VERIF, rel

FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []          # (key, message, details)
        self.checked = {}       # rule -> list of instances that hold
        self.bad = {}           # rule -> number of violated instances
        self.skipped = []       # what could not be analysed
        self.notes = {}
        self.functions = set()
        self.rules = {}
        self.minimum = {}

    def rule(self, name, text, minimum=1):
        """declares a rule; fewer instances than `minimum` mean the analysis lost its subject"""
        self.rules[name] = text
        self.minimum[name] = minimum
        self.checked.setdefault(name, [])

    def ok(self, rule, what):
        self.checked.setdefault(rule, []).append(what)

    def check(self, rule, cond, what, msg=None, key=None, detail=None):
        if cond:
            self.ok(rule, what)
        else:
            self.violation(rule, what, msg or what, key, detail)
        return cond

    def violation(self, rule, what, msg, key=None, detail=None):
        self.bad[rule] = self.bad.get(rule, 0) + 1
        k = key or "%s:%s" % (rule, re.sub(r":\d+:\d+|\b\d+:\d+\b", "", what))
        for v in self.viol:
            if v["key"] == k:
                return
        self.viol.append({"key": k, "rule": rule, "where": what, "message": msg, "detail": detail})

    def skip(self, what, why):
        self.skipped.append("%s: %s" % (what, why))

    def fn(self, f):
        self.functions.add("%s (%s)" % (facts.short(f["qn"]), rel(f["loc"])))

    def finish(self, level="other", explain="", trusted=()):
        known = load_findings(self.prop)
        new, listed = [], []
        for v in self.viol:
            (listed if v["key"] in known else new).append(v)
        lost = []
        for r, m in self.minimum.items():
            n = len(self.checked.get(r, ())) + self.bad.get(r, 0)
            if n < m:
                lost.append("rule '%s' found %d instances, at least %d expected" % (r, n, m))
        n_ok = sum(len(x) for x in self.checked.values())
        n_bad = sum(self.bad.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level, "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "explanation": explain or "Static analysis of the current sources; see rules and counts.",
                "rules": self.rules,
                "obligations": n_ok + n_bad, "discharged": n_ok,
                "instances_per_rule": {r: len(x) + self.bad.get(r, 0) for r, x in self.checked.items()},
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:400],
                "samples": {r: [str(y) for y in x[:6]] for r, x in self.checked.items()},
                "not_analysed": self.skipped + lost,
                "known_findings": [v["key"] for v in listed],
                "violations": new,
                "trusted_base": list(trusted),
                **self.notes,
            },
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for v in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v["message"]))
        for s in (self.skipped + lost)[:20]:
            print("NOTE: not analysed: %s" % s)
        print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (self.prop, n_ok + n_bad, n_ok, len(self.functions), time.time() - self.t0))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for v in new:
                    f.write("property %s, rule %s\n  rule: %s\n  at: %s\n  %s\n" % (self.prop, v["rule"], self.rules.get(v["rule"], ""), v["where"], v["message"]))
                    if v["detail"]:
                        f.write("  %s\n" % v["detail"])
                    f.write("\n")
            for v in new:
                print("  %s [%s]: %s" % (v["where"], v["rule"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def load_findings(prop):
    """lines 'known: property=<id> key=<key> -- <what fails>'; 'fixed:' lines suppress nothing"""
    out = set()
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) key=(.*?) -- ", line)
            if m and m.group(1) == prop:
                out.add(m.group(2))
    return out


def main(checks):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    R = Report(prop, tier)
    sys.setrecursionlimit(20000)
    try:
        r = checks[prop](R)
    except AnalysisBroken as e:
        R.skip(prop, str(e)[:800])
        traceback.print_exc()
        R.finish()
        # the sources do not parse or an anchor is gone: no answer
        return 2
    return r
