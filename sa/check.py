"""Reporting: obligations, violations, known findings, evidence."""

import json
import os
import re
import time

from .program import AnalysisError, REPO
from .engine import Engine, Monitor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Context(object):

    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obligations = {}
        self.violations = {}
        self.functions = set()
        self.externals = set()
        self.steps = 0
        self.rules = []
        self.assumptions = []
        self.counts = {}
        self.engines = []
        self.digest = None
        self.started = time.time()

    # ------------------------------------------------------------- analysis
    def engine(self, monitor=None, **kw):
        eng = Engine(monitor, **kw)
        self.engines.append(eng)
        return eng

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def ok(self, rule, where):
        """An obligation that was looked at (it stays discharged unless bad() names it)."""
        self.obligations.setdefault((rule, where), True)

    def bad(self, rule, where, message, path=(), key=None):
        """A violation: rule broken at the construct `where`."""
        self.obligations[(rule, where)] = False
        k = key or "%s %s" % (rule, re.sub(r":\d+(:\d+)?$", "", where))
        if k not in self.violations:
            self.violations[k] = {"key": k, "rule": rule, "where": where, "message": message, "path": list(path)[-60:]}

    def check(self, cond, rule, where, message, path=(), key=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, message, path, key)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """The analysis must have met at least this many instances, else it says nothing."""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError("only %d of at least %d: %s" % (self.counts.get(name, 0), minimum, name))

    # -------------------------------------------------------------- results
    def findings(self):
        path = os.path.join(HERE, "known_findings.txt")
        res = {}
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    def finish(self):
        for e in self.engines:
            self.functions |= set(e.stats["functions"])
            self.externals |= set(e.stats["external"])
            self.steps += e.stats["steps"]
        known = self.findings()
        new = []
        for k, v in sorted(self.violations.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
            else:
                new.append(v)
        evdir = os.path.join(HERE, "evidence")
        os.makedirs(evdir, exist_ok=True)
        obs = sorted(self.obligations.items(), key=str)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current source of %s (nothing is run). Rules: %s" % (
                    REPO, " | ".join(self.rules)),
                "obligations": len(obs),
                "discharged": sum(1 for _, v in obs if v),
                "functions_analysed": sorted(self.functions),
                "external_call_sites": len(self.externals),
                "abstract_steps": self.steps,
                "counts": self.counts,
                "samples": ["%s @ %s: %s" % (r, w, "holds" if v else "VIOLATED") for (r, w), v in obs[:400]],
                "source_digest": self.engines[0].digest if self.engines else self.digest,
                "exhaustive": True,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.started, 3),
            "violations": len(new),
        }
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(evdir, "violation-%s.json" % self.pid)
        if new:
            with open(rp, "w") as f:
                json.dump(new, f, indent=1)
            for v in new:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                print("  %s: %s [%s]" % (v["where"], v["message"], v["rule"]))
                for p in v["path"][-12:]:
                    print("      %s" % p)
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print("OK property=%s obligations=%d functions=%d steps=%d %.1fs" % (
            self.pid, len(obs), len(self.functions), self.steps, time.time() - self.started))
        return 0
