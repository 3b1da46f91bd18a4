"""Obligations, violations, known findings and the evidence file of one check run."""
import json, os, sys, time
from . import facts

KNOWN = os.path.join(facts.VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.obl = 0
        self.cov = {}
        self.samples = []
        self.viol = {}
        self.assumptions = []
        self.sites = set()

    def ok(self, sample=None, n=1):
        """n obligations decided"""
        self.obl += n
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)

    def site(self, s): self.sites.add(s)

    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, key, where, text):
        """key identifies the finding independently of line numbers"""
        if key not in self.viol: self.viol[key] = (where, text)

    def require(self, what, n, least):
        """an instance count confirmed by hand: fewer means the rule no longer matches the code"""
        self.cov[what] = n
        if n < least and not self.viol:
            raise facts.AnalysisBroken("%s: only %d %s found, at least %d expected" % (self.prop, n, what, least))

    def finish(self, P=None):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)).get("known", []):
                if k["property"] == self.prop: known[k["key"]] = k
        new, old = [], []
        for key, (w, t) in sorted(self.viol.items()):
            (old if key in known else new).append((key, w, t))
        rdir = os.path.join(facts.BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        for key, w, t in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, known[key].get("what", t)))
        path = os.path.join(rdir, self.prop + ".json")
        if new:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "rule": self.rule, "violations": [dict(key=k, where=w, text=t) for k, w, t in new]}, f, indent=1)
        cov = {"explanation": self.rule, "obligations": self.obl, "violated": len(self.viol), "known_findings": len(old)}
        cov.update(self.cov)
        if self.sites: cov["sites_analysed"] = len(self.sites)
        if P is not None:
            cov["translation_units"] = len(P.units)
            cov["functions_in_program"] = len(P.funcs)
        cov["samples"] = self.samples or sorted(self.sites)[:12]
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        edir = os.path.join(facts.VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, w, t in new:
            print("%s: %s: %s  [%s]" % (w, self.prop, t, key))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: %d obligations held%s" % (self.prop, self.obl - len(self.viol), ", %d known findings" % len(old) if old else ""))
        return 0
