"""Obligation bookkeeping, known findings, evidence and exit codes."""
import json
import os
import sys
import time
import traceback
from . import build
from .build import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report(object):
    def __init__(self, prop, tier, seed, level="other"):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.rules = {}      # rule -> text
        self.obl = []        # (rule, key, where, ok, detail)
        self.analysed = {}   # free-form counters, measured
        self.assumptions = []
        self._seen = set()

    def rule(self, rid, text, floor=1):
        """Declares a rule; fewer than `floor` instances is an analysis error."""
        self.rules[rid] = (text, floor)

    def ob(self, rid, key, where, ok, detail=""):
        """One decided obligation.  `key` names the construct, stably."""
        if rid not in self.rules:
            raise AnalysisBroken("undeclared rule " + rid)
        k = (rid, key, where, bool(ok), detail)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obl.append((rid, key, where, bool(ok), detail))

    def count(self, name, n):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def known(self):
        res = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                # known: property=<id> key=<key> :: text
                if line.startswith("known: property=%s " % self.prop):
                    rest = line.split("key=", 1)[1]
                    key, text = rest.split(" :: ", 1)
                    res[key.strip()] = text
        return res

    def finish(self, command=""):
        for rid, (text, floor) in self.rules.items():
            n = sum(1 for o in self.obl if o[0] == rid)
            if n < floor and all(o[3] for o in self.obl):
                raise AnalysisBroken("rule %s matched %d instances, expected at least %d"
                                     % (rid, n, floor))
        known = self.known()
        bad = [o for o in self.obl if not o[3]]
        new = []
        for o in bad:
            full = "%s|%s" % (o[0], o[1])
            if full in known:
                print("KNOWN-FINDING: property=%s %s (%s at %s)"
                      % (self.prop, known[full], full, o[2]))
            else:
                new.append(o)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level,
            "coverage": {
                "explanation": "static analysis of LLVM IR compiled from the current "
                               "sources; every obligation below was decided on this run",
                "obligations": len(self.obl),
                "discharged": len(self.obl) - len(bad),
                "analysed": self.analysed,
                "rules": [{"id": r, "text": t[0],
                           "instances": sum(1 for o in self.obl if o[0] == r),
                           "floor": t[1]} for r, t in self.rules.items()],
                "samples": [{"rule": o[0], "construct": o[1], "where": o[2],
                             "ok": o[3], "detail": o[4][:300]}
                            for o in self._samples()],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions,
            "violations": len(new),
        }
        if bad:
            ev["coverage"]["violations"] = [
                {"rule": o[0], "construct": o[1], "where": o[2], "detail": o[4]} for o in bad]
        if self.level == "proof":
            ev["coverage"]["checker_cmd"] = command
            ev["coverage"]["trusted_base"] = [
                "clang 18 front end", "tool/irdump.cc", "bsa/*.py"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        for o in new:
            print("%s: rule %s: %s: %s" % (o[2], o[0], o[1], o[4]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violation.txt")
            with open(rp, "w") as f:
                f.write("# reproduce: %s\n" % command)
                for o in new:
                    f.write("%s: rule %s (%s): %s: %s\n" % (
                        o[2], o[0], self.rules[o[0]][0], o[1], o[4]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: %d obligations discharged (%s)" % (
            self.prop, len(self.obl) - len(bad),
            ", ".join("%s:%d" % (r, sum(1 for o in self.obl if o[0] == r))
                      for r in self.rules)))
        return 0

    def _samples(self):
        res = []
        for r in self.rules:
            os_ = [o for o in self.obl if o[0] == r]
            res += os_[:6]
        return res
