"""What every check shares: the facts of the current tree, obligations, violations, known findings, evidence."""
import json, os, re, sys, time, traceback
import build
from facts import Facts

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")


class Missing(Exception):
    """something the property is anchored in is not there"""


class Ctx:
    def __init__(self, pid, tier):
        self.id = pid; self.tier = tier; self.t0 = time.time()
        self.viol = []; self.done = {}; self.samples = []; self.notes = []
        self.failed = 0; self._F = None; self.functions = set(); self.counts = {}
        self.known = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p): self.known = [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "open"]

    @property
    def F(self):
        if self._F is None: self._F = Facts(build.facts())
        return self._F

    # ----- obligations -----
    def ok(self, kind, what, n=1):
        self.done[kind] = self.done.get(kind, 0) + n
        if sum(1 for s in self.samples if s["rule"] == kind) < 3: self.samples.append({"rule": kind, "construct": str(what)[:300], "verdict": "holds"})

    def bad(self, kind, key, msg, where=""):
        """an obligation that fails; key names the construct without line numbers"""
        self.done[kind] = self.done.get(kind, 0) + 1
        self.viol.append({"rule": kind, "key": "%s|%s" % (kind, key), "message": msg, "where": where})

    def check(self, cond, kind, key, msg, where=""):
        if cond: self.ok(kind, key)
        else: self.bad(kind, key, msg, where)
        return cond

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def atleast(self, kind, n, what):
        """a rule that meets fewer instances than were confirmed by hand has lost its subject"""
        have = self.done.get(kind, 0)
        if have < n: self.bad("coverage", "%s below %d" % (kind, n), "only %d instances of rule '%s' were found, at least %d are expected: %s" % (have, kind, n, what))

    def anchor(self, pretty):
        F = self.F
        if pretty not in F.by_pretty: raise Missing("function %s is not there" % pretty)
        i = F.by_pretty[pretty]
        i = i[0] if isinstance(i, list) else i
        self.functions.add(pretty)
        return getattr(i, "id", i)

    # ----- end -----
    def finish(self):
        new = []; hit = []
        for v in self.viol:
            k = next((k for k in self.known if k["key"] == v["key"]), None)
            if k is not None: hit.append((k, v))
            else: new.append(v)
        for k in {k["key"]: k for k, _ in hit}.values(): print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        oblig = sum(self.done.values())
        ev = {"property": self.id, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
              "coverage": {"obligations": oblig, "discharged": oblig - len(self.viol), "checker_cmd": "python3 analyzer/s2/run.py %s --tier %s" % (self.id, self.tier),
                           "trusted_base": ["rustc nightly MIR and type checking", "/verif/analyzer (driver, flattener, value and path analysis, rules)"] + (["/verif/spec"] if self.notes_spec else []),
                           "rules": self.done, "functions_analysed": len(self.functions), "counts": self.counts, "samples": self.samples[:12], "rule": RULES.get(self.id, ""),
                           "explanation": RULES.get(self.id, "")},
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if hit: ev["known_findings"] = [k["key"] for k, _ in hit]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1)
        if new:
            rp = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.id + ".json")
            json.dump({"property": self.id, "tree": build.REPO, "rerun": "python3 /verif/analyzer/s2/run.py %s" % self.id, "violations": new}, open(path, "w"), indent=1)
            for v in new[:20]: print("  [%s] %s\n      %s\n      key: %s" % (v["rule"], v["message"][:1500], v["where"], v["key"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        print("%s: %d obligations hold (%s), %d functions, %.1f s" % (self.id, oblig - len(self.viol), ", ".join("%s %d" % x for x in sorted(self.done.items())), len(self.functions), time.time() - self.t0))
        return 0

    notes_spec = False


RULES = {}
