"""Shared frame of the checks: program facts, reporting, known findings, evidence."""
import json, os, sys, time
from facts import Prog, loc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


class Ctx:
    def __init__(self, facts_dir):
        self.dir = facts_dir
        self._p = self._b = self._g = None

    @property
    def P(self):
        if self._p is None:
            self._p = Prog(os.path.join(self.dir, "substrait_explain.json"))
        return self._p

    @property
    def B(self):
        if self._b is None:
            self._b = Prog(os.path.join(self.dir, "substrait_explain-bin.json"))
        return self._b

    @property
    def G(self):
        if self._g is None:
            from grammar import Grammar
            self._g = Grammar(os.path.join(REPO, "src/parser/expression_grammar.pest"))
        return self._g

    def interp(self, **kw):
        import absint, models
        return absint.Interp(self.P, self.G, models.M, **kw)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []
        self.cov = {}
        self.samples = []
        self.notes = []
        self.trusted = []
        self.assumptions = []
        self.obligations = 0

    def violation(self, key, msg):
        """key: stable identity without line numbers; msg: diagnosable text."""
        if all(k != key for k, _ in self.viol):
            self.viol.append((key, msg))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def set(self, name, v):
        self.cov[name] = v

    def ok(self, what):
        """one discharged rule instance"""
        self.obligations += 1
        if len(self.samples) < 12 and what not in self.samples:
            self.samples.append(what)

    def floor(self, name, n):
        """fail closed: fewer rule instances than counted by hand means the rule lost its anchors"""
        got = self.cov.get(name, 0)
        if got < n:
            self.violation("floor:" + name, "only %d instances of '%s' found, at least %d expected: the rule lost its anchors" % (got, name, n))

    def anchor(self, what, x):
        if not x:
            self.violation("anchor:" + what, "anchor not found in the source: %s" % what)
        return x


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            j = json.loads(l)
            if j.get("property") == pid and j.get("status") == "known":
                for k in j.get("keys", []) + ([j["key"]] if "key" in j else []):
                    out[k] = j["what"]
    return out


def finish(rep, spec, t0):
    known = known_findings(rep.pid)
    fresh = [(k, m) for k, m in rep.viol if k not in known]
    seen = [(k, m) for k, m in rep.viol if k in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    repf = os.path.join(VERIF, "evidence", rep.pid + ".report.txt")
    cov = {"explanation": spec["rule"], "rule_instances_discharged": rep.obligations, "analysed": rep.cov,
           "samples": rep.samples}
    if rep.notes:
        cov["notes"] = rep.notes
    if spec["level"] == "proof":
        cov.update(obligations=rep.obligations + len(rep.viol), discharged=rep.obligations, checker_cmd="bash /verif/check.sh " + rep.pid, trusted_base=rep.trusted or spec.get("trusted", []))
    elif rep.trusted:
        cov["trusted"] = rep.trusted
    ev = {"property": rep.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"], "coverage": cov,
          "assumptions": rep.assumptions + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w"), indent=1, ensure_ascii=False, default=str)
    with open(repf, "w") as f:
        for k, m in rep.viol:
            f.write("%s\n  key: %s\n" % (m, k))
    for what in sorted({known[k] for k, _ in seen}):
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, what))
    print("%s: %d rule instances discharged; analysed %s" % (rep.pid, rep.obligations, json.dumps(rep.cov, default=str)[:1500]))
    if fresh:
        for k, m in fresh[:40]:
            print("  violation: %s" % m)
            print("    key: %s" % k)
        print("VIOLATION property=%s replay=%s" % (rep.pid, repf))
        return 1
    return 0
