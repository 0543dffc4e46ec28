"""Judging the verdicts of a family sweep against the recorded contract of the crate.

The contract (expect/<family>.json) names the scenarios for which the crate, on the verified tree, does something other than reproduce the plan:
those where the formatter reports an issue, and those whose text the parser refuses.  Everything not named there has to be reproduced.  A scenario may
always do better than its entry; it may never do worse."""
import collections, json, os, re
import runner
from core import VERIF
from facts import loc

DIR = os.path.join(VERIF, "analysis", "expect")


def expectation(fam):
    p = os.path.join(DIR, fam + ".json")
    j = json.load(open(p)) if os.path.exists(p) else {}
    return {k: set(v) for k, v in j.items()}


PLAIN = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")


class Judge:
    """roles: which failures belong to the property being decided
       trip   content lost, changed or refused on the way plan -> text -> plan
       silent content lost or changed without a reported issue (refusal is loud and allowed)
       mark   issues and error markers disagree
       panic  a definite panic
     and for texts
       keep   part of an accepted text has no effect on the plan, or a well-formed text is refused
       line   an error report names the wrong line, or none
       refuse a text that has to be refused is accepted
       spell  another spelling of a text is read as another plan, or refused
       denote a text is read as, or a plan is written as, something else than it says
       number a legal number is refused or changed, or an illegal one accepted
       again  an accepted text gives a plan that cannot be written, or not as the same plan"""
    TEXT = {"ignored": ("keep", "part of the text is accepted but has no effect"), "lost": ("keep", "part of the text is accepted but is not in the plan"),
            "mislocated": ("line", "the error names the wrong line"), "misquoted": ("line", "the error quotes another line"), "unlocated": ("line", "the error names no line"),
            "unwritable": ("again", "the parser builds a plan that the formatter cannot write"), "unstable": ("again", "the parser builds a plan whose text is not read as the same plan")}
    TAKEN = {"ok", "ignored", "lost", "unwritable", "unstable"}
    KIND = {"keep": "keep", "lines": "line", "misplaced": "line", "refuse": "refuse", "spell": "spell", "numbers": "number", "soup": "any", "strs": "any", "denote": "denote"}

    def __init__(self, ctx, rep, fams, roles, only=None, floor=0.05):
        self.P = ctx.P
        self.rep = rep
        self.roles = roles
        self.only = only
        res, um, nf = runner.sweep(ctx.P, ctx.G, fams)
        tot = collections.Counter()
        for fam in fams:
            self.ex = expectation(fam)
            n = dec = late = 0
            for f, k, r, dt in res:
                if f != fam or only and not only(k):
                    continue
                n += 1
                if r and r[0][1] == runner.LATE:
                    late += 1
                    continue
                vs = {v for v, _, _ in r}
                for v in vs:
                    tot[v] += 1
                dec += vs != {"undecided"}
                if self.one(fam, k, r, vs):
                    rep.ok("%s %s: %s" % (fam, k, "/".join(sorted(vs))))
            rep.set("scenarios:" + fam, n)
            rep.set("decided:" + fam, dec)
            if late:
                rep.set("not_reached_in_time:" + fam, late)
            if n == 0 or dec < (n - late) * floor:
                rep.violation("floor:" + fam, "only %d of the %d scenarios of family '%s' can be decided on this source" % (dec, n, fam))
        rep.set("verdicts", dict(tot))
        rep.set("functions_analysed", nf)
        if um:
            rep.set("unmodelled", {k: um[k] for k in sorted(um)[:20]})

    def exp(self, k):
        if " const '" in k or ":const " in k:
            pos, s = k.split(":const ", 1)
            import ast
            try:
                s = ast.literal_eval(s)
            except Exception:
                s = ""
            if not PLAIN.match(s):
                return "any"
            k2 = pos + ":id"
            if k in self.ex.get("rejected", ()) or k in self.ex.get("reported", ()):
                k2 = k
            k = k2
        for e in ("reported", "rejected", "err", "ok"):
            if k in self.ex.get(e, ()):
                return e
        return "same"

    def text(self, fam, k, v):
        """what is wrong with verdict v on text k"""
        kind = self.KIND[fam]
        if v == "panic":
            return "panics" if "panic" in self.roles else None
        if k in self.ex.get(v, ()):
            return None
        if v in self.TEXT and self.TEXT[v][0] in self.roles:
            return self.TEXT[v][1]
        if kind in ("any", "keep") and "refuse" in self.roles and v in self.TAKEN and k not in self.ex.get("taken", ()):
            return "a text that has to be refused is accepted"
        if kind == "line" and "refuse" in self.roles and v == "accepted":
            return "a text that has to be refused is accepted"
        if kind not in self.roles:
            return None
        if kind == "keep" and v == "err" and k.endswith("|base"):
            return "a well-formed text is refused"
        if kind in ("line", "refuse", "number") and v == "accepted":
            return "a text that has to be refused is accepted"
        if kind == "denote" and v not in ("same", "undecided"):
            return {"rejected": "a well-formed text is refused", "differs": "the text is read as something else than it says", "misshown": "the text written says something else than the plan",
                    "unwritable": "an issue is reported for a plan that can be written"}[v]
        if kind in ("spell", "number") and v in ("rejected", "differs"):
            return "the text is refused" if v == "rejected" else "the text is read as another plan"
        return None

    def one(self, fam, k, r, vs):
        if fam in self.KIND:
            ok = True
            for v, d, text in r:
                bad = self.text(fam, k, v)
                if bad:
                    ok = False
                    self.rep.violation("%s:%s" % (fam, k), "%s [%s]: %s%s" % (bad, k, d, "" if not text else "\n      text: " + text.split("=== Plan\n")[-1].replace("\n", "\n            ")[:400]))
            return ok
        e = self.exp(k)
        ok = True
        for v, d, text in r:
            bad = None
            if v == "panic":
                if "panic" in self.roles:
                    bad = "panics"
            elif v == "overmarked":
                if "mark" in self.roles:
                    bad = "the text carries an error marker although no issue is reported"
            elif v == "unmarked":
                if "mark" in self.roles and k not in self.ex.get("unmarked", ()) and e != "any":
                    bad = "an issue is reported but the text carries no error marker"
            elif v == "differs":
                if self.roles & {"trip", "silent"}:
                    bad = "the plan read back from its text is a different plan, and no issue was reported"
            elif v == "rejected":
                if "trip" in self.roles and e in ("same",):
                    bad = "the text of the plan is refused by the parser"
                elif self.roles & {"trip", "silent"} and e == "reported":
                    bad = "the formatter no longer reports the part of the plan it cannot write"
            elif v == "reported":
                if "trip" in self.roles and e == "same":
                    bad = "the formatter reports an issue for a plan it has to be able to write"
            if bad:
                ok = False
                self.rep.violation("%s:%s" % (fam, k), "%s [%s]: %s%s%s" % (bad, k, d, self.where(v, d), "" if not text else "\n      text: " + text.split("=== Plan\n")[-1].replace("\n", "\n            ")[:400]))
        return ok

    def where(self, v, d):
        """the crate's functions that read and build the message concerned"""
        m = re.match(r"([A-Za-z_#:]*[A-Z]\w*)\.\w+", d)
        if v != "differs" or not m:
            return ""
        name = m.group(1).split("::")[-1]
        W, R = set(), set()
        short = lambda f: re.sub(r"<impl .* for ([^>]*)>", lambda m: m.group(1).split("::")[-1], f.path).split("::")
        for f in self.P.fns.values():
            if not f.span or not str(f.span[0]).startswith("src/"):
                continue
            tag = "%s (%s)" % ("::".join(short(f)[-2:]), loc(f.span))
            if any(s.get("rv", {}).get("k") == "agg" and str(s["rv"].get("p", "")).split("::")[-1] == name for b in f.j["blocks"] for s in b["s"]):
                R.add(tag)
            elif str(f.span[0]).startswith("src/textify") and any((self.P.types[t].peel().p or "").split("::")[-1] == name for t in f.j["locals"][1:f.j["argc"] + 1]):
                W.add(tag)
        return "".join("; %s: %s" % (a, ", ".join(sorted(b)[:4])) for a, b in (("written by", W), ("built by", R)) if b)
