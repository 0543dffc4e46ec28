#!/usr/bin/env python3
"""Record the contract of the verified tree (analysis/expect/<family>.json).  Run by hand when a family changes; no check writes these files."""
import glob, json, os, sys
os.environ["VERIF_TIER"] = "thorough"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analysis")
sys.setrecursionlimit(20000)
from facts import Prog
from grammar import Grammar
import runner
from judge import Judge
d = os.popen("bash %s/facts.sh" % V).read().strip()
P, G = Prog(d + "/substrait_explain.json"), Grammar("/repo/src/parser/expression_grammar.pest")
for fam in sys.argv[1:]:
    res, um, nf = runner.sweep(P, G, [fam])
    ex = {}
    diff, und = [], []
    for f, k, r, dt in res:
        vs = {v for v, _, _ in r}
        for v in ("reported", "rejected", "unmarked"):
            if v in vs:
                ex.setdefault(v, []).append(k)
        for v in ("accepted", "unlocated", "mislocated", "misquoted", "ignored", "lost", "unwritable", "unstable"):
            if v in vs:
                ex.setdefault(v, []).append(k)
        if fam in ("keep", "soup", "strs") and vs & Judge.TAKEN:
            ex.setdefault("taken", []).append(k)
        if vs & {"differs", "panic", "overmarked"}:
            diff.append(k)
        if "undecided" in vs:
            und.append(k)
    ex = {k: sorted(set(v)) if isinstance(v, list) else dict(sorted(v.items())) for k, v in sorted(ex.items())}
    json.dump(ex, open(V + "/analysis/expect/" + fam + ".json", "w"), indent=0, ensure_ascii=False)
    print(fam, len(res), {k: len(v) for k, v in ex.items()}, "differs:", len(diff), "undecided:", und[:5], um)
    json.dump(sorted(diff), open("/tmp/diff-%s.json" % fam, "w"), indent=0, ensure_ascii=False)
