"""Compare the engine's answer for every probe with the compiled one: run.py FACTS_DIR EXPECTED.txt"""
import ast, collections, json, sys, time, traceback
sys.path.insert(0, "/verif/analysis"); sys.setrecursionlimit(20000)
from facts import Prog
from grammar import Grammar
from exact import *
P = Prog(sys.argv[1] + "/substrait_explain.json")
G = Grammar("/repo/src/parser/expression_grammar.pest")
I = Exact(P, G); I.BUDGET = 400000
tot = collections.Counter()
only = sys.argv[3:] 
for l in open(sys.argv[2]):
    n, e = l.rstrip("\n").split("\t", 1)
    if only and n not in only: continue
    e = json.loads(e) if not "\\u{" in e and not "\\'" in e else e
    f = P.fns.get("probe::" + n) or next((g for k, g in P.fns.items() if k.endswith("probe::" + n)), None)
    if f is None: print("no fn", n); continue
    I.unmodelled = {}; I.steps = 0; I.stack = []; I.fid = 0
    try:
        outs = list(I.body(f, [], {}, True))
    except Exception as x:
        tot["crash"] += 1; print("CRASH", n, repr(x)[:150]); 
        if only: traceback.print_exc()
        continue
    rs = [o[0] for o in outs]
    s = [str(r) for r in rs]
    if len(rs) == 1 and rs[0] == ("s", e) or (len(rs)==1 and getattr(rs[0],'s',None)==e): tot["ok"] += 1; continue
    tot["bad"] += 1
    print("BAD", n, "want", repr(e)[:60], "got", len(rs), " / ".join(s)[:160], dict(I.unmodelled))
print(tot)
