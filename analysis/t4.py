import sys, time, glob, collections
from facts import *
from grammar import Grammar
from families import *
P=Prog(glob.glob("/verif/.build/facts-*")[0]+"/substrait_explain.json")
G=Grammar("/repo/src/parser/expression_grammar.pest")
I=Exact(P,G); I.BUDGET=100000
W=Families(I)
which=sys.argv[1:]
tot=collections.Counter()
res={}
t=time.time()
for name,rel in W.rels():
    if which and name not in which: continue
    plan=W.plan(W.root(rel,W.id("x")))
    r=W.trip(plan); print(name,r[0][:2]); print(W.shown(r[0][2][r[0][2].index("=== Plan"):]) if r[0][2] else "")
    pt=P.types[[f for f in P.fns.values() if f.path=="parse"][0].locals[0]].arg(0) if 0 else None
    T=[x for x in P.types if x.k=="adt" and x.p=="substrait::proto::Plan"][0]
    for k,v in W.devs(plan,T):
        if k in res: continue
        r=W.trip(v)
        res[k]=r
        for x in r: tot[x[0]]+=1
print(tot, time.time()-t)
for k,r in res.items():
    for v,d,tx in r:
        if v not in("same","reported"): print(v,"|",k,"|",d[:200])
print(I.unmodelled)
