import sys, time
from facts import *
from grammar import Grammar
from absint import *
import models
P=Prog(""+__import__("glob").glob("/verif/.build/facts-*")[-1]+"/substrait_explain.json")
G=Grammar("/repo/src/parser/expression_grammar.pest")
I=Interp(P,G,models.M)
t=time.time()
ents=[]
for f in P.fns.values():
    if f.name=="parse_pair" and f.trait and f.mono and not f.kind.startswith("Closure"):
        # rule of the impl
        rf=[g for g in P.fns.values() if g.name=="rule" and g.parent==f.parent][0]
        r=I.summary(rf,(),(),True)
        rule=I.rule_adt["variants"][r[0][0][2]]["name"]
        args=[]
        for i in range(f.argc):
            args.append(("pair",rule,None) if "pest::iterators::Pair<" in f.ty(i+1).s else O0)
        ents.append((f,args,()))
print(len(ents))
try:
    I.analyse(ents)
finally:
    print(time.time()-t, len(I.S), I.max_states)
for k,f in sorted(I.findings.items()):
    d=f["detail"]
    print(f["fn"].replace("parser::",""),"|",f["kind"],"|",loc(f["span"]), "|", (d.get("msg"),d.get("ty")) if isinstance(d,dict) else "")
