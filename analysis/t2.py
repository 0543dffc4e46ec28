import sys, time
from facts import *
from grammar import Grammar
from absint import *
import models
P=Prog(""+__import__("glob").glob("/verif/.build/facts-*")[-1]+"/substrait_explain.json")
G=Grammar("/repo/src/parser/expression_grammar.pest")
I=Interp(P,G,models.M)
t=time.time()
which=sys.argv[1:] or ["parse","parse_with_registry"]
ents=[(f,[O0]*f.argc,()) for f in P.fns.values() if f.path in which]
print([e[0].id for e in ents])
try:
    I.analyse(ents)
finally:
    print(time.time()-t, len(I.S), I.max_states)
for k,f in sorted(I.findings.items()):
    d=f["detail"]
    print(f["fn"].replace("parser::",""),"|",f["kind"],"|",loc(f["span"]), "|", (d.get("msg"),d.get("ty"),str(d.get("recv"))[:100]) if isinstance(d,dict) else "")
import pickle
