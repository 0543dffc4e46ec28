import sys, time, glob, collections
from facts import *
from grammar import Grammar
import runner
P=Prog(sorted(glob.glob("/verif/.build/facts-*"),key=__import__("os").path.getmtime)[-1]+"/substrait_explain.json")
G=Grammar("/repo/src/parser/expression_grammar.pest")
fams=sys.argv[1].split(","); show=sys.argv[2].split(",") if len(sys.argv)>2 else ["differs","rejected","undecided","panic"]
t=time.time()
res,um,nf=runner.sweep(P,G,fams)
tot=collections.Counter()
for fam,k,r,dt in res:
    for v,d,tx in r:
        tot[v]+=1
        if v in show or "all" in show: print(v,"|",k,"|",d[:260],"|",(tx or "").split("=== Plan\n")[-1].split("\n")[:3])
print(tot,len(res),"%.1f s"%(time.time()-t)); print(um); print("slow",sorted(((dt,k) for _,k,_,dt in res),reverse=True)[:4])
