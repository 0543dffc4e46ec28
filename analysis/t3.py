import sys, time, glob
from facts import *
from grammar import Grammar
from exact import *
import exact
from scen import *
P=Prog(glob.glob("/verif/.build/facts-*")[0]+"/substrait_explain.json")
G=Grammar("/repo/src/parser/expression_grammar.pest")
I=Exact(P,G); I.BUDGET=100000
W=World(I)
def trip(*a,**k):
    try: trip_(*a,**k)
    except Imprecise as e: print("IMPRECISE",e,I.stack[-40:]); I.stack.clear(); I.fid=0
def trip_(name, plan, opts=None):
    t=time.time(); I.steps=0
    for text,errs in W.format(plan,opts):
        print("-----",name); 
        if text is None: print("UNDECIDED",str(errs)[:300]); continue
        print(W.shown(text[text.index('=== Plan'):])); 
        if errs!=("arr",()): print("  ERRS",W.brief(errs)[:300])
        else:
          for r in W.parse(text):
            if r[0]!="adt" or r[2]==1: print("   PARSE",str(r)[:600])
            else: print("   ",W.diff(plan,r[3][0]) or "same")
    print("%.3f"%(time.time()-t))
if __name__=="__main__":
    m,o=W.msg,W.one
    base=W.read()
    trip("read",W.plan(W.root(base,W.id("x"),W.id("y"))))
    trip("rel",W.plan(W.prel(base)))
    trip("filter",W.plan(W.prel(W.rel("Filter",m("FilterRel",common=W.direct(),input=base,condition=W.call(10,W.fld(0),W.elit("I64",W.nat("n",0,2**63-1))))))))
    trip("project",W.plan(W.prel(W.rel("Project",m("ProjectRel",common=W.emit(0,1,2),input=base,expressions=[W.call(10,W.fld(0))])))))
    trip("project",W.plan(W.prel(W.rel("Project",m("ProjectRel",common=W.emit(2),input=base,expressions=[W.call(10,W.fld(0))])))))
    trip("join",W.plan(W.prel(W.rel("Join",m("JoinRel",common=W.direct(),left=base,right=base,expression=W.call(10,W.fld(0),W.fld(2)),type=1)))))
    trip("cross",W.plan(W.prel(W.rel("Cross",m("CrossRel",common=W.direct(),left=base,right=base)))))
    trip("set",W.plan(W.prel(W.rel("Set",m("SetRel",common=W.direct(),inputs=[base,base],op=6)))))
    trip("fetch",W.plan(W.prel(W.rel("Fetch",m("FetchRel",common=W.direct(),input=base,offset_mode=o("fetch_rel::OffsetMode","Offset",W.nat("o")),count_mode=o("fetch_rel::CountMode","Count",W.nat("c")))))))
    trip("sort",W.plan(W.prel(W.rel("Sort",m("SortRel",common=W.direct(),input=base,sorts=[m("SortField",expr=W.fld(0),sort_kind=o("sort_field::SortKind","Direction",1))])))))
    trip("agg",W.plan(W.prel(W.rel("Aggregate",m("AggregateRel",common=W.direct(),input=base,groupings=[m("aggregate_rel::Grouping",expression_references=[0])],grouping_expressions=[W.fld(0)],measures=[m("aggregate_rel::Measure",measure=m("AggregateFunction",function_reference=10,arguments=[W.arg(W.fld(1))],output_type=W.i64()))])))))
    for k,a in (("NamedTable",None),):
        pass
    trip("write",W.plan(W.prel(W.rel("Write",m("WriteRel",common=W.direct(),input=base)))))
    print(I.unmodelled, I.panics)
