import sys, time, glob, collections
from facts import *
from grammar import Grammar
import families
from families import *
from exact import Exact
P=Prog(sorted(glob.glob("/verif/.build/facts-*"),key=__import__("os").path.getmtime)[-1]+"/substrait_explain.json")
G=Grammar("/repo/src/parser/expression_grammar.pest")
sys.setrecursionlimit(20000)
I=Exact(P,G); I.BUDGET=400000
W=families.Families(I)
