from checks._fam import make
SPEC, run = make("for every accepted text among documents covering every construct, changed at every token, item and line, and among all literal kinds with extreme and unusual values: the plan it is read as is written without an issue, as text that is read as the same plan", ["keep", "strs"], "again")
