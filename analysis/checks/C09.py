from checks._fam import make
SPEC, run = make("for every field of every message reachable from a plan, set to every variant or a distinguishing value, singly on every base relation, and for every relation, expression, type and literal shape, "
                 "the text reads back as the same plan, or an issue is reported, or the parser refuses it: nothing is lost in silence", ["deviations", "pairs", "relations", "expressions", "types", "literals", "declarations"], "silent panic")
