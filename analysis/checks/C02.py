from checks._fam import make
SPEC, run = make("no path of the formatter (and of the parser on its output) over these plans ends in a panic: every field of every message absent, empty, out of range or set to every variant, every relation, expression, type and literal shape, every declaration set",
                 ["deviations", "pairs", "relations", "expressions", "types", "literals", "declarations", "sizes"], "panic")
