from checks._fam import make
SPEC, run = make("for every relation kind with every shape of its fields (emit mappings, join/set/sort enums, fetch modes, grouping sets, row counts, nesting, list lengths) the text reads back as the same plan",
                 ["relations", "sizes"], "trip silent panic")
