from checks._fam import make
SPEC, run = make("for every output option, every value or boundary of it, alone and in pairs, over plans using every construct: the text reads back as the same plan", ["options"], "trip silent panic mark",
                 lambda k: not any(x in k for x in ("literal_types=Never", "show_emit=on", "last|")))
