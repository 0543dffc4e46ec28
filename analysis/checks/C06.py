from checks._fam import make
SPEC, run = make("for every expression kind, argument shape, nesting and position, the text reads back as the same expression or an issue is reported", ["expressions"], "trip silent panic")
