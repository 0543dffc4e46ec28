from checks._fam import make
SPEC, run = make("for every type kind, nullability, parameter list and position a type can take in a plan, the text either reads back as the same type, or an issue is reported, or (for the kinds "
                 "recorded as outside the text format) the text is refused", ["types"], "trip silent panic")
