from checks._fam import make
SPEC, run = make("for each rule of the text format (names that must be declared, anchors that must match, ambiguous names, duplicate declarations, argument forms and counts, number of inputs, enum values, literal values and types, addenda, sections, indentation) and each place where it applies: a text that breaks it is refused; and so is every text of a sweep of single-token and single-line changes over documents of every construct, and of literal texts of every kind, other than those recorded as well-formed",
                 ["refuse", "misplaced", "keep", "soup", "strs"], "refuse")
