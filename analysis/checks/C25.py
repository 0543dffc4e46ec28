from checks._fam import make
SPEC, run = make("for every kind of literal over tables of dates (proleptic Gregorian), times, fractions, precisions, interval terms, numbers and strings, every type word, every keyword of joins, sets, sorts and casts, every position (columns, inputs, rows, output lists, limit and offset, names, declarations, version): "
                 "the text is read as exactly the plan it says, and the plan is written as exactly that text, by tables that do not come from the crate", ["denote"], "denote panic")
