from checks._fam import make
SPEC, run = make("no path of the parser over these texts ends in a panic (failed unwrap, assertion, overflow, index or slice out of range, unreachable code): documents covering every construct with every token replaced by, or preceded by, odd tokens, cut after every token, "
                 "with numbers of every size in every numeric place, and every literal kind with malformed, extreme and misplaced values", ["soup", "strs", "numbers", "refuse"], "panic")
