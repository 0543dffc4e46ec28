from checks._fam import make
SPEC, run = make("for documents covering every construct, each rewritten by adding or removing optional spaces at every token, blank lines, comments, line ends, quotes around names, explicit anchors and literal types, leading zeros, other keyword case, other order of declarations and named arguments: "
                 "the text is read as the same plan, or (only where recorded) refused; never as another plan", ["spell"], "spell")
