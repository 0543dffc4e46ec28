from checks._fam import make
SPEC, run = make("for documents covering every construct, in eight line layouts (blank lines, CRLF, trailing spaces, no final line end), with one of a dozen faults in any one line, and relations with faults that only show when the tree is built (inputs, addenda, widths), at every place of a tree: the text is refused, and the error names the number and quotes the text of that line", ["lines", "misplaced"], "line")
