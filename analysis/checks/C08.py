from checks._fam import make
SPEC, run = make("for documents covering every construct of the text format and for every token, list item and line of them duplicated, deleted, replaced, inserted or moved: the text is refused, or it is read as a plan that differs accordingly and holds every symbol that was added; "
                 "the documents themselves are accepted", ["keep"], "keep")
