from checks._fam import make
SPEC, run = make("on every path of the formatter over these families the text carries an error marker only if an issue is reported, and an issue leaves a marker (except the recorded kinds: declarations and lost precision)",
                 ["deviations", "pairs", "relations", "expressions", "types", "literals", "declarations"], "mark")
