"""Checks that reconcile what the formatter writes with what the parser reads, family by family."""
import judge

HOW = ("abstract interpretation of the formatter's and the parser's MIR over a template domain (message constructors, constants, and class symbols standing for every identifier or every "
       "number of an interval; undecided branches are followed both ways, oneof cases and enum values are split exhaustively) with the grammar interpreted from its source: %s. "
       "A path on which the interpreter loses precision gives no verdict and is counted as undecided.")
TRUST = ["models of std, chrono, indexmap, prost and pest written for the interpreter (validated once against compiled probes, tools/probes)",
         "messages not listed under 'scenarios' and combinations of more deviations than listed are not decided"]


def spec(rule):
    return dict(level="other", rule=HOW % rule, assumptions=TRUST)


def make(rule, fams, roles, only=None):
    roles = set(roles.split())

    def run(ctx, rep):
        judge.Judge(ctx, rep, fams, roles, only)
    return spec(rule), run
