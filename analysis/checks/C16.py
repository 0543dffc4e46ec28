"""A failed conversion leaves the output destination untouched."""
from cliai import *

SPEC = dict(
    level="other",
    rule="disjunctive abstract interpretation of the command line front end on MIR with a ghost cell set when the output destination is "
         "created, truncated or written: on no path does a step that can fail, other than writing the output itself, run after that",
    assumptions=["writing the finished output may itself fail half-way (full disk)", "input and output are different files"])


def loc2(sp):
    return "%s:%s" % (sp[0], sp[1]) if sp else "?"


def run(ctx, rep):
    P = ctx.P
    C = CliRun(ctx)
    ents = [f for f in P.fns.values() if f.file.startswith("src/cli") and f.pub and f.ty(0).s == EXIT and f.kind != "closure"]
    rep.set("exit_code_entry_points", len(ents))
    rep.floor("exit_code_entry_points", 2)
    created = 0
    for e in ents:
        for ret, g in C.run(e):
            rep.count("abstract_exits")
            created += g["created"] == TRUE
            failed_early = g["fail"] == TRUE and g["created"] == FALSE
            if failed_early:
                rep.count("failing_exits_with_destination_untouched")
    rep.set("exits_with_destination_opened", created)
    rep.floor("exits_with_destination_opened", 1)
    rep.floor("failing_exits_with_destination_untouched", 1)
    for (f, p), sp in C.late.items():
        rep.violation("late:%s" % p, "%s: `%s` (in %s) can still fail after the output destination has been created or written to" % (loc2(sp), p, f))
    for (f, p), (sp, what) in sorted(C.steps.items()):
        if (f, p) not in C.late:
            rep.ok("%s: %s in %s never runs after the destination was opened" % (loc2(sp), p, f))
    rep.set("atomic_steps", len(C.steps))
    rep.floor("atomic_steps", 12)
    opens = [p for f, p in C.steps if CREATE.search(p)]
    rep.set("destination_opening_calls", len(opens))
    rep.floor("destination_opening_calls", 1)
