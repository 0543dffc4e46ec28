"""The command line's exit status tells the truth."""
from cliai import *

SPEC = dict(
    level="other",
    rule="disjunctive abstract interpretation of the command line front end (src/cli*) on MIR: every call that leaves it and can fail is a "
         "two-outcome step, a ghost cell records whether any step failed, every path to a returned exit code is followed; a path on which a step "
         "failed (or rendering reported issues) must return a non-zero code, a path with no failure must return zero, and a zero code requires that "
         "bytes derived from the input were completely written to the output",
    assumptions=["clap's own handling of bad arguments exits non-zero", "the operating system's Err results are the only way a step fails"])


def loc2(sp):
    return "%s:%s" % (sp[0], sp[1]) if sp else "?"


def run(ctx, rep):
    P = ctx.P
    C = CliRun(ctx)
    ents = [f for f in P.fns.values() if f.file.startswith("src/cli") and f.pub and f.ty(0).s == EXIT and f.kind != "closure"]
    rep.set("exit_code_entry_points", len(ents))
    rep.floor("exit_code_entry_points", 2)
    npaths = 0
    for e in ents:
        for ret, g in C.run(e):
            npaths += 1
            code = ret[3][0] if ret[0] == "adt" and ret[1] == EXIT else None
            zero = code == ("i", 0)
            nonzero = code is not None and code[0] == "i" and code[1] != 0
            if not (zero or nonzero):
                rep.violation("exit-unknown:%s" % e.path, "%s: %s may return an exit code the analysis cannot resolve (%s)" % (loc2(e.span), e.path, ret))
                continue
            if zero and g["fail"] != FALSE:
                rep.violation("exit-zero-after-failure:%s" % e.path, "%s: %s can return success on a path where a step failed or rendering reported issues (ghost %s); steps: %s"
                              % (loc2(e.span), e.path, g, "; ".join("%s in %s" % (p, f) for f, p in C.steps)))
                continue
            if zero and g["wrote"] != TRUE:
                rep.violation("exit-zero-without-output:%s" % e.path, "%s: %s can return success although no complete write of converted input happened on that path" % (loc2(e.span), e.path))
                continue
            if nonzero and g["fail"] == FALSE and g["noformat"] == FALSE:
                rep.violation("exit-nonzero-without-failure:%s" % e.path, "%s: %s can return failure although no step failed" % (loc2(e.span), e.path))
                continue
            rep.ok("%s: exit %s with ghosts %s" % (e.path, code[1], {k: v[1] for k, v in g.items()}))
        for v, st, fn, t in C.exits:
            if v == ("i", 0):
                rep.violation("process-exit-zero:%s" % fn.path, "%s: process::exit(0) in %s" % (loc2(t.get("sp")), fn.path))
    rep.set("abstract_exits", npaths)
    rep.set("atomic_steps", len(C.steps))
    rep.set("functions_interpreted", len(C.I.stats["instances"]))
    rep.floor("atomic_steps", 12)
    for (f, p), (sp, what) in sorted(C.steps.items()):
        rep.samples.append("%s: %s called in %s is a step that can fail" % (loc2(sp), p, f)) if len(rep.samples) < 24 else None
    # panics inside the front end end the process with a non-zero status; nothing to check.
    # the binary: main hands back exactly what the library returned
    B = ctx.B
    mains = [f for f in B.fns.values() if f.path == "main"]
    rep.set("binaries", len(mains))
    rep.floor("binaries", 1)
    import absint
    for m in mains:
        if m.ty(0).s != EXIT:
            rep.violation("main-type", "%s: main does not return an ExitCode" % loc2(m.span))
            continue
        I = absint.Interp(B, ctx.G, models.M)

        def h(I, f, args, st, fn, b, t, quiet):
            if t.get("dty") is not None and I.P.types[t["dty"]].s == EXIT and "substrait_explain::cli" in f["p"]:
                return [(("adt", EXIT, 0, (O(frozenset([("lab", "CODE")])),)), st)]
            if f["p"] == "std::process::exit":
                I.exited = f
                return []
        I.hooks["call"] = h
        I.exited = None
        outs = I.analyse([(m, [O0] * m.argc, ())])[0]
        good = outs and all(r == ("adt", EXIT, 0, (O(frozenset([("lab", "CODE")])),)) for r, _ in outs)
        if not good or I.exited:
            rep.violation("main-exit", "%s: main does not return exactly the exit code the command line front end computed (%s)" % (loc2(m.span), [r for r, _ in outs]))
        else:
            rep.ok("main returns the front end's exit code on all %d abstract paths" % len(outs))
