"""Call-graph helpers shared by the reachability rules."""
import re

API = ("parse", "parse_with_registry", "format", "format_with_options", "format_with_registry")


def entries(P, names=API):
    """the crate-root functions users call"""
    return [f for f in P.fns.values() if f.path in names]


def externals(P, reach):
    """(fref, fn, block) of every reference to code outside the crate made by a reachable body"""
    for i in reach:
        f = P.fns[i]
        for fr, b, _ in P._frefs(f):
            if fr.get("ctor"):
                continue
            if not P.targets(fr):
                yield fr, f, b


def span_at(f, b):
    t = f.blocks[b]["t"]
    sp = t.get("sp") or f.span
    return "%s:%s" % (sp[0], sp[1])


def statics(P, f):
    """statics a body refers to: (key, path, type)"""
    def ops(x):
        if isinstance(x, dict):
            if "static" in x:
                yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    yield from ops(v)
        elif isinstance(x, list):
            for v in x:
                yield from ops(v)
    for b in f.reach():
        for o in ops(f.blocks[b]):
            yield o, b
    for pr in f.promoted:
        for o in ops(pr.get("blocks")):
            yield o, 0
