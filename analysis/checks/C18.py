"""Extension arguments nobody asked for are rejected."""
import re
from absint import *
import models
from facts import loc

SPEC = dict(
    level="other",
    rule="disjunctive abstract interpretation of the argument decoding entry points on MIR over every combination of {an arbitrary named argument "
         "present, positional arguments present} x {the extension reads it through each public accessor, does not read it} x {the extension's decoder "
         "succeeds, fails}: decoding succeeds exactly when the decoder succeeded and read every argument present",
    assumptions=["the three-element key order (handled, witness, handled) stands for any position of the unread argument"])

KEYS = ("§a", "§W", "§b")
GH = ("handledW", "fromok")


def run(ctx, rep):
    P = ctx.P
    acc = [a for a in P.adts if a["path"].endswith("::ArgsAccess")]
    ea = [a for a in P.adts if a["path"].endswith("::ExtensionArgs")]
    if not (rep.anchor("ArgsAccess", acc) and rep.anchor("ExtensionArgs", ea)):
        return
    ea = ea[0]
    methods = [f for f in P.fns.values() if f.path.startswith("extensions::args::ArgsAccess::<'a>::") and f.name and f.pub and not f.path.endswith("}")]
    named = {}
    pos = {}
    for f in methods:
        if f.argc == 2 and f.ty(1).k == "refmut" and f.ty(2).s.startswith("&") and f.ty(2).peel().s == "str":
            named.setdefault(f.name, f)
        if f.argc == 1 and f.ty(1).k == "refmut":
            pos.setdefault(f.name, f)
    rep.set("named_accessors", len(named))
    rep.set("positional_accessors", len(pos))
    rep.floor("named_accessors", 4)
    rep.floor("positional_accessors", 1)
    entries = [f for f in P.fns.values() if f.path == "extensions::args::ExtensionArgs::parse" or (f.name == "parse_detail" and (f.trait or "").endswith("ExtensionConverter"))]
    ents = {}
    for f in entries:
        if f.path not in ents or not f.mono:
            ents[f.path] = f
    rep.set("decoding_entry_points", len(ents))
    rep.floor("decoding_entry_points", 2)

    def eq(I, st, v):
        return models.val(models.Ctx(I, {}, None, 0, {}, True), st, v)

    for e in ents.values():
        for hasW in (0, 1):
            for hasP in (0, 1):
                for nacc in [None] + (sorted(named) if hasW else []):
                    for pacc in [None] + (sorted(pos) if hasP else []):
                        I = ctx.interp()
                        I.ghosts = GH
                        keys = KEYS if hasW else (KEYS[0], KEYS[2])

                        def hook(I, f, args, st, fn, b, t, quiet):
                            n, tr, p = f["name"], f.get("trait") or "", f["p"]
                            if f.get("ctor"):
                                return None
                            if tr.endswith("::Explainable") and n == "from_args":
                                outs = [dict(st)]
                                sel = {O0}
                                if pacc:
                                    outs = [s for s0 in outs for _, s in I.call_local(pos[pacc], [args[0]], s0, quiet)]
                                res = []
                                for s0 in outs:
                                    if nacc:
                                        for r, s in I.call_local(named[nacc], [args[0], ("s", "§W")], s0, quiet):
                                            bad = r[0] == "adt" and r[1] == RES and r[2] == 1
                                            if not bad:
                                                res.append((ok(O0), dict(s, **{}) | {("G", "fromok"): TRUE}))
                                            res.append((err(O0), dict(s)))
                                    else:
                                        res.append((ok(O0), dict(s0) | {("G", "fromok"): TRUE}))
                                        res.append((err(O0), dict(s0)))
                                return res
                            if tr.endswith("::AnyConvertible") and n == "to_any":
                                return [(ok(O0), st)]
                            if tr in ("std::convert::TryFrom",) and n == "try_from":
                                return [(ok(O0), dict(st)), (err(O0), dict(st))]
                            if p.startswith(("indexmap::", "std::collections::")) and len(args) >= 1:
                                k = eq(I, st, args[1]) if len(args) > 1 else None
                                isset = "Set" in p
                                if k is not None and k[0] == "s" and k[1].startswith("§"):
                                    if isset:
                                        if n in ("insert", "replace"):
                                            s = dict(st)
                                            if k[1] == "§W":
                                                s[("G", "handledW")] = TRUE
                                            return [(O0, s)]
                                        if n in ("contains", "get"):
                                            v = st.get(("G", "handledW"), FALSE) if k[1] == "§W" else TRUE
                                            return [(v if n == "contains" else (some(k) if v == TRUE else none()), st)]
                                    else:
                                        have = k[1] in keys
                                        if n in ("get", "get_mut"):
                                            return [(some(O0) if have else none(), st)]
                                        if n == "get_key_value":
                                            return [(some(("tup", (k, O0))) if have else none(), st)]
                                        if n in ("contains_key", "contains"):
                                            return [(("i", int(have)), st)]
                                        if n == "get_full":
                                            return [(some(("tup", (O0, k, O0))) if have else none(), st)]
                                if not isset and n in ("keys", "into_keys"):
                                    return [(("arr", tuple(("s", x) for x in keys)), st)]
                                if not isset and n in ("iter", "into_iter"):
                                    return [(("arr", tuple(("tup", (("s", x), O0)) for x in keys)), st)]
                                if n == "is_empty" and not isset:
                                    return [(FALSE, st)]
                            if tr == "std::iter::IntoIterator" and n == "into_iter" and "indexmap::" in (f.get("full") or ""):
                                v = eq(I, st, args[0])
                                if v[0] != "arr":
                                    return [(("arr", tuple(("tup", (("s", x), O0)) for x in keys)), st)]
                            return None

                        I.hooks["call"] = hook
                        fields = []
                        for fname, ft, _ in ea["variants"][0]["fields"]:
                            fields.append(("vec", O0, 1, INF) if hasP and fname == "positional" else ("vec", None, 0, 0) if fname == "positional" else O0)
                        argv = ("sref", ("adt", ea["path"], 0, tuple(fields)), None)
                        args = [argv] if e.argc == 1 else [O0, argv]
                        outs = I.analyse([(e, args, tuple(FALSE for _ in GH))])[0]
                        scen = "%s with%s named argument read by %s and%s positional arguments read by %s" % (e.path, "" if hasW else "out a", nacc or "nobody", "" if hasP else "out", pacc or "nobody")
                        complete = (not hasW or nacc) and (not hasP or pacc)
                        okseen = False
                        for ret, h in outs:
                            rep.count("abstract_exits")
                            g = dict(zip(GH, h[-len(GH):]))
                            if ret[0] != "adt" or ret[1] != RES:
                                rep.violation("unresolved:%s" % e.path, "%s: outcome of a path cannot be resolved (%s)" % (loc(e.span), ret))
                                continue
                            good = ret[2] == 0
                            okseen |= good
                            if good and not complete:
                                rep.violation("accepted:%s:%s:%s" % (e.path, "named" if hasW and not nacc else "", "positional" if hasP and not pacc else ""),
                                              "%s: decoding succeeds although an argument was never read: %s" % (loc(e.span), scen))
                            if good and g["fromok"] == FALSE:
                                rep.violation("ok-after-decoder-error:%s" % e.path, "%s: decoding succeeds although the extension's decoder failed: %s" % (loc(e.span), scen))
                            if not good and complete and g["fromok"] == TRUE:
                                rep.violation("rejected:%s:%s:%s" % (e.path, nacc, pacc), "%s: decoding fails although every argument was read: %s" % (loc(e.span), scen))
                        if complete and not okseen:
                            rep.violation("never-ok:%s:%s:%s" % (e.path, nacc, pacc), "%s: no path succeeds: %s" % (loc(e.span), scen))
                        rep.count("scenarios")
                        rep.ok(scen)
    rep.floor("scenarios", 20)
    rep.floor("abstract_exits", 40)
