"""Transfer functions for code outside the crate (std combinators, pest iterators, strings)."""
import re
from absint import *

M = {}


def model(*paths):
    def d(fn):
        for p in paths:
            M[p] = fn
        return fn
    return d


def trait_model(tr, *names):
    def d(fn):
        for n in names:
            M[("trait", tr, n)] = fn
        return fn
    return d


def val(ctx, st, v):
    """peel references"""
    n = 0
    while v[0] in ("sref", "box", "mref") and n < 8:
        v = ctx.I.deref(st, v)
        n += 1
    return v


def split(ctx, st, v, path, tys):
    """-> [(variant index, payload, st)] of an Option/Result/ControlFlow value"""
    while v[0] in ("sref", "box"):
        v = v[1]
    if v[0] == "mref":
        v = ctx.I.rd(st, v[1], v[2])
    if v[0] == "adt" and v[1] == path:
        return [(v[2], v[3][0] if v[3] else None, st)]
    bag = bagof(v)
    out = []
    for vi, ti in enumerate(tys):
        if ti is None:
            out.append((vi, None, dict(st)))
        else:
            out.append((vi, ctx.I.narrow(O(bag), ti.i) if ti != "any" else O(bag), dict(st)))
    return out


def opt(ctx, st, v, n=0):
    return split(ctx, st, v, OPT, [None, ctx.ta(n) or "any"])


def res(ctx, st, v):
    return split(ctx, st, v, RES, [ctx.ta(0) or "any", ctx.ta(1) or "any"])


# ---------------------------------------------------------------- Option
def _unwrap(kind):
    def f(ctx, args, st):
        msg = args[1] if len(args) > 1 else None
        ctx.I.stats["panic_sites"].add((ctx.fn.id, ctx.b))
        out = []
        for vi, p, s in opt(ctx, st, args[0]):
            if vi == 1:
                out.append((p, s))
            else:
                ctx.panic(kind, {"msg": msg[1] if msg and msg[0] == "s" else None, "ty": ctx.ta(0).s if ctx.ta(0) else None, "recv": args[0]})
        return out
    return f


M["std::option::Option::<T>::unwrap"] = _unwrap("Option::unwrap")
M["std::option::Option::<T>::expect"] = _unwrap("Option::expect")


def _runwrap(kind, good=0):
    def f(ctx, args, st):
        msg = args[1] if len(args) > 1 else None
        ctx.I.stats["panic_sites"].add((ctx.fn.id, ctx.b))
        out = []
        for vi, p, s in res(ctx, st, args[0]):
            if vi == good:
                out.append((p, s))
            else:
                ctx.panic(kind, {"msg": msg[1] if msg and msg[0] == "s" else None, "ty": [t.s for t in (ctx.ta(0), ctx.ta(1)) if t], "recv": args[0]})
        return out
    return f


M["std::result::Result::<T, E>::unwrap"] = _runwrap("Result::unwrap")
M["std::result::Result::<T, E>::expect"] = _runwrap("Result::expect")
M["std::result::Result::<T, E>::unwrap_err"] = _runwrap("Result::unwrap_err", 1)
M["std::result::Result::<T, E>::expect_err"] = _runwrap("Result::expect_err", 1)


def vtest(which):
    vi, other, n = {"is_some": (1, 0, OPT), "is_none": (0, 1, OPT), "is_ok": (0, 1, RES), "is_err": (1, 0, RES)}[which]

    def f(ctx, args, st):
        a = args[0]
        v = val(ctx, st, a)
        if v[0] == "adt" and v[1] == n:
            return [(("i", int(v[2] == vi)), st)]
        org = a[2] if a[0] == "sref" else None
        if org is not None and v[0] == "o":
            ti = None
            for t in ctx.I.P.types:
                pass
            # the type of the receiver: &Option<T>
            arg = ctx.t["args"][0]
            p = arg.get("cp") or arg.get("mv")
            if p is not None and not p["p"]:
                ty = ctx.fn.ty(p["l"]).peel()
                if ty.p == n:
                    return [(("vtest", org, ty.i, ctx.I.rd(st, org[0], org[1]), vi, other, True), st)]
        return [(O0, st)]
    return f


M["std::option::Option::<T>::is_some"] = vtest("is_some")
M["std::option::Option::<T>::is_none"] = vtest("is_none")
M["std::result::Result::<T, E>::is_ok"] = vtest("is_ok")
M["std::result::Result::<T, E>::is_err"] = vtest("is_err")


@model("std::option::Option::<T>::map")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out.append((none(), s))
        else:
            out += [(some(r), s2) for r, s2 in ctx.invoke(args[1], [p], s)]
    return out


@model("std::option::Option::<T>::and_then")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out.append((none(), s))
        else:
            out += ctx.invoke(args[1], [p], s)
    return out


@model("std::option::Option::<T>::inspect")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out.append((none(), s))
        else:
            out += [(some(p), s2) for r, s2 in ctx.invoke(args[1], [("sref", p, None)], s)]
    return out


@model("std::option::Option::<T>::filter")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out.append((none(), s))
        else:
            for r, s2 in ctx.invoke(args[1], [("sref", p, None)], s):
                if r != FALSE:
                    out.append((some(p), dict(s2)))
                if r != TRUE:
                    out.append((none(), dict(s2)))
    return out


@model("std::option::Option::<T>::is_some_and", "std::option::Option::<T>::is_none_or")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out.append((("i", int("none_or" in ctx.f["p"])), s))
        else:
            out += ctx.invoke(args[1], [p], s)
    return out


@model("std::option::Option::<T>::map_or")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out.append((args[1], s))
        else:
            out += ctx.invoke(args[2], [p], s)
    return out


@model("std::option::Option::<T>::map_or_else")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi == 0:
            out += ctx.invoke(args[1], [], s)
        else:
            out += ctx.invoke(args[2], [p], s)
    return out


@model("std::option::Option::<T>::ok_or")
def _(ctx, args, st):
    return [((ok(p) if vi else err(args[1])), s) for vi, p, s in opt(ctx, st, args[0])]


@model("std::option::Option::<T>::ok_or_else")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi:
            out.append((ok(p), s))
        else:
            out += [(err(r), s2) for r, s2 in ctx.invoke(args[1], [], s)]
    return out


@model("std::option::Option::<T>::unwrap_or")
def _(ctx, args, st):
    return [((p if vi else args[1]), s) for vi, p, s in opt(ctx, st, args[0])]


@model("std::option::Option::<T>::unwrap_or_else")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi:
            out.append((p, s))
        else:
            out += ctx.invoke(args[1], [], s)
    return out


@model("std::option::Option::<T>::unwrap_or_default")
def _(ctx, args, st):
    return [((p if vi else O0), s) for vi, p, s in opt(ctx, st, args[0])]


@model("std::option::Option::<T>::or", "std::option::Option::<T>::xor")
def _(ctx, args, st):
    return [((some(p) if vi else args[1]), s) for vi, p, s in opt(ctx, st, args[0])]


@model("std::option::Option::<T>::or_else")
def _(ctx, args, st):
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi:
            out.append((some(p), s))
        else:
            out += ctx.invoke(args[1], [], s)
    return out


@model("std::option::Option::<T>::and")
def _(ctx, args, st):
    return [((args[1] if vi else none()), s) for vi, p, s in opt(ctx, st, args[0])]


@model("std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<&mut T>::cloned")
def _(ctx, args, st):
    out = []
    for vi, p, s in split(ctx, st, args[0], OPT, [None, "any"]):
        out.append((some(val1(ctx, s, p)) if vi else none(), s))
    return out


def val1(ctx, st, v):
    if v[0] in ("sref", "mref"):
        return ctx.I.deref(st, v)
    return v


@model("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_deref", "std::option::Option::<T>::as_slice")
def _(ctx, args, st):
    deref = ctx.f["p"].endswith("as_deref")
    out = []
    for vi, p, s in opt(ctx, st, args[0]):
        if vi:
            if deref and p[0] == "box":
                p = p[1]
            out.append((some(("sref", p, None)), s))
        else:
            out.append((none(), s))
    return out


@model("std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_deref_mut")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    out = []
    for vi, p, s in opt(ctx, st, a):
        if vi:
            ctx.I.wr(s, a[1], a[2], some(p))
            out.append((some(("mref", a[1], a[2] + (("d", 1), ("f", 0)))), s))
        else:
            ctx.I.wr(s, a[1], a[2], none())
            out.append((none(), s))
    return out


@model("std::option::Option::<T>::get_or_insert_with", "std::option::Option::<T>::get_or_insert", "std::option::Option::<T>::insert")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    out = []
    for vi, p, s in opt(ctx, st, a):
        if vi and not ctx.f["p"].endswith("::insert"):
            vs = [(p, s)]
        elif ctx.f["p"].endswith("with"):
            vs = ctx.invoke(args[1], [], s)
        else:
            vs = [(args[1], s)]
        for v, s2 in vs:
            s2 = dict(s2)
            ctx.I.wr(s2, a[1], a[2], some(v))
            out.append((("mref", a[1], a[2] + (("d", 1), ("f", 0))), s2))
    return out


@model("std::option::Option::<T>::take")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    v = ctx.I.rd(st, a[1], a[2])
    ctx.I.wr(st, a[1], a[2], none())
    return [(v, st)]


@model("std::option::Option::<T>::replace")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    v = ctx.I.rd(st, a[1], a[2])
    ctx.I.wr(st, a[1], a[2], some(args[1]))
    return [(v, st)]


@model("std::option::Option::<std::result::Result<T, E>>::transpose")
def _(ctx, args, st):
    out = []
    for vi, p, s in split(ctx, st, args[0], OPT, [None, "any"]):
        if vi == 0:
            out.append((ok(none()), s))
        else:
            for v2, p2, s2 in split(ctx, s, p, RES, ["any", "any"]):
                out.append((ok(some(p2)) if v2 == 0 else err(p2), s2))
    return out


@model("std::result::Result::<std::option::Option<T>, E>::transpose")
def _(ctx, args, st):
    out = []
    for vi, p, s in split(ctx, st, args[0], RES, ["any", "any"]):
        if vi == 1:
            out.append((some(err(p)), s))
        else:
            for v2, p2, s2 in split(ctx, s, p, OPT, [None, "any"]):
                out.append((some(ok(p2)) if v2 else none(), s2))
    return out


# ---------------------------------------------------------------- Result
@model("std::result::Result::<T, E>::map")
def _(ctx, args, st):
    out = []
    for vi, p, s in res(ctx, st, args[0]):
        if vi:
            out.append((err(p), s))
        else:
            out += [(ok(r), s2) for r, s2 in ctx.invoke(args[1], [p], s)]
    return out


@model("std::result::Result::<T, E>::map_err")
def _(ctx, args, st):
    out = []
    for vi, p, s in res(ctx, st, args[0]):
        if vi == 0:
            out.append((ok(p), s))
        else:
            out += [(err(r), s2) for r, s2 in ctx.invoke(args[1], [p], s)]
    return out


@model("std::result::Result::<T, E>::and_then")
def _(ctx, args, st):
    out = []
    for vi, p, s in res(ctx, st, args[0]):
        if vi:
            out.append((err(p), s))
        else:
            out += ctx.invoke(args[1], [p], s)
    return out


@model("std::result::Result::<T, E>::or_else")
def _(ctx, args, st):
    out = []
    for vi, p, s in res(ctx, st, args[0]):
        if vi:
            out += ctx.invoke(args[1], [p], s)
        else:
            out.append((ok(p), s))
    return out


@model("std::result::Result::<T, E>::ok")
def _(ctx, args, st):
    return [((none() if vi else some(p)), s) for vi, p, s in res(ctx, st, args[0])]


@model("std::result::Result::<T, E>::err")
def _(ctx, args, st):
    return [((some(p) if vi else none()), s) for vi, p, s in res(ctx, st, args[0])]


@model("std::result::Result::<T, E>::unwrap_or")
def _(ctx, args, st):
    return [((args[1] if vi else p), s) for vi, p, s in res(ctx, st, args[0])]


@model("std::result::Result::<T, E>::unwrap_or_else")
def _(ctx, args, st):
    out = []
    for vi, p, s in res(ctx, st, args[0]):
        if vi:
            out += ctx.invoke(args[1], [p], s)
        else:
            out.append((p, s))
    return out


@model("std::result::Result::<T, E>::unwrap_or_default")
def _(ctx, args, st):
    return [((O0 if vi else p), s) for vi, p, s in res(ctx, st, args[0])]


@model("std::result::Result::<T, E>::as_ref")
def _(ctx, args, st):
    return [((err if vi else ok)(("sref", p, None)), s) for vi, p, s in res(ctx, st, args[0])]


# ---------------------------------------------------------------- ?
@trait_model("std::ops::Try", "branch")
def _(ctx, args, st):
    t = ctx.ta(0)
    out = []
    if t is not None and t.p == RES:
        for vi, p, s in split(ctx, st, args[0], RES, [t.arg(0), t.arg(1)]):
            out.append((("adt", CF, 0, (p,)) if vi == 0 else ("adt", CF, 1, (err(p),)), s))
        return out
    if t is not None and t.p == OPT:
        for vi, p, s in split(ctx, st, args[0], OPT, [None, t.arg(0)]):
            out.append((("adt", CF, 0, (p,)) if vi == 1 else ("adt", CF, 1, (none(),)), s))
        return out
    return None


@trait_model("std::ops::FromResidual", "from_residual")
def _(ctx, args, st):
    v = args[0]
    t = ctx.ta(0)
    if t is not None and t.p == OPT:
        return [(none(), st)]
    if v[0] == "adt" and v[1] == RES:
        via = [i for n, i in ctx.f.get("via", []) if n.endswith("From::from") and i in ctx.I.P.fns]
        if via:
            return [(err(r), s) for r, s in ctx.I.call_local(ctx.I.P.fns[via[0]], [v[3][0]], st, ctx.quiet)]
        return [(err(v[3][0]), st)]
    return [(err(O(bagof(v))), st)]


@trait_model("std::ops::Try", "from_output")
def _(ctx, args, st):
    t = ctx.ta(0)
    if t is not None and t.p == RES:
        return [(ok(args[0]), st)]
    if t is not None and t.p == OPT:
        return [(some(args[0]), st)]
    return None


# ---------------------------------------------------------------- conversions
@trait_model("std::convert::Into", "into")
def _(ctx, args, st):
    via = [i for n, i in ctx.f.get("via", []) if n.endswith("From::from") and i in ctx.I.P.fns]
    if via:
        return ctx.I.call_local(ctx.I.P.fns[via[0]], args, st, ctx.quiet)
    a, b = ctx.ta(0), ctx.ta(1)
    if a is not None and b is not None:
        if b.p == OPT and a.p != OPT:
            return [(some(args[0]), st)]
        if b.p == "std::boxed::Box" and a.p != "std::boxed::Box":
            return [(("box", args[0]), st)]
        if a.i == b.i:
            return [(args[0], st)]
        if b.p == "std::string::String":
            return [(val(ctx, st, args[0]), st)]
    return [(O(bagof(args[0])), st)]


@trait_model("std::convert::From", "from")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    a, b = ctx.ta(1), ctx.ta(0)
    if b is not None and b.p == OPT and (a is None or a.p != OPT):
        return [(some(args[0]), st)]
    if b is not None and b.p == "std::boxed::Box":
        return [(("box", args[0]), st)]
    if b is not None and b.p == "std::string::String":
        return [(val(ctx, st, args[0]), st)]
    if a is not None and b is not None and a.i == b.i:
        return [(args[0], st)]
    return None


@trait_model("std::clone::Clone", "clone")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        g = ctx.I.P.fns.get(ctx.f["inst"])
        if g is not None and not g.derived:
            return None
    v = args[0]
    v = ctx.I.deref(st, v) if v[0] in ("sref", "mref") else v
    return [(strip_origin(v), st)]


@trait_model("std::borrow::ToOwned", "to_owned")
def _(ctx, args, st):
    return [(val(ctx, st, args[0]), st)]


@trait_model("std::string::ToString", "to_string")
def _(ctx, args, st):
    t = ctx.ta(0)
    v = val(ctx, st, args[0])
    if v[0] in ("s", "txt"):
        return [(v, st)]
    if t is not None:
        t = t.peel()
        if t.s == "str" or t.p == "std::string::String":
            return [(v if v[0] == "o" else O(bagof(v)), st)]
    return None


@model("std::string::String::as_str", "core::str::<impl str>::as_ref", "std::string::String::as_mut_str", "std::borrow::Cow::<'_, B>::into_owned", "std::string::String::into_boxed_str", "core::str::<impl str>::to_owned")
def _(ctx, args, st):
    return [(val(ctx, st, args[0]), st)]


@trait_model("std::ops::Deref", "deref")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = args[0]
    org = v[2] if v[0] == "sref" else (v[1], v[2]) if v[0] == "mref" else None
    if v[0] == "mref":
        v = ctx.I.rd(st, v[1], v[2])
    elif v[0] == "sref":
        v = v[1]
    if v[0] == "vec":
        return [(("sref", v, org), st)]
    if v[0] in ("s", "txt", "o"):
        return [(v, st)]
    if v[0] == "box":
        return [(("sref", v[1], None), st)]
    return [(("sref", v, None), st)]


@trait_model("std::ops::DerefMut", "deref_mut")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = args[0]
    if v[0] == "mref":
        x = ctx.I.rd(st, v[1], v[2])
        if x[0] == "box":
            return [(("mref", v[1], v[2] + ("*",)), st)]
        return [(v, st)]
    return None


@trait_model("std::convert::AsRef", "as_ref")
@trait_model("std::borrow::Borrow", "borrow")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = val(ctx, st, args[0])
    if v[0] in ("s", "txt", "o"):
        return [(v, st)]
    return [(("sref", v, None), st)]


M[("trait", "std::convert::AsRef", "as_ref")] = M[("trait", "std::borrow::Borrow", "borrow")]


@model("std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def _(ctx, args, st):
    return [(("box", args[0]), st)]


@model("std::hint::must_use", "std::convert::identity", "std::hint::black_box")
def _(ctx, args, st):
    return [(args[0], st)]


@model("std::mem::take")
def _(ctx, args, st):
    a = args[0]
    if a[0] == "mref":
        v = ctx.I.rd(st, a[1], a[2])
        t = ctx.ta(0)
        ctx.I.killlen(st, a[1])
        ctx.I.wr(st, a[1], a[2], none() if t is not None and t.p == OPT else ("vec", None, 0, 0) if t is not None and t.p == "std::vec::Vec" else O0)
        return [(v, st)]


@model("std::mem::replace")
def _(ctx, args, st):
    a = args[0]
    if a[0] == "mref":
        v = ctx.I.rd(st, a[1], a[2])
        ctx.I.wr(st, a[1], a[2], args[1])
        return [(v, st)]


@model("std::mem::drop", "std::mem::forget")
def _(ctx, args, st):
    return [(UNIT, st)]


# ---------------------------------------------------------------- comparison
@trait_model("std::cmp::PartialEq", "eq")
def _(ctx, args, st):
    g = ctx.I.P.fns.get(ctx.f.get("inst") or "")
    if g is not None and not g.derived:
        return None
    return cmp_eq(ctx, args, st, True)


@trait_model("std::cmp::PartialEq", "ne")
def _(ctx, args, st):
    g = ctx.I.P.fns.get(ctx.f.get("inst") or "")
    if g is not None and not g.derived:
        return None
    return cmp_eq(ctx, args, st, False)


def cmp_eq(ctx, args, st, pol):
    a, b = val(ctx, st, args[0]), val(ctx, st, args[1])
    r = ctx.I.eq(a, b)
    if r is None:
        # Option<Pair> == None with an opaque side: outcome follows the variant
        return [(O0, st)]
    return [(("i", int(r == pol)), st)]


# ---------------------------------------------------------------- closures
@trait_model("std::ops::FnOnce", "call_once")
def _fncall(ctx, args, st):
    a = args[1] if len(args) > 1 else UNIT
    al = list(a[1]) if a[0] == "tup" else [O(bagof(a))] * 4
    return ctx.invoke(args[0], al, st)


M[("trait", "std::ops::FnMut", "call_mut")] = _fncall
M[("trait", "std::ops::Fn", "call")] = _fncall


# ---------------------------------------------------------------- pest
@model("pest::iterators::Pair::<'i, R>::as_rule")
def _(ctx, args, st):
    out = []
    for p in ctx.I.as_pairs(val(ctx, st, args[0])):
        ctx.I.stats["pair_ops"].add((ctx.fn.id, ctx.b))
        if p[1] == "?":
            out.append((O0, dict(st)))
        else:
            s = dict(st)
            pin(ctx, s, args[0], p)
            out.append((("adt", ctx.I.rule_adt["path"], ctx.I.rules_idx[p[1]], ()), s))
    return out


def pin(ctx, st, ref, p):
    """the receiver was opaque/ambiguous: on this disjunct it is p"""
    if ref[0] == "sref" and ref[2] is not None:
        cell, proj = ref[2]
        cur = ctx.I.rd(st, cell, proj)
        if cur == ref[1] and cur != p and cur[0] in ("o", "pair"):
            ctx.I.wr(st, cell, proj, p)


@model("pest::iterators::Pair::<'i, R>::as_str")
def _(ctx, args, st):
    out = []
    for p in ctx.I.as_pairs(val(ctx, st, args[0])):
        ctx.I.stats["pair_ops"].add((ctx.fn.id, ctx.b))
        if p[2] is not None:
            out.append((("s", p[2]), dict(st)))
            continue
        fin = ctx.G.finite(p[1], 40) if p[1] != "?" else None
        if fin:
            for t in sorted(fin):
                s = dict(st)
                pin(ctx, s, args[0], ("pair", p[1], t))
                out.append((("s", t), s))
        else:
            out.append((("txt", p[1]), dict(st)))
    return out


@model("pest::iterators::Pair::<'i, R>::into_inner")
def _(ctx, args, st):
    out = []
    for p in ctx.I.as_pairs(val(ctx, st, args[0])):
        ctx.I.stats["pair_ops"].add((ctx.fn.id, ctx.b))
        out.append((("pairs", p[1], 0), dict(st)))
    return out


@model("pest::iterators::Pair::<'i, R>::as_span", "pest::iterators::Pair::<'i, R>::line_col", "pest::iterators::Pair::<'i, R>::get_input", "pest::Span::<'i>::new")
def _(ctx, args, st):
    if ctx.f["p"].endswith("Span::<'i>::new"):
        return None
    return [(O0, st)]


@trait_model("pest::Parser", "parse")
def _(ctx, args, st):
    r = args[0]
    if r[0] == "adt" and r[1] == ctx.I.rule_adt["path"]:
        name = ctx.I.rule_adt["variants"][r[2]]["name"]
        return [(ok(("pairs", "^" + name, 0)), dict(st)), (err(O0), dict(st))]
    ctx.I.finding(ctx.fn, ctx.b, "grammar: parse() with a rule the analysis cannot determine", ctx.t, ctx.quiet)
    return [(ok(("pairs", "?", 0)), dict(st)), (err(O0), dict(st))]


def dfa_for(ctx, r):
    return ctx.G.start_dfa(r[1:]) if r.startswith("^") else ctx.G.child_dfa(r)


def pairs_of(ctx, v):
    if v[0] == "pairs":
        return [v]
    if v[0] == "o":
        ps = [x for x in v[1] if x[0] == "pairs"]
        return ps or [("pairs", "?", 0)]
    return [("pairs", "?", 0)]


def pairs_next(ctx, v):
    """-> [(option value, new pairs value)]"""
    out = []
    for p in pairs_of(ctx, v):
        if p[1] == "?":
            out += [(none(), p), (some(("pair", "?", None)), p)]
            continue
        tr, acc = dfa_for(ctx, p[1])
        q = p[2]
        if q == "end":
            out.append((none(), p))
            continue
        if isinstance(q, tuple):  # the next element was peeked at: ("=", rule, state after it)
            out.append((some(("pair", q[1], None)), ("pairs", p[1], q[2])))
            continue
        if acc[q]:
            out.append((none(), ("pairs", p[1], "end")))
        for r, q2 in tr[q].items():
            out.append((some(("pair", r, None)), ("pairs", p[1], q2)))
    return out


@model("pest::iterators::Pairs::<'i, R>::peek")
def _(ctx, args, st):
    a = args[0]
    v = val(ctx, st, a)
    out = []
    org = a[2] if a[0] == "sref" else (a[1], a[2]) if a[0] == "mref" else None
    for p in pairs_of(ctx, v):
        for o, n in pairs_next(ctx, p):
            s = dict(st)
            # on this disjunct the next element is fixed: pin the iterator state
            if o[2] == 1 and p[1] != "?":
                pinned = ("pairs", p[1], ("=", o[3][0][1], n[2]))
            else:
                pinned = n if o[2] == 0 else p
            if org is not None and ctx.I.rd(s, org[0], org[1]) == v:
                ctx.I.wr(s, org[0], org[1], pinned)
            out.append((o, s))
    return out


@model("pest::iterators::Pairs::<'i, R>::as_str", "pest::iterators::Pairs::<'i, R>::concat", "pest::iterators::Pairs::<'i, R>::get_input")
def _(ctx, args, st):
    return [(O0, st)]


@model("pest::iterators::Pairs::<'i, R>::len", "pest::iterators::Pairs::<'i, R>::flatten")
def _(ctx, args, st):
    return [(O0, st)]


# ---------------------------------------------------------------- iterators
def is_iter_val(v):
    return v[0] in ("vec", "pairs", "itmap", "itfilter", "itfm", "itenum", "chars", "itpeek", "itfuse")


def iter_next(ctx, st, v, elem_ty=None):
    """-> [(option, new iterator value, st)]"""
    k = v[0]
    if k == "pairs":
        return [(o, n, dict(st)) for o, n in pairs_next(ctx, v)]
    if k == "chars":
        return [(o, n, dict(st)) for o, n in chars_next(ctx, v)]
    if k == "itmap":
        out = []
        for o, n, s in iter_next(ctx, st, v[1]):
            if o[2] == 0:
                out.append((o, ("itmap", n, v[2]), s))
            else:
                for r, s2 in ctx.invoke(v[2], [o[3][0]], s):
                    out.append((some(r), ("itmap", n, v[2]), s2))
        return out
    if k in ("itfilter", "itfm"):
        out = []
        seen = set()
        work = [(v[1], st)]
        while work:
            it, s0 = work.pop()
            key = (it, frozenset(s0.items()))
            if key in seen:
                continue
            seen.add(key)
            for o, n, s in iter_next(ctx, s0, it):
                if o[2] == 0:
                    out.append((o, (k, n, v[2]), s))
                elif k == "itfilter":
                    for r, s2 in ctx.invoke(v[2], [("sref", o[3][0], None)], s):
                        if r != FALSE:
                            out.append((o, (k, n, v[2]), dict(s2)))
                        if r != TRUE:
                            work.append((n, dict(s2)))
                else:
                    for r, s2 in ctx.invoke(v[2], [o[3][0]], s):
                        for vi, p, s3 in split(ctx, s2, r, OPT, [None, "any"]):
                            if vi:
                                out.append((some(p), (k, n, v[2]), dict(s3)))
                            else:
                                work.append((n, dict(s3)))
        return out
    if k == "itenum":
        return [((some(("tup", (iv(0, MEM), o[3][0]))) if o[2] else o), ("itenum", n), s) for o, n, s in iter_next(ctx, st, v[1])]
    if k in ("itpeek", "itfuse"):
        return [(o, (k, n), s) for o, n, s in iter_next(ctx, st, v[1])]
    if k == "arr":
        x = v[1]
        if not x:
            return [(none(), v, st)]
        return [(some(x[0]), ("arr", x[1:]), st)]
    if k == "vec":
        out = []
        if v[2] == 0:
            out.append((none(), ("vec", None, 0, 0), dict(st)))
        if v[3] > 0:
            hi = v[3] - 1 if v[3] < INF else INF
            out.append((some(v[1]), ("vec", v[1] if hi else None, max(0, v[2] - 1), hi), dict(st)))
        return out
    ps = [x for x in bagof(v) if x[0] in ("pairs", "chars")]
    if k == "o" and ps and elem_ty is not None and elem_ty.p == "pest::iterators::Pair":
        out = []
        for p in ps:
            for o, n, s in iter_next(ctx, st, p):
                out.append((o, O(bagof(v) | frozenset([n])), s))
        return out
    e = O(bagof(v))
    if elem_ty is not None:
        e = ctx.I.narrow(e, elem_ty.i)
    return [(none(), v, dict(st)), (some(e), v, dict(st))]


@trait_model("std::iter::Iterator", "next")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    a = args[0]
    if a[0] != "mref":
        v = val(ctx, st, a)
        return [(o, s) for o, n, s in iter_next(ctx, st, v, opt_elem(ctx))]
    v = ctx.I.rd(st, a[1], a[2])
    n = 0
    while v[0] == "mref" and n < 5:
        a = v
        v = ctx.I.rd(st, a[1], a[2])
        n += 1
    out = []
    for o, n, s in iter_next(ctx, st, v, opt_elem(ctx)):
        ctx.I.wr(s, a[1], a[2], n)
        out.append((o, s))
    return out


M[("trait", "std::iter::DoubleEndedIterator", "next_back")] = lambda ctx, args, st: None


def opt_elem(ctx):
    t = ctx.I.P.types[ctx.t["dty"]] if ctx.t.get("dty") is not None else None
    if t is not None and t.p == OPT:
        return t.arg(0)
    return None


@trait_model("std::iter::IntoIterator", "into_iter")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = args[0]
    if v[0] == "sref":
        v = v[1]
        if v[0] == "mref":
            v = ctx.I.rd(st, v[1], v[2])
        if v[0] in ("vec", "arr"):
            x = as_vec(v)
            return [(("vec", None if x[1] is None else ("sref", x[1], None), x[2], x[3]), st)]
    if is_iter_val(v):
        return [(v, st)]
    if v[0] == "mref":
        x = ctx.I.rd(st, v[1], v[2])
        t = ctx.ta(0)
        if x[0] in ("vec", "arr") and t is not None and t.k == "ref":
            x = as_vec(x)
            return [(("vec", None if x[1] is None else ("sref", x[1], None), x[2], x[3]), st)]
        if x[0] in ("vec", "arr") and t is not None and t.k == "refmut" and t.arg(0).p == "std::vec::Vec":
            x = as_vec(x)
            ctx.I.killlen(st, v[1])
            return [(("vec", ctx.I.ref_to(st, v[1], v[2] + (("ix", 0),)), x[2], x[3]), st)]
        if is_iter_val(x):
            return [(v, st)]
        return [(O(bagof(x) | frozenset([v])), st)]
    if v[0] == "arr":
        return [(v, st)]
    if v[0] == "adt" and v[1] == OPT:
        return [(O(bagof(v)), st)]
    return [(O(bagof(v)), st)]


def _lazy(kind):
    def f(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        v = args[0]
        if is_iter_val(v) or v[0] in ("o", "arr"):
            return [((kind, v, args[1]), st)]
        if v[0] == "mref":
            x = ctx.I.rd(st, v[1], v[2])
            return None
        return None
    return f


M[("trait", "std::iter::Iterator", "map")] = _lazy("itmap")
M[("trait", "std::iter::Iterator", "filter")] = _lazy("itfilter")
M[("trait", "std::iter::Iterator", "filter_map")] = _lazy("itfm")


@trait_model("std::iter::Iterator", "enumerate")
def _(ctx, args, st):
    v = args[0]
    if is_iter_val(v) or v[0] in ("o", "arr"):
        return [(("itenum", v), st)]


@trait_model("std::iter::Iterator", "by_ref")
def _(ctx, args, st):
    return [(args[0], st)]


@trait_model("std::iter::Iterator", "cloned", "copied")
@trait_model("std::iter::Iterator", "copied")
def _(ctx, args, st):
    return [(args[0], st)]


M[("trait", "std::iter::Iterator", "copied")] = M[("trait", "std::iter::Iterator", "cloned")] = lambda ctx, args, st: [(args[0], st)]


def drain_n(ctx, st, v, limit=400):
    """iterate to exhaustion -> [(number of elements capped at 2, end state, join of the elements or None)]"""
    ends = {}
    seen = set()
    work = [(v, st, 0, None)]
    while work:
        it, s0, c, e0 = work.pop()
        key = (it, frozenset(s0.items()), c, e0)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > limit:
            raise RuntimeError("iterator fixpoint too large in " + ctx.fn.path)
        for o, n, s in iter_next(ctx, s0, it):
            if o[2] == 0:
                k = (c, frozenset(s.items()))
                if k in ends:
                    x = ends[k]
                    ends[k] = (c, s, x[2] if e0 is None else e0 if x[2] is None else join(x[2], e0))
                else:
                    ends[k] = (c, s, e0)
            else:
                e = strip_origin(o[3][0])
                work.append((n, s, min(2, c + 1), clip(e if e0 is None else join(e0, e))))
    return list(ends.values())


def drain(ctx, st, v, f, limit=400):
    """iterate to exhaustion (fixpoint). f(elem, st) -> [(stop?, st)].  -> (bag, [end states], elements)"""
    ends, bag, elems = [], E, []
    seen = set()
    work = [(v, st)]
    while work:
        it, s0 = work.pop()
        key = (it, frozenset(s0.items()))
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > limit:
            raise RuntimeError("iterator fixpoint too large in " + ctx.fn.path)
        for o, n, s in iter_next(ctx, s0, it):
            if o[2] == 0:
                ends.append(s)
            else:
                e = o[3][0]
                elems.append(e)
                bag = bag | bagof(e)
                for stop, s2 in f(e, s):
                    if stop:
                        ends.append(s2)
                    else:
                        work.append((n, s2))
    return bag, dedupe(ends), elems


@trait_model("std::iter::Iterator", "collect")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = args[0]
    if not (is_iter_val(v) or v[0] in ("o", "arr")):
        return None
    t = ctx.I.P.types[ctx.t["dty"]]
    out = []
    for n, s, e in drain_res(ctx, st, v, t):
        if e == "err":
            out.append((n, s))
            continue
        isvec = lambda ty: ty is not None and ty.p == "std::vec::Vec"
        mk = lambda ty, x: (("vec", x, n, n) if n < 2 else ("vec", x, 2, INF)) if isvec(ty) else O(bagof(x) if x is not None else E)
        if t.p == RES:
            out.append((ok(mk(t.arg(0), e)), s))
        elif t.p == OPT:
            out.append((some(mk(t.arg(0), e)), s))
        else:
            out.append((mk(t, e), s))
    return out


def drain_res(ctx, st, v, t, limit=400):
    """exhaust v for collect(): a Result/Option collection stops at the first Err/None.
    -> [(count, state, join of collected elements)] or [(early result, state, "err")]"""
    wrap = RES if t.p == RES else OPT if t.p == OPT else None
    ends, seen, early = {}, set(), {}
    work = [(v, st, 0, None)]
    while work:
        it, s0, c, e0 = work.pop()
        key = (it, frozenset(s0.items()), c, e0)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > limit:
            raise RuntimeError("iterator fixpoint too large in " + ctx.fn.path)
        for o, n, s in iter_next(ctx, s0, it):
            if o[2] == 0:
                k = (c, frozenset(s.items()))
                if k in ends:
                    x = ends[k]
                    ends[k] = (c, s, x[2] if e0 is None else e0 if x[2] is None else join(x[2], e0))
                else:
                    ends[k] = (c, s, e0)
                continue
            e = o[3][0]
            if wrap:
                tys = ["any", "any"] if wrap == RES else [None, "any"]
                for vi, p, s2 in split(ctx, s, e, wrap, tys):
                    if vi == (0 if wrap == RES else 1):
                        p = strip_origin(p)
                        work.append((n, s2, min(2, c + 1), clip(p if e0 is None else join(e0, p))))
                    else:
                        r = err(strip_origin(p)) if wrap == RES else none()
                        early[(r, frozenset(s2.items()))] = (r, s2, "err")
            else:
                e = strip_origin(e)
                work.append((n, s, min(2, c + 1), clip(e if e0 is None else join(e0, e))))
    return list(ends.values()) + list(early.values())


@trait_model("std::iter::Iterator", "for_each")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    bag, ends, _ = drain(ctx, st, args[0], lambda e, s: [(False, s2) for r, s2 in ctx.invoke(args[1], [e], s)])
    return [(UNIT, s) for s in ends]


def _quant(stop_on):
    """any (stop_on=True) / all (stop_on=False)"""
    def f(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        v = args[0]
        if v[0] == "mref":
            v = ctx.I.rd(st, v[1], v[2])
        if not (is_iter_val(v) or v[0] in ("o", "arr")):
            return None
        STOP, GO = (TRUE, FALSE) if stop_on else (FALSE, TRUE)
        out, seen, work = [], set(), [(v, st)]
        while work:
            it, s0 = work.pop()
            key = (it, frozenset(s0.items()))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 400:
                raise RuntimeError("iterator fixpoint too large in " + ctx.fn.path)
            for o, n, s in iter_next(ctx, s0, it):
                if o[2] == 0:
                    out.append((GO, s))
                    continue
                for r, s2 in ctx.invoke(args[1], [o[3][0]], s):
                    if r != GO:
                        out.append((STOP, dict(s2)))
                    if r != STOP:
                        work.append((n, dict(s2)))
        return out
    return f


M[("trait", "std::iter::Iterator", "any")] = _quant(True)
M[("trait", "std::iter::Iterator", "all")] = _quant(False)



# ---------------------------------------------------------------- characters of a rule's text
def chars_next(ctx, v):
    _, rule, q = v
    if rule.startswith("="):
        s = rule[1:]
        if q < len(s):
            return [(some(("i", ord(s[q]))), ("chars", rule, q + 1))]
        return [(none(), v)]
    d = ctx.G.char_dfa(rule)
    if d is None or q == "?":
        return [(none(), v), (some(O0), ("chars", rule, "?"))]
    tr, acc = d
    if q == "end":
        return [(none(), v)]
    out = []
    if acc[q]:
        out.append((none(), ("chars", rule, "end")))
    for sym, q2 in tr[q].items():
        c = ("i", ord(sym[1])) if sym[0] == "c" else ("chn", "".join(sorted({x[1] for y in tr.values() for x in y if x[0] == "c"})))
        o = (some(c), ("chars", rule, q2))
        if o not in out:
            out.append(o)
    return out


@model("core::str::<impl str>::chars")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "txt":
        d = ctx.G.char_dfa(v[1]) if v[1] in ctx.G.rules else None
        return [(("chars", v[1], 0 if d is not None else "?"), st)]
    if v[0] == "s" and len(v[1]) <= 40:
        return [(("chars", "=" + v[1], 0), st)]
    return [(O(bagof(v)), st)]


# ---------------------------------------------------------------- strings
def _cs(v):
    return v[1] if v[0] == "s" else chr(v[1]) if v[0] == "i" else None


def strfn(name, f):
    def g(ctx, args, st):
        a = [val(ctx, st, x) for x in args]
        if all(x[0] in ("s", "i") for x in a) and a[0][0] == "s":
            r = f(a[0][1], *[_cs(x) for x in a[1:]])
            if r is not None:
                return [(r, st)]
        return None
    M["core::str::<impl str>::" + name] = g


def _b(x):
    return ("i", int(x))


strfn("starts_with", lambda s, p: _b(s.startswith(p)))
strfn("ends_with", lambda s, p: _b(s.endswith(p)))
strfn("contains", lambda s, p: _b(p in s))
strfn("is_empty", lambda s: _b(not s))
strfn("trim", lambda s: ("s", s.strip()))
strfn("trim_start", lambda s: ("s", s.lstrip()))
strfn("trim_end", lambda s: ("s", s.rstrip()))
strfn("to_lowercase", lambda s: ("s", s.lower()))
strfn("to_uppercase", lambda s: ("s", s.upper()))
strfn("to_ascii_lowercase", lambda s: ("s", s.lower()))
strfn("to_ascii_uppercase", lambda s: ("s", s.upper()))
strfn("strip_prefix", lambda s, p: some(("s", s[len(p):])) if s.startswith(p) else none())
strfn("strip_suffix", lambda s, p: some(("s", s[:-len(p)] if p else s)) if s.endswith(p) else none())
strfn("len", lambda s: ("i", len(s.encode())) if len(s) <= 40 else None)


def _tsm(s, p):
    while p and s.startswith(p):
        s = s[len(p):]
    return ("s", s)


strfn("trim_start_matches", _tsm)
strfn("eq_ignore_ascii_case", lambda s, p: _b(s.lower() == p.lower()))


@model("std::str::FromStr::from_str", "core::str::<impl str>::parse")
def parse_model(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    t = ctx.ta(0)
    v = val(ctx, st, args[0])
    name = t.s if t is not None else ""
    via = [i for n, i in ctx.f.get("via", []) if n.endswith("FromStr::from_str") and i in ctx.I.P.fns]
    if via:
        return ctx.I.call_local(ctx.I.P.fns[via[0]], [v], st, ctx.quiet)
    lab = frozenset([("num", "parsed", name)]) | bagof(v)
    if v[0] == "s":
        if name == "bool":
            return [(ok(("i", int(v[1] == "true"))), st)] if v[1] in ("true", "false") else [(err(O0), st)]
        if re.fullmatch(r"[iu](8|16|32|64|128|size)", name):
            m = re.fullmatch(r"[+-]?\d+", v[1])
            lo, hi = int_range(name)
            if m and lo <= int(v[1]) <= hi:
                return [(ok(("i", int(v[1]))), st)]
            return [(err(O0), st)]
    if v[0] == "txt" and name in ("f64", "f32"):
        d = ctx.G.char_dfa(v[1]) if v[1] in ctx.G.rules else None
        if d is not None and included(d, FLOAT_DFA):
            return [(ok(O(lab)), st)]
    if v[0] == "txt" and name in ("String", "std::string::String"):
        return [(ok(v), st)]
    return [(ok(O(lab)), dict(st)), (err(O0), dict(st))]


M[("trait", "std::str::FromStr", "from_str")] = parse_model

# Rust's f64 grammar restricted to [+-]? digits [. digits*]? (a subset of what parse accepts)
FLOAT_DFA = (
    {0: {"-": 1, "+": 1, "digit": 2}, 1: {"digit": 2}, 2: {"digit": 2, ".": 3}, 3: {"digit": 3}},
    {0: False, 1: False, 2: True, 3: True},
)


def included(d, spec):
    """L(d) subset of L(spec)? product walk"""
    tr, acc = d
    st, sa = spec
    seen = {(0, 0)}
    work = [(0, 0)]
    while work:
        q, p = work.pop()
        if acc[q] and not sa[p]:
            return False
        for sym, q2 in tr[q].items():
            s = sym[1]
            if sym[0] == "c" and s.isdigit():
                s = "digit"
            if s not in st[p]:
                return False
            n = (q2, st[p][s])
            if n not in seen:
                seen.add(n)
                work.append(n)
    return True


# ---------------------------------------------------------------- panics
def _panic(ctx, args, st):
    msg = None
    mac = ctx.t["sp"][3] if ctx.t.get("sp") else None
    for a in args:
        v = val(ctx, st, a)
        if v[0] == "s":
            msg = v[1]
    ctx.I.stats["panic_sites"].add((ctx.fn.id, ctx.b))
    ctx.panic("panic:" + (macname(mac) or "panic"), {"msg": msg})
    return []


def macname(m):
    if not m:
        return None
    x = re.search(r'Macro\(Bang, "?([A-Za-z_:]+)"?\)', m)
    return x.group(1) if x else m


for _p in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_display", "core::panicking::panic_explicit",
           "core::panicking::unreachable_display", "core::panicking::assert_failed", "core::panicking::assert_failed_inner",
           "std::rt::begin_panic", "core::panicking::panic_nounwind", "core::panicking::panic_str_2015", "std::rt::panic_fmt",
           "core::panicking::assert_matches_failed", "core::panicking::panic_const"):
    M[_p] = _panic


@model("std::thread::panicking")
def _(ctx, args, st):
    return [(FALSE, st)]


# containers
@trait_model("std::default::Default", "default")
def _(ctx, args, st):
    t = ctx.ta(0)
    if ctx.f.get("inst"):
        return None
    if t is not None and t.p == OPT:
        return [(none(), st)]
    if t is not None and t.p == "std::vec::Vec":
        return [(("vec", None, 0, 0), st)]
    if t is not None and t.s == "bool":
        return [(FALSE, st)]
    if t is not None and INTS.match(t.s):
        return [(("i", 0), st)]
    return None


@model("std::boxed::Box::<T>::new_uninit")
def _(ctx, args, st):
    return [(("box", ("uninit",)), st)]


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "slice::<impl [T]>::into_vec")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] in ("arr", "vec"):
        return [(as_vec(v), st)]
    return [(O(bagof(v)), st)]


# ---------------------------------------------------------------- sequences
def seq(ctx, st, a):
    """-> (value, (cell, proj) of its storage or None)"""
    org = a[2] if a[0] == "sref" else (a[1], a[2]) if a[0] == "mref" else None
    v = a
    n = 0
    while v[0] in ("sref", "mref", "box") and n < 6:
        if v[0] == "sref" and v[2] is not None:
            org = v[2]
        elif v[0] == "mref":
            org = (v[1], v[2])
        elif v[0] == "box":
            org = None
        v = ctx.I.deref(st, v)
        n += 1
    return v, org


def inc(n, d):
    n += d
    return n if n <= 4 else INF


def put_seq(ctx, st, org, v):
    ctx.I.killlen(st, org[0])
    ctx.I.wr(st, org[0], org[1], v)


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::new_in")
def _(ctx, args, st):
    return [(("vec", None, 0, 0), st)]


@model("std::vec::Vec::<T, A>::push")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    v = ctx.I.rd(st, a[1], a[2])
    if v[0] == "mref":
        a = v
        v = ctx.I.rd(st, a[1], a[2])
    e = strip_origin(args[1])
    if v[0] == "vec":
        ne = e if v[1] is None else join(v[1], e)
        put_seq(ctx, st, (a[1], a[2]), ("vec", clip(ne), min(v[2] + 1, 4), inc(v[3], 1) if v[3] < INF else INF))
    else:
        put_seq(ctx, st, (a[1], a[2]), O(bagof(v) | bagof(e)))
    return [(UNIT, st)]


@model("std::vec::Vec::<T, A>::pop")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    v = ctx.I.rd(st, a[1], a[2])
    if v[0] != "vec":
        return None
    out = []
    if v[2] == 0:
        s = dict(st)
        put_seq(ctx, s, (a[1], a[2]), ("vec", None, 0, 0))
        out.append((none(), s))
    if v[3] > 0:
        s = dict(st)
        hi = v[3] - 1 if v[3] < INF else INF
        put_seq(ctx, s, (a[1], a[2]), ("vec", v[1] if hi else None, max(0, v[2] - 1), hi))
        out.append((some(v[1]), s))
    return out


@model("std::vec::Vec::<T, A>::clear")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    put_seq(ctx, st, (a[1], a[2]), ("vec", None, 0, 0))
    return [(UNIT, st)]


@model("std::vec::Vec::<T, A>::append", "std::vec::Vec::<T, A>::extend_from_slice")
def _(ctx, args, st):
    a = args[0]
    if a[0] != "mref":
        return None
    b, borg = seq(ctx, st, args[1])
    return _extend(ctx, st, a, b)


def _extend(ctx, st, a, b):
    v = ctx.I.rd(st, a[1], a[2])
    if v[0] == "vec" and b[0] in ("vec", "arr"):
        b = as_vec(b)
        e = v[1] if b[1] is None else b[1] if v[1] is None else join(v[1], b[1])
        hi = v[3] + b[3]
        put_seq(ctx, st, (a[1], a[2]), ("vec", e, min(4, v[2] + b[2]), hi if hi <= 4 else INF))
    elif v[0] == "vec":
        e = O(bagof(b)) if v[1] is None else join(v[1], O(bagof(b)))
        put_seq(ctx, st, (a[1], a[2]), ("vec", e, v[2], INF))
    else:
        put_seq(ctx, st, (a[1], a[2]), O(bagof(v) | bagof(b)))
    return [(UNIT, st)]


@trait_model("std::iter::Extend", "extend")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    t = ctx.ta(0)
    a = args[0]
    if a[0] != "mref":
        return None
    b = args[1]
    if b[0] in ("sref", "mref"):
        b, _ = seq(ctx, st, b)
    if not (is_iter_val(b) or b[0] in ("o", "arr", "vec")):
        return None
    out = []
    for n, s, es in drain_n(ctx, st, b):
        if t is not None and t.p == "std::vec::Vec":
            bv = ("vec", es, n, n) if n < 2 else ("vec", es, 2, INF)
            out += _extend(ctx, s, a, bv)
        else:
            v = ctx.I.rd(s, a[1], a[2])
            ctx.I.wr(s, a[1], a[2], O(bagof(v) | (bagof(es) if es else E)))
            out.append((UNIT, s))
    return out


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def _(ctx, args, st):
    return [(ctx.I.seqlen(st, args[0]), st)]


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def _(ctx, args, st):
    n = ctx.I.seqlen(st, args[0])
    return [(ctx.I.binop("Eq", n, ("i", 0), "usize"), st)]


for _p in ("std::string::String::len", "std::collections::HashMap::<K, V, S, A>::len", "std::collections::BTreeMap::<K, V, A>::len",
           "std::collections::HashSet::<T, S, A>::len", "std::collections::BTreeSet::<T, A>::len", "std::collections::HashMap::<K, V, S>::len", "pest::iterators::Pairs::<'i, R>::len"):
    M[_p] = lambda ctx, args, st: [(iv(0, MEM), st)]
for _t, _n in (("std::iter::ExactSizeIterator", "len"), ("std::iter::Iterator", "count")):
    M[("trait", _t, _n)] = lambda ctx, args, st: None if ctx.f.get("inst") else [(iv(0, MEM), st)]


def _edge(ctx, args, st):
    """first / last / first_mut / last_mut / get / get_mut"""
    name = ctx.f["p"].rsplit("::", 1)[1]
    v, org = seq(ctx, st, args[0])
    mut = name.endswith("_mut")
    if v[0] == "arr":
        v = as_vec(v)
    if v[0] != "vec":
        if mut and org is not None:
            m = ctx.I.ref_to(st, org[0], org[1] + (("ix", 0),))
            return [(none(), dict(st)), (some(m), dict(st))]
        return None
    need = 0
    need_hi = 0
    if name.startswith("get"):
        if args[1][0] not in ("i", "iv"):
            return None
        lo, hi = ctx.I.rng(args[1], "usize")
        need, need_hi = hi, lo
    out = []
    if v[2] <= need:
        s = dict(st)
        if need == 0 and org is not None and v[3] >= INF or need == 0 and org is not None:
            if ctx.I.rd(s, org[0], org[1]) == v and not name.startswith("get"):
                ctx.I.wr(s, org[0], org[1], ("vec", None, 0, 0))
        out.append((none(), s))
    if v[3] > need_hi:
        s = dict(st)
        if org is not None and ctx.I.rd(s, org[0], org[1]) == v and not name.startswith("get"):
            ctx.I.wr(s, org[0], org[1], ("vec", v[1], max(1, v[2]), v[3]))
        if mut and org is not None:
            out.append((some(ctx.I.ref_to(s, org[0], org[1] + (("ix", 0),))), s))
        else:
            out.append((some(("sref", v[1], None)), s))
    return out


for _n in ("first", "last", "first_mut", "last_mut"):
    M["core::slice::<impl [T]>::" + _n] = _edge
M["core::slice::<impl [T]>::get"] = lambda ctx, args, st: _edge(ctx, args, st) if ctx.ta(1) is not None and ctx.ta(1).s == "usize" else None
M["core::slice::<impl [T]>::get_mut"] = M["core::slice::<impl [T]>::get"]


@model("core::slice::<impl [T]>::iter")
def _(ctx, args, st):
    v, org = seq(ctx, st, args[0])
    if v[0] in ("arr", "vec"):
        v = as_vec(v)
        return [(("vec", None if v[1] is None else ("sref", v[1], None), v[2], v[3]), st)]
    return [(O(bagof(v)), st)]


@model("core::slice::<impl [T]>::iter_mut")
def _(ctx, args, st):
    v, org = seq(ctx, st, args[0])
    if org is None:
        return None
    ctx.I.killlen(st, org[0])
    lo, hi = (v[2], v[3]) if v[0] == "vec" else (0, INF)
    m = ctx.I.ref_to(st, org[0], org[1] + (("ix", 0),))
    return [(("vec", m, lo, hi), st)]


@model("std::slice::<impl [T]>::to_vec", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::into_boxed_slice", "std::vec::Vec::<T, A>::as_mut_slice")
def _(ctx, args, st):
    v, org = seq(ctx, st, args[0])
    if v[0] in ("vec", "arr"):
        if "to_vec" in ctx.f["p"] or "boxed" in ctx.f["p"]:
            return [(as_vec(v), st)]
        return [(("sref", v, org), st)]
    return None


@model("std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::sort_unstable")
def _(ctx, args, st):
    v, org = seq(ctx, st, args[0])
    if v[0] == "vec" and len(args) == 1:
        return [(UNIT, st)]
    return None


RANGE = re.compile(r"std::ops::(Range|RangeTo|RangeFrom|RangeInclusive|RangeToInclusive)$")


@trait_model("std::ops::Index", "index")
def _index(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    base, it = ctx.ta(0), ctx.ta(1)
    v, org = seq(ctx, st, args[0])
    ctx.I.stats["panic_sites"].add((ctx.fn.id, ctx.b))
    kind = it.p if it is not None and it.k == "adt" else (it.s if it is not None else "?")
    mut = ctx.f["name"] == "index_mut"
    if kind == "std::ops::RangeFull":
        return [(args[0], st)]
    if v[0] in ("vec", "arr") and kind == "usize":
        v = as_vec(v)
        lo, hi = ctx.I.rng(args[1], "usize")
        if hi >= v[2]:
            ctx.panic("index:" + base.s.split("<")[0], {"idx": args[1], "len": v[2:]})
        if v[3] == 0:
            return []
        if mut and org is not None:
            return [(ctx.I.ref_to(st, org[0], org[1] + (("ix", 0),)), st)]
        return [(("sref", v[1], None), st)]
    ctx.panic("index:" + (base.peel().s.split("<")[0] if base is not None else "?") + "[" + kind.split("::")[-1] + "]", {"idx": args[1] if len(args) > 1 else None})
    if mut and org is not None:
        return [(ctx.I.ref_to(st, org[0], org[1] + (("ix", 0),)), st)]
    return [(O(bagof(v)), st)]


M[("trait", "std::ops::IndexMut", "index_mut")] = _index


@model("std::mem::size_of", "std::mem::align_of")
def _(ctx, args, st):
    t = ctx.ta(0)
    if t is not None and INTS.match(t.s):
        return [(("i", 8 if t.s.endswith("size") else int(t.s[1:]) // 8), st)]
    return [(iv(0, 65535), st)]
