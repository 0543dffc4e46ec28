"""Families over extension payloads (through opaque registered handlers) and over plan texts."""
from exact import *
from scen import *


def S_(key, kind, *a):
    from families import Sc
    return Sc(key, kind, *a)


# ================================================================ opaque extension handlers
def install(W):
    """Stand-in for an arbitrary extension type T: its payload is the argument list itself, so that what reaches T and what T
    returns can be compared.  T's four public trait methods are replaced, everything between them is the crate's own code."""
    I = W.I
    I.handler = None
    url = lambda n: ("s", "type.googleapis.com/ext." + n)

    def tag(st, v, d=0):
        while v[0] in ("sref", "box", "mref") and d < 8:
            v = I.deref(st, v)
            d += 1
        if isx(v, "T"):
            return v[3]
        for k in kids(v) or ():
            if k[0] in ("adt", "x", "box", "sref"):
                r = tag(st, k, d + 1)
                if r:
                    return r
        return None

    def peel(st, v):
        d = 0
        while v[0] in ("sref", "box", "mref") and d < 8:
            v = I.deref(st, v)
            d += 1
        return v

    def hook(_, f, args, st, fn, b, t, quiet):
        p, n, tr = f["p"], f["name"], f.get("trait")
        if tr and tr.endswith("::Explainable") and n == "name" and I.handler:
            return [(("sref", ("s", I.handler), None), st)]
        if tr and tr.endswith("::AnyConvertible") and I.handler:
            if n == "type_url":
                return [(url(I.handler), st)]
            if n == "to_any":
                v = peel(st, args[0])
                if isx(v, "ext"):
                    a = W.adt("extensions::any::Any")
                    fs = {"type_url": url(v[3]), "value": X("enc", v[2])}
                    return [(ok(("adt", a["path"], 0, tuple(fs[x[0]] for x in a["variants"][0]["fields"]))), st)]
            if n == "from_any":
                v = peel(st, args[0])
                if v[0] == "adt":
                    a = W.P.adt_by_path[v[1]]
                    d = {x[0]: peel(st, v[3][i]) for i, x in enumerate(a["variants"][0]["fields"])}
                    if isx(d["value"], "enc") and d["type_url"] == url(I.handler):
                        return [(ok(X("ext", d["value"][2], I.handler)), st)]
                    return [(err(unk("from_any")), st)]
        if tr and tr.endswith("::Explainable") and n == "to_args":
            v = peel(st, args[0])
            if isx(v, "ext"):
                return [(ok(v[2][0]), st)]
        if p.endswith("ExtensionArgs::parse") and I.handler:
            v = peel(st, args[0])
            if v[0] == "adt":
                return [(ok(X("ext", (I.freeze(st, v) if hasattr(I, "freeze") else v,), I.handler)), st)]
        if f.get("virt") and args:
            h = tag(st, args[0])
            tg = W.P.targets(f)
            if h and len(tg) == 1:
                old, I.handler = I.handler, h
                try:
                    return I.call_local(tg[0], args, st, quiet)
                finally:
                    I.handler = old
        return None
    I.hooks["call"] = hook


def values(W):
    """every kind of extension argument"""
    ev = W.ev
    ex = lambda e: ev("Expr", ("adt", W.adt("extensions::args::Expr")["path"], 0, (("box", e),)))
    tup = lambda *v: ev("Tuple", ("adt", W.adt("extensions::args::TupleValue")["path"], 0, (("arr", tuple(v)),)))
    s = lambda x: ("s", x)
    yield "string", ev("String", s(W.id("s")))
    for k, x in (("empty", ""), ("quote", "it's"), ("dq", 'a"b'), ("nl", "a\nb"), ("bs", "a\\b"), ("comma", "a, b"), ("num", "5"), ("amp", "&A"), ("dollar", "$0"), ("arrow", "=> x]"), ("uni", "é"), ("null", "null"), ("cr", "a\rb"), ("tab", "\t"), ("typed", "x:i64")):
        yield "string/" + k, ev("String", s(x))
    for k, n in (("0", 0), ("7", 7), ("-1", -1), ("max", 2**63 - 1), ("min", -2**63)):
        yield "int/" + k, ev("Integer", ("i", n))
    yield "int/class", ev("Integer", W.nat("n", 0, 2**63 - 1))
    yield "int/negclass", ev("Integer", W.neg("n", -2**63, -1))
    for x in (0.0, 1.0, -1.0, 1.5, -0.25, 1e-10, 1e300, 5e-324, 0.1, 123456789.125, 1e16, -0.0, 1e21):
        yield "float/%r" % x, ev("Float", ("fl", x))
    for k, x in (("inf", float("inf")), ("nan", float("nan"))):
        yield "float/" + k, ev("Float", ("fl", x))
    yield "bool/0", ev("Boolean", ("i", 0))
    yield "bool/1", ev("Boolean", ("i", 1))
    yield "null", ev("Null")
    yield "enum", ev("Enum", s(W.id("E")))
    yield "enum/CORE", ev("Enum", s("CORE"))
    for k, x in (("empty", ""), ("space", "a b"), ("amp", "&A"), ("quote", 'a"b'), ("digit", "1a"), ("us", "_a"), ("dash", "a-b")):
        yield "enum/" + k, ev("Enum", s(x))
    for n in (0, 1, 7, 100):
        yield "ref/%d" % n, ex(W.fld(n))
    yield "expr/call", ex(W.call(10, W.fld(0), W.elit("I64", 5)))
    yield "expr/call0", ex(W.call(10))
    for k, l in (("I64", ("I64", 5)), ("I32", ("I32", 5)), ("String", ("String", W.id("s"))), ("Fp64", ("Fp64", 1.5)), ("Bool", ("Boolean", True)), ("Date", ("Date", 19000)), ("I64neg", ("I64", -5))):
        yield "expr/lit" + k, ex(W.elit(*l))
        yield "expr/lit%s?" % k, ex(W.elit(*l, nullable=True))
    yield "expr/null", ex(W.elit("Null", W.ty("I64", nullability=1)))
    yield "expr/cast", ex(W.ex("Cast", W.msg("expression::Cast", type=W.ty("I32"), input=W.fld(0))))
    yield "expr/if", ex(W.ex("IfThen", W.msg("expression::IfThen", ifs=[W.msg("expression::if_then::IfClause", **{"if": W.fld(0), "then": W.fld(1)})], **{"else": W.fld(1)})))
    i, b = ev("Integer", ("i", 1)), ev("Enum", s("B"))
    yield "tuple/0", tup()
    yield "tuple/1", tup(i)
    yield "tuple/1s", tup(ev("String", s("x, y)")))
    yield "tuple/1ref", tup(ex(W.fld(0)))
    yield "tuple/1e", tup(b)
    yield "tuple/2", tup(i, b)
    yield "tuple/3", tup(i, b, ex(W.fld(1)))
    yield "tuple/nest", tup(tup(i, b), tup(i))
    yield "tuple/nest0", tup(tup(), i)
    yield "tuple/nest1", tup(tup(tup(i)))
    yield "tuple/expr", tup(ex(W.call(10, W.fld(0))), ex(W.elit("I32", 5)))
    yield "tuple/null", tup(ev("Null"), ev("Boolean", ("i", 1)), ev("Float", ("fl", 1.5)))


def payload_family(W):
    import fam2
    m, o = W.msg, W.one
    vals = list(values(W))
    ex = lambda e: ("adt", W.adt("extensions::args::Expr")["path"], 0, (("box", e),))
    cols = [("named", W.ecol("Named", ("s", W.id("c")), W.i64())), ("named?", W.ecol("Named", ("s", W.id("c")), W.ty("String", nullability=1))), ("namedudt", W.ecol("Named", ("s", W.id("c")), W.ty("UserDefined", type_reference=20))),
            ("namedlist", W.ecol("Named", ("s", W.id("c")), W.ty("List", type=W.i64()))), ("quoted", W.ecol("Named", ("s", "a b"), W.i64())), ("ref", W.ecol("Expr", ex(W.fld(0)))), ("ref5", W.ecol("Expr", ex(W.fld(5)))),
            ("call", W.ecol("Expr", ex(W.call(10, W.fld(0))))), ("lit", W.ecol("Expr", ex(W.elit("I32", 5)))), ("lits", W.ecol("Expr", ex(W.elit("String", "x]"))))]
    reg = W.registry(("relation", "X"), ("relation", "Y"), ("extension_table", "X"), ("extension_table", "T"), ("enhancement", "X"), ("enhancement", "E"), ("optimization", "X"), ("optimization", "O"))
    leaf = lambda a, n="X", **k: W.rel("ExtensionLeaf", m("ExtensionLeafRel", common=W.direct(), detail=W.any(n, a), **k))
    single = lambda a, i=None, n="X": W.rel("ExtensionSingle", m("ExtensionSingleRel", common=W.direct(), input=i or W.read(), detail=W.any(n, a)))
    multi = lambda a, k=2, n="X": W.rel("ExtensionMulti", m("ExtensionMultiRel", common=W.direct(), inputs=[W.read(names=[W.id("s%d" % i)]) for i in range(k)], detail=W.any(n, a)))
    table = lambda a, n="X", **k: W.rel("Read", m("ReadRel", common=W.direct(), base_schema=W.schema((W.id("a"), W.i64()), (W.id("b"), W.i64())), read_type=o("read_rel::ReadType", "ExtensionTable", m("read_rel::ExtensionTable", detail=W.any(n, a))), **k))
    adv = lambda e=None, os=(): m("extensions::AdvancedExtension", enhancement=W.any(*e) if e else None, optimization=[W.any(*x) for x in os])
    fil = lambda ax: W.rel("Filter", m("FilterRel", common=W.direct(), input=W.read(), condition=W.fld(0), advanced_extension=ax))
    P = lambda k, rel, r=None: S_(k, "plan", W.plan(W.prel(rel)), None, r or reg)
    e0 = W.eargs()
    yield P("leaf", leaf(e0))
    yield P("single", single(e0))
    yield P("table", table(e0))
    yield P("enh", fil(adv(("E", e0))))
    yield P("opt", fil(adv(None, [("O", e0)])))
    for k in (0, 1, 2, 3):
        yield P("multi:%d" % k, multi(e0, k))
    # unregistered
    for k, r in (("leaf", leaf(e0, "Q")), ("single", single(e0, n="Q")), ("multi", multi(e0, n="Q")), ("table", table(e0, "Q")), ("enh", fil(adv(("Q", e0)))), ("opt", fil(adv(None, [("Q", e0)]))),
                 ("leaf-as-table", leaf(e0, "T")), ("table-as-leaf", table(e0, "Y")), ("enh-as-opt", fil(adv(("O", e0)))), ("opt-as-enh", fil(adv(None, [("E", e0)])))):
        yield P("unregistered:" + k, r)
    W0 = W.reg
    for k, r in (("leaf", leaf(e0)), ("single", single(e0)), ("multi", multi(e0)), ("table", table(e0)), ("enh", fil(adv(("E", e0)))), ("opt", fil(adv(None, [("O", e0)])))):
        yield P("noregistry:" + k, r, W0)
    for k, v in vals:
        a = W.eargs(positional=[v])
        n = W.eargs(named=[(W.id("k"), v)])
        yield P("leaf:pos:" + k, leaf(a))
        yield P("leaf:named:" + k, leaf(n))
        yield P("single:pos2:" + k, single(W.eargs(positional=[v, W.ev("Integer", ("i", 3))])))
        yield P("multi:pos2:" + k, multi(W.eargs(positional=[W.ev("Enum", ("s", "A")), v])))
        yield P("leaf:both:" + k, leaf(W.eargs(positional=[v], named=[(W.id("k"), v), (W.id("l"), W.ev("Boolean", ("i", 1)))], columns=[cols[0][1]])))
        yield P("table:pos:" + k, table(a))
        yield P("table:named:" + k, table(n))
        yield P("enh:pos:" + k, fil(adv(("E", a))))
        yield P("enh:named:" + k, fil(adv(("E", n))))
        yield P("opt:pos:" + k, fil(adv(None, [("O", a)])))
        yield P("opt:named:" + k, fil(adv(None, [("O", n)])))
    i = lambda n: W.ev("Integer", ("i", n))
    from fam2 import sizes
    for n in [x for x in sizes(W, 130) if x > 1]:
        yield P("multi*%d" % n, multi(e0, n))
        yield P("leaf:tuple*%d" % n, leaf(W.eargs(positional=[W.ev("Tuple", ("adt", W.adt("extensions::args::TupleValue")["path"], 0, (("arr", tuple(i(x) for x in range(n))),)))])))
        yield P("leaf:pos*%d" % n, leaf(W.eargs(positional=[i(x) for x in range(n)])))
        yield P("leaf:named*%d" % n, leaf(W.eargs(named=[(W.id("k%d" % x), i(x)) for x in range(n)])))
        yield P("leaf:rev*%d" % n, leaf(W.eargs(named=[("k%d" % (n - x), i(x)) for x in range(n)])))
        yield P("leaf:cols*%d" % n, leaf(W.eargs(columns=[W.ecol("Named", ("s", W.id("c%d" % x)), W.i64()) for x in range(n)])))
        yield P("opts*%d" % n, fil(adv(("E", e0), [("O" if x % 2 else "X", W.eargs(positional=[i(x)])) for x in range(n)])))
    for k, c in cols:
        yield P("leaf:col:" + k, leaf(W.eargs(columns=[c])))
        yield P("single:col:" + k, single(W.eargs(positional=[i(1)], columns=[c])))
        yield P("multi:col:" + k, multi(W.eargs(named=[(W.id("k"), i(1))], columns=[c, cols[0][1]])))
        for k2, c2 in cols:
            yield P("leaf:cols:%s,%s" % (k, k2), leaf(W.eargs(columns=[c, c2])))
        yield P("table:col:" + k, table(W.eargs(columns=[c])))
        yield P("enh:col:" + k, fil(adv(("E", W.eargs(columns=[c])))))
    # names of arguments, columns and of the extensions themselves
    for k, s in fam2.strings(W):
        yield P("argname:" + k, leaf(W.eargs(named=[(s, i(1)), (W.id("zz"), i(2))])))
        yield P("colname:" + k, leaf(W.eargs(columns=[W.ecol("Named", ("s", s), W.i64())])))
        yield P("argstr:" + k, leaf(W.eargs(positional=[W.ev("String", ("s", s)), i(2)])))
    for s in ("X", "x1", "a b", "a:b", "a.b", "1a", "_", "é", "x\"y", "Enh", "a[b", "a]", "Read", "", "a\nb", "a\\b", "'q'"):
        try:
            r = W.registry(("relation", s), ("extension_table", s), ("enhancement", s), ("optimization", s))
        except Imprecise:
            continue
        yield P("extname:leaf:%r" % s, leaf(e0, s), r)
        yield P("extname:single:%r" % s, single(W.eargs(positional=[i(1)]), n=s), r)
        yield P("extname:table:%r" % s, table(e0, s), r)
        yield P("extname:enh:%r" % s, fil(adv((s, e0))), r)
        yield P("extname:opt:%r" % s, fil(adv(None, [(s, e0)])), r)
    # addenda on every relation
    a1 = W.eargs(positional=[i(1)], named=[(W.id("k"), W.ev("String", ("s", W.id("v"))))])
    for rn, rel in W.rels():
        case, body = W.rel_case(rel)
        for k, ax in (("enh", adv(("E", a1))), ("opt", adv(None, [("O", a1)])), ("opt2", adv(None, [("O", a1), ("X", e0)])), ("opt2r", adv(None, [("X", e0), ("O", a1)])), ("same", adv(None, [("O", a1), ("O", a1)])), ("both", adv(("X", e0), [("X", a1)])), ("empty", adv())):
            try:
                r2 = W.with_body(rel, lambda b: W.with_field(b, "advanced_extension", some(ax)))
            except (KeyError, ValueError):
                continue
            yield P("on:%s:%s" % (rn, k), r2)
            yield S_("onroot:%s:%s" % (rn, k), "plan", W.plan(W.root(r2, W.id("x"))), None, reg)
            yield P("under:%s:%s" % (rn, k), W.rel("Filter", m("FilterRel", common=W.direct(), input=r2, condition=W.fld(0), advanced_extension=adv(("E", e0)))))
    # extension relations below and above the others
    oc = W.eargs(columns=[W.ecol("Named", ("s", W.id("c%d" % x)), W.i64()) for x in range(3)])
    for k, x in (("leaf", leaf(oc)), ("single", single(oc)), ("multi", multi(oc)), ("table", table(a1))):
        yield P("filter-over:" + k, W.rel("Filter", m("FilterRel", common=W.direct(), input=x, condition=W.fld(0))))
        yield P("emit-over:" + k, W.rel("Filter", m("FilterRel", common=W.emit(1, 0), input=x, condition=W.fld(0))))
        yield P("project-over:" + k, W.rel("Project", m("ProjectRel", common=W.emit(2, 0), input=x, expressions=[W.call(10, W.fld(0))])))
        yield P("cross-left:" + k, W.rel("Cross", m("CrossRel", common=W.emit(0, 1, 2), left=x, right=W.read())))
        yield P("cross-right:" + k, W.rel("Cross", m("CrossRel", common=W.emit(0, 1, 2), left=W.read(), right=x)))
        yield P("set:" + k, W.rel("Set", m("SetRel", common=W.emit(0, 1), op=6, inputs=[x, x, x])))
        yield P("single-over:" + k, single(a1, x))
        yield S_("root:" + k, "plan", W.plan(W.root(x, W.id("p"), W.id("q"))), None, reg)
        yield P("virtual-over:" + k, W.rel("ExtensionMulti", m("ExtensionMultiRel", common=W.direct(), inputs=[x, W.virtual(4), x], detail=W.any("Y", a1))))
    for rn, rel in W.rels():
        yield P("single-under:" + rn, single(a1, rel))
    # parts of the payload the text cannot carry
    for rv, msg_ in (("ExtensionLeaf", "ExtensionLeafRel"), ("ExtensionSingle", "ExtensionSingleRel"), ("ExtensionMulti", "ExtensionMultiRel")):
        kw = {} if rv == "ExtensionLeaf" else {"input": W.read()} if rv == "ExtensionSingle" else {"inputs": [W.read()]}
        yield P("nodetail:" + rv, W.rel(rv, m(msg_, common=W.direct(), **kw)))
        yield P("emit:" + rv, W.rel(rv, m(msg_, common=W.emit(0), detail=W.any("X", oc), **kw)))
        yield P("emit2:" + rv, W.rel(rv, m(msg_, common=W.emit(2, 0, 0), detail=W.any("X", oc), **kw)))
        yield P("nocommon:" + rv, W.rel(rv, m(msg_, detail=W.any("X", oc), **kw)))
    yield P("noinput", W.rel("ExtensionSingle", m("ExtensionSingleRel", common=W.direct(), detail=W.any("X", e0))))
    yield P("table:nodetail", W.rel("Read", m("ReadRel", common=W.direct(), base_schema=W.schema((W.id("a"), W.i64())), read_type=o("read_rel::ReadType", "ExtensionTable", m("read_rel::ExtensionTable")))))
    yield P("table:enh", table(a1, advanced_extension=adv(("E", a1), [("O", e0)])))
    yield P("table:opt", table(e0, advanced_extension=adv(None, [("O", e0), ("X", a1)])))
    yield P("error", leaf(W.eargs(positional=[W.ev("Error", unk("e"))])))


FAMS = {"payloads": payload_family}
