"""Families of abstract plans: expressions, relations, names, declarations, output options, extension payloads."""
from absint import some, none


def P_(key, plan, *a):
    from families import Sc
    return Sc(key, "plan", plan, *a)


# ================================================================ expressions
def exprs(W):
    """shapes of expressions: (key, expression, is this shape writable)"""
    m, o, f = W.msg, W.one, W.fld
    L = lambda n: W.elit("I64", W.nat(n, 0, 2**63 - 1))
    cast = lambda e, fb=0, t=None: W.ex("Cast", m("expression::Cast", type=t or W.ty("I32"), input=e, failure_behavior=fb))
    clause = lambda a, b: m("expression::if_then::IfClause", **{"if": a, "then": b})
    ite = lambda cs, e: W.ex("IfThen", m("expression::IfThen", ifs=[clause(a, b) for a, b in cs], **{"else": e}))
    yield "field", f(W.nat("i"))
    for n in (0, 1, 9, 10, 99, 2**31 - 1):
        yield "field/%d" % n, f(n)
    yield "field/-1", f(-1)
    yield "lit", L("n")
    yield "lit/neg", W.elit("I64", W.neg("n", -2**63, -1))
    yield "lit/true", W.elit("Boolean", True)
    yield "lit/str", W.elit("String", W.id("s"))
    yield "lit/null", W.elit("Null", W.ty("I64", nullability=1))
    for n in (0, 1, 2, 3, 5, 9, 17):
        yield "call/%d" % n, W.call(10, *[f(i % 2) if i % 3 else L("a%d" % i) for i in range(n)])
    yield "call/g", W.call(11, f(0))
    yield "call/undeclared", W.call(12, f(0))
    yield "call/0anchor", W.call(0, f(0))
    yield "call/noarg", W.ex("ScalarFunction", m("expression::ScalarFunction", function_reference=10, output_type=W.i64(), arguments=[m("FunctionArgument")]))
    yield "call/noout", W.call(10, f(0), out=None)
    yield "call/nullable", W.call(10, f(0), out=W.ty("I64", nullability=1))
    yield "call/enum", W.ex("ScalarFunction", m("expression::ScalarFunction", function_reference=10, output_type=W.i64(), arguments=[m("FunctionArgument", arg_type=o("function_argument::ArgType", "Enum", W.id("e")))]))
    yield "call/options", W.ex("ScalarFunction", m("expression::ScalarFunction", function_reference=10, output_type=W.i64(), arguments=[W.arg(f(0))], options=[m("FunctionOption", name=W.id("o"), preference=[W.id("p")])]))
    for fb in (0, 1, 2, 77):
        yield "cast/%d" % fb, cast(f(0), fb)
    for tn, t in (("null", W.ty("String", nullability=1)), ("list", W.ty("List", type=W.i64())), ("user", W.ty("UserDefined", type_reference=20)), ("ts", W.ty("PrecisionTimestamp", precision=6, nullability=1))):
        for fb in (0, 1, 2):
            yield "cast:%s/%d" % (tn, fb), cast(f(0), fb, t)
    yield "cast/noinput", W.ex("Cast", m("expression::Cast", type=W.i64()))
    yield "cast/cast", cast(cast(f(0), 1), 2)
    for n in (0, 1, 2, 3, 6):
        yield "if/%d" % n, ite([(f(i % 2), L("t%d" % i)) for i in range(n)], f(1))
    yield "if/noelse", ite([(f(0), f(1))], None)
    yield "if/noif", W.ex("IfThen", m("expression::IfThen", ifs=[m("expression::if_then::IfClause", then=f(0))], **{"else": f(0)}))
    yield "if/nothen", W.ex("IfThen", m("expression::IfThen", ifs=[m("expression::if_then::IfClause", **{"if": f(0)})], **{"else": f(0)}))
    yield "unset", m("Expression")
    for l, v in W.values(W.ty_by_path("substrait::proto::expression::RexType"), "substrait::proto::Expression", "rex_type"):
        yield "rex:" + l, m("Expression", rex_type=v)
    for l, v in W.values(W.ty_by_path("substrait::proto::expression::field_reference::ReferenceType"), "", ""):
        yield "ref:" + l, W.ex("Selection", m("expression::FieldReference", reference_type=v, root_type=o("expression::field_reference::RootType", "RootReference", m("expression::field_reference::RootReference"))))
    for l, v in W.values(W.ty_by_path("substrait::proto::expression::field_reference::RootType"), "", ""):
        fr = W.with_field(W.fref(0), "root_type", some(v))
        yield "root:" + l, W.ex("Selection", fr)
    yield "root:none", W.ex("Selection", W.with_field(W.fref(0), "root_type", none()))
    for l, v in W.values(W.ty_by_path("substrait::proto::expression::reference_segment::ReferenceType"), "", ""):
        seg = m("expression::ReferenceSegment", reference_type=v)
        yield "seg:" + l, W.ex("Selection", m("expression::FieldReference", reference_type=o("expression::field_reference::ReferenceType", "DirectReference", seg),
                                             root_type=o("expression::field_reference::RootType", "RootReference", m("expression::field_reference::RootReference"))))
    child = m("expression::ReferenceSegment", reference_type=o("expression::reference_segment::ReferenceType", "StructField", m("expression::reference_segment::StructField", field=1)))
    yield "seg:child", W.ex("Selection", m("expression::FieldReference", reference_type=o("expression::field_reference::ReferenceType", "DirectReference",
                            m("expression::ReferenceSegment", reference_type=o("expression::reference_segment::ReferenceType", "StructField", m("expression::reference_segment::StructField", field=0, child=child)))),
                            root_type=o("expression::field_reference::RootType", "RootReference", m("expression::field_reference::RootReference"))))


def expr_positions(W):
    m, o = W.msg, W.one
    b = W.read()
    D = W.direct()
    F1 = lambda e: W.call(11, e)
    yield "project", lambda e: W.rel("Project", m("ProjectRel", common=W.emit(2), input=b, expressions=[e]))
    yield "project2", lambda e: W.rel("Project", m("ProjectRel", common=W.emit(0, 2, 3), input=b, expressions=[F1(W.fld(0)), e]))
    yield "filter", lambda e: W.rel("Filter", m("FilterRel", common=D, input=b, condition=e))
    yield "join", lambda e: W.rel("Join", m("JoinRel", common=D, left=b, right=W.read(names=[W.id("t2")]), expression=e, type=1))
    yield "postjoin", lambda e: W.rel("Join", m("JoinRel", common=D, left=b, right=W.read(names=[W.id("t2")]), expression=F1(W.fld(0)), post_join_filter=e, type=1))
    yield "sort", lambda e: W.rel("Sort", m("SortRel", common=D, input=b, sorts=[m("SortField", expr=e, sort_kind=o("sort_field::SortKind", "Direction", 2))]))
    yield "group", lambda e: W.rel("Aggregate", m("AggregateRel", common=D, input=b, groupings=[m("aggregate_rel::Grouping", expression_references=[0])], grouping_expressions=[e]))
    yield "measure", lambda e: W.rel("Aggregate", m("AggregateRel", common=D, input=b, groupings=[m("aggregate_rel::Grouping", expression_references=[0])], grouping_expressions=[W.fld(0)],
                                                    measures=[m("aggregate_rel::Measure", measure=W.measure(10, e))]))
    yield "row", lambda e: W.rel("Read", m("ReadRel", common=D, base_schema=W.schema((W.id("a"), W.i64()), (W.id("b"), W.i64())), read_type=o("read_rel::ReadType", "VirtualTable",
                                                     m("read_rel::VirtualTable", expressions=[m("expression::nested::Struct", fields=[e, W.elit("I64", 1)])]))))
    yield "limit", lambda e: W.rel("Fetch", m("FetchRel", common=D, input=b, count_mode=o("fetch_rel::CountMode", "CountExpr", e)))
    yield "offset", lambda e: W.rel("Fetch", m("FetchRel", common=D, input=b, offset_mode=o("fetch_rel::OffsetMode", "OffsetExpr", e)))
    yield "vfilter", lambda e: W.rel("Read", m("ReadRel", common=D, filter=e, base_schema=W.schema((W.id("a"), W.i64())), read_type=o("read_rel::ReadType", "VirtualTable",
                                                     m("read_rel::VirtualTable", expressions=[m("expression::nested::Struct", fields=[W.elit("I64", 1)])]))))


def expr_family(W):
    """every expression shape, in every position of an expression, and inside every other expression"""
    m = W.msg
    shapes = list(exprs(W))
    for pn, p in expr_positions(W):
        for k, e in shapes:
            if pn.startswith("project") and k.split("/")[0] == "field" and k not in ("field/0", "field/1"):
                continue        # a projected reference to a column the input does not have
            if pn not in ("project", "filter") and k.split(":")[0] in ("rex", "ref", "root", "seg") and "(" in k:
                continue
            yield P_("%s:%s" % (pn, k), W.plan(W.prel(p(e))))
    cast = lambda e: W.ex("Cast", m("expression::Cast", type=W.ty("I32"), input=e, failure_behavior=1))
    ite = lambda a, b, c: W.ex("IfThen", m("expression::IfThen", ifs=[m("expression::if_then::IfClause", **{"if": W.fld(0), "then": W.fld(1)}), m("expression::if_then::IfClause", **{"if": a, "then": b})], **{"else": c}))
    f = W.fld
    outer = [("arg1", lambda e: W.call(10, e)), ("arg2", lambda e: W.call(10, f(0), e, f(1))), ("cast", cast), ("if", lambda e: ite(e, f(0), f(1))), ("then", lambda e: ite(f(0), e, f(1))), ("else", lambda e: ite(f(0), f(1), e))]
    pj = dict(expr_positions(W))["project"]
    for on, of in outer:
        for k, e in shapes:
            if k.split(":")[0] in ("rex", "ref", "root", "seg") and "(" in k:
                continue
            yield P_("in-%s:%s" % (on, k), W.plan(W.prel(pj(of(e)))))
    for on, of in outer:
        for on2, of2 in outer:
            for on3, of3 in outer:
                yield P_("nest:%s.%s.%s" % (on, on2, on3), W.plan(W.prel(pj(of(of2(of3(W.fld(0))))))))
    e = W.fld(0)
    for i in range(12):
        e = outer[i % 6][1](e)
    yield P_("nest:deep", W.plan(W.prel(pj(e))))


# ================================================================ relations
def rel_family(W):
    m, o, f = W.msg, W.one, W.fld
    D = W.direct()
    b = W.read()
    b2 = W.read(names=[W.id("t2")])
    b3 = W.read((W.id("c"), W.i64()), (W.id("d"), W.i64()), names=[W.id("t3")])
    pl = lambda r: W.plan(W.prel(r))
    en = lambda p: [(v["name"], v["disc"]) for v in W.adt(p)["variants"]]
    call = lambda *a: W.call(10, *a)
    emits = [("none", None), ("direct", D), ("id", W.emit(0, 1)), ("swap", W.emit(1, 0)), ("first", W.emit(0)), ("second", W.emit(1)), ("dup", W.emit(0, 0)), ("dup2", W.emit(1, 0, 1)), ("empty", W.emit()), ("out", W.emit(0, 99)), ("neg", W.emit(-1)), ("class", W.emit(W.nat("c"))), ("nocase", m("RelCommon")),
             ("id4", W.emit(0, 1, 2, 3)), ("rev4", W.emit(3, 2, 1, 0)), ("id3", W.emit(0, 1, 2)), ("some4", W.emit(2, 0)), ("long", W.emit(*[i % 2 for i in range(14)]))]
    # --- enumerations
    for n, d in en("join_rel::JoinType") + [("77", 77), ("-1", -1)]:
        for en_, em in emits:
            yield P_("join:%s:%s" % (n, en_), pl(W.rel("Join", m("JoinRel", common=em, left=b, right=b2, expression=call(f(0), f(2)), type=d))))
        yield P_("join:%s:post" % n, pl(W.rel("Join", m("JoinRel", common=W.emit(0), left=b, right=b2, expression=call(f(0), f(2)), type=d, post_join_filter=call(f(1))))))
    yield P_("join:noexpr", pl(W.rel("Join", m("JoinRel", common=D, left=b, right=b2, type=1))))
    yield P_("join:noleft", pl(W.rel("Join", m("JoinRel", common=D, right=b2, type=1, expression=f(0)))))
    yield P_("join:noright", pl(W.rel("Join", m("JoinRel", common=D, left=b2, type=1, expression=f(0)))))
    for n, d in en("set_rel::SetOp") + [("77", 77), ("-1", -1)]:
        for k in (0, 1, 2, 3, 5):
            yield P_("set:%s:%d" % (n, k), pl(W.rel("Set", m("SetRel", common=D, op=d, inputs=[W.read(names=[W.id("s%d" % i)]) for i in range(k)]))))
        for en_, em in emits:
            yield P_("set:%s:%s" % (n, en_), pl(W.rel("Set", m("SetRel", common=em, op=d, inputs=[b, b2]))))
    sf = lambda e, d: m("SortField", expr=e, sort_kind=o("sort_field::SortKind", "Direction", d))
    for n, d in en("sort_field::SortDirection") + [("77", 77), ("-1", -1)]:
        yield P_("sort:%s" % n, pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[sf(f(0), d)]))))
        for n2, d2 in en("sort_field::SortDirection"):
            yield P_("sort:%s:%s" % (n, n2), pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[sf(f(1), d), sf(call(f(0)), d2)]))))
    yield P_("sort:nokind", pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[m("SortField", expr=f(0))]))))
    yield P_("sort:compare", pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[m("SortField", expr=f(0), sort_kind=o("sort_field::SortKind", "ComparisonFunctionReference", 10))]))))
    yield P_("sort:noexpr", pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[m("SortField", sort_kind=o("sort_field::SortKind", "Direction", 1))]))))
    for k in (0, 1, 3, 8):
        yield P_("sort:n%d" % k, pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[sf(f(i % 2), 1 + i % 4) for i in range(k)]))))
    # --- emits of the unary relations
    L = lambda n: W.elit("I64", n)
    cm = lambda v, x: o("fetch_rel::CountMode", v, x)
    om = lambda v, x: o("fetch_rel::OffsetMode", v, x)
    for en_, em in emits:
        yield P_("filter:" + en_, pl(W.rel("Filter", m("FilterRel", common=em, input=b, condition=call(f(0))))))
        yield P_("sort-emit:" + en_, pl(W.rel("Sort", m("SortRel", common=em, input=b, sorts=[sf(f(0), 1)]))))
        yield P_("fetch-emit:" + en_, pl(W.rel("Fetch", m("FetchRel", common=em, input=b, count_mode=cm("CountExpr", L(W.nat("c")))))))
        yield P_("cross:" + en_, pl(W.rel("Cross", m("CrossRel", common=em, left=b, right=b2))))
        yield P_("read:" + en_, pl(W.read(common=em)))
        yield P_("virtual-emit:" + en_, pl(W.rel("Read", m("ReadRel", common=em, base_schema=W.schema((W.id("a"), W.i64())), read_type=o("read_rel::ReadType", "VirtualTable",
                 m("read_rel::VirtualTable", expressions=[m("expression::nested::Struct", fields=[L(1)])]))))))
        for k in (0, 1, 2, 3):
            yield P_("project:%d:%s" % (k, en_), pl(W.rel("Project", m("ProjectRel", common=em, input=b, expressions=[call(f(i % 2), L(W.nat("n%d" % i))) for i in range(k)]))))
        yield P_("project:refs:" + en_, pl(W.rel("Project", m("ProjectRel", common=em, input=b, expressions=[f(1), f(0)]))))
        for gk in (0, 1, 2):
            for mk in (0, 1, 2):
                yield P_("aggregate:%d,%d:%s" % (gk, mk, en_), pl(W.rel("Aggregate", m("AggregateRel", common=em, input=b, grouping_expressions=[f(i) for i in range(gk)],
                         groupings=[m("aggregate_rel::Grouping", expression_references=list(range(gk)))] if gk else [], measures=[m("aggregate_rel::Measure", measure=W.measure(10 + i, f(1 - i))) for i in range(mk)]))))
    # --- fetch
    for on, ov in (("none", None), ("expr", om("OffsetExpr", L(W.nat("o")))), ("0", om("Offset", 0)), ("7", om("Offset", 7)), ("class", om("Offset", W.nat("o", 0, 2**63 - 1))), ("-1", om("Offset", -1)), ("call", om("OffsetExpr", call(f(0)))), ("neg", om("OffsetExpr", L(-3))), ("max", om("Offset", 2**63 - 1))):
        for cn, cv in (("none", None), ("expr", cm("CountExpr", L(W.nat("c")))), ("0", cm("Count", 0)), ("7", cm("Count", 7)), ("class", cm("Count", W.nat("c", 0, 2**63 - 1))), ("-1", cm("Count", -1)), ("call", cm("CountExpr", call(f(0)))), ("neg", cm("CountExpr", L(-3))), ("max", cm("Count", 2**63 - 1))):
            yield P_("fetch:%s:%s" % (on, cn), pl(W.rel("Fetch", m("FetchRel", common=D, input=b, offset_mode=ov, count_mode=cv))))
    # --- aggregates
    b4 = W.read(*[(W.id("k%d" % i), W.i64()) for i in range(4)])
    sets = {"[]": [], "0": [[0]], "01": [[0, 1]], "10": [[1, 0]], "0|1": [[0], [1]], "01|0": [[0, 1], [0]], "01|": [[0, 1], []], "|": [[], []], "012|01|0|": [[0, 1, 2], [0, 1], [0], []], "0|0": [[0], [0]], "00": [[0, 0]], "|0": [[], [0]], "1|0": [[1], [0]], "e": [[]], "9": [[9]], "02|12": [[0, 2], [1, 2]]}
    for sn, ss in sets.items():
        used = sorted({x for s in ss for x in s if x < 9})
        for mk in (0, 1, 2):
            for ex in (0, 1):
                ges = [f(x) if not ex else call(f(x)) for x in range(len(used))]
                yield P_("agg:%s:%d:%d" % (sn, mk, ex), pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b4, grouping_expressions=ges, groupings=[m("aggregate_rel::Grouping", expression_references=s) for s in ss],
                         measures=[m("aggregate_rel::Measure", measure=W.measure(10, f(3))) for _ in range(mk)]))))
    dsets = {"0": [[0]], "01": [[0, 1]], "10": [[1, 0]], "00": [[0, 0]], "0|0": [[0], [0]], "0|1": [[0], [1]], "0|01|0": [[0], [0, 1], [0]], "01|10": [[0, 1], [1, 0]], "01|0|1|": [[0, 1], [0], [1], []], "012|01|2|0": [[0, 1, 2], [0, 1], [2], [0]],
             "|0|0|1|0|1": [[], [0], [0], [1], [0], [1]], "||": [[], [], []], "2|0|2": [[2], [0], [2]]}
    for sn, ss in dsets.items():
        for mk in (0, 1):
            for ex in (0, 1):
                for en_, em in (("direct", D), ("none", None), ("first", W.emit(0)), ("rev", W.emit(1, 0))):
                    yield P_("agg-inline:%s:%d:%d:%s" % (sn, mk, ex, en_), pl(W.rel("Aggregate", m("AggregateRel", common=em, input=b4, groupings=[m("aggregate_rel::Grouping", grouping_expressions=[call(f(x)) if ex else f(x) for x in q]) for q in ss],
                             measures=[m("aggregate_rel::Measure", measure=W.measure(11, f(3))) for _ in range(mk)]))))
    yield P_("agg:deprecated", pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b, groupings=[m("aggregate_rel::Grouping", grouping_expressions=[f(0)])]))))
    yield P_("agg:deprecated2", pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b, groupings=[m("aggregate_rel::Grouping", grouping_expressions=[f(0), f(1)]), m("aggregate_rel::Grouping", grouping_expressions=[f(0)])]))))
    for k in (0, 1, 2, 3):
        yield P_("agg:measure-args:%d" % k, pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b4, grouping_expressions=[f(0)], groupings=[m("aggregate_rel::Grouping", expression_references=[0])],
                 measures=[m("aggregate_rel::Measure", measure=W.measure(10, *[f(i) for i in range(k)]))]))))
    yield P_("agg:undeclared", pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b4, measures=[m("aggregate_rel::Measure", measure=W.measure(15, f(0)))]))))
    yield P_("agg:noout", pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b4, measures=[m("aggregate_rel::Measure", measure=W.measure(10, f(0), output_type=None))]))))
    # --- reads
    for k in (1, 2, 3, 5):
        yield P_("read:names%d" % k, pl(W.read(names=[W.id("n%d" % i) for i in range(k)])))
    for k in (0, 1, 2, 3, 7, 16, 33):
        cols = [(W.id("c%d" % i), W.ty(("I64", "String", "Date", "Bool")[i % 4], nullability=1 + i % 2)) for i in range(k)]
        rd = W.rel("Read", m("ReadRel", common=D, base_schema=W.schema(*cols), read_type=o("read_rel::ReadType", "NamedTable", m("read_rel::NamedTable", names=[W.id("t")]))))
        yield P_("read:cols%d" % k, pl(rd))
    for l, v in W.values(W.ty_by_path("substrait::proto::read_rel::ReadType"), "substrait::proto::ReadRel", "read_type"):
        yield P_("read:type:" + l, pl(W.rel("Read", m("ReadRel", common=D, base_schema=W.schema((W.id("a"), W.i64())), read_type=v))))
    yield P_("read:unset", pl(W.rel("Read", m("ReadRel", common=D, base_schema=W.schema((W.id("a"), W.i64()))))))
    nt = o("read_rel::ReadType", "NamedTable", m("read_rel::NamedTable", names=[W.id("t")]))
    yield P_("read:noschema", pl(W.rel("Read", m("ReadRel", common=D, read_type=nt))))
    yield P_("read:nostruct", pl(W.rel("Read", m("ReadRel", common=D, read_type=nt, base_schema=m("NamedStruct", names=[W.id("a")])))))
    ms = lambda nn, tt: m("NamedStruct", names=[W.id("a%d" % i) for i in range(nn)], struct=m("r#type::Struct", types=[W.i64()] * tt, nullability=2))
    for nn in range(4):
        for tt in range(4):
            yield P_("read:schema%d,%d" % (nn, tt), pl(W.rel("Read", m("ReadRel", common=D, read_type=nt, base_schema=ms(nn, tt)))))
    for rows in (0, 1, 2, 3, 4, 5, 8, 20):
        for cols in (0, 1, 2, 3):
            cs = [(W.id("c%d" % i), W.i64()) for i in range(cols)]
            rs = [m("expression::nested::Struct", fields=[L(W.nat("v%d_%d" % (i, j), 0, 2**63 - 1)) for j in range(cols)]) for i in range(rows)]
            v = W.rel("Read", m("ReadRel", common=D, base_schema=W.schema(*cs), read_type=o("read_rel::ReadType", "VirtualTable", m("read_rel::VirtualTable", expressions=rs))))
            yield P_("virtual:%dx%d" % (rows, cols), pl(v))
            if cols == 2:
                vf = W.rel("Read", m("ReadRel", common=D, filter=call(f(0)), base_schema=W.schema(*cs), read_type=o("read_rel::ReadType", "VirtualTable", m("read_rel::VirtualTable", expressions=rs))))
                yield P_("virtual:%dx%d:filter" % (rows, cols), pl(vf))
                yield P_("virtual:%dx%d:nested" % (rows, cols), pl(W.rel("Filter", m("FilterRel", common=D, input=W.rel("Filter", m("FilterRel", common=D, input=v, condition=f(0))), condition=f(1)))))
    for rn, k in (("short", 1), ("long", 3)):
        rs = [m("expression::nested::Struct", fields=[L(i) for i in range(k)])]
        yield P_("virtual:%s" % rn, pl(W.rel("Read", m("ReadRel", common=D, base_schema=ms(2, 2), read_type=o("read_rel::ReadType", "VirtualTable", m("read_rel::VirtualTable", expressions=rs))))))
    lr = [m("expression::literal::Struct", fields=[W.lit("I64", W.nat("w%d" % i, 0, 2**63 - 1))]) for i in range(2)]
    yield P_("virtual:values", pl(W.rel("Read", m("ReadRel", common=D, base_schema=ms(1, 1), read_type=o("read_rel::ReadType", "VirtualTable", m("read_rel::VirtualTable", values=lr))))))
    # --- trees
    un = {"Filter": lambda r: W.rel("Filter", m("FilterRel", common=D, input=r, condition=call(f(0)))),
          "Project": lambda r: W.rel("Project", m("ProjectRel", common=W.emit(0, 2), input=r, expressions=[call(f(1))])),
          "Fetch": lambda r: W.rel("Fetch", m("FetchRel", common=D, input=r, count_mode=cm("CountExpr", L(W.nat("c"))))),
          "Sort": lambda r: W.rel("Sort", m("SortRel", common=D, input=r, sorts=[sf(f(0), 3)])),
          "Aggregate": lambda r: W.rel("Aggregate", m("AggregateRel", common=D, input=r, grouping_expressions=[f(0)], groupings=[m("aggregate_rel::Grouping", expression_references=[0])], measures=[m("aggregate_rel::Measure", measure=W.measure(11, f(1)))]))}
    bi = {"Join": lambda x, y: W.rel("Join", m("JoinRel", common=W.emit(0, 3), left=x, right=y, expression=call(f(0), f(2)), type=1)),
          "Cross": lambda x, y: W.rel("Cross", m("CrossRel", common=W.emit(1, 2), left=x, right=y)),
          "Set": lambda x, y: W.rel("Set", m("SetRel", common=D, op=6, inputs=[x, y])),
          "Set3": lambda x, y: W.rel("Set", m("SetRel", common=D, op=5, inputs=[x, y, b3]))}
    leaf = {"Read": b, "Virtual": W.virtual(2), "Virtual4": W.virtual(4)}
    allr = dict(leaf)
    for n, g in un.items():
        allr[n] = g(b)
    for n, g in bi.items():
        allr[n] = g(b, b2)
    for n, g in un.items():
        for n2, r in allr.items():
            yield P_("tree:%s(%s)" % (n, n2), pl(g(r)))
            yield P_("tree:root %s(%s)" % (n, n2), W.plan(W.root(g(r), W.id("x"), W.id("y"))))
    for n, g in bi.items():
        for n2, r in allr.items():
            yield P_("tree:%s(%s,.)" % (n, n2), pl(g(r, b2)))
            yield P_("tree:%s(.,%s)" % (n, n2), pl(g(b2, r)))
            yield P_("tree:root %s(%s,%s)" % (n, n2, n2), W.plan(W.root(g(r, r), W.id("x"), W.id("y"))))
    for n, r in allr.items():
        for k in (0, 1, 2, 3):
            yield P_("root:%d:%s" % (k, n), W.plan(W.root(r, *[W.id("x%d" % i) for i in range(k)])))
        for n2, r2 in allr.items():
            yield P_("two:%s,%s" % (n, n2), W.plan(W.prel(r), W.prel(r2)))
            yield P_("tworoot:%s,%s" % (n, n2), W.plan(W.root(r, W.id("x")), W.root(r2, W.id("y"))))
    # --- widths: every relation as the input of every relation that passes its input through
    wd = lambda n, t: W.read(*[(W.id("%s%d" % (t, i)), W.i64()) for i in range(n)], names=[W.id(t)])
    kids = {"read%d" % n: wd(n, "r") for n in (1, 3, 5)}
    for n in (1, 3):
        kids["virtual%d" % n] = W.rel("Read", m("ReadRel", common=D, base_schema=W.schema(*[(W.id("v%d" % i), W.i64()) for i in range(n)]), read_type=o("read_rel::ReadType", "VirtualTable", m("read_rel::VirtualTable", expressions=[m("expression::nested::Struct", fields=[L(i) for i in range(n)])]))))
        for k in (0, 2):
            kids["project%d+%d" % (n, k)] = W.rel("Project", m("ProjectRel", common=D, input=wd(n, "p"), expressions=[call(f(0)) for _ in range(k)]))
        kids["project%d none" % n] = W.rel("Project", m("ProjectRel", input=wd(n, "p"), expressions=[call(f(0))]))
        kids["agg%d" % n] = W.rel("Aggregate", m("AggregateRel", common=D, input=wd(3, "g"), grouping_expressions=[f(i) for i in range(n)], groupings=[m("aggregate_rel::Grouping", expression_references=list(range(n)))], measures=[m("aggregate_rel::Measure", measure=W.measure(11, f(1)))]))
        kids["measures%d" % n] = W.rel("Aggregate", m("AggregateRel", common=D, input=wd(3, "g"), measures=[m("aggregate_rel::Measure", measure=W.measure(11, L(i))) for i in range(n)]))
        kids["inline%d" % n] = W.rel("Aggregate", m("AggregateRel", common=D, input=wd(3, "g"), groupings=[m("aggregate_rel::Grouping", grouping_expressions=[f(i) for i in range(n)])]))
        kids["cross%d" % n] = W.rel("Cross", m("CrossRel", common=D, left=wd(n, "l"), right=wd(2, "r")))
        kids["set%d" % n] = W.rel("Set", m("SetRel", common=D, op=6, inputs=[wd(n, "l"), wd(n, "r"), wd(n, "q")]))
        for jn, d in en("join_rel::JoinType"):
            if d:
                kids["join %s%d" % (jn, n)] = W.rel("Join", m("JoinRel", common=D, left=wd(n, "l"), right=wd(4 - n, "r"), expression=f(0), type=d))
    for en_, em in (("1", W.emit(1)), ("3", W.emit(0, 0, 1)), ("0", W.emit())):
        kids["filter emit" + en_] = W.rel("Filter", m("FilterRel", common=em, input=b, condition=f(0)))
        kids["sort emit" + en_] = W.rel("Sort", m("SortRel", common=em, input=b, sorts=[sf(f(0), 1)]))
        kids["fetch emit" + en_] = W.rel("Fetch", m("FetchRel", common=em, input=b, count_mode=cm("CountExpr", L(1))))
        kids["cross emit" + en_] = W.rel("Cross", m("CrossRel", common=em, left=b, right=b2))
        kids["set emit" + en_] = W.rel("Set", m("SetRel", common=em, op=6, inputs=[b, b2]))
        kids["join emit" + en_] = W.rel("Join", m("JoinRel", common=em, left=b, right=b2, expression=f(0), type=1))
        kids["semi emit" + en_] = W.rel("Join", m("JoinRel", common=em, left=b, right=b2, expression=f(0), type=5))
        kids["read emit" + en_] = W.read(common=em)
        kids["agg emit" + en_] = W.rel("Aggregate", m("AggregateRel", common=em, input=b, grouping_expressions=[f(0)], groupings=[m("aggregate_rel::Grouping", expression_references=[0])], measures=[m("aggregate_rel::Measure", measure=W.measure(11, f(1)))]))
        kids["project emit" + en_] = W.rel("Project", m("ProjectRel", common=em, input=b, expressions=[call(f(0))]))
    for kn, k in kids.items():
        yield P_("width:%s" % kn, pl(k))
        for cn, common in (("direct", D), ("none", None)):
            yield P_("width:filter(%s):%s" % (kn, cn), pl(W.rel("Filter", m("FilterRel", common=common, input=k, condition=f(0)))))
            yield P_("width:sort(%s):%s" % (kn, cn), pl(W.rel("Sort", m("SortRel", common=common, input=k, sorts=[sf(f(0), 1)]))))
            yield P_("width:fetch(%s):%s" % (kn, cn), pl(W.rel("Fetch", m("FetchRel", common=common, input=k, count_mode=cm("CountExpr", L(1))))))
            yield P_("width:project(%s):%s" % (kn, cn), pl(W.rel("Project", m("ProjectRel", common=common, input=k, expressions=[call(f(0)), L(2)]))))
            yield P_("width:set(%s):%s" % (kn, cn), pl(W.rel("Set", m("SetRel", common=common, op=6, inputs=[k, k, k]))))
        yield P_("width:cross(%s,b)" % kn, pl(W.rel("Cross", m("CrossRel", common=D, left=k, right=b))))
        yield P_("width:cross(b,%s)" % kn, pl(W.rel("Cross", m("CrossRel", common=D, left=b, right=k))))
        for d in (1, 5, 6, 7, 8, 9, 10, 11, 12):
            yield P_("width:join%d(%s,b)" % (d, kn), pl(W.rel("Join", m("JoinRel", common=D, left=k, right=b, expression=f(0), type=d))))
            yield P_("width:join%d(b,%s)" % (d, kn), pl(W.rel("Join", m("JoinRel", common=D, left=b, right=k, expression=f(0), type=d))))
    r = b
    ks = list(un)
    for i in range(12):
        r = un[ks[i % len(ks)]](r)
    yield P_("tree:deep", pl(r))
    r = b
    for i in range(6):
        r = bi["Join"](r, un["Filter"](b2)) if i % 2 else bi["Cross"](b2, r)
    yield P_("tree:bushy", pl(r))
    for k in (0, 1, 3, 4):
        yield P_("plan:%d" % k, W.plan(*[W.prel(b) if i % 2 else W.root(b, W.id("x")) for i in range(k)]))
    yield P_("plan:mixed", W.plan(W.root(b, W.id("x")), W.prel(b2), W.root(b3, W.id("y"))))
    yield P_("plan:unset", W.plan(m("PlanRel")))
    yield P_("plan:noinput", W.plan(m("PlanRel", rel_type=o("plan_rel::RelType", "Root", m("RelRoot", names=[W.id("x")])))))
    for l, v in W.values(W.ty_by_path("substrait::proto::rel::RelType"), "substrait::proto::Rel", "rel_type"):
        yield P_("rel:" + l, pl(m("Rel", rel_type=v)))
        yield P_("under:" + l, pl(un["Filter"](m("Rel", rel_type=v))))
        yield P_("left:" + l, pl(bi["Cross"](m("Rel", rel_type=v), b2)))
    yield P_("rel:unset", pl(m("Rel")))
    yield P_("under:unset", pl(un["Filter"](m("Rel"))))


# ================================================================ names and strings
def strings(W):
    out = [("id", W.id("z")), ("uni", W.I.C.new("char", "c")), ("empty", "")]
    for c in [chr(x) for x in range(32, 127)] + ["\n", "\t", "\r", "\0", "\x7f", "\x1b", "\u00e9", "\u3000", "\u2028", "\U0001f600", "\u00a0", "\u200b", "\ufeff", "\u00df"]:
        out += [("chr %r" % c, c), ("mid %r" % c, "a" + c + "b"), ("end %r" % c, "a" + c), ("start %r" % c, c + "a")]
    for s in ("a.b", "a b", "a  b", "\\n", "\\\\", "\\\"", "\\'", "a\\", "\\", "''", "\"\"", "\"a\"", "'a'", "u!a", "u!", "a:b", "a:", "a:i64_str", "a#1", "a@1", "#1", "@1", "$0", "&A", "a,b", "a=>b", "=>", "|>", "+>", "[", "]", "a]b", "1a", "_a", "_", "a_", "__", "A", "aB1_",
              "== x", "=== Plan", "a\nb\nc", "  a", "a  ", "a\\nb", "a\\tb", "a\\u{41}", "null", "true", "false", "if_then", "if_then(", "limit", "offset", "filter", "post_filter", "0", "-1", "1.5", "\\r", "a\r\nb", "\n", "\n\n", "é", "日本", "a" * 70, "a" * 300, "- a", "+ Enh:X[]", "Root", "Read", "!{x}", "!{", "{}", "%s", "{0}"):
        out.append(("str %r" % s[:40], s))
    from facts import harvested
    for n in sorted(harvested(W.P)[1]):
        if n < 0x110000 and not 0xD800 <= n < 0xE000:
            c = chr(n)
            out += [("const %r" % c, c), ("const %r" % ("a" + c + "b"), "a" + c + "b")]
    for s in sorted(harvest(W)):
        out.append(("const %r" % s, s))
    seen = {}
    for k, s in out:
        if s not in seen:
            seen[s] = k
            yield k, s


def harvest(W):
    """string constants of the program and of the grammar: names the code could single out"""
    from facts import harvested
    out = set(W.I.peg.G.literals()) | harvested(W.P)[0]
    return {s for s in out if 0 < len(s) <= 24 and "\n" not in s}


def sizes(W, top=400):
    """lengths the code could single out: small ones, powers of two, and around every integer constant of the program"""
    from facts import harvested
    out = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33}
    for n in harvested(W.P)[2]:
        if 2 < n <= top:
            out |= {n - 1, n, n + 1}
    return sorted(out)


def size_family(W):
    """every repeated part, at every length"""
    m, o, f = W.msg, W.one, W.fld
    D = W.direct()
    L = lambda n: W.elit("I64", W.nat(n, 0, 2**63 - 1))
    pl = lambda r: W.plan(W.prel(r))
    b = W.read()
    sf = lambda e, d: m("SortField", expr=e, sort_kind=o("sort_field::SortKind", "Direction", d))
    row = lambda k, i: m("expression::nested::Struct", fields=[L("v%d" % j) for j in range(k)])
    from facts import harvested
    consts = set(harvested(W.P)[2])
    for n in sizes(W):
        big = n > 64
        yield P_("columns:%d" % n, pl(W.read(*[(W.id("c%d" % i), W.i64()) for i in range(n)])) if n else pl(b))
        if n:
            yield P_("emit:%d" % n, pl(W.rel("Filter", m("FilterRel", common=W.emit(*[i % 2 for i in range(n)]), input=b, condition=f(0)))))
            yield P_("project:%d" % n, pl(W.rel("Project", m("ProjectRel", common=W.emit(*range(2, 2 + n)), input=b, expressions=[W.call(10, f(i % 2)) for i in range(n)]))))
            wide = W.read(*[(W.id("w%d" % i), W.i64()) for i in range(n)])
            if 1 < n <= 33 or big and n - 1 in consts:
                for k, mp in (("swap", list(range(n - 2)) + [n - 1, n - 2]), ("last", list(range(n - 1))), ("twice", list(range(n - 1)) + [n - 2]), ("again", list(range(n)) + [n - 1]))[:1 if n > 12 else 4]:
                    yield P_("emit-%s:%d" % (k, n), pl(W.rel("Filter", m("FilterRel", common=W.emit(*mp), input=wide, condition=f(n - 1)))))
                    if not big:
                        yield P_("emit-set-%s:%d" % (k, n), pl(W.rel("Set", m("SetRel", common=W.emit(*mp), op=6, inputs=[wide, wide]))))
                        yield P_("emit-sort-%s:%d" % (k, n), pl(W.rel("Sort", m("SortRel", common=W.emit(*mp), input=wide, sorts=[sf(f(n - 1), 1)]))))
                        yield P_("emit-cross-%s:%d" % (k, n), pl(W.rel("Cross", m("CrossRel", common=W.emit(*mp), left=b, right=wide))))
                        yield P_("emit-read-%s:%d" % (k, n), pl(W.rel("Filter", m("FilterRel", common=D, condition=f(0), input=W.read(*[(W.id("w%d" % i), W.i64()) for i in range(n)], common=W.emit(*mp))))))
                        yield P_("emit-project-%s:%d" % (k, n), pl(W.rel("Project", m("ProjectRel", common=W.emit(*mp), input=b, expressions=[W.call(10, f(i % 2)) for i in range(n - 2)]))))
                        yield P_("emit-measures-%s:%d" % (k, n), pl(W.rel("Aggregate", m("AggregateRel", common=W.emit(*mp), input=b, grouping_expressions=[f(0)], groupings=[m("aggregate_rel::Grouping", expression_references=[0])],
                                                                 measures=[m("aggregate_rel::Measure", measure=W.measure(10, L("a%d" % i))) for i in range(n - 1)]))))
                        yield P_("emit-groups-%s:%d" % (k, n), pl(W.rel("Aggregate", m("AggregateRel", common=W.emit(*mp), input=wide, grouping_expressions=[f(i) for i in range(n)],
                                                               groupings=[m("aggregate_rel::Grouping", expression_references=list(range(n)))]))))
            if n <= 33:
                yield P_("grouping-sets:%d" % n, pl(W.rel("Aggregate", m("AggregateRel", common=D, input=wide, grouping_expressions=[f(i) for i in range(n)],
                                                           groupings=[m("aggregate_rel::Grouping", expression_references=list(range(i + 1))) for i in range(n)]))))
        yield P_("args:%d" % n, pl(W.rel("Filter", m("FilterRel", common=D, input=b, condition=W.call(10, *[f(i % 2) for i in range(n)])))))
        yield P_("literal:%d" % n, pl(W.rel("Filter", m("FilterRel", common=D, input=b, condition=W.elit("String", "a" * n)))))
        yield P_("alike-groups:%d" % n, pl(W.rel("Aggregate", m("AggregateRel", common=W.emit(1, 0), input=b, grouping_expressions=[W.elit("String", "a" * n + "x"), W.elit("String", "a" * n + "y")],
                                                 groupings=[m("aggregate_rel::Grouping", expression_references=[0, 1])]))))
        if n and not big:
            yield P_("column-name:%d" % n, pl(W.read(("n" * n, W.i64()), (W.id("y"), W.i64()))))
            yield P_("function-name:%d" % n, W.plan(W.prel(W.rel("Filter", m("FilterRel", common=D, input=b, condition=W.call(10, f(0))))), decls=[W.decl("Function", 1, 10, "f" * n)]))
            yield P_("digits:%d" % n, pl(W.rel("Filter", m("FilterRel", common=D, input=b, condition=W.elit("I64", int("9" * min(n, 18)))))))
            yield P_("sorts:%d" % n, pl(W.rel("Sort", m("SortRel", common=D, input=b, sorts=[sf(f(i % 2), 1 + i % 4) for i in range(n)]))))
            yield P_("rows:%d" % n, pl(W.rel("Read", m("ReadRel", common=D, base_schema=W.schema((W.id("a"), W.i64()), (W.id("b"), W.i64())), read_type=o("read_rel::ReadType", "VirtualTable", m("read_rel::VirtualTable", expressions=[row(2, i) for i in range(n)]))))))
            yield P_("names:%d" % n, pl(W.read(names=[W.id("n%d" % i) for i in range(n)])))
            yield P_("root:%d" % n, W.plan(W.root(b, *[W.id("x%d" % i) for i in range(n)])))
            yield P_("measures:%d" % n, pl(W.rel("Aggregate", m("AggregateRel", common=D, input=b, grouping_expressions=[f(0)], groupings=[m("aggregate_rel::Grouping", expression_references=[0])],
                                                                 measures=[m("aggregate_rel::Measure", measure=W.measure(10, f(i % 2))) for i in range(n)]))))
            yield P_("groups:%d" % n, pl(W.rel("Aggregate", m("AggregateRel", common=D, input=W.read(*[(W.id("k%d" % i), W.i64()) for i in range(n)]), grouping_expressions=[f(i) for i in range(n)],
                                                               groupings=[m("aggregate_rel::Grouping", expression_references=list(range(n)))]))))
            yield P_("ifs:%d" % n, pl(W.rel("Filter", m("FilterRel", common=D, input=b, condition=W.ex("IfThen", m("expression::IfThen", ifs=[m("expression::if_then::IfClause", **{"if": f(0), "then": L("t%d" % i)}) for i in range(n)], **{"else": f(1)}))))))
            yield P_("decls:%d" % n, W.plan(W.prel(b), urns=[W.urn(1 + i, W.id("u%d" % i)) for i in range(n)], decls=[W.decl(("Function", "Type", "TypeVariation")[i % 3], 1 + i, 1 + i, W.id("d%d" % i)) for i in range(n)]))
            if n > 1:
                yield P_("inputs:%d" % n, pl(W.rel("Set", m("SetRel", common=D, op=6, inputs=[W.read(names=[W.id("s%d" % i)]) for i in range(n)]))))
                yield P_("inputs-deep:%d" % n, pl(W.rel("Set", m("SetRel", common=D, op=6, inputs=[W.rel("Filter", m("FilterRel", common=D, input=W.read(names=[W.id("s%d" % i)]), condition=f(i % 2))) for i in range(n)]))))
            yield P_("relations:%d" % n, W.plan(*[W.prel(W.read(names=[W.id("s%d" % i)])) for i in range(n)]))
        if n and n <= 33:
            r = b
            for i in range(n):
                r = W.rel("Filter", m("FilterRel", common=D, input=r, condition=f(i % 2)))
            yield P_("depth:%d" % n, pl(r))
            e = f(0)
            for i in range(n):
                e = W.call(10, e)
            yield P_("calls:%d" % n, pl(W.rel("Filter", m("FilterRel", common=D, input=b, condition=e))))
            t = W.i64()
            for i in range(min(n, 12)):
                t = W.ty("List", type=t, nullability=1 + i % 2)
            yield P_("lists:%d" % n, pl(W.read((W.id("a"), t))))


def name_family(W):
    """every string, at every position of a plan that holds one"""
    m, o, f = W.msg, W.one, W.fld
    pl = lambda r, **k: W.plan(W.prel(r), **k)
    u = [W.urn(1, W.id("u1"))]
    E = "extensions::"
    small = ("project",)
    for v in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 3)] + [(a, b, c) for n in (9, 10, 255, 256, 65535, 65536, 2**31, 2**32 - 1) for a, b, c in ((n, 1, 2), (1, n, 2), (1, 2, n))]:
        for g in range(4):
            yield P_("version:%d.%d.%d:%d" % (*v, g), W.plan(W.prel(W.read()), urns=[], decls=[], version=m("Version", major_number=v[0], minor_number=v[1], patch_number=v[2], producer=W.id("pr") if g & 1 else "", git_hash=W.id("gh") if g & 2 else "")))
    for k, s in strings(W):
        bare = not (k.startswith("const") and s != s.strip())  # declarations end at the line's end: blanks around a declared name are covered above
        # a name is paired with a plain one, so that a string leaking out of its place is seen
        yield P_("table:" + k, pl(W.read(names=[s]), decls=[], urns=[]))
        yield P_("table2:" + k, pl(W.read(names=[W.id("q"), s]), decls=[], urns=[]))
        yield P_("column:" + k, pl(W.read((s, W.i64()), (W.id("b"), W.ty("String", nullability=1))), decls=[], urns=[]))
        yield P_("root:" + k, W.plan(W.root(W.read(), s, W.id("y")), decls=[], urns=[]))
        yield P_("literal:" + k, pl(W.rel("Filter", m("FilterRel", common=W.direct(), input=W.read(), condition=W.elit("String", s))), decls=[], urns=[]))
        yield P_("rowlit:" + k, pl(W.rel("Read", m("ReadRel", common=W.direct(), base_schema=W.schema((W.id("a"), W.ty("String")), (W.id("b"), W.ty("String"))), read_type=o("read_rel::ReadType", "VirtualTable",
                 m("read_rel::VirtualTable", expressions=[m("expression::nested::Struct", fields=[W.elit("String", s), W.elit("String", W.id("w"))])])))), decls=[], urns=[]))
        if not bare:
            continue
        yield P_("urn:" + k, W.plan(W.prel(W.read()), urns=[W.urn(1, s)], decls=[]))
        yield P_("function:" + k, W.plan(W.prel(W.rel("Filter", m("FilterRel", common=W.direct(), input=W.read(), condition=W.call(10, f(0))))), urns=u, decls=[W.decl("Function", 1, 10, s)]))
        yield P_("type:" + k, W.plan(W.prel(W.read((W.id("a"), W.ty("UserDefined", type_reference=20)))), urns=u, decls=[W.decl("Type", 1, 20, s)]))
        yield P_("variation:" + k, W.plan(W.prel(W.read()), urns=u, decls=[W.decl("TypeVariation", 1, 30, s)]))
        for g in ((0, 1) if s else ()):
            yield P_("producer:%s:%d" % (k, g), W.plan(W.prel(W.read()), urns=[], decls=[], version=m("Version", minor_number=7, producer=s, git_hash=W.id("gh") if g else "")))
            yield P_("githash:%s:%d" % (k, g), W.plan(W.prel(W.read()), urns=[], decls=[], version=m("Version", minor_number=7, git_hash=s, producer=W.id("pr") if g else "")))


# ================================================================ extension declarations and references
def ext_family(W):
    m, o, f = W.msg, W.one, W.fld
    fil = lambda e: W.prel(W.rel("Filter", m("FilterRel", common=W.direct(), input=W.read(), condition=e)))
    col = lambda a: W.prel(W.read((W.id("a"), W.ty("UserDefined", type_reference=a))))
    u = lambda n: [W.urn(i + 1, W.id("u%d" % i)) for i in range(n)]
    D = W.decl
    for n in (0, 1, 2, 3, 9):
        yield P_("urns:%d" % n, W.plan(fil(f(0)), urns=u(n), decls=[]))
        for kind in ("Function", "Type", "TypeVariation"):
            yield P_("decls:%s:%d" % (kind, n), W.plan(fil(f(0)), urns=u(2), decls=[D(kind, 1 + i % 2, 10 + i, W.id("d%d" % i)) for i in range(n)]))
    # anchors
    for an, a in (("0", 0), ("1", 1), ("9", 9), ("99", 99), ("100", 100), ("1000", 1000), ("max", 2**32 - 1), ("class", W.nat("anchor", 100000, 2**32 - 1)), ("2^31", 2**31)):
        yield P_("fanchor:" + an, W.plan(fil(W.call(a, f(0))), urns=u(1), decls=[D("Function", 1, a, W.id("d"))]))
        yield P_("tanchor:" + an, W.plan(col(a), urns=u(1), decls=[D("Type", 1, a, W.id("d"))]))
        yield P_("vanchor:" + an, W.plan(fil(f(0)), urns=u(1), decls=[D("TypeVariation", 1, a, W.id("d"))]))
        yield P_("uanchor:" + an, W.plan(fil(W.call(10, f(0))), urns=[W.urn(a, W.id("u"))], decls=[D("Function", a, 10, W.id("d"))]))
    # the same name declared more than once
    sigs = ["eq", "eq:", "eq:any_any", "eq:i64_i64", "eq:u!json_str", "ne:any_any", "e", "eqq", "EQ"]
    for i, a in enumerate(sigs):
        for j, b in enumerate(sigs):
            for uu in (1, 2):
                ds = [D("Function", 1, 10, a), D("Function", uu, 11, b)]
                for ref in (10, 11):
                    yield P_("sig:%s,%s@%d:%d" % (a, b, uu, ref), W.plan(fil(W.call(ref, f(0))), urns=u(2), decls=ds))
        yield P_("sig:%s" % a, W.plan(fil(W.call(10, f(0))), urns=u(1), decls=[D("Function", 1, 10, a)]))
        yield P_("sigm:%s" % a, W.plan(W.prel(W.rel("Aggregate", m("AggregateRel", common=W.direct(), input=W.read(), measures=[m("aggregate_rel::Measure", measure=W.measure(10, f(1)))]))), urns=u(1), decls=[D("Function", 1, 10, a)]))
    for a, b in (("json", "json"), ("u!json", "json"), ("json", "u!json"), ("u!json", "u!json"), ("json", "xml"), ("i64", "xml"), ("list", "xml"), ("string", "s"), ("date", "d"), ("i64x", "i64y"), ("struct", "map"), ("timestampx", "timex"), ("u!i64", "x"), ("interval_dayx", "interval_yearly"), ("List", "MAP"), ("listx", "maps"), ("Date", "I64"), ("time_of_day", "i640")):
        for uu in (1, 2):
            for ref in (20, 21):
                yield P_("tname:%s,%s@%d:%d" % (a, b, uu, ref), W.plan(col(ref), urns=u(2), decls=[D("Type", 1, 20, a), D("Type", uu, 21, b)]))
                yield P_("tname?:%s,%s@%d:%d" % (a, b, uu, ref), W.plan(W.prel(W.read((W.id("a"), W.ty("UserDefined", type_reference=ref, nullability=1)), (W.id("b"), W.ty("List", type=W.ty("UserDefined", type_reference=ref))))), urns=u(2), decls=[D("Type", 1, 20, a), D("Type", uu, 21, b)]))
    par = lambda v, x: m("r#type::Parameter", parameter=o("r#type::parameter::Parameter", v, x))
    for a in ("json", "list", "List", "map", "struct", "STRUCT", "precisiontime", "precisiontimestamp", "precisiontimestamptz", "interval_day", "i64", "timestampx", "lists", "decimal", "fixedchar", "varchar", "fixedbinary", "interval_compound"):
        for pn, ps in (("t", [par("DataType", W.i64())]), ("tt", [par("DataType", W.i64()), par("DataType", W.ty("String", nullability=1))]), ("i", [par("Integer", 3)]), ("ii", [par("Integer", 3), par("Integer", 4)])):
            for n in (1, 2):
                yield P_("tparam:%s<%s>:%d" % (a, pn, n), W.plan(W.prel(W.read((W.id("a"), W.ty("UserDefined", type_reference=20, nullability=n, type_parameters=ps)))), urns=u(2), decls=[D("Type", 1, 20, a)]))
    three = [D("Function", 1, 10, W.id("n")), D("Function", 2, 11, W.id("n")), D("Function", 3, 12, W.id("n"))]
    for r in (10, 11, 12):
        yield P_("three:%d" % r, W.plan(fil(W.call(r, f(0))), urns=u(3), decls=three))
    for kind, kind2 in (("Function", "Type"), ("Function", "TypeVariation"), ("Type", "TypeVariation")):
        for same_anchor in (0, 1):
            ds = [D(kind, 1, 10, W.id("n")), D(kind2, 1, 10 if same_anchor else 11, W.id("n"))]
            yield P_("kinds:%s,%s:%d" % (kind, kind2, same_anchor), W.plan(fil(f(0)), urns=u(1), decls=ds))
            yield P_("kindsref:%s,%s:%d" % (kind, kind2, same_anchor), W.plan(fil(W.call(10, f(0))) if kind == "Function" else col(10), urns=u(1), decls=ds))
    # inconsistent declarations
    yield P_("bad:dup-urn", W.plan(fil(f(0)), urns=[W.urn(1, W.id("a")), W.urn(1, W.id("b"))], decls=[]))
    yield P_("bad:dup-urn-same", W.plan(fil(f(0)), urns=[W.urn(1, W.id("a")), W.urn(1, W.id("a"))], decls=[]))
    yield P_("urn-twice", W.plan(fil(f(0)), urns=[W.urn(1, W.id("a")), W.urn(2, W.id("a"))], decls=[]))
    for kind in ("Function", "Type", "TypeVariation"):
        yield P_("bad:dup-anchor:" + kind, W.plan(fil(f(0)), urns=u(1), decls=[D(kind, 1, 10, W.id("a")), D(kind, 1, 10, W.id("b"))]))
        yield P_("bad:dup-decl:" + kind, W.plan(fil(f(0)), urns=u(1), decls=[D(kind, 1, 10, W.id("a")), D(kind, 1, 10, W.id("a"))]))
        yield P_("bad:nourn:" + kind, W.plan(fil(f(0)), urns=u(1), decls=[D(kind, 7, 10, W.id("a"))]))
        yield P_("bad:nourns:" + kind, W.plan(fil(f(0)), urns=[], decls=[D(kind, 1, 10, W.id("a"))]))
    yield P_("bad:undeclared-f", W.plan(fil(W.call(77, f(0)))))
    yield P_("bad:undeclared-t", W.plan(col(77)))
    yield P_("bad:f-as-t", W.plan(col(10)))
    yield P_("bad:t-as-f", W.plan(fil(W.call(20, f(0)))))
    yield P_("bad:nomapping", W.plan(fil(f(0)), decls=[m("extensions::SimpleExtensionDeclaration")]))
    yield P_("uris", W.plan(fil(f(0)), extension_uris=[m("extensions::SimpleExtensionUri", extension_uri_anchor=1, uri=W.id("x"))]) if any(x[0] == "extension_uris" for x in W.adt("Plan")["variants"][0]["fields"]) else W.plan(fil(f(0))))


# ================================================================ output options
def opt_family(W):
    """every output option, alone and in pairs, over plans that use every construct"""
    a = W.adt("textify::foundation::OutputOptions")
    vis = W.adt("textify::foundation::Visibility")
    base = W.opts
    fields = [(n, W.P.types[t]) for n, t, _ in a["variants"][0]["fields"]]
    choices = []
    for i, (n, t) in enumerate(fields):
        if t.s == "bool":
            vs = [("on" if x else "off", ("i", x)) for x in (0, 1)]
        elif t.k == "adt" and t.p.endswith("Visibility"):
            vs = [(v["name"], ("adt", vis["path"], j, ())) for j, v in enumerate(vis["variants"])]
        elif t.p == "std::string::String":
            vs = [(repr(s), ("s", s)) for s in ("", " ", "  ", "    ", "\t")]
        else:
            vs = [(str(x), ("i", x)) for x in (0, 1, 2, 3, 4, 5, 2**64 - 1)]
        choices.append([(n + "=" + l, i, v) for l, v in vs])
    m, o, f = W.msg, W.one, W.fld
    plans = [(n, W.plan(W.root(r, W.id("x")))) for n, r in W.rels()]
    plans.append(("Virtual4", W.plan(W.root(W.virtual(4), W.id("x")))))
    plans.append(("Virtual0", W.plan(W.root(W.virtual(0), W.id("x")))))
    lits = [W.elit("I32", W.nat("n")), W.elit("String", W.id("s")), W.elit("Boolean", True), W.elit("Fp64", 1.5), W.elit("Fp32", 0.5), W.elit("I8", 5), W.elit("Date", 19000), W.elit("Null", W.ty("I64", nullability=1)), W.elit("I64", 5, nullable=True),
            W.call(10, W.elit("I64", W.nat("m", 0, 2**63 - 1)), out=W.ty("String", nullability=1)), W.ex("Cast", m("expression::Cast", type=W.ty("UserDefined", type_reference=20, nullability=1), input=f(0)))]
    plans.append(("Literals", W.plan(W.prel(W.rel("Project", m("ProjectRel", common=W.emit(*range(2, 2 + len(lits))), input=W.read((W.id("a"), W.ty("I64", nullability=1)), (W.id("b"), W.ty("UserDefined", type_reference=20))), expressions=lits))))))
    plans.append(("Binary", W.plan(W.prel(W.rel("Filter", m("FilterRel", common=W.direct(), input=W.read(), condition=W.elit("Binary", bytes([0, 255]))))))))
    plans.append(("Emit", W.plan(W.prel(W.rel("Filter", m("FilterRel", common=W.emit(1, 0), input=W.read(common=W.emit(1, 0)), condition=f(0)))))))
    dup = [W.decl("Function", 1, 10, W.id("n")), W.decl("Function", 2, 11, W.id("n"))]
    plans.append(("SameName", W.plan(W.prel(W.rel("Filter", m("FilterRel", common=W.direct(), input=W.read(), condition=W.call(11, f(0))))), decls=dup)))
    flat = [c for cs in choices for c in cs]

    def opts(*cs):
        fs = list(base[3])
        for _, i, v in cs:
            fs[i] = v
        return ("adt", base[1], base[2], tuple(fs))
    for c in flat:
        for pn, p in plans:
            yield P_("%s|%s" % (c[0], pn), p, opts(c))
    for i, c in enumerate(flat):
        for d in flat[i + 1:]:
            if c[1] != d[1] and c[2] != base[3][c[1]] and d[2] != base[3][d[1]] and c[1] < d[1]:
                for pn, p in plans:
                    if pn in ("Read", "Aggregate", "Virtual4", "Literals", "SameName", "Project"):
                        yield P_("%s,%s|%s" % (c[0], d[0], pn), p, opts(c, d))
    allon = [cs[-1] for cs in choices]
    for pn, p in plans:
        yield P_("last|" + pn, p, opts(*allon))


FAMS = {"expressions": expr_family, "relations": rel_family, "names": name_family, "declarations": ext_family, "options": opt_family, "sizes": size_family}
