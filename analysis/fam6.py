"""What a text denotes: texts paired with the plan they mean, by tables that do not come from the crate (calendar arithmetic, enumerator names,
positions).  Both directions are decided: the text is read as the plan ("means"), and the plan is written as the text ("shows")."""
import datetime
from exact import *
from scen import *
from fam4 import S_, HEAD, reg

EPOCH = datetime.date(1970, 1, 1).toordinal()


def days(y, m, d):
    return datetime.date(y, m, d).toordinal() - EPOCH


DATES = [(1970, 1, 1), (1970, 1, 2), (1969, 12, 31), (2000, 2, 29), (2000, 3, 1), (1900, 2, 28), (1900, 3, 1), (2024, 5, 6), (2024, 11, 3), (2024, 2, 29), (2023, 12, 31), (1600, 2, 29), (1582, 10, 10), (1, 1, 1), (9999, 12, 31), (2038, 1, 20)]
TIMES = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 2, 3), (12, 34, 56), (23, 59, 59), (10, 5, 45)]
FRACS = ["", "0", "1", "5", "25", "500", "123", "120", "012", "001", "999", "123456", "100000", "000001", "123456789", "000000001", "999999999", "120000000"]


def literals(W):
    """(key, text of the literal, literal kind, value, canonical)"""
    m = W.msg
    for y, mo, d in DATES:
        n = days(y, mo, d)
        yield "date %d-%d-%d" % (y, mo, d), "'%04d-%02d-%02d':date" % (y, mo, d), "Date", n, True
        yield "date %d/%d/%d" % (y, mo, d), "'%04d/%02d/%02d':date" % (y, mo, d), "Date", n, False
    for k, (h, mi, s) in enumerate(TIMES):
        for j, f in enumerate(FRACS):
            t = "%02d:%02d:%02d" % (h, mi, s)
            y, mo, d = DATES[(k * 5 + j) % len(DATES)]
            sec = h * 3600 + mi * 60 + s
            for p in (0, 3, 6, 9):
                if len(f.rstrip("0")) > p or (j + k) % 2 and p != 6:
                    continue
                u = int(f.ljust(p, "0")[:p] or "0")
                x = t + ("." + f if f else "")
                can = len(f) == p
                v = sec * 10**p + u
                w = (days(y, mo, d) * 86400 + sec) * 10**p + u
                # years in which the count of units fits 64 bits
                fits = -2**63 <= w < 2**63
                if p == 6:
                    yield "time " + x, "'%s':time" % x, "Time", v, can
                    if fits:
                        dt = "%04d-%02d-%02d" % (y, mo, d)
                        yield "timestamp %s %s" % (dt, x), "'%sT%s':timestamp" % (dt, x), "Timestamp", w, can
                yield "ptime %d %s" % (p, x), "'%s':precisiontime<%d>" % (x, p), "PrecisionTime", m("expression::literal::PrecisionTime", precision=p, value=v), can
                if fits:
                    n = 0
                    for df in ("%04d-%02d-%02d", "%04d/%02d/%02d"):
                        for sep in "T ":
                            z = (df % (y, mo, d)) + sep + x
                            for ty, K in (("precisiontimestamp", "PrecisionTimestamp"), ("precisiontimestamptz", "PrecisionTimestampTz")):
                                n += 1
                                if n > 1 and (j + k + n) % 3:
                                    continue
                                yield "%s %d %s" % (ty, p, z), "'%s':%s<%d>" % (z, ty, p), K, m("expression::literal::PrecisionTimestamp", precision=p, value=w), can and n < 3
    unit = {0: "", 3: "ms", 6: "us", 9: "ns", 12: "ps"}
    ids = "expression::literal::interval_day_to_second::PrecisionMode"
    for p in unit:
        for d in (0, 1, -1, 400, 3640000, -3640000, 2**31 - 1, -2**31):
            for s in (0, 1, -7, 86400, 90061, -90061):
                for u in (0, 1, -3, 10**p - 1) if p else (0,):
                    if (d, s, u) == (0, 0, 0) or (d + s + u + p) % 4 and 0 not in (d, s, u):
                        continue
                    ts = ["%d%s" % (n, x) for n, x in ((d, "d"), (s, "s"), (u, unit[p])) if n]
                    v = m("expression::literal::IntervalDayToSecond", days=d, seconds=s, subseconds=u, precision_mode=W.one(ids, "Precision", p))
                    yield "interval %d %s" % (p, " ".join(ts)), "'%s':interval_day<%d>" % (" ".join(ts), p), "IntervalDayToSecond", v, abs(d) < 3650000
                    if d == 0:
                        yield "interval %d 0d %s" % (p, " ".join(ts)), "'0d %s':interval_day<%d>" % (" ".join(ts), p), "IntervalDayToSecond", v, False
    for x, y, K, can in (("0", "", "I64", True), ("12", "", "I64", True), ("-12", "", "I64", True), ("12", ":i64", "I64", False), ("-128", ":i8", "I8", True), ("127", ":i8", "I8", True), ("-300", ":i16", "I16", True), ("70000", ":i32", "I32", True),
                         ("9223372036854775807", "", "I64", True), ("-9223372036854775808", "", "I64", True)):
        yield "int %s%s" % (x, y), x + y, K, int(x), can
    for x, y, K, can in (("1.5", "", "Fp64", True), ("-0.25", "", "Fp64", True), ("100.0", "", "Fp64", True), ("0.1", "", "Fp64", True), ("1.5", ":fp64", "Fp64", False), ("2.5", ":fp32", "Fp32", True), ("-1024.125", ":fp32", "Fp32", True),
                         ("123456789.125", "", "Fp64", True)):
        yield "float %s%s" % (x, y), x + y, K, float(x), can
    for x, y, v, can in (("true", "", True, True), ("false", "", False, True), ("true", ":boolean", True, False), ("false", ":boolean", False, False)):
        yield "bool %s%s" % (x, y), x + y, "Boolean", v, can
    for k, x, v in (("plain", "abc", "abc"), ("empty", "", ""), ("quote", "it\\'s", "it's"), ("nl", "a\\nb", "a\nb"), ("tab", "a\\tb", "a\tb"), ("bs", "a\\\\nb", "a\\nb"), ("accent", "\u00e9\u4e16", "\u00e9\u4e16"), ("sp", " a  b ", " a  b "),
                    ("cr", "\\r", "\r")):
        yield "string " + k, "'%s'" % x, "String", v, k not in ("nul",)
        yield "string typed " + k, "'%s':string" % x, "String", v, False


SIMPLE = {"boolean": "Bool", "i8": "I8", "i16": "I16", "i32": "I32", "i64": "I64", "fp32": "Fp32", "fp64": "Fp64", "string": "String", "binary": "Binary", "timestamp": "Timestamp", "timestamp_tz": "TimestampTz", "date": "Date", "time": "Time",
          "interval_year": "IntervalYear", "uuid": "Uuid"}


def types(W):
    for w, k in SIMPLE.items():
        for q, n in (("", 2), ("?", 1)):
            yield w + q, W.ty(k, nullability=n)
            yield "list%s<%s>" % (q, w), W.ty("List", type=W.ty(k, nullability=2), nullability=n)
            yield "list<list%s<%s?>>" % (q, w), W.ty("List", type=W.ty("List", type=W.ty(k, nullability=1), nullability=n), nullability=2)
    for w, k in (("precisiontimestamp", "PrecisionTimestamp"), ("precisiontimestamptz", "PrecisionTimestampTz"), ("precisiontime", "PrecisionTime"), ("interval_day", "IntervalDay")):
        for p in (0, 3, 6, 9, 12):
            for q, n in (("", 2), ("?", 1)):
                yield "%s%s<%d>" % (w, q, p), W.ty(k, precision=p, nullability=n)


def denote_family(W):
    r = reg(W)
    a, b, t = W.id("a"), W.id("b"), W.id("t")
    m, o = W.msg, W.one
    rd = lambda: W.read()
    R = "  Read[%s => %s:i64, %s:i64]\n" % (t, a, b)
    D = W.direct()

    L = lambda n: W.elit("I64", n)

    def decl(*rels, **kw):
        return W.plan(*rels, urns=[W.urn(1, "urn:a"), W.urn(2, "urn:b")], decls=[W.decl("Function", 1, 10, "f"), W.decl("Function", 2, 11, "g"), W.decl("Type", 1, 20, "T")], **kw)

    def both(k, text, rel, can=True):
        plan = decl(W.prel(rel))
        yield S_("means|" + k, "means", HEAD + "=== Plan\n" + text, plan, r)
        if can:
            yield S_("shows|" + k, "shows", plan, HEAD + "=== Plan\n" + text, r)

    # literals
    for k, x, K, v, can in literals(W):
        proj = W.rel("Project", m("ProjectRel", common=W.emit(2), input=rd(), expressions=[W.elit(K, v)]))
        yield from both("lit " + k, "Project[%s]\n%s" % (x, R), proj, can)
    # types
    for x, v in types(W):
        yield from both("type " + x, "Read[%s => %s:%s]\n" % (t, a, x), W.read((a, v)), True)
    # keywords of joins, sets, sorts, casts
    for K, msg, ty, f in (("Join", "JoinRel", "join_rel::JoinType", "type"), ("Set", "SetRel", "set_rel::SetOp", "op")):
        for v in W.adt(ty_path(W, ty))["variants"]:
            if v["name"] == "Unspecified":
                continue
            if K == "Join":
                rel = W.rel("Join", m("JoinRel", common=W.emit(1), left=rd(), right=rd(), expression=W.elit("Boolean", True), type=v["disc"]))
                yield from both("join " + v["name"], "Join[&%s, true => $1]\n%s%s" % (v["name"], R, R), rel, True)
            else:
                rel = W.rel("Set", m("SetRel", common=W.emit(1), inputs=[rd(), rd()], op=v["disc"]))
                yield from both("set " + v["name"], "Set[&%s => $1]\n%s%s" % (v["name"], R, R), rel, True)
    for v in W.adt(ty_path(W, "sort_field::SortDirection"))["variants"]:
        if v["name"] != "Unspecified":
            rel = W.rel("Sort", m("SortRel", common=W.emit(1), input=rd(), sorts=[m("SortField", expr=W.fld(1), sort_kind=o("sort_field::SortKind", "Direction", v["disc"]))]))
            yield from both("sort " + v["name"], "Sort[($1, &%s) => $1]\n%s" % (v["name"], R), rel, True)
    for v, mark in (("Unspecified", ""), ("ReturnNull", "?"), ("ThrowException", "!")):
        d = [x["disc"] for x in W.adt(ty_path(W, "expression::cast::FailureBehavior"))["variants"] if x["name"] == v][0]
        rel = W.rel("Project", m("ProjectRel", common=W.emit(2), input=rd(), expressions=[W.ex("Cast", m("expression::Cast", type=W.ty("I32", nullability=2), input=W.fld(1), failure_behavior=d))]))
        yield from both("cast " + v, "Project[($1)::%si32]\n%s" % (mark, R), rel, True)
    # positions
    for i in (0, 1):
        rel = W.rel("Filter", m("FilterRel", common=W.emit(1 - i), input=rd(), condition=W.call(10, W.fld(i))))
        yield from both("filter %d" % i, "Filter[f($%d):i64 => $%d]\n%s" % (i, 1 - i, R), rel)
    rel = W.rel("Project", m("ProjectRel", common=W.emit(2, 1, 3), input=rd(), expressions=[W.fld(0), L(5)]))
    yield from both("project", "Project[$0, $1, 5]\n" + R, rel, False)
    rel = W.rel("Project", m("ProjectRel", common=W.emit(2, 1), input=rd(), expressions=[L(5)]))
    yield from both("project ref", "Project[5, $1]\n" + R, rel)
    g = lambda *e: m("aggregate_rel::Grouping", expression_references=list(e))
    ms = lambda *e: m("aggregate_rel::Measure", measure=W.measure(*e))
    rel = W.rel("Aggregate", m("AggregateRel", common=W.emit(1, 0), input=rd(), groupings=[g(0)], grouping_expressions=[W.fld(1)], measures=[ms(11, W.fld(0))]))
    yield from both("aggregate", "Aggregate[$1 => g($0):i64, $1]\n" + R, rel)
    rel = W.rel("Aggregate", m("AggregateRel", common=D, input=rd(), groupings=[g(0, 1), g(1), g()], grouping_expressions=[W.fld(0), W.fld(1)], measures=[ms(11)]))
    yield from both("aggregate sets", "Aggregate[($0, $1), ($1), _ => $0, $1, g():i64]\n" + R, rel)
    yield from both("virtual", "Read:Virtual[(1, 2), (3, 4) => %s:i64, %s:i64]\n" % (a, b), W.rel("Read", m("ReadRel", common=D, base_schema=W.schema((a, W.i64()), (b, W.i64())), read_type=o("read_rel::ReadType", "VirtualTable",
                    m("read_rel::VirtualTable", expressions=[m("expression::nested::Struct", fields=[L(1), L(2)]), m("expression::nested::Struct", fields=[L(3), L(4)])])))))
    yield from both("read", "Read[%s.%s => %s:i64, %s:string?]\n" % (t, W.id("u"), b, a), W.read((b, W.i64()), (a, W.ty("String", nullability=1)), names=[t, W.id("u")]))
    for k, u in (("root", W.root(rd(), W.id("x"), W.id("y"))),):
        plan = decl(u)
        text = HEAD + "=== Plan\nRoot[%s, %s]\n%s" % (W.id("x"), W.id("y"), R)
        yield S_("means|root", "means", text, plan, r)
        yield S_("shows|root", "shows", plan, text, r)
    v = m("Version", major_number=1, minor_number=2, patch_number=3, producer="p q", git_hash="")
    yield S_("means|version", "means", "=== Version 1.2.3\n  producer: p q\n" + HEAD + "=== Plan\n" + R[2:], decl(W.prel(rd()), version=some(v)), r)
    yield S_("shows|version", "shows", decl(W.prel(rd()), version=some(v)), "=== Version 1.2.3\n  producer: p q\n" + HEAD + "=== Plan\n" + R[2:], r)
    E = lambda k, n: o("fetch_rel::" + k + "Mode", k + "Expr", W.elit("I64", n))
    for lim, off in ((None, 3), (7, None), (7, 3), (0, 0)):
        kw = {}
        if lim is not None:
            kw["count_mode"] = E("Count", lim)
        if off is not None:
            kw["offset_mode"] = E("Offset", off)
        x = ", ".join(s for s in ("limit=%d" % lim if lim is not None else "", "offset=%d" % off if off is not None else "") if s)
        yield from both("fetch %s %s" % (lim, off), "Fetch[%s => $1]\n%s" % (x, R), W.rel("Fetch", m("FetchRel", common=W.emit(1), input=rd(), **kw)), True)
    # order of inputs
    t2, t3 = W.id("t2"), W.id("t3")
    RA, RB = R.replace(t, t2), R.replace(t, t3)
    for K, text, rel in (("Join", "Join[&Left, f($0, $2):i64 => $0, $3]\n", lambda x, y: m("JoinRel", common=W.emit(0, 3), left=x, right=y, expression=W.call(10, W.fld(0), W.fld(2)), type=join_disc(W, "Left"))),
                         ("Cross", "Cross[$0, $3]\n", lambda x, y: m("CrossRel", common=W.emit(0, 3), left=x, right=y)),
                         ("Set", "Set[&UnionAll => $1]\n", lambda x, y: m("SetRel", common=W.emit(1), inputs=[x, y], op=[v["disc"] for v in W.adt(ty_path(W, "set_rel::SetOp"))["variants"] if v["name"] == "UnionAll"][0]))):
        yield from both("inputs " + K, text + RA + RB, W.rel(K, rel(W.read(names=[t2]), W.read(names=[t3]))), False)
    # expressions
    cl = lambda c, x: m("expression::if_then::IfClause", **{"if": c, "then": x})
    ift = W.ex("IfThen", m("expression::IfThen", ifs=[cl(W.fld(0), L(1)), cl(W.fld(1), L(2))], **{"else": L(3)}))
    yield from both("if", "Project[if_then($0 -> 1, $1 -> 2, _ -> 3)]\n" + R, W.rel("Project", m("ProjectRel", common=W.emit(2), input=rd(), expressions=[ift])), True)
    yield from both("call", "Project[f($1, 7, $0):i64]\n" + R, W.rel("Project", m("ProjectRel", common=W.emit(2), input=rd(), expressions=[W.call(10, W.fld(1), L(7), W.fld(0))])), False)
    yield from both("null", "Project[null:i64?]\n" + R, W.rel("Project", m("ProjectRel", common=W.emit(2), input=rd(), expressions=[W.elit("Null", W.ty("I64", nullability=1))])), True)


def ty_path(W, n):
    from families import PB
    return PB + n


def join_disc(W, n):
    return [v["disc"] for v in W.adt(ty_path(W, "join_rel::JoinType"))["variants"] if v["name"] == n][0]


FAMS = {"denote": denote_family}
