"""Families of abstract plans: base plans per construct, and single deviations from them derived from the message definitions."""
import chronox
from exact import *
from scen import *

# i32 fields of messages that hold an enumeration (prost keeps enumerations as i32)
ENUMS = {
    ("*", "nullability"): "r#type::Nullability", ("JoinRel", "type"): "join_rel::JoinType", ("SetRel", "op"): "set_rel::SetOp",
    ("expression::Cast", "failure_behavior"): "expression::cast::FailureBehavior", ("AggregateFunction", "phase"): "AggregationPhase",
    ("AggregateFunction", "invocation"): "aggregate_function::AggregationInvocation", ("sort_field::SortKind", "Direction"): "sort_field::SortDirection",
}


class Sc:
    """one scenario: key names the construct, kind the question asked about it"""
    __slots__ = ("key", "kind", "args")

    def __init__(self, key, kind, *args):
        self.key, self.kind, self.args = key, kind, args


def P_(key, plan, *a):
    return Sc(key, "plan", plan, *a)


class Families(World):
    def __init__(self, I):
        super().__init__(I)
        import fam3
        fam3.install(self)

    # ------------------------------------------------------------ samples of message types
    def sample(self, path):
        """a well-formed value of a message, where the default is not one"""
        p = path[len(PB):] if path.startswith(PB) else path
        if p == "Expression":
            return self.fld(0)
        if p == "Type":
            return self.i64()
        if p == "expression::Literal":
            return self.lit("I32", 5)
        if p == "Rel":
            return self.read()
        if p == "RelCommon":
            return self.direct()
        if p == "NamedStruct":
            return self.schema((self.id("a"), self.i64()))
        if p == "r#type::Struct":
            return self.msg(p, types=[self.i64()], nullability=2)
        if p == "expression::FieldReference":
            return self.fref(0)
        if p == "FunctionArgument":
            return self.arg(self.fld(0))
        if p == "SortField":
            return self.msg(p, expr=self.fld(0), sort_kind=self.one("sort_field::SortKind", "Direction", 1))
        if p == "FunctionOption":
            return self.msg(p, name="opt", preference=["pref"])
        if p == "aggregate_rel::Measure":
            return self.msg(p, measure=self.measure(10, self.fld(0)))
        if p == "AggregateFunction":
            return self.measure(10, self.fld(0))
        if p == "aggregate_rel::Grouping":
            return self.msg(p, expression_references=[0])
        if p == "r#type::Parameter":
            return self.msg(p, parameter=self.one("r#type::parameter::Parameter", "Integer", 3))
        if p == "expression::if_then::IfClause":
            return self.msg(p, **{"if": self.fld(0), "then": self.fld(1)})
        if p == "extensions::SimpleExtensionDeclaration":
            return self.decl("Function", 1, 12, "h")
        if p == "extensions::SimpleExtensionUrn":
            return self.urn(3, "u3")
        if p == "PlanRel":
            return self.prel(self.read())
        if p == "Version":
            return self.msg(p, minor_number=5)
        if p in ("expression::literal::Struct",):
            return self.msg(p, fields=[self.lit("I32", 5)])
        if p in ("expression::nested::Struct",):
            return self.msg(p, fields=[self.fld(0)])
        return None

    def measure(self, anchor, *args, **kw):
        kw.setdefault("output_type", self.i64())
        return self.msg("AggregateFunction", function_reference=anchor, arguments=[self.arg(a) for a in args], **kw)

    def values(self, t, owner, field, depth=0):
        """values of a field type that differ from its default, -> [(label, value)]"""
        p = t.p
        if p == OPT:
            return [("Some" + ("" if l in ("+", "sample") else "(%s)" % l), some(v)) for l, v in self.values(t.arg(0), owner, field, depth)] if depth < 3 else []
        if p == "std::boxed::Box":
            return [(l, ("box", v)) for l, v in self.values(t.arg(0), owner, field, depth)]
        if p == "std::vec::Vec":
            if t.arg(0).s == "u8":
                return [("+", ("arr", (("i", 1), ("i", 2))))]
            return [("1" + ("" if l in ("+", "sample") else "(%s)" % l), ("arr", (v,))) for l, v in self.values(t.arg(0), owner, field, depth)]
        if p == "std::string::String":
            return [("+", ("s", "zq"))]
        if t.k == "prim":
            if t.s == "bool":
                return [("+", ("i", 1))]
            if t.s in ("f64", "f32"):
                return [("+", ("fl", 2.5))]
            e = ENUMS.get((self.name_of(owner), field)) or ENUMS.get(("*", field))
            if e and t.s == "i32":
                return [(v["name"], ("i", v["disc"])) for v in self.adt(e)["variants"]] + [("77", ("i", 77))]
            return [("+", ("i", 7))] + ([("-", ("i", -7))] if t.s.startswith("i") else [])
        if t.k == "adt" and p.startswith(("substrait::", "pbjson_types::", "prost_types::")):
            a = self.P.adts[t.adt]
            if a["kind"] == "struct":
                out = [("default", self.I.default_of(t))]
                s = self.sample(p)
                if s is not None:
                    out.append(("sample", s))
                return out
            out = []
            for i, v in enumerate(a["variants"]):
                ft = self.P.types[v["fields"][0][1]]
                d = self.I.default_of(ft)
                if d is not None:
                    out.append((v["name"], ("adt", p, i, (d,))))
                for l, x in self.values(ft, p, v["name"], depth + 1):
                    out.append(("%s(%s)" % (v["name"], l), ("adt", p, i, (x,))))
            return out
        return []

    # ------------------------------------------------------------ deviations
    def devs(self, v, t, owner="Plan", field="", at=""):
        """every abstract plan that differs from v in one field: (key, value)"""
        if v[0] == "box":
            for k, x in self.devs(v[1], t.arg(0), owner, field, at):
                yield k, ("box", x)
            return
        if v[0] == "adt" and v[1] == OPT:
            if v[2] == 1:
                yield at + "=None", none()
                for k, x in self.devs(v[3][0], t.arg(0), owner, field, at):
                    yield k, some(x)
            else:
                for l, x in self.values(t.arg(0), owner, field):
                    yield "%s=Some%s" % (at, "" if l in ("+", "sample") else "(%s)" % l), some(x)
            return
        if v[0] == "arr":
            if t.arg(0).s == "u8":
                yield at + "=[]", ("arr", ())
                return
            if v[1]:
                yield at + "=[]", ("arr", ())
                if len(v[1]) > 1:
                    yield at + "-=last", ("arr", v[1][:-1])
                    yield at + "=reversed", ("arr", v[1][::-1])
                yield at + "+=dup", ("arr", v[1] + v[1][-1:])
                for i, x in enumerate(v[1]):
                    for k, y in self.devs(x, t.arg(0), owner, field, at + "[]"):
                        yield k, ("arr", v[1][:i] + (y,) + v[1][i + 1:])
            for l, x in self.values(t.arg(0), owner, field):
                yield "%s+=%s" % (at, l), ("arr", v[1] + (x,))
            return
        if v[0] == "adt" and t.k == "adt":
            a = self.P.adts[t.adt]
            if a["kind"] == "struct":
                for i, (n, ft, _) in enumerate(a["variants"][0]["fields"]):
                    n = n.replace("r#", "")
                    ft = self.P.types[ft]
                    here = "%s.%s" % (self.name_of(v[1]), n)
                    for k, x in self.devs(v[3][i], ft, v[1], n, here):
                        yield k, ("adt", v[1], v[2], v[3][:i] + (x,) + v[3][i + 1:])
                return
            for l, x in self.values(t, owner, field):
                if x != v and x[2] != v[2]:
                    yield "%s=%s" % (at, l), x
            vn = a["variants"][v[2]]
            if vn["fields"]:
                for k, x in self.devs(v[3][0], self.P.types[vn["fields"][0][1]], v[1], vn["name"], at + ":" + vn["name"]):
                    yield k, ("adt", v[1], v[2], (x,))
            return
        if v[0] in ("i", "s", "fl", "iv"):
            d = self.I.default_of(t)
            if v != d:
                yield at + "=default", d
            for l, x in self.values(t, owner, field):
                if x != v:
                    yield "%s=%s" % (at, l), x

    def shallow(self, v, t, owner, field, at):
        """the deviations of one field of a message that do not change what its value contains"""
        if v[0] == "box" or (v[0] == "adt" and v[1] == OPT and v[2] == 1):
            if v[0] == "adt":
                yield at + "=None", none()
            i = v[1] if v[0] == "box" else v[3][0]
            while i[0] == "box":
                i = i[1]
            if i[0] == "adt" and self.P.adt_by_path[i[1]]["kind"] == "struct":
                return
            for k, x in self.shallow(v[1] if v[0] == "box" else v[3][0], t.arg(0), owner, field, at):
                yield k, (("box", x) if v[0] == "box" else some(x))
            return
        if v[0] == "arr" and t.arg(0).s != "u8":
            if v[1]:
                yield at + "=[]", ("arr", ())
                yield at + "+=dup", ("arr", v[1] + v[1][-1:])
                return
            for l, x in self.values(t.arg(0), owner, field):
                yield "%s+=%s" % (at, l), ("arr", v[1] + (x,))
            return
        if v[0] == "adt" and v[1] != OPT and t.k == "adt":
            if self.P.adts[t.adt]["kind"] == "struct":
                return
            for l, x in self.values(t, owner, field):
                if x != v and x[2] != v[2]:
                    yield "%s=%s" % (at, l), x
            return
        yield from self.devs(v, t, owner, field, at)

    def pairs(self, v, t):
        """every abstract plan that differs from v in two fields of one message: (key, value)"""
        if v[0] == "box" or (v[0] == "adt" and v[1] == OPT):
            if v[0] == "box" or v[2] == 1:
                for k, x in self.pairs(v[1] if v[0] == "box" else v[3][0], t.arg(0)):
                    yield k, (("box", x) if v[0] == "box" else some(x))
        elif v[0] == "arr" and t.arg(0).s != "u8":
            for i, x in enumerate(v[1]):
                for k, y in self.pairs(x, t.arg(0)):
                    yield k, ("arr", v[1][:i] + (y,) + v[1][i + 1:])
        elif v[0] == "adt" and t.k == "adt":
            a = self.P.adts[t.adt]
            va = a["variants"][v[2]]
            for i, (n, ft, _) in enumerate(va["fields"]):
                for k, x in self.pairs(v[3][i], self.P.types[ft]):
                    yield k, ("adt", v[1], v[2], v[3][:i] + (x,) + v[3][i + 1:])
            if a["kind"] == "struct" and v[1].startswith(PB):
                ds = []
                for i, (n, ft, _) in enumerate(va["fields"]):
                    n = n.replace("r#", "")
                    for k, x in self.shallow(v[3][i], self.P.types[ft], v[1], n, "%s.%s" % (self.name_of(v[1]), n)):
                        if not any(s in k for s in LOST):
                            ds.append((i, k, x))
                for i, k, x in ds:
                    for j, l, y in ds:
                        if i < j:
                            fs = list(v[3])
                            fs[i], fs[j] = x, y
                            yield "%s & %s" % (k, l), ("adt", v[1], v[2], tuple(fs))

    # ------------------------------------------------------------ base plans per relation
    def rels(self):
        """one or more base relations per supported kind: (name, rel)"""
        m, o = self.msg, self.one
        b = self.read()
        c = self.call(10, self.fld(0), self.elit("I64", self.nat("n", 0, 2**63 - 1)))
        D = self.direct()
        yield "Read", b
        yield "Filter", self.rel("Filter", m("FilterRel", common=D, input=b, condition=c))
        yield "Project", self.rel("Project", m("ProjectRel", common=self.emit(2, 0), input=b, expressions=[self.call(11, self.fld(1))]))
        yield "Join", self.rel("Join", m("JoinRel", common=D, left=b, right=self.read(names=[self.id("t2")]), expression=self.call(10, self.fld(0), self.fld(2)), type=1))
        yield "Cross", self.rel("Cross", m("CrossRel", common=D, left=b, right=self.read(names=[self.id("t2")])))
        yield "Set", self.rel("Set", m("SetRel", common=D, inputs=[b, self.read(names=[self.id("t2")])], op=6))
        L = lambda n: self.elit("I64", n)
        yield "Fetch", self.rel("Fetch", m("FetchRel", common=D, input=b, offset_mode=o("fetch_rel::OffsetMode", "OffsetExpr", L(self.nat("o"))),
                                           count_mode=o("fetch_rel::CountMode", "CountExpr", L(self.nat("c")))))
        yield "Sort", self.rel("Sort", m("SortRel", common=D, input=b, sorts=[m("SortField", expr=self.fld(0), sort_kind=o("sort_field::SortKind", "Direction", 1)),
                                                                           m("SortField", expr=self.fld(1), sort_kind=o("sort_field::SortKind", "Direction", 4))]))
        yield "Aggregate", self.rel("Aggregate", m("AggregateRel", common=D, input=b, groupings=[m("aggregate_rel::Grouping", expression_references=[0])],
                                                   grouping_expressions=[self.fld(0)], measures=[m("aggregate_rel::Measure", measure=self.measure(10, self.fld(1)))]))
        yield "Virtual", self.virtual(2)

    def more_rels(self):
        """the base relations, and ones with the remaining expressions, types and shapes"""
        yield from self.rels()
        m, o = self.msg, self.one
        b = self.read()
        proj = lambda *e: self.rel("Project", m("ProjectRel", common=self.emit(*range(2, 2 + len(e))), input=b, expressions=list(e)))
        cast = lambda e: self.ex("Cast", m("expression::Cast", type=self.ty("I32", nullability=1), input=e, failure_behavior=1))
        clause = lambda c, t: m("expression::if_then::IfClause", **{"if": c, "then": t})
        yield "Cast", proj(cast(self.fld(0)))
        yield "IfThen", proj(self.ex("IfThen", m("expression::IfThen", ifs=[clause(self.fld(0), self.elit("I64", 1)), clause(self.call(10, self.fld(1)), self.fld(0))], **{"else": self.elit("I64", 2)})))
        yield "NoArgs", proj(self.call(10))
        yield "Distinct", self.rel("Aggregate", m("AggregateRel", common=self.emit(1, 0), input=b, groupings=[m("aggregate_rel::Grouping", expression_references=[0]), m("aggregate_rel::Grouping")],
                                                  grouping_expressions=[self.fld(0)], measures=[m("aggregate_rel::Measure", measure=self.measure(10))]))
        L = lambda k, v: self.elit(k, v)
        PT = "expression::literal::PrecisionTimestamp"
        yield "Literals", proj(L("PrecisionTimestamp", m(PT, precision=6, value=1500000)), L("IntervalDayToSecond", m("expression::literal::IntervalDayToSecond", days=1, seconds=2, subseconds=3, precision_mode=o("expression::literal::interval_day_to_second::PrecisionMode", "Precision", 6))),
                               L("Date", 3), L("Fp32", 1.5), L("Null", self.ty("String", nullability=1)), L("String", "a"), L("Boolean", True))
        par = lambda v, x: m("r#type::Parameter", parameter=o("r#type::parameter::Parameter", v, x))
        yield "Types", self.read((self.id("a"), self.ty("List", type=self.ty("List", type=self.ty("String", nullability=1), nullability=2), nullability=1)),
                                 (self.id("b"), self.ty("PrecisionTimestamp", precision=3, nullability=1)), (self.id("e"), self.ty("PrecisionTimestampTz", precision=9, nullability=2)),
                                 (self.id("c"), self.ty("UserDefined", type_reference=20, type_parameters=[par("DataType", self.i64()), par("DataType", self.ty("Date", nullability=1))], nullability=1)),
                                 (self.id("d"), self.ty("IntervalDay", precision=6, nullability=2)))

    def virtual(self, n, *cols):
        cols = cols or ((self.id("a"), self.i64()), (self.id("b"), self.i64()))
        rows = [self.msg("expression::nested::Struct", fields=[self.elit("I64", self.nat("v%d_%d" % (i, j), 0, 2**63 - 1)) for j in range(len(cols))]) for i in range(n)]
        return self.rel("Read", self.msg("ReadRel", common=self.direct(), base_schema=self.schema(*cols),
                                         read_type=self.one("read_rel::ReadType", "VirtualTable", self.msg("read_rel::VirtualTable", expressions=rows))))

    # ------------------------------------------------------------ meaning
    def zero(self, v):
        return self.I.default_of(self.ty_by_path(v[1])) if v[0] == "adt" else None

    def ty_by_path(self, p):
        if not hasattr(self, "_tbp"):
            self._tbp = {t.p: t for t in self.P.types if t.k == "adt"}
        return self._tbp[p]

    def field(self, v, f):
        ad = self.P.adt_by_path[v[1]]
        return v[3][[x[0].replace("r#", "") for x in ad["variants"][v[2]]["fields"]].index(f)]

    def with_field(self, v, f, x):
        ad = self.P.adt_by_path[v[1]]
        i = [x[0].replace("r#", "") for x in ad["variants"][v[2]]["fields"]].index(f)
        return ("adt", v[1], v[2], v[3][:i] + (x,) + v[3][i + 1:])

    def case(self, v):
        """variant name of an optional oneof"""
        if v[0] == "adt" and v[1] == OPT:
            if v[2] == 0:
                return None
            v = v[3][0]
        while v[0] == "box":
            v = v[1]
        return self.P.adt_by_path[v[1]]["variants"][v[2]]["name"]

    def with_body(self, r, g):
        """r with its message replaced by g(message)"""
        if r[0] == "box":
            return ("box", self.with_body(r[1], g))
        if r[1] == OPT:
            return some(self.with_body(r[3][0], g))
        kk = r[3][0][3][0]
        b = kk[3][0]
        m2 = ("box", g(b[1])) if b[0] == "box" else g(b)
        return ("adt", r[1], r[2], (some(("adt", kk[1], kk[2], (m2,))),) + r[3][1:])

    def rel_case(self, r):
        """(case name, message) of a Rel value, through Option and Box"""
        while r[0] == "box" or (r[0] == "adt" and r[1] == OPT and r[2] == 1):
            r = r[1] if r[0] == "box" else r[3][0]
        if r[0] != "adt" or r[1] != PB + "Rel":
            return None
        k = r[3][0]
        if k[0] != "adt" or k[1] != OPT or k[2] == 0:
            return None
        k = k[3][0]
        m = k[3][0]
        while m[0] == "box":
            m = m[1]
        return self.P.adt_by_path[k[1]]["variants"][k[2]]["name"], m

    def mapping(self, m):
        """output mapping of a relation message: a tuple of indices, or None when its output is direct"""
        c = self.field(m, "common")
        if c == none():
            return None
        e = self.field(c[3][0], "emit_kind")
        if self.case(e) != "Emit":
            return None
        a = self.field(e[3][0][3][0], "output_mapping")
        return tuple(x[1] if x[0] == "i" else x for x in a[1])

    def direct_width(self, r):
        """number of columns a relation has before its emit, or None"""
        c = self.rel_case(r)
        if c is None:
            return None
        k, m = c
        if k == "Read":
            s = self.field(m, "base_schema")
            return len(self.field(s[3][0], "names")[1]) if s != none() else None
        if k.startswith("Extension"):
            d = self.field(m, "detail")
            if d != none():
                d = self.field(d[3][0], "value")
                if d[0] == "x" and d[1] == "enc" and d[2][0][0] == "adt":
                    a = self.adt("extensions::args::ExtensionArgs")
                    return len(dict(zip([f[0] for f in a["variants"][0]["fields"]], d[2][0][3]))["output_columns"][1])
        if k in ("Filter", "Sort", "Fetch", "ExtensionSingle"):
            return self.width(self.field(m, "input"))
        if k == "Project":
            w = self.width(self.field(m, "input"))
            return None if w is None else w + len(self.field(m, "expressions")[1])
        if k in ("Join", "Cross"):
            a, b = self.width(self.field(m, "left")), self.width(self.field(m, "right"))
            if a is None or b is None:
                return None
            if k == "Join":
                t = self.field(m, "type")
                n = {v["disc"]: v["name"] for v in self.adt("join_rel::JoinType")["variants"]}.get(t[1] if t[0] == "i" else None)
                if n is None:
                    return None
                side = a if n.startswith("Left") else b
                if n.endswith(("Semi", "Anti", "Single")):
                    return side
                if n.endswith("Mark"):
                    return side + 1
            return a + b
        if k == "Set":
            i = self.field(m, "inputs")[1]
            return self.width(i[0]) if i else None
        if k == "Aggregate":
            o = self.agg_outputs(m, False)
            return len(o[0]) if o else None
        return None

    def width(self, r):
        c = self.rel_case(r)
        if c is None:
            return None
        e = self.mapping(c[1])
        return self.direct_width(r) if e is None else len(e)

    def agg_outputs(self, m, resolve=True):
        """(output columns, grouping sets as lists of expressions) of an aggregate"""
        ge = list(self.field(m, "grouping_expressions")[1])
        sets = []
        for g in self.field(m, "groupings")[1]:
            ds, rs = self.field(g, "grouping_expressions")[1], self.field(g, "expression_references")[1]
            if ds and rs:
                return None
            if ds:
                for d in ds:
                    if d not in ge:
                        ge.append(d)
                sets.append(list(ds))
            else:
                if any(x[0] != "i" or not 0 <= x[1] < len(ge) for x in rs):
                    return None
                sets.append([ge[x[1]] for x in rs])
        out = [("group", e) for e in ge] + [("measure", x) for x in self.field(m, "measures")[1]]
        if len(sets) > 1:
            out.append(("setid",))
        return out, sets or [[]]

    def outputs(self, r):
        """a Rel whose emit is resolved: columns no consumer can see are gone, and an identity mapping is a direct output"""
        c = self.rel_case(r)
        if c is None:
            return None
        k, m = c
        e, w = self.mapping(m), self.direct_width(r)
        if e is not None and (w is None or any(not isinstance(x, int) or not 0 <= x < w for x in e)):
            return None
        tag = lambda *x: ("tup", tuple(x))
        if k == "Project" and w is not None:
            n = w - len(self.field(m, "expressions")[1])
            cols = [self.fld(i) for i in range(n)] + [self.norm(x) for x in self.field(m, "expressions")[1]]
            m2 = self.with_field(m, "expressions", ("arr", tuple(cols[i] for i in (range(w) if e is None else e))))
        elif k == "Aggregate" and w is not None:
            o, sets = self.agg_outputs(m)
            cols = [tag(("s", x[0]), *[self.norm(y) for y in x[1:]]) for x in o]
            m2 = self.with_field(m, "measures", ("arr", tuple(cols[i] for i in (range(w) if e is None else e))))
            m2 = self.with_field(m2, "grouping_expressions", ("arr", ()))
            m2 = self.with_field(m2, "groupings", ("arr", tuple(("arr", tuple(sorted({self.norm(x) for x in s}, key=repr))) for s in sets)))
        elif e is not None and e == tuple(range(w)):
            m2 = m
        else:
            return None
        cm = self.field(m, "common")
        if cm != none():
            m2 = self.with_field(m2, "common", some(self.with_field(cm[3][0], "emit_kind", none())))
        kk = r[3][0][3][0]
        body = kk[3][0]
        return ("adt", r[1], r[2], (some(("adt", kk[1], kk[2], (("box", m2) if body[0] == "box" else m2,))),) + r[3][1:])

    def norm(self, v):
        """canonical form: spellings the protocol defines as the same plan"""
        if v[0] == "adt" and v[1] == PB + "Rel":
            r = self.outputs(v)
            v = r if r is not None else v
        if v[0] == "adt" and v[1].startswith(PB):
            ad = self.P.adt_by_path[v[1]]
            names = [f[0].replace("r#", "") for f in ad["variants"][v[2]]["fields"]]
            fs = [self.norm(x) for x in v[3]]
            n = self.name_of(v[1])
            if ad["kind"] == "struct" and "common" in names:
                i = names.index("common")
                if fs[i] == none():
                    fs[i] = some(self.direct())
            sub = lambda f, g: fs.__setitem__(names.index(f), g(fs[names.index(f)])) if f in names else None
            unset = lambda v: none() if v[0] == "adt" and v[1] == OPT and v[2] == 1 and v[3][0] == self.zero(v[3][0]) else v
            for f in ("advanced_extension", "hint", "version", "advanced_extensions"):
                sub(f, unset)
            if n == "Plan":
                # the declarations of a plan are a set
                for f in ("extension_urns", "extensions"):
                    sub(f, lambda v: ("arr", tuple(sorted(v[1], key=repr))) if v[0] == "arr" else v)
            if n == "NamedStruct":
                # a schema is not itself a nullable value
                sub("struct", lambda v: some(self.with_field(v[3][0], "nullability", ("i", 2))) if v[2] == 1 else v)
                nm = ("adt", v[1], v[2], tuple(fs))
                # and one without any column is empty, written or not
                sub("struct", lambda v: some(self.msg("r#type::Struct", nullability=2)) if v[2] == 0 and self.field(nm, "names") == ("arr", ()) else v)
            if n == "AggregateRel" and self.field(v, "groupings") == ("arr", ()) and self.field(v, "grouping_expressions") == ("arr", ()):
                # no grouping and one empty grouping set both aggregate everything
                fs[names.index("groupings")] = ("arr", (self.msg("aggregate_rel::Grouping"),))
            if n == "expression::Literal" and self.case(self.field(v, "literal_type")) == "Null":
                # the type of a null already says it is nullable
                fs[names.index("nullable")] = ("i", 0)
            if n == "expression::literal::IntervalDayToSecond":
                pm = self.case(fs[names.index("precision_mode")])
                if pm != "Precision":
                    if pm == "Microseconds":
                        fs[names.index("subseconds")] = fs[names.index("precision_mode")][3][0][3][0]
                    fs[names.index("precision_mode")] = some(self.one("expression::literal::interval_day_to_second::PrecisionMode", "Precision", 6))
            if n == "extensions::simple_extension_declaration::ExtensionType":
                # the u! prefix marks user-defined types, it is not part of the name
                sub("name", lambda v: ("s", v[1][2:]) if v[0] == "s" and v[1].startswith("u!") else v)
            if n == "AggregateFunction":
                # the protocol defines what leaving these unspecified implies
                sub("invocation", lambda v: ("i", 0) if v == ("i", 1) else v)
                sub("phase", lambda v: ("i", 0) if v == ("i", 4) else v)
            if n == "r#type::Kind" and ad["variants"][v[2]]["name"] == "UserDefinedTypeReference":
                # deprecated spelling of a required type without variation or parameters
                return self.one("r#type::Kind", "UserDefined", self.msg("r#type::UserDefined", type_reference=fs[0], nullability=2))
            if n == "r#type::IntervalDay" and fs[names.index("precision")] == none():
                fs[names.index("precision")] = some(("i", 6))
            if n == "RelCommon":
                i = names.index("emit_kind")
                if fs[i] == none():
                    fs[i] = some(self.one("rel_common::EmitKind", "Direct", self.msg("rel_common::Direct")))
            if n in ("fetch_rel::OffsetMode", "fetch_rel::CountMode") and ad["variants"][v[2]]["name"] in ("Offset", "Count"):
                k = ad["variants"][v[2]]["name"] + "Expr"
                return self.one(n, k, self.elit("I64", fs[0]))
            return ("adt", v[1], v[2], tuple(fs))
        if v[0] == "adt" and v[1].endswith("extensions::args::ExtensionValue") and self.P.adt_by_path[v[1]]["variants"][v[2]]["name"] == "Expr":
            # an untyped scalar argument is the same as the default literal expression of that value (documented at TryFrom<&ExtensionValue> for Expr)
            e = v[3][0]
            while e[0] == "box" or e[0] == "adt" and e[1].endswith("extensions::args::Expr"):
                e = e[1] if e[0] == "box" else e[3][0]
            k = self.case(self.field(e, "rex_type"))
            if k == "Literal":
                l = self.field(e, "rex_type")[3][0][3][0]
                lt = self.field(l, "literal_type")
                s = {"I64": "Integer", "Fp64": "Float", "String": "String", "Boolean": "Boolean"}.get(self.case(lt))
                if s and self.field(l, "nullable") == ("i", 0) and self.field(l, "type_variation_reference") == ("i", 0):
                    return self.ev(s, lt[3][0][3][0])
        ks = kids(v)
        return rebuild(v, [self.norm(x) for x in ks]) if ks else v

    def fixed(self, v, con):
        """v with the class symbols a path has pinned to one value replaced by it"""
        pins = {k[1]: c[0] for k, c in con.items() if c[0] == c[1]}
        if not pins:
            return v
        def go(x):
            if x[0] == "iv":
                return ("i", pins[x[3]]) if x[3] in pins else x
            ks = kids(x)
            return rebuild(x, [go(y) for y in ks]) if ks else x
        return go(v)

    # ------------------------------------------------------------ verdicts
    def trip(self, plan, opts=None, reg=None, norm=None):
        """-> list of (verdict, detail, text): same / reported / differs / rejected / undecided / panic, and unmarked / overmarked for the error markers"""
        I = self.I
        I.steps = 0
        out = []
        norm = norm or self.norm
        n0 = len(I.panics)
        I.vague = I.forked = 0
        sure = lambda v, d, x: (v, d, x) if not I.vague else ("undecided", v + ": " + d, x)
        try:
            fs = self.format_st(plan, opts, reg)
            for p in I.panics[n0:]:
                out.append(sure("panic", "%s: %s" % p[:2], None))
            n0 = len(I.panics)
            for text, errs, st in fs:
                if text is None or errs[0] != "arr" or has_opaque(errs) and not errs[1]:
                    out.append(("undecided", "text of the plan", None))
                    continue
                if errs[1]:
                    out.append(("reported", self.brief(errs)[:400], text))
                    if "!{" not in text and "\u2049" not in text:
                        out.append(sure("unmarked", self.brief(errs)[:400], text))
                    continue
                if any(x in text and x not in repr(plan) for x in ("!{", "\u2049")):
                    out.append(sure("overmarked", "", text))
                con = {k: v for k, v in st.items() if k[0] == "con"}
                res = self.parse(text, reg, con)
                for p in I.panics[n0:]:
                    out.append(sure("panic", "%s: %s" % p[:2], text))
                n0 = len(I.panics)
                for r in res:
                    if r[0] != "adt" or r[1] != RES:
                        out.append(("undecided", "parse result", text))
                    elif r[2] == 1:
                        out.append(sure("rejected", self.brief(r[3][0])[:400], text))
                    else:
                        d = self.diff(norm(self.fixed(plan, con)), norm(self.fixed(r[3][0], con)))
                        if d is None:
                            out.append(("same", "", text))
                        elif has_opaque(r[3][0]):
                            out.append(("undecided", str(d), text))
                        else:
                            out.append(sure("differs", "%s: %s became %s" % d, text))
        except Imprecise as e:
            I.stack.clear()
            I.fid = 0
            out.append(("undecided", str(e), None))
        if I.vague == 0 and not out:
            out.append(("undecided", "no path", None))
        return out


    # ------------------------------------------------------------ texts
    def guard(self, f):
        I = self.I
        I.steps = 0
        I.vague = I.forked = 0
        n0 = len(I.panics)
        out = []
        try:
            f(out)
        except Imprecise as e:
            I.stack.clear()
            I.fid = 0
            out.append(("undecided", str(e), None))
        for p in I.panics[n0:]:
            out.append(("panic", "%s: %s" % p[:2], None))
        if I.vague:
            out = [x if x[0] in ("same", "reported", "ok", "err") else ("undecided", x[0] + ": " + x[1], x[2]) for x in out]
        return out or [("undecided", "no path", None)]

    def err_line(self, e):
        """(line number, line) of a parse error value"""
        if e[0] == "adt" and e[1].endswith("::ParseContext"):
            n, l = e[3]
            while l[0] in ("sref", "box"):
                l = l[1]
            return (n[1] if n[0] == "i" else None, l[1] if l[0] == "s" else None)
        for x in kids(e):
            r = self.err_line(x)
            if r is not None:
                return r
        return None

    def judge_err(self, text, line=None, reg=None):
        """the text has to be refused, with a report on the given line"""
        def f(out):
            for r in self.parse(text, reg):
                if r[0] != "adt" or r[1] != RES:
                    out.append(("undecided", "parse result", text))
                elif r[2] == 0:
                    out.append(("accepted", self.brief(r[3][0])[:300], text))
                elif line is None:
                    out.append(("err", "", text))
                else:
                    n = self.err_line(r[3][0])
                    if n is None or n[0] is None:
                        out.append(("unlocated", "no line in " + self.brief(r[3][0])[:300], text))
                        continue
                    if n[0] not in line:
                        out.append(("mislocated", "line %s reported, the offending line is %s" % (n[0], " or ".join(map(str, line))), text))
                        continue
                    want = text.replace("\r\n", "\n").split("\n")[n[0] - 1]
                    if n[1] is not None and n[1].strip() != want.strip() and want.strip() not in n[1]:
                        out.append(("misquoted", "line %r reported as %r" % (want, n[1]), text))
                    else:
                        out.append(("err", "", text))
        return self.guard(f)

    def judge_eq(self, text, ref, reg=None):
        """the two texts are spellings of one plan"""
        def f(out):
            if getattr(self, "_base", (None,))[0] != ref:
                self._base = (ref, self.plan_of(ref, reg))
            want = self._base[1]
            if want is None:
                out.append(("undecided", "reference text", ref))
                return
            for r in self.parse(text, reg):
                if r[0] != "adt" or r[1] != RES:
                    out.append(("undecided", "parse result", text))
                elif r[2] == 1:
                    out.append(("rejected", self.brief(r[3][0])[:300], text))
                else:
                    d = self.diff(self.norm(want), self.norm(r[3][0]))
                    out.append(("same", "", text) if d is None else ("undecided" if has_opaque(r[3][0]) else "differs", "%s: %s became %s" % d, text))
        return self.guard(f)

    def plan_of(self, text, reg=None):
        rs = self.parse(text, reg)
        return rs[0][3][0] if len(rs) == 1 and rs[0][0] == "adt" and rs[0][1] == RES and rs[0][2] == 0 else None

    def again(self, plan, reg, text, out):
        """a plan the parser built is written without an issue, as text that reads as the same plan"""
        if has_opaque(plan):
            out.append(("undecided", "opaque plan", text))
            return
        for t2, errs, st in self.format_st(plan, None, reg):
            if t2 is None or errs[0] != "arr":
                out.append(("undecided", "text of the plan", text))
            elif errs[1]:
                out.append(("unwritable", "accepted, but the plan cannot be written back: " + self.shown(t2).split("=== Plan\n")[-1][:200], text))
            else:
                for q in self.parse(t2, reg):
                    if q[0] != "adt" or q[1] != RES:
                        out.append(("undecided", "parse result", text))
                    elif q[2] == 1:
                        out.append(("unstable", "the text of the plan is refused: " + self.shown(t2).split("=== Plan\n")[-1][:300], text))
                    else:
                        d = self.diff(self.norm(plan), self.norm(q[3][0]))
                        if d is not None:
                            out.append(("undecided" if has_opaque(q[3][0]) else "unstable", "%s: %s became %s" % d, text))
                        else:
                            out.append(("ok", "", text))

    def judge_mut(self, text, base, zs, reg):
        """a changed text is refused, or read as a plan that shows the change: every fresh symbol of the text is in the plan"""
        def f(out):
            want = None
            if base is not None:
                if getattr(self, "_base", (None,))[0] != base:
                    self._base = (base, self.plan_of(base, reg))
                want = self._base[1]
                if want is None:
                    out.append(("undecided", "base text", base))
                    return
            for r in self.parse(text, reg):
                if r[0] != "adt" or r[1] != RES:
                    out.append(("undecided", "parse result", text))
                elif r[2] == 1:
                    out.append(("err", self.brief(r[3][0])[:200], text))
                elif has_opaque(r[3][0]):
                    out.append(("undecided", "opaque plan", text))
                elif want is not None and self.diff(self.norm(want), self.norm(r[3][0])) is None:
                    out.append(("ignored", "reads as the same plan as without the change", text))
                elif any(z not in repr(r[3][0]) and repr(z)[1:-1] not in repr(r[3][0]) for z in zs):
                    out.append(("lost", "accepted, but the plan does not contain " + ", ".join(self.shown(z) for z in zs), text))
                else:
                    self.again(r[3][0], reg, text, out)
        return self.guard(f)

    def judge_num(self, text, eg, lo, hi, good, reg):
        """every number of lo..hi in the place \\x01 is held by the plan as that number (good), or refused"""
        def f(out):
            want = self.plan_of(text.replace("\x01", str(eg)), reg)
            if want is None:
                out.append(("undecided", "example text", text.replace("\x01", str(eg))))
                return
            if lo == hi:
                parts = [(str(lo), None)]
            else:
                parts = []
                if hi >= 0:
                    lab = ("int", "+", "n", max(lo, 0), hi)
                    parts.append((self.I.C.new("nat", lab), lab))
                if lo < 0:
                    lab = ("int", "-", "m", lo, min(hi, -1))
                    parts.append(("-" + self.I.C.new("nat", lab), lab))
            for s, lab in parts:
                t = text.replace("\x01", s)
                span = "%d" % lo if lab is None else "%d..%d" % (lab[3], lab[4])
                for r in self.parse(t, reg):
                    if r[0] != "adt" or r[1] != RES:
                        out.append(("undecided", "parse result", t))
                    elif r[2] == 1:
                        out.append(("rejected", "numbers of %s are refused: %s" % (span, self.brief(r[3][0])[:200]), t) if good else ("err", "", t))
                    elif not good:
                        out.append(("accepted", "a number of %s is accepted" % span, t))
                    elif has_opaque(r[3][0]):
                        out.append(("undecided", "opaque plan", t))
                    else:
                        n = [0]

                        def sub(v):
                            if v[0] == "iv" and lab is not None and ("lab", lab) in v[3] and (v[1], v[2]) == (lab[3], lab[4]) or lab is None and v == ("i", lo):
                                n[0] += 1
                                return ("i", eg)
                            if v[0] in ("i", "iv", "s", "fl"):
                                return v
                            return (v[0],) + tuple(sub(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(sub(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x for x in v[1:])
                        got = sub(r[3][0])
                        base = sub(want) if lab is None else want
                        d = self.diff(self.norm(base), self.norm(got))
                        out.append(("same", "", t) if d is None and n[0] else ("differs", "numbers of %s: %s" % (span, "%s: %s became %s" % d if d else "not in the plan"), t))
        return self.guard(f)

    def judge_means(self, text, plan, reg):
        """the text is read as exactly this plan"""
        def f(out):
            for r in self.parse(text, reg):
                if r[0] != "adt" or r[1] != RES:
                    out.append(("undecided", "parse result", text))
                elif r[2] == 1:
                    out.append(("rejected", self.brief(r[3][0])[:300], text))
                else:
                    d = self.diff(self.norm(plan), self.norm(r[3][0]))
                    out.append(("same", "", text) if d is None else ("undecided" if has_opaque(r[3][0]) else "differs", "%s: %s became %s" % d, text))
        return self.guard(f)

    def judge_shows(self, plan, text, reg):
        """the plan is written as exactly this text"""
        def f(out):
            for t2, errs, st in self.format_st(plan, None, reg):
                if t2 is None or errs[0] != "arr":
                    out.append(("undecided", "text of the plan", text))
                elif errs[1]:
                    out.append(("unwritable", "an issue is reported: " + self.brief(errs)[:200], t2))
                elif t2 == text:
                    out.append(("same", "", t2))
                else:
                    x, y = [self.shown(z).split("\n") for z in (text, t2)]
                    n = [i for i in range(max(len(x), len(y))) if x[i:i + 1] != y[i:i + 1]][0]
                    out.append(("misshown", "written as %r, it means %r" % (y[n] if n < len(y) else "", x[n] if n < len(x) else ""), t2))
        return self.guard(f)

    def judge_any(self, text, reg):
        """read or refused, in any case without a panic"""
        def f(out):
            for r in self.parse(text, reg):
                if r[0] != "adt" or r[1] != RES:
                    out.append(("undecided", "parse result", text))
                elif r[2] == 1:
                    out.append(("err", "", text))
                else:
                    self.again(r[3][0], reg, text, out)
        return self.guard(f)

    def judge(self, sc):
        if sc.kind == "mut":
            return self.judge_mut(*sc.args)
        if sc.kind == "plan":
            return self.trip(*sc.args)
        return getattr(self, "judge_" + sc.kind)(*sc.args)

    # ------------------------------------------------------------ registries of extension handlers
    def registry(self, *hs, base=None):
        """an extension registry with opaque handlers, registered through the crate's own registration: hs = (kind, name)"""
        I = self.I
        reg = base or self.default("extensions::registry::ExtensionRegistry")[0]
        for kind, name in hs:
            fs = [f for f in self.P.fns.values() if f.path == "extensions::registry::ExtensionRegistry::register_" + kind]
            if not fs:
                raise KeyError("register_" + kind)
            I.handler = name
            st = {("reg", 0): reg}
            rs = I.body(fs[0], [("mref", ("reg", 0), ())], st, True)
            I.handler = None
            if len({(r[0], r[1][("reg", 0)]) for r in rs}) != 1:
                raise Imprecise("registration forks")
            reg = rs[0][1][("reg", 0)]
        return reg

    def any(self, name, args):
        return self.msg("pbjson_types::Any", type_url="type.googleapis.com/ext." + name, value=("x", "enc", (args,), None))

    def eargs(self, positional=(), named=(), columns=()):
        a = self.adt("extensions::args::ExtensionArgs")
        imap = []
        for k, v in named:
            imap += [("s", k), v]
        fs = {"positional": ("arr", tuple(positional)), "named": ("x", "map", tuple(imap), "IndexMap"), "output_columns": ("arr", tuple(columns))}
        return ("adt", a["path"], 0, tuple(fs[f[0]] for f in a["variants"][0]["fields"]))

    def ev(self, var, *v):
        a = self.adt("extensions::args::ExtensionValue")
        for i, x in enumerate(a["variants"]):
            if x["name"] == var:
                return ("adt", a["path"], i, tuple(v))
        raise KeyError(var)

    def ecol(self, var, *v):
        a = self.adt("extensions::args::ExtensionColumn")
        for i, x in enumerate(a["variants"]):
            if x["name"] == var:
                return ("adt", a["path"], i, tuple(v))
        raise KeyError(var)


# ================================================================ families
def typ_family(W):
    """every type kind x nullability, in every position a type can take"""
    kinds = [v["name"] for v in W.adt("r#type::Kind")["variants"]]
    base = []
    inner = W.i64()
    for k in kinds:
        if k in ("UserDefinedTypeReference",):
            base.append((k, lambda n: W.ty("UserDefinedTypeReference", ("i", 20))))
        elif k == "Struct":
            for c in (0, 1, 2):
                base.append(("%s/%d" % (k, c), lambda n, c=c: W.ty("Struct", types=[inner] * c, nullability=n)))
        elif k == "List":
            base.append((k, lambda n: W.ty("List", type=inner, nullability=n)))
            base.append((k + "/none", lambda n: W.ty("List", nullability=n)))
        elif k == "Map":
            base.append((k, lambda n: W.ty("Map", key=inner, value=W.ty("String", nullability=1), nullability=n)))
            base.append((k + "/novalue", lambda n: W.ty("Map", key=inner, nullability=n)))
        elif k == "Func":
            base.append((k, lambda n: W.ty("Func", parameter_types=[inner], return_type=inner, nullability=n)))
        elif k == "UserDefined":
            par = lambda v, x: W.msg("r#type::Parameter", parameter=W.one("r#type::parameter::Parameter", v, x))
            base.append((k, lambda n: W.ty("UserDefined", type_reference=20, nullability=n)))
            base.append((k + "/undeclared", lambda n: W.ty("UserDefined", type_reference=21, nullability=n)))
            for pn, ps in (("type", [par("DataType", inner)]), ("type2", [par("DataType", inner), par("DataType", W.ty("String", nullability=1))]), ("int", [par("Integer", W.nat("p", 0, 2**31))]),
                           ("negint", [par("Integer", W.neg("p", -2**31, -1))]), ("bool", [par("Boolean", True)]), ("false", [par("Boolean", False)]), ("null", [par("Null", W.msg("pbjson_types::Empty"))]), ("enum", [par("Enum", W.id("e"))]),
                           ("string", [par("String", W.id("s"))]), ("strsp", [par("String", "a b")]), ("unset", [W.msg("r#type::Parameter")])):
                base.append(("%s<%s>" % (k, pn), lambda n, ps=ps: W.ty("UserDefined", type_reference=20, type_parameters=ps, nullability=n)))
        elif k == "Alias":
            base.append((k, lambda n: W.ty("Alias", type_alias_reference=3, nullability=n)))
        elif k in ("FixedChar", "Varchar", "FixedBinary"):
            base.append((k, lambda n, k=k: W.ty(k, length=W.nat("len"), nullability=n)))
            base.append((k + "/0", lambda n, k=k: W.ty(k, length=0, nullability=n)))
        elif k == "Decimal":
            base.append((k, lambda n: W.ty("Decimal", precision=W.nat("p"), scale=W.nat("s"), nullability=n)))
            base.append((k + "/38,0", lambda n: W.ty("Decimal", precision=38, scale=0, nullability=n)))
        elif k in ("IntervalDay", "IntervalCompound", "PrecisionTime", "PrecisionTimestamp", "PrecisionTimestampTz"):
            if k == "IntervalDay":
                base.append((k + "/none", lambda n, k=k: W.ty(k, nullability=n)))
            for p in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13):
                base.append(("%s/%d" % (k, p), lambda n, k=k, p=p: W.ty(k, precision=p, nullability=n)))
            base.append((k + "/class", lambda n, k=k: W.ty(k, precision=W.nat("p"), nullability=n)))
        else:
            base.append((k, lambda n, k=k: W.ty(k, nullability=n)))
    col = lambda t: W.read((W.id("a"), t), (W.id("b"), inner))
    for k, f in base:
        for nn, n in (("required", 2), ("nullable", 1), ("unspecified", 0), ("77", 77)):
            yield P_("col:%s:%s" % (k, nn), W.plan(W.prel(col(f(n)))))
    proj = lambda e: W.rel("Project", W.msg("ProjectRel", common=W.emit(2), input=W.read(), expressions=[e]))
    ctxs = [("list", lambda t: col(W.ty("List", type=t))), ("mapkey", lambda t: col(W.ty("Map", key=t, value=inner))), ("mapvalue", lambda t: col(W.ty("Map", key=inner, value=t, nullability=1))),
            ("struct", lambda t: col(W.ty("Struct", types=[t, inner]))),
            ("param", lambda t: col(W.ty("UserDefined", type_reference=20, type_parameters=[W.msg("r#type::Parameter", parameter=W.one("r#type::parameter::Parameter", "DataType", t))]))),
            ("cast", lambda t: proj(W.ex("Cast", W.msg("expression::Cast", type=t, input=W.fld(0))))),
            ("output", lambda t: proj(W.call(10, W.fld(0), out=t))), ("null", lambda t: proj(W.elit("Null", t))),
            ("measure", lambda t: W.rel("Aggregate", W.msg("AggregateRel", common=W.direct(), input=W.read(), measures=[W.msg("aggregate_rel::Measure", measure=W.measure(10, W.fld(1), output_type=t))]))),
            ("arg", lambda t: proj(W.ex("ScalarFunction", W.msg("expression::ScalarFunction", function_reference=10, output_type=inner, arguments=[W.msg("FunctionArgument", arg_type=W.one("function_argument::ArgType", "Type", t))]))))]
    for cn, cf in ctxs:
        for i, (k, f) in enumerate(base):
            yield P_("%s:%s:required" % (cn, k), W.plan(W.prel(cf(f(2)))))
            if cn in ("list", "null", "cast"):
                yield P_("%s:%s:nullable" % (cn, k), W.plan(W.prel(cf(f(1)))))
    yield P_("cast:none", W.plan(W.prel(proj(W.ex("Cast", W.msg("expression::Cast", input=W.fld(0)))))))
    yield P_("output:none", W.plan(W.prel(proj(W.call(10, W.fld(0), out=None)))))
    for d in (2, 3, 5):
        t = inner
        for i in range(d):
            t = W.ty("List", type=t, nullability=1 + i % 2) if i % 3 else W.ty("Map", key=W.ty("String"), value=t, nullability=1)
        yield P_("nested:%d" % d, W.plan(W.prel(col(t))))


def lit_family(W):
    """every literal kind at edge values and classes, nullable or not, in every position of a literal"""
    proj = lambda e: W.plan(W.prel(W.rel("Project", W.msg("ProjectRel", common=W.emit(2), input=W.read(), expressions=[e]))))
    lits = []
    lits += [("Boolean/%d" % b, "Boolean", ("i", b)) for b in (0, 1)]
    for k, bits in (("I8", 8), ("I16", 16), ("I32", 32), ("I64", 64)):
        lo, hi = -2**(bits - 1), 2**(bits - 1) - 1
        lits += [("%s/+" % k, k, W.nat("n", 0, hi)), ("%s/-" % k, k, W.neg("n", lo, -1))]
        lits += [("%s/%s" % (k, n), k, ("i", x)) for n, x in (("0", 0), ("1", 1), ("-1", -1), ("min", lo), ("max", hi))]
        if bits < 32:
            lits += [("%s/over" % k, k, ("i", hi + 1)), ("%s/under" % k, k, ("i", lo - 1))]
    for k in ("Fp32", "Fp64"):
        for x in (0.0, 1.0, -1.0, 0.5, -2.5, 100.0, 1e10, 1048576.0, 1e20, 1e-3, 1e-7, 1.5e300 if k == "Fp64" else 2.0**100, 2.0**-100, float("inf"), float("-inf"), float("nan"), 12345.0, 16777216.0, 0.1, -0.0, 3.4028234663852886e38, 5e-324 if k == "Fp64" else 1.401298464324817e-45, 123456.789):
            lits.append(("%s/%r" % (k, x), k, ("fl", f32r(x) if k == "Fp32" else x)))
    for n, s in (("id", W.id("s")), ("empty", ""), ("quote", "a'b"), ("dquote", 'a"b'), ("bs", "a\\b"), ("nl", "a\nb"), ("tab", "a\tb"), ("cr", "a\rb"), ("bsn", "a\\nb"), ("uni", W.I.C.new("char", "c")), ("sp", " a "), ("colon", "a:i64"), ("comma", "a, b")):
        lits += [("String/" + n, "String", s), ("FixedChar/" + n, "FixedChar", s)]
    lits += [("VarChar", "VarChar", W.msg("expression::literal::VarChar", value=W.id("s"), length=10))]
    lits += [("Binary/0", "Binary", ("arr", ())), ("Binary/2", "Binary", ("arr", (("i", 0), ("i", 255)))), ("FixedBinary/2", "FixedBinary", ("arr", (("i", 0), ("i", 255)))), ("Uuid", "Uuid", ("arr", (("i", 7),) * 16))]
    for n, d in (("0", 0), ("1", 1), ("-1", -1), ("19000", 19000), ("-719529", -719529), ("2932897", 2932897), ("min", -2**31), ("max", 2**31 - 1), ("yneg", -800000), ("58", 58), ("59", 59), ("364", 364), ("11016", 11016)):
        lits.append(("Date/" + n, "Date", ("i", d)))
    us = {"0": 0, "1": 1, "-1": -1, "frac": 1234567, "frac3": 1500000, "noon": 43200 * 10**6, "day": 86400 * 10**6, "day-1": 86400 * 10**6 - 1, "now": 1700000000 * 10**6 + 123456, "now0": 1700000000 * 10**6, "neg": -62135596800 * 10**6 - 1, "max": 2**63 - 1, "min": -2**63}
    for k in ("Timestamp", "TimestampTz", "Time"):
        for n, x in us.items():
            lits.append(("%s/%s" % (k, n), k, ("i", x)))
    for k in ("PrecisionTimestamp", "PrecisionTimestampTz", "PrecisionTime"):
        m = "expression::literal::PrecisionTime" if k == "PrecisionTime" else "expression::literal::PrecisionTimestamp"
        for p in (-1, 0, 1, 3, 6, 9, 12, 13):
            sc = 10**max(p, 0)
            for n, x in (("0", 0), ("1", 1), ("-1", -1), ("now", 1700000000 * sc + sc // 8), ("h", 3600 * sc), ("hf", 3661 * sc + sc // 4), ("max", 2**63 - 1), ("min", -2**63)):
                if -2**63 <= x < 2**63:
                    lits.append(("%s/%d/%s" % (k, p, n), k, W.msg(m, precision=p, value=x)))
    iy = lambda y, mo: W.msg("expression::literal::IntervalYearToMonth", years=y, months=mo)
    for n, y, mo in (("0", 0, 0), ("y", W.nat("y"), 0), ("m", 0, W.nat("m", 0, 11)), ("1,2", 1, 2), ("-1,-2", -1, -2), ("1,-2", 1, -2), ("0,12", 0, 12), ("max", 2**31 - 1, 2**31 - 1), ("min", -2**31, -2**31), ("-0,-5", 0, -5), ("ym", W.nat("y"), W.nat("m", 0, 11))):
        lits.append(("IntervalYear/" + n, "IntervalYearToMonth", iy(y, mo)))
    PM = "expression::literal::interval_day_to_second::PrecisionMode"
    ids = lambda d, s, ss, pm: W.msg("expression::literal::IntervalDayToSecond", days=d, seconds=s, subseconds=ss, precision_mode=pm)
    for pn, pm, p in [("none", None, 6), ("us", W.one(PM, "Microseconds", 0), 6), ("us5", W.one(PM, "Microseconds", 5), 6), ("us-5", W.one(PM, "Microseconds", -5), 6), ("usmax", W.one(PM, "Microseconds", 2**31 - 1), 6), ("usmin", W.one(PM, "Microseconds", -2**31), 6)] + [("p%d" % p, W.one(PM, "Precision", p), p) for p in (-1, 0, 1, 3, 6, 9, 12)]:
        sc = 10**max(p, 0)
        for n, d, s, ss in (("0", 0, 0, 0), ("d", 3, 0, 0), ("s", 0, 5, 0), ("ss", 0, 0, sc // 4), ("all", 1, 2, min(sc - 1, 3)), ("neg", -1, -2, -min(sc - 1, 3)), ("mix", 1, -2, min(sc - 1, 3)), ("big", 3650001, 0, 0), ("over", 0, 0, sc), ("edge", 3650000, 0, 0), ("smax", 0, 2**31 - 1, 0), ("smin", 0, -2**31, 0), ("ssmax", 0, 0, 2**63 - 1), ("ssmin", 0, 0, -2**63)):
            lits.append(("IntervalDay/%s/%s" % (pn, n), "IntervalDayToSecond", ids(d, s, ss, pm)))
    lits.append(("IntervalDay/class", "IntervalDayToSecond", ids(W.nat("d", 1, 9999), W.nat("s", 1, 86399), W.nat("f", 1, 999), W.one(PM, "Precision", 3))))
    lits.append(("IntervalCompound", "IntervalCompound", W.msg("expression::literal::IntervalCompound", interval_year_to_month=iy(1, 2), interval_day_to_second=ids(1, 2, 3, W.one(PM, "Precision", 6)))))
    lits.append(("Decimal", "Decimal", W.msg("expression::literal::Decimal", value=bytes([1] + [0] * 15), precision=10, scale=2)))
    sub = W.lit("I32", 5)
    lits.append(("Struct", "Struct", W.msg("expression::literal::Struct", fields=[sub])))
    lits.append(("List", "List", W.msg("expression::literal::List", values=[sub])))
    lits.append(("Map", "Map", W.msg("expression::literal::Map", key_values=[W.msg("expression::literal::map::KeyValue", key=sub, value=sub)])))
    lits.append(("EmptyList", "EmptyList", W.msg("r#type::List", type=W.i64(), nullability=2)))
    lits.append(("EmptyMap", "EmptyMap", W.msg("r#type::Map", key=W.i64(), value=W.i64(), nullability=2)))
    lits.append(("UserDefined", "UserDefined", W.msg("expression::literal::UserDefined")))
    lits.append(("Null/i64", "Null", W.ty("I64", nullability=1)))
    lits.append(("Null/i64r", "Null", W.ty("I64", nullability=2)))
    for n, k, v in lits:
        for nb in (False, True):
            yield P_("%s%s" % (n, "?" if nb else ""), proj(W.elit(k, v, nullable=nb)))
    yield P_("unset", proj(W.ex("Literal", W.msg("expression::Literal"))))
    # positions
    rep = [("Boolean/1", "Boolean", ("i", 1)), ("I8/+", "I8", W.nat("n", 0, 127)), ("I32/-", "I32", W.neg("n")), ("I64/+", "I64", W.nat("n", 0, 2**63 - 1)), ("Fp64/1.0", "Fp64", ("fl", 1.0)), ("Fp32/0.5", "Fp32", ("fl", 0.5)),
           ("String", "String", W.id("s")), ("Date", "Date", ("i", 19000)), ("PT", "PrecisionTime", W.msg("expression::literal::PrecisionTime", precision=3, value=3600000)), ("Null", "Null", W.ty("I64", nullability=1))]
    for n, k, v in rep:
        for nb in (False, True):
            e = W.elit(k, v, nullable=nb)
            nn = n + ("?" if nb else "")
            b = W.read()
            yield P_("arg:" + nn, proj(W.call(10, e, W.fld(0))))
            yield P_("cast:" + nn, proj(W.ex("Cast", W.msg("expression::Cast", type=W.i64(), input=e))))
            yield P_("if:" + nn, proj(W.ex("IfThen", W.msg("expression::IfThen", ifs=[W.msg("expression::if_then::IfClause", **{"if": e, "then": e})], **{"else": e}))))
            yield P_("filter:" + nn, W.plan(W.prel(W.rel("Filter", W.msg("FilterRel", common=W.direct(), input=b, condition=e)))))
            yield P_("row:" + nn, W.plan(W.prel(W.rel("Read", W.msg("ReadRel", common=W.direct(), base_schema=W.schema((W.id("a"), W.i64())), read_type=W.one("read_rel::ReadType", "VirtualTable",
                              W.msg("read_rel::VirtualTable", expressions=[W.msg("expression::nested::Struct", fields=[e])])))))))
            yield P_("fetch:" + nn, W.plan(W.prel(W.rel("Fetch", W.msg("FetchRel", common=W.direct(), input=b, count_mode=W.one("fetch_rel::CountMode", "CountExpr", e))))))
            yield P_("group:" + nn, W.plan(W.prel(W.rel("Aggregate", W.msg("AggregateRel", common=W.direct(), input=b, grouping_expressions=[e], groupings=[W.msg("aggregate_rel::Grouping", expression_references=[0])])))))


# fields whose loss is a recorded finding: the single deviations cover them
LOST = ("AggregateFunction.phase", "AggregateFunction.invocation=77", "AggregateFunction.args", "expression::ScalarFunction.args", "Plan.", "aggregate_rel::Grouping.grouping_expressions", ".type_variation_reference")


def pair_family(W):
    """every plan that differs from a base plan in two fields of one message"""
    T = W.ty_by_path(PB + "Plan")
    seen = set()
    for name, rel in W.more_rels():
        plan = W.plan(W.root(rel, W.id("x")))
        for k, v in W.pairs(plan, T):
            if k not in seen:
                seen.add(k)
                yield P_(k, v)


def dev_family(W):
    """every plan one field away from a base plan"""
    T = W.ty_by_path(PB + "Plan")
    seen = set()
    for name, rel in W.more_rels():
        plan = W.plan(W.root(rel, W.id("x")))
        yield P_("base:" + name, plan)
        for k, v in W.devs(plan, T):
            if k not in seen:
                seen.add(k)
                yield P_(k, v)


FAMS = {"types": typ_family, "literals": lit_family, "deviations": dev_family, "pairs": pair_family}
import fam2
FAMS.update(fam2.FAMS)
import fam3
FAMS.update(fam3.FAMS)
import fam4, fam5
FAMS.update(fam4.FAMS)
FAMS.update(fam5.FAMS)
import fam6
FAMS.update(fam6.FAMS)
