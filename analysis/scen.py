"""Abstract plans: builders for prost message values in the template domain."""
from absint import *

PB = "substrait::proto::"


class Build:
    def __init__(self, I):
        self.I = I
        self.P = I.P

    def adt(self, path):
        a = self.P.adt_by_path.get(path) or self.P.adt_by_path.get(PB + path)
        if a is None:
            raise KeyError("no such message in the program: " + path)
        return a

    def conv(self, v, t):
        """python value -> abstract value of field type t"""
        p = t.p
        if p == OPT:
            return none() if v is None else v if isinstance(v, tuple) and v[:2] == ("adt", OPT) else some(self.conv(v, t.arg(0)))
        if p == "std::boxed::Box":
            return v if isinstance(v, tuple) and v[0] == "box" else ("box", self.conv(v, t.arg(0)))
        if p == "std::vec::Vec" or isinstance(v, list):
            if isinstance(v, tuple):
                return v
            if isinstance(v, bytes):
                return ("arr", tuple(("i", b) for b in v))
            return ("arr", tuple(self.conv(x, t.arg(0)) for x in v))
        if isinstance(v, tuple):
            return v
        if isinstance(v, bool):
            return ("i", int(v))
        if isinstance(v, int):
            return ("i", v)
        if isinstance(v, float):
            return ("fl", v)
        if isinstance(v, str):
            return ("s", v)
        raise TypeError("%r for %s" % (v, t.s))

    def msg(self, path, **kw):
        a = self.adt(path)
        fs = []
        for n, ti, _ in a["variants"][0]["fields"]:
            n = n.replace("r#", "")
            t = self.P.types[ti]
            if n in kw:
                fs.append(self.conv(kw.pop(n), t))
            else:
                d = self.I.default_of(t)
                if d is None:
                    raise KeyError("no default for %s.%s: %s" % (path, n, t.s))
                fs.append(d)
        if kw:
            raise KeyError("%s has no field %s" % (path, sorted(kw)))
        return ("adt", a["path"], 0, tuple(fs))

    def one(self, path, var, v=None):
        a = self.adt(path)
        for i, x in enumerate(a["variants"]):
            if x["name"] == var:
                if not x["fields"]:
                    return ("adt", a["path"], i, ())
                return ("adt", a["path"], i, (self.conv(v, self.P.types[x["fields"][0][1]]),))
        raise KeyError("%s::%s" % (path, var))

    def default(self, path):
        """T::default() of a type of the crate, by interpreting it"""
        for f in self.P.fns.values():
            if f.path == "<%s as std::default::Default>::default" % path:
                r = self.I.body(f, [], {}, True)
                return r[0]
        raise KeyError("no Default of " + path)


class World(Build):
    """sample plans: names are identifier classes, numbers are number classes"""

    def __init__(self, I):
        super().__init__(I)
        self.reg = self.default("extensions::registry::ExtensionRegistry")[0]
        self.opts = self.default("textify::foundation::OutputOptions")[0]

    # ------------------------------------------------------------ classes
    def id(self, n):
        return self.I.C.new("ident", n)

    def nat(self, n, lo=0, hi=2**31 - 1):
        return ("iv", lo, hi, frozenset([("lab", ("int", "+", n, lo, hi))]), None)

    def neg(self, n, lo=-2**31, hi=-1):
        return ("iv", lo, hi, frozenset([("lab", ("int", "-", n, lo, hi))]), None)

    # ------------------------------------------------------------ types
    def ty(self, kind, payload=None, **kw):
        k = self.adt("r#type::Kind")
        v = [x for x in k["variants"] if x["name"] == kind][0]
        t = self.P.types[v["fields"][0][1]]
        if t.p == "std::boxed::Box":
            t = t.arg(0)
        if payload is None:
            names = [x[0] for x in self.P.adts[t.adt]["variants"][0]["fields"]]
            if "nullability" in names:
                kw.setdefault("nullability", 2)
            payload = self.msg(t.p, **kw)
        return self.msg("Type", kind=self.one("r#type::Kind", kind, payload))

    def i64(self):
        return self.ty("I64")

    # ------------------------------------------------------------ expressions
    def ex(self, var, v):
        return self.msg("Expression", rex_type=self.one("expression::RexType", var, v))

    def lit(self, var, v, **kw):
        return self.msg("expression::Literal", literal_type=self.one("expression::literal::LiteralType", var, v), **kw)

    def elit(self, var, v, **kw):
        return self.ex("Literal", self.lit(var, v, **kw))

    def fref(self, n=0):
        seg = self.msg("expression::ReferenceSegment", reference_type=self.one("expression::reference_segment::ReferenceType", "StructField",
                       self.msg("expression::reference_segment::StructField", field=n)))
        return self.msg("expression::FieldReference", reference_type=self.one("expression::field_reference::ReferenceType", "DirectReference", seg),
                        root_type=self.one("expression::field_reference::RootType", "RootReference", self.msg("expression::field_reference::RootReference")))

    def fld(self, n=0):
        return self.ex("Selection", self.fref(n))

    def arg(self, e):
        return self.msg("FunctionArgument", arg_type=self.one("function_argument::ArgType", "Value", e))

    def call(self, anchor, *args, out="i64", **kw):
        return self.ex("ScalarFunction", self.msg("expression::ScalarFunction", function_reference=anchor, arguments=[self.arg(a) for a in args],
                                                  output_type=self.i64() if out == "i64" else out, **kw))

    # ------------------------------------------------------------ relations
    def direct(self):
        return self.msg("RelCommon", emit_kind=self.one("rel_common::EmitKind", "Direct", self.msg("rel_common::Direct")))

    def emit(self, *cols):
        return self.msg("RelCommon", emit_kind=self.one("rel_common::EmitKind", "Emit", self.msg("rel_common::Emit", output_mapping=list(cols))))

    def rel(self, var, v):
        return self.msg("Rel", rel_type=self.one("rel::RelType", var, v))

    def schema(self, *cols):
        return self.msg("NamedStruct", names=[c[0] for c in cols], struct=self.msg("r#type::Struct", types=[c[1] for c in cols], nullability=2))

    def read(self, *cols, names=None, **kw):
        kw.setdefault("common", self.direct())
        cols = cols or ((self.id("a"), self.i64()), (self.id("b"), self.i64()))
        return self.rel("Read", self.msg("ReadRel", base_schema=self.schema(*cols), read_type=self.one("read_rel::ReadType", "NamedTable",
                        self.msg("read_rel::NamedTable", names=names or [self.id("t")])), **kw))

    def root(self, rel, *names):
        return self.msg("PlanRel", rel_type=self.one("plan_rel::RelType", "Root", self.msg("RelRoot", names=list(names), input=rel)))

    def prel(self, rel):
        return self.msg("PlanRel", rel_type=self.one("plan_rel::RelType", "Rel", rel))

    def urn(self, a, s):
        return self.msg("extensions::SimpleExtensionUrn", extension_urn_anchor=a, urn=s)

    def decl(self, kind, urn, anchor, name):
        f = {"Function": "function_anchor", "Type": "type_anchor", "TypeVariation": "type_variation_anchor"}[kind]
        p = "extensions::simple_extension_declaration::"
        return self.msg("extensions::SimpleExtensionDeclaration", mapping_type=self.one(p + "MappingType", "Extension" + kind,
                        self.msg(p + "Extension" + kind, extension_urn_reference=urn, name=name, **{f: anchor})))

    def plan(self, *rels, urns=None, decls=None, **kw):
        if urns is None:
            urns = [self.urn(1, self.id("u1")), self.urn(2, self.id("u2"))]
        if decls is None:
            decls = [self.decl("Function", 1, 10, self.id("f")), self.decl("Function", 2, 11, self.id("g")), self.decl("Type", 1, 20, self.id("ty")),
                     self.decl("TypeVariation", 2, 30, self.id("tv"))]
        return self.msg("Plan", extension_urns=urns, extensions=decls, relations=list(rels), **kw)

    # ------------------------------------------------------------ the two directions
    def entry(self, path):
        fs = [f for f in self.P.fns.values() if f.path == path]
        if len(fs) != 1:
            raise KeyError("entry point " + path)
        return fs[0]

    def format(self, plan, opts=None, reg=None):
        """-> [(text or None, errors value, state)]"""
        out = []
        for r, st in self.I.body(self.entry("format_with_registry"), [("sref", plan, None), ("sref", opts or self.opts, None), ("sref", reg or self.reg, None)], {}, True):
            if r[0] == "tup" and len(r[1]) == 2:
                out.append((r[1][0][1] if r[1][0][0] == "s" else None, r[1][1]))
            else:
                out.append((None, r))
        return out

    def format_st(self, plan, opts=None, reg=None):
        out = []
        for r, st in self.I.body(self.entry("format_with_registry"), [("sref", plan, None), ("sref", opts or self.opts, None), ("sref", reg or self.reg, None)], {}, True):
            if r[0] == "tup" and len(r[1]) == 2:
                out.append((r[1][0][1] if r[1][0][0] == "s" else None, r[1][1], st))
            else:
                out.append((None, r, st))
        return out

    def parse(self, text, reg=None, st=None):
        return [r for r, _ in self.I.body(self.entry("parse_with_registry"), [("sref", ("s", text), None), ("sref", reg or self.reg, None)], st or {}, True)]

    def shown(self, text):
        return "".join("<%s>" % (self.I.C.lab[c] if isinstance(self.I.C.lab[c], str) else self.I.C.lab[c][2]) if c in self.I.C.lab else c for c in text)

    def name_of(self, path):
        return path.replace(PB, "").replace("std::option::", "")

    def diff(self, a, b, at="plan"):
        """first difference of two abstract messages, as a field path -> (path, left, right) or None"""
        if a == b:
            return None
        if a[0] == "box" and b[0] == "box":
            return self.diff(a[1], b[1], at)
        if a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and a[2] == b[2]:
            ad = self.P.adt_by_path.get(a[1])
            fs = ad["variants"][a[2]]["fields"]
            for (n, _, _), x, y in zip(fs, a[3], b[3]):
                nm = at if a[1] == OPT or ad["kind"] == "enum" else self.name_of(a[1]) + "." + n.replace("r#", "")
                d = self.diff(x, y, nm)
                if d:
                    return d
            return None
        if a[0] == "arr" and b[0] == "arr":
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                d = self.diff(x, y, at + "[]")
                if d:
                    return d
            return (at + ".len", str(len(a[1])), str(len(b[1])))
        if a[0] == "x" and b[0] == "x" and a[1] == b[1] and a[3] == b[3] and len(a[2]) == len(b[2]):
            for x, y in zip(a[2], b[2]):
                d = self.diff(x, y, at)
                if d:
                    return d
        return (at, self.brief(a), self.brief(b))

    def brief(self, v):
        if v[0] == "adt":
            ad = self.P.adt_by_path.get(v[1])
            n = ad["variants"][v[2]]["name"] if ad else v[1]
            return n + ("(%s)" % ", ".join(self.brief(x) for x in v[3]) if v[3] else "")
        if v[0] == "box":
            return self.brief(v[1])
        if v[0] == "arr":
            return "[%s]" % ", ".join(self.brief(x) for x in v[1])
        if v[0] == "s":
            return repr(self.shown(v[1]))
        if v[0] in ("i", "fl"):
            return str(v[1])
        return str(v)[:120]
