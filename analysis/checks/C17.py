"""The extension registry: all-or-nothing registration, separate namespaces, lookups by the key that was registered."""
import re
from absint import *
import models
from facts import loc

SPEC = dict(
    level="other",
    rule="disjunctive abstract interpretation of every public method of the extension registry on MIR, with its maps replaced by ghost state: "
         "failed registrations mutate nothing, successful ones insert into every table under (namespace, exact name) and (namespace, exact type URL), "
         "duplicates and conflicting type URLs are refused, and each register/parse/decode method touches exactly one namespace, the same for the three "
         "methods of one extension kind and different between kinds",
    assumptions=["std maps behave as documented", "an extension's name() and type_url() are pure"])

REG = "ExtensionRegistry"
GH = ("mut_handlers", "mut_type_urls", "dup", "pend", "conflict")
IDENT = {"to_string", "to_owned", "clone", "into", "from", "as_str", "as_ref", "deref", "borrow", "as_bytes", "to_vec", "cloned", "copied", "as_deref", "as_mut"}
MAPS = re.compile(r"^std::collections::(HashMap|BTreeMap|hash_map::HashMap|btree_map::BTreeMap)\b")
ENTRY = re.compile(r"^std::collections::(hash_map|btree_map)::(Entry|OccupiedEntry|VacantEntry)\b")


def labs(v):
    return {x[1] for x in bagof(v) if x[0] == "lab"}


def deep(I, st, v, d=0):
    """reference-free labels and namespace variants inside a value"""
    L, T = set(), set()
    while v[0] in ("sref", "box", "mref") and d < 10:
        v = I.deref(st, v)
        d += 1
    if v[0] == "adt" and v[1].endswith("ExtensionType"):
        T.add(v[2])
    elif kids(v):
        for k in kids(v):
            l, t = deep(I, st, k, d + 1)
            L |= l
            T |= t
    else:
        L |= labs(v)
    return L, T


class Run:
    def __init__(self, ctx):
        self.I = ctx.interp()
        self.I.ghosts = GH
        self.I.hooks["call"] = self.call
        self.ops = []

    def g(self, st, **kw):
        st = dict(st)
        for k, v in kw.items():
            st[("G", k)] = TRUE if v else FALSE
        return st

    def call(self, I, f, args, st, fn, b, t, quiet):
        p, n = f["p"], f["name"]
        if f.get("ctor"):
            return None
        tr = f.get("trait") or ""
        if tr.endswith("::Explainable") and n == "name":
            return [(O(frozenset([("lab", "NAME")])), st)]
        if tr.endswith("::AnyConvertible") and n == "type_url":
            return [(O(frozenset([("lab", "URL")])), st)]
        if tr.endswith("::ExtensionConverter"):
            return [(ok(O(frozenset([("lab", "RESULT")]))), dict(st)), (err(O0), dict(st))]
        c = models.Ctx(I, f, fn, b, t, quiet)
        if tr == "std::cmp::PartialEq" and n in ("eq", "ne"):
            l0, l1 = deep(I, st, args[0])[0], deep(I, st, args[1])[0]
            if {"REGISTERED", "NAME"} <= l0 | l1:
                return [(("i", int(n == "ne")), self.g(st, conflict=1, pend=0)), (("i", int(n == "eq")), self.g(st, pend=0))]
        if MAPS.search(p) or ENTRY.search(p):
            rl, _ = deep(I, st, args[0])
            m = [x[4:] for x in rl if x.startswith("MAP:")]
            if not m:
                return None
            m = m[0]
            key = deep(I, st, args[1]) if len(args) > 1 else (set(), set())
            rec = {"map": m, "op": n, "fn": fn.path, "sp": t.get("sp")}
            if n in ("contains_key", "get", "get_mut", "get_key_value"):
                rec.update(kl=key[0], kt=key[1], kind="read")
                self.ops.append(rec)
                hit = O(frozenset([("lab", "REGISTERED" if m == "type_urls" else "HANDLER")]))
                yes = self.g(st, dup=1) if m == "handlers" else self.g(st, pend=1)
                if n == "contains_key":
                    return [(TRUE, yes), (FALSE, dict(st))]
                return [(some(hit), yes), (none(), dict(st))]
            if n == "insert" and len(args) == 3:
                rec.update(kl=key[0], kt=key[1], vl=deep(I, st, args[2])[0], kind="write")
                self.ops.append(rec)
                return [(O0, self.g(st, **{"mut_" + m: 1}))]
            if n in ("len", "is_empty", "iter", "keys", "values"):
                return None
            rec.update(kl=key[0], kt=key[1], kind="other")
            self.ops.append(rec)
            return [(O0, self.g(st, **{"mut_" + m: 1}))]
        # a string function that is not the identity yields a different string
        tg = I.P.targets(f)
        if not tg and t.get("dty") is not None and n not in IDENT:
            ty = I.P.types[t["dty"]].s
            if re.search(r"\bString\b|\bstr\b", ty) and not re.search(r"HashMap|Result|Option|Iter", ty) and not I.models.get(p):
                bag = frozenset(("lab", "~" + x) if not x.startswith(("~", "MAP:")) else ("lab", x) for a in args for x in deep(I, st, a)[0])
                return [(O(bag), st)]
        return None


def run(ctx, rep):
    P = ctx.P
    reg = [a for a in P.adts if a["path"].endswith("::" + REG)]
    if not rep.anchor("struct ExtensionRegistry", reg):
        return
    reg = reg[0]
    fields = [x[0] for x in reg["variants"][0]["fields"]]
    for want in ("handlers", "type_urls"):
        rep.anchor("field ExtensionRegistry::" + want, want in fields)
    et = [a for a in P.adts if a["path"].endswith("::ExtensionType")][0]
    tn = [v["name"] for v in et["variants"]]
    methods = {}
    for f in P.fns.values():
        if f.path.startswith("extensions::registry::%s::" % REG) and f.name and "{" not in f.path.rsplit("::", 1)[-1]:
            methods.setdefault(f.name, f)
    rep.set("registry_methods", len(methods))
    ns = {}

    def selfval(mut):
        v = ("adt", reg["path"], 0, tuple(O(frozenset([("lab", "MAP:" + x)])) for x in fields))
        return (("mref", ("A", 0), ()), (v,)) if mut else (("sref", v, None), ())

    kinds = {"relation": ("register_relation", "parse_extension", "decode"), "table": ("register_extension_table", "parse_extension_table", "decode_extension_table"),
             "enhancement": ("register_enhancement", "parse_enhancement", "decode_enhancement"), "optimization": ("register_optimization", "parse_optimization", "decode_optimization")}
    extra = [m for m in methods if m.startswith("decode_with_context")]
    for kind, ms in kinds.items():
        for mi, m in enumerate(ms + (tuple(extra) if kind == "relation" else ())):
            f = methods.get(m)
            if not rep.anchor("ExtensionRegistry::" + m, f):
                continue
            R = Run(ctx)
            mut = f.ty(1).k == "refmut"
            sv, heap = selfval(mut)
            args = [sv] + [O(frozenset([("lab", "ARG%d" % i)])) for i in range(2, f.argc + 1)]
            outs = R.I.analyse([(f, args, heap + tuple(FALSE for _ in GH))])[0]
            where = "%s (%s)" % (f.path, loc(f.span))
            seen = {tuple(sorted(o["kt"])) for o in R.ops}
            rep.count("map_operations", len(R.ops))
            if len(seen) != 1 or len(next(iter(seen))) != 1:
                rep.violation("namespace:" + m, "%s: touches registry tables under namespaces %s, expected exactly one" % (where, sorted(seen)))
                continue
            t = next(iter(seen))[0]
            ns.setdefault(kind, {})[m] = t
            rep.ok("%s uses namespace %s only" % (where, tn[t]))
            if m.startswith("register"):
                for ret, h in outs:
                    g = {k: v != FALSE for k, v in zip(GH, h[-len(GH):])}
                    rep.count("registration_exits")
                    if ret[0] != "adt" or ret[1] != RES:
                        rep.violation("register-exit:" + m, "%s: cannot resolve the outcome of a path (%s)" % (where, ret[0]))
                        continue
                    if ret[2] == 1:
                        if g["mut_handlers"] or g["mut_type_urls"]:
                            rep.violation("register-partial:" + m, "%s: a failing registration has already changed a table (%s)" % (where, g))
                        elif not (g["dup"] or g["conflict"]):
                            rep.violation("register-spurious:" + m, "%s: registration can fail with neither a duplicate name nor a conflicting type URL" % where)
                        else:
                            rep.ok("%s: failing exit leaves both tables untouched" % where)
                    else:
                        if g["dup"]:
                            rep.violation("register-duplicate:" + m, "%s: registration succeeds although the name is already registered" % where)
                        if g["conflict"] or g["pend"]:
                            rep.violation("register-conflict:" + m, "%s: registration succeeds although the type URL belongs to another name (or is not compared)" % where)
                        if not (g["mut_handlers"] and g["mut_type_urls"]):
                            rep.violation("register-incomplete:" + m, "%s: registration succeeds without filling both tables (%s)" % (where, g))
                        rep.ok("%s: successful exit fills both tables" % where)
                reads = {o["map"] for o in R.ops if o["kind"] == "read"}
                for mp in ("handlers", "type_urls"):
                    if mp not in reads:
                        rep.violation("register-unchecked:%s:%s" % (m, mp), "%s: does not look at %s before inserting" % (where, mp))
                for o in R.ops:
                    want = {"NAME"} if o["map"] == "handlers" else {"URL"}
                    if o["kl"] != want:
                        rep.violation("register-key:%s:%s" % (m, o["map"]), "%s:%s: %s on %s uses a key made of %s, expected exactly the extension's own %s" % (o["sp"][0], o["sp"][1], o["op"], o["map"], sorted(o["kl"]), sorted(want)))
                    if o["kind"] == "write" and o["map"] == "type_urls" and o["vl"] != {"NAME"}:
                        rep.violation("register-value:" + m, "%s: the type URL is mapped to %s, not to the registered name" % (where, sorted(o["vl"])))
                    if o["kind"] == "other":
                        rep.violation("register-op:%s:%s" % (m, o["op"]), "%s: unexpected operation %s on %s" % (where, o["op"], o["map"]))
            else:
                for o in R.ops:
                    if o["kind"] != "read":
                        rep.violation("lookup-op:%s:%s" % (m, o["op"]), "%s: a lookup performs %s on %s" % (where, o["op"], o["map"]))
                    exp = {"handlers": {"ARG2"} if m.startswith("parse") else {"REGISTERED"}, "type_urls": {"ARG2"}}[o["map"]]
                    if not o["kl"] <= exp | set() or not o["kl"]:
                        rep.violation("lookup-key:%s:%s" % (m, o["map"]), "%s:%s: %s is looked up under %s, expected %s" % (o["sp"][0], o["sp"][1], o["map"], sorted(o["kl"]), sorted(exp)))
                    else:
                        rep.ok("%s: %s looked up under its exact key" % (where, o["map"]))
                for ret, h in outs:
                    g = {k: v != FALSE for k, v in zip(GH, h[-len(GH):])}
                    rep.count("lookup_exits")
                    if ret[0] == "adt" and ret[2] == 0:
                        hit = g["dup"]
                        if not hit:
                            rep.violation("lookup-unregistered:" + m, "%s: succeeds without finding a registered handler" % where)
                        if m.startswith("parse") and deep(R.I, {}, ret)[0] != {"RESULT"}:
                            rep.violation("parse-result:" + m, "%s: the result is not what the registered handler produced" % where)
                        if m.startswith("decode") and not ("REGISTERED" in deep(R.I, {}, ret)[0]):
                            rep.violation("decode-name:" + m, "%s: the decoded name is not the registered one" % where)
    # same namespace within a kind, different between kinds
    for kind, d in ns.items():
        if len(set(d.values())) != 1:
            rep.violation("namespace-mismatch:" + kind, "%s extensions are registered, parsed and decoded under different namespaces: %s" % (kind, {m: tn[t] for m, t in d.items()}))
        else:
            rep.ok("%s: one namespace" % kind)
    owners = {}
    for kind, d in ns.items():
        for t in set(d.values()):
            owners.setdefault(t, set()).add(kind)
    for t, ks in owners.items():
        if len(ks) > 1:
            rep.violation("namespace-shared:" + tn[t], "namespace %s is shared by %s" % (tn[t], sorted(ks)))
    rep.floor("map_operations", 30)
    rep.floor("registration_exits", 12)
    rep.floor("lookup_exits", 16)
