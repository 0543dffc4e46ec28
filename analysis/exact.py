"""Template interpretation of MIR: the abstract interpreter without merging, over a constant-and-class domain.

Strings are templates (constant text plus class symbols, see peg.Classes), sequences and maps are kept element by element, integers
are constants or intervals carrying the label of the class they stand for, parse pairs are derivation trees of templates.  Every
branch whose condition the domain does not decide is followed both ways.  Anything outside the modelled part of std becomes an
opaque value; a template that meets one is reported as undecided rather than judged."""
import re, sys
from absint import *
import absint, models
from models import M, val, split, opt, res
from peg import Peg, Classes

sys.setrecursionlimit(60000)


XCONST = {}  # foreign constants, by path

class Imprecise(Exception):
    pass


def X(tag, ks=(), extra=None):
    return ("x", tag, tuple(ks), extra)


def isx(v, tag):
    return v[0] == "x" and v[1] == tag


def unk(p):
    return ("o", frozenset([("lab", "?" + p)]))


class Exact(Interp):
    BUDGET = 1500000
    FORKS = 4000

    def __init__(self, prog, gram, classes=None):
        super().__init__(prog, gram, XM, collapse=lambda p: False)
        self.C = classes or Classes()
        self.peg = Peg(gram, self.C)
        self.nf = 0
        self.fid = 0
        self.steps = 0
        self.unmodelled = {}
        self.forked = self.vague = 0
        self.panics = []
        self.fnseen = set()
        self.handler = None

    # ---------------------------------------------------------------- frames
    def cell(self, l):
        return (self.fid, l)

    def get(self, st, fn, place):
        v = st.get((self.fid, place["l"]), O0)
        return self.walk(st, fn, v, place["p"], fn.locals[place["l"]])

    def walk(self, st, fn, v, proj, ti):
        for e in proj:
            if e == "*":
                v = self.deref(st, v)
            elif "f" in e:
                k = v[0]
                if k == "adt":
                    v = v[3][e["f"]] if e["f"] < len(v[3]) else O0
                elif k in ("tup",):
                    v = v[1][e["f"]] if e["f"] < len(v[1]) else O0
                elif k == "clo":
                    v = v[2][e["f"]] if e["f"] < len(v[2]) else O0
                elif k == "box":
                    pass
                elif isx(v, "range"):
                    v = v[2][e["f"]]
                else:
                    v = O(bagof(v))
            elif "d" in e:
                pass
            elif "i" in e or "ci" in e:
                while v[0] in ("sref", "box", "mref"):
                    v = self.deref(st, v)
                n = self.index_of(st, e, v)
                v = v[1][n] if v[0] == "arr" and n is not None and 0 <= n < len(v[1]) else O(bagof(v))
            elif "ss" in e:
                while v[0] in ("sref", "box", "mref"):
                    v = self.deref(st, v)
                a, b, fe = e["ss"]
                v = ("arr", v[1][a:len(v[1]) - b if fe else b]) if v[0] == "arr" else O(bagof(v))
            else:
                v = O(bagof(v))
        return v

    def index_of(self, st, e, v):
        if "ci" in e:
            if e.get("fe"):
                return len(v[1]) - e["ci"] if v[0] == "arr" else None
            return e["ci"]
        i = st.get((self.fid, e["i"]), O0)
        return i[1] if i[0] == "i" else None

    def sub(self, st, v, e):
        if e == "*":
            return self.deref(st, v)
        if e[0] == "ix":
            return v[1][e[1]] if v[0] == "arr" and e[1] is not None and e[1] < len(v[1]) else O(bagof(v))
        if e[0] == "mv":
            if isx(v, "map"):
                for k, x in map_items(v):
                    if k == e[1]:
                        return x
            return O(bagof(v))
        return super().sub(st, v, e)

    def resolve(self, st, fn, place):
        cell = (self.fid, place["l"])
        proj = ()
        for e in place["p"]:
            if e == "*":
                v = self.rd(st, cell, proj)
                if v[0] == "mref":
                    cell, proj = v[1], v[2]
                elif v[0] in ("box", "sref"):
                    proj = proj + ("*",)
                elif v[0] == "o":
                    return None
            elif "f" in e:
                v = self.rd(st, cell, proj)
                if v[0] in ("box", "uninit") or (v[0] == "arr" and e["f"] == 0):
                    continue
                proj = proj + (("f", e["f"]),)
            elif "d" in e:
                proj = proj + (("d", e["d"]),)
            else:
                v = self.rd(st, cell, proj)
                proj = proj + (("ix", self.index_of(st, e, v)),)
        return cell, proj

    def _upd(self, st, v, proj, val):
        e, rest = proj[0], proj[1:]
        if e != "*" and e[0] == "ix":
            if v[0] == "arr" and e[1] is not None and e[1] < len(v[1]):
                xs = list(v[1])
                xs[e[1]] = self._upd(st, xs[e[1]], rest, val) if rest else val
                return ("arr", tuple(xs))
            return O(bagof(v) | bagof(val))
        if e != "*" and e[0] == "mv":
            if isx(v, "map"):
                out = []
                for k, x in map_items(v):
                    out += [k, (self._upd(st, x, rest, val) if rest else val) if k == e[1] else x]
                return ("x", "map", tuple(out), v[3])
            return O(bagof(v) | bagof(val))
        return super()._upd(st, v, proj, val)

    def put(self, st, fn, place, val):
        if not place["p"]:
            st[(self.fid, place["l"])] = val
            return
        r = self.resolve(st, fn, place)
        if r is None:
            return
        self.wr(st, r[0], r[1], val)

    def ref_to(self, st, cell, proj):
        return ("mref", cell, proj)

    def leak(self, bag):
        pass

    def rvalue(self, st, fn, r):
        k = r["k"]
        if k == "use":
            return self.op(st, fn, r["o"])
        if k == "ref" and not r["mut"]:
            pl = r["pl"]
            return ("sref", self.get(st, fn, pl), None)
        if k == "repeat":
            v = self.op(st, fn, r["o"])
            n = r.get("n")
            if isinstance(n, int) and n <= 64:
                return ("arr", (v,) * n)
            return O(bagof(v))
        if k == "agg" and self.handler and r.get("p") == "std::marker::PhantomData":
            return X("T", (), self.handler)  # the extension type being registered
        if k == "agg" and r["ak"] == "array":
            return ("arr", tuple(self.op(st, fn, x) for x in r["ops"]))
        if k == "cast":
            ck = r["ck"]
            if ck.startswith(("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat")):
                v = self.op(st, fn, r["o"])
                to = self.P.types[r["to"]].s
                if v[0] == "i" and ck.startswith("IntToInt"):
                    lo, hi = int_range(to)
                    n = v[1]
                    if not lo <= n <= hi:
                        n = (n - lo) % (hi - lo + 1) + lo
                    return ("i", n)
                if v[0] == "iv" and ck.startswith("IntToInt"):
                    lo, hi = int_range(to)
                    if lo <= v[1] and v[2] <= hi:
                        return v
                if ck.startswith("FloatToFloat"):
                    if v[0] == "fl":
                        return ("fl", f32r(v[1])) if to == "f32" else v
                    return relab(v, "as_" + to) if to == "f32" else v
                if ck.startswith("FloatToInt") and v[0] == "fl" and INTS.match(to):
                    lo, hi = int_range(to)
                    x = v[1]
                    return ("i", 0 if x != x else hi if x >= hi else lo if x <= lo else int(x))
                if ck.startswith("IntToFloat") and v[0] == "i":
                    return ("fl", f32r(float(v[1])) if to == "f32" else float(v[1]))
                return relab(v, "as_" + to)
        return super().rvalue(st, fn, r)

    def const(self, fn, o):
        if "static" in o:
            g = self.P.by_key.get(o["static"])
            g = g[0] if isinstance(g, list) else g
            if g is not None and self.P.types[o["c"]].k == "ref":
                r = self.body(g, [], {}, True)
                if len(r) == 1:
                    return ("sref", r[0][0], None)
        if o.get("uneval") in XCONST:
            return XCONST[o["uneval"]]
        if "bytes" in o and "str" not in o:
            return ("arr", tuple(("i", b) for b in o["bytes"]))
        if "v" in o and "c" in o:
            t = self.P.types[o["c"]]
            if t.k == "prim" and t.s in ("f64", "f32"):
                import struct
                n = o["v"]
                return ("fl", struct.unpack("<d", struct.pack("<Q", n))[0] if t.s == "f64" else struct.unpack("<f", struct.pack("<I", n))[0])
            if t.k == "prim" and INTS.match(t.s) and t.s[0] == "i":
                lo, hi = int_range(t.s)
                n = o["v"]
                if n > hi:
                    n -= hi - lo + 1
                return ("i", n)
        return super().const(fn, o)

    def op(self, st, fn, o):
        p = o.get("cp") or o.get("mv")
        if p is not None:
            v = st.get((self.fid, p["l"]), O0)
            if p["p"]:
                v = self.walk(st, fn, v, p["p"], fn.locals[p["l"]])
            if v[0] == "o" and v[1]:
                t = self.opty(fn, o)
                if t is not None and t.k == "prim" and INTS.match(t.s):
                    lo, hi = int_range(t.s)
                    return iv(lo, hi, v[1])
            return v
        if "c" in o:
            if self.handler and self.P.types[o["c"]].p == "std::marker::PhantomData":
                return X("T", (), self.handler)  # the extension type being registered
            return self.const(fn, o)
        return O0

    def branch(self, st, v, truth):
        if v[0] == "cmp":
            a, b = self.bounded(st, v[2]), self.bounded(st, v[3])
            self.note_fork(v)
            r = super().branch(st, ("cmp", v[1], a, b), truth)
            if r is None:
                return None
            op = v[1] if truth else {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[v[1]]
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                if x[0] == "iv" and y[0] == "i" and labs(x):
                    lo, hi, n = x[1], x[2], y[1]
                    if o == "Eq":
                        lo, hi = max(lo, n), min(hi, n)
                    elif o == "Ne":
                        lo, hi = lo + (lo == n), hi - (hi == n)
                    elif o in ("Lt", "Le"):
                        hi = min(hi, n - (o == "Lt"))
                    else:
                        lo = max(lo, n + (o == "Gt"))
                    r = self.constrain(r, x, lo, hi)
                    if r is None:
                        return None
            return r
        self.note_fork(v)
        return super().branch(st, v, truth)

    def note_fork(self, v):
        """a branch the domain cannot decide: on a class symbol both sides have members, on an unknown value one side may be infeasible"""
        if v[0] == "i":
            return
        if v[0] == "cmp":
            for x in (v[2], v[3]):
                if x[0] != "i":
                    self.note_fork(x)
            return
        ls = labs(v)
        if not ls or any("?" in str(x[1]) for x in ls):
            self.vague += 1
        self.forked += 1

    def bounded(self, st, x):
        if x[0] != "iv":
            return x
        c = st.get(("con", x[3]))
        return ("iv", max(x[1], c[0]), min(x[2], c[1]), x[3], None) if c else x[:4] + (None,)

    def constrain(self, st, x, lo, hi):
        if lo > hi:
            return None
        if not labs(x) or (lo, hi) == (x[1], x[2]):
            return st
        st = dict(st)
        st[("con", x[3])] = (lo, hi)
        return st

    def binop(self, op, a, b, ty=None):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: trunc(x, y) if y else None, "Rem": lambda: x - y * trunc(x, y) if y else None,
                 "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y if 0 <= y < 128 else None, "Shr": lambda: x >> y if 0 <= y < 128 else None}.get(base)
            if base == "Cmp":
                return ("adt", "std::cmp::Ordering", 0 if x < y else 1 if x == y else 2, ())
            if f:
                n = f()
                if n is not None and ty is not None and (INTS.match(ty) or ty in ("bool", "char")):
                    lo, hi = int_range(ty)
                    w = n if lo <= n <= hi else (n - lo) % (hi - lo + 1) + lo
                    return ("tup", (("i", w), ("i", int(w != n)))) if "WithOverflow" in op else ("i", w)
        if a[0] == "fl" and b[0] == "fl":
            x, y = a[1], b[1]
            c = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}
            if op in c:
                return ("i", int(c[op]))
        if a[0] == "iv" and b[0] == "iv" and a[3] == b[3] and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            ls = labs(a)
            if len(ls) == 1 and isinstance(ls[0][1], tuple) and ls[0][1][0] == "int":  # one number compared with itself
                return ("adt", "std::cmp::Ordering", 1, ()) if op == "Cmp" else ("i", int(op in ("Eq", "Le", "Ge")))
        r = super().binop(op, a, b, ty)
        if r[0] == "o" or (r[0] == "iv" and op not in ("Eq",)):
            if labs(a) or labs(b):
                l = ("%s(%s,%s)" % (op, desc(a), desc(b)))
                return (("iv", r[1], r[2], frozenset([("lab", l)]), None) if r[0] == "iv" else O(frozenset([("lab", l)])))
        return r

    def newsym(self, st, v, ty, link=None, site=None):
        return v

    def eq(self, a, b):
        while a[0] in ("sref", "box"):
            a = a[1]
        while b[0] in ("sref", "box"):
            b = b[1]
        if a == b and not has_opaque(a):
            return True
        if isx(a, "chr") and isx(b, "chr"):
            return a[3] == b[3]
        if a[0] == "arr" and b[0] == "arr":
            if len(a[1]) != len(b[1]):
                return False
            return conj(self.eq(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == "s" and b[0] == "s":
            return a[1] == b[1]
        if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
            if a[2] != b[2]:
                return False
            return conj(self.eq(x, y) for x, y in zip(a[3], b[3]))
        if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
            return conj(self.eq(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == "fl" and b[0] == "fl":
            return a[1] == b[1]
        if a[0] == "x" and b[0] == "x" and a[1] == b[1] and a[3] == b[3] and len(a[2]) == len(b[2]):
            return conj(self.eq(x, y) for x, y in zip(a[2], b[2])) or None
        return super().eq(a, b)

    # ---------------------------------------------------------------- running
    def run(self, fn, init, quiet=False, cells=()):
        return [(r, {}) for r, _ in self.body(fn, [], {}, quiet)]

    def call_local(self, f, args, st, quiet):
        return self.body(f, args, st, quiet)

    def body(self, f, args, st, quiet):
        prev, pcur = self.fid, self.cur
        self.nf += 1
        fid = self.nf
        st = dict(st)
        self.fnseen.add(f.id)
        self.stack.append(f.path)
        if len(self.stack) > 700:
            raise Imprecise("call depth in " + f.path)
        for i in range(f.argc):
            st[(fid, i + 1)] = args[i] if i < len(args) else O0
        work = [(0, st)]
        outs = []
        nl = len(f.locals)
        loops = {}
        while work:
            b, s = work.pop()
            self.steps += 1
            if self.steps > self.BUDGET:
                raise Imprecise("step budget in " + f.path)
            if len(work) > self.FORKS:
                raise Imprecise("too many paths in " + f.path)
            loops[b] = loops.get(b, 0) + 1
            if loops[b] > 20000:
                raise Imprecise("loop bound in " + f.path)
            self.fid = fid
            try:
                nxt = self.step(f, b, s, quiet)
            except Dead:
                continue
            for nb, ns in nxt:
                if nb is None:
                    ret = ns.get((fid, 0), O0)
                    for l in range(nl):
                        ns.pop((fid, l), None)
                    outs.append((ret, ns))
                else:
                    work.append((nb, ns))
        self.fid = prev
        self.cur = pcur
        self.stack.pop()
        return outs

    def switch(self, fn, b, st, t):
        v = self.op(st, fn, t["o"])
        if v[0] in ("o", "ovf") or (v[0] == "iv"):
            p = t["o"].get("cp") or t["o"].get("mv")
            self.note_fork(v)
            v = self.bounded(st, v)
            out = []
            lo, hi = (v[1], v[2]) if v[0] == "iv" else (None, None)
            vals = []
            ty = self.P.types[t["ty"]].s
            for x, tg in t["ts"]:
                if ty[0] == "i" and INTS.match(ty):
                    l, h = int_range(ty)
                    x = x - (h - l + 1) if x > h else x
                if lo is not None and not lo <= x <= hi:
                    continue
                vals.append(x)
                ns = dict(st)
                if p is not None and not p["p"]:
                    ns[(self.fid, p["l"])] = ("i", x)
                if v[0] == "iv":
                    ns = self.constrain(ns, v, x, x)
                    if ns is None:
                        continue
                out.append((tg, ns))
            e = fn.blocks[t["else"]]
            if not (e["t"]["k"] == "unreachable" and not e["s"]):
                ns = dict(st)
                if ty == "bool" and len(vals) == 1 and p is not None and not p["p"]:
                    ns[(self.fid, p["l"])] = ("i", 1 - vals[0])
                if v[0] == "iv" and lo is not None:
                    l, h = lo, hi
                    while l in vals:
                        l += 1
                    while h in vals:
                        h -= 1
                    ns = self.constrain(ns, v, l, h)
                if ns is not None and not (ty == "bool" and len(vals) == 2):
                    out.append((t["else"], ns))
            return out
        return super().switch(fn, b, st, t)

    def finding(self, fn, b, kind, t, quiet=False, detail=None):
        self.panics.append((fn.path, kind, t.get("sp")))

    def dispatch(self, f, args, st, fn, b, t, quiet):
        h = self.hooks.get("call")
        if h:
            r = h(self, f, args, st, fn, b, t, quiet)
            if r is not None:
                return r
        p = f["p"]
        m = self.models.get(p)
        if m is None and f.get("trait"):
            m = self.models.get(("trait", f["trait"], f["name"]))
        if m is not None:
            r = m(Ctx(self, f, fn, b, t, quiet), args, st)
            if r is not None:
                return r
        if f.get("ctor"):
            return [(self.ctor(f, args), st)]
        i = f.get("inst")
        if i and i in self.P.fns:
            return self.call_local(self.P.fns[i], args, st, quiet)
        r = self.proto_call(f, args, st, t)
        if r is not None:
            return r
        if f.get("virt") or not f.get("rkey") or f.get("rlocal"):
            tg = self.P.targets(f)
            if len(tg) == 1:
                return self.call_local(tg[0], args, st, quiet)
            if tg:
                out = []
                for g in tg:
                    out += self.call_local(g, args, dict(st), quiet)
                return out
        return self.external(f, args, st, fn, b, t, quiet)

    def fn_of(self, i):
        return super().fn_of(i) or self.P.std.get(i)

    def invoke(self, fv, args, st, quiet, t=None):
        # a closure that owns what it changes keeps the change
        m = fv
        while m[0] in ("sref", "box"):
            m = m[1]
        if m[0] == "mref":
            c = self.rd(st, m[1], m[2])
            if c[0] == "mref":
                return self.invoke(c, args, st, quiet, t)
            if c[0] == "clo":
                f = self.fn_of(c[1])
                if f is not None and f.ty(1).k == "refmut":
                    args = list(args)[: f.argc - 1]
                    return self.call_local(f, [m] + args + [O0] * (f.argc - 1 - len(args)), st, quiet)
        return super().invoke(fv, args, st, quiet, t)

    def external(self, f, args, st, fn, b, t, quiet):
        i = f.get("sinst")
        if i and i in self.P.std:
            # no model of its own: the library's code, instantiated for this call
            return self.call_local(self.P.std[i], args, st, quiet)
        p = f["p"] if not f.get("trait") else f.get("full") or f["p"]
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        v = unk(p)
        st = dict(st)
        for a in args:
            if a[0] == "mref":
                self.wr(st, a[1], a[2], v)
        return [(v, st)]

    # ---------------------------------------------------------------- prost messages
    def default_of(self, t):
        """Default::default() of a prost field type"""
        s = t.s
        if t.k == "prim":
            if s == "bool":
                return FALSE
            if s in ("f64", "f32"):
                return ("fl", 0.0)
            if s == "str":
                return ("s", "")
            return ("i", 0)
        if t.k == "tuple":
            return ("tup", tuple(self.default_of(t.arg(i)) for i in range(len(t.a))))
        if t.k in ("ref",):
            return ("sref", self.default_of(t.arg(0)), None)
        p = t.p
        if p == OPT:
            return none()
        if p == "std::string::String":
            return ("s", "")
        if p in ("std::vec::Vec", "bytes::Bytes"):
            return ("arr", ())
        if p == "std::boxed::Box":
            return ("box", self.default_of(t.arg(0)))
        if p and re.search(r"(HashMap|BTreeMap|IndexMap|HashSet|BTreeSet|IndexSet)$", p):
            return X("map", (), p.rsplit("::", 1)[1])
        if t.k == "adt" and p.startswith(("substrait::", "prost_types::", "pbjson_types::")):
            a = self.P.adts[t.adt]
            if a["kind"] == "struct":
                return ("adt", p, 0, tuple(self.default_of(self.P.types[ft]) for _, ft, _ in a["variants"][0]["fields"]))
            if a["kind"] == "enum":
                for i, v in enumerate(a["variants"]):
                    if v["disc"] == 0 and not v["fields"]:
                        return ("adt", p, i, ())
        return None

    def enum_of(self, path, n):
        a = self.P.adt_by_path.get(path)
        if a is None or a["kind"] != "enum":
            return None
        for i, v in enumerate(a["variants"]):
            if v["disc"] == n and not v["fields"]:
                return ("adt", path, i, ())
        return None

    def proto_call(self, f, args, st, t):
        """accessors prost derives for messages of other crates"""
        p = f["p"]
        tr = f.get("trait")
        if tr in ("std::convert::TryFrom",) and f["name"] == "try_from" and f.get("a"):
            t = self.P.types[f["a"][0]]
            if t.k == "adt" and t.p.startswith("substrait::"):
                v = args[0]
                if v[0] == "i":
                    e = self.enum_of(t.p, v[1])
                    return [(ok(e) if e is not None else err(O0), st)]
            return None
        if not p.startswith("substrait::") or not args:
            return None
        base, _, name = p.rpartition("::")
        a = self.P.adt_by_path.get(base)
        if a is None:
            return None
        if a["kind"] == "enum":
            if name == "as_str_name":
                return None
            if name == "is_valid":
                return None
            return None
        fields = [x[0] for x in a["variants"][0]["fields"]]
        nm = name[4:] if name.startswith("set_") and name not in fields else name
        if nm in fields or ("r#" + nm) in fields:
            i = fields.index(nm if nm in fields else "r#" + nm)
            v = args[0]
            n = 0
            while v[0] in ("sref", "box", "mref") and n < 6:
                v = self.deref(st, v)
                n += 1
            if name == nm and v[0] == "adt" and v[1] == base:
                x = v[3][i]
                if x[0] == "adt" and x[1] == OPT:
                    x = x[3][0] if x[2] == 1 else ("i", 0)
                if x[0] != "i":
                    return None
                rt = self.P.types[t["dty"]] if t.get("dty") is not None else None
                if rt is None or rt.k != "adt":
                    return None
                return [(self.enum_of(rt.p, x[1]) or self.enum_of(rt.p, 0), st)]
        return None


def conj(rs):
    res_ = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            res_ = None
    return res_


def labs(v):
    return [x for x in bagof(v) if x[0] == "lab"]


def has_opaque(v):
    if v[0] == "o":
        return True
    if v[0] == "iv":
        return any("?" in str(x[1]) for x in labs(v)) or not labs(v)
    return any(has_opaque(x) for x in kids(v))


def desc(v):
    if v[0] in ("i", "fl"):
        return str(v[1])
    l = sorted(str(x[1]) for x in labs(v))
    return "+".join(l) or v[0]


def relab(v, tag):
    return O(frozenset([("lab", "%s(%s)" % (tag, desc(v)))]))


# ================================================================ models
XM = dict(M)


def xm(*ps):
    def d(fn):
        for p in ps:
            XM[p] = fn
        return fn
    return d


def xt(tr, *names):
    def d(fn):
        for n in names:
            XM[("trait", tr, n)] = fn
        return fn
    return d


def cell_of(a):
    return (a[1], a[2]) if a[0] == "mref" else None


def follow(ctx, st, a):
    """last mref of a chain of references to mutable storage"""
    n = 0
    while n < 8:
        n += 1
        if a[0] == "mref":
            v = ctx.I.rd(st, a[1], a[2])
            if v[0] in ("mref",):
                a = v
                continue
            if v[0] == "box":
                a = ("mref", a[1], a[2] + ("*",))
                continue
        elif a[0] in ("sref", "box") and a[1][0] in ("mref", "sref"):
            a = a[1]
            continue
        return a
    return a


def rdm(ctx, st, a):
    a = follow(ctx, st, a)
    return (ctx.I.rd(st, a[1], a[2]) if a[0] == "mref" else val(ctx, st, a)), a


def setm(ctx, st, a, v):
    st = dict(st)
    ctx.I.wr(st, a[1], a[2], v)
    return st


# ---------------------------------------------------------------- fmt
@xm("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex",
    "core::fmt::rt::Argument::<'_>::new_upper_hex", "core::fmt::rt::Argument::<'_>::new_lower_exp", "core::fmt::rt::Argument::<'_>::new_binary", "core::fmt::rt::Argument::<'_>::new_octal", "core::fmt::rt::Argument::<'_>::from_usize")
def _(ctx, args, st):
    name = ctx.f["name"]
    inst = [i for n, i in ctx.f.get("via", []) if n.endswith("::fmt") and i in ctx.I.P.fns]
    return [(X("farg", (args[0],), (name, inst[0] if inst else None, ctx.f["a"][0] if ctx.f.get("a") else None)), st)]


@xm("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'_>::new")
def _(ctx, args, st):
    t = val(ctx, st, args[0])
    a = val(ctx, st, args[1])
    if t[0] != "arr" or a[0] != "arr" or any(x[0] != "i" for x in t[1]):
        return [(unk("fmt template"), st)]
    return [(X("fargs", a[1], bytes(x[1] for x in t[1])), st)]


@xm("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'_>::from_str")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] != "s":
        return [(unk("fmt str"), st)]
    return [(X("fargs", (), ("str", v[1])), st)]


def decode_template(bs):
    i = 0
    out = []
    ai = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bs[i:i + n].decode())
            i += n
        elif n == 0x80:
            l = bs[i] | bs[i + 1] << 8
            out.append(bs[i + 2:i + 2 + l].decode())
            i += 2 + l
        else:
            o = {"flags": 0, "width": None, "prec": None}
            if n & 1:
                o["flags"] = int.from_bytes(bs[i:i + 4], "little")
                i += 4
            w = p = None
            if n & 2:
                w = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                p = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                ai = bs[i] | bs[i + 1] << 8
                i += 2
            if w is not None:
                o["width"] = ("arg", w) if n & 16 else w
            if p is not None:
                o["prec"] = ("arg", p) if n & 32 else p
            o["arg"] = ai
            ai += 1
            out.append(o)
    return out


def pad(s, o, dflt):
    w = o["width"]
    fl = o["flags"]
    # flags layout of core::fmt: low 21 bits fill char, bit 21 '+', 22 '-', 23 '#', 24 '0', 25/26 debug hex, 27 width, 28 precision, 29-30 align
    fill = chr(fl & 0x1FFFFF) if fl & 0x1FFFFF else " "
    plus, zero = fl >> 21 & 1, fl >> 24 & 1
    align = {0: "<", 1: ">", 2: "^", 3: None}[fl >> 29 & 3] if fl else None
    if dflt == ">" and plus and not s.startswith("-"):
        s = "+" + s
    if w is None:
        return s
    if zero and dflt == ">":
        sign = s[0] if s[:1] in "+-" else ""
        return sign + s[len(sign):].rjust(w - len(sign), "0")
    align = align or dflt
    n = w - len(s)
    if n <= 0:
        return s
    return s + fill * n if align == "<" else fill * n + s if align == ">" else fill * (n // 2) + s + fill * (n - n // 2)


def f32r(x):
    import struct
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def rust_float(x, debug, single=False):
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    from decimal import Decimal
    if single and x != 0:
        # shortest decimal that reads back as the same single
        for p in range(1, 10):
            y = float("%.*e" % (p - 1, x))
            if f32r(y) == x:
                x = y
                break
    if debug and x != 0 and (abs(x) >= 1e16 or abs(x) < 1e-5):
        m, e = ("%r" % x).split("e") if "e" in repr(x) else (None, None)
        if m is None:
            d = Decimal(repr(x))
            s, dg, ex = d.as_tuple()
            dg = "".join(map(str, dg)).rstrip("0") or "0"
            ee = len(d.as_tuple().digits) + ex - 1
            m = dg[0] + ("." + dg[1:] if len(dg) > 1 else "")
            return ("-" if s else "") + m + "e" + str(ee)
        m = m[:-2] if m.endswith(".0") else m
        return m + "e" + str(int(e))
    s = format(Decimal(repr(x)), "f")
    if s.endswith(".0"):
        s = s if debug else s[:-2]
    elif "." not in s and debug:
        s += ".0"
    return s


def show(ctx, st, v, o, ty, debug):
    """Display of a primitive or string -> text or None"""
    if v[0] == "s":
        s = v[1]
        if debug:
            s = '"' + "".join({"\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\\": "\\\\", "\0": "\\0"}.get(c, c) for c in s) + '"'
        if o["prec"] is not None:
            s = s[:o["prec"]]
        return pad(s, o, "<")
    if v[0] == "arr" and ty is not None and ty.p in ("std::char::ToUppercase", "std::char::ToLowercase"):
        return "".join(chr(x[1]) for x in v[1])
    if v[0] == "i":
        if ty is not None and ty.s == "char":
            return pad(repr(chr(v[1])) if debug else chr(v[1]), o, "<")
        if ty is not None and ty.s == "bool":
            return pad("true" if v[1] else "false", o, "<")
        return pad(str(v[1]), o, ">")
    if v[0] == "iv":
        ls = labs(v)
        if len(ls) == 1 and isinstance(ls[0][1], tuple) and ls[0][1][0] == "int":
            s = ("-" if ls[0][1][1] == "-" else "") + ctx.I.C.new("nat", ls[0][1])
            if o["width"] is not None:
                lo, hi = ls[0][1][3], ls[0][1][4]
                if len(str(lo if lo >= 0 else hi)) < o["width"]:
                    return None
            return s
        return None
    if v[0] == "fl":
        if o["prec"] is not None:
            return pad("%.*f" % (o["prec"], v[1]), o, ">")
        return pad(rust_float(v[1], debug, ty is not None and ty.s == "f32"), o, ">")
    if isx(v, "sym"):
        return ctx.I.C.new(v[3][0], v[3][1])
    return None


def fmt_args(ctx, st, fa):
    """render fmt::Arguments -> [(text or None, ok?, st)]"""
    if not isx(fa, "fargs"):
        return [(None, True, st)]
    if isinstance(fa[3], tuple):
        return [(fa[3][1], True, st)]
    states = [("", True, st)]
    for piece in decode_template(fa[3]):
        if isinstance(piece, str):
            states = [(None if t is None else t + piece if g else t, g, s) for t, g, s in states]
            continue
        o = dict(piece)
        for k in ("width", "prec"):
            if isinstance(o[k], tuple):
                a = fa[2][o[k][1]]
                w = val(ctx, st, a[2][0]) if isx(a, "farg") else O0
                o[k] = w[1] if w[0] == "i" else None
        nxt = []
        for t, g, s in states:
            if not g:
                nxt.append((t, g, s))
                continue
            for x, g2, s2 in fmt_one(ctx, s, fa[2][piece["arg"]], o):
                nxt.append((None if t is None or x is None else t + x, g2, s2))
        states = nxt
    return states


def fmt_one(ctx, st, a, o):
    if not isx(a, "farg"):
        return [(None, True, st)]
    name, inst, ti = a[3]
    v = val(ctx, st, a[2][0])
    ty = ctx.I.P.types[ti].peel() if ti is not None else None
    debug = name == "new_debug"
    if name in ("new_lower_hex", "new_upper_hex", "new_binary", "new_octal"):
        c = {"new_lower_hex": "x", "new_upper_hex": "X", "new_binary": "b", "new_octal": "o"}[name]
        if v[0] != "i" or v[1] < 0:
            return [(None, True, st)]
        t = format(v[1], c)
        if o["flags"] & (1 << 23):
            t = {"x": "0x", "X": "0x", "b": "0b", "o": "0o"}[c] + t
        return [(pad(t, o, ">"), True, st)]
    if inst is not None and (not debug or True):
        g = ctx.I.P.fns[inst]
        if debug:
            return [("\u27e8dbg\u27e9", True, st)]
        return render(ctx, st, lambda w, s: ctx.I.call_local(g, [("sref", v, None), w], s, ctx.quiet))
    if ty is not None and ty.p in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow") and False:
        return None
    s = show(ctx, st, v, o, ty, debug)
    if s is None:
        if isx(v, "fargs"):
            return fmt_args(ctx, st, v)
        if isx(v, "ptree_disp"):
            return [(v[3], True, st)]
        if debug or (ty is not None and re.search(r"[Ee]rror", ty.s)):
            return [("\u27e8dbg\u27e9", True, st)]
        if v[0] == "adt" and not v[1].startswith("std::"):
            # a trait object: the implementation for the type the value has
            for g in ctx.I.P.fns.values():
                if g.path.endswith(" as std::fmt::Display>::fmt") and re.sub(r"<.*$", "", g.path[1:].split(" as std::fmt::Display")[0]) == v[1]:
                    return render(ctx, st, lambda w, s: ctx.I.call_local(g, [("sref", v, None), w], s, ctx.quiet))
        # Display of Option etc. does not exist; a generic wrapper of std (Cow, Box, &T) shows what is inside
        if v[0] == "adt" and v[1] == "std::borrow::Cow":
            return fmt_one(ctx, st, ("x", "farg", (v[3][0],), a[3]), o)
    if s is None:
        ctx.I.unmodelled["Display of %s %s" % (v[0], ty.s if ty else "?")] = 1
    return [(s, True, st)]


def render(ctx, st, call):
    """run a formatting function into a fresh buffer -> [(text, ok, st)]"""
    ctx.I.nf += 1
    c = ("T", ctx.I.nf)
    s = dict(st)
    s[c] = ("s", "")
    out = []
    for r, s2 in call(("mref", c, ()), s):
        b = s2.pop(c, O0)
        good = not (r[0] == "adt" and r[1] == RES and r[2] == 1)
        out.append((b[1] if b[0] == "s" else None, good, s2))
    return out


def append(ctx, st, w, text):
    w = follow(ctx, st, w)
    if w[0] != "mref":
        ctx.I.unmodelled["write into " + w[0]] = 1
        return st
    b = ctx.I.rd(st, w[1], w[2])
    return setm(ctx, st, w, ("s", b[1] + text) if b[0] == "s" and text is not None else unk("text"))


FMT_OK = ok(UNIT)


@xt("std::fmt::Write", "write_str")
@xm("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "std::fmt::Formatter::<'a>::debug_c_like_enum_write_str")
def write_str(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = val(ctx, st, args[1])
    return [(FMT_OK, append(ctx, st, args[0], v[1] if v[0] == "s" else None))]


XM[("trait", "std::fmt::Write", "write_str")] = write_str


@xt("std::fmt::Write", "write_char")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = val(ctx, st, args[1])
    return [(FMT_OK, append(ctx, st, args[0], chr(v[1]) if v[0] == "i" else None))]


def write_fmt(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    out = []
    for t, g, s in fmt_args(ctx, st, args[1]):
        out.append((FMT_OK if g else err(O0), append(ctx, s, args[0], t)))
    return out


for _p in ("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::write"):
    XM[_p] = write_fmt
XM[("trait", "std::fmt::Write", "write_fmt")] = write_fmt
XM["std::fmt::Formatter::<'a>::alternate"] = lambda ctx, args, st: [(FALSE, st)]
XM["std::fmt::Formatter::<'a>::width"] = lambda ctx, args, st: [(none(), st)]
XM["std::fmt::Formatter::<'a>::precision"] = lambda ctx, args, st: [(none(), st)]


@xm("std::fmt::format", "alloc::fmt::format")
def _(ctx, args, st):
    return [(("s", t) if t is not None else unk("format"), s) for t, g, s in fmt_args(ctx, st, args[0])]


@xt("std::fmt::Display", "fmt")
@xt("std::fmt::Debug", "fmt")
def disp(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    t = ctx.ta(0)
    via = [i for n, i in ctx.f.get("via", []) if n.endswith("::fmt") and i in ctx.I.P.fns]
    v = val(ctx, st, args[0])
    if via:
        return ctx.I.call_local(ctx.I.P.fns[via[0]], [("sref", v, None), args[1]], st, ctx.quiet)
    s = show(ctx, st, v, {"flags": 0, "width": None, "prec": None}, t.peel() if t else None, ctx.f["trait"].endswith("Debug"))
    return [(FMT_OK, append(ctx, st, args[1], s))]


XM[("trait", "std::fmt::Display", "fmt")] = disp


@xt("std::string::ToString", "to_string")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "s":
        return [(v, st)]
    inst = [i for n, i in ctx.f.get("via", []) if n.endswith("Display::fmt") and i in ctx.I.P.fns]
    ti = ctx.f["a"][0] if ctx.f.get("a") else None
    out = []
    for t, g, s in fmt_one(ctx, st, X("farg", (args[0],), ("new_display", inst[0] if inst else None, ti)), {"flags": 0, "width": None, "prec": None}):
        out.append((("s", t) if t is not None else unk("to_string"), s))
    return out


# ---------------------------------------------------------------- channels
@xm("std::sync::mpsc::channel")
def _(ctx, args, st):
    ctx.I.nf += 1
    c = ("CH", ctx.I.nf)
    st = dict(st)
    st[c] = ("arr", ())
    return [(("tup", (X("chan", (), c), X("chan", (), c))), st)]


@xm("std::sync::mpsc::Sender::<T>::send")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if isx(v, "chan"):
        st = dict(st)
        b = st.get(v[3], ("arr", ()))
        st[v[3]] = ("arr", b[1] + (args[1],)) if b[0] == "arr" else O0
        return [(ok(UNIT), st)]


@xm("std::sync::mpsc::Receiver::<T>::try_iter", "std::sync::mpsc::Receiver::<T>::iter")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if isx(v, "chan"):
        st = dict(st)
        b = st.get(v[3], O0)
        st[v[3]] = ("arr", ())
        return [(b, st)]


# ---------------------------------------------------------------- pest
@xm("pest::iterators::Pair::<'i, R>::as_rule")
def _(ctx, args, st):
    p = val(ctx, st, args[0])
    if p[0] == "ptree":
        return [(("adt", ctx.I.rule_adt["path"], ctx.I.rules_idx[p[1]], ()), st)]
    return [(unk("pair"), st)]


@xm("pest::iterators::Pair::<'i, R>::as_str")
def _(ctx, args, st):
    p = val(ctx, st, args[0])
    return [(("s", p[2]) if p[0] == "ptree" else unk("pair"), st)]


@xm("pest::iterators::Pair::<'i, R>::into_inner")
def _(ctx, args, st):
    p = val(ctx, st, args[0])
    return [(("arr", p[3]) if p[0] == "ptree" else unk("pair"), st)]


@xm("pest::iterators::Pair::<'i, R>::as_span", "pest::iterators::Pair::<'i, R>::line_col", "pest::iterators::Pair::<'i, R>::get_input", "pest::Span::<'i>::new",
    "pest::error::Error::<R>::new_from_span", "pest::error::ErrorVariant::<R>::message")
def _(ctx, args, st):
    if ctx.f["p"].startswith("pest::Span::<'i>::new"):
        return [(some(X("span")), st)]
    return [(X("span"), st)]


for _n in ("start", "end", "as_str", "start_pos", "end_pos", "lines"):
    XM["pest::Span::<'i>::" + _n] = lambda ctx, args, st: [(X("span"), st)]


@xt("pest::Parser", "parse")
def _(ctx, args, st):
    r, v = args[0], val(ctx, st, args[1])
    if r[0] == "adt" and v[0] == "s":
        name = ctx.I.rule_adt["variants"][r[2]]["name"]
        ps = ctx.I.peg.parse(name, v[1])
        return [(ok(("arr", ps)) if ps is not None else err(X("span")), st)]
    return [(unk("parse"), st)]


@xm("pest::iterators::Pairs::<'i, R>::peek")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr":
        return [(some(v[1][0]) if v[1] else none(), st)]


@xm("pest::iterators::Pairs::<'i, R>::as_str")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr":
        return [(("s", v[1][0][2]) if len(v[1]) == 1 else ("s", ""), st)]


XM["pest::iterators::Pairs::<'i, R>::len"] = lambda ctx, args, st: XM["std::vec::Vec::<T, A>::len"](ctx, args, st)


# ---------------------------------------------------------------- maps and sets
def map_items(m):
    return [(m[2][i], m[2][i + 1]) for i in range(0, len(m[2]), 2)]


def mk_map(kind, items):
    if kind.startswith("BTree"):
        try:
            items = sorted(items, key=lambda kv: pykey(kv[0]))
        except TypeError:
            pass
    out = []
    for k, v in items:
        out += [k, v]
    return X("map", out, kind)


def pykey(v):
    while v[0] in ("sref", "box"):
        v = v[1]
    if v[0] == "i":
        return v[1]
    if v[0] == "s":
        return v[1].encode()
    if v[0] == "fl" and v[1] == v[1]:
        return v[1]
    if v[0] == "adt":
        return (v[2],) + tuple(pykey(x) for x in v[3])
    if v[0] in ("tup", "arr"):
        return tuple(pykey(x) for x in v[1])
    if isx(v, "chr"):
        return v[3][1]
    raise TypeError


def keyv(ctx, st, k):
    """value of a key, without references"""
    k = val(ctx, st, k)
    ks = kids(k)
    return rebuild(k, [keyv(ctx, st, x) for x in ks]) if ks and k[0] != "clo" else k


def concrete(v):
    """decided keys: equality with any other decided key is known"""
    return v[0] in ("i", "s", "fl") or (v[0] == "iv" and len(labs(v)) == 1) or ((v[0] in ("adt", "tup", "arr", "box") or isx(v, "enc")) and all(concrete(x) for x in kids(v)))


MAPRE = re.compile(r"^(std::collections|indexmap|hashbrown)::(\w+::)*(HashMap|BTreeMap|IndexMap|HashSet|BTreeSet|IndexSet)::<[^>]*>::(\w+)$")


def map_call(ctx, args, st):
    m = MAPRE.match(ctx.f["p"])
    kind, op = m.group(3), m.group(4)
    isset = kind.endswith("Set")
    if op in ("new", "with_capacity", "default"):
        return [(X("map", (), kind), st)]
    a = follow(ctx, st, args[0])
    v = ctx.I.rd(st, a[1], a[2]) if a[0] == "mref" else val(ctx, st, a)
    if not isx(v, "map"):
        return None
    it = map_items(v)
    key = None
    if op in ("get", "get_mut", "contains_key", "contains", "insert", "remove", "entry", "get_key_value", "get_full", "shift_remove", "swap_remove", "replace", "take", "remove_entry", "get_index_of"):
        key = keyv(ctx, st, args[1])
        if not concrete(key) or not all(concrete(k) for k, _ in it):
            return None
        hit = [x for k, x in it if k == key]
    if op in ("len",):
        return [(("i", len(it)), st)]
    if op == "is_empty":
        return [(("i", int(not it)), st)]
    if op in ("contains_key", "contains"):
        return [(("i", int(bool(hit))), st)]
    if op == "get":
        return [(some(("sref", key if isset else hit[0], None)) if hit else none(), st)]
    if op == "get_key_value":
        return [(some(("tup", (("sref", key, None), ("sref", hit[0], None)))) if hit else none(), st)]
    if op == "get_mut":
        return [(some(("mref", a[1], a[2] + (("mv", key),))) if hit else none(), st)]
    if op in ("insert", "replace") and a[0] == "mref":
        x = UNIT if isset else args[2]
        if hit:
            ni = [(k, x if k == key else y) for k, y in it]
        else:
            ni = it + [(key, x)]
        s = setm(ctx, st, a, mk_map(kind, ni))
        if isset:
            return [(("i", int(not hit)), s)]
        return [(some(hit[0]) if hit else none(), s)]
    if op in ("remove", "shift_remove", "swap_remove", "take") and a[0] == "mref":
        s = setm(ctx, st, a, mk_map(kind, [(k, x) for k, x in it if k != key]))
        if isset and op == "remove":
            return [(("i", int(bool(hit))), s)]
        return [(some(hit[0] if not isset else key) if hit else none(), s)]
    if op == "entry" and a[0] == "mref":
        e = "hash_map" if kind == "HashMap" else "btree_map" if kind == "BTreeMap" else "indexmap"
        p = "std::collections::%s::Entry" % e if e != "indexmap" else "indexmap::map::Entry"
        x = X("entry", (a, key), "occ" if hit else "vac")
        adt = ctx.I.P.adt_by_path.get(p)
        if adt is not None:
            vi = [i for i, w in enumerate(adt["variants"]) if w["name"] == ("Occupied" if hit else "Vacant")]
            if vi:
                return [(("adt", p, vi[0], (x,)), st)]
        return [(x, st)]
    ks = [("sref", k, None) for k, _ in it]
    if op == "keys" or (isset and op in ("iter", "into_iter")):
        return [(("arr", tuple(ks)), st)]
    if op in ("into_keys",):
        return [(("arr", tuple(k for k, _ in it)), st)]
    if op == "values":
        return [(("arr", tuple(("sref", x, None) for _, x in it)), st)]
    if op == "into_values":
        return [(("arr", tuple(x for _, x in it)), st)]
    if op == "iter":
        return [(("arr", tuple(("tup", (("sref", k, None), ("sref", x, None))) for k, x in it)), st)]
    if op == "values_mut" and a[0] == "mref":
        return [(("arr", tuple(("mref", a[1], a[2] + (("mv", k),)) for k, _ in it)), st)]
    if op == "iter_mut" and a[0] == "mref":
        return [(("arr", tuple(("tup", (("sref", k, None), ("mref", a[1], a[2] + (("mv", k),)))) for k, _ in it)), st)]
    if op == "clear" and a[0] == "mref":
        return [(UNIT, setm(ctx, st, a, X("map", (), kind)))]
    return None


class MapModels(dict):
    """XM with the families whose paths carry generic parameters"""

    def get(self, k, d=None):
        if isinstance(k, str) and k.startswith(("std::coll", "indexmap", "hashbrown")):
            if MAPRE.match(k):
                return map_call
            if ENTRYRE.match(k):
                return entry_call
        return dict.get(self, k, d)


ENTRYRE = re.compile(r"^(std::collections|indexmap)::(hash_map|btree_map|map)::(core::)?(Entry|OccupiedEntry|VacantEntry)::<.*>::(\w+)$")


def entry_call(ctx, args, st):
    op = ENTRYRE.match(ctx.f["p"]).group(5)
    e = val(ctx, st, args[0])
    if e[0] == "adt" and e[1].endswith("Entry"):
        e = e[3][0]
    if not isx(e, "entry"):
        return None
    a, key = e[2]
    m = ctx.I.rd(st, a[1], a[2])
    slot = ("mref", a[1], a[2] + (("mv", key),))
    if op == "get":
        return [(("sref", ctx.I.rd(st, slot[1], slot[2]), None), st)]
    if op in ("get_mut", "into_mut"):
        return [(slot, st)]
    if op == "key":
        return [(("sref", key, None), st)]
    if op == "remove":
        old = ctx.I.rd(st, slot[1], slot[2])
        return [(old, setm(ctx, st, a, mk_map(m[3], [(k, x) for k, x in map_items(m) if k != key])))]

    def ins(x, s):
        m2 = ctx.I.rd(s, a[1], a[2])
        items = map_items(m2)
        if any(k == key for k, _ in items):
            items = [(k, x if k == key else y) for k, y in items]
        else:
            items.append((key, x))
        return setm(ctx, s, a, mk_map(m2[3], items))
    if op == "insert":
        if e[3] == "occ":
            old = ctx.I.rd(st, slot[1], slot[2])
            return [(old, ins(args[1], st))]
        return [(slot, ins(args[1], st))]
    if op in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
        if e[3] == "occ":
            return [(slot, st)]
        if op == "or_insert":
            return [(slot, ins(args[1], st))]
        if op == "or_default":
            t = ctx.ta(1)
            d = ctx.I.default_of(t) if t is not None else None
            return [(slot, ins(d if d is not None else O0, st))]
        return [(slot, ins(r, s)) for r, s in ctx.invoke(args[1], [] if op == "or_insert_with" else [("sref", key, None)], st)]
    if op == "and_modify":
        if e[3] == "vac":
            return [(args[0], st)]
        return [(args[0], s) for r, s in ctx.invoke(args[1], [slot], st)]
    return None


# ---------------------------------------------------------------- sequences
for _p in ("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::new_in", "std::collections::VecDeque::<T>::new"):
    XM[_p] = lambda ctx, args, st: [(("arr", ()), st)]
for _p in ("std::string::String::new", "std::string::String::with_capacity"):
    XM[_p] = lambda ctx, args, st: [(("s", ""), st)]


def seqmut(f):
    def g(ctx, args, st):
        v, a = rdm(ctx, st, args[0])
        if v[0] != "arr" or a[0] != "mref":
            return None
        r = f(ctx, st, v[1], args)
        if r is None:
            return None
        ret, nv = r
        return [(ret, setm(ctx, st, a, ("arr", tuple(nv))) if nv is not None else st)]
    return g


def _num(ctx, st, v):
    v = val(ctx, st, v)
    return v[1] if v[0] == "i" else None


V = "std::vec::Vec::<T, A>::"
XM[V + "push"] = seqmut(lambda c, st, x, a: (UNIT, x + (a[1],)))
XM[V + "pop"] = seqmut(lambda c, st, x, a: (some(x[-1]), x[:-1]) if x else (none(), x))
XM[V + "clear"] = seqmut(lambda c, st, x, a: (UNIT, ()))
XM[V + "remove"] = seqmut(lambda c, st, x, a: (x[_num(c, st, a[1])], x[:_num(c, st, a[1])] + x[_num(c, st, a[1]) + 1:]) if _num(c, st, a[1]) is not None and _num(c, st, a[1]) < len(x) else None)
XM[V + "swap_remove"] = None
XM[V + "insert"] = seqmut(lambda c, st, x, a: (UNIT, x[:_num(c, st, a[1])] + (a[2],) + x[_num(c, st, a[1]):]) if _num(c, st, a[1]) is not None else None)
XM[V + "truncate"] = seqmut(lambda c, st, x, a: (UNIT, x[:_num(c, st, a[1])]) if _num(c, st, a[1]) is not None else None)
XM[V + "reserve"] = lambda ctx, args, st: [(UNIT, st)]
XM[V + "shrink_to_fit"] = lambda ctx, args, st: [(UNIT, st)]
XM["core::slice::<impl [T]>::reverse"] = seqmut(lambda c, st, x, a: (UNIT, x[::-1]))
XM[V + "swap_remove"] = seqmut(lambda c, st, x, a: None)
XM["core::slice::<impl [T]>::swap"] = seqmut(lambda c, st, x, a: None)


def _drain(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    r = rng_of(val(ctx, st, args[1]), len(v[1])) if v[0] == "arr" else None
    if v[0] != "arr" or a[0] != "mref" or r is None:
        return None
    return [(("arr", v[1][r[0]:r[1]]), setm(ctx, st, a, ("arr", v[1][:r[0]] + v[1][r[1]:])))]


XM[V + "drain"] = _drain


@xm(V + "append")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    w, b = rdm(ctx, st, args[1])
    if v[0] == "arr" and w[0] == "arr" and a[0] == "mref" and b[0] == "mref":
        return [(UNIT, setm(ctx, setm(ctx, st, a, ("arr", v[1] + w[1])), b, ("arr", ())))]


@xm(V + "extend_from_slice")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    w = val(ctx, st, args[1])
    if v[0] == "arr" and w[0] == "arr" and a[0] == "mref":
        return [(UNIT, setm(ctx, st, a, ("arr", v[1] + w[1])))]


@xt("std::iter::Extend", "extend")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v, a = rdm(ctx, st, args[0])
    if a[0] != "mref":
        return None
    out = []
    for xs, s in exhaust(ctx, st, to_iter(ctx, st, args[1])):
        if xs is None:
            return None
        if v[0] == "arr":
            xs = [val1(ctx, s, x) if x[0] == "sref" and ctx.ta(1) is not None and ctx.ta(1).k == "ref" else x for x in xs]
            out.append((UNIT, setm(ctx, s, a, ("arr", v[1] + tuple(xs)))))
        elif isx(v, "map"):
            items = map_items(v)
            for x in xs:
                if v[3].endswith("Set"):
                    k, y = keyv(ctx, s, x), UNIT
                else:
                    x = val(ctx, s, x)
                    k, y = keyv(ctx, s, x[1][0]), x[1][1]
                if not concrete(k):
                    return None
                items = [(k2, y2) for k2, y2 in items if k2 != k] + [(k, y)] if any(k2 == k for k2, _ in items) else items + [(k, y)]
            out.append((UNIT, setm(ctx, s, a, mk_map(v[3], items))))
        elif v[0] == "s":
            t = v[1]
            for x in xs:
                x = val(ctx, s, x)
                t = None if t is None else t + x[1] if x[0] == "s" else t + chr(x[1]) if x[0] == "i" else None
            out.append((UNIT, setm(ctx, s, a, ("s", t) if t is not None else unk("extend"))))
        else:
            return None
    return out


def val1(ctx, st, v):
    return ctx.I.deref(st, v) if v[0] in ("sref", "mref") else v


def seqlen(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr":
        return [(("i", len(v[1])), st)]
    if v[0] == "s":
        return [(("i", len(v[1].encode())), st)]
    if isx(v, "map"):
        return [(("i", len(v[2]) // 2), st)]
    return [(unk("len"), st)]


def seqempty(ctx, args, st):
    r = seqlen(ctx, args, st)
    return [(("i", int(x[0][1] == 0)) if x[0][0] == "i" else unk("is_empty"), x[1]) for x in r]


for _p in (V + "len", "core::slice::<impl [T]>::len", "std::string::String::len", "core::str::<impl str>::len"):
    XM[_p] = seqlen
for _p in (V + "is_empty", "core::slice::<impl [T]>::is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty"):
    XM[_p] = seqempty


def _seqlen_m(self, st, v):
    while v[0] in ("sref", "box", "mref"):
        v = self.deref(st, v)
    return ("i", len(v[1])) if v[0] == "arr" else ("i", len(v[1].encode())) if v[0] == "s" else unk("len")


Exact.seqlen = _seqlen_m


def elemref(a, v, i):
    """reference to element i of a sequence reached through a"""
    if a[0] == "mref":
        return ("mref", a[1], a[2] + (("ix", i),))
    return ("sref", v[1][i], None)


def edge(ctx, args, st):
    name = ctx.f["p"].rsplit("::", 1)[1]
    v, a = rdm(ctx, st, args[0])
    if v[0] != "arr":
        return None
    n = len(v[1])
    mut = name.endswith("_mut")
    if name.startswith(("get", "nth")):
        i = val(ctx, st, args[1])
        if i[0] == "x" and i[1] == "range" or i[0] == "adt":
            r = rng_of(i, n)
            if r is None:
                return None
            return [(some(("sref", ("arr", v[1][r[0]:r[1]]), None)) if 0 <= r[0] <= r[1] <= n else none(), st)]
        if i[0] == "iv" and labs(i) and n <= 64:
            # a class symbol as an index: every index in range, and the ones beyond
            I = ctx.I
            i = I.bounded(st, i)
            I.note_fork(i)
            out = []
            for j in range(max(0, i[1]), min(n - 1, i[2]) + 1):
                s = I.constrain(dict(st), i, j, j)
                if s is not None:
                    out.append((some(elemref(a if mut else ("sref",), v, j)), s))
            if i[2] >= n:
                s = I.constrain(dict(st), i, max(i[1], n), i[2])
                if s is not None:
                    out.append((none(), s))
            return out
        if i[0] != "i":
            return None
        i = i[1]
    else:
        i = 0 if name.startswith("first") else n - 1
    if not 0 <= i < n:
        return [(none(), st)]
    return [(some(elemref(a if mut else ("sref",), v, i)), st)]


for _n in ("first", "last", "first_mut", "last_mut", "get", "get_mut"):
    XM["core::slice::<impl [T]>::" + _n] = edge


def _iter(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    if v[0] == "arr":
        if ctx.f["name"] == "iter_mut" and a[0] == "mref":
            return [(("arr", tuple(("mref", a[1], a[2] + (("ix", i),)) for i in range(len(v[1])))), st)]
        return [(("arr", tuple(("sref", x, None) for x in v[1])), st)]
    if v[0] == "adt" and v[1] == OPT:
        return [(("arr", tuple(("sref", x, None) for x in v[3])), st)]
    return [(unk("iter"), st)]


for _p in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::option::Option::<T>::iter"):
    XM[_p] = _iter


@xm("std::slice::<impl [T]>::to_vec", "std::vec::Vec::<T, A>::into_boxed_slice", "std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "slice::<impl [T]>::into_vec")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    return [(v, st)]


@xm("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice")
def _(ctx, args, st):
    if args[0][0] == "mref" and ctx.f["name"] == "as_mut_slice":
        return [(args[0], st)]
    return [(("sref", val(ctx, st, args[0]), None), st)]


def subseq(ctx, st, name, args):
    v = val(ctx, st, args[0])
    if v[0] != "arr":
        return None
    xs = v[1]
    sl = lambda y: ("sref", ("arr", tuple(y)), None)
    if name == "split_first":
        return [(some(("tup", (("sref", xs[0], None), sl(xs[1:])))) if xs else none(), st)]
    if name == "split_last":
        return [(some(("tup", (("sref", xs[-1], None), sl(xs[:-1])))) if xs else none(), st)]
    n = _num(ctx, st, args[1]) if len(args) > 1 else None
    if n is None:
        return None
    if name == "split_at":
        return [(("tup", (sl(xs[:n]), sl(xs[n:]))), st)] if n <= len(xs) else []
    if name == "chunks":
        return [(("arr", tuple(sl(xs[i:i + n]) for i in range(0, len(xs), n))), st)]
    if name == "windows":
        return [(("arr", tuple(sl(xs[i:i + n]) for i in range(0, len(xs) - n + 1))), st)]
    return None


for _n in ("split_first", "split_last", "split_at", "chunks", "windows"):
    XM["core::slice::<impl [T]>::" + _n] = (lambda n: lambda ctx, args, st: subseq(ctx, st, n, args))(_n)


@xm("core::slice::<impl [T]>::contains")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    k = keyv(ctx, st, args[1])
    if v[0] == "arr":
        rs = [ctx.I.eq(keyv(ctx, st, x), k) for x in v[1]]
        if True in rs:
            return [(TRUE, st)]
        if None not in rs:
            return [(FALSE, st)]
    return [(unk("contains"), st)]


@xm("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    sep = val(ctx, st, args[1]) if len(args) > 1 else ("s", "")
    if v[0] == "arr" and sep[0] == "s":
        xs = [val(ctx, st, x) for x in v[1]]
        if all(x[0] == "s" for x in xs):
            return [(("s", sep[1].join(x[1] for x in xs)), st)]
    return [(unk("join"), st)]


def _sort(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    if v[0] != "arr" or a[0] != "mref":
        return None
    name = ctx.f["name"]
    xs = list(v[1])
    try:
        if name in ("sort", "sort_unstable"):
            xs.sort(key=lambda x: pykey(keyv(ctx, st, x)))
        elif name in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
            ks = []
            for x in xs:
                r = ctx.invoke(args[1], [("sref", x, None)], st)
                if len(r) != 1:
                    return None
                ks.append(pykey(keyv(ctx, st, r[0][0])))
            xs = [x for _, _, x in sorted((k, i, x) for i, (k, x) in enumerate(zip(ks, xs)))]
        elif name in ("sort_by", "sort_unstable_by"):
            import functools

            def cmp(x, y):
                r = ctx.invoke(args[1], [("sref", x, None), ("sref", y, None)], st)
                o = r[0][0]
                if len(r) != 1 or o[0] != "adt":
                    raise TypeError
                return o[2] - 1
            xs.sort(key=functools.cmp_to_key(cmp))
        else:
            return None
    except TypeError:
        return None
    return [(UNIT, setm(ctx, st, a, ("arr", tuple(xs))))]


for _n in ("sort", "sort_unstable", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sort_by", "sort_unstable_by"):
    XM["std::slice::<impl [T]>::" + _n] = _sort
    XM["core::slice::<impl [T]>::" + _n] = _sort


def rng_of(v, n):
    """(start, end) of a range value over a sequence of length n"""
    if isx(v, "range"):
        v = ("adt", "std::ops::Range", 0, v[2])
    if v[0] != "adt":
        return None
    p = v[1].rsplit("::", 1)[1]
    f = [x[1] if x[0] == "i" else None for x in v[3]]
    if p == "RangeFull":
        return 0, n
    if any(x is None for x in f[:2]):
        return None
    if p == "Range":
        return f[0], f[1]
    if p == "RangeTo":
        return 0, f[0]
    if p == "RangeFrom":
        return f[0], n
    if p == "RangeInclusive":
        return f[0], f[1] + 1
    if p == "RangeToInclusive":
        return 0, f[0] + 1
    return None


@xt("std::ops::Index", "index")
@xt("std::ops::IndexMut", "index_mut")
def index(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v, a = rdm(ctx, st, args[0])
    i = val(ctx, st, args[1])
    mut = ctx.f["name"] == "index_mut"
    if isx(v, "map"):
        k = keyv(ctx, st, args[1])
        for kk, x in map_items(v):
            if kk == k:
                return [(("mref", a[1], a[2] + (("mv", k),)) if mut else ("sref", x, None), st)]
        ctx.panic("index:map")
        return []
    if v[0] == "arr" and i[0] == "i":
        if not 0 <= i[1] < len(v[1]):
            ctx.panic("index")
            return []
        return [(elemref(a if mut else ("sref",), v, i[1]), st)]
    if v[0] == "arr":
        r = rng_of(i, len(v[1]))
        if r is not None:
            if not 0 <= r[0] <= r[1] <= len(v[1]):
                ctx.panic("index")
                return []
            return [(("sref", ("arr", v[1][r[0]:r[1]]), None), st)]
    if v[0] == "s":
        b = v[1].encode()
        r = rng_of(i, len(b))
        if r is not None:
            s = cut(b, r)
            if s is None:
                ctx.panic("str index")
                return []
            return [(("s", s), st)]
    return [(unk("index"), st)]


XM[("trait", "std::ops::IndexMut", "index_mut")] = index


def cut(b, r):
    if not 0 <= r[0] <= r[1] <= len(b):
        return None
    try:
        return b[r[0]:r[1]].decode()
    except UnicodeDecodeError:
        return None


# ---------------------------------------------------------------- iterators
LAZY = ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "map_while", "inspect", "scan", "step_by", "fuse", "peekable", "enumerate", "zip", "chain", "rev", "skip", "take",
        "cloned", "copied", "flatten", "by_ref", "cycle")


def to_iter(ctx, st, v, ty=None):
    """an iterator value for something iterable"""
    if isx(v, "it"):
        return v
    if v[0] == "arr":
        return v
    if isx(v, "map"):
        if v[3].endswith("Set"):
            return ("arr", tuple(k for k, _ in map_items(v)))
        return ("arr", tuple(("tup", kv) for kv in map_items(v)))
    if v[0] == "adt" and v[1] == OPT:
        return ("arr", tuple(v[3]))
    if v[0] == "adt" and v[1] == RES:
        return ("arr", tuple(v[3]) if v[2] == 0 else ())
    if v[0] == "adt" and v[1] == "std::ops::RangeFrom" and v[3][0][0] == "i":
        return X("it", (), ("from", v[3][0][1]))
    if v[0] == "adt" and v[1] in ("std::ops::Range", "std::ops::RangeInclusive") and v[3][0][0] == "i" and v[3][1][0] == "i":
        hi = v[3][1][1] + (1 if v[1].endswith("Inclusive") else 0)
        if hi - v[3][0][1] > 5000:
            return None
        return ("arr", tuple(("i", n) for n in range(v[3][0][1], hi)))
    if v[0] == "sref":
        x = v[1]
        while x[0] in ("sref", "box"):
            x = x[1]
        if x[0] == "mref":
            return to_iter(ctx, st, ("sref", ctx.I.rd(st, x[1], x[2]), None))
        if x[0] == "arr":
            return ("arr", tuple(("sref", y, None) for y in x[1]))
        if isx(x, "map"):
            if x[3].endswith("Set"):
                return ("arr", tuple(("sref", k, None) for k, _ in map_items(x)))
            return ("arr", tuple(("tup", (("sref", k, None), ("sref", y, None))) for k, y in map_items(x)))
        if x[0] == "adt" and x[1] == OPT:
            return ("arr", tuple(("sref", y, None) for y in x[3]))
        return None
    if v[0] == "mref":
        x = ctx.I.rd(st, v[1], v[2])
        if ty is not None and ty.k == "refmut" and ty.arg(0).p in ("std::vec::Vec",) or (ty is not None and ty.k == "refmut" and ty.arg(0).k in ("slice", "array")):
            if x[0] == "arr":
                return ("arr", tuple(("mref", v[1], v[2] + (("ix", i),)) for i in range(len(x[1]))))
        if x[0] == "arr" or isx(x, "it"):
            return v
        if x[0] == "mref":
            return to_iter(ctx, st, x, ty)
        return None
    if v[0] == "box":
        return to_iter(ctx, st, v[1])
    return None


def nxt(ctx, st, it):
    """-> [(element or None, iterator after, st)]; element "?" when unknown"""
    if it[0] == "arr":
        if not it[1]:
            return [(None, it, st)]
        return [(it[1][0], ("arr", it[1][1:]), st)]
    if it[0] == "mref":
        inner = ctx.I.rd(st, it[1], it[2])
        out = []
        for e, n, s in nxt(ctx, st, inner):
            out.append((e, it, setm(ctx, s, it, n)))
        return out
    if not isx(it, "it"):
        return [("?", it, st)]
    k = it[3][0] if isinstance(it[3], tuple) else it[3]
    ks = it[2]
    R = lambda n, *more: X("it", (n,) + (more or ks[1:]), it[3])
    out = []
    if k == "local":  # an iterator implemented in the crate
        g = ctx.I.P.fns[it[3][1]]
        ctx.I.nf += 1
        c = ("T", ctx.I.nf)
        s = dict(st)
        s[c] = ks[0]
        for r, s2 in ctx.I.call_local(g, [("mref", c, ())], s, ctx.quiet):
            n = X("it", (s2.pop(c, O0),), it[3])
            if r[0] == "adt" and r[1] == OPT:
                out.append((r[3][0] if r[2] else None, n, s2))
            else:
                out.append(("?", n, s2))
        return out
    if k == "peekable":
        if len(ks) == 2:
            p = ks[1]
            return [(p[3][0] if p[2] else None, X("it", (ks[0],), it[3]), st)]
        return [(e, R(n), s) for e, n, s in nxt(ctx, st, ks[0])]
    if k == "from":
        return [(("i", it[3][1]), X("it", (), ("from", it[3][1] + 1)), st)]
    if k == "repeat":
        return [(ks[0], it, st)]
    if k == "once_with":
        if not ks:
            return [(None, it, st)]
        return [(r, X("it", (), it[3]), s) for r, s in ctx.invoke(ks[0], [], st)]
    if k == "repeat_with":
        ctx.I.nf += 1
        c = ("T", ctx.I.nf)
        s = dict(st)
        s[c] = ks[0]
        return [(r, X("it", (s2.pop(c, O0),), it[3]), s2) for r, s2 in ctx.invoke(("mref", c, ()), [], s)]
    if k == "from_fn":
        ctx.I.nf += 1
        c = ("T", ctx.I.nf)
        s = dict(st)
        s[c] = ks[0]
        for r, s2 in ctx.invoke(("mref", c, ()), [], s):
            n = X("it", (s2.pop(c, O0),), it[3])
            out.append((r[3][0] if r[0] == "adt" and r[2] else None if r[0] == "adt" else "?", n, s2))
        return out
    if k == "successors":
        p = ks[0]
        if p[0] != "adt":
            return [("?", it, st)]
        if not p[2]:
            return [(None, it, st)]
        return [(p[3][0], X("it", (r, ks[1]), it[3]), s2) for r, s2 in ctx.invoke(ks[1], [("sref", p[3][0], None)], st)]
    if k == "scan":
        for e, n, s in nxt(ctx, st, ks[0]):
            if e is None or e == "?":
                out.append((e, R(n), s))
                continue
            ctx.I.nf += 1
            c = ("T", ctx.I.nf)
            s = dict(s)
            s[c] = ks[1]
            for r, s2 in ctx.invoke(ks[2], [("mref", c, ()), e], s):
                m = X("it", (n, s2.pop(c, O0), ks[2]), it[3])
                out.append((r[3][0] if r[0] == "adt" and r[2] else None if r[0] == "adt" else "?", m, s2))
        return out
    if k == "cycle":
        for e, n, s in nxt(ctx, st, ks[0]):
            if e is None:
                for e2, n2, s2 in nxt(ctx, s, ks[1]):
                    out.append((e2, X("it", (n2, ks[1]), it[3]), s2))
            else:
                out.append((e, X("it", (n, ks[1]), it[3]), s))
        return out
    if k == "step_by":
        first, step = it[3][1], it[3][2]
        work = [(ks[0], st, 0 if first else step - 1)]
        while work:
            i0, s0, c = work.pop()
            for e, n, s in nxt(ctx, s0, i0):
                if c > 0 and e is not None and e != "?":
                    work.append((n, s, c - 1))
                else:
                    out.append((e, X("it", (n,), (k, False, step)), s))
        return out
    if k == "fuse":
        return [(e, R(n), s) for e, n, s in nxt(ctx, st, ks[0])]
    if k == "map":
        for e, n, s in nxt(ctx, st, ks[0]):
            if e is None or e == "?":
                out.append((e, R(n), s))
            else:
                out += [(r, R(n), s2) for r, s2 in ctx.invoke(ks[1], [e], s)]
        return out
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while", "inspect"):
        if k in ("take_while", "map_while") and it[3][1] == "done":
            return [(None, it, st)]
        work = [(ks[0], st)]
        guard = 0
        while work:
            guard += 1
            if guard > 5000:
                raise Imprecise("iterator bound")
            i0, s0 = work.pop()
            for e, n, s in nxt(ctx, s0, i0):
                if e is None or e == "?":
                    out.append((e, R(n), s))
                    continue
                if k == "skip_while" and it[3][1] == "open":
                    out.append((e, R(n), s))
                    continue
                arg = e if k in ("filter_map", "map_while") else ("sref", e, None)
                for r, s2 in ctx.invoke(ks[1], [arg], s):
                    if k in ("filter_map", "map_while"):
                        if r[0] == "adt" and r[1] == OPT:
                            if r[2]:
                                out.append((r[3][0], R(n), s2))
                            elif k == "map_while":
                                out.append((None, X("it", (n,) + ks[1:], (k, "done")), s2))
                            else:
                                work.append((n, s2))
                        else:
                            out.append(("?", R(n), s2))
                    elif k == "inspect":
                        out.append((e, R(n), s2))
                    else:
                        yes = r != FALSE
                        no = r != TRUE
                        if k == "skip_while":
                            yes, no = no, yes
                        if yes:
                            out.append((e, X("it", (n,) + ks[1:], (k, "open")) if k == "skip_while" else R(n), dict(s2)))
                        if no:
                            if k == "take_while":
                                out.append((None, X("it", (n,) + ks[1:], (k, "done")), dict(s2)))
                            else:
                                work.append((n, dict(s2)))
        return out
    if k == "enumerate":
        i = it[3][1]
        return [((e if e is None or e == "?" else ("tup", (("i", i), e))), X("it", (n,), (k, i + 1)), s) for e, n, s in nxt(ctx, st, ks[0])]
    if k == "zip":
        for e, n, s in nxt(ctx, st, ks[0]):
            if e is None or e == "?":
                out.append((e, X("it", (n, ks[1]), it[3]), s))
                continue
            for e2, n2, s2 in nxt(ctx, s, ks[1]):
                out.append(((e2 if e2 is None or e2 == "?" else ("tup", (e, e2))), X("it", (n, n2), it[3]), s2))
        return out
    if k == "chain":
        for e, n, s in nxt(ctx, st, ks[0]):
            if e is None:
                out += [(e2, X("it", (n, n2), it[3]), s2) for e2, n2, s2 in nxt(ctx, s, ks[1])]
            else:
                out.append((e, X("it", (n, ks[1]), it[3]), s))
        return out
    if k == "take":
        if it[3][1] == 0:
            return [(None, it, st)]
        return [(e, X("it", (n,), (k, it[3][1] - 1)), s) for e, n, s in nxt(ctx, st, ks[0])]
    if k == "skip":
        work = [(ks[0], st, it[3][1])]
        while work:
            i0, s0, c = work.pop()
            for e, n, s in nxt(ctx, s0, i0):
                if c > 0 and e is not None and e != "?":
                    work.append((n, s, c - 1))
                else:
                    out.append((e, X("it", (n,), (k, 0)), s))
        return out
    if k in ("cloned", "copied"):
        return [(e if e is None or e == "?" else val1(ctx, s, e), R(n), s) for e, n, s in nxt(ctx, st, ks[0])]
    if k in ("flatten", "flat_map"):
        # ks: outer, [closure], current inner (or none)
        inner = it[3][1]
        cur = ks[-1] if inner else None
        outer = ks[0]
        clo = ks[1:2] if k == "flat_map" else ()
        work = [(outer, cur, st)]
        guard = 0
        while work:
            guard += 1
            if guard > 5000:
                raise Imprecise("iterator bound")
            o, c, s0 = work.pop()
            if c is not None:
                for e, n, s in nxt(ctx, s0, c):
                    if e is None:
                        work.append((o, None, s))
                    else:
                        out.append((e, X("it", (o,) + clo + (n,), (k, True)), s))
                continue
            for e, n, s in nxt(ctx, s0, o):
                if e is None or e == "?":
                    out.append((e, X("it", (n,) + clo, (k, False)), s))
                    continue
                subs = ctx.invoke(clo[0], [e], s) if clo else [(e, s)]
                for r, s2 in subs:
                    i2 = to_iter(ctx, s2, r)
                    if i2 is None:
                        out.append(("?", X("it", (n,) + clo, (k, False)), s2))
                    else:
                        work.append((n, i2, s2))
        return out
    return [("?", it, st)]


def exhaust(ctx, st, it, stop=None):
    """-> [(list of elements or None when unknown, st)]"""
    if it is None:
        return [(None, st)]
    if it[0] == "arr":
        return [(list(it[1]), st)]
    out = []
    work = [(it, st, [])]
    guard = 0
    while work:
        guard += 1
        if guard > 20000:
            raise Imprecise("iterator bound")
        i0, s0, xs = work.pop()
        for e, n, s in nxt(ctx, s0, i0):
            if e is None:
                out.append((xs, s))
            elif e == "?":
                out.append((None, s))
            elif stop and stop(e):
                out.append((xs + [e], s))
            else:
                work.append((n, s, xs + [e]))
    return out


@xt("std::iter::Iterator", "next")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    a = follow(ctx, st, args[0])
    v = ctx.I.rd(st, a[1], a[2]) if a[0] == "mref" else a
    it = to_iter(ctx, st, v) if v[0] == "adt" else v
    if it is None:
        return None
    out = []
    for e, n, s in nxt(ctx, st, it):
        if a[0] == "mref":
            s = setm(ctx, s, a, n)
        out.append((unk("next") if e == "?" else none() if e is None else some(e), s))
    return out


@xt("std::iter::DoubleEndedIterator", "next_back")
def _(ctx, args, st):
    a = follow(ctx, st, args[0])
    v = ctx.I.rd(st, a[1], a[2]) if a[0] == "mref" else a
    if v[0] == "arr" and a[0] == "mref":
        return [(some(v[1][-1]) if v[1] else none(), setm(ctx, st, a, ("arr", v[1][:-1])))]
    return None


@xm("std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::peek_mut")
def _(ctx, args, st):
    a = follow(ctx, st, args[0])
    if a[0] != "mref":
        return None
    v = ctx.I.rd(st, a[1], a[2])
    if v[0] == "arr":
        return [(some(("sref", v[1][0], None)) if v[1] else none(), st)]
    if isx(v, "it") and v[3][0] == "peekable":
        if len(v[2]) == 2:
            p = v[2][1]
            return [(some(("sref", p[3][0], None)) if p[2] else none(), st)]
        out = []
        for e, n, s in nxt(ctx, st, v[2][0]):
            if e == "?":
                out.append((unk("peek"), s))
                continue
            p = none() if e is None else some(e)
            out.append((some(("sref", e, None)) if e is not None else none(), setm(ctx, s, a, X("it", (n, p), v[3]))))
        return out
    return None


@xm("std::iter::Peekable::<I>::next_if", "std::iter::Peekable::<I>::next_if_eq")
def _(ctx, args, st):
    a = follow(ctx, st, args[0])
    v = ctx.I.rd(st, a[1], a[2]) if a[0] == "mref" else O0
    if v[0] != "arr":
        return None
    if not v[1]:
        return [(none(), st)]
    e = v[1][0]
    if ctx.f["name"] == "next_if_eq":
        rs = [(("i", int(bool(ctx.I.eq(e, val(ctx, st, args[1]))))), st)]
    else:
        rs = ctx.invoke(args[1], [("sref", e, None)], st)
    out = []
    for r, s in rs:
        if r != FALSE:
            out.append((some(e), setm(ctx, s, a, ("arr", v[1][1:]))))
        if r != TRUE:
            out.append((none(), dict(s)))
    return out


@xt("std::iter::IntoIterator", "into_iter")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    it = to_iter(ctx, st, args[0], ctx.ta(0))
    if it is not None:
        return [(it, st)]
    # a crate-local iterator is its own IntoIterator
    return [(args[0], st)] if args[0][0] == "adt" else [(unk("into_iter"), st)]


def local_next(ctx):
    """the crate's own Iterator::next for the receiver type, when the callee is an adaptor over it"""
    for n, i in ctx.f.get("via", []):
        if n.endswith("Iterator::next") and i in ctx.I.P.fns:
            return i
    return None


def recv(ctx, st, v):
    it = to_iter(ctx, st, v)
    if it is None:
        i = local_next(ctx)
        if i is not None:
            return X("it", (v,), ("local", i))
        if v[0] == "mref" and ctx.I.rd(st, v[1], v[2])[0] == "adt":
            return None
    return it


def lazy(k):
    def f(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        it = recv(ctx, st, args[0])
        if it is None:
            return None if args[0][0] in ("adt", "mref") else [(unk("iterator"), st)]
        if k == "by_ref":
            return [(args[0], st)]
        if k == "rev":
            out = []
            for xs, s in exhaust(ctx, st, it):
                out.append((("arr", tuple(reversed(xs))) if xs is not None else unk("rev"), s))
            return out
        if k == "peekable":
            return [(it if it[0] == "arr" else X("it", (it,), ("peekable",)), st)]
        if k == "enumerate":
            if it[0] == "arr":
                return [(("arr", tuple(("tup", (("i", i), x)) for i, x in enumerate(it[1]))), st)]
            return [(X("it", (it,), ("enumerate", 0)), st)]
        if k in ("zip", "chain"):
            o = to_iter(ctx, st, args[1])
            if o is None:
                return [(unk("iterator"), st)]
            return [(X("it", (it, o), (k,)), st)]
        if k in ("take", "skip", "step_by"):
            n = _num(ctx, st, args[1])
            if n is None:
                return [(unk("iterator"), st)]
            if it[0] == "arr":
                x = it[1]
                return [(("arr", x[:n] if k == "take" else x[n:] if k == "skip" else x[::n]), st)]
            if k == "step_by":
                return [(X("it", (it,), (k, True, n)), st)]
            return [(X("it", (it,), (k, n)), st)]
        if k in ("flatten", "flat_map"):
            return [(X("it", (it,) + ((args[1],) if k == "flat_map" else ()), (k, False)), st)]
        if k in ("cloned", "copied", "fuse"):
            return [(X("it", (it,), (k,)), st)]
        if k in ("take_while", "map_while"):
            return [(X("it", (it, args[1]), (k, "")), st)]
        if k == "skip_while":
            return [(X("it", (it, args[1]), (k, "")), st)]
        if k == "scan":
            return [(X("it", (it, args[1], args[2]), (k,)), st)]
        if k == "cycle":
            return [(X("it", (it, it), (k,)), st)]
        return [(X("it", (it, args[1]), (k,)), st)]
    return f


for _k in LAZY:
    XM[("trait", "std::iter::Iterator", _k)] = lazy(_k)


def _all(ctx, args, st):
    it = recv(ctx, st, args[0])
    return exhaust(ctx, st, it)


def consume(name, f):
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        out = []
        for xs, s in _all(ctx, args, st):
            if xs is None:
                out.append((unk(name), s))
                continue
            r = f(ctx, args, s, xs)
            if r is None:
                out.append((unk(name), s))
            elif isinstance(r, list):
                out += r
            else:
                out.append((r, s))
        return out
    XM[("trait", "std::iter::Iterator", name)] = g
    XM[("trait", "std::iter::ExactSizeIterator", name)] = g


consume("count", lambda c, a, s, xs: ("i", len(xs)))
consume("last", lambda c, a, s, xs: some(xs[-1]) if xs else none())


def _len(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    return seqlen(ctx, args, st)


XM[("trait", "std::iter::ExactSizeIterator", "len")] = _len


def _sum(c, a, s, xs):
    ns = [val(c, s, x) for x in xs]
    return ("i", sum(n[1] for n in ns)) if all(n[0] == "i" for n in ns) else None


consume("sum", _sum)


def _nums(pick):
    def f(c, a, s, xs):
        if not xs:
            return none()
        try:
            return some(pick(xs, key=lambda x: pykey(keyv(c, s, x))))
        except TypeError:
            return None
    return f


consume("max", _nums(max))
consume("min", _nums(min))


def _nth(c, a, s, xs):
    n = _num(c, s, a[1])
    return None if n is None else some(xs[n]) if n < len(xs) else none()


consume("nth", _nth)


def _unzip(c, a, s, xs):
    xs = [val(c, s, x) for x in xs]
    if all(x[0] == "tup" and len(x[1]) == 2 for x in xs):
        return ("tup", (("arr", tuple(x[1][0] for x in xs)), ("arr", tuple(x[1][1] for x in xs))))


consume("unzip", _unzip)


def _fold(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    out = []
    tr = ctx.f["name"] == "try_fold"
    for xs, s in _all(ctx, args, st):
        if xs is None:
            out.append((unk("fold"), s))
            continue
        if tr:
            return None
        states = [(args[1], s)]
        for x in xs:
            states = [r for acc, s0 in states for r in ctx.invoke(args[2], [acc, x], s0)]
        out += states
    return out


XM[("trait", "std::iter::Iterator", "fold")] = _fold


def _foreach(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    out = []
    for xs, s in _all(ctx, args, st):
        if xs is None:
            out.append((UNIT, s))
            continue
        states = [s]
        for x in xs:
            states = [s2 for s0 in states for _, s2 in ctx.invoke(args[1], [x], s0)]
        out += [(UNIT, s2) for s2 in states]
    return out


XM[("trait", "std::iter::Iterator", "for_each")] = _foreach


def _tryforeach(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    out = []
    for xs, s in _all(ctx, args, st):
        if xs is None:
            out.append((unk("try_for_each"), s))
            continue
        states = [s]
        for x in xs:
            ns = []
            for s0 in states:
                for r, s2 in ctx.invoke(args[1], [x], s0):
                    if r[0] == "adt" and r[1] == RES:
                        if r[2] == 0:
                            ns.append(s2)
                        else:
                            out.append((r, s2))
                    else:
                        return None
            states = ns
        out += [(ok(UNIT), s2) for s2 in states]
    return out


XM[("trait", "std::iter::Iterator", "try_for_each")] = _tryforeach


def search(name, pos, neg, arg, result):
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        a0 = args[0]
        it = recv(ctx, st, a0)
        if it is None:
            return [(unk(name), st)]
        mut = a0 if a0[0] == "mref" else None
        out = []
        work = [(it, st, 0)]
        while work:
            i0, s0, k = work.pop()
            if k > 5000:
                raise Imprecise("iterator bound")
            for e, n, s in nxt(ctx, s0, i0):
                if e is None:
                    out.append((neg, s))
                    continue
                if e == "?":
                    out.append((unk(name), s))
                    continue
                for r, s2 in ctx.invoke(args[1], [("sref", e, None) if arg == "ref" else e], s):
                    if name == "find_map":
                        if r[0] == "adt" and r[1] == OPT:
                            if r[2]:
                                out.append((r, s2))
                            else:
                                work.append((n, s2, k + 1))
                        else:
                            out.append((unk(name), s2))
                        continue
                    hit, miss = r != FALSE, r != TRUE
                    if name == "all":
                        hit, miss = miss, hit
                    if hit:
                        out.append((result(e, k), dict(s2)))
                    if miss:
                        work.append((n, dict(s2), k + 1))
        return out
    XM[("trait", "std::iter::Iterator", name)] = g


search("any", TRUE, FALSE, "val", lambda e, k: TRUE)
search("all", FALSE, TRUE, "val", lambda e, k: FALSE)
search("find", None, none(), "ref", lambda e, k: some(e))
search("position", None, none(), "val", lambda e, k: some(("i", k)))
search("find_map", None, none(), "val", None)


def collect_into(ctx, st, t, xs):
    p = t.p or ""
    if p in ("std::vec::Vec", "std::boxed::Box", "std::collections::VecDeque"):
        return ("arr", tuple(xs))
    m = re.search(r"(HashMap|BTreeMap|IndexMap|HashSet|BTreeSet|IndexSet)$", p)
    if m:
        items = []
        for x in xs:
            if m.group(1).endswith("Set"):
                k, y = keyv(ctx, st, x), UNIT
            else:
                x = val(ctx, st, x)
                if x[0] != "tup":
                    return unk("collect")
                k, y = keyv(ctx, st, x[1][0]), x[1][1]
            if not concrete(k):
                return unk("collect")
            items = [(a, y if a == k else b) for a, b in items] if any(a == k for a, _ in items) else items + [(k, y)]
        return mk_map(m.group(1), items)
    if p == "std::string::String":
        out = ""
        for x in xs:
            x = val(ctx, st, x)
            if x[0] == "s":
                out += x[1]
            elif x[0] == "i":
                out += chr(x[1])
            else:
                return unk("collect")
        return ("s", out)
    if t.k == "tuple" and not t.a:
        return UNIT
    return unk("collect")


@xt("std::iter::Iterator", "collect")
@xt("std::iter::FromIterator", "from_iter")
def _collect(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    t = ctx.I.P.types[ctx.t["dty"]] if ctx.t.get("dty") is not None else None
    it = recv(ctx, st, args[0])
    if t is None or it is None:
        return [(unk("collect"), st)]
    bad = None
    if t.p == RES:
        bad = lambda e: not (e[0] == "adt" and e[2] == 0)
    elif t.p == OPT:
        bad = lambda e: not (e[0] == "adt" and e[2] == 1)
    out = []
    for xs, s in exhaust(ctx, st, it, bad):
        if xs is None:
            out.append((unk("collect"), s))
            continue
        if bad:
            if xs and bad(xs[-1]):
                e = xs[-1]
                out.append((e if e[0] == "adt" else unk("collect"), s))
                continue
            for c, s2 in collect_local(ctx, s, t.arg(0), [x[3][0] for x in xs]):
                out.append((ok(c) if t.p == RES else some(c), s2))
        else:
            out += collect_local(ctx, s, t, xs)
    return out


def collect_local(ctx, st, t, xs):
    """collect_into, where the collection may be a type of the crate with its own FromIterator"""
    P = ctx.I.P
    if t.p and t.p in P.adt_by_path and not t.p.startswith("std::"):
        fs = [f for im, k in P.trait_impls.get(("std::iter::FromIterator", "from_iter"), []) for f in P.by_key.get(k, []) if P.types[f.j["self"]].p == t.p]
        if len(fs) == 1:
            r = ctx.I.call_local(fs[0], [("arr", tuple(xs))], st, ctx.quiet)
            if r is not None:
                return r
    return [(collect_into(ctx, st, t, xs), st)]


XM[("trait", "std::iter::Iterator", "collect")] = _collect


def _partition(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    out = []
    for xs, s in _all(ctx, args, st):
        if xs is None:
            out.append((unk("partition"), s))
            continue
        states = [((), (), s)]
        for x in xs:
            ns = []
            for l, r_, s0 in states:
                for r, s2 in ctx.invoke(args[1], [("sref", x, None)], s0):
                    if r != FALSE:
                        ns.append((l + (x,), r_, dict(s2)))
                    if r != TRUE:
                        ns.append((l, r_ + (x,), dict(s2)))
            states = ns
        out += [(("tup", (("arr", l), ("arr", r_))), s2) for l, r_, s2 in states]
    return out


XM[("trait", "std::iter::Iterator", "partition")] = _partition
XM["std::iter::once"] = lambda ctx, args, st: [(("arr", (args[0],)), st)]
XM["std::iter::empty"] = lambda ctx, args, st: [(("arr", ()), st)]
XM["std::iter::repeat_n"] = lambda ctx, args, st: [(("arr", (args[0],) * args[1][1]), st)] if args[1][0] == "i" and args[1][1] < 1000 else None
XM["std::ops::RangeInclusive::<Idx>::new"] = lambda ctx, args, st: [(("adt", "std::ops::RangeInclusive", 0, (args[0], args[1], FALSE)), st)]
XM[("trait", "std::iter::Iterator", "size_hint")] = lambda ctx, args, st: [(unk("size_hint"), st)]


@xm("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains")
def _(ctx, args, st):
    r, x = val(ctx, st, args[0]), val(ctx, st, args[1])
    if r[0] == "adt" and r[3][0][0] == "i" and r[3][1][0] == "i":
        lo, hi = r[3][0][1], r[3][1][1] - (0 if r[1].endswith("Inclusive") else 1)
        if x[0] == "i":
            return [(("i", int(lo <= x[1] <= hi)), st)]
        if x[0] == "iv":
            if lo <= x[1] and x[2] <= hi:
                return [(TRUE, st)]
            if x[2] < lo or x[1] > hi:
                return [(FALSE, st)]
    return [(unk("contains"), st)]


# ---------------------------------------------------------------- strings
WS = " \t\n\r\x0b\x0c\x85\xa0"


def isws(c):
    return c in WS or (c.isspace() and ord(c) > 0x1f)


def strip_l(s):
    i = 0
    while i < len(s) and isws(s[i]):
        i += 1
    return s[i:]


def strip_r(s):
    i = len(s)
    while i > 0 and isws(s[i - 1]):
        i -= 1
    return s[:i]


def matcher(ctx, st, p):
    """pattern argument -> function text,pos -> length of the match at pos or None (list of results per path unsupported)"""
    v = val(ctx, st, p)
    if v[0] == "s":
        return lambda s, i: len(v[1]) if s.startswith(v[1], i) else None
    if v[0] == "i":
        return lambda s, i: 1 if i < len(s) and ord(s[i]) == v[1] else None
    if v[0] == "arr" and all(x[0] == "i" for x in v[1]):
        cs = {chr(x[1]) for x in v[1]}
        return lambda s, i: 1 if i < len(s) and s[i] in cs else None
    if v[0] in ("clo", "fn"):
        def f(s, i):
            if i >= len(s):
                return None
            r = ctx.invoke(v, [("i", ord(s[i]))], st)
            if len(r) != 1 or r[0][0][0] != "i":
                raise Imprecise("character predicate")
            return 1 if r[0][0][1] else None
        return f
    return None


def sfn(name, arity=0):
    """str method on a constant template"""
    def d(f):
        def g(ctx, args, st):
            v = val(ctx, st, args[0])
            if v[0] != "s":
                return [(unk("str::" + name), st)]
            r = f(ctx, st, v[1], *args[1:])
            return [(r if r is not None else unk("str::" + name), st)]
        XM["core::str::<impl str>::" + name] = g
        XM["std::str::<impl str>::" + name] = g
        XM["alloc::str::<impl str>::" + name] = g
        return f
    return d


B = lambda x: ("i", int(x))
S = lambda s: ("s", s)
sfn("trim")(lambda c, st, s: S(strip_l(strip_r(s))))
sfn("trim_start")(lambda c, st, s: S(strip_l(s)))
sfn("trim_end")(lambda c, st, s: S(strip_r(s)))
sfn("trim_left")(lambda c, st, s: S(strip_l(s)))
sfn("trim_right")(lambda c, st, s: S(strip_r(s)))
sfn("to_lowercase")(lambda c, st, s: S(s.lower()))
sfn("to_uppercase")(lambda c, st, s: S(s.upper()))
sfn("to_ascii_lowercase")(lambda c, st, s: S("".join(x.lower() if x.isascii() else x for x in s)))
sfn("to_ascii_uppercase")(lambda c, st, s: S("".join(x.upper() if x.isascii() else x for x in s)))
sfn("chars")(lambda c, st, s: ("arr", tuple(("i", ord(x)) for x in s)))
sfn("bytes")(lambda c, st, s: ("arr", tuple(("i", x) for x in s.encode())))
sfn("as_bytes")(lambda c, st, s: ("sref", ("arr", tuple(("i", x) for x in s.encode())), None))
sfn("into_bytes")(lambda c, st, s: ("arr", tuple(("i", x) for x in s.encode())))
sfn("to_owned")(lambda c, st, s: S(s))
sfn("into_string")(lambda c, st, s: S(s))
sfn("to_string")(lambda c, st, s: S(s))
sfn("lines")(lambda c, st, s: ("arr", tuple(S(x[:-1] if x.endswith("\r") else x) for x in (s[:-1] if s.endswith("\n") else s).split("\n"))) if s else ("arr", ()))
sfn("split_whitespace")(lambda c, st, s: ("arr", tuple(S(x) for x in s.split())))
sfn("split_ascii_whitespace")(lambda c, st, s: ("arr", tuple(S(x) for x in s.split())))
sfn("repeat")(lambda c, st, s, n: S(s * n[1]) if n[0] == "i" and n[1] < 1000 else None)
sfn("is_ascii")(lambda c, st, s: B(s.isascii()))
sfn("eq_ignore_ascii_case")(lambda c, st, s, o: B(s.lower() == val(c, st, o)[1].lower()) if val(c, st, o)[0] == "s" else None)


@sfn("char_indices")
def _(c, st, s):
    out, n = [], 0
    for x in s:
        out.append(("tup", (("i", n), ("i", ord(x)))))
        n += len(x.encode())
    return ("arr", tuple(out))


def pat(f):
    def g(c, st, s, p, *more):
        m = matcher(c, st, p)
        return None if m is None else f(s, m, *more)
    return g


def _find(s, m):
    for i in range(len(s) + 1):
        k = m(s, i)
        if k is not None:
            return i, k
    return None


def _rfind(s, m):
    for i in range(len(s), -1, -1):
        k = m(s, i)
        if k is not None:
            return i, k
    return None


bl = lambda s: len(s.encode())
sfn("starts_with")(pat(lambda s, m: B(m(s, 0) is not None)))
sfn("contains")(pat(lambda s, m: B(_find(s, m) is not None)))
sfn("find")(pat(lambda s, m: some(("i", bl(s[:_find(s, m)[0]]))) if _find(s, m) else none()))
sfn("rfind")(pat(lambda s, m: some(("i", bl(s[:_rfind(s, m)[0]]))) if _rfind(s, m) else none()))
sfn("split_once")(pat(lambda s, m: some(("tup", (S(s[:_find(s, m)[0]]), S(s[sum(_find(s, m)):])))) if _find(s, m) else none()))
sfn("rsplit_once")(pat(lambda s, m: some(("tup", (S(s[:_rfind(s, m)[0]]), S(s[sum(_rfind(s, m)):])))) if _rfind(s, m) else none()))
sfn("strip_prefix")(pat(lambda s, m: some(S(s[m(s, 0):])) if m(s, 0) is not None else none()))


def _ends(s, m):
    for i in range(len(s), -1, -1):
        k = m(s, i)
        if k is not None and i + k == len(s):
            return i
    return None


sfn("ends_with")(pat(lambda s, m: B(_ends(s, m) is not None)))
sfn("strip_suffix")(pat(lambda s, m: some(S(s[:_ends(s, m)])) if _ends(s, m) is not None else none()))


def _tsm(s, m):
    while s and m(s, 0):
        s = s[m(s, 0):]
    return S(s)


def _tem(s, m):
    while s and _ends(s, m) is not None and _ends(s, m) < len(s):
        s = s[:_ends(s, m)]
    return S(s)


sfn("trim_start_matches")(pat(_tsm))
sfn("trim_end_matches")(pat(_tem))
sfn("trim_matches")(pat(lambda s, m: _tem(_tsm(s, m)[1], m)))
sfn("trim_left_matches")(pat(_tsm))


def _split(s, m, n=None, incl=False):
    out, cur, i = [], 0, 0
    while i <= len(s):
        if n is not None and len(out) + 1 >= n:
            break
        k = m(s, i)
        if k is not None and (k > 0):
            out.append(s[cur:i + (k if incl else 0)])
            i += k
            cur = i
        else:
            i += 1
    out.append(s[cur:])
    return out


sfn("split")(pat(lambda s, m: ("arr", tuple(S(x) for x in _split(s, m)))))
sfn("rsplit")(pat(lambda s, m: ("arr", tuple(S(x) for x in reversed(_split(s, m))))))


@sfn("split_terminator")
def _(c, st, s, p):
    m = matcher(c, st, p)
    x = _split(s, m)
    return ("arr", tuple(S(y) for y in (x[:-1] if x[-1] == "" else x)))


@sfn("split_inclusive")
def _(c, st, s, p):
    m = matcher(c, st, p)
    x = _split(s, m, incl=True)
    return ("arr", tuple(S(y) for y in (x[:-1] if x[-1] == "" else x)))


@sfn("splitn")
def _(c, st, s, n, p):
    m = matcher(c, st, p)
    return ("arr", tuple(S(y) for y in _split(s, m, n[1]))) if n[0] == "i" and m else None


@sfn("matches")
def _(c, st, s, p):
    m = matcher(c, st, p)
    out, i = [], 0
    while i < len(s):
        k = m(s, i)
        if k:
            out.append(S(s[i:i + k]))
            i += k
        else:
            i += 1
    return ("arr", tuple(out))


@sfn("replace")
def _(c, st, s, p, r):
    m, r = matcher(c, st, p), val(c, st, r)
    if m is None or r[0] != "s":
        return None
    return S(r[1].join(_split(s, m)))


@sfn("get")
def _(c, st, s, r):
    b = s.encode()
    q = rng_of(val(c, st, r), len(b))
    if q is None:
        return None
    x = cut(b, q)
    return some(S(x)) if x is not None else none()


@sfn("split_at")
def _(c, st, s, n):
    b = s.encode()
    n = val(c, st, n)
    if n[0] != "i":
        return None
    x, y = cut(b, (0, n[1])), cut(b, (n[1], len(b)))
    if x is None or y is None:
        c.panic("split_at")
        raise Dead()
    return ("tup", (S(x), S(y)))


@sfn("is_char_boundary")
def _(c, st, s, n):
    return B(cut(s.encode(), (0, n[1])) is not None) if n[0] == "i" else None


def smut(name, f):
    def g(ctx, args, st):
        v, a = rdm(ctx, st, args[0])
        if v[0] != "s" or a[0] != "mref":
            return None
        r = f(ctx, st, v[1], *[val(ctx, st, x) for x in args[1:]])
        if r is None:
            return None
        return [(r[0], setm(ctx, st, a, ("s", r[1])))]
    XM["std::string::String::" + name] = g


smut("push", lambda c, st, s, x: (UNIT, s + chr(x[1])) if x[0] == "i" else None)
smut("push_str", lambda c, st, s, x: (UNIT, s + x[1]) if x[0] == "s" else None)
smut("clear", lambda c, st, s: (UNIT, ""))
smut("pop", lambda c, st, s: (some(("i", ord(s[-1]))), s[:-1]) if s else (none(), s))
smut("truncate", lambda c, st, s, n: (UNIT, cut(s.encode(), (0, min(n[1], bl(s))))) if n[0] == "i" else None)
smut("insert_str", lambda c, st, s, n, x: (UNIT, cut(s.encode(), (0, n[1])) + x[1] + cut(s.encode(), (n[1], bl(s)))) if n[0] == "i" and x[0] == "s" else None)
smut("insert", lambda c, st, s, n, x: (UNIT, cut(s.encode(), (0, n[1])) + chr(x[1]) + cut(s.encode(), (n[1], bl(s)))) if n[0] == "i" and x[0] == "i" else None)
smut("reserve", lambda c, st, s, n: (UNIT, s))
smut("remove", lambda c, st, s, n: (("i", ord(s[0])), s[1:]) if n == ("i", 0) and s else None)
for _n in ("as_str", "as_mut_str", "into_boxed_str"):
    XM["std::string::String::" + _n] = lambda ctx, args, st: [(val(ctx, st, args[0]), st)]
XM["std::string::String::into_bytes"] = XM["core::str::<impl str>::into_bytes"]
XM["std::string::String::as_bytes"] = XM["core::str::<impl str>::as_bytes"]
XM["std::borrow::Cow::<'_, B>::into_owned"] = lambda ctx, args, st: [((lambda v: v[3][0] if v[0] == "adt" and v[1] == "std::borrow::Cow" else v)(val(ctx, st, args[0])), st)]
# addresses are not modelled: they only occur in debug assertions that two slices start at the same place
XM["core::str::<impl str>::as_ptr"] = lambda ctx, args, st: [(("i", 4096), st)]
XM["std::str::<impl str>::as_ptr"] = XM["core::str::<impl str>::as_ptr"]


@xt("std::ops::Add", "add")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    a, b = val(ctx, st, args[0]), val(ctx, st, args[1])
    if a[0] == "s" and b[0] == "s":
        return [(("s", a[1] + b[1]), st)]
    h = ctx.I.hooks.get("add")
    return h(ctx, a, b, st) if h else None


@xt("std::ops::AddAssign", "add_assign")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    b = val(ctx, st, args[1])
    if v[0] == "s" and b[0] == "s" and a[0] == "mref":
        return [(UNIT, setm(ctx, st, a, ("s", v[1] + b[1])))]


# ---------------------------------------------------------------- characters
def chfn(name, f):
    def g(ctx, args, st):
        v = val(ctx, st, args[0])
        if v[0] != "i":
            return [(unk("char::" + name), st)]
        r = f(ctx, chr(v[1]), *[val(ctx, st, x) for x in args[1:]])
        return [(r if r is not None else unk("char::" + name), st)]
    for p in ("std::char::methods::<impl char>::", "core::char::methods::<impl char>::", "char::methods::<impl char>::"):
        XM[p + name] = g


def _ck(ctx, c, kinds, plain):
    k = ctx.I.C.kind.get(c)
    if k is not None:
        return B(k in kinds)
    return B(plain(c))


chfn("is_ascii_alphabetic", lambda x, c: _ck(x, c, ("ident",), lambda c: c.isascii() and c.isalpha()))
chfn("is_alphabetic", lambda x, c: _ck(x, c, ("ident",), lambda c: c.isalpha()))
chfn("is_ascii_alphanumeric", lambda x, c: _ck(x, c, ("ident", "nat"), lambda c: c.isascii() and c.isalnum()))
chfn("is_alphanumeric", lambda x, c: _ck(x, c, ("ident", "nat"), lambda c: c.isalnum()))
chfn("is_ascii_digit", lambda x, c: _ck(x, c, ("nat",), lambda c: "0" <= c <= "9"))
chfn("is_numeric", lambda x, c: _ck(x, c, ("nat",), lambda c: c.isnumeric()))
chfn("is_digit", lambda x, c, r: _ck(x, c, ("nat",), lambda c: c.isdigit() and c.isascii()))
chfn("is_whitespace", lambda x, c: _ck(x, c, (), isws))
chfn("is_ascii_whitespace", lambda x, c: _ck(x, c, (), lambda c: c in " \t\n\r\x0c"))
chfn("is_control", lambda x, c: _ck(x, c, (), lambda c: ord(c) < 32 or 127 <= ord(c) < 160))
chfn("is_ascii_control", lambda x, c: _ck(x, c, (), lambda c: ord(c) < 32 or ord(c) == 127))
chfn("is_ascii", lambda x, c: _ck(x, c, ("ident", "nat"), lambda c: c.isascii()))
chfn("is_ascii_uppercase", lambda x, c: None if c in x.I.C.kind else B("A" <= c <= "Z"))
chfn("is_ascii_lowercase", lambda x, c: None if c in x.I.C.kind else B("a" <= c <= "z"))
chfn("is_uppercase", lambda x, c: None if c in x.I.C.kind else B(c.isupper()))
chfn("is_ascii_punctuation", lambda x, c: _ck(x, c, (), lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " "))
chfn("len_utf8", lambda x, c: ("i", len(c.encode())))
chfn("to_ascii_lowercase", lambda x, c: None if c in x.I.C.kind else ("i", ord(c.lower())) if c.isascii() else ("i", ord(c)))
chfn("to_ascii_uppercase", lambda x, c: None if c in x.I.C.kind else ("i", ord(c.upper())) if c.isascii() else ("i", ord(c)))
chfn("eq_ignore_ascii_case", lambda x, c, d: None)
XM["char::from_u32"] = XM["std::char::from_u32"] = lambda ctx, args, st: [(some(args[0]) if args[0][0] == "i" and args[0][1] < 0x110000 else unk("from_u32"), st)]


# ---------------------------------------------------------------- numbers from text
def parse_text(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    t = ctx.ta(0)
    v = val(ctx, st, args[0])
    name = t.s if t is not None else ""
    via = [i for n, i in ctx.f.get("via", []) if n.endswith("FromStr::from_str") and i in ctx.I.P.fns]
    if via:
        return ctx.I.call_local(ctx.I.P.fns[via[0]], [v], st, ctx.quiet)
    if v[0] != "s":
        return [(unk("parse"), st)]
    s = v[1]
    if name in ("String", "std::string::String"):
        return [(ok(v), st)]
    if name == "bool":
        return [(ok(B(s == "true")) if s in ("true", "false") else err(X("perr")), st)]
    if INTS.match(name):
        lo, hi = int_range(name)
        if re.fullmatch(r"[+-]?[0-9]+", s):
            return [(ok(("i", int(s))) if lo <= int(s) <= hi else err(X("perr")), st)]
        neg = s.startswith("-")
        body = s[1:] if s[:1] in ("-", "+") else s
        if len(body) == 1 and ctx.I.C.kind.get(body) == "nat":
            lab = ctx.I.C.lab[body]
            if (lab[1] == "-") != neg:
                lab = ("int", "-" if neg else "+", "wrong sign of " + str(lab))
                return [(ok(iv(lo, hi, frozenset([("lab", lab)]))), st)]
            l, h = lab[3], lab[4]
            out = []
            if l <= hi and h >= lo:
                out.append((ok(iv(max(l, lo), min(h, hi), frozenset([("lab", lab)]))), dict(st)))
            if l < lo or h > hi:
                out.append((err(X("perr")), dict(st)))
            return out
        if any(c in ctx.I.C.kind for c in s) and not any(ctx.I.C.kind.get(c) == "ident" or c not in ctx.I.C.kind and c not in "+-0123456789" for c in s):
            return [(unk("parse"), st)]
        return [(err(X("perr")), st)]
    if name in ("f64", "f32"):
        if any(c in ctx.I.C.kind for c in s):
            return [(unk("parse"), st)]
        if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*([eE][+-]?[0-9]+)?|\.[0-9]+([eE][+-]?[0-9]+)?|inf|infinity|nan)", s, re.I):
            return [(ok(("fl", f32r(float(s)) if name == "f32" else float(s))), st)]
        return [(err(X("perr")), st)]
    return [(unk("parse " + name), st)]


for _p in ("std::str::FromStr::from_str", "core::str::<impl str>::parse"):
    XM[_p] = parse_text
XM[("trait", "std::str::FromStr", "from_str")] = parse_text


@xt("std::convert::TryFrom", "try_from")
@xt("std::convert::TryInto", "try_into")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    to = ctx.ta(0) if ctx.f["name"] == "try_from" else ctx.ta(1)
    via = [i for n, i in ctx.f.get("via", []) if n.endswith("::try_from") and i in ctx.I.P.fns]
    if via:
        return ctx.I.call_local(ctx.I.P.fns[via[0]], args, st, ctx.quiet)
    v = args[0]
    if to is not None and to.k == "prim" and INTS.match(to.s):
        lo, hi = int_range(to.s)
        if v[0] == "i":
            return [(ok(v) if lo <= v[1] <= hi else err(X("perr")), st)]
        if v[0] == "iv":
            out = []
            if v[1] <= hi and v[2] >= lo:
                out.append((ok(iv(max(lo, v[1]), min(hi, v[2]), v[3])), dict(st)))
            if v[1] < lo or v[2] > hi:
                out.append((err(X("perr")), dict(st)))
            return out
        return [(unk("try_from"), st)]
    if to is not None and to.k == "adt" and to.p.startswith("substrait::") and v[0] == "i":
        e = ctx.I.enum_of(to.p, v[1])
        return [(ok(e) if e is not None else err(X("perr")), st)]
    return None


XM[("trait", "std::convert::TryInto", "try_into")] = XM[("trait", "std::convert::TryFrom", "try_from")]


def intfn(name, f):
    def g(ctx, args, st):
        m = re.match(r"core::num::<impl (\w+)>", ctx.f["p"])
        vs = [val(ctx, st, a) for a in args]
        if all(v[0] == "i" for v in vs):
            r = f(m.group(1), *[v[1] for v in vs])
            if r is not None:
                return [(r, st)]
        l = "%s(%s)" % (name, ",".join(desc(v) for v in vs))
        x = O(frozenset([("lab", l)]))
        if name.startswith("checked_"):
            return [(some(x), dict(st)), (none(), dict(st))]
        return [(x, st)]
    for t in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "usize", "isize"):
        XM["core::num::<impl %s>::%s" % (t, name)] = g


def _fit(t, n):
    lo, hi = int_range(t)
    return lo <= n <= hi


for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("pow", lambda a, b: a ** b), ("div", lambda a, b: trunc(a, b) if b else None), ("rem", lambda a, b: a - b * trunc(a, b) if b else None)):
    intfn("checked_" + _n, (lambda f: lambda t, a, b: (lambda r: some(("i", r)) if r is not None and _fit(t, r) else none())(f(a, b)))(_f))
    intfn("saturating_" + _n, (lambda f: lambda t, a, b: ("i", max(int_range(t)[0], min(int_range(t)[1], f(a, b)))))(_f))
    intfn("wrapping_" + _n, (lambda f: lambda t, a, b: ("i", (f(a, b) - int_range(t)[0]) % (int_range(t)[1] - int_range(t)[0] + 1) + int_range(t)[0]))(_f))
intfn("pow", lambda t, a, b: ("i", a ** b) if _fit(t, a ** b) else None)
intfn("abs", lambda t, a: ("i", abs(a)))
intfn("unsigned_abs", lambda t, a: ("i", abs(a)))
intfn("div_euclid", lambda t, a, b: ("i", (a - a % abs(b)) // b) if b else None)
intfn("rem_euclid", lambda t, a, b: ("i", a % abs(b)) if b else None)
intfn("is_negative", lambda t, a: B(a < 0))


def flfn(name, f):
    def g(ctx, args, st):
        v = val(ctx, st, args[0])
        if v[0] == "fl":
            return [(f(v[1]), st)]
        return [(unk("f64::" + name), st)]
    for t in ("f64", "f32"):
        for p in ("core::%s::<impl %s>::", "std::%s::<impl %s>::"):
            XM[(p % (t, t)) + name] = g


import math
flfn("is_finite", lambda x: B(math.isfinite(x)))
flfn("is_nan", lambda x: B(x != x))
flfn("is_infinite", lambda x: B(math.isinf(x)))
flfn("fract", lambda x: ("fl", math.fmod(x, 1.0)))
flfn("trunc", lambda x: ("fl", float(math.trunc(x))))
flfn("abs", lambda x: ("fl", abs(x)))
flfn("is_sign_negative", lambda x: B(math.copysign(1, x) < 0))


# ---------------------------------------------------------------- prost encoding
# the wire form of a message is kept as the message itself: encoding is injective and decoding is its inverse
@xt("prost::Message", "encode_to_vec")
def _(ctx, args, st):
    v = keyv(ctx, st, args[0])
    return [(X("enc", (v,)), st)]


@xt("prost::Message", "decode")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    t = ctx.ta(0)
    if isx(v, "enc") and t is not None and v[2][0][0] == "adt":
        if v[2][0][1] == t.p:
            return [(ok(v[2][0]), st)]
    if v[0] == "arr" and not v[1] and t is not None:
        d = ctx.I.default_of(t)
        if d is not None:
            return [(ok(d), st)]
    return None


# ---------------------------------------------------------------- misc
@xt("std::default::Default", "default")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    t = ctx.ta(0)
    d = ctx.I.default_of(t) if t is not None else None
    return [(d, st)] if d is not None else None


@xt("std::clone::Clone", "clone")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        g = ctx.I.P.fns.get(ctx.f["inst"])
        if g is not None and not g.derived:
            return None
    v = args[0]
    return [(ctx.I.deref(st, v) if v[0] in ("sref", "mref") else v, st)]


@xt("std::borrow::ToOwned", "to_owned")
def _(ctx, args, st):
    return [(val1(ctx, st, args[0]) if args[0][0] != "s" else args[0], st)]


@xt("std::ops::Deref", "deref")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = args[0]
    x = val1(ctx, st, v)
    if x[0] == "box":
        x = x[1]
    elif x[0] == "adt" and x[1] == "std::borrow::Cow":
        x = x[3][0]
        if x[0] == "sref":
            return [(x, st)]
    elif x[0] in ("sref", "mref"):
        return [(x, st)]
    return [(("sref", x, None), st)]


@xm("std::mem::take")
def _(ctx, args, st):
    a = follow(ctx, st, args[0])
    t = ctx.ta(0)
    d = ctx.I.default_of(t) if t is not None else None
    if a[0] == "mref" and d is not None:
        return [(ctx.I.rd(st, a[1], a[2]), setm(ctx, st, a, d))]


@xm("std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default")
def _(ctx, args, st):
    v = args[0]
    if v[0] == "adt":
        good = 1 if v[1] == OPT else 0
        if v[2] == good:
            return [(v[3][0], st)]
        d = ctx.I.default_of(ctx.ta(0)) if ctx.ta(0) is not None else None
        return [(d if d is not None else unk("default"), st)]


@xm("std::option::Option::<T>::zip")
def _(ctx, args, st):
    a, b = args
    if a[0] == "adt" and b[0] == "adt":
        return [(some(("tup", (a[3][0], b[3][0]))) if a[2] and b[2] else none(), st)]


@xt("std::cmp::Ord", "cmp")
@xt("std::cmp::PartialOrd", "partial_cmp")
def _cmp(ctx, args, st):
    if ctx.f.get("inst"):
        g = ctx.I.P.fns.get(ctx.f["inst"])
        if g is not None and not g.derived:
            return None
    try:
        a, b = pykey(keyv(ctx, st, args[0])), pykey(keyv(ctx, st, args[1]))
        o = ("adt", "std::cmp::Ordering", 0 if a < b else 1 if a == b else 2, ())
    except TypeError:
        return [(unk("cmp"), st)]
    return [(some(o) if ctx.f["name"] == "partial_cmp" else o, st)]


XM[("trait", "std::cmp::Ord", "cmp")] = _cmp


def _ord(name, f):
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            gg = ctx.I.P.fns.get(ctx.f["inst"])
            if gg is not None and not gg.derived:
                return None
        try:
            return [(B(f(pykey(keyv(ctx, st, args[0])), pykey(keyv(ctx, st, args[1])))), st)]
        except TypeError:
            return [(unk(name), st)]
    XM[("trait", "std::cmp::PartialOrd", name)] = g


_ord("lt", lambda a, b: a < b)
_ord("le", lambda a, b: a <= b)
_ord("gt", lambda a, b: a > b)
_ord("ge", lambda a, b: a >= b)


def _minmax(name, f):
    def g(ctx, args, st):
        if args[0][0] == "i" and args[1][0] == "i":
            return [(("i", f(args[0][1], args[1][1])), st)]
        return [(unk(name), st)]
    XM[("trait", "std::cmp::Ord", name)] = g
    XM["std::cmp::" + name] = g


_minmax("max", max)
_minmax("min", min)
XM["std::cmp::Ordering::then"] = lambda ctx, args, st: [(args[1] if args[0][2] == 1 else args[0], st)] if args[0][0] == "adt" else None
XM["std::cmp::Ordering::reverse"] = lambda ctx, args, st: [(("adt", args[0][1], 2 - args[0][2], ()), st)] if args[0][0] == "adt" else None


def _eqm(pol):
    def f(ctx, args, st):
        g = ctx.I.P.fns.get(ctx.f.get("inst") or "")
        if g is not None and not g.derived:
            return None
        a, b = keyv(ctx, st, args[0]), keyv(ctx, st, args[1])
        r = ctx.I.eq(a, b)
        return [(B(r == pol) if r is not None else O(frozenset([("lab", "eq(%s,%s)" % (desc(a), desc(b)))])), st)]
    return f


XM[("trait", "std::cmp::PartialEq", "eq")] = _eqm(True)
XM[("trait", "std::cmp::PartialEq", "ne")] = _eqm(False)
for _p in ("std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new"):
    XM[_p] = lambda ctx, args, st: [(("box", args[0]), st)]


@xm("std::boxed::Box::<T>::new_uninit")
def _(ctx, args, st):
    return [(("box", ("uninit",)), st)]


def _panicx(ctx, args, st):
    ctx.panic("panic")
    return []


for _p in [p for p, f in M.items() if isinstance(p, str) and f is models._panic]:
    XM[_p] = _panicx


def _unw(kind, good):
    def f(ctx, args, st):
        v = args[0]
        if v[0] == "adt":
            if v[2] == good:
                return [(v[3][0], st)]
            ctx.panic(kind)
            return []
        return [(unk(kind), st)]
    return f


for _n in ("unwrap", "expect"):
    XM["std::option::Option::<T>::" + _n] = _unw("Option::" + _n, 1)
    XM["std::result::Result::<T, E>::" + _n] = _unw("Result::" + _n, 0)


def _vt(which):
    vi = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[which]

    def f(ctx, args, st):
        v = val(ctx, st, args[0])
        return [(B(v[2] == vi) if v[0] == "adt" else unk(which), st)]
    return f


for _n in ("is_some", "is_none"):
    XM["std::option::Option::<T>::" + _n] = _vt(_n)
for _n in ("is_ok", "is_err"):
    XM["std::result::Result::<T, E>::" + _n] = _vt(_n)


@xt("thiserror::__private18::AsDisplay", "as_display")
def _(ctx, args, st):
    return [(args[0], st)]


@xt("std::convert::Into", "into")
def _into(ctx, args, st):
    via = [i for n, i in ctx.f.get("via", []) if n.endswith("From::from") and i in ctx.I.P.fns]
    if via:
        return ctx.I.call_local(ctx.I.P.fns[via[0]], args, st, ctx.quiet)
    return conv(ctx, ctx.ta(0), ctx.ta(1), args, st)


@xt("std::convert::From", "from")
def _from(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    return conv(ctx, ctx.ta(1), ctx.ta(0), args, st)


def conv(ctx, a, b, args, st):
    v = args[0]
    if a is None or b is None:
        return None
    if a.i == b.i:
        return [(v, st)]
    if b.p == OPT and a.p != OPT:
        return [(some(v), st)]
    if b.p in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc") and a.p != b.p:
        x = v
        if b.arg(0) is not None and b.arg(0).s == "str":
            x = val(ctx, st, v)
        return [(("box", x), st)]
    x = val(ctx, st, v)
    if b.p == "std::string::String":
        if x[0] == "i":
            return [(("s", chr(x[1])), st)]
        return [(x, st)]
    if b.p == "std::borrow::Cow":
        return [(x, st)]
    if b.k == "prim" and INTS.match(b.s) and x[0] in ("i", "iv"):
        return [(x, st)]
    if b.k == "prim" and b.s == "char" and x[0] == "i":
        return [(x, st)]
    if b.k == "prim" and b.s in ("f64", "f32"):
        return [(x if x[0] == "fl" else ("fl", float(x[1])) if x[0] == "i" else x, st)]
    if b.p == "std::vec::Vec" and x[0] == "arr":
        return [(x, st)]
    if any(t.p and t.p.endswith("bytes::Bytes") for t in (a, b)):
        return [(x, st)]
    if x[0] == "arr" and b.p and re.search(r"(Map|Set)$", b.p):
        return [(collect_into(ctx, st, b, list(x[1])), st)]
    if b.p and b.p.startswith("substrait::") and x[0] == "i":
        return None
    if a.p and a.p.startswith("substrait::") and b.k == "prim" and INTS.match(b.s) and x[0] == "adt":
        ad = ctx.I.P.adt_by_path.get(x[1])
        if ad:
            return [(("i", ad["variants"][x[2]]["disc"]), st)]
    return None


import stdx
XM = MapModels(XM)
