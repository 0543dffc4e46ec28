"""Disjunctive abstract interpreter over MIR.

Domain: structured constants, enum variants, grammar-typed parse pairs (rule), pair iterators
(state of the rule's child DFA), text of a rule, characters of such a text (state of its character
DFA), and opaque values carrying a bag of the atoms that may be inside them.  No concrete execution:
every function is analysed for an abstract input, all branches that the abstract state does not
exclude are followed, loops run to a fixpoint, calls use summaries iterated to a global fixpoint.
"""
import re
from facts import callee, op_place

E = frozenset()
O0 = ("o", E)
UNIT = ("tup", ())
TRUE, FALSE = ("i", 1), ("i", 0)
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
MAXDEPTH = 7


def O(bag):
    return ("o", bag) if bag else O0


def none():
    return ("adt", OPT, 0, ())


def some(v):
    return ("adt", OPT, 1, (v,))


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


ATOMS = ("pair", "pairs", "txt", "s", "chars", "mref", "fn", "lab", "num")


_bag_cache = {}
SIMPLE = ("i", "iv", "s", "txt", "pair", "chn", "fn")
ONE = ("box", "itenum", "itpeek", "ittake", "itfuse", "itarr")
TWO = ("itmap", "itfilter", "itfm")
INF = 1 << 60
MEM = 1 << 56  # memory-bounded quantities: lengths, counts, sums of those


def kids(v):
    k = v[0]
    if k == "adt":
        return v[3]
    if k in ("tup", "arr"):
        return v[1]
    if k == "clo":
        return v[2]
    if k == "sref" or k in ONE:
        return (v[1],)
    if k in TWO:
        return (v[1], v[2])
    if k == "vec":
        return () if v[1] is None else (v[1],)
    if k == "x":
        return v[2]
    return ()


def rebuild(v, ks):
    k = v[0]
    if k == "adt":
        return ("adt", v[1], v[2], tuple(ks))
    if k in ("tup", "arr"):
        return (k, tuple(ks))
    if k == "clo":
        return ("clo", v[1], tuple(ks))
    if k == "sref":
        return ("sref", ks[0], v[2])
    if k in ONE:
        return (k, ks[0])
    if k in TWO:
        return (k, ks[0], ks[1])
    if k == "vec":
        return v if v[1] is None else ("vec", ks[0], v[2], v[3])
    if k == "x":
        return ("x", v[1], tuple(ks), v[3])
    return v


def bagof(v):
    k = v[0]
    if k == "o":
        return v[1]
    if k == "iv":
        return v[3]
    if k in ("i", "chn"):
        return E
    r = _bag_cache.get(v)
    if r is not None:
        return r
    if k in ATOMS:
        r = frozenset([v])
    elif k in ("disc", "vtest"):
        r = bagof(v[3])
    elif k == "cmp":
        r = bagof(v[2]) | bagof(v[3])
    elif k == "itmut":
        r = frozenset([("mref", v[1], v[2])])
    else:
        r = E
        for x in kids(v):
            r = r | bagof(x)
        if k == "clo":
            r = r | frozenset([v])
    if len(_bag_cache) > 200000:
        _bag_cache.clear()
    _bag_cache[v] = r
    return r


def clip(v, d=MAXDEPTH):
    k = v[0]
    if k in ("o", "i", "iv", "chn") or k in ATOMS:
        return v
    if d <= 0:
        return O(bagof(v))
    ks = kids(v)
    if not ks:
        return v
    if k == "sref":
        return ("sref", clip(v[1], d), None)
    n = d if k == "box" else d - 1
    return rebuild(v, [clip(x, n) for x in ks])


TH = sorted([-(1 << 127), -(1 << 63), -(1 << 31), -(1 << 15), -(1 << 7), -1, 0, 1, 2, 3, 4, 9, 16, 127, 255, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1, MEM, (1 << 63) - 1, (1 << 64) - 1, (1 << 127) - 1, (1 << 128) - 1])


def snap(lo, hi):
    a, b = TH[0], TH[-1]
    for t in TH:
        if t <= lo:
            a = t
    for t in reversed(TH):
        if t >= hi:
            b = t
    return a, b


def iv(lo, hi, bag=E, sym=None):
    if lo == hi:
        return ("i", lo)
    return ("iv", lo, hi, bag, sym)


def isnum(v):
    return v[0] in ("i", "iv")


def join(a, b):
    if a == b:
        return a
    ka, kb = a[0], b[0]
    if isnum(a) and isnum(b):
        if ka == kb == "iv" and a[1:4] == b[1:4]:
            return ("iv", a[1], a[2], a[3], None)
        la, ha = (a[1], a[1]) if ka == "i" else a[1:3]
        lb, hb = (b[1], b[1]) if kb == "i" else b[1:3]
        lo, hi = snap(min(la, lb), max(ha, hb))
        return iv(lo, hi, bagof(a) | bagof(b))
    if ka == "adt" and kb == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
        return ("adt", a[1], a[2], tuple(join(x, y) for x, y in zip(a[3], b[3])))
    if ka == kb == "tup" and len(a[1]) == len(b[1]):
        return ("tup", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if ka == kb == "clo" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return ("clo", a[1], tuple(join(x, y) for x, y in zip(a[2], b[2])))
    if ka == kb == "sref":
        return ("sref", join(a[1], b[1]), None)
    if ka == kb == "box":
        return ("box", join(a[1], b[1]))
    if ka == kb and ka in TWO and a[2] == b[2]:
        return (ka, join(a[1], b[1]), a[2])
    if ka in ("vec", "arr") and kb in ("vec", "arr"):
        a, b = as_vec(a), as_vec(b)
        e = b[1] if a[1] is None else a[1] if b[1] is None else join(a[1], b[1])
        return ("vec", e, min(a[2], b[2]), max(a[3], b[3]))
    return O(bagof(a) | bagof(b))


def as_vec(v):
    if v[0] == "vec":
        return v
    xs = v[1]
    if not xs:
        return ("vec", None, 0, 0)
    e = xs[0]
    for x in xs[1:]:
        e = join(e, x)
    n = min(len(xs), 4)
    return ("vec", e, n, n if len(xs) <= 4 else INF)


def strip_origin(v):
    k = v[0]
    if k == "sref":
        return ("sref", strip_origin(v[1]), None)
    if k == "iv":
        return v if v[4] is None else v[:4] + (None,)
    if k in ("disc", "vtest", "cmp"):
        return O(bagof(v))
    ks = kids(v)
    return rebuild(v, [strip_origin(x) for x in ks]) if ks else v


def mrefs(v, out):
    k = v[0]
    if k in ("mref", "itmut"):
        out.append(v[1])
    elif k == "o":
        for x in v[1]:
            if x[0] in ("mref", "clo"):
                mrefs(x, out)
    else:
        for x in kids(v):
            mrefs(x, out)


def rename(v, m):
    k = v[0]
    if k == "mref":
        return ("mref", m.get(v[1], v[1]), v[2])
    if k == "itmut":
        return ("itmut", m.get(v[1], v[1])) + v[2:]
    if k == "o":
        if any(x[0] in ("mref", "clo") for x in v[1]):
            return O(frozenset(rename(x, m) for x in v[1]))
        return v
    ks = kids(v)
    return rebuild(v, [rename(x, m) for x in ks]) if ks else v


def resym(v, sym, new):
    """replace every occurrence of the symbolic integer `sym` in v"""
    k = v[0]
    if k == "iv":
        return new(v) if v[4] == sym else v
    if k == "cmp":
        a, b = resym(v[2], sym, new), resym(v[3], sym, new)
        return v if a is v[2] and b is v[3] else ("cmp", v[1], a, b)
    ks = kids(v)
    if not ks:
        return v
    ns = [resym(x, sym, new) for x in ks]
    if all(x is y for x, y in zip(ks, ns)):
        return v
    return rebuild(v, ns)


def mentions(v, pred):
    k = v[0]
    if k == "iv":
        return v[4] is not None and pred(v[4])
    if k == "cmp":
        return mentions(v[2], pred) or mentions(v[3], pred)
    return any(mentions(x, pred) for x in kids(v))


def has_iter(v):
    k = v[0]
    if k in ("pairs", "vec"):
        return True
    return k in ("adt", "tup", "sref", "box") and any(has_iter(x) for x in kids(v))


class Dead(Exception):
    pass


class Interp:
    K = 40  # disjuncts per block before merging

    def __init__(self, prog, gram, models, collapse=lambda p: p.startswith("substrait::")):
        self.P = prog
        self.G = gram
        self.models = models
        self.collapse = collapse
        self.S = {}  # summaries
        self.round = set()
        self.changed = False
        self.findings = {}
        self.heap_bag = E
        self.stack = []
        self.stats = {"instances": set(), "contexts": 0, "blocks": set(), "panic_sites": set(), "pair_ops": set(), "externals": {}}
        self.live = {}
        self._holds = {}
        self.rule_adt = None
        for a in prog.adts:
            if a["path"].endswith("common::Rule"):
                self.rule_adt = a
        self.rules_idx = {v["name"]: i for i, v in enumerate(self.rule_adt["variants"])} if self.rule_adt else {}
        self.cur = None
        self.hooks = {}
        self.ghosts = ()  # names of ghost cells ("G", name): analysis-only state threaded through every call
        self.pc = (0, 0)
        self.opn = 0
        self.max_states = 0

    # ------------------------------------------------------------ types
    def holds(self, ti):
        """which atom kinds a value of this type may carry"""
        r = self._holds.get(ti)
        if r is None:
            r = frozenset(self._h(ti, set()))
            self._holds[ti] = r
        return r

    def _h(self, ti, seen):
        if ti in seen:
            return set()
        seen.add(ti)
        t = self.P.types[ti]
        if t.k == "adt":
            p = t.p
            if p.startswith("pest::iterators::"):
                return {"pair", "pairs", "txt"}
            if p in ("std::string::String", "std::fmt::Arguments", "std::str::Chars"):
                return {"txt", "s", "chars"}
            if p.startswith("pest::"):
                return set()
            out = set()
            for x in t.a:
                out |= self._h(x, seen)
            a = self.P.adts[t.adt]
            if not p.startswith("std::") or True:
                for v in a["variants"]:
                    for _, ft, _ in v["fields"]:
                        out |= self._h(ft, seen)
            return out
        if t.k == "prim":
            if t.s == "str":
                return {"txt", "s", "chars"}
            if t.s in ("bool", "!"):
                return set()
            return {"num"}
        if t.k in ("ref", "refmut", "ptr", "slice", "array", "tuple"):
            out = {"mref"} if t.k == "refmut" else set()
            for x in t.a:
                out |= self._h(x, seen)
            return out
        if t.k in ("closure", "dyn", "fnptr", "param", "alias", "other", "fndef"):
            return {"pair", "pairs", "txt", "s", "chars", "fn", "clo", "mref", "num"}
        return set()

    def narrow(self, v, ti):
        """opaque value seen at a type: keep only atoms that type can hold (labels always stay)"""
        if v[0] != "o" or not v[1]:
            return v
        h = self.holds(ti)
        b = frozenset(x for x in v[1] if x[0] == "lab" or x[0] in h)
        return O(b)

    def as_pairs(self, v):
        """abstract Pair values an opaque may be"""
        while v[0] in ("sref", "box"):
            v = v[1]
        if v[0] == "pair":
            return [v]
        if v[0] == "o":
            ps = [x for x in v[1] if x[0] == "pair"]
            return ps or [("pair", "?", None)]
        return [("pair", "?", None)]

    # ------------------------------------------------------------ memory
    def get(self, st, fn, place):
        v = st.get(place["l"], O0)
        return self.walk(st, fn, v, place["p"], fn.locals[place["l"]])

    def walk(self, st, fn, v, proj, ti):
        for e in proj:
            if e == "*":
                v = self.deref(st, v)
            elif "f" in e:
                k = v[0]
                if k == "adt":
                    v = v[3][e["f"]] if e["f"] < len(v[3]) else O0
                elif k == "tup":
                    v = v[1][e["f"]] if e["f"] < len(v[1]) else O0
                elif k == "clo":
                    v = v[2][e["f"]] if e["f"] < len(v[2]) else O0
                elif k == "box":
                    pass
                else:
                    v = self.narrow(O(bagof(v)), e["t"])
            elif "d" in e:
                pass
            elif "i" in e or "ci" in e:
                while v[0] in ("sref", "box"):
                    v = v[1]
                if v[0] == "vec":
                    v = O0 if v[1] is None else v[1]
                elif v[0] == "arr":
                    if "ci" in e and not e["fe"] and e["ci"] < len(v[1]):
                        v = v[1][e["ci"]]
                    else:
                        xs = v[1]
                        r = xs[0] if xs else O0
                        for x in xs[1:]:
                            r = join(r, x)
                        v = r
                else:
                    v = O(bagof(v))
            else:
                v = O(bagof(v))
        return v

    def deref(self, st, v):
        k = v[0]
        if k in ("sref", "box"):
            return v[1]
        if k == "mref":
            return self.rd(st, v[1], v[2])
        if k == "o":
            b = E
            for x in v[1]:
                if x[0] == "mref":
                    b = b | bagof(self.rd(st, x[1], x[2]))
            return O(v[1] | b | self.heap_bag) if (b or self.heap_bag) else v
        return v

    def rd(self, st, cell, proj):
        v = st.get(cell, O0)
        for e in proj:
            v = self.sub(st, v, e)
        return v

    def sub(self, st, v, e):
        if e == "*":
            return self.deref(st, v)
        if e[0] in ("d", "w"):
            return v
        k = v[0]
        i = e[1]
        if e[0] == "ix":
            if k in ("arr", "vec"):
                v = as_vec(v)
                return O0 if v[1] is None else v[1]
            return O(bagof(v))
        if k == "adt":
            return v[3][i] if i < len(v[3]) else O0
        if k == "tup":
            return v[1][i] if i < len(v[1]) else O0
        if k == "clo":
            return v[2][i] if i < len(v[2]) else O0
        if k == "box":
            return v
        return O(bagof(v))

    def ref_to(self, st, cell, proj):
        """mutable reference to a place; once inside an opaque value the rest of the path is dropped (weak)"""
        v = st.get(cell, O0)
        for n, e in enumerate(proj):
            if v[0] == "o":
                return ("mref", cell, proj[:n] + (("w", 0),))
            v = self.sub(st, v, e)
        return ("mref", cell, proj)

    def resolve(self, st, fn, place):
        """-> (cell, proj) of the storage a place denotes, or None when unknown storage"""
        cell = place["l"]
        proj = ()
        for e in place["p"]:
            if e == "*":
                v = self.rd(st, cell, proj)
                if v[0] == "mref":
                    cell, proj = v[1], v[2]
                elif v[0] in ("box", "sref"):
                    proj = proj + ("*",)
                elif v[0] == "o":
                    return None
                # strings / closures: identity
            elif "f" in e:
                v = self.rd(st, cell, proj)
                if v[0] in ("box", "uninit") or (v[0] == "arr" and e["f"] == 0):
                    continue
                proj = proj + (("f", e["f"]),)
            elif "d" in e:
                proj = proj + (("d", e["d"]),)
            else:
                proj = proj + (("ix", 0),)
        return cell, proj

    def wr(self, st, cell, proj, val):
        if not proj:
            st[cell] = val
            return
        st[cell] = self._upd(st, st.get(cell, O0), proj, val)

    def _upd(self, st, v, proj, val):
        e = proj[0]
        rest = proj[1:]
        k = v[0]
        if e == "*":
            if k in ("box", "sref"):
                inner = self._upd(st, v[1], rest, val) if rest else val
                return ("box", inner) if k == "box" else ("sref", inner, v[2])
            if k == "mref":
                self.wr(st, v[1], v[2] + rest, val)
                return v
            return O(bagof(v) | bagof(val))
        if e[0] == "d":
            return self._upd(st, v, rest, val) if rest else val
        if e[0] == "w":
            return O(bagof(v) | bagof(val))
        if e[0] == "ix":
            if k in ("arr", "vec"):
                v = as_vec(v)
                el = O0 if v[1] is None else v[1]
                return ("vec", join(el, self._upd(st, el, rest, val) if rest else val), v[2], v[3])
            return O(bagof(v) | bagof(val))
        i = e[1]
        if k in ("adt", "tup", "clo"):
            fs = list(v[3] if k == "adt" else v[2] if k == "clo" else v[1])
            if i >= len(fs):
                return O(bagof(v) | bagof(val))
            fs[i] = self._upd(st, fs[i], rest, val) if rest else val
            if k == "adt":
                return ("adt", v[1], v[2], tuple(fs))
            if k == "clo":
                return ("clo", v[1], tuple(fs))
            return ("tup", tuple(fs))
        return O(bagof(v) | bagof(val))

    def put(self, st, fn, place, val):
        if not place["p"]:
            st[place["l"]] = val
            return
        r = self.resolve(st, fn, place)
        if r is None:
            self.leak(bagof(val))
            # weakly update any mref atoms of the base
            base = st.get(place["l"], O0)
            for x in bagof(base):
                if x[0] == "mref":
                    self.weak(st, x, bagof(val))
            return
        cell, proj = r
        # initialise struct fieldwise (MIR may assign fields of an uninit aggregate)
        self.wr(st, cell, proj, val)

    def leak(self, bag):
        bag = frozenset(x for x in bag if x[0] != "mref")
        if not bag <= self.heap_bag:
            self.heap_bag = self.heap_bag | bag
            self.changed = True

    def weak(self, st, mref, bag):
        v = self.rd(st, mref[1], mref[2])
        self.killlen(st, mref[1])
        if not bag <= bagof(v) or v[0] not in ("o",):
            self.wr(st, mref[1], mref[2], O(bagof(v) | bag))

    # ------------------------------------------------------------ symbolic integers
    def killsym(self, st, pred):
        for c, v in list(st.items()):
            if mentions(v, pred):
                st[c] = self.unsym(v, pred)

    def unsym(self, v, pred):
        k = v[0]
        if k == "iv":
            return v[:4] + (None,) if v[4] is not None and pred(v[4]) else v
        if k == "cmp":
            return ("cmp", v[1], self.unsym(v[2], pred), self.unsym(v[3], pred))
        ks = kids(v)
        return rebuild(v, [self.unsym(x, pred) for x in ks]) if ks else v

    def killlen(self, st, cell):
        """the sequence stored in `cell` may have changed: forget lengths taken of it"""
        self.killsym(st, lambda y: y[0] == "len" and y[1] == cell)

    def newsym(self, st, v, ty, link=None, site=None):
        lo, hi = int_range(ty)
        bag = bagof(v)
        if v[0] == "iv":
            lo, hi = max(lo, v[1]), min(hi, v[2])
        sym = (("len",) + link if link else ("s",)) + (self.pc if site is None else site,)
        self.killsym(st, lambda y: y == sym)
        return iv(lo, hi, bag, sym)

    def refine_sym(self, st, sym, lo, hi):
        """on this path the integer `sym` lies in [lo, hi]; None when impossible"""
        dead = []

        def new(v):
            a, b = max(lo, v[1]), min(hi, v[2])
            if a > b:
                dead.append(1)
                return v
            return iv(a, b, v[3], v[4])
        for c, v in list(st.items()):
            n = resym(v, sym, new)
            if n is not v:
                st[c] = n
        if dead:
            return None
        if sym[0] == "len":
            cell, proj = sym[1], sym[2]
            x = self.rd(st, cell, proj)
            if x[0] == "vec":
                a, b = max(x[2], min(lo, 4)), min(x[3], hi)
                if a > b:
                    return None
                self.wr(st, cell, proj, ("vec", x[1] if b else None, a, b if b <= 4 else INF))
        return st

    def rng(self, v, ty):
        if v[0] == "i":
            return v[1], v[1]
        lo, hi = int_range(ty)
        if v[0] == "iv":
            return max(lo, v[1]), min(hi, v[2])
        return lo, hi

    def opty(self, fn, o):
        p = o.get("cp") or o.get("mv")
        if p is None:
            return self.P.types[o["c"]] if "c" in o else None
        t = self.P.types[fn.locals[p["l"]]]
        for e in p["p"]:
            if e == "*":
                t = t.arg(0) if t.k in ("ref", "refmut", "ptr") else t.arg(0) if t.p == "std::boxed::Box" else None
            elif "f" in e:
                t = self.P.types[e["t"]]
            elif "d" in e:
                continue
            else:
                t = t.arg(0) if t is not None and t.k in ("slice", "array") else None
            if t is None:
                return None
        return t

    def branch(self, st, v, truth):
        """assume the boolean v is `truth`; None when impossible"""
        if v[0] == "i":
            return st if bool(v[1]) == truth else None
        if v[0] != "cmp":
            return st
        _, op, a, b = v
        if not truth:
            op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op]
        ra = (a[1], a[1]) if a[0] == "i" else a[1:3]
        rb = (b[1], b[1]) if b[0] == "i" else b[1:3]
        na, nb = ra, rb
        if op == "Eq":
            na = nb = (max(ra[0], rb[0]), min(ra[1], rb[1]))
        elif op == "Ne":
            if rb[0] == rb[1]:
                na = (ra[0] + (ra[0] == rb[0]), ra[1] - (ra[1] == rb[0]))
            if ra[0] == ra[1]:
                nb = (rb[0] + (rb[0] == ra[0]), rb[1] - (rb[1] == ra[0]))
        elif op in ("Lt", "Le"):
            d = 1 if op == "Lt" else 0
            na, nb = (ra[0], min(ra[1], rb[1] - d)), (max(rb[0], ra[0] + d), rb[1])
        else:
            d = 1 if op == "Gt" else 0
            na, nb = (max(ra[0], rb[0] + d), ra[1]), (rb[0], min(rb[1], ra[1] - d))
        if na[0] > na[1] or nb[0] > nb[1]:
            return None
        for x, n in ((a, na), (b, nb)):
            if x[0] == "iv" and x[4] is not None and n != x[1:3]:
                st = self.refine_sym(st, x[4], n[0], n[1])
                if st is None:
                    return None
        return st

    # ------------------------------------------------------------ operands / rvalues
    def const(self, fn, o):
        if "fn" in o:
            f = o["fn"]
            return ("fn", f["full"] + "|" + str(f.get("inst")), id(f)) if False else self.fnval(f)
        if "str" in o:
            return ("s", o["str"])
        if "promoted" in o:
            return self.promoted(fn, o)
        if "v" in o:
            t = self.P.types[o["c"]]
            if t.k == "prim":
                return ("i", o["v"])
            if t.p == "std::process::ExitCode":
                return ("adt", t.p, 0, (("i", o["v"]),))
            if t.k == "adt":
                a = self.P.adts[t.adt]
                if a["kind"] == "enum":
                    for i, v in enumerate(a["variants"]):
                        if v["disc"] == o["v"] and not v["fields"]:
                            return ("adt", t.p, i, ())
                return O0
            return O0
        if "uneval" in o and o.get("ukey") in self.P.by_key:
            return self.constbody(o["ukey"])
        if o.get("zst"):
            t = self.P.types[o["c"]]
            if t.k == "tuple":
                return UNIT
            if t.k == "closure":
                return ("clo", t.key and self.P.j["types"][o["c"]].get("inst", t.key), ())
            if t.k == "adt":
                a = self.P.adts[t.adt]
                if a["kind"] == "struct" and a["variants"]:
                    return ("adt", t.p, 0, tuple(UNIT for _ in a["variants"][0]["fields"]))
            return O0
        return O0

    _fnreg = {}

    def fnval(self, f):
        k = f["full"] + "|" + str(f.get("inst"))
        self._fnreg[k] = f
        return ("fn", k)

    def constbody(self, key):
        c = getattr(self, "_cb", None)
        if c is None:
            c = self._cb = {}
        if key in c:
            return c[key]
        c[key] = O0
        f = self.P.by_key[key][0]
        outs = self.run(f, {}, quiet=True)
        if len(outs) == 1:
            c[key] = outs[0][0]
        return c[key]

    def promoted(self, fn, o):
        c = getattr(self, "_pc", None)
        if c is None:
            c = self._pc = {}
        owner = fn
        if getattr(fn, "owner", None) is not None:
            owner = fn.owner
        if o["pkey"] != owner.key:
            l = self.P.by_key.get(o["pkey"], [])
            owner = l[0] if l else owner
        k = (owner.id, o["promoted"])
        if k in c:
            return c[k]
        c[k] = O0
        if o["promoted"] < len(owner.promoted):
            from facts import Fn
            j = dict(owner.promoted[o["promoted"]])
            j.update(id=owner.id + "::promoted%d" % o["promoted"], key=owner.key, path=owner.path, kind="Promoted")
            pf = Fn(self.P, j)
            pf.span = owner.span
            pf.owner = owner
            outs = self.run(pf, {}, quiet=True)
            if len(outs) == 1:
                c[k] = outs[0][0]
        return c[k]

    def op(self, st, fn, o):
        p = o.get("cp") or o.get("mv")
        if p is not None:
            v = self.get(st, fn, p)
            if v[0] == "o" or (v[0] == "iv" and v[4] is None):
                t = self.opty(fn, o)
                if t is not None and t.k == "prim" and INTS.match(t.s):
                    self.opn += 1
                    site = (self.pc, self.opn)
                    nv = self.newsym(st, v, t.s, site=site)
                    rs = self.resolve(st, fn, p)
                    if rs is not None:
                        cur = self.rd(st, rs[0], rs[1])
                        if cur == v:
                            if rs[1] and any(e[0] in ("ix", "w") for e in rs[1] if e != "*"):
                                pass
                            else:
                                self.wr(st, rs[0], rs[1], nv)
                    v = nv
            return v
        if "c" in o:
            return self.const(fn, o)
        return O0

    def rvalue(self, st, fn, r):
        k = r["k"]
        if k == "use":
            return self.op(st, fn, r["o"])
        if k == "ref":
            if r["mut"]:
                rs = self.resolve(st, fn, r["pl"])
                if rs is None:
                    return self.get(st, fn, r["pl"])
                return ("mref", rs[0], rs[1])
            v = self.get(st, fn, r["pl"])
            rs = self.resolve(st, fn, r["pl"])
            return ("sref", v, rs)
        if k == "rawptr":
            rs = self.resolve(st, fn, r["pl"])
            return ("mref", rs[0], rs[1]) if rs else self.get(st, fn, r["pl"])
        if k == "cast":
            if r["ck"].startswith("BoxDeref") or "BoxDeref" in r["ck"]:
                p = r["o"].get("cp") or r["o"].get("mv")
                if p is not None and len(p["p"]) == 1 and p["p"][0] != "*" and "f" in p["p"][0]:
                    cell, proj = self.resolve(st, fn, {"l": p["l"], "p": []})
                    bv = self.rd(st, cell, proj)
                    if bv[0] == "box":
                        return ("mref", cell, proj + ("*",))
                    return bv
            v = self.op(st, fn, r["o"])
            if r["ck"].startswith(("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat")):
                if v[0] == "i" and r["ck"].startswith("IntToInt"):
                    lo, hi = int_range(self.P.types[r["to"]].s)
                    if lo <= v[1] <= hi:
                        return v
                h = self.hooks.get("cast")
                if h:
                    v = h(self, fn, r, v)
                return v if v[0] in ("o", "num") else O(bagof(v))
            return v
        if k == "bin":
            t = self.opty(fn, r["a"])
            return self.binop(r["op"], self.op(st, fn, r["a"]), self.op(st, fn, r["b"]), t.s if t is not None and t.k == "prim" else None)
        if k == "un":
            v = self.op(st, fn, r["a"])
            if r["op"] == "Not":
                if v[0] == "i" and v[1] in (0, 1):
                    return ("i", 1 - v[1])
                if v[0] == "vtest":
                    return v[:6] + (not v[6],)
                if v[0] == "cmp":
                    return ("cmp", {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[v[1]], v[2], v[3])
            if r["op"] == "PtrMetadata":
                return self.seqlen(st, v)
            if r["op"] == "Neg" and v[0] == "i":
                return ("i", -v[1])
            return O(bagof(v))
        if k == "disc":
            v = self.get(st, fn, r["pl"])
            t = self.P.types[r["t"]]
            while v[0] in ("sref", "box") and t.k == "adt":
                v = v[1]
            if v[0] == "adt" and t.adt is not None:
                a = self.P.adts[t.adt]
                if v[2] < len(a["variants"]):
                    d = a["variants"][v[2]]["disc"]
                    pl = self.curstmt["pl"] if self.curstmt else None
                    ds = self.P.types[fn.locals[pl["l"]]].s if pl and not pl["p"] else ""
                    if ds[:1] == "i" and INTS.match(ds):
                        lo, hi = int_range(ds)
                        d = d - (hi - lo + 1) if d > hi else d
                    return ("i", d)
            rs = self.resolve(st, fn, r["pl"])
            return ("disc", rs, t.i, v) if rs is not None else O(bagof(v))
        if k == "agg":
            ops = tuple(self.op(st, fn, x) for x in r["ops"])
            ak = r["ak"]
            if ak == "adt":
                h = self.hooks.get("aggregate")
                if h:
                    ops = h(self, fn, r, ops) or ops
                return ("adt", r["p"], r["v"], ops)
            if ak == "tuple":
                return ("tup", ops)
            if ak == "array":
                if len(ops) <= 40:
                    return ("arr", ops)
                b = E
                for x in ops:
                    b = b | bagof(x)
                return O(b)
            if ak == "closure":
                return ("clo", r.get("inst") or r["key"], ops)
            b = E
            for x in ops:
                b = b | bagof(x)
            return O(b)
        if k == "repeat":
            return O(bagof(self.op(st, fn, r["o"])))
        return O0

    def seqlen(self, st, v):
        """length of the sequence a reference denotes"""
        org = v[2] if v[0] == "sref" else (v[1], v[2]) if v[0] == "mref" else None
        n = 0
        x = v
        while x[0] in ("sref", "box", "mref") and n < 6:
            if x[0] == "sref" and x[2] is not None:
                org = x[2]
            if x[0] == "mref":
                org = (x[1], x[2])
            x = self.deref(st, x)
            n += 1
        if x[0] == "s":
            return iv(0, MEM)
        if x[0] in ("arr", "vec"):
            x2 = as_vec(x)
            if x[0] == "arr":
                return ("i", len(x[1]))
            r = iv(x2[2], MEM if x2[3] >= INF else x2[3])
            if r[0] == "iv" and org is not None and self.rd(st, org[0], org[1]) == x:
                return self.newsym(st, r, "usize", link=org)
            return r
        return iv(0, MEM)

    def binop(self, op, a, b, ty=None):
        if op in ("Eq", "Ne") and (a[0] == "chn" or b[0] == "chn"):
            c, o = (a, b) if a[0] == "chn" else (b, a)
            if o[0] == "i" and chr(o[1]) in c[1]:
                return ("i", int(op == "Ne"))
            return O0
        bag = bagof(a) | bagof(b)
        isint = ty is not None and INTS.match(ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == "i" and b[0] == "i":
                x, y = a[1], b[1]
                return ("i", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
            if isint:
                if not isnum(a):
                    a = iv(*int_range(ty), bagof(a))
                if not isnum(b):
                    b = iv(*int_range(ty), bagof(b))
                (al, ah), (bl, bh) = self.rng(a, ty), self.rng(b, ty)
                t = f = False
                if op in ("Eq", "Ne"):
                    t, f = (ah < bl or bh < al), (al == ah == bl == bh)
                    if t or f:
                        return ("i", int((op == "Ne") == t))
                else:
                    if op in ("Gt", "Ge"):
                        op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
                        (al, ah), (bl, bh) = (bl, bh), (al, ah)
                    if (ah < bl) or (op == "Le" and ah <= bl):
                        return TRUE
                    if (al > bh) or (op == "Lt" and al >= bh):
                        return FALSE
                if not isnum(a) or not isnum(b):
                    return O(bag)
                return ("cmp", op, a, b)
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            if r is not None:
                return ("i", int(r if op == "Eq" else not r))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ovf = "WithOverflow" in op
        if isint and base in ("Add", "Sub", "Mul", "Div", "Rem"):
            (al, ah), (bl, bh) = self.rng(a, ty), self.rng(b, ty)
            tl, th = int_range(ty)
            if base == "Add":
                lo, hi = al + bl, ah + bh
                if ah <= MEM and bh <= MEM:
                    hi = min(hi, MEM)
            elif base == "Sub":
                lo, hi = al - bh, ah - bl
            elif base == "Mul":
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
                if 0 <= al <= ah <= MEM and 0 <= bl <= bh <= 1024 or 0 <= bl <= bh <= MEM and 0 <= al <= ah <= 1024:
                    hi = min(hi, MEM)
            elif base == "Div":
                if bl > 0:
                    c = [trunc(al, bl), trunc(al, bh), trunc(ah, bl), trunc(ah, bh)]
                    lo, hi = min(c), max(c)
                else:
                    lo, hi = tl, th
            else:
                if bl > 0:
                    lo, hi = (0 if al >= 0 else -(bh - 1)), bh - 1
                else:
                    lo, hi = tl, th
            fits = tl <= lo and hi <= th
            if not (lo == hi and abs(lo) <= 16):
                lo, hi = snap(lo, hi)
            lo, hi = max(lo, tl), min(hi, th)
            if lo > hi:
                lo, hi = tl, th
            v = iv(lo, hi, bag)
            if ovf:
                return ("tup", (v, FALSE if fits else ("ovf", ty)))
            return v if fits else O(bag)
        if a[0] == "i" and b[0] == "i":
            if base == "BitAnd":
                return ("i", a[1] & b[1])
            if base == "BitOr":
                return ("i", a[1] | b[1])
        if ovf:
            return ("tup", (O(bag), O(bag)))
        return O(bag)

    def eq(self, a, b):
        while a[0] in ("sref", "box"):
            a = a[1]
        while b[0] in ("sref", "box"):
            b = b[1]
        if a[0] == "i" and b[0] == "i":
            return a[1] == b[1]
        if (a[0] == "chn" and b[0] == "i" and chr(b[1]) in a[1]) or (b[0] == "chn" and a[0] == "i" and chr(a[1]) in b[1]):
            return False
        if isnum(a) and isnum(b):
            (al, ah), (bl, bh) = self.rng(a, "i128"), self.rng(b, "i128")
            return False if ah < bl or bh < al else None
        if a[0] == "s" and b[0] == "s":
            return a[1] == b[1]
        if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
            if a[2] != b[2]:
                return False
            res = True
            for x, y in zip(a[3], b[3]):
                r = self.eq(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
            res = True
            for x, y in zip(a[1], b[1]):
                r = self.eq(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        return None

    # ------------------------------------------------------------ liveness
    def liveness(self, fn):
        r = self.live.get(fn.id)
        if r is not None:
            return r
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        borrowed = set()

        def uplace(p, u, d):
            if p["l"] not in d:
                u.add(p["l"])
            for e in p["p"]:
                if e != "*" and "i" in e and e["i"] not in d:
                    u.add(e["i"])

        def uop(o, u, d):
            p = o.get("cp") or o.get("mv")
            if p is not None:
                uplace(p, u, d)
        for b in fn.reach():
            u, d = use[b], de[b]
            for s in fn.blocks[b]["s"]:
                if "rv" not in s:
                    continue
                r = s["rv"]
                for kk in ("o", "a", "b"):
                    if isinstance(r.get(kk), dict):
                        uop(r[kk], u, d)
                for o in r.get("ops", []):
                    uop(o, u, d)
                if "pl" in r:
                    uplace(r["pl"], u, d)
                    if r["k"] in ("ref", "rawptr") and (r.get("mut") or r["k"] == "rawptr"):
                        borrowed.add(r["pl"]["l"])
                p = s["pl"]
                if p["p"]:
                    uplace(p, u, d)
                else:
                    d.add(p["l"])
            t = fn.blocks[b]["t"]
            if "o" in t:
                uop(t["o"], u, d)
            if t["k"] == "call":
                uop(t["f"], u, d)
                for a in t["args"]:
                    uop(a, u, d)
                if t["d"]["p"]:
                    uplace(t["d"], u, d)
                else:
                    d.add(t["d"]["l"])
            if t["k"] == "drop":
                uplace(t["pl"], u, d)
            if t["k"] == "return":
                u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in fn.reach():
                o = set()
                for s in fn.succs(b):
                    o |= live[s]
                i = use[b] | (o - de[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live[fn.id] = (live, borrowed)
        return self.live[fn.id]

    # ------------------------------------------------------------ running a body
    def run(self, fn, init, quiet=False, cells=()):
        """init: cell->value. Returns list of (ret, {cell: value for cells})"""
        live, borrowed = self.liveness(fn)
        seen = {}
        merged = {}
        work = [(0, dict(init))]
        outs = []
        outset = set()
        self.stats["instances"].add(fn.id)
        steps = 0
        while work:
            b, st = work.pop()
            # restrict to live
            lv = live[b]
            full = st
            st = {c: v for c, v in st.items() if not isinstance(c, int) or c in lv or c in borrowed}
            if len(st) < len(full):
                # a lent borrow may still lead to a cell the function itself no longer names
                pend = []
                for v in st.values():
                    if v[0] not in SIMPLE:
                        mrefs(v, pend)
                while pend:
                    c = pend.pop()
                    if c not in st and c in full:
                        st[c] = full[c]
                        mrefs(full[c], pend)
            key = frozenset(st.items())
            sb = seen.setdefault(b, set())
            if key in sb:
                continue
            sb.add(key)
            if len(sb) > self.K:
                m = merged.get(b)
                if m is None:
                    m = dict(st)
                else:
                    nm = {}
                    for c in m:
                        if c in st:
                            nm[c] = join(m[c], st[c])
                        else:
                            nm[c] = m[c]
                    for c in st:
                        if c not in nm:
                            nm[c] = st[c]
                    if nm == m:
                        continue
                    m = nm
                merged[b] = m
                st = dict(m)
            steps += 1
            self.stats["blocks"].add((fn.id, b))
            if steps > 60000:
                raise RuntimeError("state explosion in " + fn.path)
            try:
                for nb, ns in self.step(fn, b, dict(st), quiet):
                    if nb is None:
                        ret = ns.get(0, O0)
                        r = (ret, tuple((c, ns.get(c, O0)) for c in cells))
                        if r not in outset:
                            outset.add(r)
                            outs.append(r)
                    else:
                        work.append((nb, ns))
            except Dead:
                pass
        self.max_states = max(self.max_states, max((len(x) for x in seen.values()), default=0))
        return [(r, dict(cs)) for r, cs in outs]

    def step(self, fn, b, st, quiet):
        blk = fn.blocks[b]
        self.cur = (fn, b)
        self.opn = 0
        for si, s in enumerate(blk["s"]):
            self.pc = (b, si)
            if "rv" in s:
                self.curstmt = s
                v = self.rvalue(st, fn, s["rv"])
                self.put(st, fn, s["pl"], v)
            else:
                p = s["setdisc"]
                rs = self.resolve(st, fn, p)
        t = blk["t"]
        self.pc = (b, "t")
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            return [(None, st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(fn, b, st, t)
        if k == "assert":
            v = self.op(st, fn, t["o"])
            exp = int(t["exp"])
            if t["msg"].startswith(("Null", "Misaligned")):
                return [(t["t"], st)]
            self.stats["panic_sites"].add((fn.id, b))
            if v[0] == "i":
                if v[1] == exp:
                    return [(t["t"], st)]
                self.finding(fn, b, "assert:" + t["msg"], t, quiet)
                return []
            if v[0] == "cmp":
                bad = self.branch(dict(st), v, not bool(exp))
                good = self.branch(st, v, bool(exp))
                if bad is None and good is not None:
                    return [(t["t"], good)]
                self.finding(fn, b, "assert:" + t["msg"], t, quiet)
                return [(t["t"], good)] if good is not None else []
            h = self.hooks.get("assert")
            if not (h and h(self, fn, b, t, st)):
                self.finding(fn, b, "assert:" + t["msg"], t, quiet, [self.op(st, fn, x) for x in t.get("mops", [])])
            return [(t["t"], st)]
        if k == "drop":
            return self.drop(fn, b, st, t, quiet)
        if k == "call":
            return self.call(fn, b, st, t, quiet)
        return []

    def switch(self, fn, b, st, t):
        v = self.op(st, fn, t["o"])
        if v[0] == "i":
            for val, tg in t["ts"]:
                if val == v[1] or (v[1] < 0 and val == v[1] + (1 << 128)) or (v[1] < 0 and (val - v[1]) in (1 << 8, 1 << 16, 1 << 32, 1 << 64)):
                    return [(tg, st)]
            return [(t["else"], st)]
        out = []
        if v[0] == "disc":
            _, rs, ti, snap = v
            ty = self.P.types[ti]
            a = self.P.adts[ty.adt] if ty.adt is not None else None
            if a is not None and a["variants"]:
                covered = {}
                for val, tg in t["ts"]:
                    covered[val] = tg
                cur = self.rd(st, rs[0], rs[1])
                for vi, var in enumerate(a["variants"]):
                    d = var["disc"]
                    tg = covered.get(d, covered.get(d + (1 << 128) if d < 0 else d, t["else"]))
                    if fn.blocks[tg]["t"]["k"] == "unreachable" and not fn.blocks[tg]["s"]:
                        continue
                    ns = dict(st)
                    if bagof(cur) == bagof(snap) and cur[0] not in ("adt",):
                        self.refine(ns, fn, rs, ty, a, vi, cur)
                    out.append((tg, ns))
                return out
        if v[0] == "vtest":
            _, rs, ti, snap, vi, other, pol = v
            for val, tg in [(x, y) for x, y in t["ts"]] + [(None, t["else"])]:
                truth = (val != 0) if val is not None else True
                if val is None and any(x == 1 for x, _ in t["ts"]):
                    truth = False
                want = vi if truth == pol else other
                ns = dict(st)
                cur = self.rd(st, rs[0], rs[1])
                if cur == snap and want is not None:
                    ty = self.P.types[ti]
                    self.refine(ns, fn, rs, ty, self.P.adts[ty.adt], want, cur)
                out.append((tg, ns))
            return out
        p = t["o"].get("cp") or t["o"].get("mv")
        vals = [val for val, _ in t["ts"]]
        isbool = self.P.types[t["ty"]].s == "bool"
        if v[0] == "cmp":
            for val, tg in t["ts"] + [[None, t["else"]]]:
                if val is None:
                    if 0 in vals and 1 in vals:
                        continue
                    truth = 0 in vals
                else:
                    truth = val != 0
                ns = self.branch(dict(st), v, truth)
                if ns is not None:
                    out.append((tg, ns))
            return out
        if v[0] == "chn":
            for val, tg in t["ts"]:
                if chr(val) not in v[1]:
                    out.append((tg, dict(st)))
            out.append((t["else"], dict(st)))
            return out
        if v[0] == "iv":
            tys = self.P.types[t["ty"]].s
            lo, hi = v[1], v[2]
            bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(tys)
            rest = [lo, hi]
            for val, tg in t["ts"]:
                sv = val - (1 << bits) if bits and val >= 1 << (bits - 1) else val
                if not lo <= sv <= hi:
                    continue
                ns = dict(st)
                if v[4] is not None:
                    ns = self.refine_sym(ns, v[4], sv, sv)
                    if ns is None:
                        continue
                out.append((tg, ns))
            svals = sorted((val - (1 << bits) if bits and val >= 1 << (bits - 1) else val) for val in vals)
            for x in svals:
                if x == rest[0]:
                    rest[0] += 1
            for x in reversed(svals):
                if x == rest[1]:
                    rest[1] -= 1
            if rest[0] <= rest[1] and not (fn.blocks[t["else"]]["t"]["k"] == "unreachable" and not fn.blocks[t["else"]]["s"]):
                ns = dict(st)
                if v[4] is not None:
                    ns = self.refine_sym(ns, v[4], rest[0], rest[1])
                if ns is not None:
                    out.append((t["else"], ns))
            return out
        for val, tg in t["ts"]:
            ns = dict(st)
            if p is not None and not p["p"] and "cp" in t["o"]:
                ns[p["l"]] = ("i", val)
            out.append((tg, ns))
        if not (fn.blocks[t["else"]]["t"]["k"] == "unreachable" and not fn.blocks[t["else"]]["s"]):
            ns = dict(st)
            if isbool and p is not None and not p["p"] and "cp" in t["o"] and len(vals) == 1:
                ns[p["l"]] = ("i", 1 - vals[0])
            out.append((t["else"], ns))
        return out

    def refine(self, ns, fn, rs, ty, a, vi, cur):
        var = a["variants"][vi]
        bag = bagof(cur)
        fields = []
        for _, ft, _ in var["fields"]:
            # field types in the table are generic; narrow only when concrete
            fields.append(self.narrow_field(bag, ft, ty))
        nv = ("adt", ty.p, vi, tuple(fields))
        if ty.p == OPT and vi == 1 and bag:
            # an opaque Option<Pair> etc keeps its atoms
            nv = ("adt", ty.p, vi, (self.narrow(O(bag), ty.a[0]),))
        if ty.p == RES and bag:
            nv = ("adt", ty.p, vi, (self.narrow(O(bag), ty.a[vi]),))
        self.wr(ns, rs[0], rs[1], nv)

    def narrow_field(self, bag, ft, owner):
        t = self.P.types[ft]
        if not bag:
            return O0
        if has_param(self.P, ft):
            return O(bag)
        return self.narrow(O(bag), ft)

    # ------------------------------------------------------------ findings
    def finding(self, fn, b, kind, t, quiet=False, detail=None):
        if quiet:
            return
        sp = t.get("sp")
        k = (fn.path, kind, b)
        if k not in self.findings:
            self.findings[k] = {
                "fn": fn.path, "id": fn.id, "block": b, "kind": kind, "span": sp,
                "stack": [x for x in self.stack], "detail": detail, "term": t,
            }

    # ------------------------------------------------------------ drop
    def drop(self, fn, b, st, t, quiet):
        if not t.get("nd", True):
            return [(t["t"], st)]
        ty = self.P.types[t["ty"]]
        outs = [st]
        if self.P.drop_impls and self.P.drops_of(t["ty"]):
            rs = self.resolve(st, fn, t["pl"])
            if rs is not None:
                outs = self.drop_value(fn, b, st, rs, t["ty"], quiet, 0)
        return [(t["t"], s) for s in outs]

    def drop_value(self, fn, b, st, rs, ti, quiet, d):
        ty = self.P.types[ti]
        if d > 4 or ty.k != "adt" or not self.P.drops_of(ti):
            return [st]
        outs = [st]
        if ty.p in self.P.drop_impls:
            f = self.P.drop_impls[ty.p]
            nouts = []
            for s in outs:
                for ret, ns in self.call_local(f, [("mref", rs[0], rs[1])], s, quiet):
                    nouts.append(ns)
            outs = nouts
        v = self.rd(st, rs[0], rs[1])
        a = self.P.adts[ty.adt]
        if v[0] == "adt" and a["kind"] == "enum" and v[2] < len(a["variants"]):
            for i, (_, ft, _) in enumerate(a["variants"][v[2]]["fields"]):
                fty = self.P.types[ft]
                if fty.k == "param" and ty.a:
                    ft = ty.a[min(i, len(ty.a) - 1)] if len(ty.a) == 1 else ty.a[v[2]] if ty.p == RES else ft
                nouts = []
                for s in outs:
                    nouts += self.drop_value(fn, b, s, (rs[0], rs[1] + (("d", v[2]), ("f", i))), ft, quiet, d + 1)
                outs = nouts
        elif a["kind"] == "struct" and a["variants"]:
            for i, (_, ft, _) in enumerate(a["variants"][0]["fields"]):
                if self.P.types[ft].k == "adt" and self.P.drops_of(ft):
                    nouts = []
                    for s in outs:
                        nouts += self.drop_value(fn, b, s, (rs[0], rs[1] + (("f", i),)), ft, quiet, d + 1)
                    outs = nouts
        return outs

    # ------------------------------------------------------------ calls
    def call(self, fn, b, st, t, quiet):
        args = [self.op(st, fn, a) for a in t["args"]]
        f = t["f"].get("fn")
        if f is None:
            fv = self.op(st, fn, t["f"])
            res = self.invoke(fv, args, st, quiet, t)
        else:
            res = self.dispatch(f, args, st, fn, b, t, quiet)
        out = []
        if t["t"] is None:
            return out
        dl = t["d"]
        for ret, ns in res:
            if ret[0] == "o":
                ret = self.narrow(ret, t["dty"])
            self.put(ns, fn, dl, ret)
            out.append((t["t"], ns))
        return out

    def dispatch(self, f, args, st, fn, b, t, quiet):
        p = f["p"]
        h = self.hooks.get("call")
        if h:
            r = h(self, f, args, st, fn, b, t, quiet)
            if r is not None:
                return r
        m = self.models.get(p)
        if m is None and f.get("trait"):
            m = self.models.get(("trait", f["trait"], f["name"]))
        if m is not None:
            ctx = Ctx(self, f, fn, b, t, quiet)
            r = m(ctx, args, st)
            if r is not None:
                return r
        if f.get("ctor"):
            return [(self.ctor(f, args), st)]
        i = f.get("inst")
        if i and i in self.P.fns:
            return self.call_local(self.P.fns[i], args, st, quiet)
        if f.get("virt") or (not f.get("rkey")):
            tg = self.P.targets(f)
            if tg:
                out = []
                for g in tg:
                    out += self.call_local(g, args, dict(st), quiet)
                return out
        if not f.get("rlocal") and not f.get("inst"):
            return self.external(f, args, st, fn, b, t, quiet)
        tg = self.P.targets(f)
        if tg:
            out = []
            for g in tg:
                out += self.call_local(g, args, dict(st), quiet)
            return out
        return self.external(f, args, st, fn, b, t, quiet)

    def ctor(self, f, args):
        # path like a::B::Variant or a::Struct
        p = f["p"]
        if p in ("std::prelude::v1::Some", "core::option::Option::Some"):
            return some(args[0])
        if p in ("std::prelude::v1::Ok", "std::prelude::v1::Err"):
            return ok(args[0]) if p.endswith("Ok") else err(args[0])
        a = self.P.adt_by_path.get(p)
        if a is not None:
            return ("adt", p, 0, tuple(args))
        q = re.sub(r"::<[^<>]*>", "", p)
        par, _, vn = p.rpartition("::")
        par = re.sub(r"::<.*>$", "", par)
        a = self.P.adt_by_path.get(par)
        if a is not None:
            for i, v in enumerate(a["variants"]):
                if v["name"] == vn:
                    return ("adt", par, i, tuple(args))
        b = E
        for x in args:
            b = b | bagof(x)
        return O(b)

    def external(self, f, args, st, fn, b, t, quiet):
        """default transfer for code outside the crate"""
        if t is not None:
            self.stats["externals"][f["p"]] = self.stats["externals"].get(f["p"], 0) + 1
        h = self.hooks.get("external")
        if h:
            h(self, f, args, st, fn, b, t, quiet)
        bag = E
        for a in args:
            bag = bag | bagof(a)
        states = [st]
        # closures / fn items handed over may run any number of times on anything in the bag
        for a in args:
            for fv in self.callables(a):
                n = self.arity(fv)
                nst = []
                for s in states:
                    nst.append(s)
                    for ret, s2 in self.invoke(fv, [O(frozenset(x for x in bag if x[0] not in ("clo", "fn")))] * n, dict(s), quiet, t):
                        bag = bag | bagof(ret)
                        nst.append(s2)
                states = dedupe(nst)
        for tr, i in f.get("via", []):
            if i in self.P.fns and self.follow_via(tr, f):
                g = self.P.fns[i]
                sub = O(frozenset(x for x in bag if x[0] not in ("clo", "fn")))
                for s in states[:1]:
                    try:
                        for ret, s2 in self.call_local(g, self.opaque_args(g, sub, s), dict(s), quiet):
                            bag = bag | bagof(ret)
                    except RuntimeError:
                        raise
        # mutable references may be written with anything
        out = []
        for s in states:
            s = dict(s)
            for a in args:
                ms = []
                mrefs(a, ms)
                for x in bagof(a):
                    if x[0] == "mref":
                        self.weak(s, x, frozenset(y for y in bag if y[0] not in ("mref", "fn", "clo")))
            out.append((O(frozenset(x for x in bag if x[0] != "fn")), s))
        return out

    def follow_via(self, tr, f):
        return True

    def opaque_args(self, g, v, st):
        out = []
        for i in range(g.argc):
            t = g.ty(i + 1)
            out.append(self.narrow(v, g.locals[i + 1]))
        return out

    def callables(self, v):
        out = []
        k = v[0]
        if k in ("clo", "fn"):
            out.append(v)
        elif k in ("sref", "box"):
            out += self.callables(v[1])
        elif k == "o":
            out += [x for x in v[1] if x[0] in ("clo", "fn")]
        elif k in ("itmap", "itfilter", "itfm"):
            out += self.callables(v[2])
        return out

    def arity(self, fv):
        if fv[0] == "clo":
            f = self.fn_of(fv[1])
            return max(0, f.argc - 1) if f else 0
        if fv[0] == "fn":
            f = self._fnreg[fv[1]]
            i = f.get("inst")
            if i in self.P.fns:
                return self.P.fns[i].argc
            return 1
        return 0

    def fn_of(self, i):
        return self.P.fns.get(i) or (self.P.by_key.get(i) or [None])[0]

    def invoke(self, fv, args, st, quiet, t=None):
        while fv[0] in ("sref", "box"):
            fv = fv[1]
        if fv[0] == "mref":
            fv = self.rd(st, fv[1], fv[2])
        if fv[0] == "clo":
            f = self.fn_of(fv[1])
            if f is None:
                return [(O(bagof(fv)), st)]
            t1 = f.ty(1)
            self_arg = ("sref", fv, None) if t1.k in ("ref", "refmut") else fv
            args = list(args)[: f.argc - 1]
            while len(args) < f.argc - 1:
                args.append(O0)
            return self.call_local(f, [self_arg] + args, st, quiet)
        if fv[0] == "fn":
            f = self._fnreg[fv[1]]
            return self.dispatch(f, list(args), st, self.cur[0], self.cur[1], t or {"sp": None, "args": [], "dty": 0}, quiet)
        cs = self.callables(fv)
        if cs:
            out = []
            for c in cs:
                out += self.invoke(c, args, dict(st), quiet, t)
            return out
        bag = bagof(fv)
        for a in args:
            bag = bag | bagof(a)
        return [(O(bag), st)]

    def call_local(self, f, args, st, quiet):
        args = [strip_origin(self.lend(st, a)) for a in args]
        # canonicalise reachable cells
        order = []
        m = {}
        pend = []
        for a in args:
            mrefs(a, pend)
        i = 0
        while i < len(pend):
            c = pend[i]
            i += 1
            if c in m:
                continue
            m[c] = ("A", len(order))
            order.append(c)
            mrefs(st.get(c, O0), pend)
        cargs = tuple(clip(rename(a, m)) for a in args)
        heap = tuple(clip(rename(strip_origin(st.get(c, O0)), m)) for c in order)
        if self.ghosts:
            order = order + [("G", g) for g in self.ghosts]
            heap = heap + tuple(st.get(("G", g), FALSE) for g in self.ghosts)
        outs = self.summary(f, cargs, heap, quiet)
        back = {("A", n): c for n, c in enumerate(order)}
        res = []
        for ret, hv in outs:
            ns = dict(st)
            for n, c in enumerate(order):
                if n < len(hv):
                    ns[c] = rename(hv[n], back)
            res.append((rename(ret, back), ns))
        return res

    def lend(self, st, a):
        """A shared borrow of a pair iterator (or of a structure holding one) is passed by identity, so that
        what the callee learns by peeking refines the caller's iterator."""
        if a[0] == "sref" and a[2] is not None and has_iter(a[1]) and self.rd(st, a[2][0], a[2][1]) == a[1]:
            return ("mref", a[2][0], a[2][1])
        return a

    def summary(self, f, args, heap, quiet):
        key = (f.id, args, heap)
        if key in self.round:
            return self.S.get(key, ())
        if len(self.stack) > 60:
            # recursion on ever-growing arguments: generalise
            return self.S.get(key, ())
        self.round.add(key)
        init = {}
        for i in range(f.argc):
            init[i + 1] = args[i] if i < len(args) else O0
        cells = []
        ng = len(heap) - len(self.ghosts)
        for n, v in enumerate(heap):
            c = ("A", n) if n < ng else ("G", self.ghosts[n - ng])
            init[c] = v
            cells.append(c)
        self.stack.append(f.path)
        saved = self.cur
        outs = self.run(f, init, quiet, cells)
        self.cur = saved
        self.stack.pop()
        norm = []
        for ret, cs in outs:
            r = self.collapse_value(clip(strip_origin(ret)))
            norm.append((r, tuple(clip(strip_origin(cs[c])) for c in cells)))
        old = self.S.get(key, ())
        new = self.merge_outs(list(old) + norm)
        if set(new) != set(old):
            self.S[key] = new
            self.changed = True
        return self.S.get(key, ())

    def collapse_value(self, v):
        k = v[0]
        if k == "adt":
            if self.collapse(v[1]) and v[3]:
                return O(bagof(v))
            return ("adt", v[1], v[2], tuple(self.collapse_value(x) for x in v[3]))
        if k == "tup":
            return ("tup", tuple(self.collapse_value(x) for x in v[1]))
        if k == "box":
            x = self.collapse_value(v[1])
            return ("box", x)
        if k == "vec" and v[1] is not None:
            return ("vec", self.collapse_value(v[1]), v[2], v[3])
        return v

    def shape(self, v):
        if v[0] == "adt":
            return ("adt", v[1], v[2], tuple(self.shape(x) for x in v[3]))
        if v[0] == "tup":
            return ("tup", tuple(self.shape(x) for x in v[1]))
        if v[0] in ("o",):
            return "o"
        if v[0] in ("sref", "box"):
            return (v[0], self.shape(v[1]))
        if v[0] == "vec":
            return ("vec",)
        if v[0] == "iv":
            return "iv"
        return v

    def merge_outs(self, outs):
        groups = {}
        for r, h in outs:
            g = (self.shape(r), tuple(self.shape(x) for x in h))
            if g in groups:
                r0, h0 = groups[g]
                groups[g] = (join(r0, r), tuple(join(x, y) for x, y in zip(h0, h)))
            else:
                groups[g] = (r, h)
        res = list(groups.values())
        if len(res) > 48:
            coarse = {}
            for r, h in res:
                g = (r[0], r[1:3] if r[0] == "adt" else None)
                if g in coarse:
                    r0, h0 = coarse[g]
                    coarse[g] = (join(r0, r), tuple(join(x, y) for x, y in zip(h0, h)))
                else:
                    coarse[g] = (r, h)
            res = list(coarse.values())
        return tuple(res)

    def analyse(self, entries, rounds=12):
        """entries: list of (Fn, args, heap). Iterate summaries to a global fixpoint."""
        for n in range(rounds):
            self.changed = False
            self.round = set()
            self.findings = {}
            res = []
            for f, args, heap in entries:
                res.append(self.summary(f, tuple(args), tuple(heap), False))
            if not self.changed:
                self.rounds = n + 1
                self.stats["contexts"] = len(self.S)
                return res
        raise RuntimeError("no fixpoint after %d rounds" % rounds)


def dedupe(sts):
    seen = set()
    out = []
    for s in sts:
        k = frozenset(s.items())
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


_hp = {}


def has_param(P, ti):
    r = _hp.get(ti)
    if r is None:
        t = P.types[ti]
        _hp[ti] = False
        r = t.k in ("param", "alias", "other") or any(has_param(P, x) for x in t.a)
        _hp[ti] = r
    return r


INTS = re.compile(r"[iu](8|16|32|64|128|size)$")


def trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def int_range(s):
    m = re.match(r"([iu])(\d+|size)$", s)
    if not m:
        return (0, 0x10FFFF) if s == "char" else (0, 1)
    n = 64 if m.group(2) == "size" else int(m.group(2))
    return (0, (1 << n) - 1) if m.group(1) == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


class Ctx:
    """what a model of an external callee may use"""

    def __init__(self, I, f, fn, b, t, quiet):
        self.I, self.f, self.fn, self.b, self.t, self.quiet = I, f, fn, b, t, quiet
        self.G = I.G

    def ta(self, n):
        """n-th type argument of the callee"""
        a = self.f.get("a", [])
        return self.I.P.types[a[n]] if n < len(a) else None

    def invoke(self, fv, args, st):
        return self.I.invoke(fv, args, st, self.quiet, self.t)

    def panic(self, kind, detail=None):
        self.I.finding(self.fn, self.b, kind, self.t, self.quiet, detail)
