"""Program model: loads the facts the rustc driver dumped (MIR of every local body)."""
import json, os, sys, re
from functools import lru_cache


class Ty:
    __slots__ = ("i", "s", "k", "p", "a", "adt", "key", "prog")

    def __init__(self, prog, i, j):
        self.prog = prog
        self.i = i
        self.s = j["s"]
        self.k = j["k"]
        self.p = j.get("p")
        self.a = j.get("a", [])
        self.adt = j.get("adt")
        self.key = j.get("key")

    def arg(self, n):
        return self.prog.types[self.a[n]]

    def peel(self):
        t = self
        while t.k in ("ref", "refmut", "ptr"):
            t = t.arg(0)
        return t

    def __repr__(self):
        return self.s


def harvested(prog):
    """constants the analysed code could compare with: (strings, characters, integers)"""
    if getattr(prog, "_harv", None) is None:
        S, C, N = set(), set(), set()
        for f in prog.fns.values():
            if not f.span or not str(f.span[0]).startswith("src/") or str(f.span[0]).startswith("src/cli") or f.derived:
                continue
            for k, v in f.consts():
                if k == "str":
                    S.add(v)
                elif k == "char":
                    C.add(v)
                elif k in ("usize", "i32", "i64", "u32", "u64", "u16", "i16", "isize"):
                    N.add(v)
                elif k == "u8" and 32 <= v < 127:
                    C.add(v)
            for b in f.blocks:  # a count narrowed to 8 bits wraps around at these lengths
                for st in b["s"]:
                    rv = st.get("rv") or {}
                    if rv.get("k") == "cast" and rv.get("ck") == "IntToInt" and prog.types[rv["to"]].s in ("u8", "i8") and prog.types[rv["from"]].s not in ("u8", "i8", "bool", "char"):
                        N.update((128, 256))
        prog._harv = (S, C, N)
    return prog._harv


class Fn:
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.id = j["id"]
        self.mono = j.get("mono", False)
        self.key = j["key"]
        self.path = j["path"]
        self.kind = j["kind"]
        self.pub = j.get("pub", False)
        self.span = j.get("span")
        self.name = j.get("name")
        self.parent = j.get("parent")
        self.trait = j.get("trait")
        self.traitref = j.get("traitref")
        self.intrait = j.get("intrait")
        self.targs = j.get("targs", [])
        self.self_ty = j.get("self")
        self.derived = j.get("derived", False)
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.names = j["names"]
        self.promoted = j.get("promoted", [])
        self._preds = None
        self._reach = None

    def consts(self):
        """constants in the body: strings, integers with their type"""
        out = []

        def go(x):
            if isinstance(x, dict):
                if "str" in x and isinstance(x["str"], str):
                    out.append(("str", x["str"]))
                elif "bytes" in x and isinstance(x["bytes"], list):
                    out.append(("bytes", x["bytes"]))
                elif "v" in x and "c" in x and isinstance(x["v"], int):
                    out.append((self.prog.types[x["c"]].s, x["v"]))
                for k, y in x.items():
                    if k not in ("sp", "fn", "s") and isinstance(y, (dict, list)) or k == "s" and isinstance(y, list):
                        go(y)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        go(y)
        for b in self.blocks:
            for st in b["s"]:
                go(st.get("rv"))
            t = b["t"]
            go(t)
            if t["k"] == "switch":
                ty = self.prog.types[t["ty"]].s if isinstance(t.get("ty"), int) else ""
                for v, _ in t.get("ts", []):
                    out.append((ty, v))
        for p in self.promoted:
            for b in (p.get("blocks") if isinstance(p, dict) else []) or []:
                go(b)
        return out

    def ty(self, l):
        return self.prog.types[self.locals[l]]

    def local_name(self, l):
        for n, p, _ in self.names:
            if p["l"] == l and not p["p"]:
                return n
        return "_%d" % l

    def succs(self, b, unwind=False):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k == "switch":
            out = [x[1] for x in t["ts"]] + [t["else"]]
        elif "t" in t and t["t"] is not None:
            out = [t["t"]]
        else:
            out = []
        if unwind and t.get("u") is not None:
            out.append(t["u"])
        return out

    def reach(self):
        """Blocks reachable on the normal (non-unwind) flow."""
        if self._reach is None:
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in self.succs(b):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.reach()}
            for b in self.reach():
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def calls(self):
        for b in sorted(self.reach()):
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                yield b, t

    @property
    def file(self):
        f = self.span[0]
        i = f.find("src/")
        return f[i:] if i >= 0 else f

    def __repr__(self):
        return "<Fn %s>" % self.path


def loc(sp):
    return "%s:%s" % (sp[0], sp[1]) if sp else "?"


def callee(t):
    """The static callee record of a call terminator, or None for an indirect call."""
    f = t["f"]
    return f.get("fn")


def cpath(t):
    f = callee(t)
    return f["p"] if f else None


def op_place(o):
    return o.get("cp") or o.get("mv")


def op_local(o):
    p = op_place(o)
    if p is not None and not p["p"]:
        return p["l"]
    return None


class Prog:
    """fns: instance id -> Fn (monomorphic instances where the crate instantiates them)."""

    def __init__(self, path):
        self.j = json.load(open(path))
        self._std, self._stdpath = None, os.path.join(os.path.dirname(path), "std-" + os.path.basename(path))
        self.types = [Ty(self, i, t) for i, t in enumerate(self.j["types"])]
        self.adts = self.j["adts"]
        self.adt_by_path = {a["path"]: a for a in self.adts}
        self.fns = {}
        self.by_key = {}
        self.by_path = {}
        for f in self.j["fns"]:
            fn = Fn(self, f)
            self.fns[fn.id] = fn
            self.by_key.setdefault(fn.key, []).append(fn)
            self.by_path.setdefault(fn.path, []).append(fn)
        self.impls = self.j["impls"]
        self.trait_impls = {}
        for im in self.impls:
            for n, k in im["items"]:
                self.trait_impls.setdefault((im["trait"], n), []).append((im, k))
        self.drop_impls = {}
        for im, k in self.trait_impls.get(("std::ops::Drop", "drop"), []):
            for f in self.by_key.get(k, []):
                self.drop_impls[self.types[im["self"]].p] = f

    @property
    def std(self):
        """instances of standard-library code the crate uses, by id"""
        if self._std is None:
            self._std = {}
            if os.path.exists(self._stdpath):
                for f in json.load(open(self._stdpath)):
                    self._std[f["id"]] = Fn(self, f)
        return self._std

    def fn(self, path):
        l = self.by_path.get(path, [])
        return l[0] if l else None

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def targets(self, fref):
        """Local bodies a callee record may run directly (CHA for virtual/unresolved trait calls)."""
        i = fref.get("inst")
        if i:
            return [self.fns[i]] if i in self.fns else []
        if fref.get("rkey") and not fref.get("virt") and fref["rkey"] in self.by_key and not fref.get("ctor"):
            return list(self.by_key[fref["rkey"]])
        if fref.get("rkey") and not fref.get("virt"):
            return []
        out = []
        tr = fref.get("trait")
        if tr:
            for im, k in self.trait_impls.get((tr, fref["name"]), []):
                out += self.by_key.get(k, [])
        out += self.by_key.get(fref["key"], [])
        return out

    def _frefs(self, f):
        """every function reference in the body: (fref, block, is_call)"""
        for b in f.reach():
            blk = f.blocks[b]
            for s in blk["s"]:
                rv = s.get("rv")
                if not rv:
                    continue
                ops = [rv.get("o"), rv.get("a"), rv.get("b")] + rv.get("ops", [])
                for o in ops:
                    if isinstance(o, dict) and "fn" in o:
                        yield o["fn"], b, False
            t = blk["t"]
            if t["k"] == "call":
                if "fn" in t["f"]:
                    yield t["f"]["fn"], b, True
                for a in t["args"]:
                    if "fn" in a:
                        yield a["fn"], b, False

    def callees(self, f):
        """Every local body f may run: calls, fn items passed around, closures it builds, trait
        methods reached through the bounds of an external callee, and Drop impls."""
        out = {}
        for fr, b, _ in self._frefs(f):
            for g in self.targets(fr):
                out[g.id] = g
            for _, i in fr.get("via", []):
                if i in self.fns:
                    out[i] = self.fns[i]
        for b in f.reach():
            for s in f.blocks[b]["s"]:
                rv = s.get("rv")
                if rv and rv["k"] == "agg" and rv["ak"] == "closure":
                    i = rv.get("inst")
                    if i in self.fns:
                        out[i] = self.fns[i]
                    else:
                        for g in self.by_key.get(rv["key"], []):
                            out[g.id] = g
            t = f.blocks[b]["t"]
            if t["k"] == "drop":
                for d in self.drops_of(t["ty"]):
                    out[d.id] = d
        return list(out.values())

    def drops_of(self, ti, seen=None):
        seen = set() if seen is None else seen
        if ti in seen:
            return []
        seen.add(ti)
        ty = self.types[ti]
        out = []
        if ty.k == "adt":
            if ty.p in self.drop_impls:
                out.append(self.drop_impls[ty.p])
            a = self.adts[ty.adt]
            for x in ty.a:
                out += self.drops_of(x, seen)
            for v in a["variants"]:
                for _, ft, _ in v["fields"]:
                    out += self.drops_of(ft, seen)
        elif ty.k in ("tuple", "array", "slice"):
            for x in ty.a:
                out += self.drops_of(x, seen)
        return out

    def reachable(self, roots):
        """id -> parent id (None for a root)"""
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            f, p = st.pop()
            if f.id in seen:
                continue
            seen[f.id] = p
            for g in self.callees(f):
                if g.id not in seen:
                    st.append((g, f.id))
        return seen

    def chain(self, seen, i):
        out = []
        while i is not None:
            out.append(self.fns[i].path)
            i = seen[i]
        return list(reversed(out))


# ---------------------------------------------------------------- pretty printing
def pp_place(fn, p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*":
            s = "(*%s)" % s
        elif "f" in e:
            s += "." + str(e["n"])
        elif "d" in e:
            s = "(%s as %s)" % (s, e["n"] or e["d"])
        elif "i" in e:
            s += "[_%d]" % e["i"]
        elif "ci" in e:
            s += "[%s%d]" % ("-" if e["fe"] else "", e["ci"])
        elif "ss" in e:
            s += "[%s]" % e["ss"]
        else:
            s += str(e)
    return s


def pp_op(fn, o):
    p = op_place(o)
    if p is not None:
        return ("move " if "mv" in o else "") + pp_place(fn, p)
    if "fn" in o:
        return o["fn"]["full"]
    if "str" in o:
        return json.dumps(o["str"])
    if "v" in o:
        return "%s_%s" % (o["v"], fn.prog.types[o["c"]].s)
    if "promoted" in o:
        return "promoted[%d]" % o["promoted"]
    return "const<%s>" % o.get("s", o)


def pp_rv(fn, r):
    k = r["k"]
    if k in ("use", "repeat"):
        return pp_op(fn, r["o"])
    if k == "ref":
        return "&%s%s" % ("mut " if r["mut"] else "", pp_place(fn, r["pl"]))
    if k == "cast":
        return "%s as %s (%s)" % (pp_op(fn, r["o"]), fn.prog.types[r["to"]].s, r["ck"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], pp_op(fn, r["a"]), pp_op(fn, r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], pp_op(fn, r["a"]))
    if k == "disc":
        return "discriminant(%s)" % pp_place(fn, r["pl"])
    if k == "agg":
        n = {"adt": lambda: "%s::%s" % (r["p"], r["vn"]), "closure": lambda: "closure " + r["key"]}.get(r["ak"], lambda: r["ak"])()
        return "%s{%s}" % (n, ", ".join(pp_op(fn, x) for x in r["ops"]))
    return str(r)


def pp(fn, out=sys.stdout):
    w = out.write
    w("fn %s  [%s] argc=%d %s\n" % (fn.path, fn.key, fn.argc, loc(fn.span)))
    for n, p, a in fn.names:
        w("  debug %s => %s\n" % (n, pp_place(fn, p)))
    for i, t in enumerate(fn.locals):
        w("  let _%d: %s\n" % (i, fn.prog.types[t].s))
    for i in sorted(fn.reach()):
        b = fn.blocks[i]
        w(" bb%d:\n" % i)
        for s in b["s"]:
            if "pl" in s:
                w("    %s = %s\n" % (pp_place(fn, s["pl"]), pp_rv(fn, s["rv"])))
            else:
                w("    setdisc %s %s\n" % (pp_place(fn, s["setdisc"]), s["v"]))
        t = b["t"]
        k = t["k"]
        if k == "call":
            w("    %s = %s(%s) -> %s   ; %s\n" % (pp_place(fn, t["d"]), pp_op(fn, t["f"]), ", ".join(pp_op(fn, a) for a in t["args"]), t["t"], loc(t["sp"])))
        elif k == "switch":
            w("    switch %s %s else %s\n" % (pp_op(fn, t["o"]), t["ts"], t["else"]))
        elif k == "assert":
            w("    assert %s == %s (%s) -> %s\n" % (pp_op(fn, t["o"]), t["exp"], t["msg"], t["t"]))
        elif k == "drop":
            w("    drop %s -> %s\n" % (pp_place(fn, t["pl"]), t["t"]))
        else:
            w("    %s %s\n" % (k, t.get("t", "")))


if __name__ == "__main__":
    P = Prog(""+__import__("glob").glob("/verif/.build/facts-*")[0]+"/substrait_explain.json")
    pat = sys.argv[1]
    for f in P.fns.values():
        if re.search(pat, f.path):
            pp(f)
