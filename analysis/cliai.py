"""Abstract interpretation of the command line front end with its fallible steps replaced by two-outcome stubs.

CLI code is everything in src/cli*; a call that leaves it is one atomic step.  Ghost cells record, along every path, whether a step
failed, whether the output destination has been opened, and whether output has been written."""
import re
from absint import *
import models

EXIT = "std::process::ExitCode"
G = ("fail", "created", "wrote", "noformat", "buffered")
WRITE = re.compile(r"::(write_all|write|flush|write_fmt|write_vectored|sync_all|sync_data|by_ref|set_len|shutdown)$")
CREATE = re.compile(r"^std::fs::(File::(create|create_new|options)|write|OpenOptions::open|rename|copy|remove_file|create_dir)")
READ = re.compile(r"::(read_to_string|read_to_end|read_line|read_exact|read)$|^std::io::read_to_string|^std::fs::(read|read_to_string)$")
MEMW = re.compile(r"Vec<u8>|Vec::<u8>|String|io::Cursor|io::Sink|fmt::Write|Formatter")


class CliRun:
    def __init__(self, ctx):
        self.P = ctx.P
        self.I = ctx.interp(collapse=lambda p: p.startswith("substrait::"))
        self.I.ghosts = G
        self.I.hooks["call"] = self.call
        self.steps = {}
        self.late = {}

    def incli(self, fn):
        return fn.file.startswith("src/cli")

    def step(self, fn, b, t, f, what):
        self.steps[(fn.path, f["p"])] = (t.get("sp"), what)

    def set(self, st, g, v=TRUE):
        st = dict(st)
        st[("G", g)] = v
        return st

    def fork(self, I, fn, t, f, bag, st, writing=False):
        """one atomic step that returns a Result"""
        if not writing and st.get(("G", "created"), FALSE) != FALSE:
            self.late[(fn.path, f["p"])] = t.get("sp")
        self.step(fn, None, t, f, "Result")
        return [(ok(O(bag)), dict(st)), (err(O0), self.set(st, "fail"))]

    def call(self, I, f, args, st, fn, b, t, quiet):
        p = f["p"]
        tg = I.P.targets(f) if not f.get("ctor") else []
        dty = I.P.types[t["dty"]] if t.get("dty") is not None else None
        bag = E
        for a in args:
            bag = bag | bagof(a)
        todo, seen = [x for x in bag if x[0] == "mref"], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                more = bagof(st.get(x[1], O0))
                bag = bag | more
                todo += [y for y in more if y[0] == "mref"]
        bag = frozenset(x for x in bag if x[0] == "lab")
        if f.get("ctor") or not self.incli(fn):
            return None
        if p in ("anyhow::Context::with_context", "anyhow::Context::context"):
            c = models.Ctx(I, f, fn, b, t, quiet)
            v = models.val(c, st, args[0])
            if v[0] == "adt" and v[1] in (OPT, RES):
                good = v[2] == (1 if v[1] == OPT else 0)
                return [(ok(v[3][0]) if good else err(O0), st)]
            return [(ok(O(bag)), dict(st)), (err(O0), dict(st))]
        if tg:
            g = tg[0]
            if g.file.startswith("src/cli"):
                if g.path.endswith("::from_extension"):
                    return [(none(), self.set(st, "noformat")), (some(O0), st)]
                return None
            if g.derived:
                return None
            # a step outside the command line code
            if dty is not None and dty.p == RES:
                return self.fork(I, fn, t, f, bag, st)
            if dty is not None and dty.k == "tuple" and any("FormatError" in I.P.types[x].s or "PlanError" in I.P.types[x].s for x in dty.a):
                self.step(fn, b, t, f, "value and error list")
                if st.get(("G", "created"), FALSE) != FALSE:
                    pass  # rendering cannot fail; its issues are reported with the output
                def tup(lo, hi):
                    return ("tup", tuple(("vec", O0 if hi else None, lo, hi) if "Error" in I.P.types[x].s else O(bag) for x in dty.a))
                return [(tup(0, 0), dict(st)), (tup(1, INF), self.set(st, "fail"))]
            return [(O(bag), st)]
        if dty is not None and dty.p == EXIT and f["name"] == "from":
            v = args[0]
            return [(("adt", EXIT, 0, (v,)), st)]
        if p == "std::process::exit":
            v = args[0]
            self.exits.append((v, st, fn, t))
            return []
        if p in ("std::io::_print",):
            return [(UNIT, self.set(st, "wrote"))]
        if p.endswith("from_utf8_lossy"):
            return [(O(bag), dict(st)), (O(bag), self.set(st, "fail"))]
        if dty is not None and dty.p == RES:
            if any(models_is_result(I, fn, a) for a in t["args"]) or f.get("trait") in ("std::iter::Iterator", "std::ops::FromResidual", "std::ops::Try"):
                return None
            if I.models.get(p) or p.startswith("std::fmt::"):
                return None
            full = f.get("full") or p
            rp = f.get("rp") or p
            if WRITE.search(p):
                mem = MEMW.search(full)
                outs = []
                lab = bag
                for r, s in self.fork(I, fn, t, f, bag, st, writing=True):
                    s = dict(s)
                    if mem:
                        self.taint(I, s, args[:1], bag)
                        if r[2] == 1:
                            continue  # writing to memory does not fail
                    else:
                        if r[2] == 0 and p.endswith("::write_all") and any(x == ("lab", "IN") for x in lab):
                            # only a File is unbuffered; anything else may still lose the bytes until it is flushed
                            s[("G", "wrote" if re.search(r"^<(&mut )?std::fs::File as", full) else "buffered")] = TRUE
                        if r[2] == 0 and p.endswith("::flush") and s.get(("G", "buffered")) == TRUE:
                            s[("G", "wrote")] = TRUE
                        s[("G", "created")] = TRUE
                    outs.append((r, s))
                return outs
            if CREATE.search(p):
                outs = []
                for r, s in self.fork(I, fn, t, f, bag, st, writing=True):
                    s = self.set(s, "created") if r[2] == 0 else s
                    if p == "std::fs::write" and r[2] == 0 and ("lab", "IN") in bag:
                        s[("G", "wrote")] = TRUE
                    outs.append((r, s))
                return outs
            outs = []
            for r, s in self.fork(I, fn, t, f, bag, st):
                s = dict(s)
                if r[2] == 0 and READ.search(p):
                    nb = bag | {("lab", "IN")}
                    self.taint(I, s, args, nb)
                    r = ok(O(nb))
                outs.append((r, s))
            return outs
        return None

    def taint(self, I, st, args, bag):
        """everything the mutable references among args lead to may now hold what bag names"""
        todo = list(args)
        seen = set()
        while todo:
            a = todo.pop()
            for x in set(bagof(a)) | ({a} if a[0] == "mref" else set()):
                if x[0] != "mref" or x in seen:
                    continue
                seen.add(x)
                v = I.rd(st, x[1], x[2])
                if v[0] == "mref" or any(y[0] == "mref" for y in bagof(v)):
                    todo.append(v)
                else:
                    I.weak(st, x, bag)

    def run(self, entry):
        self.exits = []
        args = [O0] * entry.argc
        outs = self.I.analyse([(entry, args, tuple(FALSE for _ in G))])[0]
        res = []
        for ret, h in outs:
            g = dict(zip(G, h[-len(G):]))
            res.append((ret, g))
        return res


def models_is_result(I, fn, o):
    pl = op_place(o)
    if pl is None:
        return False
    ti = I.opty(fn, o)
    if ti is None:
        return False
    ty = ti if not isinstance(ti, int) else I.P.types[ti]
    return ty.peel().p == RES
