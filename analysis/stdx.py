"""Further models of the standard library for the template interpreter (imported at the end of exact.py)."""
import functools, math
import exact as _E
globals().update({k: v for k, v in vars(_E).items() if not k.startswith("__")})

SL = "core::slice::<impl [T]>::"
IT = "std::iter::Iterator"


def ORD(n):
    return ("adt", "std::cmp::Ordering", 0 if n < 0 else 1 if n == 0 else 2, ())


# ---------------------------------------------------------------- iterator sources
XM["std::iter::repeat"] = lambda ctx, args, st: [(X("it", (args[0],), ("repeat",)), st)]
XM["std::iter::repeat_with"] = lambda ctx, args, st: [(X("it", (args[0],), ("repeat_with",)), st)]
XM["std::iter::once_with"] = lambda ctx, args, st: [(X("it", (args[0],), ("once_with",)), st)]
XM["std::iter::from_fn"] = lambda ctx, args, st: [(X("it", (args[0],), ("from_fn",)), st)]
XM["std::iter::successors"] = lambda ctx, args, st: [(X("it", (args[0], args[1]), ("successors",)), st)]


@xm("std::iter::zip")
def _(ctx, args, st):
    a, b = to_iter(ctx, st, args[0]), to_iter(ctx, st, args[1])
    if a is not None and b is not None:
        return [(X("it", (a, b), ("zip",)), st)]


@xm("std::array::from_fn")
def _(ctx, args, st):
    t = ctx.I.P.types[ctx.t["dty"]] if ctx.t.get("dty") is not None else None
    n = t.n if t is not None and hasattr(t, "n") else None
    if not isinstance(n, int):
        m = re.search(r"; (\d+)\]$", t.s) if t is not None else None
        n = int(m.group(1)) if m else None
    if n is None or n > 256:
        return None
    states = [((), st)]
    for i in range(n):
        states = [(xs + (r,), s2) for xs, s in states for r, s2 in ctx.invoke(args[0], [("i", i)], s)]
    return [(("arr", xs), s) for xs, s in states]


@xm("std::array::<impl [T; N]>::map")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] != "arr":
        return None
    states = [((), st)]
    for x in v[1]:
        states = [(xs + (r,), s2) for xs, s in states for r, s2 in ctx.invoke(args[1], [x], s)]
    return [(("arr", xs), s) for xs, s in states]


# ---------------------------------------------------------------- iterator consumers
def drained(ctx, args, st, s):
    """an iterator consumed through &mut is empty afterwards"""
    return s


def each(name, f, trait=IT):
    """f(ctx, args, st, xs) over a decided element list; None: fall back"""
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        it = recv(ctx, st, args[0])
        if it is None:
            return None
        out = []
        for xs, s in exhaust(ctx, st, it):
            if xs is None:
                out.append((unk(name), s))
                continue
            r = f(ctx, args, s, xs)
            out += r if r is not None else [(unk(name), s)]
        return out
    XM[("trait", trait, name)] = g


def try_parts(r):
    """(continues, payload, rebuild) of a Try value"""
    if r[0] != "adt":
        return None
    p = r[1]
    if p == OPT:
        return r[2] == 1, r[3][0] if r[2] == 1 else None
    if p == RES:
        return r[2] == 0, r[3][0]
    if p.endswith("ControlFlow"):
        return r[2] == 0, r[3][0]
    return None


def try_wrap(t, v):
    if t.p == OPT:
        return some(v)
    if t.p == RES:
        return ok(v)
    if t.p.endswith("ControlFlow"):
        return ("adt", t.p, 0, (v,))
    return None


def _try_fold(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    fe = ctx.f["name"] == "try_for_each"
    t = ctx.I.P.types[ctx.t["dty"]] if ctx.t.get("dty") is not None else None
    a0 = follow(ctx, st, args[0])
    it = recv(ctx, st, args[0])
    if it is None or t is None or not t.p:
        return None
    f = args[1] if fe else args[2]
    out = []
    work = [(it, st, UNIT if fe else args[1])]
    guard = 0
    while work:
        guard += 1
        if guard > 20000:
            raise Imprecise("iterator bound")
        i0, s0, acc = work.pop()
        for e, n, s in nxt(ctx, s0, i0):
            if e is None:
                w = try_wrap(t, acc)
                out.append((w if w is not None else unk("try_fold"), s))
                continue
            if e == "?":
                out.append((unk("try_fold"), s))
                continue
            for r, s2 in ctx.invoke(f, [e] if fe else [acc, e], s):
                p = try_parts(r)
                if p is None:
                    out.append((unk("try_fold"), s2))
                elif p[0]:
                    work.append((n, s2, p[1]))
                else:
                    out.append((r, s2))
    return out


XM[("trait", IT, "try_fold")] = _try_fold
XM[("trait", IT, "try_for_each")] = _try_fold


def _reduce(c, a, s, xs):
    if not xs:
        return [(none(), s)]
    states = [(xs[0], s)]
    for x in xs[1:]:
        states = [r for acc, s0 in states for r in c.invoke(a[1], [acc, x], s0)]
    return [(some(v), s2) for v, s2 in states]


each("reduce", _reduce)


def _rfold(c, a, s, xs):
    states = [(a[1], s)]
    for x in reversed(xs):
        states = [r for acc, s0 in states for r in c.invoke(a[2], [acc, x], s0)]
    return states


each("rfold", _rfold, "std::iter::DoubleEndedIterator")


def _extreme(name, sign, by):
    def f(c, a, s, xs):
        if not xs:
            return [(none(), s)]

        def cmp(i, j):
            if by:
                r = c.invoke(a[1], [("sref", xs[i], None), ("sref", xs[j], None)], s)
                if len(r) != 1 or r[0][0][0] != "adt":
                    raise TypeError
                return r[0][0][2] - 1
            x, y = ks[i], ks[j]
            return (x > y) - (x < y)
        try:
            if not by:
                ks = []
                for x in xs:
                    r = c.invoke(a[1], [("sref", x, None)], s)
                    if len(r) != 1:
                        return None
                    ks.append(pykey(keyv(c, r[0][1], r[0][0])))
            best = 0
            for i in range(1, len(xs)):
                o = cmp(i, best)
                if sign > 0 and o >= 0 or sign < 0 and o < 0:
                    best = i
        except TypeError:
            return None
        return [(some(xs[best]), s)]
    each(name, f)


_extreme("max_by_key", 1, False)
_extreme("min_by_key", -1, False)
_extreme("max_by", 1, True)
_extreme("min_by", -1, True)


def _maxlast(pick):
    def f(c, a, s, xs):
        if not xs:
            return [(none(), s)]
        try:
            ks = [pykey(keyv(c, s, x)) for x in xs]
            m = pick(ks)
        except TypeError:
            return None
        i = max(j for j, k in enumerate(ks) if k == m) if pick is max else ks.index(m)
        return [(some(xs[i]), s)]
    return f


each("max", _maxlast(max))
each("min", _maxlast(min))


def _rposition(c, a, s, xs):
    states = [s]
    out = []
    for i in range(len(xs) - 1, -1, -1):
        ns = []
        for s0 in states:
            for r, s2 in c.invoke(a[1], [xs[i]], s0):
                if r != FALSE:
                    out.append((some(("i", i)), dict(s2)))
                if r != TRUE:
                    ns.append(dict(s2))
        states = ns
    return out + [(none(), s0) for s0 in states]


each("rposition", _rposition)


def _rfind(c, a, s, xs):
    states = [s]
    out = []
    for x in reversed(xs):
        ns = []
        for s0 in states:
            for r, s2 in c.invoke(a[1], [("sref", x, None)], s0):
                if r != FALSE:
                    out.append((some(x), dict(s2)))
                if r != TRUE:
                    ns.append(dict(s2))
        states = ns
    return out + [(none(), s0) for s0 in states]


each("rfind", _rfind, "std::iter::DoubleEndedIterator")


def _compare(name):
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        ia, ib = recv(ctx, st, args[0]), to_iter(ctx, st, args[1])
        if ia is None or ib is None:
            return None
        out = []
        for xs, s in exhaust(ctx, st, ia):
            for ys, s2 in exhaust(ctx, s, ib):
                if xs is None or ys is None:
                    out.append((unk(name), s2))
                    continue
                xs2, ys2 = [keyv(ctx, s2, x) for x in xs], [keyv(ctx, s2, y) for y in ys]
                if name in ("eq", "ne"):
                    if len(xs2) != len(ys2):
                        r = False
                    else:
                        rs = [ctx.I.eq(x, y) for x, y in zip(xs2, ys2)]
                        r = False if False in rs else None if None in rs else True
                    if r is None:
                        l = "eq([%s],[%s])" % (",".join(map(desc, xs2)), ",".join(map(desc, ys2)))
                        out.append((O(frozenset([("lab", l)])), s2))
                    else:
                        out.append((B(r == (name == "eq")), s2))
                    continue
                try:
                    kx, ky = [pykey(x) for x in xs2], [pykey(y) for y in ys2]
                    o = (kx > ky) - (kx < ky)
                except TypeError:
                    out.append((unk(name), s2))
                    continue
                r = {"cmp": ORD(o), "partial_cmp": some(ORD(o)), "lt": B(o < 0), "le": B(o <= 0), "gt": B(o > 0), "ge": B(o >= 0)}[name]
                out.append((r, s2))
        return out
    XM[("trait", IT, name)] = g


for _n in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
    _compare(_n)


def _sorted(c, s, xs):
    try:
        ks = [pykey(keyv(c, s, x)) for x in xs]
        return [(B(all(a <= b for a, b in zip(ks, ks[1:]))), s)]
    except TypeError:
        return None


each("is_sorted", lambda c, a, s, xs: _sorted(c, s, xs))


def sl(name):
    """read-only slice method over a decided sequence"""
    def d(f):
        def g(ctx, args, st):
            v = val(ctx, st, args[0])
            return f(ctx, args, st, v[1]) if v[0] == "arr" else None
        XM[SL + name] = g
        XM["std::slice::<impl [T]>::" + name] = g
        return f
    return d


def sref(xs):
    return ("sref", ("arr", tuple(xs)), None)


sl("is_sorted")(lambda c, a, s, xs: _sorted(c, s, xs))


def _size_hint(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    v = val(ctx, st, args[0])
    if v[0] == "arr":
        return [(("tup", (("i", len(v[1])), some(("i", len(v[1]))))), st)]
    return [(unk("size_hint"), st)]


XM[("trait", IT, "size_hint")] = _size_hint


def _total(op):
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        t = ctx.I.P.types[ctx.t["dty"]] if ctx.t.get("dty") is not None else None
        it = recv(ctx, st, args[0])
        if it is None or t is None:
            return None
        bad = (lambda e: not (e[0] == "adt" and e[2] == 0)) if t.p == RES else (lambda e: not (e[0] == "adt" and e[2] == 1)) if t.p == OPT else None
        out = []
        for xs, s in exhaust(ctx, st, it, bad):
            if xs is None:
                out.append((unk("sum"), s))
                continue
            if bad and xs and bad(xs[-1]):
                out.append((xs[-1] if xs[-1][0] == "adt" else unk("sum"), s))
                continue
            ns = [val(ctx, s, x[3][0] if bad else x) for x in xs]
            n = 0 if op == "sum" else 1
            if all(x[0] == "i" for x in ns):
                for x in ns:
                    n = n + x[1] if op == "sum" else n * x[1]
                r = ("i", n)
            elif all(x[0] == "fl" for x in ns):
                n = float(n)
                for x in ns:
                    n = n + x[1] if op == "sum" else n * x[1]
                r = ("fl", n)
            else:
                out.append((unk("sum"), s))
                continue
            out.append((ok(r) if t.p == RES else some(r) if t.p == OPT else r, s))
        return out
    XM[("trait", IT, op)] = g


_total("sum")
_total("product")


# ---------------------------------------------------------------- slices and vectors
def eqlist(ctx, st, a, b):
    rs = [ctx.I.eq(keyv(ctx, st, x), keyv(ctx, st, y)) for x, y in zip(a, b)]
    return False if False in rs else None if None in rs else True


@sl("starts_with")
def _(c, a, s, xs):
    w = val(c, s, a[1])
    if w[0] != "arr":
        return None
    r = False if len(w[1]) > len(xs) else eqlist(c, s, xs[:len(w[1])], w[1])
    return [(B(r), s)] if r is not None else None


@sl("ends_with")
def _(c, a, s, xs):
    w = val(c, s, a[1])
    if w[0] != "arr":
        return None
    r = False if len(w[1]) > len(xs) else eqlist(c, s, xs[len(xs) - len(w[1]):], w[1])
    return [(B(r), s)] if r is not None else None


sl("chunks_exact")(lambda c, a, s, xs: (lambda n: [(("arr", tuple(sref(xs[i:i + n]) for i in range(0, len(xs) - n + 1, n))), s)] if n else None)(_num(c, s, a[1])))
sl("rchunks")(lambda c, a, s, xs: (lambda n: [(("arr", tuple(sref(xs[max(0, i - n):i]) for i in range(len(xs), 0, -n))), s)] if n else None)(_num(c, s, a[1])))
sl("repeat")(lambda c, a, s, xs: (lambda n: [(("arr", tuple(xs) * n), s)] if n is not None and n < 1000 else None)(_num(c, s, a[1])))


@sl("split")
def _(c, a, s, xs):
    out, cur = [], []
    for x in xs:
        r = c.invoke(a[1], [("sref", x, None)], s)
        if len(r) != 1 or r[0][0][0] != "i":
            return None
        if r[0][0][1]:
            out.append(sref(cur))
            cur = []
        else:
            cur.append(x)
    return [(("arr", tuple(out + [sref(cur)])), s)]


@sl("chunk_by")
def _(c, a, s, xs):
    out = []
    for x in xs:
        if out:
            r = c.invoke(a[1], [("sref", out[-1][-1], None), ("sref", x, None)], s)
            if len(r) != 1 or r[0][0][0] != "i":
                return None
            if r[0][0][1]:
                out[-1].append(x)
                continue
        out.append([x])
    return [(("arr", tuple(sref(y) for y in out)), s)]


def _bsearch(c, a, s, xs, key):
    lo, hi = 0, len(xs)
    while lo < hi:
        m = (lo + hi) // 2
        o = key(xs[m])
        if o is None:
            return None
        if o == 0:
            return [(ok(("i", m)), s)]
        if o < 0:
            lo = m + 1
        else:
            hi = m
    return [(err(("i", lo)), s)]


@sl("binary_search")
def _(c, a, s, xs):
    try:
        k = pykey(keyv(c, s, a[1]))
        return _bsearch(c, a, s, xs, lambda x: (lambda y: (y > k) - (y < k))(pykey(keyv(c, s, x))))
    except TypeError:
        return None


@sl("binary_search_by")
def _(c, a, s, xs):
    def key(x):
        r = c.invoke(a[1], [("sref", x, None)], s)
        return r[0][0][2] - 1 if len(r) == 1 and r[0][0][0] == "adt" else None
    return _bsearch(c, a, s, xs, key)


@sl("binary_search_by_key")
def _(c, a, s, xs):
    try:
        k = pykey(keyv(c, s, a[1]))

        def key(x):
            r = c.invoke(a[2], [("sref", x, None)], s)
            y = pykey(keyv(c, s, r[0][0]))
            return (y > k) - (y < k)
        return _bsearch(c, a, s, xs, key)
    except TypeError:
        return None


@sl("partition_point")
def _(c, a, s, xs):
    for i, x in enumerate(xs):
        r = c.invoke(a[1], [("sref", x, None)], s)
        if len(r) != 1 or r[0][0][0] != "i":
            return None
        if not r[0][0][1]:
            return [(("i", i), s)]
    return [(("i", len(xs)), s)]


_join0 = XM["std::slice::<impl [T]>::join"]


def _concat(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr":
        xs = [val(ctx, st, x) for x in v[1]]
        if xs and all(x[0] == "arr" for x in xs):
            sep = ()
            if len(args) > 1:
                w = val(ctx, st, args[1])
                sep = w[1] if w[0] == "arr" else (w,)
            out = ()
            for i, x in enumerate(xs):
                out += (sep if i else ()) + x[1]
            return [(("arr", out), st)]
    return _join0(ctx, args, st)


for _n in ("join", "concat"):
    for _p in ("std::slice::<impl [T]>::", "core::slice::<impl [T]>::", "alloc::slice::<impl [T]>::"):
        XM[_p + _n] = _concat


def _retain(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    if v[0] != "arr" or a[0] != "mref":
        return None
    mut = ctx.f["name"] == "retain_mut"
    states = [((), st)]
    for x in v[1]:
        ns = []
        for xs, s in states:
            ctx.I.nf += 1
            c = ("T", ctx.I.nf)
            s = dict(s)
            s[c] = x
            for r, s2 in ctx.invoke(args[1], [("mref", c, ()) if mut else ("sref", x, None)], s):
                y = s2.get(c, x)
                if r != FALSE:
                    ns.append((xs + (y,), dict(s2)))
                if r != TRUE:
                    ns.append((xs, dict(s2)))
        states = ns
    return [(UNIT, setm(ctx, s, a, ("arr", xs))) for xs, s in states]


for _p in (V, "std::collections::VecDeque::<T, A>::"):
    XM[_p + "retain"] = _retain
    XM[_p + "retain_mut"] = _retain


def _dedup(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    if v[0] != "arr" or a[0] != "mref":
        return None
    name = ctx.f["name"]
    out = []
    for x in v[1]:
        if out:
            if name == "dedup":
                r = ctx.I.eq(keyv(ctx, st, out[-1]), keyv(ctx, st, x))
            elif name == "dedup_by_key":
                ks = []
                for y in (out[-1], x):
                    q = ctx.invoke(args[1], [("sref", y, None)], st)
                    if len(q) != 1:
                        return None
                    ks.append(keyv(ctx, st, q[0][0]))
                r = ctx.I.eq(ks[0], ks[1])
            else:
                q = ctx.invoke(args[1], [("sref", x, None), ("sref", out[-1], None)], st)
                r = bool(q[0][0][1]) if len(q) == 1 and q[0][0][0] == "i" else None
            if r is None:
                return None
            if r:
                continue
        out.append(x)
    return [(UNIT, setm(ctx, st, a, ("arr", tuple(out))))]


for _n in ("dedup", "dedup_by_key", "dedup_by"):
    XM[V + _n] = _dedup

XM[V + "swap_remove"] = seqmut(lambda c, st, x, a: (lambda i: (x[i], (x[:i] + (x[-1],) + x[i + 1:-1]) if i < len(x) - 1 else x[:-1]) if i is not None and i < len(x) else None)(_num(c, st, a[1])))
XM[V + "split_off"] = seqmut(lambda c, st, x, a: (lambda i: (("arr", x[i:]), x[:i]) if i is not None and i <= len(x) else None)(_num(c, st, a[1])))


def _swap(c, st, x, a):
    i, j = _num(c, st, a[1]), _num(c, st, a[2])
    if i is None or j is None or max(i, j) >= len(x):
        return None
    y = list(x)
    y[i], y[j] = y[j], y[i]
    return UNIT, y


XM[SL + "swap"] = seqmut(_swap)
XM[SL + "fill"] = seqmut(lambda c, st, x, a: (UNIT, (a[1],) * len(x)))
XM[SL + "rotate_left"] = seqmut(lambda c, st, x, a: (lambda n: (UNIT, x[n:] + x[:n]) if n is not None and n <= len(x) else None)(_num(c, st, a[1])))
XM[SL + "rotate_right"] = seqmut(lambda c, st, x, a: (lambda n: (UNIT, x[len(x) - n:] + x[:len(x) - n]) if n is not None and n <= len(x) else None)(_num(c, st, a[1])))
XM[V + "resize"] = seqmut(lambda c, st, x, a: (lambda n: (UNIT, x[:n] + (a[2],) * (n - len(x))) if n is not None and n < 1000 else None)(_num(c, st, a[1])))
XM["std::vec::from_elem"] = lambda ctx, args, st: [(("arr", (args[0],) * args[1][1]), st)] if args[1][0] == "i" and args[1][1] < 5000 else None
XM[V + "capacity"] = lambda ctx, args, st: None


@xm(V + "resize_with")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    n = _num(ctx, st, args[1])
    if v[0] != "arr" or a[0] != "mref" or n is None or n > 1000:
        return None
    states = [(v[1][:n], st)]
    for _ in range(max(0, n - len(v[1]))):
        states = [(xs + (r,), s2) for xs, s in states for r, s2 in ctx.invoke(args[2], [], s)]
    return [(UNIT, setm(ctx, s, a, ("arr", xs))) for xs, s in states]


@xm(V + "splice")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    r = rng_of(val(ctx, st, args[1]), len(v[1])) if v[0] == "arr" else None
    it = to_iter(ctx, st, args[2])
    if r is None or a[0] != "mref" or it is None:
        return None
    return [(("arr", v[1][r[0]:r[1]]), setm(ctx, s, a, ("arr", v[1][:r[0]] + tuple(xs) + v[1][r[1]:]))) for xs, s in exhaust(ctx, st, it) if xs is not None]


@xm("std::vec::IntoIter::<T, A>::as_slice", "std::slice::Iter::<'a, T>::as_slice")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr":
        if ctx.f["p"].startswith("std::slice::Iter"):
            return [(("sref", ("arr", tuple(val1(ctx, st, x) for x in v[1])), None), st)]
        return [(("sref", v, None), st)]


XM["std::vec::Vec::<T, A>::leak"] = lambda ctx, args, st: [(("sref", args[0], None), st)]
XM[SL + "concat"] = _concat

# double-ended queues
DQ = "std::collections::VecDeque::<T, A>::"
XM["std::collections::VecDeque::<T>::with_capacity"] = XM["std::collections::VecDeque::<T>::new"]
XM[DQ + "push_back"] = seqmut(lambda c, st, x, a: (UNIT, x + (a[1],)))
XM[DQ + "push_front"] = seqmut(lambda c, st, x, a: (UNIT, (a[1],) + x))
XM[DQ + "pop_front"] = seqmut(lambda c, st, x, a: (some(x[0]), x[1:]) if x else (none(), x))
XM[DQ + "pop_back"] = seqmut(lambda c, st, x, a: (some(x[-1]), x[:-1]) if x else (none(), x))
XM[DQ + "clear"] = seqmut(lambda c, st, x, a: (UNIT, ()))
XM[DQ + "truncate"] = XM[V + "truncate"]
XM[DQ + "drain"] = XM[V + "drain"]
XM[DQ + "append"] = XM[V + "append"]
XM[DQ + "len"] = seqlen
XM[DQ + "is_empty"] = seqempty
XM[DQ + "iter"] = _iter
XM[DQ + "iter_mut"] = _iter
XM[DQ + "get"] = XM[SL + "get"]
XM[DQ + "get_mut"] = XM[SL + "get_mut"]


def _dqedge(name):
    def g(ctx, args, st):
        v, a = rdm(ctx, st, args[0])
        if v[0] != "arr":
            return None
        if not v[1]:
            return [(none(), st)]
        i = 0 if name.startswith("front") else len(v[1]) - 1
        return [(some(elemref(a if name.endswith("_mut") else ("sref",), v, i)), st)]
    XM[DQ + name] = g


for _n in ("front", "back", "front_mut", "back_mut"):
    _dqedge(_n)
XM[DQ + "contains"] = XM[SL + "contains"]
XM[DQ + "make_contiguous"] = lambda ctx, args, st: [(args[0], st)]


# ---------------------------------------------------------------- strings
@sfn("replacen")
def _(c, st, s, p, r, n):
    v, w, k = val(c, st, p), val(c, st, r), _num(c, st, n)
    if v[0] == "i":
        v = ("s", chr(v[1]))
    return S(s.replace(v[1], w[1], k)) if v[0] == "s" and w[0] == "s" and k is not None else None


@sfn("rsplitn")
def _(c, st, s, n, p):
    v, k = val(c, st, p), _num(c, st, n)
    if v[0] == "i":
        v = ("s", chr(v[1]))
    if v[0] == "s" and v[1] and k:
        return ("arr", tuple(S(x) for x in reversed(s.rsplit(v[1], k - 1))))


@sfn("rsplit")
def _(c, st, s, p):
    v = val(c, st, p)
    if v[0] == "i":
        v = ("s", chr(v[1]))
    if v[0] == "s" and v[1]:
        return ("arr", tuple(S(x) for x in reversed(s.split(v[1]))))


@sfn("match_indices")
def _(c, st, s, p):
    m = matcher(c, st, p)
    if m is None:
        return None
    out, i = [], 0
    while i < len(s):
        n = m(s, i)
        if n:
            out.append(("tup", (("i", len(s[:i].encode())), S(s[i:i + n]))))
            i += n
        else:
            i += 1
    return ("arr", tuple(out))


def _ascii_strip(s, l, r):
    w = " \t\n\r\x0c"
    return s.strip(w) if l and r else s.lstrip(w) if l else s.rstrip(w)


sfn("trim_ascii")(lambda c, st, s: S(_ascii_strip(s, 1, 1)))
sfn("trim_ascii_start")(lambda c, st, s: S(_ascii_strip(s, 1, 0)))
sfn("trim_ascii_end")(lambda c, st, s: S(_ascii_strip(s, 0, 1)))


def esc_char(ctx, ch, mode):
    if ch in ctx.I.C.kind:
        return ch
    simple = {"\t": "\\t", "\r": "\\r", "\n": "\\n", "'": "\\'", '"': '\\"', "\\": "\\\\"}
    if mode == "debug":
        simple["\0"] = "\\0"
    if ch in simple:
        return simple[ch]
    o = ord(ch)
    if 0x20 <= o < 0x7f:
        return ch
    if mode == "default":
        return "\\u{%x}" % o
    if mode == "unicode":
        return "\\u{%x}" % o
    import unicodedata
    if ch.isprintable() and not unicodedata.combining(ch):
        return ch
    return "\\u{%x}" % o


def esc(mode):
    def f(c, st, s):
        return S("".join(("\\u{%x}" % ord(x) if x not in c.I.C.kind else x) if mode == "unicode" else esc_char(c, x, mode) for x in s))
    return f


# escapes are kept as text; as iterators of characters they go through chars()
sfn("escape_default")(esc("default"))
sfn("escape_debug")(esc("debug"))
sfn("escape_unicode")(esc("unicode"))
for _n in ("escape_default", "escape_debug", "escape_unicode"):
    chfn(_n, (lambda m: lambda x, c: S("\\u{%x}" % ord(c) if m == "unicode" else esc_char(x, c, m)))(_n[7:]))


def _chars_as_str(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr" and all(x[0] == "i" for x in v[1]):
        return [(S("".join(chr(x[1]) for x in v[1])), st)]


XM["std::str::Chars::<'a>::as_str"] = _chars_as_str


@xm("std::str::CharIndices::<'a>::as_str")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    if v[0] == "arr" and all(x[0] == "tup" and x[1][1][0] == "i" for x in v[1]):
        return [(S("".join(chr(x[1][1][1]) for x in v[1])), st)]


@xm("std::string::String::retain")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    if v[0] != "s" or a[0] != "mref":
        return None
    out = ""
    for ch in v[1]:
        r = ctx.invoke(args[1], [("i", ord(ch))], st)
        if len(r) != 1 or r[0][0][0] != "i":
            return None
        if r[0][0][1]:
            out += ch
    return [(UNIT, setm(ctx, st, a, ("s", out)))]


@xm("std::string::String::drain")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    if v[0] != "s" or a[0] != "mref":
        return None
    b = v[1].encode()
    r = rng_of(val(ctx, st, args[1]), len(b))
    if r is None:
        return None
    x, y, z = cut(b, (0, r[0])), cut(b, r), cut(b, (r[1], len(b)))
    if None in (x, y, z):
        return None
    return [(("arr", tuple(("i", ord(ch)) for ch in y)), setm(ctx, st, a, ("s", x + z)))]


@xm("std::string::String::replace_range")
def _(ctx, args, st):
    v, a = rdm(ctx, st, args[0])
    w = val(ctx, st, args[2])
    if v[0] != "s" or a[0] != "mref" or w[0] != "s":
        return None
    b = v[1].encode()
    r = rng_of(val(ctx, st, args[1]), len(b))
    x, z = (cut(b, (0, r[0])), cut(b, (r[1], len(b)))) if r else (None, None)
    if x is None or z is None:
        return None
    return [(UNIT, setm(ctx, st, a, ("s", x + w[1] + z)))]


smut("split_off", lambda c, st, s, n: (S(cut(s.encode(), (n[1], bl(s)))), cut(s.encode(), (0, n[1]))) if n[0] == "i" and cut(s.encode(), (0, n[1])) is not None else None)


def utf8(ctx, st, a):
    v = val(ctx, st, a)
    if v[0] == "s":
        return v[1]
    if v[0] == "arr" and all(x[0] == "i" for x in v[1]):
        try:
            return bytes(x[1] for x in v[1]).decode()
        except UnicodeDecodeError:
            return False
    return None


@xm("std::string::String::from_utf8", "std::str::from_utf8", "core::str::from_utf8", "core::str::<impl str>::from_utf8")
def _(ctx, args, st):
    s = utf8(ctx, st, args[0])
    if s is not None:
        return [(ok(S(s)) if s is not False else err(X("perr")), st)]


@xm("std::string::String::from_utf8_lossy", "std::string::String::from_utf8_unchecked", "std::string::String::from_utf8_lossy_owned")
def _(ctx, args, st):
    s = utf8(ctx, st, args[0])
    if s:
        return [(S(s), st)]
    if s == "":
        return [(S(""), st)]


# ---------------------------------------------------------------- characters
chfn("to_digit", lambda x, c, r: None if c in x.I.C.kind or r[0] != "i" else (some(("i", int(c, 36))) if c.isascii() and c.isalnum() and int(c, 36) < r[1] else none()))
for _p in ("std::char::from_digit", "char::from_digit", "core::char::from_digit", "std::char::methods::<impl char>::from_digit"):
    XM[_p] = lambda ctx, args, st: [(some(("i", ord("0123456789abcdefghijklmnopqrstuvwxyz"[args[0][1]]))) if args[0][1] < args[1][1] else none(), st)] if args[0][0] == "i" and args[1][0] == "i" else None
for _p in ("std::char::convert::from_u32", "core::char::convert::from_u32", "std::char::methods::<impl char>::from_u32"):
    XM[_p] = lambda ctx, args, st: [((some(args[0]) if args[0][1] < 0x110000 and not 0xD800 <= args[0][1] < 0xE000 else none()) if args[0][0] == "i" else unk("from_u32"), st)]
XM["std::char::from_u32"] = XM["char::from_u32"] = XM["std::char::convert::from_u32"]
chfn("to_lowercase", lambda x, c: None if c in x.I.C.kind else ("arr", tuple(("i", ord(y)) for y in c.lower())))
chfn("to_uppercase", lambda x, c: None if c in x.I.C.kind else ("arr", tuple(("i", ord(y)) for y in c.upper())))
chfn("is_lowercase", lambda x, c: None if c in x.I.C.kind else B(c.islower()))
chfn("is_ascii_hexdigit", lambda x, c: None if x.I.C.kind.get(c) == "ident" else B(x.I.C.kind.get(c) == "nat" or c in "0123456789abcdefABCDEF"))
chfn("is_ascii_graphic", lambda x, c: _ck(x, c, ("ident", "nat"), lambda c: 33 <= ord(c) <= 126))
chfn("eq_ignore_ascii_case", lambda x, c, d: None if c in x.I.C.kind or d[0] != "i" else B(c == chr(d[1]) or (c.isascii() and c.lower() == chr(d[1]).lower())))
# bytes: class symbols occupy several, so a predicate on one of their bytes is not decided
for _n in ("is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_digit", "is_ascii_whitespace", "is_ascii_control", "is_ascii", "is_ascii_uppercase", "is_ascii_lowercase",
           "is_ascii_punctuation", "is_ascii_hexdigit", "is_ascii_graphic", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case"):
    def _bytefn(ctx, args, st, n=_n):
        v = val(ctx, st, args[0])
        if v[0] == "i" and v[1] < 128:
            return XM["std::char::methods::<impl char>::" + n](ctx, args, st)
        return [(FALSE if n.startswith("is_") and v[0] == "i" else unk("u8::" + n), st)]
    XM["core::num::<impl u8>::" + _n] = _bytefn


# ---------------------------------------------------------------- numbers
for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
    intfn("overflowing_" + _n, (lambda f: lambda t, a, b: ("tup", (("i", (f(a, b) - int_range(t)[0]) % (int_range(t)[1] - int_range(t)[0] + 1) + int_range(t)[0]), B(not _fit(t, f(a, b))))))(_f))
intfn("checked_neg", lambda t, a: some(("i", -a)) if _fit(t, -a) else none())
intfn("checked_abs", lambda t, a: some(("i", abs(a))) if _fit(t, abs(a)) else none())
intfn("wrapping_neg", lambda t, a: ("i", (-a - int_range(t)[0]) % (int_range(t)[1] - int_range(t)[0] + 1) + int_range(t)[0]))
intfn("signum", lambda t, a: ("i", (a > 0) - (a < 0)))
intfn("abs_diff", lambda t, a, b: ("i", abs(a - b)))
intfn("is_positive", lambda t, a: B(a > 0))
intfn("div_ceil", lambda t, a, b: ("i", -(-a // b)) if b else None)
intfn("next_power_of_two", lambda t, a: ("i", 1 << max(0, (a - 1).bit_length())))
intfn("count_ones", lambda t, a: ("i", bin(a).count("1")) if a >= 0 else None)
intfn("leading_zeros", lambda t, a: ("i", (int_range(t)[1]).bit_length() + (1 if t[0] == "i" else 0) - a.bit_length()) if a >= 0 else None)
intfn("trailing_zeros", lambda t, a: ("i", (a & -a).bit_length() - 1) if a else None)
intfn("is_power_of_two", lambda t, a: B(a > 0 and a & (a - 1) == 0))
intfn("ilog10", lambda t, a: ("i", len(str(a)) - 1) if a > 0 else None)
intfn("ilog2", lambda t, a: ("i", a.bit_length() - 1) if a > 0 else None)
intfn("checked_next_multiple_of", lambda t, a, b: some(("i", -(-a // b) * b)) if b and _fit(t, -(-a // b) * b) else none())
flfn("floor", lambda x: ("fl", float(math.floor(x)) if math.isfinite(x) else x))
flfn("ceil", lambda x: ("fl", float(math.ceil(x)) if math.isfinite(x) else x))
flfn("round", lambda x: ("fl", math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x))
flfn("to_bits", lambda x: ("i", int.from_bytes(__import__("struct").pack(">d", x), "big")))
flfn("sqrt", lambda x: ("fl", math.sqrt(x)) if x >= 0 else ("fl", float("nan")))
flfn("is_normal", lambda x: B(math.isfinite(x) and abs(x) >= 2.2250738585072014e-308))
flfn("is_sign_positive", lambda x: B(math.copysign(1, x) > 0))


def _fl2(name, f):
    def g(ctx, args, st):
        a, b = val(ctx, st, args[0]), val(ctx, st, args[1])
        if a[0] == "fl" and b[0] in ("fl", "i"):
            try:
                return [(f(a[1], b[1]), st)]
            except (OverflowError, ValueError, ZeroDivisionError):
                pass
        return [(unk("f64::" + name), st)]
    for t in ("f64", "f32"):
        for p in ("core::%s::<impl %s>::", "std::%s::<impl %s>::"):
            XM[(p % (t, t)) + name] = g


_fl2("powi", lambda a, b: ("fl", a ** b))
_fl2("powf", lambda a, b: ("fl", a ** b))
_fl2("max", lambda a, b: ("fl", b if a != a else a if b != b else max(a, b)))
_fl2("min", lambda a, b: ("fl", b if a != a else a if b != b else min(a, b)))
_fl2("total_cmp", lambda a, b: ORD((a > b) - (a < b)))

# arithmetic through references goes to the primitive operation
_OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr"}


def _arith(tr, m):
    prev = XM.get(("trait", "std::ops::" + tr, m))

    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        a, b = val(ctx, st, args[0]), val(ctx, st, args[1])
        t = ctx.ta(0)
        t = t.peel() if t is not None else None
        if t is not None and t.k == "prim" and t.s != "str" and a[0] in ("i", "iv", "fl") and b[0] in ("i", "iv", "fl"):
            op = tr if tr in ("Div", "Rem", "BitAnd", "BitOr", "BitXor") or a[0] == "fl" else tr + "WithOverflow"
            if tr in ("Div", "Rem") and b == ("i", 0):
                ctx.panic("division by zero")
                return []
            r = ctx.I.binop(op, a, b, t.s)
            if "WithOverflow" in op:
                if r[0] == "tup" and r[1][1] == TRUE:
                    ctx.panic("overflow")
                    return []
                r = r[1][0] if r[0] == "tup" else None
            if r is not None and r[0] in ("i", "fl", "iv"):
                return [(r, st)]
        return prev(ctx, args, st) if prev else None
    XM[("trait", "std::ops::" + tr, m)] = g

    pa = XM.get(("trait", "std::ops::%sAssign" % tr, m + "_assign"))

    def h(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        v, a = rdm(ctx, st, args[0])
        if a[0] == "mref":
            r = g(ctx, [v, args[1]], st)
            if r is not None and len(r) == 1 and r[0][0][0] in ("i", "fl", "iv"):
                return [(UNIT, setm(ctx, r[0][1], a, r[0][0]))]
        return pa(ctx, args, st) if pa else None
    XM[("trait", "std::ops::%sAssign" % tr, m + "_assign")] = h


for _t, _m in _OPS.items():
    _arith(_t, _m)


@xt("std::ops::Neg", "neg")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    a = val(ctx, st, args[0])
    if a[0] in ("i", "fl"):
        return [((a[0], -a[1]), st)]


@xt("std::ops::Not", "not")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    a = val(ctx, st, args[0])
    t = ctx.ta(0)
    if a[0] == "i" and t is not None and t.peel().s == "bool":
        return [(B(not a[1]), st)]


def _mm(name, f):
    def g(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        try:
            a, b = pykey(keyv(ctx, st, args[0])), pykey(keyv(ctx, st, args[1]))
        except TypeError:
            return [(unk(name), st)]
        return [(args[f(a, b)], st)]
    XM[("trait", "std::cmp::Ord", name)] = g
    XM["std::cmp::" + name] = g


_mm("max", lambda a, b: 1 if b >= a else 0)
_mm("min", lambda a, b: 1 if b < a else 0)


@xt("std::cmp::Ord", "clamp")
def _(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    try:
        a, lo, hi = (pykey(keyv(ctx, st, x)) for x in args)
    except TypeError:
        return None
    return [(args[1] if a < lo else args[2] if a > hi else args[0], st)]


# ---------------------------------------------------------------- cells
@xm("std::mem::swap")
def _(ctx, args, st):
    a, b = follow(ctx, st, args[0]), follow(ctx, st, args[1])
    if a[0] == "mref" and b[0] == "mref":
        x, y = ctx.I.rd(st, a[1], a[2]), ctx.I.rd(st, b[1], b[2])
        return [(UNIT, setm(ctx, setm(ctx, st, a, y), b, x))]


def _cellset(ctx, args, st):
    a = follow(ctx, st, args[0])
    if a[0] == "mref":
        old = ctx.I.rd(st, a[1], a[2])
        if isx(old, "cell"):
            s = dict(st)
            s[old[3]] = args[1]
            return [(UNIT if ctx.f["name"] == "set" else st.get(old[3], O0), s)]
    v = val(ctx, st, args[0])
    if isx(v, "cell"):
        s = dict(st)
        s[v[3]] = args[1]
        return [(UNIT if ctx.f["name"] == "set" else st.get(v[3], O0), s)]


def _cellnew(ctx, args, st):
    ctx.I.nf += 1
    c = ("CL", ctx.I.nf)
    s = dict(st)
    s[c] = args[0]
    return [(X("cell", (), c), s)]


def _cellget(how):
    def g(ctx, args, st):
        v = val(ctx, st, args[0])
        if isx(v, "cell"):
            if how == "ref":
                return [(("mref", v[3], ()), st)]
            if how == "okref":
                return [(ok(("mref", v[3], ())), st)]
            return [(st.get(v[3], O0), st)]
    return g


for _p in ("std::cell::Cell::<T>::new", "std::cell::RefCell::<T>::new", "std::sync::Mutex::<T>::new", "std::sync::RwLock::<T>::new"):
    XM[_p] = _cellnew
XM["std::cell::Cell::<T>::get"] = _cellget("val")
XM["std::cell::Cell::<T>::set"] = _cellset
XM["std::cell::Cell::<T>::replace"] = _cellset
XM["std::cell::RefCell::<T>::replace"] = _cellset
for _n in ("into_inner",):
    XM["std::cell::Cell::<T>::" + _n] = _cellget("val")
    XM["std::cell::RefCell::<T>::" + _n] = _cellget("val")
for _n in ("borrow", "borrow_mut"):
    XM["std::cell::RefCell::<T>::" + _n] = _cellget("ref")
for _p in ("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write", "std::cell::RefCell::<T>::try_borrow", "std::cell::RefCell::<T>::try_borrow_mut"):
    XM[_p] = _cellget("okref")


@xm("std::cell::Cell::<T>::take", "std::cell::RefCell::<T>::take")
def _(ctx, args, st):
    v = val(ctx, st, args[0])
    t = ctx.ta(0)
    d = ctx.I.default_of(t) if t is not None else None
    if isx(v, "cell") and d is not None:
        s = dict(st)
        s[v[3]] = d
        return [(st.get(v[3], O0), s)]


# ---------------------------------------------------------------- sets
def setop(ctx, args, st, op):
    a, b = val(ctx, st, args[0]), val(ctx, st, args[1])
    if not (isx(a, "map") and isx(b, "map")):
        return None
    x, y = [k for k, _ in map_items(a)], [k for k, _ in map_items(b)]
    if not all(concrete(k) for k in x + y):
        return None
    r = lambda ks: [(("arr", tuple(("sref", k, None) for k in ks)), st)]
    srt = (lambda ks: [k for k, _ in map_items(mk_map(a[3], [(k, UNIT) for k in ks]))])
    if op == "union":
        return r(srt(x + [k for k in y if k not in x]))
    if op == "intersection":
        return r([k for k in x if k in y])
    if op == "difference":
        return r([k for k in x if k not in y])
    if op == "symmetric_difference":
        return r(srt([k for k in x if k not in y] + [k for k in y if k not in x]))
    if op == "is_subset":
        return [(B(all(k in y for k in x)), st)]
    if op == "is_superset":
        return [(B(all(k in x for k in y)), st)]
    if op == "is_disjoint":
        return [(B(not any(k in y for k in x)), st)]


_map_call0 = map_call


def map_call2(ctx, args, st):
    m = MAPRE.match(ctx.f["p"])
    kind, op = m.group(3), m.group(4)
    if op in ("union", "intersection", "difference", "symmetric_difference", "is_subset", "is_superset", "is_disjoint"):
        return setop(ctx, args, st, op)
    r = _map_call0(ctx, args, st)
    if r is not None or not args:
        return r
    a = follow(ctx, st, args[0])
    v = ctx.I.rd(st, a[1], a[2]) if a[0] == "mref" else val(ctx, st, a)
    if not isx(v, "map"):
        return None
    it = map_items(v)
    isset = kind.endswith("Set")
    if op in ("first", "last", "first_key_value", "last_key_value") and (kind.startswith(("BTree", "Index"))):
        if not it:
            return [(none(), st)]
        k, x = it[0 if op.startswith("first") else -1]
        return [(some(("sref", k, None) if isset else ("tup", (("sref", k, None), ("sref", x, None)))), st)]
    if op in ("pop_first", "pop_last", "pop") and a[0] == "mref":
        if not it:
            return [(none(), st)]
        i = 0 if op == "pop_first" else len(it) - 1
        k, x = it[i]
        return [(some(k if isset else ("tup", (k, x))), setm(ctx, st, a, mk_map(kind, it[:i] + it[i + 1:])))]
    if op == "retain" and a[0] == "mref":
        out = []
        for k, x in it:
            ctx.I.nf += 1
            c = ("T", ctx.I.nf)
            s = dict(st)
            s[c] = x
            r = ctx.invoke(args[1], [("sref", k, None)] if isset else [("sref", k, None), ("mref", c, ())], s)
            if len(r) != 1 or r[0][0][0] != "i":
                return None
            if r[0][0][1]:
                out.append((k, r[0][1].get(c, x)))
        return [(UNIT, setm(ctx, st, a, mk_map(kind, out)))]
    if op == "drain" and a[0] == "mref":
        return [(("arr", tuple(k if isset else ("tup", (k, x)) for k, x in it)), setm(ctx, st, a, X("map", (), kind)))]
    if op == "range" and kind.startswith("BTree"):
        r = val(ctx, st, args[1])
        if r[0] != "adt":
            return None
        p = r[1].rsplit("::", 1)[1]
        try:
            f = [pykey(keyv(ctx, st, x)) for x in r[3][:2]]
            ks = [(pykey(k), k, x) for k, x in it]
        except TypeError:
            return None
        keep = {"RangeFull": lambda k: True, "Range": lambda k: f[0] <= k < f[1], "RangeFrom": lambda k: f[0] <= k, "RangeTo": lambda k: k < f[0],
                "RangeInclusive": lambda k: f[0] <= k <= f[1], "RangeToInclusive": lambda k: k <= f[0]}.get(p)
        if keep is None:
            return None
        return [(("arr", tuple(("sref", k, None) if isset else ("tup", (("sref", k, None), ("sref", x, None))) for q, k, x in ks if keep(q))), st)]
    if op in ("get_index",) and kind.startswith("Index"):
        n = _num(ctx, st, args[1])
        if n is None:
            return None
        if n >= len(it):
            return [(none(), st)]
        k, x = it[n]
        return [(some(("sref", k, None) if isset else ("tup", (("sref", k, None), ("sref", x, None)))), st)]
    if op == "get_index_of":
        key = keyv(ctx, st, args[1])
        i = [j for j, (k, _) in enumerate(it) if k == key]
        return [(some(("i", i[0])) if i else none(), st)]
    if op == "remove_entry" and a[0] == "mref":
        key = keyv(ctx, st, args[1])
        hit = [x for k, x in it if k == key]
        return [(some(("tup", (key, hit[0]))) if hit else none(), setm(ctx, st, a, mk_map(kind, [(k, x) for k, x in it if k != key])))]
    if op in ("reserve", "shrink_to_fit"):
        return [(UNIT, st)]
    if op in ("append",) and a[0] == "mref":
        b = follow(ctx, st, args[1])
        w = ctx.I.rd(st, b[1], b[2]) if b[0] == "mref" else O0
        if isx(w, "map"):
            ks = [k for k, _ in map_items(w)]
            return [(UNIT, setm(ctx, setm(ctx, st, a, mk_map(kind, [(k, x) for k, x in it if k not in ks] + map_items(w))), b, X("map", (), kind)))]
    return None


_E.map_call = map_call2


# ---------------------------------------------------------------- lazily initialised values
for _p in ("std::sync::LazyLock::<T, F>::new", "std::cell::LazyCell::<T, F>::new", "std::sync::LazyLock::<T>::new"):
    XM[_p] = lambda ctx, args, st: [(X("lazy", (args[0],)), st)]
for _p in ("std::sync::OnceLock::<T>::new", "std::cell::OnceCell::<T>::new"):
    XM[_p] = lambda ctx, args, st: [(X("lazy", ()), st)]
# the initialiser of a shared cell depends on nothing but constants, so evaluating it at each use is the same
for _p in ("std::sync::OnceLock::<T>::get_or_init", "std::cell::OnceCell::<T>::get_or_init"):
    XM[_p] = lambda ctx, args, st: [(("sref", r, None), s) for r, s in ctx.invoke(args[1], [], st)]
for _p in ("std::sync::LazyLock::<T, F>::force", "std::cell::LazyCell::<T, F>::force"):
    XM[_p] = lambda ctx, args, st: [(("sref", r, None), s) for r, s in ctx.invoke(val(ctx, st, args[0])[2][0], [], st)] if isx(val(ctx, st, args[0]), "lazy") else None

_deref0 = XM[("trait", "std::ops::Deref", "deref")]


def _deref(ctx, args, st):
    v = val(ctx, st, args[0])
    if isx(v, "lazy") and v[2]:
        return [(("sref", r, None), s) for r, s in ctx.invoke(v[2][0], [], st)]
    return _deref0(ctx, args, st)


XM[("trait", "std::ops::Deref", "deref")] = _deref

_try0 = XM[("trait", "std::convert::TryFrom", "try_from")]


def _tryarr(ctx, args, st):
    if ctx.f.get("inst"):
        return None
    to = ctx.ta(0) if ctx.f["name"] == "try_from" else ctx.ta(1)
    v = val(ctx, st, args[0])
    p = to.peel() if to is not None else None
    if p is not None and p.k == "array" and v[0] == "arr":
        m = re.search(r"; (\d+)\]$", p.s)
        if m:
            if len(v[1]) != int(m.group(1)):
                return [(err(args[0] if to.k == "array" else X("perr")), st)]
            return [(ok(v if to.k == "array" else ("sref", v, None)), st)]
    return _try0(ctx, args, st)


XM[("trait", "std::convert::TryFrom", "try_from")] = _tryarr
XM[("trait", "std::convert::TryInto", "try_into")] = _tryarr
