"""Own reader of the pest grammar: per rule, the regular language of child rules
(a DFA, used as the typestate of a Pairs iterator) and the language of its text."""
import re, sys
from functools import lru_cache

TOK = re.compile(r'''\s+|//[^\n]*|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])')|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>\.\.|[={}()~|*+?!&,@$_\[\]#])|(?P<num>\d+)''')


def unq(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 1
            c = s[i]
            if c == "u":
                j = s.index("}", i)
                out.append(chr(int(s[i + 2:j], 16)))
                i = j
            else:
                out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(c, c))
        else:
            out.append(c)
        i += 1
    return "".join(out)


class Grammar:
    def __init__(self, path):
        self.path = path
        self.rules = {}  # name -> (mod, expr)
        self._parse(open(path, encoding="utf-8").read())
        self._cdfa = {}
        self._ldfa = {}

    # ------------------------------------------------------------ parsing
    def _parse(self, src):
        src = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
        toks = []
        i = 0
        while i < len(src):
            m = TOK.match(src, i)
            if not m:
                raise SyntaxError("grammar: cannot tokenize at %r" % src[i:i + 30])
            i = m.end()
            if m.lastgroup:
                toks.append((m.lastgroup, m.group(m.lastgroup)))
        self.t = toks
        self.p = 0
        while self.p < len(toks):
            name = self._eat("id")
            self._eat("op", "=")
            mod = ""
            while self.t[self.p] != ("op", "{"):
                mod += self.t[self.p][1]
                self.p += 1
            self._eat("op", "{")
            if self.t[self.p] == ("op", "|"):
                self.p += 1
            e = self._choice()
            self._eat("op", "}")
            self.rules[name] = (mod, e)
        del self.t, self.p

    def literals(self):
        """every literal of the grammar"""
        out = set()

        def go(e):
            if isinstance(e, tuple) and len(e) == 2 and e[0] in ("str", "istr") and isinstance(e[1], str):
                out.add(e[1])
            elif isinstance(e, (tuple, list)):
                for x in e:
                    go(x)
        for _, e in self.rules.values():
            go(e)
        return out

    def _eat(self, k, v=None):
        tk, tv = self.t[self.p]
        if tk != k or (v is not None and tv != v):
            raise SyntaxError("grammar: expected %s %s got %s" % (k, v, self.t[self.p]))
        self.p += 1
        return tv

    def _choice(self):
        alts = [self._seq()]
        while self.t[self.p] == ("op", "|"):
            self.p += 1
            alts.append(self._seq())
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def _seq(self):
        items = [self._post()]
        while self.t[self.p] == ("op", "~"):
            self.p += 1
            items.append(self._post())
        return items[0] if len(items) == 1 else ("seq", items)

    def _post(self):
        tk, tv = self.t[self.p]
        if (tk, tv) == ("op", "!"):
            self.p += 1
            return ("not", self._post())
        if (tk, tv) == ("op", "&"):
            self.p += 1
            return ("and", self._post())
        e = self._atom()
        while self.t[self.p][0] == "op" and self.t[self.p][1] in "*+?":
            o = self.t[self.p][1]
            self.p += 1
            e = ({"*": "star", "+": "plus", "?": "opt"}[o], e)
        if self.t[self.p] == ("op", "{"):
            raise SyntaxError("grammar: repetition counts unsupported")
        return e

    def _atom(self):
        tk, tv = self.t[self.p]
        self.p += 1
        if tk == "str":
            if tv[0] == "^":
                return ("istr", unq(tv[2:-1]))
            return ("str", unq(tv[1:-1]))
        if tk == "chr":
            a = unq(tv[1:-1])
            self._eat("op", "..")
            b = unq(self._eat("chr")[1:-1])
            return ("range", a, b)
        if tk == "id":
            return ("ref", tv)
        if (tk, tv) == ("op", "_"):
            return ("ref", "_")
        if (tk, tv) == ("op", "("):
            e = self._choice()
            self._eat("op", ")")
            return e
        raise SyntaxError("grammar: unexpected %s" % tv)

    # ------------------------------------------------------------ properties
    def silent(self, r):
        return r in self.rules and "_" in self.rules[r][0]

    def atomic(self, r):
        return r in self.rules and "@" in self.rules[r][0]

    # children NFA: transitions over rule names. Thompson construction.
    def child_dfa(self, rule):
        if rule in self._cdfa:
            return self._cdfa[rule]
        n = NFA()
        s, e = n.new(), n.new()
        if rule in self.rules and not self.atomic(rule):
            self._cbuild(n, self.rules[rule][1], s, e, ())
        else:
            n.eps(s, e)
        d = n.dfa(s, e)
        self._cdfa[rule] = d
        return d

    def start_dfa(self, rule):
        """The Pairs returned by Parser::parse(rule, text): exactly one pair `rule` (or inlined if silent)."""
        k = "^" + rule
        if k not in self._cdfa:
            n = NFA()
            s, e = n.new(), n.new()
            self._cbuild(n, ("ref", rule), s, e, ())
            self._cdfa[k] = n.dfa(s, e)
        return self._cdfa[k]

    def _cbuild(self, n, x, s, e, stk):
        k = x[0]
        if k in ("str", "istr", "range", "not", "and"):
            n.eps(s, e)
        elif k == "ref":
            r = x[1]
            if r == "EOI":
                n.tr(s, "EOI", e)
            elif r in self.rules:
                if self.silent(r):
                    if r in stk:
                        raise SyntaxError("recursive silent rule " + r)
                    if self.atomic(r):
                        n.eps(s, e)
                    else:
                        self._cbuild(n, self.rules[r][1], s, e, stk + (r,))
                else:
                    n.tr(s, r, e)
            else:
                n.eps(s, e)
        elif k == "seq":
            cur = s
            for y in x[1]:
                nx = n.new()
                self._cbuild(n, y, cur, nx, stk)
                cur = nx
            n.eps(cur, e)
        elif k == "alt":
            for y in x[1]:
                a, b = n.new(), n.new()
                n.eps(s, a)
                n.eps(b, e)
                self._cbuild(n, y, a, b, stk)
        else:
            a, b = n.new(), n.new()
            n.eps(s, a)
            n.eps(b, e)
            self._cbuild(n, x[1], a, b, stk)
            if k in ("star", "plus"):
                n.eps(b, a)
            if k in ("star", "opt"):
                n.eps(s, e)

    # ------------------------------------------------------------ text language
    def finite(self, rule, limit=64):
        """The finite set of strings the rule's text can be, or None when unbounded/too many."""
        try:
            return self._fin(("ref", rule), (), limit)
        except (RecursionError, OverflowError):
            return None

    def _fin(self, x, stk, limit):
        k = x[0]
        if k == "str":
            return {x[1]}
        if k == "ref":
            r = x[1]
            if r in ("SOI", "EOI"):
                return {""}
            if r in self.rules:
                if r in stk:
                    return None
                return self._fin(self.rules[r][1], stk + (r,), limit)
            return None
        if k in ("not", "and"):
            return {""}
        if k == "seq":
            cur = {""}
            for y in x[1]:
                z = self._fin(y, stk, limit)
                if z is None:
                    return None
                cur = {a + b for a in cur for b in z}
                if len(cur) > limit:
                    return None
            return cur
        if k == "alt":
            out = set()
            for y in x[1]:
                z = self._fin(y, stk, limit)
                if z is None:
                    return None
                out |= z
            return out if len(out) <= limit else None
        if k == "opt":
            z = self._fin(x[1], stk, limit)
            return None if z is None else z | {""}
        return None

    def char_dfa(self, rule):
        """DFA over character classes for a rule whose text language is regular (no recursion)."""
        if rule in self._ldfa:
            return self._ldfa[rule]
        n = NFA()
        s, e = n.new(), n.new()
        try:
            self._lbuild(n, ("ref", rule), s, e, ())
            # alphabet: every char mentioned + OTHER classes
            chars = set()
            for _, lab, _ in n.trans:
                if lab[0] == "in":
                    if len(lab[1]) <= 4:
                        chars |= lab[1]
                    else:
                        pass
                elif lab[0] == "notin":
                    chars |= lab[1]
            classes = {}
            named = [("digit", frozenset("0123456789")), ("alpha", frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))]
            alpha = [("c", c) for c in sorted(chars)] + [("k", "digit"), ("k", "alpha"), ("k", "other")]

            def match(lab, sym):
                if sym[0] == "c":
                    return (sym[1] in lab[1]) if lab[0] == "in" else (sym[1] not in lab[1])
                if sym[1] == "other":
                    return lab[0] == "notin"
                cls = dict(named)[sym[1]] - frozenset(chars)
                if lab[0] == "in":
                    return bool(cls & lab[1])
                return bool(cls - lab[1])
            d = n.dfa(s, e, alpha, match)
        except SyntaxError:
            d = None
        self._ldfa[rule] = d
        return d

    BUILT = {
        "ASCII_DIGIT": frozenset("0123456789"),
        "ASCII_ALPHA": frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        "ASCII_ALPHANUMERIC": frozenset("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
    }

    def _single_class(self, x):
        """set of single characters x can match, if it matches exactly one char"""
        k = x[0]
        if k == "str" and len(x[1]) == 1:
            return ("in", frozenset(x[1]))
        if k == "range":
            return ("in", frozenset(chr(c) for c in range(ord(x[1]), ord(x[2]) + 1)))
        if k == "ref":
            if x[1] == "ANY":
                return ("notin", frozenset())
            if x[1] in self.BUILT:
                return ("in", self.BUILT[x[1]])
            if x[1] in self.rules:
                return self._single_class(self.rules[x[1]][1])
        if k == "alt":
            cs = [self._single_class(y) for y in x[1]]
            if all(c and c[0] == "in" for c in cs):
                return ("in", frozenset().union(*[c[1] for c in cs]))
        return None

    def _lbuild(self, n, x, s, e, stk):
        k = x[0]
        if k == "str":
            cur = s
            for c in x[1]:
                nx = n.new()
                n.tr(cur, ("in", frozenset(c)), nx)
                cur = nx
            n.eps(cur, e)
        elif k == "istr":
            cur = s
            for c in x[1]:
                nx = n.new()
                n.tr(cur, ("in", frozenset({c.lower(), c.upper()})), nx)
                cur = nx
            n.eps(cur, e)
        elif k == "range":
            n.tr(s, self._single_class(x), e)
        elif k == "ref":
            r = x[1]
            if r in ("SOI", "EOI"):
                n.eps(s, e)
            elif r == "ANY":
                n.tr(s, ("notin", frozenset()), e)
            elif r == "NEWLINE":
                self._lbuild(n, ("alt", [("str", "\n"), ("str", "\r\n"), ("str", "\r")]), s, e, stk)
            elif r in self.BUILT:
                n.tr(s, ("in", self.BUILT[r]), e)
            elif r in self.rules:
                if r in stk:
                    raise SyntaxError("recursive")
                self._lbuild(n, self.rules[r][1], s, e, stk + (r,))
            else:
                n.tr(s, ("notin", frozenset()), e)
        elif k in ("not", "and"):
            n.eps(s, e)
        elif k == "seq":
            cur = s
            items = list(x[1])
            i = 0
            while i < len(items):
                y = items[i]
                nx = n.new()
                if y[0] == "not" and i + 1 < len(items) and items[i + 1] == ("ref", "ANY"):
                    c = self._single_class(y[1])
                    if c and c[0] == "in":
                        n.tr(cur, ("notin", c[1]), nx)
                        cur = nx
                        i += 2
                        continue
                self._lbuild(n, y, cur, nx, stk)
                cur = nx
                i += 1
            n.eps(cur, e)
        elif k == "alt":
            taken = frozenset()  # first characters on which an earlier alternative always wins (c ~ ANY)
            for y in x[1]:
                a, b = n.new(), n.new()
                n.eps(s, a)
                n.eps(b, e)
                z = y[1] if y[0] == "seq" else [y]
                if taken and len(z) == 2 and z[0][0] == "not" and z[1] == ("ref", "ANY"):
                    c = self._single_class(z[0][1])
                    if c and c[0] == "in":
                        n.tr(a, ("notin", c[1] | taken), b)
                        continue
                self._lbuild(n, y, a, b, stk)
                if len(z) == 2 and z[0][0] == "str" and len(z[0][1]) == 1 and z[1] == ("ref", "ANY"):
                    taken = taken | frozenset(z[0][1])
        else:
            a, b = n.new(), n.new()
            n.eps(s, a)
            n.eps(b, e)
            self._lbuild(n, x[1], a, b, stk)
            if k in ("star", "plus"):
                n.eps(b, a)
            if k in ("star", "opt"):
                n.eps(s, e)


class NFA:
    def __init__(self):
        self.n = 0
        self.e = {}
        self.trans = []

    def new(self):
        self.n += 1
        return self.n - 1

    def eps(self, a, b):
        self.e.setdefault(a, set()).add(b)

    def tr(self, a, lab, b):
        self.trans.append((a, lab, b))

    def clo(self, ss):
        st = list(ss)
        out = set(ss)
        while st:
            x = st.pop()
            for y in self.e.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def dfa(self, s, e, alpha=None, match=None):
        by = {}
        for a, lab, b in self.trans:
            by.setdefault(a, []).append((lab, b))
        start = self.clo({s})
        ids = {start: 0}
        acc = {0: e in start}
        tr = {}
        work = [start]
        while work:
            q = work.pop()
            moves = {}
            if alpha is None:
                for x in q:
                    for lab, b in by.get(x, ()):
                        moves.setdefault(lab, set()).add(b)
            else:
                for sym in alpha:
                    for x in q:
                        for lab, b in by.get(x, ()):
                            if match(lab, sym):
                                moves.setdefault(sym, set()).add(b)
            tr[ids[q]] = {}
            for lab, bs in moves.items():
                c = self.clo(bs)
                if c not in ids:
                    ids[c] = len(ids)
                    acc[ids[c]] = e in c
                    work.append(c)
                tr[ids[q]][lab] = ids[c]
        return minimize(tr, acc)


def minimize(tr, acc):
    # Moore partition refinement (partial DFA); start state stays 0
    part = {q: int(acc[q]) for q in tr}
    while True:
        sig = {q: (part[q], tuple(sorted((str(l), part[t]) for l, t in tr[q].items()))) for q in tr}
        ids = {}
        order = [0] + [q for q in sorted(tr) if q != 0]
        new = {}
        for q in order:
            new[q] = ids.setdefault(sig[q], len(ids))
        if len(set(new.values())) == len(set(part.values())):
            part = new
            break
        part = new
    rtr, racc = {}, {}
    for q in tr:
        rtr[part[q]] = {l: part[t] for l, t in tr[q].items()}
        racc[part[q]] = acc[q]
    return (rtr, racc)


if __name__ == "__main__":
    g = Grammar("/repo/src/parser/expression_grammar.pest")
    for r in g.rules:
        d = g.child_dfa(r)
        print(r, g.rules[r][0], d[0], "acc", [q for q in d[1] if d[1][q]], "FIN", sorted(g.finite(r) or [])[:4])
    print(g.char_dfa("string_literal"))
    print(g.char_dfa("float"))
