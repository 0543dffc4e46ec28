"""Derivation of template text by the grammar: a recursive matcher of the pest grammar for texts that may contain class symbols.
A class symbol is one private-use character standing for a whole family of strings (see Classes); grammar built-ins match it by family."""


class Classes:
    """class symbols: 'nat' = any non-empty run of digits, 'ident' = any identifier, 'char' = any one character that is
    neither ASCII nor white space"""

    def __init__(self):
        self.n = 0
        self.kind = {}
        self.lab = {}
        self.sym = {}

    def new(self, kind, lab):
        if (kind, lab) in self.sym:
            return self.sym[(kind, lab)]
        c = chr(0xE000 + self.n)
        self.n += 1
        self.kind[c] = kind
        self.lab[c] = lab
        self.sym[(kind, lab)] = c
        return c


class Peg:
    def __init__(self, G, classes):
        self.G = G
        self.C = classes
        self.cache = {}

    def parse(self, rule, text):
        """-> tuple of top pairs ("ptree", rule, text, kids, (s, e)) or None"""
        k = (rule, text)
        if k not in self.cache:
            self.memo = {}
            r = self.rule(rule, text, 0, False)
            self.cache[k] = None if r is None else r[1]
        return self.cache[k]

    def cls(self, name, c):
        k = self.C.kind.get(c)
        if name == "ASCII_DIGIT":
            return k == "nat" or "0" <= c <= "9"
        if name == "ASCII_ALPHA":
            return k == "ident" or (c.isascii() and c.isalpha())
        if name == "ASCII_ALPHANUMERIC":
            return k in ("nat", "ident") or (c.isascii() and c.isalnum())
        if name == "ASCII_ALPHA_LOWER":
            return "a" <= c <= "z"
        if name == "ASCII_ALPHA_UPPER":
            return "A" <= c <= "Z"
        if name == "ASCII_NONZERO_DIGIT":
            return "1" <= c <= "9"
        if name == "ASCII_HEX_DIGIT":
            return k == "nat" or c in "0123456789abcdefABCDEF"
        if name == "ANY":
            return True
        return None

    def rule(self, name, s, i, inatom):
        """-> (end, pairs) or None"""
        if name == "SOI":
            return (0, ()) if i == 0 else None
        if name == "EOI":
            return (i, () if inatom else (("ptree", "EOI", "", (), (i, i)),)) if i == len(s) else None
        if name == "NEWLINE":
            for nl in ("\n", "\r\n", "\r"):
                if s.startswith(nl, i):
                    return (i + len(nl), ())
            return None
        if name not in self.G.rules:
            if i < len(s):
                r = self.cls(name, s[i])
                if r is None:
                    raise ValueError("grammar built-in " + name)
                return (i + 1, ()) if r else None
            if self.cls(name, "x") is None:
                raise ValueError("grammar built-in " + name)
            return None
        k = (name, i, inatom)
        if k in self.memo:
            return self.memo[k]
        mod, e = self.G.rules[name]
        if "$" in mod or "!" in mod:
            raise ValueError("rule modifier " + mod)
        if "WHITESPACE" in self.G.rules or "COMMENT" in self.G.rules:
            raise ValueError("implicit whitespace")
        atom = inatom or "@" in mod
        r = self.expr(e, s, i, atom)
        if r is not None:
            end, ks = r
            if inatom:
                r = (end, ())
            elif "_" in mod:
                r = (end, ks)
            else:
                r = (end, (("ptree", name, s[i:end], () if "@" in mod else ks, (i, end)),))
        self.memo[k] = r
        return r

    def expr(self, e, s, i, atom):
        k = e[0]
        if k == "str":
            return (i + len(e[1]), ()) if s.startswith(e[1], i) else None
        if k == "istr":
            t = s[i:i + len(e[1])]
            return (i + len(e[1]), ()) if t.isascii() and t.lower() == e[1].lower() else None
        if k == "range":
            return (i + 1, ()) if i < len(s) and e[1] <= s[i] <= e[2] else None
        if k == "ref":
            return self.rule(e[1], s, i, atom)
        if k == "seq":
            ks = ()
            for x in e[1]:
                r = self.expr(x, s, i, atom)
                if r is None:
                    return None
                i = r[0]
                ks += r[1]
            return i, ks
        if k == "alt":
            for x in e[1]:
                r = self.expr(x, s, i, atom)
                if r is not None:
                    return r
            return None
        if k in ("star", "plus"):
            ks = ()
            n = 0
            while True:
                r = self.expr(e[1], s, i, atom)
                if r is None or (r[0] == i and n):
                    break
                n += 1
                i = r[0]
                ks += r[1]
                if not r[0] and not s:
                    break
            if k == "plus" and n == 0:
                return None
            return i, ks
        if k == "opt":
            r = self.expr(e[1], s, i, atom)
            return (i, ()) if r is None else r
        if k == "not":
            return (i, ()) if self.expr(e[1], s, i, atom) is None else None
        if k == "and":
            return (i, ()) if self.expr(e[1], s, i, atom) is not None else None
        raise ValueError(k)
