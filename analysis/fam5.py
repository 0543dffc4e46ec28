"""Families of plan texts: numbers of every size, other spellings of the same plan, texts that have to be refused, and odd tokens anywhere."""
import re
from exact import *
from scen import *
from fam4 import S_, HEAD, docs, reg, tokens, lines_of, join

BIG = 10**45
I32, U32, I64 = (-2**31, 2**31 - 1), (0, 2**32 - 1), (-2**63, 2**63 - 1)
N32, N64 = (0, 2**31 - 1), (0, 2**63 - 1)


# ================================================================ numbers
def number_places(W):
    """(key, text with \x01 for the number, a legal number, lowest and highest legal number)"""
    a, b, t = W.id("a"), W.id("b"), W.id("t")
    R = "  Read[%s => %s:i64, %s:i64]\n" % (t, a, b)
    pl = lambda l, child=R: HEAD + "=== Plan\n" + l + "\n" + child
    n = "\x01"
    for k, l in (("filter-emit", "Filter[true => $1, $\x01]"), ("project-field", "Project[$\x01]"), ("call-arg", "Filter[f($0, $\x01):boolean => $0, $1]"), ("nested-arg", "Filter[f(g($\x01):i64):boolean => $0, $1]"), ("sort-field", "Sort[($\x01, &AscNullsFirst) => $0, $1]"),
                 ("sort-emit", "Sort[($0, &AscNullsFirst) => $\x01]"), ("fetch-emit", "Fetch[limit=1 => $\x01]"), ("agg-key", "Aggregate[$\x01 => $\x01]"),
                 ("cast", "Project[($\x01)::i64]"), ("if", "Project[if_then(true -> $\x01, _ -> $0)]")):
        yield "ref " + k, pl(l), 1, I32
    yield "ref read-emit", pl("Read[%s +> %s:i64, %s:i64 |> $1, $\x01]" % (t, a, b), ""), 0, I32
    yield "ref join-emit", pl("Join[&Inner, true => $\x01]", R + R), 1, I32
    yield "ref cross-emit", pl("Cross[$\x01]", R + R), 1, I32
    yield "ref set-emit", pl("Set[&UnionAll => $\x01]", R + R), 1, I32
    for k, y, r in (("i8", "i8", (-2**7, 2**7 - 1)), ("i16", "i16", (-2**15, 2**15 - 1)), ("i32", "i32", I32), ("i64", "i64", I64), ("i8?", "i8?", (-2**7, 2**7 - 1)), ("i64?", "i64?", I64)):
        yield "lit " + k, pl("Project[\x01:%s]" % y), 3, r
    yield "lit bare", pl("Project[\x01]"), 3, I64
    yield "lit bare-arg", pl("Filter[f(\x01):boolean => $0, $1]"), 3, I64
    yield "lit virtual", pl("Read:Virtual[(\x01) => %s:i64]" % a, ""), 3, I64
    yield "limit", pl("Fetch[limit=\x01 => $0, $1]"), 3, N64
    yield "offset", pl("Fetch[offset=\x01 => $0, $1]"), 3, N64
    yield "both limit", pl("Fetch[limit=\x01, offset=1 => $0, $1]"), 3, N64
    yield "fn anchor", HEAD.replace("Types:\n", "  # \x01 @  1: h\nTypes:\n") + "=== Plan\n" + R.replace("  Read", "Read"), 3, U32
    yield "urn anchor", HEAD.replace("Functions:\n", "  @ \x01: urn:c\nFunctions:\n") + "=== Plan\n" + R.replace("  Read", "Read"), 3, U32
    yield "type anchor", HEAD.replace("  # 20 @  1: T\n", "  # 20 @  1: T\n  # \x01 @  1: S\n") + "=== Plan\n" + R.replace("  Read", "Read"), 3, U32
    yield "variation anchor", HEAD.replace("  # 20 @  1: T\n", "  # 20 @  1: T\nType Variations:\n  # \x01 @  1: S\n") + "=== Plan\n" + R.replace("  Read", "Read"), 3, U32
    for k in range(3):
        v = ["1", "2", "3"]
        v[k] = n
        yield "version %d" % k, "=== Version %s\n=== Plan\n%s" % (".".join(v), R.replace("  Read", "Read")), 3, U32
    for k, y in (("pts", "precisiontimestamp<\x01>"), ("ptstz", "precisiontimestamptz<\x01>"), ("ptime", "precisiontime<\x01>"), ("iday", "interval_day<\x01>")):
        yield "precision " + k, pl("Read[%s => %s:%s]" % (t, a, y), ""), 3, (0, 12)
    yield "interval days", pl("Project['\x01d 1s 5ms':interval_day<3>]"), 3, I32
    yield "interval seconds", pl("Project['1d \x01s 5ms':interval_day<3>]"), 3, I32
    yield "interval ms", pl("Project['1d 1s \x01ms':interval_day<3>]"), 3, I64
    yield "interval ns", pl("Project['1d 1s \x01ns':interval_day<9>]"), 3, I64
    yield "ext arg", pl("ExtensionLeaf:X[\x01 => %s:i64]" % a, ""), 3, I64
    yield "ext named", pl("ExtensionLeaf:X[%s=\x01 => %s:i64]" % (W.id("k"), a), ""), 3, I64
    yield "ext tuple", pl("ExtensionLeaf:X[(\x01, 1) => %s:i64]" % a, ""), 3, I64
    yield "ext ref", pl("ExtensionLeaf:X[$\x01 => %s:i64]" % a, ""), 3, I32
    yield "ext col", pl("ExtensionSingle:X[1 => $\x01]"), 1, I32
    yield "addendum", pl("Filter[true => $0, $1]\n  + Opt:X[\x01]"), 3, I64
    yield "addendum enh", pl("Filter[true => $0, $1]\n  + Enh:X[\x01]"), 3, I64


def identity_places(W):
    """output lists that are the identity but for one number: places as above, for single numbers only (the identity itself is another plan term)"""
    a, b, t = W.id("a"), W.id("b"), W.id("t")
    R, R1 = "  Read[%s => %s:i64, %s:i64]\n" % (t, a, b), "  Read[%s => %s:i64]\n" % (t, a)
    pl = lambda l, child: HEAD + "=== Plan\n" + l + "\n" + child
    for k, l, c1, c2 in (("filter", "Filter[true => %s]", R1, R), ("sort", "Sort[($0, &AscNullsFirst) => %s]", R1, R), ("fetch", "Fetch[limit=1 => %s]", R1, R),
                         ("set", "Set[&UnionAll => %s]", R1 + R1, R + R), ("semi", "Join[&LeftSemi, true => %s]", R1 + R1, R + R),
                         ("join", "Join[&Inner, true => %s]", None, R1 + R1), ("cross", "Cross[%s]", None, R1 + R1)):
        if c1:
            yield "only " + k, pl(l % "$\x01", c1), 3, 0
        yield "last " + k, pl(l % "$0, $\x01", c2), 3, 1
    for k, u in (("read", "|> $0, $\x01"),):
        yield "last " + k, pl("Read[%s +> %s:i64, %s:i64 %s]" % (t, a, b, u), ""), 0, 1


def number_family(W):
    r = reg(W)
    for k, text, eg, at in identity_places(W):
        for v in (2**8 + at, 2**16 + at, 2**24 + at, at + 1):
            yield S_("%s|%d" % (k, v), "num", text, eg, v, v, True, r)
    for k, text, eg, (lo, hi) in number_places(W):
        yield S_(k + "|in", "num", text, eg, lo, hi, True, r)
        yield S_(k + "|above", "num", text, eg, hi + 1, BIG, False, r)
        yield S_(k + "|below", "num", text, eg, -BIG, lo - 1, False, r)
        for nm, v in (("lo", lo), ("hi", hi), ("2^8+1", 2**8 + 1), ("2^16+1", 2**16 + 1)):
            if lo <= v <= hi:
                yield S_("%s|%s" % (k, nm), "num", text, eg, v, v, True, r)
        for nm, v in (("over", hi + 1), ("under", lo - 1), ("2^32", 2**32), ("2^64", 2**64), ("2^64+1", 2**64 + 1), ("2^128", 2**128)):
            if not lo <= v <= hi:
                yield S_("%s|%s" % (k, nm), "num", text, eg, v, v, False, r)


# ================================================================ other spellings of the same plan
def spellings(W, dn, text):
    """(key, another spelling of the text)"""
    ls, ks = lines_of(text)
    head = HEAD in text
    for k in ks:
        l = ls[k]
        skip = head and l + "\n" in HEAD and dn != "filter" or "producer:" in l or "git_hash:" in l
        body = l.lstrip(" ")
        pre = l[:len(l) - len(body)]
        ts = tokens(l)
        if not skip:
            for n, (s, e) in enumerate(ts):
                at = "%d:%d %s" % (k, n, W.shown(l[s:e]))
                nx = ts[n + 1][0] if n + 1 < len(ts) else None
                if nx is not None:
                    yield "sp " + at, join(ls, k, [l[:e] + "   " + l[nx:]])
                    if nx > e:
                        yield "nosp " + at, join(ls, k, [l[:e] + l[nx:]])
                if W.I.C.kind.get(l[s:e]) == "ident":
                    yield "quote " + at, join(ls, k, [l[:s] + '"' + l[s:e] + '"' + l[e:]])
                if l[s:e] in ("f", "g", "T") and l[e:e + 1] not in ("#", "@"):
                    n1, u1 = {"f": (10, 1), "g": (11, 2), "T": (20, 1)}[l[s:e]]
                    if body[0] not in "#@=":
                        for sfx in ("#%d" % n1, "@%d" % u1, "#%d@%d" % (n1, u1), "# %d" % n1):
                            yield "anchor%s %s" % (sfx, at), join(ls, k, [l[:e] + sfx + l[e:]])
                        if l[s:e] == "T":
                            yield "u! " + at, join(ls, k, [l[:s] + "u!" + l[s:]])
                if l[s:e] in ("list", "boolean", "i64", "string", "true", "null", "precisiontimestamp", "date", "fp64"):
                    yield "case " + at, join(ls, k, [l[:s] + l[s:e].upper() + l[e:]])
                    yield "Case " + at, join(ls, k, [l[:s] + l[s:e].capitalize() + l[e:]])
                if re.fullmatch(r"-?\d+", l[s:e]):
                    m = "-" if l[s] == "-" else ""
                    yield "zero " + at, join(ls, k, [l[:s] + m + "0" + l[s + len(m):]])
                for rx, y in ((r"-?\d+", "i64"), (r"-?\d+\.\d+", "fp64"), (r"true|false", "boolean"), (r"'.*'", "string")):
                    if re.fullmatch(rx, l[s:e]) and "[" in l[:s] and l[e:e + 1] in (",", ")", "]") and l[s - 1] in "([, " and not body.startswith("+") and "Extension" not in body:
                        yield "typed " + at, join(ls, k, [l[:e] + ":" + y + l[e:]])
            if k > ls.index("=== Plan"):
                yield "comment %d" % k, join(ls, k, [l + "  // a comment"])
                yield "comment2 %d" % k, join(ls, k, [l + "//"])
        yield "trail %d" % k, join(ls, k, [l + "  "])
        yield "trailtab %d" % k, join(ls, k, [l + "\t"])
        yield "blank %d" % k, join(ls, k, [l, ""])
        yield "blanksp %d" % k, join(ls, k, [l, "    "])
        yield "before %d" % k, join(ls, k, ["", l])
    yield "crlf", text.replace("\n", "\r\n")
    yield "noeol", text.rstrip("\n")
    yield "eols", text + "\n\n\n"
    yield "lead", "\n\n" + text
    yield "nogap", text.replace("\n\n", "\n")


PAIRS = [
    ("fetch order", "Fetch[offset=5, limit=10 => $0, $1]", "Fetch[limit=10, offset=5 => $0, $1]"),
    ("fetch typed", "Fetch[limit=10:i64 => $0, $1]", "Fetch[limit=10 => $0, $1]"),
    ("agg brackets", "Aggregate[($0) => $0]", "Aggregate[$0 => $0]"),
    ("project ref", "Project[ $0 ]", "Project[$0]"),
    ("emit identity", "Filter[true => $0, $1]", "Filter[true:boolean => $0, $1]"),
]


def spell_family(W):
    r = reg(W)
    for dn, text in docs(W):
        seen = set()
        for k, t2 in spellings(W, dn, text):
            if t2 == text or t2 in seen:
                continue
            seen.add(t2)
            yield S_("%s|%s" % (dn, k), "eq", t2, text, r)
    R = "  Read[%s => %s:i64, %s:i64]\n" % (W.id("t"), W.id("a"), W.id("b"))
    for k, x, y in PAIRS:
        yield S_("pair|" + k, "eq", HEAD + "=== Plan\n" + x + "\n" + R, HEAD + "=== Plan\n" + y + "\n" + R, r)
    # declarations in another order, sections in another order
    H = HEAD.split("\n")
    for k, o in (("urns", (0, 1, 3, 2, 4, 5, 6, 7, 8)), ("fns", (0, 1, 2, 3, 4, 6, 5, 7, 8)), ("types first", (0, 1, 2, 3, 7, 8, 4, 5, 6))):
        yield S_("order|" + k, "eq", "\n".join(H[x] for x in o) + "\n\n=== Plan\nFilter[f(g($0):T):boolean => $0, $1]\n" + R, HEAD + "=== Plan\nFilter[f(g($0):T):boolean => $0, $1]\n" + R, r)
    # short and long names of a function
    for k, decl, x, y in (("sig", "equal:any_any", "equal", "equal:any_any"), ("sig1", "count:any", "count", "count:any"), ("sig0", "now:", "now", "now:")):
        for sfx in ("", "#10", "#10@1"):
            h = "=== Extensions\nURNs:\n  @  1: urn:a\nFunctions:\n  # 10 @  1: %s\n\n=== Plan\n" % decl
            yield S_("%s|%s" % (k, sfx), "eq", h + "Filter[%s%s($0):boolean => $0, $1]\n" % (x, sfx) + R, h + "Filter[%s($0):boolean => $0, $1]\n" % y + R, r)


# ================================================================ texts that have to be refused
def refuse_family(W):
    r = reg(W)
    a, b, t = W.id("a"), W.id("b"), W.id("t")
    R = "  Read[%s => %s:i64, %s:i64]\n" % (t, a, b)
    R0 = R[2:]
    z = W.id("zz")
    P = "=== Plan\n"

    def no(k, text):
        return S_(k, "err", text, None, r)

    # references
    for k, e in (("fn", z + "($0):i64"), ("fn anchor", "f#99($0):i64"), ("fn other anchor", "f#11($0):i64"), ("fn urn", "f@2($0):i64"), ("fn no urn", "f@9($0):i64"), ("fn type anchor", "f#20($0):i64"), ("fn is a type", "T($0):i64"),
                 ("fn sig", "f:i64($0):i64"), ("fn class anchor", z + "#10($0):i64"), ("type", "($0)::" + z), ("type anchor", "($0)::T#99"), ("type fn anchor", "($0)::T#10"), ("type urn", "($0)::T@2"), ("type is a fn", "($0)::f"), ("type name", "($0)::%s#20" % z), ("type u", "($0)::u!" + z)):
        for pk, ctx in (("filter", "Filter[%s => $0, $1]"), ("project", "Project[%s]"), ("arg", "Filter[g(%s):boolean => $0, $1]"), ("agg", "Aggregate[%s => $0]"), ("measure", "Aggregate[$0 => $0, %s]"), ("sort", "Sort[(%s, &AscNullsFirst) => $0, $1]"),
                        ("if", "Project[if_then(true -> %s, _ -> 1)]"), ("cast", "Project[(%s)::i64]"), ("limit", "Fetch[limit=%s => $0, $1]")):
            if pk == "measure" and e.startswith("("):
                continue
            yield no("ref|%s|%s" % (k, pk), HEAD + P + ctx % e + "\n" + R)
    for k, y in (("type", z), ("anchor", "T#99"), ("urn", "T@2"), ("fn", "f"), ("in list", "list<%s>" % z), ("param", "T<%s>" % z)):
        yield no("column|" + k, HEAD + P + "Read[%s => %s:%s]\n" % (t, a, y))
        yield no("result|" + k, HEAD + P + "Filter[f($0):%s => $0, $1]\n" % y + R)
        yield no("null|" + k, HEAD + P + "Project[null:%s]\n" % y + R)
        yield no("vcol|" + k, HEAD + P + "Read:Virtual[_ => %s:%s]\n" % (a, y))
        yield no("ecol|" + k, HEAD + P + "ExtensionLeaf:X[_ => %s:%s]\n" % (a, y))
        yield no("tcol|" + k, HEAD + P + "Read:Extension[%s:%s]\n  + Ext:X[_]\n" % (a, y))
    # ambiguous names
    amb = "=== Extensions\nURNs:\n  @  1: urn:a\n  @  2: urn:b\nFunctions:\n  # 10 @  1: f\n  # 11 @  2: f\n  # 12 @  1: h:i64\n  # 13 @  1: h:str\nTypes:\n  # 20 @  1: T\n  # 21 @  2: T\n\n" + P
    yield no("ambiguous|fn", amb + "Filter[f($0):boolean => $0, $1]\n" + R)
    yield no("ambiguous|base", amb + "Filter[h($0):boolean => $0, $1]\n" + R)
    yield no("ambiguous|type", amb + "Read[%s => %s:T]\n" % (t, a))
    # names that are nearly the declared ones
    near = "=== Extensions\nURNs:\n  @  1: urn:a\nFunctions:\n  # 10 @  1: fn_ab\n  # 11 @  1: ho_cd:i64_str\nTypes:\n  # 20 @  1: Ty_xy\nType Variations:\n  # 30 @  1: va_ri\n\n" + P

    def nears(n):
        for k in range(1, len(n)):
            yield n[:k]
        for k in range(1, len(n)):
            if n[k].isalpha():
                yield n[k:]
        for x in (n + "x", n + "_", n + "0", n.upper(), n.lower(), n.swapcase(), n[0].swapcase() + n[1:], n[:2] + n[1:], n.replace("_", ""), n[1] + n[0] + n[2:]):
            if x != n:
                yield x
    for n, anc, ok in (("fn_ab", 10, ("fn_ab",)), ("ho_cd:i64_str", 11, ("ho_cd", "ho_cd:i64_str")), ("Ty_xy", 20, ("Ty_xy",))):
        for x in list(dict.fromkeys(nears(n))) + ([n + ":", n + ":i64", n + ":any"] if ":" not in n and anc < 20 else ["ho_cd:str_i64", "ho_cd:str", "ho_cd:i64_str_str"] if anc == 11 else ["va_ri"]):
            if x not in ok and not x.endswith(":_"):
                for sfx in ("", "#%d" % anc, "@1", "#%d@1" % anc):
                    y = "Filter[%s%s($0):boolean => $0, $1]\n" % (x, sfx) if anc < 20 else "Project[($0)::%s%s]\n" % (x, sfx)
                    yield no("near|%s|%s%s" % (n, x, sfx), near + y + R)
    # declarations
    for k, h in (("urn twice", "URNs:\n  @  1: urn:a\n  @  1: urn:b\n"), ("fn twice", "URNs:\n  @  1: urn:a\nFunctions:\n  # 10 @  1: f\n  # 10 @  1: g\n"), ("type twice", "URNs:\n  @  1: urn:a\nTypes:\n  # 10 @  1: f\n  # 10 @  1: g\n"),
                 ("variation twice", "URNs:\n  @  1: urn:a\nType Variations:\n  # 10 @  1: f\n  # 10 @  1: g\n"),
                 ("fn no urn", "URNs:\n  @  1: urn:a\nFunctions:\n  # 10 @  2: f\n"), ("type no urn", "URNs:\n  @  1: urn:a\nTypes:\n  # 10 @  2: f\n"), ("variation no urn", "URNs:\n  @  1: urn:a\nType Variations:\n  # 10 @  2: f\n"), ("fn before urns", "Functions:\n  # 10 @  1: f\n"),
                 ("no name", "URNs:\n  @  1: urn:a\nFunctions:\n  # 10 @  1:\n"), ("no urn text", "URNs:\n  @  1:\n"), ("no section", "  @  1: urn:a\n"), ("wrong section", "URNs:\n  # 10 @  1: f\n"), ("section", z + ":\n  @  1: urn:a\n"),
                 ("fn in urns", "URNs:\n  @  1: urn:a\n  # 10 @ 1: f\n"), ("urn in fns", "URNs:\n  @  1: urn:a\nFunctions:\n  @ 2: urn:b\n")):
        yield no("decl|" + k, "=== Extensions\n" + h + "\n" + P + R0)
    # arguments
    for k, l in (("filter none", "Filter[]"), ("filter no cond", "Filter[ => $0]"), ("filter two", "Filter[true, true => $0, $1]"), ("filter arrow", "Filter[true -> $0]"), ("filter named", "Filter[condition=true => $0, $1]"), ("filter col", "Filter[true => %s:i64]" % z), ("filter expr out", "Filter[true => f($0):i64]"),
                 ("fetch none", "Fetch[ => $0]"), ("fetch positional", "Fetch[10 => $0]"), ("fetch unknown", "Fetch[%s=1 => $0]" % z), ("fetch twice", "Fetch[limit=1, limit=2 => $0, $1]"), ("fetch offset twice", "Fetch[offset=1, offset=2 => $0, $1]"), ("fetch negative", "Fetch[limit=-1 => $0, $1]"), ("fetch negative offset", "Fetch[offset=-1 => $0, $1]"), ("fetch huge", "Fetch[limit=99999999999999999999 => $0, $1]"),
                 ("fetch _ and limit", "Fetch[_, limit=1 => $0, $1]"), ("sort enum", "Sort[($0, &%s) => $0, $1]" % z), ("sort no enum", "Sort[($0) => $0, $1]"), ("sort bare", "Sort[$0 => $0, $1]"), ("sort two enums", "Sort[($0, &AscNullsFirst, &AscNullsLast) => $0, $1]"), ("sort swapped", "Sort[(&AscNullsFirst, $0) => $0, $1]"),
                 ("agg none", "Aggregate[ => ]"), ("agg no arrow", "Aggregate[$0]"), ("agg out literal", "Aggregate[$0 => 5]"), ("agg out missing", "Aggregate[$0 => $1]"), ("project arrow", "Project[$0 => $1]"), ("read with child", R0.strip()), ("if no else", "Project[if_then(true -> 1)]"), ("if only else", "Project[if_then(_ -> 1)]"), ("if two else", "Project[if_then(true -> 1, _ -> 1, _ -> 2)]"),
                 ("if order", "Project[if_then(_ -> 1, true -> 1)]"), ("cast no type", "Project[($0)::]"), ("call no type", "Project[f($0)]"), ("lit type", "Project[1:string]"), ("lit float int", "Project[1.5:i64]"), ("lit bool int", "Project[true:i64]"), ("lit str int", "Project['x':i64]"), ("lit null bare", "Project[null]"),
                 ("lit date", "Project['2024-13-01':date]"), ("lit date day", "Project['2023-02-29':date]"), ("lit date text", "Project['x':date]"), ("lit date tail", "Project['2024-01-01x':date]"), ("lit date int", "Project[5:date]"), ("lit time", "Project['25:00:00':time]"), ("lit time 60", "Project['12:60:00':time]"), ("lit ts", "Project['2024-01-01':timestamp]"), ("lit ts tail", "Project['2024-01-01T00:00:00Z':timestamp]"),
                 ("lit pts finer", "Project['2024-01-02T03:04:05.6789':precisiontimestamp<3>]"), ("lit ptime finer", "Project['12:34:56.789':precisiontime<2>]"), ("lit pts prec", "Project['2024-01-02T03:04:05':precisiontimestamp<13>]"), ("lit iday unit", "Project['1d 2s 3ms':interval_day<6>]"), ("lit iday order", "Project['2s 1d':interval_day<3>]"), ("lit iday twice", "Project['1d 1d':interval_day<3>]"), ("lit iday empty", "Project['':interval_day<3>]"),
                 ("lit i8", "Project[128:i8]"), ("lit i8-", "Project[-129:i8]"), ("lit i16", "Project[32768:i16]"), ("lit i32", "Project[2147483648:i32]"), ("lit i64", "Project[9223372036854775808]"), ("lit list", "Project[1:list<i64>]"), ("lit udt", "Project[1:T]"), ("type params", "Project[($0)::i64<i64>]"), ("type list none", "Project[($0)::list]"), ("type list two", "Project[($0)::list<i64, i64>]"), ("type list int", "Project[($0)::list<5>]"),
                 ("type prec none", "Project[($0)::precisiontimestamp]"), ("type prec type", "Project[($0)::precisiontimestamp<i64>]"), ("type prec two", "Project[($0)::precisiontimestamp<1, 2>]"), ("type null twice", "Project[($0)::i64??]"), ("ref none", "Project[$]"), ("ref name", "Project[$%s]" % z), ("nested ref", "Project[$0.$1]"),
                 ("unknown relation", z + "[$0]"), ("lower case", "filter[true => $0, $1]"), ("unclosed", "Project[$0"), ("overclosed", "Project[$0]]"), ("string open", "Project['x]"), ("name open", 'Read["x => %s:i64]' % a)):
        yield no("arg|" + k, HEAD + P + l + "\n" + R)
    # children
    for k, l in (("filter", "Filter[true => $0]"), ("project", "Project[$0]"), ("fetch", "Fetch[limit=1 => $0]"), ("sort", "Sort[($0, &AscNullsFirst) => $0]"), ("agg", "Aggregate[$0 => $0]"), ("root", "Root[%s]" % z), ("single", "ExtensionSingle:X[1 => $0]")):
        yield no("child|%s|0" % k, HEAD + P + l + "\n")
        yield no("child|%s|2" % k, HEAD + P + l + "\n" + R + R)
    for k, l in (("join", "Join[&Inner, true => $0]"), ("cross", "Cross[$0]")):
        for n in (0, 1, 3):
            yield no("child|%s|%d" % (k, n), HEAD + P + l + "\n" + R * n)
    for n in (0, 1):
        yield no("child|set|%d" % n, HEAD + P + "Set[&UnionAll => $0]\n" + R * n)
    for k, l in (("read", R0.strip()), ("virtual", "Read:Virtual[_ => %s:i64]" % a), ("leaf", "ExtensionLeaf:X[1 => %s:i64]" % a), ("table", "Read:Extension[%s:i64]\n  + Ext:X[1]" % a)):
        yield no("child|%s|1" % k, HEAD + P + l + "\n" + R)
    # binary relations
    for k, l in (("join type", "Join[&%s, true => $0]" % z), ("join no type", "Join[true => $0]"), ("join two types", "Join[&Inner, &Left, true => $0]"), ("join post twice", "Join[&Inner, true, post_filter=true, post_filter=true => $0]"), ("join named", "Join[&Inner, true, %s=true => $0]" % z), ("join no cond", "Join[&Inner => $0]"), ("join sort enum", "Join[&AscNullsFirst, true => $0]"), ("set type", "Set[&%s => $0]" % z), ("set join enum", "Set[&Inner => $0]"), ("set none", "Set[ => $0]"), ("set two", "Set[&UnionAll, &UnionAll => $0]"), ("cross cond", "Cross[true => $0]"), ("cross arrow", "Cross[_ => $0]")):
        yield no("binary|" + k, HEAD + P + l + "\n" + R + R)
    # virtual tables
    for k, l in (("bare", "Read:Virtual[1 => %s:i64]" % a), ("none", "Read:Virtual[ => %s:i64]" % a), ("filter twice", "Read:Virtual[_, filter=true, filter=true => %s:i64]" % a), ("filter first", "Read:Virtual[filter=true, (1) => %s:i64]" % a)):
        yield no("virtual|" + k, HEAD + P + l + "\n")
    # roots
    for k, x in (("inner", "Filter[true => $0]\n  Root[%s]\n  " % z + R), ("root in root", "Root[%s, %s]\n  Root[%s, %s]\n  " % (z, a, z, a) + R), ("indented", "  Root[%s, %s]\n  " % (z, a) + R)):
        yield no("root|" + k, HEAD + P + x)
    # addenda and extensions
    for k, x in (("unregistered enh", "Filter[true => $0, $1]\n  + Enh:%s[1]\n" % z + R), ("unregistered opt", "Filter[true => $0, $1]\n  + Opt:%s[1]\n" % z + R), ("ext on filter", "Filter[true => $0, $1]\n  + Ext:X[1]\n" + R), ("two enh", "Filter[true => $0, $1]\n  + Enh:X[1]\n  + Enh:X[2]\n" + R), ("kind", "Filter[true => $0, $1]\n  + %s:X[1]\n" % z + R),
                 ("after child", "Filter[true => $0, $1]\n" + R + "  + Opt:X[1]\n"), ("no relation", "+ Opt:X[1]\n" + R0), ("on root", "Root[%s, %s]\n  + Opt:X[1]\n" % (z, a) + R), ("table without", "Read:Extension[%s:i64]\n" % a), ("table two", "Read:Extension[%s:i64]\n  + Ext:X[1]\n  + Ext:X[2]\n" % a), ("table unregistered", "Read:Extension[%s:i64]\n  + Ext:%s[1]\n" % (a, z)),
                 ("leaf unregistered", "ExtensionLeaf:%s[1 => %s:i64]\n" % (z, a)), ("leaf kind", "Extension%s:X[1]\n" % z), ("named twice", "ExtensionLeaf:X[%s=1, %s=2 => %s:i64]\n" % (z, z, a)), ("positional after named", "ExtensionLeaf:X[%s=1, 2 => %s:i64]\n" % (z, a)), ("opt named twice", "Filter[true => $0, $1]\n  + Opt:X[%s=1, %s=1]\n" % (z, z) + R), ("_ and more", "ExtensionLeaf:X[_, 1 => %s:i64]\n" % a), ("child of addendum", "Filter[true => $0, $1]\n  + Opt:X[1]\n    " + R0)):
        yield no("ext|" + k, HEAD + P + x)
    # layout
    for k, x in (("empty header", "===\n" + P + R0), ("unknown header", "=== %s\n" % z + P + R0), ("no plan header", R0), ("odd indent", P + "Filter[true => $0, $1]\n   " + R0), ("jump", P + "Filter[true => $0, $1]\n    " + R0), ("first indented", P + "  " + R0), ("tab", P + "Filter[true => $0, $1]\n\t" + R0),
                 ("version text", "=== Version %s\n" % z + P + R0), ("version two", "=== Version 1.2\n" + P + R0), ("version four", "=== Version 1.2.3.4\n" + P + R0), ("version none", "=== Version\n" + P + R0), ("version neg", "=== Version -1.2.3\n" + P + R0), ("version key", "=== Version 1.2.3\n  %s: x\n" % z + P + R0), ("version late", P + R0 + "=== Version 1.2.3\n"), ("version twice", "=== Version 1.2.3\n=== Version 1.2.3\n" + P + R0),
                 ("producer twice", "=== Version 1.2.3\n  producer: a\n  producer: b\n" + P + R0), ("hash twice", "=== Version 1.2.3\n  git_hash: a\n  git_hash: b\n" + P + R0), ("prose", "hello\n" + P + R0), ("prose in plan", P + "hello\n" + R0)):
        yield no("layout|" + k, x)


    for v in ("1.2.3.4", "1.2.3.x", "1.2.3.", "1.2.3..", ".1.2.3", "1..3", "1.2.x", "1,2,3", "v1.2.3", "1.2.3-rc", "1.2.3 x", "1 .2.3", "1. 2.3", "+1.2.3x", "1.2.3/4", "1.2.3.4.5", "0x1.2.3", "1.2.%s" % z, "%s.2.3" % z, "1.2.3.%s" % z, "1.-2.3", "1.2.-3", "4294967296.0.0", "0.4294967296.0", "0.0.4294967296", "1e1.2.3", "1_0.2.3", "\u0661.2.3"):
        yield no("version|%r" % v, "=== Version %s\n" % v + P + R0)
    for k, d in (("bare", "  x\n"), ("deep", "    producer: a\n"), ("flat", "producer: a\n"), ("hash flat", "git_hash: a\n"), ("case", "  Producer: a\n"), ("plural", "  producers: a\n"), ("equals", "  producer = a\n"), ("empty key", "  : a\n"), ("urn", "  @ 1: urn:a\n"), ("relation", "  " + R0),
                 ("twice", "  producer: a\n  git_hash: b\n  producer: a\n"), ("twice same", "  git_hash: b\n  git_hash: b\n"), ("triple", "  producer: a\n  producer: b\n  producer: c\n")):
        yield no("version detail|" + k, "=== Version 1.2.3\n" + d + P + R0)
    # repetitions that are not side by side
    for n in (2, 3, 4, 6):
        for i in range(n):
            for j in range(i + 1, n):
                names = ["k%d" % k for k in range(n)]
                names[j] = names[i]
                for q in (False, True):
                    l = ", ".join(('"%s"=%d' if q and k == j else "%s=%d") % (x, k) for k, x in enumerate(names))
                    yield no("repeated|leaf|%d %d %d %d" % (n, i, j, q), HEAD + P + "ExtensionLeaf:X[%s => %s:i64]\n" % (l, a))
                    if n in (2, 3):
                        yield no("repeated|leaf mixed|%d %d %d %d" % (n, i, j, q), HEAD + P + "ExtensionLeaf:X[1, %s]\n" % l)
                        for kind in ("Enh", "Opt"):
                            yield no("repeated|%s|%d %d %d %d" % (kind, n, i, j, q), HEAD + P + "Filter[true => $0, $1]\n  + %s:X[%s]\n" % (kind, l) + R)
                        yield no("repeated|Ext|%d %d %d %d" % (n, i, j, q), HEAD + P + "Read:Extension[%s:i64]\n  + Ext:X[%s]\n" % (a, l))
                if n <= 4:
                    anc = list(range(1, n + 1))
                    anc[j] = anc[i]
                    yield no("repeated|urn|%d %d %d" % (n, i, j), "=== Extensions\nURNs:\n" + "".join("  @ %d: urn:%d\n" % (x, k) for k, x in enumerate(anc)) + P + R0)
                    yield no("repeated|same urn|%d %d %d" % (n, i, j), "=== Extensions\nURNs:\n" + "".join("  @ %d: urn:%d\n" % (x, x) for x in anc) + P + R0)
                    for sec in ("Functions", "Types", "Type Variations"):
                        for same in (False, True):
                            yield no("repeated|%s|%d %d %d %d" % (sec, n, i, j, same), "=== Extensions\nURNs:\n  @ 1: urn:a\n%s:\n" % sec + "".join("  # %d @ 1: n%d\n" % (x, x if same else 10 + k) for k, x in enumerate(anc)) + P + R0)
    for k, l in (("lol", "limit=1, offset=2, limit=3"), ("olo", "offset=1, limit=2, offset=3"), ("lol same", "limit=1, offset=2, limit=1"), ("loo", "limit=1, offset=2, offset=2")):
        yield no("repeated|fetch|" + k, HEAD + P + "Fetch[%s => $0, $1]\n" % l + R)
    # declarations at another depth
    for ind in ("", " ", "   ", "    ", "     ", "      ", "\t", "  \t", "        "):
        yield no("depth|urn|%r" % ind, "=== Extensions\nURNs:\n" + ind + "@ 1: urn:a\n" + P + R0)
        yield no("depth|urn2|%r" % ind, "=== Extensions\nURNs:\n  @ 2: urn:b\n" + ind + "@ 1: urn:a\n" + P + R0)
        for sec in ("Functions", "Types", "Type Variations"):
            yield no("depth|%s|%r" % (sec, ind), "=== Extensions\nURNs:\n  @ 1: urn:a\n%s:\n%s# 10 @ 1: n\n" % (sec, ind) + P + R0)
            yield no("depth2|%s|%r" % (sec, ind), "=== Extensions\nURNs:\n  @ 1: urn:a\n%s:\n  # 11 @ 1: m\n%s# 10 @ 1: n\n" % (sec, ind) + P + R0)
            if ind:
                yield no("depth head|%s|%r" % (sec, ind), "=== Extensions\nURNs:\n  @ 1: urn:a\n%s%s:\n  # 10 @ 1: n\n" % (ind, sec) + P + R0)
        if ind:
            yield no("depth head|URNs|%r" % ind, "=== Extensions\n%sURNs:\n  @ 1: urn:a\n" % ind + P + R0)
    for hs in ("=== Plan", "=== Extensions", "=== Version 1.2.3"):
        for h2 in ("=== Plan", "=== Extensions", "=== Version 1.2.3"):
            order = ["=== Version 1.2.3", "=== Extensions", "=== Plan"]
            if order.index(h2) <= order.index(hs):
                yield no("order|%s,%s" % (hs, h2), hs + "\n" + h2 + "\n")
                yield no("order|%s,%s,relation" % (hs, h2), hs + "\n" + h2 + "\n" + (R0 if h2 == "=== Plan" else P + R0))
    for h in ("====", "=== plan", "=== PLAN", "=== Plans", "=== Plan x", "=== Plan:", "===Plan", "===  Plan", "== Plan", "=== Extension", "=== Extensions:", "===Extensions", "=== Version1.2.3", "=== version 1.2.3", " === Plan", "=== " + z, "=== Plan" + z, "=== Plan " + z, "=== Extensions " + z):
        if h.startswith("=== P") or h.startswith("===P") or h[0] in " =":
            yield no("header|%r" % h, h + "\n" + R0)
        yield no("header2|%r" % h, h + "\n" + P + R0)
    for h in ("URN:", "urns:", "URNs", "URNs :", "Function:", "functions:", "Functions", "Type:", "types:", "Type Variation:", "TypeVariations:", "Type variations:", "Variations:", z + ":", "URNs: x", "Functions: # 10 @ 1: f"):
        yield no("subheader|%r" % h, "=== Extensions\n" + h + "\n  @  1: urn:a\n" + P + R0)
        yield no("subheader2|%r" % h, "=== Extensions\nURNs:\n  @  1: urn:a\n" + h + "\n  # 10 @  1: f\n" + P + R0)
    for d in ("@ 1 urn:a", "@: urn:a", "@ x: urn:a", "@ -1: urn:a", "1: urn:a", "# 1: urn:a", "@ 1 2: urn:a", "@ 1.5: urn:a", "@ 4294967296: urn:a", "urn:a", "@ 1:", "@", "@ 1: ", "@ 1: a b"):
        if d != "@ 1: a b":
            yield no("urn|%r" % d, "=== Extensions\nURNs:\n  " + d + "\n" + P + R0)
    for d in ("# 10 @ 1 f", "# 10: f", "# 10 @: f", "# @ 1: f", "# x @ 1: f", "# 10 @ x: f", "# -1 @ 1: f", "# 10 @ -1: f", "10 @ 1: f", "@ 1 # 10: f", "# 10 # 1: f", "@ 10 @ 1: f", "# 10 @ 1:", "# 10 @ 1: ", "# 4294967296 @ 1: f", "# 10 @ 4294967296: f", "# 10 @ 1 2: f", "# 10 @ 1", "# 10", "#", "f", "# 10 @ 2: f", "# 10 @ 0: f"):
        for sec in ("Functions", "Types", "Type Variations"):
            yield no("declaration|%s|%r" % (sec, d), "=== Extensions\nURNs:\n  @  1: urn:a\n" + sec + ":\n  " + d + "\n" + P + R0)


# ================================================================ odd tokens
ODD = ["'", '"', "\\", "\t", "\0", "\u00e9", "\u2028", "\U0001f600", "(", ")", "[", "]", "<", ">", "$", "$99999999999", "-", "_", "null", "true", "1.", "99999999999999999999", "-99999999999999999999", ":", "&", "&X", "#", "@", "=>", "=", "+", "::", "//", "'\\x'", "'\\u{110000}'", "'\\u{'", '"\\"', "if_then(", "u!", "?", "|>", "->"]


SPACES = ["\u00a0", " \u00a0", "\u00a0 ", "\u00a0\u00a0", "  \u00a0", " \u3000", "\u3000", "\u2003", " \u2003 ", "\t", " \t", "\t ", "\t\t", "\x0b", "\x0c", " \x0c", "\r", " \r", "\u0085", " \u0085", "\u2028", " \u2028", "\ufeff", " \ufeff", "\u200b", " \u200b", " ", "   ", "\u00e9", " \u00e9",
          "\U0001f600", " \U0001f600", "   \U0001f600", "- ", "  - ", "    - ", "-", "+", "+ ", "  + ", "#", "@", "===", "=== ", "  ===", "\0", " \0"]


def soup_family(W):
    r = reg(W)
    for dn, text in docs(W):
        if dn not in ("root", "virtual-lines", "version", "exts", "addenda"):
            continue
        ls, ks = lines_of(text)
        for k in range(len(ls)):
            l = ls[k]
            if HEAD in text and l + "\n" in HEAD and dn != "filter":
                continue
            body = l.lstrip(" ")
            for sp in SPACES:
                for q, l2 in (("pre", sp + l), ("mid", l[:len(l) - len(body)] + sp + body), ("end", l + sp)):
                    yield S_("%s|%d %s %r" % (dn, k, q, sp), "any", join(ls, k, [l2]), r)
                yield S_("%s|%d extra %r" % (dn, k, sp), "any", join(ls, k, [sp, l]), r)
    for dn, text in docs(W):
        ls, ks = lines_of(text)
        head = HEAD in text
        lit = dn.startswith("lit") or dn.startswith("type")
        for k in ks:
            l = ls[k]
            if (head and l + "\n" in HEAD and dn != "filter") or (lit and "Read[" in l and dn.startswith("lit")):
                continue
            ts = tokens(l)
            for n, (s, e) in enumerate(ts):
                for j, o in enumerate(ODD):
                    if lit and n < 2:
                        continue
                    if (j + n + k) % 5 == 0:
                        yield S_("%s|%d:%d rep %r" % (dn, k, n, o), "any", join(ls, k, [l[:s] + o + l[e:]]), r)
                    elif (j + n + k) % 5 == 2:
                        yield S_("%s|%d:%d ins %r" % (dn, k, n, o), "any", join(ls, k, [l[:s] + o + l[s:]]), r)
                yield S_("%s|%d:%d cut" % (dn, k, n), "any", "\n".join(ls[:k] + [l[:e]]), r)
                yield S_("%s|%d:%d cutline" % (dn, k, n), "any", join(ls, k, [l[:e]]), r)


STRS = ["", " ", "x", "-", "T", ":", "::", "--", "\u00e9", "\u0661", "\\'", "\\\\", "\\n", "\\u{0}", "0", "-0", "9999999999999999999999999", "0000-00-00", "-0001-01-01", "+262142-12-31", "+262143-12-31", "+999999-01-01", "-262143-01-01", "-262144-01-01", "-999999-01-01", "10000-01-01", "+10000-01-01", "1970-01-01", "1969-12-31", "2024-02-30", "2024-00-01", "2024-01-00", "24-1-1", "2024-01-01 ", " 2024-01-01",
        "00:00:00", "23:59:59.999999999", "23:59:60", "23:59:60.5", "24:00:00", "00:00", "00:00:00.", "00:00:00.0000000000", "00:00:00.123456789012", "00:00:00.1234567890123", "-01:00:00", "0:0:0", "99:99:99",
        "1970-01-01T00:00:00", "+262142-12-31T23:59:59.999999999", "-262143-01-01T00:00:00", "9999-12-31T23:59:59.999999", "0001-01-01T00:00:00", "292277-01-09T04:00:54.775807", "+292278-01-01T00:00:00", "-290308-12-21T19:59:05", "2262-04-11T23:47:16.854775807", "2262-04-11T23:47:16.854775808", "1677-09-21T00:12:43.145224192", "1677-09-21T00:12:43.145224191", "1677-09-21T00:12:43", "1969-12-31T23:59:59.5", "1969-12-31T23:59:59.999999999999",
        "2024-01-01T00:00:00.1234567890123", "2024-01-01T", "T00:00:00", "2024-01-01T00:00:00+01:00", "2024-01-01T00:00:00Z", "2024-01-01 00:00:00", "2024-01-01T23:59:60",
        "1d", "0d", "-1d", "1s", "1ms", "1us", "1ns", "1ps", "1d 1s 1ps", "-2147483648d -2147483648s -9223372036854775808ns", "2147483648d", "1d  1s", "1d1s", "d", "s", "ms", "1", "1x", "1s 1d", "9223372036854775808ms", "P1D", "1y", "1m", "1y 1m"]
STYPES = ["date", "time", "timestamp", "timestamp_tz", "precisiontime<0>", "precisiontime<6>", "precisiontime<9>", "precisiontime<12>", "precisiontimestamp<0>", "precisiontimestamp<3>", "precisiontimestamp<6>", "precisiontimestamp<9>", "precisiontimestamp<12>", "precisiontimestamptz<0>", "precisiontimestamptz<9>", "precisiontimestamptz<12>",
          "interval_day<0>", "interval_day<3>", "interval_day<6>", "interval_day<9>", "interval_day<12>", "interval_year", "uuid", "string", "binary", "decimal<3,1>", "varchar<5>", "fixedchar<2>", "i64", "boolean", "fp64", "T", "list<i64>"]


def strs_family(W):
    r = reg(W)
    R = "  Read[%s => %s:i64]\n" % (W.id("t"), W.id("a"))
    for y in STYPES:
        for x in STRS:
            yield S_("%s|%r" % (y, x), "any", HEAD + "=== Plan\nProject['%s':%s]\n" % (x, y) + R, r)
            yield S_("%s?|%r" % (y, x), "any", HEAD + "=== Plan\nProject['%s':%s?]\n" % (x, y) + R, r) if "<" not in y else S_("%s|arg %r" % (y, x), "any", HEAD + "=== Plan\nFilter[f('%s':%s):boolean => $0]\n" % (x, y) + R, r)
        for x in ("1", "-1", "1.5", "true", "null", "0.1", "-0.0", "99999999999999999999", "9" * 400 + ".0", "0." + "0" * 400 + "1", "1.7976931348623159"):
            yield S_("%s|bare %.30s" % (y, x), "any", HEAD + "=== Plan\nProject[%s:%s]\n" % (x, y) + R, r)


FAMS = {"strs": strs_family, "numbers": number_family, "spell": spell_family, "refuse": refuse_family, "soup": soup_family}
