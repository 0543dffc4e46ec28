"""Families of plan texts: documents covering the grammar, and what happens to each when a token, item or line of it is changed."""
import re
from exact import *
from scen import *


def S_(key, kind, *a):
    from families import Sc
    return Sc(key, kind, *a)


HEAD = "=== Extensions\nURNs:\n  @  1: urn:a\n  @  2: urn:b\nFunctions:\n  # 10 @  1: f\n  # 11 @  2: g\nTypes:\n  # 20 @  1: T\n\n"


def docs(W):
    """(name, text): every construct of the text format at least once, with class symbols for names"""
    i = W.id
    t, a, b = i("t"), i("a"), i("b")
    R = "Read[%s => %s:i64, %s:string?]" % (t, a, b)
    R2 = "Read[%s => %s:i64]" % (i("t2"), i("c"))
    pl = lambda *ls: "=== Plan\n" + "\n".join(ls) + "\n"
    ind = lambda n, s: "  " * n + s
    fx = lambda *ls: HEAD + pl(*ls)
    yield "read", pl(R)
    yield "read-path", pl("Read[%s.%s.\"x y\" => %s:i64]" % (i("p"), i("q"), a))
    yield "read-direct", pl("Read[%s +> %s:i64, %s:string? |> $1, $0]" % (t, a, b))
    yield "read-none", pl("Read[%s => ]" % t)
    yield "root", pl("Root[%s, %s]" % (i("x"), i("y")), ind(1, R))
    yield "root-quoted", pl('Root["a b", %s]' % i("y"), ind(1, R))
    yield "two", pl("Root[%s]" % i("x"), ind(1, R2), "Root[%s, %s]" % (i("y"), i("z")), ind(1, R), R)
    yield "filter", fx("Filter[f($0):boolean => $0, $1]", ind(1, R))
    yield "filter-direct", fx("Filter[f($0):boolean => $1]", ind(1, "Filter[true => $1, $0]"), ind(2, R))
    yield "project", fx("Project[$0, f($1):i64, 42]", ind(1, R))
    yield "join", fx("Join[&Inner, f($0, $2):boolean => $0, $1, $2]", ind(1, R), ind(1, R2))
    yield "join-post", fx("Join[&LeftSemi, f($0, $2):boolean, post_filter=g($0):boolean => $0, $1]", ind(1, R), ind(1, R2))
    yield "cross", pl("Cross[$0, $1, $2]", ind(1, R), ind(1, R2))
    yield "set", pl("Set[&UnionAll => $0]", ind(1, R2), ind(1, "Read[%s => %s:i64]" % (i("t3"), i("d"))))
    yield "fetch", pl("Fetch[limit=10, offset=5 => $0, $1]", ind(1, R))
    yield "fetch-limit", pl("Fetch[limit=10 => $0, $1]", ind(1, R))
    yield "fetch-expr", fx("Fetch[limit=f($0):i64, offset=g($0):i64 => $0, $1]", ind(1, R))
    yield "fetch-none", pl("Fetch[_ => $0, $1]", ind(1, R))
    yield "sort", pl("Sort[($0, &AscNullsFirst), ($1, &DescNullsLast) => $0, $1]", ind(1, R))
    yield "sort-expr", fx("Sort[(f($0):i64, &Clustered) => $0, $1]", ind(1, R))
    yield "agg", fx("Aggregate[$0, $1 => $0, f($1):i64, g():i64]", ind(1, R))
    yield "agg-sets", fx("Aggregate[($0), ($0, $1), _ => $0, $1, f($1):i64]", ind(1, R))
    yield "agg-none", fx("Aggregate[_ => f($1):i64]", ind(1, R))
    yield "virtual", fx("Read:Virtual[(1, 'x'), (2, 'y'), filter=f($0):boolean => %s:i64, %s:string]" % (a, b))
    yield "virtual-none", pl("Read:Virtual[_ => %s:i64]" % a)
    yield "virtual-lines", pl("Root[%s, %s]" % (i("x"), i("y")), "  Read:Virtual[", "    - (1, 'x'),", "    - (2, 'y')", "    - => %s:i64, %s:string]" % (a, b))
    yield "if", fx("Project[if_then(f($0):boolean -> $0, g($0):boolean -> 7, _ -> 8)]", ind(1, R))
    yield "cast", fx("Project[($0)::string, ($0)::?i32, ($0)::!T#20, (f($0):i64)::list<i64>]", ind(1, R))
    yield "call", fx("Project[f($0, g():T#20?, 'x', null:i64?):list<list?<i64?>>]", ind(1, R))
    yield "anchors", fx("Project[f#10@1($0):i64, g#11($0):u!T#20@1<i64, T>]", ind(1, R))
    lits = ["1", "-1", "1:i8", "2:i16", "3:i32", "4:i64?", "1.5", "2.5:fp32", "-0.5", "true", "false:boolean?", "'s'", "'it\\'s'", "null:i64?", "null:T#20?",
            "'2024-01-02':date", "'12:34:56.789':time", "'2024-01-02T03:04:05':timestamp", "'2024-01-02T03:04:05.678':precisiontimestamp<3>", "'2024-01-02T03:04:05':precisiontimestamptz<0>", "'12:34:56.789':precisiontime<3>",
            "'1d 2s 3ms':interval_day<3>"]
    for k, l in enumerate(lits):
        yield "lit%d" % k, HEAD + pl("Project[%s]" % l, ind(1, R2))
    tys = ["boolean", "i8?", "i16", "i32", "fp32", "fp64", "binary", "date", "time", "interval_year", "uuid", "timestamp", "timestamp_tz", "precisiontimestamp<6>", "precisiontimestamptz?<3>",
           "precisiontime<9>", "interval_day<6>", "list<i64?>", "list?<i64>", "list<list?<string>>", "T#20", "u!T", "T?", "T@1", "T#20@1?<i64, list<string?>>"]
    for k, y in enumerate(tys):
        yield "type%d" % k, HEAD + pl("Read[%s => %s:%s]" % (t, a, y))
    yield "version", "=== Version 0.62.3\n  producer: %s\n  git_hash: 0123abcd\n%s%s" % (i("pr"), HEAD, pl(R))
    yield "version-only", "=== Version 1.2.3\n" + pl(R)
    yield "exts", "=== Extensions\nURNs:\n  @  1: urn:a\nFunctions:\n  # 10 @  1: f\n  # 11 @  1: f:i64_i64\nTypes:\n  # 20 @  1: T\nType Variations:\n  # 30 @  1: V\n\n" + pl(R)
    yield "exts-urns", "=== Extensions\nURNs:\n  @  1: urn:a\n\n" + pl(R)
    # extensions
    yield "ext-leaf", HEAD + pl("ExtensionLeaf:X[1, 'x', &E, $0, f($0):i64, %s=2.5, %s=true => %s:i64, %s:string?]" % (i("k"), i("l"), a, b))
    yield "ext-tuple", HEAD + pl("ExtensionLeaf:X[(1, &E), ($0,), (), %s=((1, 2), null) => %s:i64]" % (i("k"), a))
    yield "ext-none", pl("ExtensionLeaf:X[_ => %s:i64]" % a)
    yield "ext-nocols", pl("ExtensionLeaf:X[1]")
    yield "ext-single", HEAD + pl("ExtensionSingle:X[%s=$0 => $0, f($1):i64, %s:i64]" % (i("k"), i("z1")), ind(1, R))
    yield "ext-multi", pl("ExtensionMulti:X[1 => $0, %s:i64]" % i("z1"), ind(1, R), ind(1, R2))
    yield "ext-table", pl("Read:Extension[%s:i64, %s:string?]" % (a, b), "  + Ext:X[1, %s=2]" % i("k"), "  + Enh:X[&E]", "  + Opt:X[5]")
    yield "addenda", HEAD + pl("Filter[f($0):boolean => $0, $1]", "  + Enh:X[1, %s='v']" % i("k"), "  + Opt:X[$0]", "  + Opt:X[_]", ind(1, R), "    + Opt:X[7]")
    yield "ext-quoted", pl('ExtensionLeaf:"a b"["k k"=1 => "c d":i64]')
    yield "deep", fx(*[ind(n, "Filter[f($%d):boolean => $1, $0]" % (n % 2)) for n in range(4)] + [ind(4, R)])
    yield "wide", pl("Set[&UnionDistinct => $0]", *[ind(1, "Read[%s => %s:i64]" % (i("w%d" % n), i("v%d" % n))) for n in range(4)])
    yield "tree", fx("Root[%s, %s]" % (i("x"), i("y")), ind(1, "Project[$0, $3]"), ind(2, "Join[&Left, f($0, $2):boolean => $0, $1, $2, $3]"), ind(3, "Filter[g($0):boolean => $0, $1]"), ind(4, R),
                  ind(3, "Cross[$0, $1]"), ind(4, R2), ind(4, "Read[%s => %s:i64]" % (i("t4"), i("e"))))


def reg(W):
    r = getattr(W, "_textreg", None)
    if r is None:
        ks = ("relation", "extension_table", "enhancement", "optimization")
        r = W._textreg = W.registry(*[(k, "X") for k in ks], ("relation", "a b"))
    return r


TOK = re.compile(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|===|=>|\+>|\|>|->|::|u!|&[A-Za-z]\w*|\$|-?\d+\.\d+|-?\d+|[A-Za-z_]\w*|[\ue000-\uf8ff]|\S")


def tokens(line):
    return [(m.start(), m.end()) for m in TOK.finditer(line)]


def lines_of(text):
    """(index, line) of the lines worth changing"""
    ls = text.split("\n")
    return ls, [k for k, l in enumerate(ls) if l.strip()]


def join(ls, k, new):
    return "\n".join(ls[:k] + new + ls[k + 1:])


def items(line):
    """spans of the comma-separated items at every bracket level"""
    out, stack, q = [], [], None
    start = 0
    for p, c in enumerate(line):
        if q:
            if c == q and line[p - 1] != "\\":
                q = None
            continue
        if c in "'\"":
            q = c
        elif c in "([<":
            stack.append(start)
            start = p + 1
        elif c in ")]>" and stack and not (c == ">" and line[p - 1] in "=+|-"):
            out.append((start, p))
            start = stack.pop()
        elif c == ",":
            out.append((start, p))
            start = p + 1
        elif line[p - 1:p + 1] in ("=>", "|>", "+>"):
            out.append((start, p - 1))
            start = p + 1
    return [(s, e) for s, e in out if line[s:e].strip()]


def mutations(W, text):
    """(key, text, fresh symbols the reader may not lose)"""
    z = W.id("zz")
    ls, ks = lines_of(text)
    head = HEAD in text
    for k in ks:
        l = ls[k]
        if head and l + "\n" in HEAD:
            continue
        body = l.lstrip(" ")
        pre = l[:len(l) - len(body)]
        for n, (s, e) in enumerate(tokens(l)):
            tk = W.shown(l[s:e])
            at = "%d:%d %s" % (k, n, tk)
            yield "del " + at, join(ls, k, [l[:s] + l[e:]]), ()
            yield "dup " + at, join(ls, k, [l[:e] + l[s:e] + l[e:]]), ()
            yield "dup2 " + at, join(ls, k, [l[:e] + " " + l[s:e] + l[e:]]), ()
            yield "ins " + at, join(ls, k, [l[:s] + z + " " + l[s:]]), (z,)
            yield "rep " + at, join(ls, k, [l[:s] + z + l[e:]]), (z,)
            yield "insnum " + at, join(ls, k, [l[:s] + "77 " + l[s:]]), ()
        for n, (s, e) in enumerate(items(l)):
            at = "%d:%d %s" % (k, n, W.shown(l[s:e]).strip())
            it = l[s:e].strip()
            yield "item2 " + at, join(ls, k, [l[:e] + ", " + it + l[e:]]), ()
            yield "itemz " + at, join(ls, k, [l[:e] + ", " + z + l[e:]]), (z,)
            yield "itemk " + at, join(ls, k, [l[:e] + ", " + z + "=1" + l[e:]]), (z,)
            yield "itemq " + at, join(ls, k, [l[:e] + ", '" + z + "'" + l[e:]]), (z,)
            yield "item0 " + at, join(ls, k, [l[:e] + "," + l[e:]]), ()
        at = "%d %s" % (k, W.shown(body.split("[")[0]))
        yield "tail " + at, join(ls, k, [l + " " + z]), (z,)
        yield "tail= " + at, join(ls, k, [l + z]), (z,)
        yield "tail] " + at, join(ls, k, [l + "]"]), ()
        yield "tail2 " + at, join(ls, k, [l + " " + body]), ()
        yield "tail# " + at, join(ls, k, [l + " # " + z]), (z,)
        yield "front " + at, join(ls, k, [pre + z + " " + body]), (z,)
        yield "cont " + at, join(ls, k, [l, pre + "  - " + z]), (z,)
        yield "cont2 " + at, join(ls, k, [l, pre + "  - " + body]), ()
        yield "cont0 " + at, join(ls, k, [l, pre + "- " + z]), (z,)
        yield "junk " + at, join(ls, k, [l, pre + z]), (z,)
        yield "junk+ " + at, join(ls, k, [l, pre + "  " + z]), (z,)
        yield "plus " + at, join(ls, k, [l, pre + "  + Opt:X['%s']" % z]), (z,)
        yield "plus0 " + at, join(ls, k, [l, pre + "+ Opt:X['%s']" % z]), (z,)
        yield "enh " + at, join(ls, k, [l, pre + "  + Enh:X['%s']" % z]), (z,)
        yield "line2 " + at, join(ls, k, [l, l]), ()
        yield "line0 " + at, join(ls, k, []), ()
        yield "indent " + at, join(ls, k, ["  " + l]), ()
        yield "indent1 " + at, join(ls, k, [" " + l]), ()
        yield "indent4 " + at, join(ls, k, ["    " + l]), ()
        if pre:
            yield "dedent " + at, join(ls, k, [l[2:]]), ()
        yield "header " + at, join(ls, k, [l, "=== " + z]), (z,)
        yield "child " + at, join(ls, k, [l, pre + "  Read[%s => %s:i64]" % (z, W.id("zc"))]), (z,)
        yield "sibling " + at, join(ls, k, [l, pre + "Read[%s => %s:i64]" % (z, W.id("zc"))]), (z,)
    yield "again", text + text, ()
    yield "end", text + z, (z,)
    yield "start", z + "\n" + text, (z,)
    for s in ("=== Plan\n", "=== Extensions\nURNs:\n  @  7: %s\n" % z, "=== Version 7.7.7\n", "=== Version 7.7.7\n  producer: %s\n" % z):
        yield "end " + W.shown(s.split("\n")[0]), text + s, (z,) if z in s else ()
        yield "start " + W.shown(s.replace("\n", "|")), s + text, (z,) if z in s else ()


def keep_family(W):
    r = reg(W)
    for dn, text in docs(W):
        yield S_("%s|base" % dn, "mut", text, None, (), r)
        seen = set()
        for k, t2, zs in mutations(W, text):
            if t2 == text or t2 in seen:
                continue
            seen.add(t2)
            yield S_("%s|%s" % (dn, k), "mut", t2, text, zs, r)


# ================================================================ where an error is reported
def layouts():
    """line layouts of a document: (key, function from its (line, tag) pairs to (line, tag) pairs, line end, ends with one)"""
    def around(before, after):
        def f(ls):
            out = []
            for l, t in ls:
                if t == "plan":
                    out += [(x, None) for x in before] + [(l, t)] + [(x, None) for x in after]
                else:
                    out.append((l, t))
            return out
        return f

    def spread(ls):
        out = []
        on = False
        for l, t in ls:
            if on:
                out.append(("", None))
            out.append((l, t))
            on = on or t == "plan"
        return out
    yield "plain", (lambda ls: ls), "\n", True
    yield "lead3", (lambda ls: [("", None)] * 3 + ls), "\n", True
    yield "crlf", (lambda ls: ls), "\r\n", True
    yield "blanks", spread, "\n", True
    yield "spaces", (lambda ls: [(l + "   ", t) for l, t in ls]), "\n", True
    yield "noeol", (lambda ls: ls), "\n", False
    yield "gap", around(["", "  ", ""], ["", ""]), "\n", True
    yield "crlfgap", around([""], [""]), "\r\n", True


def laid(ls, lay, eol, end):
    """ls: (line, tag) pairs -> (text, line numbers of the lines tagged "bad")"""
    out = lay(ls)
    return eol.join(l for l, t in out) + (eol if end else ""), [i + 1 for i, (l, t) in enumerate(out) if t == "bad" or t == "bad2"]


def faults(W, l):
    """(key, line with an error that belongs to it)"""
    z = W.id("zz")
    body = l.lstrip(" ")
    pre = l[:len(l) - len(body)]
    yield "front", pre + z + " " + body
    yield "only", pre + z
    yield "cut", l[:-1]
    yield "half", l[:len(pre) + max(1, len(body) // 2)]
    yield "tail", l + " " + z
    if "[" in body:
        yield "open", l.replace("[", "[[", 1)
        yield "name", pre + z + body[body.index("["):]
        if "$" in body:
            yield "bigref", re.sub(r"\$\d+", "$99999999999999999999", l, count=1)
            yield "lastref", re.sub(r"\$\d+(?!.*\$\d)", "$99999999999999999999", l, count=1)
        if re.search(r"\b[fg]\(", body):
            yield "nofun", re.sub(r"\b[fg]\(", z + "(", l, count=1)
        if ":i64" in body:
            yield "notype", l.replace(":i64", ":" + z, 1)
            yield "badtype", l.replace(":i64", ":map<i64, i64>", 1)
    if re.match(r"[#@]", body):
        yield "bigid", re.sub(r"\d+", "99999999999", l, count=1)
        yield "dupid", None
    if body.startswith("# "):
        yield "nourn", re.sub(r"@\s*\d+", "@ 99", l)


def misplaced(W):
    """(key, lines, numbers of the lines at fault): relations that are wrong as a whole, found only when the tree is built"""
    z, a = W.id("zz"), W.id("za")
    R = "  Read[%s => %s:i64, %s:i64]" % (W.id("t"), a, W.id("zb"))
    R1 = "  Read[%s => %s:i64]" % (W.id("t"), a)
    for k, l in (("filter", "Filter[true => $0]"), ("project", "Project[$0]"), ("fetch", "Fetch[limit=1 => $0]"), ("sort", "Sort[($0, &AscNullsFirst) => $0]"), ("agg", "Aggregate[$0 => $0]"), ("single", "ExtensionSingle:X[1 => $0]")):
        yield k + " none", [l], (0,)
        yield k + " two", [l, R, R], (0, 2)
        yield k + " four", [l, R, R, R, R], (0, 2, 3, 4)
        yield k + " opt none", [l, "  + Opt:X[1]"] if k != "single" else [l], (0,)
        yield k + " child", [l, "  Filter[f($0):%s => $0]" % z, "  " + R], (1,)
        yield k + " grandchild", [l, "  Filter[true => $0]", "    Read[%s => %s:%s]" % (a, a, z)], (2,)
        if k != "single":
            yield k + " opt", [l, "  + Enh:X[1]", "  + Opt:%s[1]" % z, R], (2,)
            yield k + " opt arg", [l, "  + Enh:X[1]", "  + Opt:X[f($0):%s]" % z, R], (2,)
            yield k + " two enh", [l, "  + Enh:X[1]", "  + Opt:X[1]", "  + Enh:X[1]", R], (1, 3)
            yield k + " ext", [l, "  + Opt:X[1]", "  + Ext:X[1]", R], (2,)
            yield k + " late", [l, R, "  + Opt:X[1]"], (2,)
            yield k + " opt child", [l, "  + Opt:X[1]", "  " + R], (2,)
        else:
            yield k + " opt", [l, "  + Opt:X[1]", R], (1,)
            yield k + " opts", [l, "  + Opt:X[1]", "  + Enh:X[1]", R], (1, 2)
    for k, l in (("join", "Join[&Inner, true => $0]"), ("cross", "Cross[$0]"), ("set", "Set[&UnionAll => $0]")):
        yield k + " none", [l], (0,)
        yield k + " one", [l, R], (0,)
        if k != "set":
            yield k + " three", [l, R, R, R], (0, 3)
        yield k + " right", [l, R, "  Filter[f($0):%s => $0]" % z, "  " + R], (2,)
        yield k + " left", [l, "  Filter[f($0):%s => $0]" % z, "  " + R, R], (1,)
        yield k + " opt", [l, "  + Opt:X[1]", "  + Opt:%s[1]" % z, R, R], (2,)
    yield "set widths", ["Set[&UnionAll => $0]", R, R1], (0, 2)
    yield "set widths3", ["Set[&UnionAll => $0]", R, R, R1], (0, 3)
    yield "set widths deep", ["Set[&UnionAll => $0]", R, "  Filter[true => $0]", "  " + R], (0, 2)
    for k, l in (("read", R[2:]), ("virtual", "Read:Virtual[(1) => %s:i64]" % a), ("leaf", "ExtensionLeaf:X[1 => %s:i64]" % a)):
        yield k + " child", [l, R], (0, 1)
        yield k + " children", [l, R, R], (0, 1, 2)
    yield "table child", ["Read:Extension[%s:i64]" % a, "  + Ext:X[1]", R], (0, 2)
    yield "table none", ["Read:Extension[%s:i64]" % a], (0,)
    yield "table enh only", ["Read:Extension[%s:i64]" % a, "  + Enh:X[1]"], (0,)
    yield "table opts only", ["Read:Extension[%s:i64]" % a, "  + Opt:X[1]", "  + Opt:X[1]"], (0,)
    yield "table two", ["Read:Extension[%s:i64]" % a, "  + Ext:X[1]", "  + Opt:X[1]", "  + Ext:X[1]"], (1, 3)
    yield "table unregistered", ["Read:Extension[%s:i64]" % a, "  + Opt:X[1]", "  + Ext:%s[1]" % z], (2,)
    yield "table opt", ["Read:Extension[%s:i64]" % a, "  + Ext:X[1]", "  + Opt:%s[1]" % z], (2,)
    yield "table column", ["Read:Extension[%s:%s]" % (a, z), "  + Ext:X[1]"], (0,)
    yield "leaf unregistered", ["ExtensionLeaf:%s[1 => %s:i64]" % (z, a)], (0,)
    yield "leaf opt", ["ExtensionLeaf:X[1 => %s:i64]" % a, "  + Opt:X[1]"], (1,)
    yield "multi", ["ExtensionMulti:X[1 => %s:%s]" % (a, z), R, R], (0,)
    yield "multi child", ["ExtensionMulti:X[1 => $0]", R, R1.replace("i64", z)], (2,)
    yield "negative limit", ["Fetch[limit=-1 => $0]", R], (0,)
    yield "negative offset", ["Fetch[limit=1, offset=-1 => $0]", R], (0,)
    yield "agg out", ["Aggregate[$0 => $1]", R], (0,)
    yield "virtual row", ["Read:Virtual[(f($0):%s) => %s:i64]" % (z, a)], (0,)
    yield "root inside", ["Filter[true => $0]", "  Root[%s]" % z, "  " + R], (1,)
    yield "jump", ["Filter[true => $0]", "    " + R], (1,)


def misplaced_family(W):
    r = reg(W)
    ok = ["Filter[true => $0]", "  Read[%s => %s:i64]" % (W.id("u"), W.id("ua"))]
    for k, ls, bad in misplaced(W):
        top = [(l, "bad" if i in bad else None) for i, l in enumerate(ls)]
        sub = [("  " + l, t) for l, t in top]
        g = [(l, None) for l in ok]
        for cn, body in (("top", top), ("after", g + top), ("before", top + g), ("between", g + top + g), ("under", [("Project[$0]", None)] + sub), ("root", [("Root[%s]" % W.id("zr"), None)] + sub),
                         ("right", [("Cross[$0]", None)] + [("  " + l, None) for l in ok] + sub), ("left", [("Cross[$0]", None)] + sub + [("  " + l, None) for l in ok])):
            if cn == "left" and any(w in k for w in ("late",)):
                continue
            for ln, lay, eol, end in layouts():
                if ln not in ("plain", "gap", "blanks", "crlf") or cn not in ("top", "right") and ln != "blanks":
                    continue
                t2, at = laid([(l, None) for l in HEAD.split("\n")[:-1]] + [("=== Plan", "plan")] + body, lay, eol, end)
                yield S_("%s|%s|%s" % (k, cn, ln), "err", t2, at, r)


LINE_DOCS = ("read", "root", "two", "filter", "project", "join-post", "cross", "set", "fetch", "sort-expr", "agg", "virtual", "virtual-lines", "version", "exts", "ext-leaf", "ext-single", "ext-table", "addenda", "deep", "tree", "cast", "if", "lit17", "lit10")


def line_family(W):
    r = reg(W)
    for dn, text in docs(W):
        if dn not in LINE_DOCS and not dn.startswith("lit"):
            continue
        ls, ks = lines_of(text)
        while ls and not ls[-1]:
            ls.pop()
        pl = ls.index("=== Plan")

        def build(k, new, bad, lay, eol, end):
            """the document with the lines `new` in place of line k, those numbered in `bad` being the wrong ones"""
            tagged = [(l, "plan" if i == pl else None) for i, l in enumerate(ls[:k])]
            for j, l in enumerate(new):
                tagged.append((l, "plan" if k == pl and j == 0 and j not in bad else "bad" if j in bad else None))
            tagged += [(l, "plan" if i == pl else None) for i, l in list(enumerate(ls))[k + 1:]]
            if dn == "virtual-lines" and k >= 1:
                # a relation written over several lines is quoted whole, from its first line
                tagged = [(l, "bad" if l.lstrip(" ").startswith("Read:Virtual") else t) for l, t in tagged]
            return laid(tagged, lay, eol, end)
        for ln, lay, eol, end in layouts():
            if dn.startswith("lit") and ln not in ("plain", "gap"):
                continue
            for k in ks:
                if HEAD in text and dn != "filter" and ls[k] + "\n" in HEAD:
                    continue
                for fk, l2 in faults(W, ls[k]):
                    t2, at = build(k, [ls[k], ls[k]], (1,), lay, eol, end) if l2 is None else build(k, [l2], (0,), lay, eol, end)
                    yield S_("%s|%s|%d %s" % (dn, ln, k, fk), "err", t2, at, r)
                # an extra line in a place of its own
                if k > pl and not (dn == "virtual-lines" and 2 <= k < 5):
                    pre = ls[k][:len(ls[k]) - len(ls[k].lstrip(" "))]
                    for fk, l2 in (("deeper", pre + "        Read[%s => %s:i64]" % (W.id("zz"), W.id("zc"))), ("noplus", pre + "        + Opt:X[1]"), ("unk", pre + "  " + W.id("zz") + "[]"), ("unreg", pre + "  + Opt:" + W.id("zz") + "[1]"), ("enh2", pre + "  + Enh:X[1]\n" + pre + "  + Enh:X[2]"), ("===", "=== " + W.id("zz"))):
                        new = l2.split("\n")
                        # of two addenda of which one may stand, either is the one too many
                        t2, at = build(k, [ls[k]] + new, tuple(range(1, len(new) + 1)), lay, eol, end)
                        yield S_("%s|%s|%d+ %s" % (dn, ln, k, fk), "err", t2, at, r)


FAMS = {"keep": keep_family, "lines": line_family, "misplaced": misplaced_family}
