"""Determinism: nothing that varies between runs reaches a result."""
import re
from reach import *
from facts import loc

SPEC = dict(
    level="other",
    rule="call-graph closure of the five public parse/format entry points over resolved MIR callees (calls, fn items, closures, trait methods "
         "reached through bounds of external callees, Drop): no reachable body may observe hash iteration order (any operation on HashMap/HashSet "
         "outside the order-insensitive set), time, environment, randomness, thread identity or addresses",
    assumptions=["user-supplied extension handlers are outside the property", "dependencies are deterministic functions of their arguments"])

# operations on a hash container whose result cannot depend on iteration order
SAFE = {"new", "with_capacity", "default", "clone", "get", "get_mut", "get_key_value", "contains_key", "contains", "insert", "remove", "remove_entry",
        "take", "entry", "len", "is_empty", "reserve", "clear", "extend", "from_iter", "collect", "eq", "ne", "index", "replace", "get_or_insert_with",
        "with_hasher", "with_capacity_and_hasher", "drop", "is_subset", "is_superset", "is_disjoint", "from", "capacity", "shrink_to_fit",
        "or_insert", "or_insert_with", "or_default", "and_modify", "or_insert_with_key", "insert_entry", "key", "into_mut", "get_or_insert"}
HASHY = re.compile(r"\b(std::collections::(hash_map::|hash_set::|hash::)?(HashMap|HashSet)|std::collections::hash_(map|set)::\w+)\b")
ENTRY = re.compile(r"std::collections::hash_map::(Entry|OccupiedEntry|VacantEntry)\b|hash_set::(Entry|OccupiedEntry|VacantEntry)")
CLOCK = re.compile(r"^(std::time::(Instant|SystemTime)|chrono::.*\bnow\b|chrono::(Local|offset::Local)|std::env::|std::thread::(current|ThreadId|Thread::id)|std::process::id|"
                   r"rand|getrandom|fastrand|uuid::|std::hash::(random|RandomState|DefaultHasher|BuildHasher)|std::collections::hash_map::(RandomState|DefaultHasher))"
                   r"|new_pointer|::type_id$|<\*(const|mut) T>::(addr|expose_provenance|to_raw_parts)|Pointer")
# confirmed by reading: iteration over the named-argument table of one relation line, only to name one argument left over after every name
# the grammar admits has been taken out
EXEMPT = [("src/parser/common.rs", re.compile(r"(HashMap::<|hash_map::\w+<('_, )?)&str, pest::iterators::Pair<"))]


HASHITER = re.compile(r"hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
# consumers of an iterator whose result does not depend on the order of the items
UNORDERED = {"any", "all", "count", "sum", "max", "min", "len", "size_hint", "is_empty", "product"}
# producing or adapting an iterator observes nothing yet
ADAPT = {"iter", "keys", "values", "into_iter", "into_keys", "into_values", "map", "filter", "filter_map", "cloned", "copied", "flatten", "flat_map",
         "chain", "by_ref", "as_ref", "inspect", "drain", "iter_mut", "values_mut", "union", "intersection", "difference", "symmetric_difference"}
PASS = {"as_ref", "as_mut", "map", "ok_or_else", "ok_or", "unwrap", "expect", "new_uninit", "take", "and_then", "unwrap_or_default", "branch",
        "from_residual", "from_output", "borrow", "deref", "deref_mut", "into", "get_or_init", "drop", "clone"}
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|sorted|sorted_by|sorted_by_key)$")
UNORD_RESULT = re.compile(r"::(collect|from_iter|sum|extend)::<.*?(std::collections::(HashMap|HashSet|BTreeMap|BTreeSet|hash_map|hash_set|BinaryHeap)\b|bool|usize)")


def strip_spans(s):
    return re.sub(r"@[^ ]+:\d+:\d+: \d+:\d+", "", s)


def sorted_after(P, f, b):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = f.blocks[x]["t"]
        if t["k"] == "call" and "fn" in t["f"]:
            fr = t["f"]["fn"]
            if SORT.search(fr["p"]) or (fr["name"] in ("from_iter", "collect", "from") and re.search(r"BTree(Map|Set)", fr.get("full") or "")):
                return True
        st += f.succs(x)
    return False


def judge(P, fr, f, b, full):
    """None, or how this operation exposes the iteration order of a hash container"""
    n = fr["name"]
    if HASHITER.search(full):
        if n in UNORDERED or n in ADAPT:
            return None
        if n in ("collect", "from_iter", "extend") and re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet)<", full.rsplit("::" + n, 1)[-1] + (full.split(" as ")[0] if n != "collect" else "")):
            return None
        if n in PASS and "Iterator" not in full:
            return None
        if sorted_after(P, f, b):
            return None
        return "consumes a hash container in iteration order with no sort after it"
    if n in ("extend", "from_iter") and re.search(r"::%s::<&?(mut )?std::collections::(HashMap|HashSet)<" % n, full) \
            and not re.match(r"<?(std::collections::)?(HashMap|HashSet|BTreeMap|BTreeSet|std::collections::\w+::\w+)", full) and not sorted_after(P, f, b):
        return "copies a hash container in iteration order with no sort after it"
    if n in SAFE or n in ADAPT or n in PASS or ENTRY.search(fr["p"]):
        return None
    if n in ("for_each", "fold", "fmt", "retain", "collect", "finish", "entries", "field", "debug_struct_field2_finish"):
        if n == "retain" or n == "collect":
            return None
        return "exposes the iteration order of a hash container"
    return None if n in ("call", "call_mut", "call_once", "box_new", "replace", "swap", "try_from", "branch", "from_residual") else "is an operation on a hash container that is not known to be independent of its iteration order"



def run(ctx, rep):
    P = ctx.P
    ents = entries(P)
    rep.set("entry_points", len(ents))
    rep.floor("entry_points", 5)
    R = P.reachable(ents)
    rep.set("reachable_bodies", len(R))
    rep.floor("reachable_bodies", 900)
    hashops = ext = 0
    for fr, f, b in externals(P, R):
        ext += 1
        full = fr.get("full") or fr["p"]
        where = "%s (in %s)" % (span_at(f, b), f.path)
        if f.derived:
            continue
        if CLOCK.search(fr["p"]):
            rep.violation("nondet:%s:%s" % (f.file, fr["p"]), "%s: %s makes the result of parse/format depend on something outside its arguments; reached via %s" % (where, fr["p"], " -> ".join(P.chain(R, f.id)[-5:])))
            continue
        if not HASHY.search(full):
            continue
        hashops += 1
        v = judge(P, fr, f, b, full)
        if v is None:
            rep.ok("%s: `%s` does not expose iteration order" % (where, full[:160]))
        elif any(f.file.endswith(x) and r.search(full) for x, r in EXEMPT):
            rep.notes.append("exempt: %s %s" % (where, full))
        else:
            rep.violation("hash-order:%s:%s" % (f.file, strip_spans(full)), "%s: `%s` %s; reached via %s" % (where, full, v, " -> ".join(P.chain(R, f.id)[-5:])))
    # casts of addresses to integers
    for i in R:
        f = P.fns[i]
        for bb in f.reach():
            for st in f.blocks[bb]["s"]:
                rv = st.get("rv")
                if rv and rv["k"] == "cast" and "Expose" in str(rv.get("ck")):
                    rep.violation("address:%s:%s" % (f.file, f.path), "%s: casts an address to an integer in %s" % (loc(f.span), f.path))
    rep.set("external_references", ext)
    rep.set("hash_container_operations", hashops)
    rep.floor("hash_container_operations", 12)
    rep.floor("external_references", 2000)
    # positive example: the rule must recognise an iteration (extension_names iterates a map, then sorts)
    pos = 0
    for f in P.fns.values():
        for fr, b, _ in P._frefs(f):
            if HASHY.search(fr.get("full") or "") and fr["name"] in ("iter", "keys", "values", "into_iter"):
                pos += 1
    rep.set("positive_examples_of_hash_iteration_in_crate", pos)
    rep.floor("positive_examples_of_hash_iteration_in_crate", 1)
