"""Purity: parsing and formatting touch nothing but their arguments and results."""
import re
from reach import *

SPEC = dict(
    level="other",
    rule="call-graph closure of the public parse/format entry points over resolved MIR callees: no reachable body references file, network, "
         "process, environment, thread or standard-stream operations, global configuration of dependencies, or a static that can be written",
    assumptions=["user-supplied extension handlers are outside the property", "dependencies perform no I/O of their own on these paths"])

IO = re.compile(r"^(std::(fs|net|process|env|os|thread|io)::|std::io$|std::(print|eprint)|std::rt::|libc::|tokio|log::|tracing)|std::path::Path::(exists|is_file|is_dir|metadata|canonicalize|read_dir|read_link)"
                r"|^pest::set_(call_limit|error_detail)|^std::panic::(set_hook|take_hook|catch_unwind)|std::thread::LocalKey|std::alloc::set_alloc")
OKIO = re.compile(r"^std::io::(Error|ErrorKind)\b|^std::thread::panicking|^std::process::ExitCode|^std::rt::(begin_panic|panic_fmt|panic_display)")
MUTABLE = re.compile(r"Mutex|RwLock|Atomic|RefCell|\bCell<|OnceCell|OnceLock|UnsafeCell|LocalKey|static mut|mpsc::")


def run(ctx, rep):
    P = ctx.P
    ents = entries(P)
    rep.set("entry_points", len(ents))
    rep.floor("entry_points", 5)
    R = P.reachable(ents)
    rep.set("reachable_bodies", len(R))
    rep.floor("reachable_bodies", 900)
    ext = 0
    for fr, f, b in externals(P, R):
        ext += 1
        for p in (fr["p"], fr.get("full") or ""):
            if IO.search(p) and not OKIO.search(p):
                rep.violation("effect:%s:%s" % (f.file, fr["p"]), "%s (in %s): %s is an effect outside the arguments of parse/format; reached via %s" % (span_at(f, b), f.path, fr["p"], " -> ".join(P.chain(R, f.id)[-5:])))
                break
        else:
            rep.obligations += 1
    rep.set("external_references", ext)
    rep.floor("external_references", 2000)
    ns = 0
    for i in R:
        f = P.fns[i]
        for o, b in statics(P, f):
            ns += 1
            ty = P.types[o["c"]].s if "c" in o else ""
            k = [g for g in P.by_key.get(o["static"], [])]
            decl = (k[0].kind if k else "") + " " + (k[0].ty(0).s if k else "")
            if MUTABLE.search(ty) or "mutability: Mut" in decl or MUTABLE.search(decl) or ty.startswith("*mut"):
                rep.violation("static:%s" % o["staticp"], "%s (in %s): uses mutable global state `%s`" % (span_at(f, b), f.path, o["staticp"]))
    rep.set("static_references", ns)
    # positive example: the command line front end does perform I/O, and the rule must see it
    pos = 0
    for f in P.fns.values():
        for fr, b, _ in P._frefs(f):
            if IO.search(fr["p"]) and not OKIO.search(fr["p"]):
                pos += 1
    rep.set("io_references_elsewhere_in_crate", pos)
    rep.floor("io_references_elsewhere_in_crate", 5)
