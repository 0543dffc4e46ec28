"""Runs families of abstract plans / texts through the template interpreter, on all cores, and judges the verdicts."""
import collections, json, multiprocessing, os, random, sys, time
from core import VERIF

NPROC = int(os.environ.get("SX_PROCS", "8"))
BUDGET = 400000
LATE = "not reached in time"
# seconds: what is not reached by then gives no verdict (and is counted in the evidence)
LIMIT = 660 if os.environ.get("VERIF_TIER") == "thorough" else 170
SMALL = 8000  # a family of fewer scenarios is always analysed first
_S = {}


def _work(i, n, fams):
    sys.setrecursionlimit(20000)
    import families
    from exact import Exact
    I = Exact(_S["P"], _S["G"])
    I.BUDGET = BUDGET
    W = families.Families(I)
    out = []
    seen = set()
    work = []
    for fam in fams:
        own = []
        for j, sc in enumerate(families.FAMS[fam](W)):
            if j % n == i and sc.key not in seen:
                seen.add(sc.key)
                own.append(sc)
        random.Random(i).shuffle(own)
        work.append((len(own), fam, own))
    # the small families first, the others mixed, so that what is not reached in time is a random part of the largest
    first = [(fam, sc) for n_, fam, own in work if n_ * n < SMALL for sc in own]
    rest = [(fam, sc) for n_, fam, own in work if n_ * n >= SMALL for sc in own]
    random.Random(i).shuffle(rest)
    for fam, sc in first + rest:
        k = sc.key
        t = time.time()
        if t > _S["end"]:
            out.append((fam, k, [("undecided", LATE, None)], 0))
            continue
        try:
            r = W.judge(sc)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # the interpreter does not know the construct: no verdict on this scenario
            I.stack.clear()
            I.fid = 0
            r = [("undecided", "%s: %s" % (type(e).__name__, e), None)]
        out.append((fam, k, [(v, d, W.shown(x) if x else x) for v, d, x in r], round(time.time() - t, 2)))
    return out, dict(I.unmodelled), len(I.fnseen)


def sweep(P, G, fams):
    _S["P"], _S["G"], _S["end"] = P, G, time.time() + LIMIT
    with multiprocessing.get_context("fork").Pool(NPROC) as p:
        rs = p.starmap(_work, [(i, NPROC, fams) for i in range(NPROC)], chunksize=1)
    res = []
    um = {}
    nf = 0
    for o, u, k in rs:
        res += o
        um.update(u)
        nf = max(nf, k)
    return res, um, nf
