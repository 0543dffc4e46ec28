import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from core import Ctx, Report, finish


def main():
    pid, d = sys.argv[1], sys.argv[2]
    t0 = time.time()
    mod = importlib.import_module("checks." + pid)
    rep = Report(pid)
    try:
        mod.run(Ctx(d), rep)
    except Exception:
        # fail closed: an analysis that cannot interpret the source has not shown the property
        traceback.print_exc()
        rep.violation("internal:" + traceback.format_exc().strip().splitlines()[-1][:80],
                      "the analysis could not be completed on this source: " + traceback.format_exc().strip().splitlines()[-1])
    return finish(rep, mod.SPEC, t0)


sys.exit(main())
