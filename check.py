#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]: decide one property statically on /repo."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
import front, report


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    r = report.Report(prop, tier)
    try:
        mod = importlib.import_module("p_" + prop.lower())
        mod.run(r)
    except front.AnalysisError as e:
        if r.obl == 0:
            print("ERROR property=%s: %s" % (prop, e))
            return 2
        r.undecided("analysis", "stopped early: %s" % e)
    except Exception as e:
        traceback.print_exc()
        if r.obl == 0:
            print("ERROR property=%s: analysis crashed" % prop)
            return 2
        r.undecided("analysis", "stopped early: %s: %s" % (type(e).__name__, e))
    if r.obl == 0:
        print("ERROR property=%s: nothing was analysed" % prop)
        return 2
    return report.finish(r, getattr(mod, "LEVEL", "other"))


if __name__ == "__main__":
    sys.exit(main())
