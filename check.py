#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Exit 0: every obligation discharged.  Exit 1 with a VIOLATION line: some
obligation fails.  Exit 2: the analysis could not be carried out.
"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from bsa.build import AnalysisBroken  # noqa: E402
from bsa.report import Report  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + prop.lower())
    rep = Report(prop, tier, seed, getattr(mod, "LEVEL", "other"))
    try:
        mod.run(rep)
        return rep.finish("python3 check.py %s --tier %s" % (prop, tier))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
