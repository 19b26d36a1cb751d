#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   decide one property on /repo's current tree (static analysis only)."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.setrecursionlimit(20000)
from front import VERIF, AnalysisError
from ctx import Ctx


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + prop)
    c = Ctx(prop, tier)
    try:
        mod.run(c)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        # violations found before the analysis had to stop stand
        if not c.pending():
            return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        if not c.pending():
            return 2
    ev, rc = c.finish()
    json.dump(ev, open(os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"), prop + ".json"), "w"), indent=1)
    print("%s %s: %s (%s) in %.1fs" % (prop, tier, "violated" if rc else "holds", ", ".join("%s=%s" % kv for kv in sorted(c.counts.items())), ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
