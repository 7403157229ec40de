#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib.util, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    os.environ["VERIF_TIER"] = tier
    from prog import AnalysisError
    from report import Report
    spec = importlib.util.spec_from_file_location(prop, os.path.join(HERE, "checks", prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    R = Report(prop, tier)
    try:
        mod.run(R, tier)
        rc = R.finish()
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return R.finish() or 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal" % prop)
        return R.finish() or 2
    return rc


sys.exit(main())
