#!/usr/bin/env python3
"""Run the static check of one property: check.py <property id>."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
import facts, rules


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    C = rules.Ctx(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        C.R.rule = " ".join(mod.__doc__.split())
        mod.run(C)
    except rules.Missing as e:
        print("error: anchor not found: %s" % e)
        rc = C.R.finish()
        return rc if rc == 1 else 2
    except facts.FactsError as e:
        print("error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return C.R.finish()


if __name__ == "__main__":
    sys.exit(main())
