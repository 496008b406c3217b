#!/usr/bin/env python3
"""check.py <property id> <quick|thorough>     one property
   check.py --replay evidence/replay/<file>    rerun the case of a violation
   check.py --setup                            build everything
"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
from build import build, BuildError


def main():
    if sys.argv[1] == "--setup":
        for v, f in (("plain", False), ("asan", False), ("pat", False), ("plain", True)):
            print("built", v, len(build(v, fortran=f)))
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        m = importlib.import_module("checks." + d["property"].lower())
        ck = core.Check(d["property"], "replay", **m.META)
        m.check(ck, only=d["case"])
        for key, text, _ in ck.viol:
            print("  [%s] %s" % (key, text))
        print("violations:", len(ck.viol), "known:", [k["key"] for k in ck.known_hit])
        return 1 if ck.viol else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module("checks." + pid.lower())
    ck = core.Check(pid, tier, **m.META)
    m.check(ck)
    if ck.evals == 0 and not ck.viol:
        print("nothing was observed")
        return 3
    return ck.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)[-3000:])
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
