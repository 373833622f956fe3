#!/usr/bin/env python3
"""python3 run.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   python3 run.py setup                       check that the tools are there
   python3 run.py replay FILE                 run the case of a replay file again
Exit 0: it held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
import core  # noqa: E402
import checks  # noqa: E402


def setup():
    for t in ("g++",):
        if not shutil.which(t):
            print("missing: " + t)
            return 2
    print("ok: %d checks" % len(checks.CHECKS))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    print(json.dumps(r, indent=1)[:8000])
    d = r["data"]
    if d.get("case") and isinstance(d["case"], list):
        case = [bytes.fromhex(x) for x in d["case"]]
        res, leak = core.host_run([case])
        print("now:", res[0] if not isinstance(res[0], core.Crash) else res[0].kind + "\n" + res[0].log)
        if leak:
            print(leak[0][1])
    elif "harness" in d:
        print("run again with: VERIF_SEED=%d python3 run.py %s %s" % (r["seed"], r["property"], r["tier"]))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return setup()
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        c = core.Check(prop, tier, seed, checks.LEVELS.get(prop, "exploration"))
        try:
            checks.CHECKS[prop](c)
        except core.HarnessError as e:
            if not c.viol:
                raise
            print("the run ended early: %s" % e)
        return c.finish()
    except core.HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
