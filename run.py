#!/usr/bin/env python3
"""run.py <property> quick|thorough   |   run.py replay <file>"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import checks  # noqa: E402
import vlib  # noqa: E402


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        ctx = vlib.Ctx("replay", "quick")
        try:
            r = ctx.replay_one(v["worker"], v["behaviour"], v["params"])
        finally:
            ctx.close()
        print(json.dumps(r, indent=1, default=str) if r else "not reproduced")
        if r:
            print(f"VIOLATION property={v['property']} replay={sys.argv[2]}")
        return 1 if r else 0
    if sys.argv[1] == "selftest":
        return vlib.selftest()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return vlib.run_check(prop, tier, checks.CHECKS[prop])


if __name__ == "__main__":
    sys.exit(main())
