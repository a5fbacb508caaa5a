#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property of /repo's working tree by static analysis."""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(80000)
import threading

threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from sa import harness

    pid = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.tier == "thorough":
        harness.BUDGET, harness.ONE = 0, 600
    chk = harness.Check(pid, a.tier, seed)
    mod = importlib.import_module("sa.rules." + pid.lower())
    try:
        expl = mod.run(chk)
    except Exception:
        # a rule that cannot be evaluated at all decides nothing; what was decided before still counts
        tb = traceback.format_exc()
        chk.undecided.append(("rule", "rule evaluation", [tb.strip().splitlines()[-1]], tb))
        d = chk.rules.setdefault("rule evaluation", {"obligations": 0, "discharged": 0, "violated": 0, "undecided": 0, "partitions": 0})
        d["obligations"] += 1
        d["undecided"] += 1
        expl = "the rule evaluation stopped early: " + tb.strip().splitlines()[-1]
        if os.environ.get("VERIF_TB"):
            print(tb)
    return chk.finish(expl)


if __name__ == "__main__":
    rc = [2]

    def go():
        rc[0] = main()

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
