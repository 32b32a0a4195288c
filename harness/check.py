#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's tree."""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[a.prop]
    sys.exit(vlib.run_check(a.prop, p["run"], p["level"], p["assumptions"],
                            "thorough" if a.tier == "thorough" else "quick", seed))
