#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from specs import CHECKS

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", "840" if tier == "quick" else "10800"))
    sys.exit(engine.run_check(pid, CHECKS[pid], tier, seed, budget))
main()
