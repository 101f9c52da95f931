#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from vp import core, checks

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
c = checks.CHECKS[prop]
budget = float(os.environ.get("VP_BUDGET", 780 if tier == "quick" else 6 * 3600))
sys.exit(core.run_check(prop, c["jobs"]() if callable(c["jobs"]) else c["jobs"], tier, c["explanation"],
                        c["assumptions"], budget, c.get("outside", "")))
