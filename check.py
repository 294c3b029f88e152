#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--replay FILE]: exit 0 held, 1 violated (with a VIOLATION line), 2 machinery error"""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vlib import core
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
a = ap.parse_args()
try:
    sys.exit(core.run(a.property, a.tier, a.seed, a.replay))
except Exception:
    traceback.print_exc()
    sys.exit(2)
