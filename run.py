#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--only HARNESS] [--keep DIR] [-v] | --setup"""
import argparse, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, checks

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--setup", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
ap.add_argument("--keep")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
rc = 0
try:
    if a.setup:
        core.build_engine()
    for pid in a.ids or ([] if a.setup else sorted(checks.CHECKS)):
        r = core.run_property(pid, checks.CHECKS[pid], a.tier, int(os.environ.get("VERIF_SEED", "1") or 1), {}, a.only, a.keep, a.v)
        rc = max(rc, r) if r != 1 else 1 if rc != 2 else rc
except core.Broken as e:
    print("ERROR", e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
