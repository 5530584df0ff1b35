#!/usr/bin/env python3
"""python3 rv/check.py <property id> [--tier quick|thorough] [--seed N]   (run from /verif)"""
import argparse, os, sys, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rvlib
from checks import CHECKS

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.tier == "quick": rvlib.deadline = t0 + 780   # a verdict on what was seen beats none
    spec = CHECKS[a.id]
    scratch = tempfile.mkdtemp(prefix="rv_%s_" % a.id, dir=os.environ.get("RV_SCRATCH", "/tmp"))
    os.chmod(scratch, 0o755)
    try:
        rc = spec(a.id, a.tier, a.seed, scratch, t0, a.scale)
    except rvlib.Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (a.id, e)); rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        rvlib.prune()
    sys.exit(rc)

if __name__ == "__main__":
    main()
