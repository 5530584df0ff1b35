#!/usr/bin/env python3
"""Warms the object cache (not needed for correctness: each check builds what it needs from /repo's current tree)."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rvlib
for t in ("g++", "gcc", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
os.makedirs(rvlib.BUILD, exist_ok=True)
os.makedirs(os.path.join(rvlib.VERIF, "evidence"), exist_ok=True)
try:
    rvlib.build("asan", ["lin.cpp", "rv.cpp"], ["LinearAlgebra"])
except rvlib.Inconclusive as e:
    print("warning:", e)
print("setup done")
