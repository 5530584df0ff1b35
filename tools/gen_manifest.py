#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "rv"))
from checks import CHECKS, TECH
import subprocess
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if " hook:" in l]
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 rv/setup.py", "hooks": {"guard": "RODEO_VERIFY_HOOKS", "enable": "rv/rvlib.py compiles /repo's sources itself and passes -DRODEO_VERIFY_HOOKS for the drivers of the optimization (harness/ego.cpp)", "source_commits": HOOKS}, "checks": [], "not_applicable": []}
for i in ids:
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "check under construction"}); continue
    t, note = TECH[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 rv/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 rv/check.py %s --tier thorough" % i, "technique": t, "level": "exploration", "level_note": note})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
