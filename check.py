#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough]   run one property's static check against /repo"""
import os, sys, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.path.insert(0, os.path.join(V, "rules"))
sys.dont_write_bytecode = True
import core

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    for f in sorted(os.listdir(os.path.join(V, "rules"))):
        if f.endswith(".py"):
            importlib.import_module(f[:-3])
    sys.exit(core.run_check(pid, tier))
