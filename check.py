#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property of /repo by static analysis."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import report
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    mod = importlib.import_module("sa.rules." + pid.lower())
    sys.exit(report.run(pid, mod.run, tier))
