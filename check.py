#!/usr/bin/env python3
"""Entry point of all checks: check.py <property id>"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import lint
from registry import CHECKS

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn, tech = CHECKS[pid]
    m = importlib.import_module(mod)
    return lint.main(pid, tier, getattr(m, fn), tech)

if __name__ == "__main__":
    sys.exit(main())
