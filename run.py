#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    m = importlib.import_module("checks." + pid.lower())
    sys.exit(m.main())


main()
