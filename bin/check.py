#!/usr/bin/env python3
"""check.py <property id>: decide one property against /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import checks

if __name__ == "__main__":
    p = sys.argv[1]
    vlib.main(p, checks.CHECKS[p])
