#!/usr/bin/env python3
"""Builds every harness crate against /repo so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

bad = 0
root = os.path.join(vlib.VERIF, "harness")
for c in sorted(os.listdir(root)):
    d = os.path.join(root, c)
    if os.path.exists(os.path.join(d, "Cargo.toml")):
        r = vlib.build_crate(d)
        print(c, "ok" if r.returncode == 0 else r.stdout[-3000:])
        bad |= r.returncode != 0
sys.exit(1 if bad else 0)
