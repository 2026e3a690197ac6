#!/usr/bin/env python3
"""Pre-builds the library variants (an optimisation only: every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
for v in ("asan",):
    try:
        check.build_lib(v)
    except Exception as e:
        print("setup: %s: %s" % (v, e))
