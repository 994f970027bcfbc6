#!/usr/bin/env python3
"""Prebuilds every configuration and harness (checks rebuild incrementally whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import builder, checks
t = {}
for pid, k in checks.CHECKS.items():
    for r in k["runs"]("quick"): t.setdefault(r.cfg, set()).add(r.exe or k["exe"])
try: print("compiled", builder.build(t))
except builder.BuildError as e:
    print(e); sys.exit(1)
