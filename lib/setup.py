#!/usr/bin/env python3
"""Build every executable once (checks rebuild whatever /repo's tree has changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, table
want = {}
for runs in table.CHECKS.values():
    for r in runs:
        if r[2] != "py":
            want.setdefault(r[2], set()).add(r[0])
for v, names in sorted(want.items()):
    names = sorted(names)
    for n, p in zip(names, build.Builder(v).build_many([table.EXE[n] for n in names])):
        print(v, n, p)
