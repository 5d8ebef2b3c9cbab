#!/usr/bin/env python3
"""Warms the compilation cache (the checks rebuild whatever changed in /repo)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build
import checks
build.ensure_engine()
try:
    pairs = sorted(set((c.harness, c.variant) for s in checks.CHECKS.values() for c in s["configs"]))
    mods = {}
    for s in checks.CHECKS.values():
        k = repr(s.get("modules"))
        mods.setdefault(k, (s.get("modules"), set()))[1].update((c.harness, c.variant) for c in s["configs"])
    for m, hs in mods.values():
        build.ir(sorted(set(v for h, v in hs)), sorted(hs), m)
except build.BuildError as e:
    print("note: %s" % e)
try:
    for s in checks.CHECKS.values():
        for h, v, m in sorted(set((c.harness, c.variant, "thr" if c.mode == "thr" else "rel") for c in s["configs"])):
            build.native(h, v, m, s.get("modules"))
except build.BuildError as e:
    print("note: %s" % e)
