#!/usr/bin/env python3
"""Builds the executor once, so that a first check only has to rebuild what depends on /repo."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import gen  # noqa: E402
work = os.path.join(V, "build")
os.makedirs(work, exist_ok=True)
for py in (False, True):
    for native in (False, True):
        gen.build(work, native, py)
