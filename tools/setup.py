#!/usr/bin/env python3
"""Builds everything the checks run, so that each of them only rebuilds what a change of /repo affects."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mon import build as B

for step in ("cli", "probe", "shim", "clock"):
    print(getattr(B, step)())
for name in ("impatient", "fast"): print(B.preload(name))
for kind in ("thread", "address"):
    print(B.sanitized(kind))
B.miri()
