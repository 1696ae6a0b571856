#!/usr/bin/env python3
"""Builds every driver, so that the checks find them (they build what is missing)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import build as B
os.makedirs(B.BUILD, exist_ok=True)
names = sorted(f[:-4] for f in os.listdir(B.HARNESS) if f.endswith(".cpp") and "_" not in f)
B.build(names)
print("built", ", ".join(names))
