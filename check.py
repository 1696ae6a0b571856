#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.check import main
import engines

REGISTRY = {}
for m in engines.modules():
    REGISTRY.update(m.REGISTRY)
if __name__ == "__main__":
    main(REGISTRY)
