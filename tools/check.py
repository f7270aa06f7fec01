#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

CHECKS = {}
for fn in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if fn.startswith("checks_") and fn.endswith(".py"):
        CHECKS.update(importlib.import_module(fn[:-3]).CHECKS)

if __name__ == "__main__":
    sys.exit(vlib.main(CHECKS))
