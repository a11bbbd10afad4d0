#!/usr/bin/env python3
"""Decide one property of UTide from its source: check.py Cxx."""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from sa import harness

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    rules = importlib.import_module("sa.rules." + prop.lower())
    sys.exit(harness.main(prop, rules, tier, seed))
