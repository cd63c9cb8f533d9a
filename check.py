#!/usr/bin/env python3
"""Run one check:  check.py P07 [--thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from pa import report
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.exit(report.main(prop, mod.run))
