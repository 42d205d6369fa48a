#!/usr/bin/env python3
"""python3 check.py P01 [quick|thorough] -- decide one property from the source in /repo"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings

warnings.simplefilter("ignore")

from sa import framework

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(framework.main(sys.argv[1].upper(), tier if tier in ("quick", "thorough") else "quick"))
