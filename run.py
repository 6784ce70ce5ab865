#!/usr/bin/env python3
"""Runs one registered check: python3 run.py C01"""
import importlib
import os
import sys
import traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "checks"))
sys.path.insert(0, os.path.join(here, "lib"))
if __name__ == "__main__":
    try:
        rc = importlib.import_module(sys.argv[1].lower()).main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
