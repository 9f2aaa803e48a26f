#!/usr/bin/env python3
"""python3-vt run.py <property> [quick|thorough] [--only HARNESS] [-v]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pysym.harness import main  # noqa
try:
    rc = main(sys.argv[1:])
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc or 0)
