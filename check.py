#!/usr/bin/env python3-vt
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
from vp.driver import main

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
