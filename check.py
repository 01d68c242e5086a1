#!/usr/bin/env python3
"""usage: check.py <property id>      (VERIF_SEED, VERIF_TIER in the environment)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib, checks
if __name__ == '__main__':
    pid = sys.argv[1]
    c = vlib.Check(pid)
    getattr(checks, pid)(c)
    sys.exit(c.execute())
