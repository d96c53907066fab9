#!/usr/bin/env python3
"""Warms the build of the simulator's dependencies; every check builds what it needs by itself."""
import os, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
with tempfile.TemporaryDirectory() as w:
    check.build_all([('std', 'C01', 1, 4), ('all', 'C01', 1, 4), ('nostd', 'C01', 1, 4), ('hook', 'C16', 1, 4)], w)
print('simulator builds')
