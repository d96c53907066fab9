#!/usr/bin/env python3
"""cmp_baseline.py OUT.json: exit 1 when a stable test of /opt/vp/BASELINE.json did not pass."""
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o = json.load(open(sys.argv[1]))
miss = sorted(b - set(o['passed']))
print('stable', len(b), 'passed', len(o['passed']), 'missing', miss)
sys.exit(1 if miss else 0)
