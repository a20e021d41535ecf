#!/usr/bin/env python3-vt
"""freeze 0.9x the number of obligations of the last quick run of each property"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = {}
for e in sorted(glob.glob(H + '/evidence/[A-Z][0-9]*.json')):
    d = json.load(open(e))
    if d['tier'] == 'quick': f[d['property']] = int(d['coverage']['obligations'] * (.5 if d['property'] in ('A01', 'A02', 'D01', 'E01', 'H01', 'X01') else .9))     # the number of accesses depends on how the code is written
json.dump(f, open(H + '/floors.json', 'w'), indent=1)
print(f)
