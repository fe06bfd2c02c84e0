#!/usr/bin/env python3
"""spec/numbers.json from the evidence of the last full run, spec/seedresults.json from a seed matrix log (argument)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = {}
for f in sorted(os.listdir(V + '/evidence')):
    if not f.endswith('.json'): continue
    e = json.load(open(V + '/evidence/' + f)); x = e['coverage']['explanation']
    m = re.search(r'(\d+) obligations discharged.*over (\d+) abstract paths; (\d+) functions', x)
    if m: n[e['property']] = {'ob': int(m[1]), 'paths': int(m[2]), 'fns': int(m[3])}
json.dump(n, open(V + '/spec/numbers.json', 'w'), indent=0)
if len(sys.argv) > 1:
    r = {}
    for l in open(sys.argv[1]):
        w = l.split()
        if w and w[0] in ('CAUGHT', 'MISSED'): r[w[1]] = w[0]
    json.dump(r, open(V + '/spec/seedresults.json', 'w'), indent=0)
