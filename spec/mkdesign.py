#!/usr/bin/env python3
"""Assembles DESIGN.md: spec/design.md (prose) + per-property sections from the rule texts, evidence and seeds."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
from rules import texts
import importlib.util
prose = open(V + '/spec/design.md').read()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
seeds = {}
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s)); seeds.setdefault(m['property'], []).append((s, m))
res = json.load(open(V + '/spec/seedresults.json')) if os.path.exists(V + '/spec/seedresults.json') else {}
numf = V + '/spec/numbers.json'
nums = json.load(open(numf)) if os.path.exists(numf) else {}
out = []
for p in props:
    i = p['id']
    out.append('### %s — %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s.\n' % na[i]); continue
    out.append('*Method:* %s.\n' % texts.TECH[i])
    out.append(texts.RULE[i] + '\n')
    e = nums.get(i)
    if e:
        out.append('*Covers:* %(ob)d obligations, %(paths)d abstract paths, %(fns)d functions of the crate.\n' % e)
    ss = seeds.get(i, [])
    if ss:
        miss = [s for s, _ in ss if res.get(s) == 'MISSED']
        out.append('*Planted:* %d (%s)%s.\n' % (len(ss), ', '.join('`%s`' % s for s, _ in ss if s not in miss), '; not caught: ' + ', '.join('`%s`' % s for s in miss) if miss else ''))
prose = prose.replace("@@NSEEDS@@", str(sum(map(len, seeds.values()))))
prose = prose.replace('@@PROPERTIES@@', '\n'.join(out))
open(V + '/DESIGN.md', 'w').write(prose)
