#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rule table and the list of properties not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import rules
NA = {
 'C40': "quantifies over arbitrary label texts: whether every text survives quoting, trimming and type inference is a fact about the csv crate's run-time behaviour on strings, not about a construct in this source",
 'C41': "quantifies over crash points of a multi-file dump: what is on disk after a crash is decided by the operating system's write-back order, and the code makes no ordering call (rename, fsync) that a static rule could start from",
 'C42': "a statement about probability distributions of sampled outputs; static analysis can bound which edges and labels can be produced (C31) but not their frequencies",
 'C43': "amortised and near-constant cost bounds quantify over run-time sizes and histories (hash tables, path compression); no sound static cost argument is in reach here",
}
TODO = "no sound static rule built for it yet"
from rules import texts
TECH = texts.TECH
NOTE = "Abstract interpretation of the compiler's MIR of the current tree against the property's abstract specification; all inputs, all abstract paths. Trusts rustc, the std/external-crate models and the interpreter; obligations reported undecided in the evidence are not claimed."
m = {'version': 1, 'setup_cmd': 'bash export.sh .build/facts-setup.json', 'checks': [], 'not_applicable': []}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in rules.TABLE:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': TECH.get(p, 'abstract interpretation of MIR with class invariants'), 'level': 'other', 'level_note': rules.NOTES.get(p, NOTE) if hasattr(rules, 'NOTES') else NOTE,
            'evidence_file': 'evidence/%s.json' % p})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, TODO)})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
