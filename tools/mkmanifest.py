#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from checks import CHECKS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/check.py setup', 'checks': [], 'not_applicable': []}
if HOOKS: m['hooks'] = HOOKS
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'bounded symbolic execution of the real code\'s LLVM IR (own executor, z3), counterexamples replayed natively'),
            'level': 'model_checking', 'level_note': c.get('note') or ('Bounded, exhaustive within: ' + '; '.join(e['bound'] for e in c['quick'])) + '. ' + c.get('outside', '')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
