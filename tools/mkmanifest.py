#!/usr/bin/env python3
"""Writes MANIFEST.json. LEVEL says which properties the verifier decides completely."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
PROOF = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
TECH = ('contract-based deductive verification: contracts on the real functions of /repo, obligations generated from '
        'their current source by a symbolic executor (vf/engine) and discharged by z3; the same contracts executed on '
        'concrete inputs to find the failing input, and as a bounded stand-in for what is outside the verifier\'s reach')
checks = []
for p in props:
    level, note = PROOF[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': f'python3 check.py {p["id"]}',
        'thorough_cmd': f'python3 check.py {p["id"]} --thorough',
        'technique': TECH if level == 'proof' or 'obligations' in note else
                     'contracts on the real functions, executed on concrete inputs (bounded stand-in; no deductive proof yet)',
        'level': level,
        'level_note': note,
    })
json.dump({
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': [],
    'notes': 'See DESIGN.md. No hooks in /repo. Known findings and fixes: known-findings.txt.',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
