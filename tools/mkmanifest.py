#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = ('contract-based deductive verification of the real code: contracts '
        'in contracts/%s.py, obligations generated from /repo source on '
        'every run and discharged by engine/ (normal forms + z3); contract '
        'monitor supplies failing inputs')
BASE = ('Trusted: engine/ (instrumented shadow execution of the real source, '
        'term normal form, loop rule) with z3, the contracts on numpy/scipy/'
        'autograd primitives in engine/sym.py and engine/nplib.py; floats '
        'are real numbers. ')
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for p in PROPS:
    i = p['id']
    n = NOTES.get(i, {})
    if n.get('claim'):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH % i,
            'level': 'proof',
            'level_note': BASE + n['note']})
    else:
        na.append({'property': i, 'reason': n.get(
            'reason', 'contracts for this property are not discharged yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy"',
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md.  No hooks in /repo: the verifier reads '
                    'and instruments the source mechanically on every run.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
