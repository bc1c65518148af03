#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harness modules that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C32': 'NumPy/LAPACK floating-point rounding (reductions, lstsq, SVD) is compiled code with unspecified summation '
           'order; bit-precise encoding of it is out of reach of the solver, and the exact-real encoding used here says '
           'nothing about rounding',
}
NOTES = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'technique': 'path-exhaustive symbolic execution of the real sources with z3 deciding every obligation; '
                         'counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'holds for all values within the enumerated sizes/dimensions/modes (evidence: bounds); exact real '
                          'arithmetic, library models and z3 trusted, sampled paths validated against the real runtime',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Run from /verif. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
