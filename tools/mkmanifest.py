#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and specs.SPECS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import SPECS
RT_NOTE = ('bounded: the contracts are evaluated at run time on the real code over random instances of every '
           'pattern class, mode and history; no obligation is discharged yet')
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p == 'C24':
        continue
    s = SPECS.get(p)
    checks.append({
        'property': p,
        'quick_cmd': 'python3 bin/check.py %s --tier quick' % p,
        'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p,
        'technique': ('contract-based deductive verification: VC generation from the real Python source, z3/cvc5'
                      if s else 'contracts on the real functions, evaluated at run time (bounded stand-in)'),
        'level': s.get('level', 'proof') if s else 'exploration',
        'level_note': s['note'] if s else RT_NOTE,
    })
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
     'hooks': {'guard': 'PARAGAMI_VERIF', 'enable': 'no hooks: /repo is verified as it is', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': 'C24', 'reason':
        'the contracts are over mathematical reals: no contract within reach of the installed verifiers can express '
        'or decide the rounding error of exp, log and LAPACK calls'}]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
