#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
NA = getattr(props, 'NA', [])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
files = os.listdir(os.path.join(HERE, 'checks'))
checks, na = [], []
for p in props.P:
    i = p['id']
    if any(f.startswith(i.lower() + '_') for f in files):
        note = props.NOTES.get(i, '') if hasattr(props, 'NOTES') else ''
        checks.append({
            'property': i, 'quick_cmd': './check.sh %s' % i,
            'thorough_cmd': './check.sh %s --thorough' % i,
            'technique': 'symbolic execution of the imported marxs source over SMT (z3 nlsat / '
                         'z3 / cvc5): every path within the bounds, every assertion decided for '
                         'all values by normal form or an SMT query; models replayed on the '
                         'unmodified code',
            'level': 'model_checking',
            'level_note': ('All paths and all real values within the stated bounds (list lengths '
                           'of 1-3 photons, listed rational orientations, stated input ranges), '
                           'over exact reals. Floating-point rounding is outside. ' + note).strip()})
    else:
        reason = dict((x['property'], x['reason']) for x in NA).get(
            i, 'check not built yet')
        na.append({'property': i, 'reason': reason})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check is ./check.sh <property> [--thorough]; it needs /opt/venv (the Python of '
              'the project) and the z3 module of /opt/veriftools/pyvenv. No hooks in /repo are used.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
