"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sbcheck.run import CHECKS
from tools.manifest_data import TECHNIQUE, NOT_APPLICABLE, PENDING

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS and p not in NOT_APPLICABLE:
        t, note = TECHNIQUE[p]
        checks.append({
            'property': p,
            'quick_cmd': 'python3 -W ignore -m sbcheck.run %s quick' % p,
            'thorough_cmd': 'python3 -W ignore -m sbcheck.run %s thorough' % p,
            'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': p, 'reason': NOT_APPLICABLE.get(p, PENDING)})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json, sys; '
     'assert sys.version_info >= (3, 8)"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. All checks analyse the source under /repo (or SBCHECK_REPO) '
              'with the standard library of python3 only.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
