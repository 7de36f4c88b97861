#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from sa.registry import CHECKS
NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        s = CHECKS[p]
        checks.append({'property': p,
                       'quick_cmd': 'python3 check.py %s' % p,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'technique': 'static analysis: ' + s['technique'],
                       'level': 'other',
                       'level_note': s['note']})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 8))"',
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check parses /repo from source on each run; nothing of /repo is imported or executed.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
