#!/usr/bin/env python3
"""Writes DESIGN.md; see its head."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from sa.registry import CHECKS
NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
rf = os.path.join(HERE, 'seeded_results.json')
res = json.load(open(rf)) if os.path.exists(rf) else {}
out = [open(os.path.join(HERE, 'design_head.md')).read()]
out.append('## Properties\n')
for p in props:
    pid = p['id']
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('%s\n' % p['statement'])
    if pid in CHECKS:
        s = CHECKS[pid]
        out.append('*Decided by*: %s.\n' % s['technique'])
        out.append('*How*: %s\n' % s['explain'])
        out.append('*Bounds*: %s\n' % s['note'])
        if s['assumptions']:
            out.append('*Assumes*: %s.\n' % '; '.join(s['assumptions']))
    else:
        out.append('**Not applicable**: %s\n' % NA[pid])
out.append('## Defects found and repaired\n')
out.append('Each was shown against the real code before the repair; each is '
           'one `fix:` commit in /repo.\n')
for f in kf['fixed']:
    f = f[len('fixed: property='):]
    pid, com, text = f.split(' ', 2)
    out.append('* %s `%s` %s' % (pid, com, text))
out.append('\nRecorded without repair: %s\n' % (
    '\n'.join('* %s' % x for x in kf['findings']) or 'none.'))
out.append('## Planted bugs\n')
out.append('Each compiles, passes the stable tests and comes with a '
           'demonstration that fails with it.\n')
out.append('| id | property | what it breaks | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    sid = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(sid)
    out.append('| %s | %s | %s | %s |' % (
        sid, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '),
        '?' if r is None else ', '.join(r) or '(missed)'))
tail = os.path.join(HERE, 'design_tail.md')
if os.path.exists(tail):
    out.append('\n' + open(tail).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
