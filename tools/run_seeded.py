#!/usr/bin/env python3
"""Runs every check against every planted bug (each in a scratch copy of
/repo's tracked files) and records which checks report it.  Authoring only."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from sa.registry import CHECKS


def one(sid):
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        wt = tmp + '/repo'
        subprocess.check_call('mkdir %s && git -C /repo archive HEAD | tar x -C %s'
                              % (wt, wt), shell=True)
        subprocess.check_call(['git', 'init', '-q'], cwd=wt)
        subprocess.check_call(['git', 'apply',
                               '%s/seeded/%s/patch.diff' % (ROOT, sid)], cwd=wt)
        hit = []
        for p in sorted(CHECKS):
            r = subprocess.run([sys.executable, 'check.py', p, '--repo', wt,
                                '--no-evidence'], cwd=ROOT,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=600)
            if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout:
                hit.append(p)
            elif r.returncode:
                hit.append('%s:exit%d' % (p, r.returncode))
        return sid, hit
    finally:
        shutil.rmtree(tmp)


rf = os.path.join(HERE, 'seeded_results.json')
res = json.load(open(rf)) if os.path.exists(rf) else {}
ids = sys.argv[1:] or [os.path.basename(os.path.dirname(d)) for d in
                       glob.glob(ROOT + '/seeded/*/meta.json')]
with ThreadPoolExecutor(7) as ex:
    for sid, hit in ex.map(one, sorted(ids)):
        res[sid] = hit
        m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, sid)))
        print(sid, m['property'], 'CAUGHT' if m['property'] in hit else 'missed', hit)
json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
