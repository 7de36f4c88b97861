#!/usr/bin/env python3
"""Authoring helper: plant a bug in a scratch copy, confirm it, keep it.

usage: plant.py ID SPEC.py      SPEC defines EDITS=[(file, old, new)...],
PROPERTY, NEEDS, BREAKS, DEMO (python source).
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=t, text=True)


def main():
    sid, spec = sys.argv[1], sys.argv[2]
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(ROOT, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='plant_')
    wt = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', wt])
        for f, old, new in ns['EDITS']:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', wt).stdout
        assert diff.strip()
        dd = os.path.join(tmp, 'demo')
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(ns['DEMO'])
        open(dd + '/demo.sh', 'w').write(
            '#!/bin/bash\n# exit 0: behaves as documented\n'
            'PY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
            'PYTHONPATH="$PWD" exec "$PY" "$(dirname "$0")/demo.py"\n')
        r0 = sh('bash %s/demo.sh' % dd, '/repo')
        print('demo on unchanged tree: %d' % r0.returncode)
        if r0.returncode:
            print(r0.stdout[-2000:])
            return 1
        if any(f.endswith('.pyx') for f, _, _ in ns['EDITS']):
            r = sh('rm -rf build brainstorm/handlers/_cpuop.c '
                   'brainstorm/handlers/_cpuop.*.so; /opt/venv/bin/python '
                   'setup.py build_ext --inplace', wt)
            if r.returncode:
                print(r.stdout[-1500:])
        r1 = sh('bash %s/demo.sh' % dd, wt)
        print('demo with change: %d %s' % (r1.returncode,
                                           r1.stdout.strip()[-300:]))
        if r1.returncode == 0:
            return 1
        if '--notest' not in sys.argv:
            t = sh('. /opt/vp/env.sh; PYTHONPATH=%s $PY -m pytest -c '
                   '/opt/vp/pytest.ini --rootdir=%s -q -p no:cacheprovider '
                   '--timeout=300 --continue-on-collection-errors '
                   '-o junit_family=xunit2 --junitxml=%s/t.xml brainstorm; '
                   '/usr/bin/python3 /opt/vp/results.py %s/out.json '
                   'junit:%s/t.xml' % (wt, wt, tmp, tmp, tmp), wt)
            o = json.load(open(tmp + '/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            bs = base.get('stable') or base.get('passed') or base
            fails = [x for x in (o.get('failed') or [])]
            passed = set(o.get('passed') or [])
            lost = [x for x in bs if x not in passed] if isinstance(bs, list) else fails
            print('tests lost: %d %s' % (len(lost), lost[:5]))
            if lost:
                return 1
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(dd + '/demo.py', d)
        shutil.copy(dd + '/demo.sh', d)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'],
                   'what_it_breaks': ns['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        sys.path.insert(0, ROOT)
        from sa.registry import CHECKS
        caught = []
        for p in sorted(CHECKS):
            r = sh('python3 %s/check.py %s --repo %s --no-evidence' %
                   (ROOT, p, wt), ROOT)
            if r.returncode:
                caught.append((p, r.returncode))
                print(r.stdout.strip()[-600:])
        print('KEPT %s; caught by %s (own: %s)' % (
            sid, caught, ns['PROPERTY'] in [c[0] for c in caught]))
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    sys.exit(main())
