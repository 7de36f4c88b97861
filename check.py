#!/usr/bin/env python3
"""Decide one property of /repo from its source:  check.py P01 [--tier T]

exit 0  the property holds on everything analysed
exit 1  VIOLATION line(s) printed, replay file written
exit 2  no verdict (the tree cannot be analysed / an anchor vanished)
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.repo import AnalysisBroken, Repo          # noqa: E402
from sa.report import Report                      # noqa: E402
from sa.registry import CHECKS                    # noqa: E402


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    if pid not in CHECKS:
        print('unknown property %s' % pid)
        return 2
    spec = CHECKS[pid]
    t0 = time.time()
    rep = Report(pid)
    broken = None
    try:
        repo = Repo(a.repo)
    except Exception:
        traceback.print_exc()
        print('NO VERDICT property=%s: the source cannot be read' % pid)
        return 2
    for modname, fn in spec['analyses']:
        # what an analysis cannot digest is undecided, like any construct it
        # does not understand; what was decided before that stands
        try:
            mod = importlib.import_module(modname)
            getattr(mod, fn)(repo, rep, a.tier)
        except AnalysisBroken as e:
            broken = str(e)
        except Exception:
            traceback.print_exc()
            broken = traceback.format_exc().strip().splitlines()[-1]
        if broken:
            rep.undecided.append('%s.%s stopped: %s' % (modname, fn, broken))
            print('UNDECIDED property=%s: %s.%s stopped: %s' % (
                pid, modname, fn, broken))
    if broken and not rep.violations and not sum(rep.counts.values()):
        print('NO VERDICT property=%s: nothing could be decided' % pid)
        return 2
    wall = time.time() - t0
    known = {k['key']: k for k in known_findings() if k['property'] == pid}
    new = [v for v in rep.violations if v['key'] not in known]
    old = [v for v in rep.violations if v['key'] in known]
    total = sum(rep.counts.values())
    ev = {
        'property': pid,
        'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': spec.get('level', 'other'),
        'coverage': {
            'explanation': spec['explain'],
            'rules_applied': rep.rules,
            'obligations': total,
            'obligations_per_rule': rep.counts,
            'functions_analysed': len(rep.analysed),
            'functions': sorted(rep.analysed)[:400],
            'obligation_samples': rep.samples[:200],
            'undecided': rep.undecided[:100],
            'undecided_count': len(rep.undecided),
        },
        'wall_s': round(wall, 3),
        'assumptions': spec.get('assumptions', []),
        'violations': len(new),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print('property %s: %d obligations over %d functions, rules: %s '
          '(%.2f s)' % (pid, total, len(rep.analysed),
                        ', '.join('%s=%d' % kv for kv in
                                  sorted(rep.counts.items())), wall))
    if a.v:
        for s in rep.samples:
            print('   ok', s)
        for s in rep.undecided:
            print('   undecided', s)
    for v in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (
            pid, v['construct'], v['message']))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.json')
        if not a.no_evidence:
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1)
        for v in new:
            print('  [%s] %s: %s  (%s)' % (v['rule'], v['construct'],
                                           v['message'], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
