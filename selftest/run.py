#!/usr/bin/env python3
"""Runs the analyses on edited copies of the package.

selftest/run.py [P20 ...]   cases are in selftest/cases/<PID>*.py:
CASES = [(name, 'bad' | 'ok', [(file, old, new), ...]), ...]
'bad' edits break the property, 'ok' edits keep the behaviour.
"""
import ast
import glob
import importlib
import json
import multiprocessing
import os
import runpy
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
import resource                               # noqa: E402
resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
from sa.repo import AnalysisBroken, Repo      # noqa: E402
from sa.report import Report                  # noqa: E402
from sa.registry import CHECKS                # noqa: E402

with open(os.path.join(os.path.dirname(HERE), 'known_findings.json')) as f:
    KNOWN = {(k['property'], k['key']) for k in json.load(f)['findings']}


def plain(src):
    """the source without comments and docstrings, as ast.unparse has it"""
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant) and isinstance(
                        n.body[0].value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t) + '\n'


def verdict(pid, root):
    rep = Report(pid)
    try:
        repo = Repo(root)
        for m, f in CHECKS[pid]['analyses']:
            getattr(importlib.import_module(m), f)(repo, rep, 'quick')
    except AnalysisBroken as e:
        return 'broken', str(e)
    except Exception:
        return 'broken', traceback.format_exc()[-600:]
    new = [v for v in rep.violations if (pid, v['key']) not in KNOWN]
    if new:
        return 'bad', '; '.join(v['key'] + ': ' + v['message'][:120]
                                for v in new[:3])
    return 'ok', ''


def one(job):
    pid, name, expect, edits = job
    out = []
    tmp = tempfile.mkdtemp(prefix='selftest')
    root = os.path.join(tmp, 'r')
    try:
        shutil.copytree('/repo/brainstorm', root + '/brainstorm',
                        ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        done = set()
        for fn, old, new in edits:
            p = os.path.join(root, 'brainstorm', fn)
            s = open(p).read()
            if fn not in done and fn.endswith('.py'):
                s = plain(s)
            done.add(fn)
            if s.count(old) < 1:
                return 1, 'STALE %s %s: %r not in %s' % (pid, name, old, fn)
            s = s.replace(old, new, 1)
            if fn.endswith('.py'):
                ast.parse(s)
            open(p, 'w').write(s)
        got, why = verdict(pid, root)
        flag = 'ok  ' if got == expect else 'FAIL'
        return int(got != expect), '%s %s %-40s expect %-3s got %-6s %s' % (
            flag, pid, name, expect, got, why[:300])
    except SyntaxError as e:
        return 1, 'SYNTAX %s %s %s' % (pid, name, e)
    finally:
        shutil.rmtree(tmp)


def main():
    want = sys.argv[1:]
    jobs = []
    for f in sorted(glob.glob(os.path.join(HERE, 'cases', '*.py'))):
        pid = os.path.basename(f)[:3]
        if want and pid not in want and os.path.basename(f) not in want:
            continue
        for name, expect, edits in runpy.run_path(f)['CASES']:
            if os.environ.get('ONLY', expect) == expect:
                jobs.append((pid, name, expect, edits))
    fails = 0
    with multiprocessing.Pool(7, maxtasksperchild=1) as pool:
        for bad, line in pool.imap(one, jobs):
            fails += bad
            print(line, flush=True)
    print('%d cases, %d failures' % (len(jobs), fails))
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
