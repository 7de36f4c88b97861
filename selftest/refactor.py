"""Behaviour preserving edits, file by file: which checks change their mind?

    python3 selftest/refactor.py OUT.jsonl [transformation|all] [file part]

Every transformation rewrites all functions of one module of a scratch copy;
the checks have to stay quiet.  With TESTS=1 the stable tests are run as
well, to see that the edit is one that preserves behaviour."""
import ast
import builtins
import glob
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
BASE = '/repo/brainstorm'
N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return '%s_%d' % (p, N[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def pure(e):
    return all(isinstance(x, (
        ast.Name, ast.Constant, ast.Attribute, ast.Compare, ast.BinOp,
        ast.UnaryOp, ast.operator, ast.unaryop, ast.cmpop, ast.expr_context,
        ast.Tuple, ast.Subscript, ast.BoolOp, ast.boolop, ast.Slice))
        for x in ast.walk(e))


def own(fn):
    """nodes of the function without those of nested functions"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(x))


def blocks(fn):
    for x in [fn] + list(own(fn)):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def rename(fn, tree):
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
        return False
    args = {a.arg for x in ast.walk(fn) if isinstance(x, (
        ast.FunctionDef, ast.Lambda)) for a in x.args.args + x.args.kwonlyargs
        + [y for y in (x.args.vararg, x.args.kwarg) if y]}
    loc = {x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(
        x.ctx, ast.Store)} - args
    if not loc:
        return False
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id += '_v'
    for x in ast.walk(fn):
        if isinstance(x, ast.ExceptHandler) and x.name in loc:
            x.name += '_v'
    return True


def tempret(fn, tree):
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and \
                    not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh()
                b[i:i + 1] = [ast.Assign([name(t, 1)], s.value),
                              ast.Return(name(t))]
                did = True
    return did


def tempargs(fn, tree):
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) \
                else None
            if not isinstance(c, ast.Call) or not pure(c.func) or isinstance(
                    c.func, ast.Name) and c.func.id == 'super' or isinstance(
                    s, ast.Assign) and not pure(s.targets[0]):
                continue
            if any(isinstance(a, ast.Starred) for a in c.args) or any(
                    k.arg is None for k in c.keywords):
                continue
            pre = []
            for k, a in enumerate(c.args):
                if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda,
                                      ast.GeneratorExp)):
                    t = fresh()
                    pre.append(ast.Assign([name(t, 1)], a))
                    c.args[k] = name(t)
            for k in c.keywords:
                if not isinstance(k.value, (ast.Constant, ast.Name,
                                            ast.Lambda, ast.GeneratorExp)):
                    t = fresh()
                    pre.append(ast.Assign([name(t, 1)], k.value))
                    k.value = name(t)
            if pre:
                b[i:i] = pre
                did = True
    return did


def swapif(fn, tree):
    did = False
    for x in own(fn):
        if isinstance(x, ast.If) and x.orelse and not (
                len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.body, x.orelse = x.orelse, x.body
            x.test = ast.UnaryOp(ast.Not(), x.test)
            did = True
    return did


def early(fn, tree):
    """if c: return A; rest -> if c: return A; else: rest"""
    did = False
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                did = True
                break
    return did


def lateelse(fn, tree):
    """if c: return A; else: B -> if c: return A; B"""
    def one():
        for b in list(blocks(fn)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and s.orelse and isinstance(
                        s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                    return True
    did = False
    while one():
        did = True
    return did


def loops(fn, tree):
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if not isinstance(v, (ast.ListComp, ast.DictComp)) or len(
                    v.generators) != 1:
                continue
            g = v.generators[0]
            t = fresh('acc')
            if isinstance(v, ast.ListComp):
                st = ast.Expr(ast.Call(ast.Attribute(
                    name(t), 'append', ast.Load()), [v.elt], []))
                ini = ast.List([], ast.Load())
            else:
                st = ast.Assign([ast.Subscript(name(t), v.key, ast.Store())],
                                v.value)
                ini = ast.Dict([], [])
            # the variables of the comprehension are its own
            ren = {x.id: x.id + '_c' for x in ast.walk(g.target)
                   if isinstance(x, ast.Name)}
            for n in [st, g.target] + g.ifs:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            for c in reversed(g.ifs):
                st = ast.If(c, [st], [])
            loop = ast.For(g.target, g.iter, [st], [])
            s.value = name(t)
            b[i:i] = [ast.Assign([name(t, 1)], ini), loop]
            did = True
    return did


def unifexp(fn, tree):
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                    s.value, ast.IfExp) and (isinstance(
                        s, ast.Return) or pure(s.targets[0])):
                e = s.value
                mk = (lambda v: ast.Return(v)) if isinstance(
                    s, ast.Return) else (lambda v: ast.Assign(s.targets, v))
                b[i] = ast.If(e.test, [mk(e.body)], [mk(e.orelse)])
                did = True
    return did


def ifexp(fn, tree):
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 \
                    and all(isinstance(x, ast.Assign) and isinstance(
                        x.targets[0], ast.Name) and len(x.targets) == 1
                        for x in s.body + s.orelse) and s.body[0].targets[
                            0].id == s.orelse[0].targets[0].id:
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(
                    s.test, s.body[0].value, s.orelse[0].value))
                did = True
    return did


def nest(fn, tree):
    did = False
    for x in own(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(
                x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            a, rest = x.test.values[0], x.test.values[1:]
            x.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(
                ast.And(), rest), x.body, [])]
            x.test = a
            did = True
    return did


def flipcmp(fn, tree):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
         ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(
                x.ops[0]) in m and pure(x.left) and pure(x.comparators[0]):
            x.left, x.comparators = x.comparators[0], [x.left]
            x.ops = [m[type(x.ops[0])]()]
            did = True
    return did


def helper(fn, tree):
    """the body moves to a new method / function"""
    for owner in ast.walk(tree):
        b = getattr(owner, 'body', None)
        if isinstance(owner, (ast.ClassDef, ast.Module)) and isinstance(
                b, list) and fn in b:
            break
    else:
        return False
    a = fn.args
    if fn.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or (
            fn.name.startswith('__') and fn.name not in (
                '__init__', '__call__')) or len(fn.body) < 2:
        return False
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn)):
        return False
    new = '_%s_impl' % fn.name.strip('_')
    ps = [x.arg for x in a.args]
    doc = []
    body = fn.body
    if isinstance(body[0], ast.Expr) and isinstance(body[0].value,
                                                    ast.Constant):
        doc, body = body[:1], body[1:]
    if isinstance(owner, ast.ClassDef):
        if not ps or ps[0] != 'self':
            return False
        f, ps2 = ast.Attribute(name('self'), new, ast.Load()), ps[1:]
        if any(isinstance(x, ast.FunctionDef) and x.name == new
               for x in owner.body):
            return False
        new = '_%s_%s' % (owner.name.lower(), new)
        f.attr = new
    else:
        f, ps2 = name(new), ps
    impl = ast.FunctionDef(new, ast.arguments(
        posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body, [])
    impl.args.args = [ast.arg(p, None) for p in ps]
    impl.args.posonlyargs = []
    impl.args.kwonlyargs, impl.args.kw_defaults, impl.args.defaults = [], [], []
    impl.args.vararg = impl.args.kwarg = None
    fn.body = doc + [ast.Return(ast.Call(f, [name(p) for p in ps2], []))]
    owner.body.insert(owner.body.index(fn) + 1, impl)
    return True


def items(fn, tree):
    did = False
    for x in own(fn):
        if isinstance(x, ast.For) and isinstance(
                x.target, ast.Tuple) and len(x.target.elts) == 2 and \
                isinstance(x.iter, ast.Call) and isinstance(
                    x.iter.func, ast.Attribute) and x.iter.func.attr == \
                'items' and not x.iter.args and isinstance(
                    x.target.elts[0], ast.Name) and pure(x.iter.func.value):
            d = x.iter.func.value
            k, v = x.target.elts
            x.target = k
            x.iter = ast.Call(ast.Attribute(d, 'keys', ast.Load()), [], [])
            x.body.insert(0, ast.Assign([v], ast.Subscript(
                d, name(k.id), ast.Load())))
            did = True
    return did


def join(fn, tree):
    """a = X; b = Y -> a, b = X, Y"""
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 2, -1, -1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and
                   isinstance(x.targets[0], ast.Name) and pure(x.value)
                   for x in (s, t)) and not any(
                       isinstance(x, ast.Name) and x.id == s.targets[0].id
                       for x in ast.walk(t.value)) and \
                    s.targets[0].id != t.targets[0].id:
                b[i:i + 2] = [ast.Assign([ast.Tuple(
                    [s.targets[0], t.targets[0]], ast.Store())], ast.Tuple(
                        [s.value, t.value], ast.Load()))]
                did = True
    return did


def reorder(fn, tree):
    """swap neighbouring definitions of locals that do not depend on one
    another"""
    did = False
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and
                   isinstance(x.targets[0], ast.Name) and pure(x.value)
                   for x in (s, t)):
                n1, n2 = s.targets[0].id, t.targets[0].id
                r1 = {x.id for x in ast.walk(s.value)
                      if isinstance(x, ast.Name)}
                r2 = {x.id for x in ast.walk(t.value)
                      if isinstance(x, ast.Name)}
                if n1 not in r2 and n2 not in r1 and n1 != n2:
                    b[i], b[i + 1] = t, s
                    did = True
                    i += 1
            i += 1
    return did


def consts(fn, tree):
    """numbers become constants of the module"""
    did = False
    new = []
    for x in own(fn):
        for f, v in ast.iter_fields(x):
            if isinstance(v, ast.Constant) and isinstance(
                    v.value, float) and not isinstance(x, ast.arguments):
                c = fresh('CONST').upper()
                new.append(ast.Assign([name(c, 1)], v))
                setattr(x, f, name(c))
                did = True
            elif isinstance(v, list) and not isinstance(x, ast.arguments):
                for k, y in enumerate(v):
                    if isinstance(y, ast.Constant) and isinstance(
                            y.value, float):
                        c = fresh('CONST').upper()
                        new.append(ast.Assign([name(c, 1)], y))
                        v[k] = name(c)
                        did = True
    k = 0
    for k, s in enumerate(tree.body):
        if not (isinstance(s, ast.ImportFrom) or isinstance(
                s, ast.Import) or isinstance(s, ast.Expr)):
            break
    tree.body[k:k] = new
    return did


_sig = {}


def signatures():
    if not _sig:
        t = ast.parse(open(BASE + '/handlers/base_handler.py').read())
        for c in t.body:
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        _sig[f.name] = [a.arg for a in f.args.args[1:]]
    return _sig


def positional(fn, tree):
    did = False
    sg = signatures()
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute) and x.func.attr in sg and x.keywords \
                and not any(k.arg is None for k in x.keywords):
            ps = sg[x.func.attr]
            kw = {k.arg: k for k in x.keywords}
            for p in ps[len(x.args):]:
                if p not in kw:
                    break
                x.args.append(kw[p].value)
                x.keywords.remove(kw[p])
                did = True
    return did


def keywords(fn, tree):
    did = False
    sg = signatures()
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute) and isinstance(
                    x.func.value, ast.Name) and x.func.value.id in (
                    '_h', 'handler', 'h') and x.func.attr in sg:
            ps = sg[x.func.attr]
            if len(x.args) > 1 and len(ps) >= len(x.args):
                x.keywords = [ast.keyword(p, a) for p, a in zip(
                    ps[1:], x.args[1:])] + x.keywords
                del x.args[1:]
                did = True
    return did


def alias(fn, tree):
    """self.x, read several times and never written, is read once"""
    if not fn.args.args or fn.args.args[0].arg != 'self' or not fn.body:
        return False
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn)):
        return False
    reads, bad = {}, set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(
                x.value, ast.Name) and x.value.id == 'self':
            if isinstance(x.ctx, ast.Load):
                reads.setdefault(x.attr, []).append(x)
            else:
                bad.add(x.attr)
        if isinstance(x, ast.AugAssign) and isinstance(
                x.target, ast.Attribute):
            bad.add(x.target.attr)
    # attributes that no method assigns later: options
    cls = [c for c in ast.walk(tree) if isinstance(c, ast.ClassDef) and
           fn in c.body]
    if not cls or fn.name == '__init__':
        return False
    init = {x.attr for f in cls[0].body if isinstance(
        f, ast.FunctionDef) and f.name == '__init__' for x in ast.walk(f)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    later = {x.attr for f in cls[0].body if isinstance(
        f, ast.FunctionDef) and f.name != '__init__' for x in ast.walk(f)
        if isinstance(x, ast.Attribute) and isinstance(
            x.ctx, (ast.Store, ast.Del))}
    did = False
    pre = []
    for a, xs in sorted(reads.items()):
        if len(xs) > 1 and a not in bad and a in init and a not in later:
            t = a.strip('_') + '_local'
            pre.append(ast.Assign([name(t, 1)], ast.Attribute(
                name('self'), a, ast.Load())))
            for x in xs:
                x.__class__ = ast.Name
                x.id = t
                del x.attr, x.value
            did = True
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(
        fn.body[0].value, ast.Constant) else 0
    fn.body[k:k] = pre
    return did


def boolret(fn, tree):
    """assert c, m -> if not c: raise AssertionError(m)"""
    did = False
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assert):
                b[i] = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(
                    ast.Call(name('AssertionError'),
                             [s.msg] if s.msg else [], []), None)], [])
                did = True
    return did


def enum(fn, tree):
    """for i, x in enumerate(s) -> for i in range(len(s)): x = s[i]"""
    did = False
    for x in own(fn):
        if isinstance(x, ast.For) and isinstance(
                x.iter, ast.Call) and isinstance(
                x.iter.func, ast.Name) and x.iter.func.id == 'enumerate' \
                and len(x.iter.args) == 1 and isinstance(
                    x.iter.args[0], ast.Name) and isinstance(
                        x.target, ast.Tuple):
            s = x.iter.args[0]
            i, v = x.target.elts
            x.target = i
            x.iter = ast.Call(name('range'), [ast.Call(name('len'), [s],
                                                       [])], [])
            x.body.insert(0, ast.Assign([v], ast.Subscript(
                s, name(i.id), ast.Load())))
            did = True
    return did


def splitor(fn, tree):
    """if a or b: raise -> two ifs"""
    did = False
    for b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.test, ast.BoolOp) and isinstance(
                    s.test.op, ast.Or) and isinstance(s.body[-1], (
                        ast.Return, ast.Raise, ast.Continue)):
                import copy
                b[i:i + 1] = [ast.If(v, copy.deepcopy(s.body), [])
                              for v in s.test.values]
                did = True
    return did


def noop(fn, tree):
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(
        fn.body[0].value, ast.Constant) else 0
    fn.body.insert(k, ast.Assign([name('_unused', 1)], ast.Constant(0)))
    return True


ALL = [rename, tempret, tempargs, swapif, early, lateelse, loops, unifexp,
       ifexp, nest, flipcmp, helper, items, join, reorder, consts,
       positional, keywords, alias, boolret, enum, splitor, noop]


def rewrite(src, tr):
    N[0] = 0
    tree = ast.parse(src)
    did = False
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        did = bool(tr(fn, tree)) or did
    if not did:
        return None
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    ast.parse(out)
    return out


def analyse(root):
    from sa.repo import Repo
    from sa.report import Report
    from sa.registry import CHECKS
    out = {}
    for pid in sorted(CHECKS):
        rep = Report(pid)
        broken = None

        def to(*a):
            raise RuntimeError('timeout')
        signal.signal(signal.SIGALRM, to)
        signal.alarm(300)
        try:
            repo = Repo(root)
            for mm, fn in CHECKS[pid]['analyses']:
                getattr(importlib.import_module(mm), fn)(repo, rep, 'quick')
        except Exception as e:
            broken = repr(e)[:200] + traceback.format_exc()[-300:]
        signal.alarm(0)
        out[pid] = (sum(rep.counts.values()), [
            v['key'] + ' ' + v['message'][:200] for v in rep.violations],
            len(rep.undecided), broken, rep.undecided[:3])
    return out


def job(x):
    f, tr, base = x
    src = open(os.path.join(BASE, f)).read()
    try:
        new = rewrite(src, tr)
    except Exception as e:
        return {'f': f, 't': tr.__name__, 'err': repr(e)}
    if new is None:
        return None
    tmp = tempfile.mkdtemp(prefix='ref_')
    root = tmp + '/r'
    res = {'f': f, 't': tr.__name__, 'bad': []}
    try:
        shutil.copytree(BASE, root + '/brainstorm',
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(root + '/brainstorm/' + f, 'w') as fh:
            fh.write(new)
        if os.environ.get('TESTS'):
            e = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run(
                '. /opt/vp/env.sh; cd %s; $PY -W ignore -m pytest -c '
                '/opt/vp/pytest.ini --rootdir=%s -q -p no:cacheprovider '
                '--timeout=60 brainstorm 2>&1 | tail -4' % (root, root),
                shell=True, stdout=subprocess.PIPE, text=True, env=e)
            res['tests'] = r.stdout[-300:]
        now = analyse(root)
        for pid, (n, v, u, b, us) in now.items():
            n0, v0, u0, b0, _ = base[pid]
            if v or b or u > u0 + 2 and n < n0 * .8 or n < n0 * .5:
                res['bad'].append((pid, n0, n, v[:3], u0, u, b, us))
    finally:
        shutil.rmtree(tmp)
    return res


if __name__ == '__main__':
    out = sys.argv[1]
    which = sys.argv[2] if len(sys.argv) > 2 else 'all'
    pat = sys.argv[3] if len(sys.argv) > 3 else ''
    base = analyse('/repo')
    files = sorted(os.path.relpath(f, BASE) for f in glob.glob(
        BASE + '/**/*.py', recursive=True) if '/tests/' not in f)
    js = [(f, tr, base) for tr in ALL for f in files
          if (which == 'all' or tr.__name__ in which.split(',')) and pat in f]
    with mp.Pool(8, maxtasksperchild=1) as p, open(out, 'w') as fo:
        for r in p.imap_unordered(job, js):
            if r:
                fo.write(json.dumps(r) + '\n')
                fo.flush()
