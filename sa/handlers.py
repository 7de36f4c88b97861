"""Summaries of handler operations (what they write, by which formula)."""
import os
from fractions import Fraction

from . import cparse, elem, pyx
from .interp import Block, Ev, If, Inl, Interp, Loop, State, Try, With, walk
from .repo import AnalysisBroken, Fn
from .terms import V, cval, is_const, subterms

VIEW = ('reshape', 'ravel', 'T', 'transpose', 'squeeze', 'view', 'swapaxes',
        'gpudata', 'array')


def backends(repo):
    base = repo.find_class('Handler')
    out = []
    for c in repo.classes():
        if c is not base and repo.issub(c, base):
            out.append(c)
    if len(out) < 3:
        raise AnalysisBroken('expected three handler classes, found %s' %
                             [c.name for c in out])
    return base, out


def public_methods(repo, cls, base=None):
    """{name: Fn} of the operations a handler class offers."""
    out = {}
    for c in reversed(repo.mro(cls)):
        if c is not cls and base is not None and c is base:
            continue
        for n, m in c.members.items():
            if n.startswith('_') or not isinstance(m, Fn):
                continue
            out[n] = m
    return out


class Undec(Exception):
    pass


def root(v):
    """parameter an array term is a view of, or None"""
    while True:
        if v.op == 'sym':
            return v.a[0]
        if v.op == 'idx':
            v = v.a[0]
        elif v.op == 'attr' and v.a[1] in VIEW:
            v = v.a[0]
        elif v.op == 'call' and v.a[0].op == 'attr' and \
                v.a[0].a[1] in VIEW:
            v = v.a[0].a[0]
        elif v.op == 'phi':
            a, b = root(v.a[1]), root(v.a[2])
            return a if a == b else None
        elif v.op == 'elem':
            v = v.a[0]
        elif v.op in ('loopvar', 'loopout') and len(v.a) > 2 and \
                isinstance(v.a[2], V):
            v = v.a[2]
        elif v.op == 'aug':
            v = v.a[1]
        elif v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in (
                'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.atleast_2d',
                'numpy.reshape', 'numpy.ravel', 'numpy.transpose',
                'numpy.squeeze') and v.a[1]:
            v = v.a[1][0]
        else:
            return None


def full_view(v):
    """view of all elements of a parameter"""
    while True:
        if v.op == 'sym':
            return True
        if v.op == 'idx':
            i = v.a[1]
            if not full_index(i):
                return False
            v = v.a[0]
        elif v.op == 'attr' and v.a[1] in VIEW:
            v = v.a[0]
        elif v.op == 'call' and v.a[0].op == 'attr' and v.a[0].a[1] in VIEW:
            v = v.a[0].a[0]
        elif v.op in ('loopvar', 'loopout') and len(v.a) > 2 and \
                isinstance(v.a[2], V):
            v = v.a[2]
        elif v.op == 'aug':
            v = v.a[1]
        else:
            return False


def full_index(i):
    if i.op == 'slice':
        return all(is_const(x, None) for x in i.a)
    if i.op == 'const':
        return cval(i) is Ellipsis
    if i.op == 'tuple':
        return all(full_index(x) for x in i.a[0])
    return False


def sweep_index(i):
    """index that sweeps an axis in a loop, or the only column"""
    if full_index(i):
        return True
    if i.op == 'elem' or i.op == 'loopvar' or is_const(i, 0):
        return True
    if i.op == 'tuple':
        return all(sweep_index(x) for x in i.a[0])
    return False


def mask_index(i):
    return i.op in ('cmp', 'not', 'and', 'or', 'un', 'bin') or \
        i.op == 'call'


NPBIN = {'multiply': '*', 'add': '+', 'subtract': '-', 'divide': '/',
         'true_divide': '/', 'power': '**'}
NPUN = ('exp', 'log', 'sqrt', 'abs', 'absolute', 'fabs', 'sign', 'tanh',
        'negative', 'square', 'expm1', 'log1p', 'reciprocal')
NPBINF = ('maximum', 'minimum', 'fmod', 'mod', 'remainder', 'fmax', 'fmin')


class Env(object):
    """symbolic array contents while interpreting an effect tree"""

    def __init__(self, params):
        self.params = list(params)
        self.st = {}            # root term/param -> expr | ('opaque', deps)
        self.wr = {}            # param -> list of (mode, where)
        self.log = []

    def copy(self):
        e = Env(self.params)
        e.st = dict(self.st)
        e.wr = {k: list(v) for k, v in self.wr.items()}
        e.log = list(self.log)
        return e


class Summary(object):
    def __init__(self):
        self.paths = []         # list of Env
        self.ret = None


class Sum(object):
    """Derives summaries of one handler class."""

    def __init__(self, repo, cls):
        self.repo, self.cls = repo, cls
        self.cpuop = None
        self.cmods = None

    def pyxfns(self):
        if self.cpuop is None:
            p = None
            for base, dirs, files in os.walk(os.path.join(self.repo.root,
                                                          'brainstorm')):
                for f in files:
                    if f.endswith('.pyx'):
                        p = os.path.join(base, f)
                        with open(p) as fh:
                            d = pyx.parse(fh.read())
                        self.cpuop = dict(self.cpuop or {}, **d)
            self.cpuop = self.cpuop or {}
        return self.cpuop

    def run(self, name, consts=None):
        o, fn = self.repo.lookup(self.cls, name)
        if not isinstance(fn, Fn):
            raise Undec('no method %s' % name)
        I = Interp(self.repo)
        st = State()
        sv = I.instance(st, self.cls)
        ps = fn.params()[1:]
        args = [consts[p] if consts and p in consts else V('sym', p)
                for p in ps]
        v, st2, blk = I.run(fn, args, st, self_v=sv)
        return fn, ps, v, blk

    def summary(self, name, consts=None):
        fn, ps, ret, blk = self.run(name, consts)
        envs = self.block(blk, [Env(ps)])
        s = Summary()
        s.paths, s.ret, s.fn, s.ps, s.blk = envs, ret, fn, ps, blk
        return s

    # ------------------------------------------------------------- walking --
    def block(self, blk, envs):
        for n in blk:
            if not envs:
                break
            if isinstance(n, Ev):
                if n.kind == 'raise':
                    return []
                for e in envs:
                    self.event(n, e)
            elif isinstance(n, If):
                a = self.block(n.a, [e.copy() for e in envs])
                b = self.block(n.b or [], [e.copy() for e in envs])
                envs = a + b
                if len(envs) > 64:
                    raise Undec('too many paths')
            elif isinstance(n, Loop):
                pre = [dict(e.st) for e in envs]
                envs = self.block(n.body, envs)
                for e in envs:
                    for k, v in list(e.st.items()):
                        if any(k not in q or q[k] != v for q in pre) and \
                                v is not None and v[0] != 'opaque':
                            e.st[k] = ('opaque', frozenset(
                                elem.vars_of(v)))
            elif isinstance(n, Inl):
                envs = self.block(n.body, envs)
            elif isinstance(n, With):
                envs = self.block(n.body, envs)
            elif isinstance(n, Try):
                envs = self.block(n.body, envs)
        return envs

    def write(self, env, target, mode, expr, where, deps=()):
        """target: array term; expr: formula or None"""
        p = root(target)
        key = p if p is not None else target
        if p is None and target.op not in ('call', 'ref', 'phi'):
            return
        if p in env.params or p is None:
            pass
        else:
            return
        if p is not None:
            env.wr.setdefault(p, []).append((mode, where))
        old = env.st.get(key, ('var', p) if p is not None else None)
        if expr is None:
            env.st[key] = ('opaque', frozenset(deps))
        else:
            env.st[key] = expr

    def old(self, env, target):
        p = root(target)
        if p is not None:
            return env.st.get(p, ('var', p))
        return env.st.get(target)

    def try_conv(self, v, env, guard=None):
        try:
            return self.conv(v, env, guard)
        except (Undec, elem.Undecided):
            return None

    def store(self, env, target, val, aug, idx, where):
        """target[idx] (aug)= val"""
        e = self.try_conv(val, env, idx if idx is not None and
                          mask_index(idx) else None)
        old = self.old(env, target)
        deps = {s.a[0] for s in subterms(val) if s.op == 'sym'}
        base_ok = full_view(target)
        if idx is None or full_index(idx):
            mode = 'w' if not aug else 'a' if aug in '+-' else 'm'
            if aug and e is not None and old is not None and \
                    old[0] != 'opaque':
                e = ('bin', aug, old, e)
            elif aug:
                e = None
            if not base_ok:
                mode = 's' + mode if sweeps(target) else 'p' + mode
                e = None
            self.write(env, target, mode, e, where, deps)
            return
        if mask_index(idx):
            g = self.try_conv(idx, env)
            mode = 'cw' if not aug else 'ca'
            if aug and e is not None and old and old[0] != 'opaque':
                e = ('bin', aug, old, e)
            if g is not None and e is not None and old and \
                    old[0] != 'opaque' and base_ok:
                self.write(env, target, mode, ('cond', g, e, old), where,
                           deps)
            else:
                self.write(env, target, mode, None, where, deps)
            return
        mode = 'w' if not aug else 'a' if aug in '+-' else 'm'
        if sweep_index(idx):
            mode = 's' + mode
        else:
            mode = 'p' + mode
        if not aug and idx.op == 'tuple':
            env.log.append((root(target), idx, val))
        self.write(env, target, mode, None, where, deps)

    def event(self, n, env):
        if n.kind == 'setitem':
            self.store(env, n.obj, n.rhs, n.aug, n.idx, n.where())
        elif n.kind == 'aug':
            self.store(env, n.target, n.val, n.aop, None, n.where())
        elif n.kind == 'call':
            self.call(n, env)

    def call(self, n, env):
        f, args, kw = n.f, list(n.args), dict(n.kw)
        w = n.where()
        if f.op == 'attr' and f.a[1] == 'fill':
            e = self.try_conv(args[0], env) if args else None
            mode = 'w' if full_view(f.a[0]) else 'pw'
            self.write(env, f.a[0], mode, e if mode == 'w' else None, w)
            return
        if f.op == 'attr' and f.a[1] in ('set', 'set_async') and args:
            e = self.try_conv(args[0], env)
            self.write(env, f.a[0], 'w', e, w)
            return
        if f.op == 'attr' and f.a[1] in ('fill_normal', 'fill_uniform') and \
                args:
            self.write(env, args[0], 'w', ('f', 'normal' if 'normal' in
                                           f.a[1] else 'uniform', []), w)
            return
        if f.op == 'attr' and f.a[1] in ('sort', 'partition', 'itemset',
                                         'put', 'byteswap', 'resize',
                                         'setfield', 'setflags'):
            if root(f.a[0]) is not None:
                self.write(env, f.a[0], 'm', None, w)
            return
        name = ext_name(f)
        if name is None:
            return self.kernel_call(f, args, kw, env, w)
        short = name.rsplit('.', 1)[-1]
        if name.startswith('numpy.'):
            if short == 'copyto':
                dst, src = args[0], args[1]
                wh = kw.get('where')
                if wh is not None:
                    self.store(env, dst, src, None, wh, w)
                else:
                    self.store(env, dst, src, None, None, w)
                return
            if short in ('put', 'place', 'putmask', 'fill_diagonal'):
                self.write(env, args[0], 'pw', None, w)
                return
            if name.endswith('.at') and args:
                self.write(env, args[0], 'pa', None, w)
                return
            out = kw.get('out')
            if out is None:
                k = 3 if short in NPBIN or short in NPBINF else \
                    2 if short in NPUN else 4 if short == 'clip' else None
                if short == 'dot' and len(args) == 3:
                    k = 3
                if k and len(args) >= k:
                    out = args[k - 1]
                    args = args[:k - 1]
            if out is not None and not is_const(out, None):
                if out.op == 'tuple' and len(out.a[0]) == 1:
                    out = out.a[0][0]
                kw2 = {k: v for k, v in kw.items() if k != 'out'}
                val = V('call', f, tuple(args), tuple(sorted(kw2.items())), 0)
                self.store(env, out, val, None, kw.get('where'), w)
            return
        if short in self.pyxfns() and '_cpuop' in name or \
                name.split('.')[-2:-1] == ['_cpuop']:
            fn = self.pyxfns().get(short)
            if fn is None:
                raise Undec('unknown compiled function %s' % short)
            eff, rd = pyx.effects(fn)
            names = [p[0] for p in fn.params]
            bound = dict(zip(names, args))
            bound.update(kw)
            for p, modes in eff.items():
                if p in bound:
                    m = 'a' if modes == {'a'} else 'w' if modes == {'w'} \
                        else 'wa'
                    self.write(env, bound[p], m if full_view(bound[p])
                               else 's' + m, None, w,
                               {root(x) for x in bound.values()
                                if root(x)})
            return
        if name.startswith(('skcuda.misc.', 'pycuda.cumath.',
                            'skcuda.linalg.', 'pycuda.driver.')):
            return self.cuda_lib(name, short, args, kw, env, w)

    def cuda_lib(self, name, short, args, kw, env, w):
        def arg(i, k, d=None):
            return kw.get(k, args[i] if len(args) > i else d)
        ce = lambda v: self.try_conv(v, env)
        if short in ('add_matvec', 'mult_matvec', 'div_matvec'):
            op = {'a': '+', 'm': '*', 'd': '/'}[short[0]]
            x, a, out = arg(0, 'x_gpu'), arg(1, 'a_gpu'), arg(3, 'out')
            if out is not None:
                ex, ea = ce(x), ce(a)
                self.write(env, out, 'w', ('bin', op, ex, ea)
                           if ex and ea else None, w)
            return
        if short == 'binaryop_matvec':
            op, x, a, out = arg(0, 'binary_op'), arg(1, 'x_gpu'), \
                arg(2, 'a_gpu'), arg(4, 'out')
            if out is not None and is_const(op):
                ex, ea = ce(x), ce(a)
                self.write(env, out, 'w', ('bin', cval(op), ex, ea)
                           if ex and ea else None, w)
            return
        if short == 'sum' and name.startswith('skcuda.misc'):
            out = arg(2, 'out')
            if out is not None:
                self.write(env, out, 'w', ('f', 'sum', [
                    ce(arg(0, 'x_gpu')) or ('var', '?'),
                    ce(arg(1, 'axis')) or ('var', '?')]), w)
            return
        if short == 'dot' and name.startswith('skcuda.linalg'):
            out = arg(5, 'out')
            if out is not None:
                self.write(env, out, 'w' if full_view(out) else 'sw',
                           self.dotexpr(args, kw, env, 2), w)
            return
        if short == 'add_dot':
            out = arg(2, 'c_gpu')
            old = self.old(env, out)
            d = self.dotexpr([args[0], args[1]] + args[3:], kw, env, 2)
            beta = arg(6, 'beta')
            self.write(env, out, 'a', ('bin', '+', old, d)
                       if d and old and old[0] != 'opaque' else None, w)
            return
        if name.startswith('pycuda.cumath.'):
            out = kw.get('out')
            if out is not None and args:
                e = ce(args[0])
                self.write(env, out, 'w', ('f', short, [e]) if e else None,
                           w)
            return
        if short.startswith('memcpy_dtod') and len(args) >= 2:
            e = ce(args[1])
            self.write(env, args[0], 'w', e, w)
            return
        if short.startswith('memcpy_') and args:
            self.write(env, args[0], 'w', None, w)

    def dotexpr(self, args, kw, env, k):
        def arg(i, n, d):
            v = kw.get(n, args[i] if len(args) > i else d)
            return v
        from .terms import const
        ta, tb = arg(k, 'transa', const('N')), arg(k + 1, 'transb',
                                                   const('N'))
        a, b = self.try_conv(args[0], env), self.try_conv(args[1], env)
        if a is None or b is None or not is_const(ta) or not is_const(tb):
            return None
        return ('f', 'dot', [tr(a) if cval(ta) == 'T' else a,
                             tr(b) if cval(tb) == 'T' else b])

    # ------------------------------------------------------------- kernels --
    def kernel_call(self, f, args, kw, env, w):
        k = self.kernel(f)
        if k is None:
            return
        params, body, elementwise = k
        bound = {}
        for (n, ptr, ty), a in zip(params, args):
            bound[n] = a
        if elementwise:
            st = {}
            for n, ptr, ty in params:
                if n not in bound:
                    raise Undec('kernel call without argument ' + n)
                if ptr:
                    st[n] = self.old(env, bound[n])
                else:
                    st[n] = self.try_conv(bound[n], env)
            ck = CKernel(params, st)
            try:
                ck.stmts(body)
                for n in ck.written:
                    e = ck.st.get(n)
                    self.write(env, bound[n], 'k', e, w)
                return
            except (Undec, elem.Undecided, cparse.CError):
                pass
        wr = c_effects(params, body)
        for n, modes in wr.items():
            if n in bound:
                m = 'a' if modes == {'a'} else 'w' if 'w' in modes and \
                    not modes & {'a'} else 'wa'
                if elementwise and cond_only(body, n):
                    m = 'c' + m
                self.write(env, bound[n], m if full_view(bound[n]) else
                           's' + m, None, w, {root(x) for x in
                                              bound.values() if root(x)})

    def kernel(self, f):
        if f.op == 'call' and ext_name(f.a[0]) and \
                ext_name(f.a[0]).endswith('ElementwiseKernel'):
            a = f.a[1]
            if len(a) >= 2 and is_const(a[0]) and is_const(a[1]):
                ps, body = cparse.parse_kernel(cval(a[0]), cval(a[1]))
                return ps, body, True
        if f.op == 'call' and f.a[0].op == 'attr' and \
                f.a[0].a[1] == 'get_function' and f.a[1] and \
                is_const(f.a[1][0]):
            nm = cval(f.a[1][0])
            m = self.c_functions().get(nm)
            if m is None:
                raise Undec('kernel source of %s not found' % nm)
            return m[0], [m[1]], False
        return None

    def c_functions(self):
        """all CUDA functions in string constants of the package"""
        if self.cmods is None:
            import ast
            self.cmods = {}
            for mod in self.repo.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Constant) and isinstance(
                            n.value, str) and '__global__' in n.value:
                        try:
                            self.cmods.update(cparse.parse_module(n.value))
                        except cparse.CError as e:
                            pass
        return self.cmods

    # --------------------------------------------------------- conversion --
    def conv(self, v, env, guard=None):
        op = v.op
        if op == 'const':
            c = cval(v)
            if isinstance(c, bool):
                return ('num', Fraction(int(c)))
            if isinstance(c, (int, float)):
                return ('num', Fraction(str(c)))
            raise Undec('constant %r' % (c,))
        if op == 'sym':
            p = v.a[0]
            if p in env.params:
                s = env.st.get(p, ('var', p))
                if s[0] == 'opaque':
                    raise Undec('opaque')
                return s
            raise Undec('symbol ' + str(p))
        if v in env.st:
            s = env.st[v]
            if s is None or s[0] == 'opaque':
                raise Undec('opaque')
            return s
        if op == 'idx':
            if full_index(v.a[1]):
                return self.conv(v.a[0], env, guard)
            if guard is not None and v.a[1] is guard:
                return self.conv(v.a[0], env, guard)
            raise Undec('index')
        if op == 'attr' and v.a[1] == 'T':
            return tr(self.conv(v.a[0], env, guard))
        if op == 'attr' and v.a[1] in ('gpudata', 'array'):
            return self.conv(v.a[0], env, guard)
        if op == 'bin':
            a, b = self.conv(v.a[1], env, guard), self.conv(v.a[2], env,
                                                            guard)
            if v.a[0] == '@':
                return ('f', 'dot', [a, b])
            if v.a[0] == '&':
                return ('and', a, b)
            if v.a[0] == '|':
                return ('or', a, b)
            return ('bin', v.a[0], a, b)
        if op == 'un':
            a = self.conv(v.a[1], env, guard)
            if v.a[0] == '-':
                return ('neg', a)
            if v.a[0] == '+':
                return a
            if v.a[0] in ('~', 'not'):
                return ('not', a)
            raise Undec('unary')
        if op == 'not':
            return ('not', self.conv(v.a[0], env, guard))
        if op in ('and', 'or'):
            xs = [self.conv(x, env, guard) for x in v.a[0]]
            r = xs[0]
            for x in xs[1:]:
                r = (op, r, x)
            return r
        if op == 'cmp':
            if v.a[0] not in ('<', '<=', '>', '>=', '==', '!='):
                raise Undec('comparison')
            return ('cmp', v.a[0], self.conv(v.a[1], env, guard),
                    self.conv(v.a[2], env, guard))
        if op == 'phi':
            return ('cond', self.conv(v.a[0], env, guard),
                    self.conv(v.a[1], env, guard),
                    self.conv(v.a[2], env, guard))
        if op == 'call':
            f, args, kw = v.a[0], v.a[1], dict(v.a[2])
            if f.op == 'attr':
                m, b = f.a[1], f.a[0]
                if m in ('astype', 'copy', 'reshape', 'ravel', 'flatten',
                         'squeeze', 'view'):
                    return self.conv(b, env, guard)
                if m in ('standard_normal', 'randn'):
                    return ('f', 'normal', [])
                if m == 'normal' and not args:
                    return ('f', 'normal', [])
                if m in ('uniform', 'random_sample', 'rand', 'random') and \
                        not args and not (set(kw) - {'size'}):
                    return ('f', 'uniform', [])
                if m in ('random_sample', 'rand', 'random', 'uniform'):
                    return ('f', 'uniform', [])
                if m in ('sum', 'max', 'dot', 'clip'):
                    return self.npcall(m if m != 'max' else 'amax',
                                       (b,) + args, kw, env, guard)
                raise Undec('method ' + m)
            name = ext_name(f)
            if name and name.startswith('numpy.'):
                return self.npcall(name[6:], args, kw, env, guard)
            if name in ('abs', 'float', 'int', 'max', 'min', 'bool'):
                if name in ('float', 'bool', 'int'):
                    if name == 'int':
                        raise Undec('int')
                    return self.conv(args[0], env, guard)
                return ('f', name, [self.conv(x, env, guard)
                                    for x in args])
            if name and name.endswith(('float32', 'float64')):
                return self.conv(args[0], env, guard)
            raise Undec('call')
        raise Undec(op)

    def npcall(self, n, args, kw, env, guard):
        c = lambda i: self.conv(args[i], env, guard)
        if n in NPBIN and len(args) >= 2:
            return ('bin', NPBIN[n], c(0), c(1))
        if n in NPUN:
            return ('f', n, [c(0)])
        if n in NPBINF:
            return ('f', n, [c(0), c(1)])
        if n == 'clip':
            return ('f', 'clip', [c(0),
                                  c(1) if len(args) > 1 else self.conv(
                                      kw['a_min'], env, guard),
                                  c(2) if len(args) > 2 else self.conv(
                                      kw['a_max'], env, guard)])
        if n == 'where' and len(args) == 3:
            return ('cond', c(0), c(1), c(2))
        if n in ('dot', 'matmul'):
            return ('f', 'dot', [c(0), c(1)])
        if n in ('float32', 'float64', 'asarray', 'array',
                 'ascontiguousarray', 'broadcast_to'):
            return c(0)
        if n == 'transpose' and len(args) == 1:
            return tr(c(0))
        if n in ('greater', 'less', 'greater_equal', 'less_equal', 'equal',
                 'not_equal'):
            return ('cmp', {'greater': '>', 'less': '<',
                            'greater_equal': '>=', 'less_equal': '<=',
                            'equal': '==', 'not_equal': '!='}[n], c(0),
                    c(1))
        if n == 'logical_not':
            return ('not', c(0))
        if n in ('logical_and', 'logical_or'):
            return (n[8:], c(0), c(1))
        if n in ('zeros_like',):
            return elem.ZERO
        if n in ('ones_like',):
            return elem.ONE
        if n in ('amax', 'max', 'amin', 'min') and axis_is(args, kw, 1):
            return ('f', 'row' + n.replace('a', '', 1)
                    if n.startswith('am') else 'row' + n, [c(0)])
        if n == 'sum' and axis_is(args, kw, 1) and is_const(
                kw.get('keepdims', V('const', False)), True):
            return ('f', 'rowsum', [c(0)])
        if n == 'sum':
            ax = kw.get('axis', args[1] if len(args) > 1 else
                        V('const', None))
            if is_const(ax, None):
                return ('f', 'sum', [c(0), ('var', 'None')])
            return ('f', 'sum', [c(0), self.conv(ax, env, guard)])
        raise Undec('numpy.' + n)


def axis_is(args, kw, k):
    ax = kw.get('axis', args[1] if len(args) > 1 else None)
    return ax is not None and is_const(ax, k, -1)


def tr(e):
    if e[0] == 'f' and e[1] == 'T':
        return e[2][0]
    if e[0] == 'f' and e[1] == 'dot':
        return ('f', 'dot', [tr(e[2][1]), tr(e[2][0])])
    if e[0] == 'cond':
        return ('cond', e[1], tr(e[2]), tr(e[3]))
    return ('f', 'T', [e])


def sweeps(v):
    while v.op != 'sym':
        if v.op == 'idx':
            if not sweep_index(v.a[1]):
                return False
            v = v.a[0]
        elif v.op == 'attr':
            v = v.a[0]
        elif v.op == 'call' and v.a[0].op == 'attr':
            v = v.a[0].a[0]
        elif v.op == 'elem':
            v = v.a[0]
        elif v.op in ('loopvar', 'loopout') and len(v.a) > 2 and \
                isinstance(v.a[2], V):
            v = v.a[2]
        elif v.op == 'aug':
            v = v.a[1]
        else:
            return False
    return True


def ext_name(f):
    if f.op == 'ext':
        return f.a[0]
    if f.op == 'mod':
        return f.a[0]
    if f.op == 'attr':
        b = ext_name(f.a[0])
        return b + '.' + f.a[1] if b else None
    return None


# ------------------------------------------------------------ CUDA kernels --
class CKernel(object):
    """elementwise kernel: p[i] is the element of p"""

    def __init__(self, params, st):
        self.ptr = {n for n, p, t in params if p}
        self.ty = {n: t for n, p, t in params}
        self.st = dict(st)
        self.loc = {}
        self.written = []

    def stmts(self, ss):
        for s in ss:
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        if k == 'block':
            self.stmts(s[1])
        elif k == 'assign':
            self.assign(s[1], s[2], s[3])
        elif k == 'decl':
            if s[4]:
                raise Undec('pointer declaration')
            self.loc[s[2]] = self.ex(s[3]) if s[3] is not None else None
        elif k == 'if':
            c = self.ex(s[1])
            st0, l0 = dict(self.st), dict(self.loc)
            self.stmt(s[2])
            st1, l1 = self.st, self.loc
            self.st, self.loc = dict(st0), dict(l0)
            if s[3] is not None:
                self.stmt(s[3])
            for d, d1 in ((self.st, st1), (self.loc, l1)):
                for n in d1:
                    x, y = d1[n], d.get(n)
                    if x != y:
                        if x is None or y is None:
                            d[n] = None
                        else:
                            d[n] = ('cond', c, x, y)
        elif k == 'expr':
            pass
        else:
            raise Undec('statement ' + k)

    def assign(self, lv, op, rhs):
        e = self.ex(rhs)
        if lv[0] == 'idx' and lv[1][0] == 'name' and \
                lv[1][1] in self.ptr and lv[2] == ('name', 'i'):
            n = lv[1][1]
            if op != '=':
                if self.st.get(n) is None or self.st[n][0] == 'opaque':
                    raise Undec('opaque')
                e = ('bin', op[0], self.st[n], e)
            self.st[n] = e
            if n not in self.written:
                self.written.append(n)
        elif lv[0] == 'name':
            if op != '=':
                e = ('bin', op[0], self.loc[lv[1]], e)
            self.loc[lv[1]] = e
        else:
            raise Undec('assignment')

    def ex(self, e):
        k = e[0]
        if k == 'num':
            return ('num', e[1])
        if k == 'name':
            n = e[1]
            if n in self.loc:
                if self.loc[n] is None:
                    raise Undec('undefined')
                return self.loc[n]
            if n in self.ptr:
                raise Undec('pointer %s used as a value' % n)
            if n in self.st and self.st[n] is not None:
                return self.st[n]
            raise Undec('name ' + n)
        if k == 'idx':
            if e[1][0] == 'name' and e[1][1] in self.ptr and \
                    e[2] == ('name', 'i'):
                r = self.st.get(e[1][1])
                if r is None or r[0] == 'opaque':
                    raise Undec('opaque')
                return r
            raise Undec('index')
        if k == 'bin':
            if e[1] == '%':
                raise Undec('modulo')
            return ('bin', e[1], self.ex(e[2]), self.ex(e[3]))
        if k == 'cmp':
            return ('cmp', e[1], self.ex(e[2]), self.ex(e[3]))
        if k in ('and', 'or'):
            return (k, self.ex(e[1]), self.ex(e[2]))
        if k == 'not':
            return ('not', self.ex(e[1]))
        if k == 'neg':
            return ('neg', self.ex(e[1]))
        if k == 'cond':
            return ('cond', self.ex(e[1]), self.ex(e[2]), self.ex(e[3]))
        if k == 'cast':
            if e[1] in ('float', 'double'):
                return self.ex(e[2])
            raise Undec('cast')
        if k == 'call':
            return ('f', e[1], [self.ex(x) for x in e[2]])
        raise Undec(k)


def pointer_misuse(params, body):
    """pointers used as numbers (not subscripted, dereferenced or passed)"""
    ptr = {n for n, p, t in params if p}
    bad = []

    def ex(e, ok=False):
        if not isinstance(e, tuple):
            return
        k = e[0]
        if k == 'name':
            if e[1] in ptr and not ok:
                bad.append(e[1])
        elif k == 'idx':
            ex(e[1], True)
            ex(e[2])
        elif k == 'bin':
            ex(e[2], e[1] in '+-')
            ex(e[3], e[1] in '+-')
        elif k == 'deref':
            ex(e[1], True)
        elif k == 'call':
            for x in e[2]:
                ex(x, True)
        elif k == 'cast':
            ex(e[2])
        else:
            for x in e[1:]:
                ex(x)

    def st(s):
        if s is None:
            return
        k = s[0]
        if k == 'block':
            for x in s[1]:
                st(x)
        elif k == 'decl':
            ex(s[3], s[4])
        elif k == 'assign':
            ex(s[1], True)
            ex(s[3], True)
        elif k == 'if':
            ex(s[1])
            st(s[2])
            st(s[3])
        elif k == 'for':
            st(s[1])
            ex(s[2])
            st(s[3])
            st(s[4])
        elif k in ('expr', 'return'):
            ex(s[1])
    for s in body:
        st(s)
    return bad


def c_effects(params, body):
    """{pointer param: modes} of a kernel"""
    ptr = {n: {n} for n, p, t in params if p}
    out = {}

    def base(e):
        """pointer params an lvalue/pointer expression may refer to"""
        if e[0] == 'name':
            return ptr.get(e[1], set())
        if e[0] == 'addr':
            return lvbase(e[1])
        if e[0] == 'bin':
            return base(e[2]) | base(e[3])
        if e[0] == 'cast':
            return base(e[2])
        return set()

    def lvbase(e):
        return base(e[1]) if e[0] in ('idx', 'deref') else base(e)

    def ex(e):
        if isinstance(e, list):
            for x in e:
                ex(x)
        if not isinstance(e, tuple):
            return
        if e[0] == 'call':
            if e[1].startswith('atomic') and e[2]:
                for p in base(e[2][0]):
                    out.setdefault(p, set()).add(
                        'a' if 'Add' in e[1] else 'm')
            for x in e[2]:
                ex(x)
            return
        for x in e[1:]:
            ex(x)

    def st(s):
        if s is None:
            return
        k = s[0]
        if k == 'block':
            for x in s[1]:
                st(x)
        elif k == 'decl':
            if s[4] and s[3] is not None:
                ptr[s[2]] = base(s[3])
            if s[3] is not None:
                ex(s[3])
        elif k == 'assign':
            lv = s[1]
            if lv[0] in ('idx', 'deref'):
                for p in lvbase(lv):
                    if s[2] == '=':
                        m = 'w'
                    elif s[2] in ('+=', '-='):
                        m = 'a'
                    else:
                        m = 'm'
                    out.setdefault(p, set()).add(m)
            ex(s[3])
        elif k == 'if':
            ex(s[1])
            st(s[2])
            st(s[3])
        elif k == 'for':
            st(s[1])
            ex(s[2])
            st(s[3])
            st(s[4])
        elif k in ('expr', 'return') and s[1] is not None:
            ex(s[1])
    for s in body:
        st(s)
    # an '/=' after '=' in the same kernel is part of computing the value
    for p, m in out.items():
        if 'w' in m:
            m.discard('m')
    return out


def cond_only(body, n):
    """is pointer n only written under a condition without else?"""
    for s in body:
        if s[0] == 'if' and s[3] is None:
            continue
        if n in c_effects([(n, True, 'float')], [s]):
            return False
    return True
