"""P14: values stay finite.

Formulas are evaluated in an abstract domain of orders of magnitude: every
input is one of very negative, negative, zero, positive, very positive, where
the exponential of a very large number overflows and of a very negative
number vanishes.  A formula that reaches infinity or an undefined value for
some combination of classes is a definite witness.
"""
import itertools
import math
from fractions import Fraction

from . import elem
from .handler_checks import FORMULAS, param_map, rename, wraps_handler
from .handlers import Sum, Undec, backends, public_methods
from .layer_checks import get_models, paths
from .layers import Region
from .opspec import ACTS, OPS
from .repo import AnalysisBroken
from .terms import V, cval, is_const, show, subterms

L = 1e4                      # exp(L) overflows, exp(-L) vanishes
ANY = (-L, -0.5, 0.0, 0.5, L)
NAN = float('nan')
INF = float('inf')


class Un(Exception):
    pass


def vec(f, *xs):
    """apply elementwise over rows"""
    n = max([len(x) for x in xs if isinstance(x, tuple)] or [0])
    if not n:
        return f(*xs)
    return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in xs])
                 for i in range(n))


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.copysign(INF, a)
    if math.isinf(a) and math.isinf(b):
        return NAN
    return a / b


def power(a, b):
    try:
        return a ** b
    except (OverflowError, ZeroDivisionError):
        return INF


def fexp(a):
    if a != a:
        return NAN
    if a > 700:
        return INF
    return math.exp(a)


def flog(a):
    if a != a or a < 0:
        return NAN
    return -INF if a == 0 else math.log(a) if a != INF else INF


def fsqrt(a):
    return NAN if a != a or a < 0 else math.sqrt(a)


FN = {'exp': fexp, 'expf': fexp, '__expf': fexp, 'log': flog, 'logf': flog,
      'sqrt': fsqrt, 'sqrtf': fsqrt, 'abs': abs, 'fabs': abs, 'fabsf': abs,
      'absolute': abs,
      'tanh': math.tanh, 'tanhf': math.tanh,
      'sign': lambda a: (a > 0) - (a < 0) + 0.0,
      'negative': lambda a: -a, 'square': lambda a: a * a,
      'expm1': lambda a: fexp(a) - 1, 'log1p': lambda a: flog(1 + a),
      'reciprocal': lambda a: div(1.0, a),
      'maximum': max, 'fmax': max, 'fmaxf': max, 'max': max,
      'minimum': min, 'fmin': min, 'fminf': min, 'min': min,
      'sigmoid': lambda a: div(1.0, 1 + fexp(-a)) if a >= 0 else
      fexp(a) / (1 + fexp(a)),
      'clip': lambda a, lo, hi: min(max(a, lo), hi),
      'normal': lambda: 0.5, 'uniform': lambda: 0.25}
CMPF = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
        '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
        '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
BINF = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
        '*': lambda a, b: a * b, '/': div, '**': power}


def ev(e, env, memo=None):
    if memo is None:
        memo = {}
    k = id(e)
    if k in memo:
        return memo[k][1]
    r = ev1(e, env, memo)
    memo[k] = (e, r)
    return r


def ev1(e, env, memo):
    k = e[0]
    if k == 'num':
        return float(e[1])
    if k == 'var':
        if e[1] not in env:
            raise Un('variable ' + str(e[1]))
        return env[e[1]]
    if k == 'bin':
        f = BINF.get(e[1])
        if f is None:
            raise Un('operator ' + e[1])
        return vec(f, ev(e[2], env, memo), ev(e[3], env, memo))
    if k == 'neg':
        return vec(lambda a: -a, ev(e[1], env, memo))
    if k == 'cmp':
        f = CMPF[e[1]]
        return vec(lambda a, b: 1.0 if f(a, b) else 0.0,
                   ev(e[2], env, memo), ev(e[3], env, memo))
    if k == 'and':
        return vec(lambda a, b: 1.0 if a and b else 0.0,
                   ev(e[1], env, memo), ev(e[2], env, memo))
    if k == 'or':
        return vec(lambda a, b: 1.0 if a or b else 0.0,
                   ev(e[1], env, memo), ev(e[2], env, memo))
    if k == 'not':
        return vec(lambda a: 0.0 if a else 1.0, ev(e[1], env, memo))
    if k == 'cond':
        return vec(lambda c, a, b: a if c else b, ev(e[1], env, memo),
                   ev(e[2], env, memo), ev(e[3], env, memo))
    if k == 'f':
        n = e[1]
        a = [ev(x, env, memo) for x in e[2]]
        if n == 'rowsum' or n == 'sum':
            return sum(a[0]) if isinstance(a[0], tuple) else a[0]
        if n == 'rowmax':
            return max(a[0]) if isinstance(a[0], tuple) else a[0]
        if n == 'rowmin':
            return min(a[0]) if isinstance(a[0], tuple) else a[0]
        if n in FN:
            return vec(FN[n], *a)
        raise Un('function ' + n)
    raise Un(k)


def bad(v):
    vs = v if isinstance(v, tuple) else (v,)
    return any(x != x or math.isinf(x) for x in vs)


def name_class(x):
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(name_class(y) for y in x)
    return {L: 'very large', -L: 'very negative'}.get(x, '%g' % x)


ROWS = [r for r in itertools.product((-L, 0.0, L), repeat=3)]
# operation -> variables with their classes
HOPS = {
    'sigmoid': {'x': ANY}, 'tanh': {'x': ANY}, 'rel': {'x': ANY},
    'el': {'x': ANY}, 'softmax_m': {'m': ROWS},
    'sigmoid_deriv': {'x': ANY, 'y': (0.0, 0.5, 1.0), 'dy': (-0.5, 0., 0.5)},
    'tanh_deriv': {'x': ANY, 'y': (-1., 0.0, 1.0), 'dy': (-0.5, 0., 0.5)},
    'rel_deriv': {'x': ANY, 'y': (0.0, 0.5, L), 'dy': (-0.5, 0., 0.5)},
    'el_deriv': {'x': ANY, 'y': (-1.0, 0.0, 0.5, L), 'dy': (-.5, 0., .5)},
}


def witness(x, classes):
    names = sorted(classes)
    for vals in itertools.product(*[classes[n] for n in names]):
        env = dict(zip(names, vals))
        v = ev(x, env)
        if bad(v):
            return env, v
    return None


def p14(repo, rep, tier):
    rep.rule('activation', 'no class of finite input makes an activation or '
             'its derivative infinite or undefined')
    rep.rule('loss', 'no class of finite input makes an output or a delta of '
             'a layer that takes logarithms or divides infinite or undefined')
    base, bs = backends(repo)
    for c in bs:
        if wraps_handler(repo, c):
            continue
        S = Sum(repo, c)
        impl = public_methods(repo, c, base)
        for n, classes in sorted(HOPS.items()):
            if n not in impl:
                continue
            rep.saw(impl[n].qual)
            for alias in ({}, {'x': 'y'}) if n in ('sigmoid', 'tanh', 'rel',
                                                   'el') else ({},):
                activation(repo, rep, base, c, S, n, classes, impl[n], alias)
    layers(repo, rep)
    rep.need('activation', 8, 'activation functions')
    rep.need('loss', 2, 'loss layers')


def activation(repo, rep, base, c, S, n, classes, fn, alias):
    con = '%s.%s%s' % (c.name, n, ' in place' if alias else '')
    pm = param_map(repo, base, fn, n)
    inv = {v: k for k, v in pm.items()}
    dst = list(OPS[n][1])[0]
    try:
        s = S.summary(n, {inv.get(a, a): V('sym', inv.get(b, b))
                          for a, b in alias.items()})
    except Undec as e:
        rep.skip('activation', con, str(e))
        return
    cl = {alias.get(k, k): v for k, v in classes.items()}
    for e in s.paths:
        x = e.st.get(inv.get(dst, dst))
        if x is None or x[0] == 'opaque':
            rep.skip('activation', con, 'not a formula')
            continue
        x = rename(x, pm)
        env = dict(cl)
        env.setdefault(dst, (0.5,))
        try:
            w = witness(x, {k: env.get(k, (0.5,)) for k in
                            elem.vars_of(x)})
        except Un as u:
            rep.skip('activation', con, str(u))
            continue
        if w is None:
            rep.ok('activation', con)
        else:
            rep.bad('activation', con, 'is %s for %s' % (
                w[1], ', '.join('%s = %s' % (k, name_class(v))
                                for k, v in sorted(w[0].items()))),
                fn.mod.path + ' in ' + fn.qual)


# ------------------------------------------------------------------ layers --
ELEMWISE = {n: v for n, v in FORMULAS.items()}
PASS = {'sum_t': ('a', 'out'), 'broadcast_t': ('a', 'out'),
        'index_m_by_v': ('m', 'out')}


def scalar(v):
    """abstract value of a scalar argument"""
    if is_const(v) and isinstance(cval(v), (int, float)):
        return ('num', Fraction(str(cval(v))))
    if v.op == 'bin' and v.a[0] in '+-*/':
        a, b = scalar(v.a[1]), scalar(v.a[2])
        return ('bin', v.a[0], a, b)
    if v.op == 'un' and v.a[0] == '-':
        return ('neg', scalar(v.a[1]))
    if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in (
            'float', 'int') and len(v.a[1]) == 1:
        return scalar(v.a[1][0])
    if any(x.op == 'attr' and x.a[1] in ('shape', 'size')
           for x in subterms(v)):
        return ('num', Fraction(1))      # one sample
    return ('var', 'option:' + show(v)[:40])


def layer_formulas(prog, cats):
    """formula per region root after running the program, or None"""
    st = {}

    def val(r):
        if r.root in st:
            return st[r.root]
        if r.root.op == 'buf':
            return ('var', '%s.%s' % r.root.a[:2])
        return None

    for p in prog:
        if p[0] == 'loop':
            return None, None
        if p[0] != 'op':
            continue
        o = p[1]
        for par, reg in list(o.args.items()):
            if isinstance(reg, Region) and reg.kind in ('t', 'r', 'part'):
                return None, None
        if o.name in ('ones', 'zeros', 'allocate'):
            st[o.res] = ('num', Fraction(1 if o.name == 'ones' else 0))
            continue
        out = None
        if o.name in FORMULAS:
            dst, src = FORMULAS[o.name]
            e = elem.parse(src)
            m = {}
            for v in elem.vars_of(e):
                a = o.args.get(v)
                if isinstance(a, Region):
                    m[v] = val(a)
                elif a is not None:
                    m[v] = scalar(a)
                else:
                    m[v] = None
                if m[v] is None:
                    return None, None
            out = subst(e, m)
        elif o.name in PASS:
            a, dst = PASS[o.name]
            out = val(o.args[a]) if isinstance(o.args.get(a), Region) \
                else None
        elif o.name == 'softmax_m':
            dst = 'out'
            out = ('var', 'probability:%s' % o.args['m'].name())
        elif o.name == 'binarize_v':
            dst = 'out'
            out = ('var', 'binary:%s' % o.args['v'].name())
        else:
            for q, reg, mode in o.writes:
                st[reg.root] = None
            if o.writes:
                return None, None
            continue
        d = o.args.get(dst)
        if not isinstance(d, Region):
            return None, None
        if out is None:
            return None, None
        st[d.root] = out
    return st, True


def subst(e, m):
    if e[0] == 'var':
        return m[e[1]]
    return tuple([subst(y, m) for y in x] if isinstance(x, list) else
                 subst(x, m) if isinstance(x, tuple) and x and
                 x[0] in elem.KINDS else x for x in e)


def classes_for(name):
    if name.startswith('probability:'):
        return (0.0, 0.5, 1.0)
    if name.startswith('binary:') or name.endswith('targets'):
        return (0.0, 1.0)
    if name.startswith('option:'):
        return (0.5,)
    if name.startswith('inputs.'):
        return ANY
    if name.startswith(('output_deltas', 'input_deltas', 'gradients')):
        return (0.5,)
    if name.startswith('parameters'):
        return (0.5,)
    return (0.5,)


RISKY = ('log_t', 'divide_tt', 'divide_mv', 'sqrt_t', 'softmax_m',
         'sigmoid')


def layers(repo, rep):
    for m in get_models(repo):
        for train in (False, True):
            fps = paths(m, 'forward_pass', 'linear', train)
            if not any(o.name in RISKY for ps, asm, prog in fps
                       for o in flatops(prog)):
                # not a layer with logarithms or divisions
                bps = paths(m, 'backward_pass', 'linear')
                if not any(o.name in RISKY for ps, asm, prog in bps
                           for o in flatops(prog)):
                    continue
            rep.saw(m.cls.qual)
            for ps, asm, prog in fps:
                st, ok = layer_formulas(prog, None)
                con = '%s.forward_pass(training=%s)' % (m.cls.name, train)
                if st is None:
                    rep.skip('loss', con, 'not a composition of elementwise '
                             'operations')
                    continue
                judge(rep, m, con, st, 'outputs')
                if not train:
                    continue
                for ps2, asm2, prog2 in paths(m, 'backward_pass', 'linear'):
                    con = '%s.backward_pass' % m.cls.name
                    st2, ok = layer_formulas(prog2, None)
                    if st2 is None:
                        rep.skip('loss', con, 'not a composition of '
                                 'elementwise operations')
                        continue
                    fw = {'%s.%s' % k.a[:2]: v for k, v in st.items()
                          if k.op == 'buf' and v is not None}
                    st2 = {k: subst_open(v, fw) for k, v in st2.items()
                           if v is not None}
                    judge(rep, m, con, st2, 'input_deltas')
                    judge(rep, m, con, st2, 'gradients')


def subst_open(e, m):
    if e[0] == 'var':
        return m.get(e[1], e)
    return tuple([subst_open(y, m) for y in x] if isinstance(x, list) else
                 subst_open(x, m) if isinstance(x, tuple) and x and
                 x[0] in elem.KINDS else x for x in e)


def flatops(prog):
    for p in prog:
        if p[0] == 'loop':
            for o in flatops(p[2]):
                yield o
        elif p[0] == 'op':
            yield p[1]


def judge(rep, m, con, st, cat):
    for k, x in st.items():
        if k.op != 'buf' or k.a[0] != cat or x is None:
            continue
        c = '%s:%s' % (con, k.a[1])
        vs = allvars(x)
        try:
            w = witness(x, {v: classes_for(v) for v in vs})
        except Un as u:
            rep.skip('loss', c, str(u))
            continue
        if w is None:
            rep.ok('loss', c)
        else:
            rep.bad('loss', c, 'is %s for %s' % (w[1], ', '.join(
                '%s = %s' % (a, name_class(b))
                for a, b in sorted(w[0].items())
                if not a.startswith('option'))), m.cls.qual)


def allvars(e, memo=None):
    memo = {} if memo is None else memo
    if id(e) in memo:
        return memo[id(e)]
    r = elem.vars_of(e)
    memo[id(e)] = r
    return r
