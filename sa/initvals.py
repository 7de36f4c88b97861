"""P52: what initialisers draw.

Constructor and __call__ of every initialiser are evaluated abstractly; every
draw of a random number is a variable of its own.  The elements of the result
are expressions over these variables, from which range, mean and deviation
are read off."""
import itertools
import math
from fractions import Fraction

from . import symx as X
from .arr import Arr, prod
from .machine import (ClsV, Ext, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported, down)
from .prog import find_cls
from .repo import AnalysisBroken
from .valid import loc


# eigenvalues of the matrices that are drawn, for up to three dimensions
SPECTRA = [(0.3, -1.75, 0.9), (1.25, -0.5, -1.0), (0.25, 0.5, 1.5),
           (0.3 + 0.4j, 0.3 - 0.4j, 0.1), (-0.6 - 0.8j, -0.6 + 0.8j, 0.7)]


class Rnd(Monitor):
    spectra = SPECTRA[:3]

    def __init__(self, limit=8):
        self.n = 0
        self.shuffles = 0
        self.even = None
        self.eigs = {}
        self.svds = []

    def opaque(self, fn):
        return fn.cls is not None and fn.cls.name == 'RandomState'

    def draw(self, kind, shape):
        def one():
            self.n += 1
            return X.var(kind, self.n)
        if shape is None:
            return one()
        s = down(shape)
        s = (s,) if isinstance(s, int) else tuple(s)
        if not all(isinstance(x, int) for x in s):
            raise Unsupported('shape of a draw')
        return Arr([one() for _ in range(prod(s))], s)

    def call(self, m, f, args, kw, node):
        if isinstance(f, ClsV) and f.cls.name == 'RandomState':
            return O('rnd', f.cls)
        if isinstance(f, Meth) and isinstance(f.obj, O) and (
                f.obj.tag == 'rnd' or f.obj.cls is not None and
                f.obj.cls.name == 'RandomState'):
            return self.rnd(m, f.name, list(args), dict(kw), f.obj)
        if isinstance(f, Ext) and f.name.startswith('numpy.random.'):
            raise Unsupported(f.name)
        if isinstance(f, Ext) and f.name in ('numpy.linalg.eig',
                                             'numpy.linalg.eigvals'):
            a = args[0]
            if not isinstance(a, Arr) or a.ndim != 2 or \
                    a.shape[0] != a.shape[1]:
                raise PyExc('LinAlgError')
            k = len(self.eigs)
            self.eigs[k] = [X.of(x) for x in a.flat()]
            sp = self.spectra[m.choose(len(self.spectra), True) %
                              len(self.spectra)]
            v = Arr([sp[i] for i in range(a.shape[0])], (a.shape[0],))
            self.spectrum = v.flat()
            self.eigs[k] = (self.eigs[k], max(abs(x) for x in v.flat()))
            return v if f.name.endswith('vals') else (v, O('vectors'))
        if isinstance(f, Ext) and f.name == 'numpy.linalg.svd':
            a = args[0]
            full = kw.get('full_matrices', args[1] if len(args) > 1 else True)
            if not isinstance(a, Arr) or a.ndim != 2 or full not in (
                    True, False):
                raise Unsupported('svd')
            r, c = a.shape
            k = min(r, c)
            n = len(self.svds)
            self.svds.append([X.of(x) for x in a.flat()])
            return (self.basis('U', n, (r, r if full else k)),
                    Arr([X.var('S', n, i) for i in range(k)], (k,)),
                    self.basis('V', n, (c if full else k, c)))
        if isinstance(f, Ext) and f.name == 'numpy.linalg.qr':
            a = args[0]
            if len(args) > 1 or kw or not isinstance(a, Arr) or a.ndim != 2:
                raise Unsupported('qr')
            n = len(self.svds)
            self.svds.append([X.of(x) for x in a.flat()])
            k = min(a.shape)
            return (self.basis('U', n, (a.shape[0], k)), O('R'))
        return NotImplemented

    def basis(self, what, n, shape):
        return Arr([X.var(what, n, i, j) for i in range(shape[0])
                    for j in range(shape[1])], shape)

    def rnd(self, m, n, args, kw, obj):
        if n in ('rand', 'randn'):
            return self.draw('u' if n == 'rand' else 'n',
                             tuple(args) if args else None)
        if n in ('random_sample', 'random', 'standard_normal'):
            return self.draw('n' if n == 'standard_normal' else 'u',
                             args[0] if args else kw.get('size'))
        if n in ('uniform', 'normal'):
            ps = ('low', 'high', 'size') if n == 'uniform' else (
                'loc', 'scale', 'size')
            a = dict(zip(ps, args))
            a.update(kw)
            if set(a) - set(ps):
                raise Unsupported(n)
            lo, hi = a.get(ps[0], 0.0), a.get(ps[1], 1.0)
            if not all(isinstance(x, (int, float)) for x in (lo, hi)):
                raise Unsupported('bounds of a draw')
            d = self.draw(n[0], a.get('size'))
            f = (lambda x: X.of(lo) + x * (X.of(hi) - X.of(lo))) \
                if n == 'uniform' else (lambda x: X.of(lo) + x * X.of(hi))
            if isinstance(d, Arr):
                return Arr([f(x) for x in d.flat()], d.shape)
            return f(d)
        if n in ('shuffle', 'permutation', 'choice'):
            if n == 'choice':
                a = dict(zip(('a', 'size', 'replace', 'p'), args))
                a.update(kw)
                src = a['a']
                if isinstance(src, int):
                    src = Arr(list(range(src)), (src,))
                if a.get('p') is not None or a.get('replace', True) is not \
                        False or not isinstance(src, Arr) or not isinstance(
                            a.get('size'), int):
                    raise Unsupported('choice')
                p = self.perm(m, src.size)
                fl = src.flat()
                k = a['size']
                if k > len(fl):
                    raise PyExc('ValueError')
                return Arr([fl[i] for i in p[:k]], (k,))
            x = args[0]
            if isinstance(x, int) and n == 'permutation':
                x = Arr(list(range(x)), (x,))
            if isinstance(x, L):
                p = self.perm(m, len(x.seq))
                v = [x.seq[i] for i in p]
                if n == 'permutation':
                    return Arr(v, (len(v),))
                x.seq[:] = v
                return None
            if not isinstance(x, Arr) or x.ndim < 1:
                raise Unsupported(n)
            p = self.perm(m, x.shape[0])
            w = x.size // max(1, x.shape[0])
            fl = x.flat()
            v = [fl[i * w + j] for i in p for j in range(w)]
            if n == 'permutation':
                return Arr(v, x.shape)
            for i, y in zip(x.idx, v):
                x.buf[i] = y
            return None
        if n in ('generate_seed', 'get_seed', 'randint'):
            if n == 'randint':
                raise Unsupported(n)
            return 7
        if n in ('seed', 'set_seed', 'reset'):
            return None
        if n == 'create_random_state':
            return O('rnd', obj.cls)
        raise Unsupported('random %s' % n)

    def perm(self, m, n):
        ps = list(itertools.permutations(range(n)))
        return ps[m.choose(len(ps), True) % len(ps)]


class Complex(Rnd):
    spectra = SPECTRA[3:]


def value(e, env):
    """exact value of an arithmetic expression"""
    if e.op == 'n':
        return e.a[0]
    if e.op == 'v':
        return env[e.a]
    if e.op == 'f':
        raise Unsupported('function %s' % e.a[0])
    a, b = (value(x, env) for x in e.a)
    if e.op == '+':
        return a + b
    if e.op == '*':
        return a * b
    return a / b


def affine(e):
    """(variable, factor, offset) of an expression of one variable"""
    vs = sorted(set(X.variables(e)))
    if len(vs) > 1:
        return None
    if not vs:
        return None, 0.0, float(value(e, {}))
    v = vs[0]
    p = [value(e, {v: Fraction(k)}) for k in (0, 1, 2)]
    if p[2] - p[1] != p[1] - p[0]:
        return None
    return v, float(p[1] - p[0]), float(p[0])


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def dist(vals):
    """common distribution of the elements: ('u', lo, hi) | ('n', mean,
    deviation) | text"""
    out, used = set(), set()
    for e in vals:
        a = affine(X.of(e))
        if a is None:
            return 'an element depends on several draws'
        v, k, c = a
        if v is None:
            return 'an element that is not random: %g' % c
        if v in used:
            return 'two elements that share a draw'
        used.add(v)
        if v[0] == 'u':
            r = ('u', c + min(k, 0), c + max(k, 0))
        else:
            r = ('n', c, abs(k))
        out.add(tuple(round(x, 9) if isinstance(x, float) else x for x in r))
    if len(out) != 1:
        return 'elements of different distributions: %s' % sorted(out)[:3]
    return out.pop()


def expect(kind, a, b):
    def go(res, mon, shape):
        d = dist(res)
        if isinstance(d, str):
            return d
        if d[0] != kind or not near(d[1], round(a, 9)) or not near(
                d[2], round(b, 9)):
            nm = {'u': 'uniform in [%g, %g]',
                  'n': 'normal with mean %g and deviation %g'}
            return '%s instead of %s' % (nm[d[0]] % d[1:],
                                         nm[kind] % (a, b))
        return None
    return go


def const(vals):
    def go(res, mon, shape):
        w = vals(shape)
        for i, (e, x) in enumerate(zip(res, w)):
            c = X.const(X.of(e))
            if c is None or not near(float(c), x):
                return 'element %d is %s instead of %g' % (i, X.of(e), x)
        return None
    return go


def identity(scale, std):
    def go(res, mon, shape):
        r, c = shape
        off = []
        for i in range(r):
            for j in range(c):
                off.append(X.of(res[i * c + j]) - X.of(
                    scale if i == j else 0.0))
        return expect('n', 0.0, std)(off, mon, shape)
    return go


def echo(radius):
    def go(res, mon, shape):
        if len(mon.eigs) != 1:
            return 'not scaled by the largest eigenvalue'
        mat, rho = mon.eigs[0]
        for i, e in enumerate(res):
            w = affine(mat[i] * X.of(radius / rho))
            g = affine(X.of(e))
            if w is None:
                raise Unsupported('matrix that is scaled')
            if g is None or w[0] != g[0] or not near(w[1], g[1]) or \
                    not near(w[2], g[2]):
                return 'element %d is %s with eigenvalues %s' % (
                    i, X.of(e), mon.spectrum)
        d = dist(mat)
        if isinstance(d, str):
            return d
        if not near(d[1] + d[2], 0) and d[0] == 'u' or d[0] == 'n' and d[1]:
            return 'the matrix that is scaled is not symmetric about 0'
        return None
    return go


def orthogonal(scale):
    def go(res, mon, shape):
        r, c = shape
        which = set()
        for i in range(r):
            for j in range(c):
                a = affine(X.of(res[i * c + j]))
                if a is None or a[0] is None or a[0][0] not in 'UV' or \
                        not near(abs(a[1]), abs(scale)) or not near(a[2], 0):
                    return 'element %d, %d is not %g times an element of ' \
                        'an orthogonal matrix' % (i, j, scale)
                w, n, p, q = a[0]
                if (p, q) not in ((i, j), (j, i)):
                    return 'elements of the orthogonal matrix are permuted'
                which.add((w, n, (p, q) == (i, j), i == j))
        if len({x[:2] for x in which}) != 1 or len(
                {x[2] for x in which if not x[3]}) > 1:
            return 'elements of several matrices'
        d = dist(mon.svds[next(iter(which))[1]])
        if isinstance(d, str):
            return d
        if d[0] != 'n' or d[1]:
            return 'the matrix that is decomposed is not normal with mean 0'
        return None
    return go


def sub_gauss(m, repo):
    c = ClsV(find_cls(repo, 'Gaussian'))
    return m.call(c, [0.5, 0.25], {}, None, None)


def spread(k):
    """k entries that are not zero in every row, or in every column"""
    def go(res, mon, shape):
        r, c = shape
        cnt = [[], []]
        nz = []
        for i in range(r):
            for j in range(c):
                e = X.of(res[i * c + j])
                if X.is0(e):
                    continue
                nz.append(e)
                cnt[0].append(i)
                cnt[1].append(j)
        even = [set(cnt[0].count(i) for i in range(r)),
                set(cnt[1].count(j) for j in range(c))]
        mon.even = [even[0] == {k}, even[1] == {k}]
        if not any(mon.even):
            return '%s connections per row and %s per column instead of ' \
                '%d' % (sorted(even[0]), sorted(even[1]), k)
        if nz:
            return expect('n', 0.25, 0.5)(nz, mon, shape)
        return None
    return go


def blocks(shape):
    n = prod(shape) // 4
    return [1.0] * n + [2.0] * n + [3.0] * n + [4.0] * n


def cases():
    """(class, args, kwargs, shapes, judge(shape), rejected shapes)"""
    S2 = [(2, 3), (3, 2), (1, 4)]
    S4 = S2 + [(2, 2, 2, 1)]
    out = []

    def add(cls, a, kw, shapes, judge, rejected=()):
        out.append((cls, a, kw, shapes, judge, rejected))
    for n, f in (('DenseSqrtFanIn', lambda s: prod(s[1:])),
                 ('DenseSqrtFanInOut', lambda s: s[0] + prod(s[1:]))):
        r2 = math.sqrt(2) if n.endswith('Out') else 1.0
        for a, kw, v in (((), {}, math.sqrt(6) * r2),
                         ((), {'scale': 'rel'}, math.sqrt(6) * r2),
                         (('tanh',), {}, math.sqrt(3) * r2),
                         (('sigmoid',), {}, 4 * math.sqrt(3) * r2),
                         (('linear',), {}, 1.0), ((0.5,), {}, 0.5)):
            add(n, a, kw, S4, lambda s, v=v, f=f: expect(
                'u', -v / math.sqrt(f(s)), v / math.sqrt(f(s))), [(3,)])
    for a, kw, mu, sd in (((), {}, 0.0, 0.1), ((0.5,), {}, 0.0, 0.5),
                          ((2.0, -1.5), {}, -1.5, 2.0),
                          ((), {'mean': 3.0}, 3.0, 0.1)):
        add('Gaussian', a, kw, S4 + [(3,)],
            lambda s, mu=mu, sd=sd: expect('n', mu, sd))
    for a, kw, lo, hi in (((), {}, -0.1, 0.1), ((0.5,), {}, -0.5, 0.5),
                          ((-0.5,), {}, -0.5, 0.5), ((1.0, 3.0), {}, 1., 3.),
                          ((), {'low': -2.0, 'high': -1.0}, -2.0, -1.0)):
        add('Uniform', a, kw, S4 + [(3,)],
            lambda s, lo=lo, hi=hi: expect('u', lo, hi))
    for a, kw, sc, sd in (((), {}, 1.0, 0.01), ((2.0, 0.5), {}, 2.0, 0.5)):
        add('Identity', a, kw, [(2, 2), (3, 3)],
            lambda s, sc=sc, sd=sd: identity(sc, sd), [(2, 3), (3, 2), (3,),
                                                       (2, 2, 2)])
    add('Identity', (0.5, 2.0, False), {}, [(2, 3), (3, 2), (2, 2)],
        lambda s: identity(0.5, 2.0), [(3,), (2, 2, 2)])
    for a, r in (((), 1.0), ((0.77,), 0.77)):
        add('EchoState', a, {}, [(2, 2), (3, 3)], lambda s, r=r: echo(r),
            [(2, 3), (3, 2), (3,)])
    for a, r in (((), 1.0), ((2.0,), 2.0)):
        add('Orthogonal', a, {}, [(2, 3), (3, 2), (2, 2), (1, 3), (3, 1)],
            lambda s, r=r: orthogonal(r), [(3,), (2, 2, 2)])
    for a, kw, g in (
            ((), {}, lambda n: math.exp(1.0 / (2 * n))),
            (('rel',), {}, lambda n: math.sqrt(2) * math.exp(
                1.2 / (max(n, 6) - 2.4))),
            ((), {'scale': 3.0}, lambda n: 3.0)):
        add('RandomWalk', a, kw, [(1, 1), (2, 2), (3, 3), (7, 7)],
            lambda s, g=g: expect('n', 0.0, g(s[0]) / math.sqrt(s[0])),
            [(2, 3), (3,), (2, 2, 2)])
    for cls in ('SparseInputs', 'SparseOutputs'):
        for k in (1, 2):
            add(cls, (sub_gauss, k), {},
                [(3, 2), (2, 3), (2, 2), (3, 1), (1, 3)],
                lambda s, k=k: spread(k), [(3,)] + [(1, 1)] * (k == 2))
    add('LstmOptInit', (1.0, 2.0, 3.0, 4.0), {}, [(4,), (8,), (4, 2), (8, 3)],
        lambda s: const(blocks), [(3,), (6, 2)])
    add('LstmOptInit', (), {'input_block': 1.0, 'input_gate': 2.0,
                            'forget_gate': 3.0, 'output_gate': 4.0},
        [(4, 1)], lambda s: const(blocks))
    add('ArrayInitializer', (L([L([1.0, 2.0, 3.0]), L([4.0, 5.0, 6.0])]),),
        {}, [(2, 3)], lambda s: const(lambda s: [1., 2., 3., 4., 5., 6.]),
        [(3, 2), (6,), (2, 2)])
    return out


def p52(repo, rep, tier):
    rep.rule('values', 'every element has the documented distribution or '
             'value and a draw of its own')
    rep.rule('shape', 'the result has the requested shape')
    rep.rule('rejected', 'shapes the initialiser is not made for raise '
             'InitializationError')
    rep.rule('even', 'all positions of connections are equally likely')
    rep.rule('evaluate', 'evaluate_initializer accepts numbers, lists, '
             'arrays and initialisers, and turns to the fallback when an '
             'initialiser declines')
    rep.rule('orientation', 'units are the rows of a weight matrix, as in '
             'the layers (activations = inputs times W transposed)')
    turned = {}
    for cls, a, kw, shapes, judge, rej in cases():
        try:
            c = find_cls(repo, cls)
        except Exception:
            rep.skip('values', cls, 'not found')
            continue
        ow, fn = repo.lookup(c, '__call__')
        if not hasattr(fn, 'node'):
            rep.skip('values', cls, 'no __call__')
            continue
        rep.saw(fn.qual)
        for s in shapes:
            one(repo, rep, c, fn, a, kw, s, judge(s), turned)
            if cls == 'EchoState':
                one(repo, rep, c, fn, a, kw, s, judge(s), turned, Complex)
        for s in rej:
            declined(repo, rep, c, fn, a, kw, s)
    for cls, (fn, seen) in sorted(turned.items()):
        rep.check(all(e[0 if cls == 'SparseInputs' else 1] for e in seen),
                  'orientation', cls, '%s counts connections '
                  'along %s of the weights' % (
                      cls, 'columns, which belong to the inputs,' if
                      cls == 'SparseInputs' else
                      'rows, which belong to the units,'), loc(fn))
    evaluate(repo, rep)


def build(m, repo, c, a, kw):
    a = [x(m, repo) if callable(x) and not isinstance(x, (O, L)) else x
         for x in a]
    return m.call(ClsV(c), a, dict(kw), None, None)


def one(repo, rep, c, fn, a, kw, s, judge, turned, mon=Rnd):
    m = Machine(repo, None, mon, 3000, concrete=True)
    out = []
    supports = {}
    other = []

    def body(m):
        try:
            o = build(m, repo, c, a, kw)
            r = m.call_fn(fn, [s], {}, o, fn.node)
        except PyExc as e:
            if c.name.startswith('Sparse') and 1 in s and \
                    e.name == 'InitializationError':
                return
            out.append(('values', 'raises %s' % e.name))
            return
        if not isinstance(r, Arr):
            if isinstance(r, (int, float, tuple)) or r is None:
                out.append(('shape', 'returns %s' % (r,)))
                return
            raise Unsupported('result')
        if r.shape != s:
            out.append(('shape', 'an array of shape %s for shape %s' % (
                r.shape, s)))
            return
        out.append(('shape', None))
        vals = r.flat()
        if any(X.of(v) is None for v in vals):
            raise Unsupported('elements')
        out.append(('values', judge(vals, m.mon, s)))
        if c.name.startswith('Sparse'):
            k = tuple(not X.is0(X.of(v)) for v in vals)
            supports[k] = supports.get(k, 0) + 1
            other.append(m.mon.even)
    con = '%s%s.%s' % (c.name, '' if not a and not kw else str(
        tuple('Gaussian' if callable(x) else x.seq if isinstance(x, L) else x
              for x in a) + tuple(sorted(kw.items()))), '')
    con = '%s%s%s' % (con.rstrip('.'), s,
                      ' complex' if mon is Complex else '')
    try:
        m.each(body)
        if supports:
            turned.setdefault(c.name, (fn, []))[1].extend(other)
            out.append(('even', None if len(set(supports.values())) == 1
                        else 'positions of connections are not equally '
                        'likely'))
            n = len(supports)
            rows = all(e[0] for e in other)
            if not rows and not all(e[1] for e in other):
                out.append(('values', 'connections that are neither per row '
                            'nor per column'))
            w = choices(rows, a, s)
            out.append(('even', None if n == w else
                        '%d of %d sets of positions occur' % (n, w)))
    except Unsupported as e:
        rep.skip('values', con, str(e))
        return
    except X.Degenerate as e:
        rep.skip('values', con, str(e))
        return
    done = {}
    for rule, msg in out:
        if rule not in done or msg is not None:
            done[rule] = msg
    for rule, msg in sorted(done.items()):
        rep.check(msg is None, rule, con, '%s gives %s' % (con, msg),
                  loc(fn))


def choices(rows, a, s):
    k = [x for x in a if isinstance(x, int)][0]
    n, units = (s[1], s[0]) if rows else (s[0], s[1])
    return math.comb(n, k) ** units


def declined(repo, rep, c, fn, a, kw, s):
    m = Machine(repo, None, Rnd, 3000, concrete=True)
    out = []

    def body(m):
        try:
            o = build(m, repo, c, a, kw)
        except PyExc:
            raise Unsupported('constructor')
        try:
            m.call_fn(fn, [s], {}, o, fn.node)
        except PyExc as e:
            out.append(e.name)
            return
        out.append(None)
    con = '%s%s' % (c.name, s)
    try:
        m.each(body)
    except Unsupported as e:
        rep.skip('rejected', con, str(e))
        return
    bad = [x for x in out if x != 'InitializationError']
    rep.check(not bad, 'rejected', con, '%s %s for shape %s instead of '
              'InitializationError' % (c.name, 'returns' if None in bad else
                                       'raises %s' % bad[:1], s), loc(fn))


def evaluate(repo, rep):
    try:
        fn = repo.find_function('evaluate_initializer')
    except AnalysisBroken:
        rep.skip('evaluate', 'evaluate_initializer', 'not found')
        return
    rep.saw(fn.qual)
    G = lambda m: m.call(ClsV(find_cls(repo, 'Gaussian')), [0.5], {}, None,
                         None)
    ID = lambda m: m.call(ClsV(find_cls(repo, 'Identity')), [1.0, 0.5], {},
                          None, None)
    arr = lambda m: Arr([1.0, 2.0], (2,))
    lst = lambda m: L([1.0, 2.0])
    num = lambda v: (lambda m: v)
    two = const(lambda s: [1.0, 2.0])
    n5 = expect('n', 0.0, 0.5)
    tab = [
        ('a number', num(3), (2, 2), None, const(lambda s: [3.0] * 4)),
        ('a float', num(-0.5), (3,), None, const(lambda s: [-0.5] * 3)),
        ('a list', lst, (2,), None, two), ('an array', arr, (2,), None, two),
        ('an initialiser', G, (2, 2), None, n5),
        ('a list of another shape', lst, (3,), None, 'InitializationError'),
        ('a list of another shape, with fallback', lst, (3,), num(7),
         const(lambda s: [7.0] * 3)),
        ('an initialiser that declines', ID, (2, 3), None,
         'InitializationError'),
        ('an initialiser that declines, fallback initialiser', ID, (2, 3), G,
         n5),
        ('an initialiser that declines, fallback number', ID, (2, 3), num(2),
         const(lambda s: [2.0] * 6)),
        ('an initialiser that declines, fallback 0', ID, (2, 3), num(0),
         const(lambda s: [0.0] * 6)),
        ('an initialiser that accepts, with fallback', G, (3, 2), num(2), n5),
        ('a number, with fallback', num(4), (2,), num(2),
         const(lambda s: [4.0] * 2)),
        ('a text', num('x'), (2,), None, 'TypeError'),
        ('nothing', num(None), (2,), None, 'TypeError')]
    for what, ini, s, fb, want in tab:
        for seed in (None, 5):
            m = Machine(repo, None, Rnd, 3000, concrete=True)
            out = []

            def body(m):
                try:
                    kw = {} if fb is None else {'fallback': fb(m)}
                    if seed is not None:
                        kw['seed'] = seed
                    r = m.call_fn(fn, [ini(m), s], kw, None, fn.node)
                except PyExc as e:
                    out.append(None if e.name == want else 'raises %s' %
                               e.name)
                    return
                if not isinstance(r, Arr):
                    raise Unsupported('result')
                if isinstance(want, str):
                    out.append('returns an array instead of raising %s' %
                               want)
                elif r.shape != s:
                    out.append('returns shape %s for %s' % (r.shape, s))
                else:
                    out.append(want(r.flat(), m.mon, s))
            con = '%s, seed %s' % (what, seed)
            try:
                m.each(body)
            except (Unsupported, X.Degenerate) as e:
                rep.skip('evaluate', con, str(e))
                continue
            bad = [x for x in out if x]
            rep.check(not bad, 'evaluate', con, 'evaluate_initializer of %s '
                      '%s' % (what, bad[0] if bad else ''), loc(fn))
