"""Handler operations evaluated on small arrays by the abstract machine.

Numpy code and the C of the CUDA kernels are evaluated on arrays of exact or
extreme numbers and compared with the documented operation.  Part of P12."""
import ast
import math

from . import cparse
from .arr import Arr, fill, make
from .hooks import guarded
from .kernels import Bounds, Cuda, Ptr, Return
from .machine import Ext, L, Machine, Meth, O, PyExc, Unsupported, down
from .prog import find_cls
from .valid import loc
from .watch import judge
from .windows import Eval

NAN = float('nan')


class Ops(Eval):
    fns = {}
    budget = [10 ** 9]

    def opaque(self, fn):
        return False

    def constant(self, e):
        return Eval.constant(self, e) or isinstance(
            e, ast.Call) and 'ElementwiseKernel' in ast.unparse(e.func)

    def elementwise(self, source, args):
        """once for every element of the first array"""
        try:
            if source not in SOURCES:
                SOURCES[source] = cparse.parse_kernel(*source)
            params, body = SOURCES[source]
            body = ('block', body) if isinstance(body, list) else body
        except cparse.CError as e:
            raise Unsupported('kernel: %s' % e)
        arrays = [a for a in args if isinstance(a, Arr)]
        if len(params) != len(args) or not arrays:
            raise Unsupported('arguments of a kernel')
        k = Cuda({'elementwise': (params, body)}, 'elementwise',
                 self.budget)
        for i in range(arrays[0].size):
            k.env, k.ints = {'i': i}, {'i'}
            for (n, ptr, ty), v in zip(params, args):
                if ptr != isinstance(v, Arr):
                    raise Unsupported('argument %s' % n)
                k.env[n] = Ptr(v) if ptr else v
            try:
                k.stmt(body)
            except Return:
                pass
        return None

    def call(self, m, f, args, kw, node):
        if isinstance(f, Meth) and isinstance(f.obj, O) and \
                f.obj.tag in ('self', 'handler'):
            raise Unsupported(f.name)
        if isinstance(f, Ext) and f.name.startswith('pycuda.gpuarray.') and \
                f.name.split('.')[-1] in ('empty', 'zeros'):
            return fill(down(args[0]), None if f.name.endswith(
                'empty') else 0.0)
        if isinstance(f, Ext) and f.name.split('.')[-1] == \
                'ElementwiseKernel' and len(args) > 1 and all(
                    isinstance(a, str) for a in args[:2]):
            o = O('elementwise kernel')
            o.elementwise = tuple(args[:2])
            return o
        if getattr(f, 'elementwise', None) is not None:
            if kw:
                raise Unsupported('options of an elementwise kernel')
            return self.elementwise(f.elementwise, args)
        r = Eval.call(self, m, f, args, kw, node)
        if r is NotImplemented and (isinstance(f, O) or isinstance(
                f, Ext) and not f.name.startswith('numpy.') and any(
                    isinstance(a, Arr) for a in args)):
            raise Unsupported('a call of %r' % getattr(f, 'name', f))
        return r


SOURCES = {}


def turned(x):
    return [list(r) for r in zip(*x)]


def softmax(m):
    out = []
    for r in m:
        t = max(r)
        e = [math.exp(v - t) for v in r]
        out.append([v / sum(e) for v in e])
    return out


def merged(a, b):
    if not isinstance(a[0], list):
        return a + b
    return [merged(x, y) for x, y in zip(a, b)]


def split(x, a, b):
    if not isinstance(x[0], list):
        n = len(a)
        return [p + q for p, q in zip(a, x[:n])], [
            p + q for p, q in zip(b, x[n:])]
    r = [split(*t) for t in zip(x, a, b)]
    return [t[0] for t in r], [t[1] for t in r]


def zeros(*s):
    return 0.0 if not s else [zeros(*s[1:]) for _ in range(s[0])]


def seq(*s, start=1.0, step=1.0):
    c = [start - step]

    def go(s):
        if not s:
            c[0] += step
            return c[0]
        return [go(s[1:]) for _ in range(s[0])]
    return go(s)


OLD = 77.0


def old(*s):
    return OLD if not s else [old(*s[1:]) for _ in range(s[0])]


def cases():
    """operation, arguments, what they are afterwards (None: unchanged)"""
    for m in ([[0.0, 0.0]], [[1.0, 2.0, 3.0], [3.0, 2.0, 1.0]],
              [[1000.0, 1001.0], [-1000.0, -1001.0], [0.5, 0.25]],
              [[-2000.0, -2000.0, -2000.0], [700.0, -700.0, 0.0]],
              [[5.0]], [[-3.0], [1e4], [-1e4]],
              [seq(40, start=-3.0, step=0.25)]):
        yield 'softmax_m', [m, old(len(m), len(m[0]))], {1: softmax(m)}
    for sa, sb in (((2, 3), (2, 2)), ((1, 1), (1, 4)), ((3, 4), (3, 1)),
                   ((2, 2), (2, 2)), ((2, 3, 1), (2, 3, 3)),
                   ((1, 2, 2, 3), (1, 2, 2, 1)), ((4, 2), (4, 5))):
        a, b = seq(*sa), seq(*sb, start=-1.0, step=-1.0)
        o = sa[:-1] + (sa[-1] + sb[-1],)
        yield 'merge_tt', [a, b, old(*o)], {2: merged(a, b)}
        x = seq(*o, start=100.0)
        ra, rb = split(x, a, b)
        yield 'split_add_tt', [x, a, b], {1: ra, 2: rb}
    for n, k in ((1, 1), (2, 3), (3, 2), (4, 4), (5, 1)):
        m = seq(n, k)
        v = [[float((3 * i + 1) % k)] for i in range(n)]
        yield 'index_m_by_v', [m, v, old(n, 1)], {
            2: [[m[i][int(v[i][0])]] for i in range(n)]}
        yield 'binarize_v', [v, old(n, k)], {1: [
            [1.0 if j == int(v[i][0]) else 0.0 for j in range(k)]
            for i in range(n)]}
        s = seq(n, k, start=-2.0, step=1.5)
        yield 'sum_t', [s, 0, old(k)], {2: [
            sum(s[i][j] for i in range(n)) for j in range(k)]}
        yield 'sum_t', [s, 0, old(1, k)], {2: [[
            sum(s[i][j] for i in range(n)) for j in range(k)]]}
        yield 'sum_t', [s, 1, old(n)], {2: [sum(r) for r in s]}
        yield 'sum_t', [s, 1, old(n, 1)], {2: [[sum(r)] for r in s]}
        for lo, hi in ((-1.0, 1.0), (0.0, 2.5), (-100.0, 100.0)):
            yield 'clip_t', [s, lo, hi, old(n, k)], {3: [
                [min(max(x, lo), hi) for x in r] for r in s]}
        c = [[float((i + 2 * j) % 3 - 1) for j in range(k)]
             for i in range(n)]
        t = seq(n, k, start=50.0)
        yield 'copy_to_if', [s, t, c], {1: [
            [p if r else q for p, q, r in zip(*z)] for z in zip(s, t, c)]}
        yield 'add_into_if', [s, t, c], {1: [
            [p + q if r else q for p, q, r in zip(*z)]
            for z in zip(s, t, c)]}
        yield 'fill_if', [t, 9.0, c], {0: [
            [9.0 if r else q for q, r in zip(*z)] for z in zip(t, c)]}
        yield 'broadcast_t', [[s[0]], 0, old(n, k)], {2: [s[0]] * n}
        yield 'broadcast_t', [[[r[0]] for r in s], 1, old(n, k)], {
            2: [[r[0]] * k for r in s]}
        row, col = [seq(k, start=2.0)], [[x] for x in seq(n, start=-3.0)]
        for op, f in (('add_mv', lambda a, b, o: a + b),
                      ('subtract_mv', lambda a, b, o: a - b),
                      ('mult_mv', lambda a, b, o: a * b),
                      ('divide_mv', lambda a, b, o: a / b),
                      ('mult_add_mv', lambda a, b, o: o + a * b)):
            for v in (row, col):
                if op == 'divide_mv' and any(0.0 in r for r in v):
                    continue
                yield op, [s, v, old(n, k)], {2: [
                    [f(s[i][j], v[i % len(v)][j % len(v[0])], OLD)
                     for j in range(k)] for i in range(n)]}
        u = seq(n, k, start=0.5, step=0.75)
        for op, f in (('add_tt', lambda a, b, o: a + b),
                      ('subtract_tt', lambda a, b, o: a - b),
                      ('mult_tt', lambda a, b, o: a * b),
                      ('divide_tt', lambda a, b, o: a / b),
                      ('mult_add_tt', lambda a, b, o: o + a * b)):
            yield op, [s, u, old(n, k)], {2: [
                [f(p, q, OLD) for p, q in zip(*z)] for z in zip(s, u)]}
        for op, f in (('add_st', lambda a, b, o: a + b),
                      ('mult_st', lambda a, b, o: a * b),
                      ('mult_add_st', lambda a, b, o: o + a * b)):
            for x in (0.0, -2.0, 0.5):
                yield op, [x, s, old(n, k)], {2: [
                    [f(x, q, OLD) for q in r] for r in s]}
        for op, f, z in (
                ('abs_t', abs, s), ('sqrt_t', math.sqrt, u),
                ('log_t', math.log, u),
                ('sign_t', lambda x: float((x > 0) - (x < 0)), s),
                ('rel', lambda x: max(x, 0.0), s),
                ('tanh', math.tanh, s),
                ('sigmoid', lambda x: 1 / (1 + math.exp(-x)), s),
                ('el', lambda x: x if x > 0 else math.exp(x) - 1, s),
                ('copy_to', lambda x: x, s)):
            yield op, [z, old(n, k)], {1: [[f(x) for x in r] for r in z]}
        dy, xs = seq(n, k, start=3.0, step=-0.5), seq(
            n, k, start=-1.0, step=0.5)
        for op, f, d in (
                ('rel', lambda x: max(x, 0.0), lambda x, y: float(x > 0)),
                ('tanh', math.tanh, lambda x, y: 1 - y * y),
                ('sigmoid', lambda x: 1 / (1 + math.exp(-x)),
                 lambda x, y: y * (1 - y)),
                ('el', lambda x: x if x > 0 else math.exp(x) - 1,
                 lambda x, y: 1.0 if x >= 0 else y + 1)):
            ys = [[f(x) for x in r] for r in xs]
            yield op + '_deriv', [xs, ys, dy, old(n, k)], {3: [
                [e * d(x, y) for x, y, e in zip(*z)]
                for z in zip(xs, ys, dy)]}
        q = [[float(5 * i + 3 * j) for j in range(k)] for i in range(n)]
        r = [[float(1 + (i + j) % 4) for j in range(k)] for i in range(n)]
        yield 'modulo_tt', [q, r, old(n, k)], {2: [
            [math.fmod(*t) for t in zip(*z)] for z in zip(q, r)]}
        for ta in (False, True):
            for tb in (False, True):
                a, b = seq(n, k), seq(k, 3, start=0.5)
                c = [[sum(a[i][t] * b[t][j] for t in range(k))
                      for j in range(3)] for i in range(n)]
                args = [turned(a) if ta else a, turned(b) if tb else b,
                        old(n, 3), ta, tb]
                yield 'dot_mm', args, {2: c}
                yield 'dot_add_mm', args, {2: [
                    [x + OLD for x in z] for z in c]}
    for op, f in (('rel', lambda x: max(x, 0.0)),
                  ('tanh', math.tanh),
                  ('sigmoid', lambda x: 1 / (1 + math.exp(-x))
                   if x > -700 else 0.0),
                  ('el', lambda x: x if x > 0 else math.expm1(x))):
        z = [[0.0, 1000.0, -1000.0, 1e-3, -1e-3, 30.0, -30.0]]
        yield op, [z, old(1, 7)], {1: [[f(x) for x in r] for r in z]}


def close(a, b):
    return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def shown(xs):
    return '[%s]' % ', '.join('%g' % x for x in xs)


def compare(got, want, args):
    for i, a in enumerate(got):
        w = want.get(i, args[i])
        if not isinstance(a, Arr):
            continue
        g = a.flat()
        w = flat(w)
        if any(x is None or not isinstance(x, (int, float)) for x in g):
            raise Unsupported('a value')
        if any(not close(x, y) for x, y in zip(g, w)):
            return 'argument %d becomes %s instead of %s' % (
                i + 1, shown(g[:8]), shown(w[:8])) if i in want else \
                'changes argument %d' % (i + 1)
    return ''


def value(m, fn, cls, args, want, node):
    o = O('handler under test', cls)
    o.none = False
    o.attrs['dtype'] = Ext('numpy.float64')
    o.attrs['MAX_BLOCKS'] = 10
    xs = [make(a) if isinstance(a, list) else a for a in args]
    try:
        m.call_fn(fn, xs, {}, o, node)
    except Bounds as e:
        return 'leaves its arrays: %s' % e.what
    except PyExc as e:
        if e.name in ('NotImplementedError', 'NotImplemented'):
            return None
        return 'raises %s' % e.name
    return compare(xs, want, args)


def run(repo, rep, rule):
    for name in ('NumpyHandler', 'PyCudaHandler'):
        if name not in {c.name for c in repo.classes()}:
            continue
        cls = find_cls(repo, name)
        dead = {}
        for op, args, want in cases():
            ow, fn = repo.lookup(cls, op)
            if not hasattr(fn, 'node') or dead.get(op, 0) > 2:
                continue
            what = '%s.%s of %s' % (name, op, ', '.join(
                str(a).replace(' ', '') for a in args))[:150]

            def go():
                m = Machine(repo, None, Ops, 50, concrete=True)
                out = []
                m.each(lambda m: out.append(value(
                    m, fn, cls, args, want, fn.node)))
                if None in out:
                    raise Unsupported('not supported by the backend')
                return out
            n = len(rep.undecided)
            judge(rep, rule, what, guarded(rep, rule, what, go), loc(fn))
            if len(rep.undecided) > n:
                dead[op] = dead.get(op, 0) + 1


def g12(repo, rep, tier):
    rep.rule('values', 'on small arrays, with ordinary and extreme values, '
             'every operation gives what is documented')
    run(repo, rep, 'values')
