"""The checking backend evaluated on small arrays.

Well-formed calls must give what the operation gives (part of P13); calls
with foreign arrays, with shapes that do not fit or with values that are not
finite must raise (P16)."""
import ast
import math

from .arr import Arr, make
from .hooks import guarded
from .kernels import Bounds
from .machine import ClsV, Ext, Func, L, Machine, Meth, O, PyExc, Unsupported
from .modvals import Mods, table
from .prog import find_cls
from .rawops import cases, close, flat, seq, old, shown
from .repo import Fn
from .valid import loc
from .watch import judge


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
          'Pow': 'pow'}


def plain(repo, cls, name):
    """the class has no operator of that name"""
    for c in repo.mro(cls):
        for r in repo.bases(c):
            if not r or r[0] != 'cls' and r[1] not in (
                    'object', 'builtins.object'):
                return False
        if c.node.decorator_list or c.node.keywords:
            return False
    return all(repo.lookup(cls, '__%s%s__' % (p, name))[1] is None
               for p in ('', 'r', 'i')) and (repo.lookup(
                   cls, '__getattr__')[1] is None)


class Chk(Mods):
    def call(self, m, f, args, kw, node):
        if isinstance(f, Ext) and f.name == 'type' and len(args) == 1:
            if isinstance(args[0], O) and args[0].cls is not None:
                return ClsV(args[0].cls)
        if isinstance(f, Ext) and f.name == 'numpy.isfinite' and \
                len(args) == 1 and isinstance(args[0], (int, float)):
            return math.isfinite(args[0])
        if isinstance(f, Ext) and f.name == 'numpy.isfinite' and \
                isinstance(args[0], Arr):
            xs = args[0].flat()
            if not all(isinstance(x, (int, float)) for x in xs):
                raise Unsupported('a value')
            return args[0].fresh([math.isfinite(x) for x in xs])
        return Mods.call(self, m, f, args, kw, node)

    def binop(self, m, op, a, b):
        r = Mods.binop(self, m, op, a, b)
        if r is NotImplemented and op in DUNDER and all(
                isinstance(x, (bool, int, float)) or isinstance(
                    x, O) and x.cls is not None and plain(m.repo, x.cls,
                                                          DUNDER[op])
                for x in (a, b)) and not all(isinstance(
                    x, (bool, int, float)) for x in (a, b)):
            raise PyExc('TypeError')
        return r


def backend(repo, m):
    h = O('wrapped backend', find_cls(repo, 'NumpyHandler'))
    h.none = False
    h.attrs['dtype'] = Ext('numpy.float64')
    h.attrs['array_type'] = Ext('numpy.ndarray')
    h.attrs['EMPTY'] = make([])
    c = find_cls(repo, 'DebugHandler')
    o = O('checking backend', c)
    o.none = False
    ow, init = repo.lookup(c, '__init__')
    m.call_fn(init, [h], {}, o, init.node)
    return o


def unwrap(repo, x):
    """the array inside"""
    if isinstance(x, O):
        for v in x.attrs.values():
            if isinstance(v, Arr):
                return v
        raise Unsupported('an array of the checking backend')
    return x


def entry(m, o, fn):
    """the method with its decorators applied"""
    f = Func(fn, None)
    for d in reversed(fn.node.decorator_list):
        dec = m.ev(d, m_frame(m, fn))
        if not isinstance(dec, Func):
            raise Unsupported('a decorator')
        f = m.call(dec, [f], {}, None, fn.node)
    return f


def m_frame(m, fn):
    from .machine import Frame
    return Frame(None, fn.mod, None)


def raw_call(m, o, fn, xs):
    return m.call(entry(m, o, fn), [o] + xs, {}, None, fn.node)


def wrap(repo, m, a):
    c = find_cls(repo, 'DebugArray')
    o = O('array', c)
    o.none = False
    ow, init = repo.lookup(c, '__init__')
    m.call_fn(init, [make(a)], {}, o, init.node)
    return o


def prepared(repo, m, args):
    return [wrap(repo, m, a) if isinstance(a, list) else a for a in args]


def fine(repo, m, fn, args, want):
    """a well-formed call"""
    o = backend(repo, m)
    xs = prepared(repo, m, args)
    try:
        raw_call(m, o, fn, xs)
    except Bounds as e:
        raise Unsupported('bounds')
    except PyExc as e:
        if e.name in ('NotImplementedError', 'NotImplemented'):
            raise Unsupported('not supported')
        return 'a well-formed call raises %s' % e.name
    for i, (x, a) in enumerate(zip(xs, args)):
        if not isinstance(a, list):
            continue
        g, w = unwrap(repo, x).flat(), flat(want.get(i, a))
        if any(not isinstance(v, (int, float)) for v in g):
            raise Unsupported('a value')
        if any(not close(p, q) for p, q in zip(g, w)):
            return 'argument %d becomes %s instead of %s' % (
                i + 1, shown(g[:8]), shown(w[:8]))
    return ''


def refused(repo, m, fn, make_args, why):
    o = backend(repo, m)
    xs = make_args(m)
    try:
        raw_call(m, o, fn, xs)
    except Bounds:
        return '%s is not refused' % why
    except PyExc as e:
        if e.name in ('NotImplementedError', 'NotImplemented'):
            raise Unsupported('not supported')
        return ''
    return '%s is not refused' % why


def each(repo, rep, rule, what, fn, body):
    def go():
        m = Machine(repo, None, Chk, 50, concrete=True)
        out = []
        m.each(lambda m: out.append(body(m)))
        return out
    n = len(rep.undecided)
    judge(rep, rule, what, guarded(rep, rule, what, go), loc(fn))
    return len(rep.undecided) > n


def finite(args, want):
    xs = [v for a in list(args) + list(want.values()) if isinstance(a, list)
          for v in flat(a)] + [a for a in args if isinstance(a, float)]
    return all(math.isfinite(x) for x in xs)


def title(op, args):
    return 'DebugHandler.%s of %s' % (op, ', '.join(
        str(a).replace(' ', '') for a in args))[:150]


def present(repo):
    names = {c.name for c in repo.classes()}
    return {'NumpyHandler', 'DebugHandler', 'DebugArray'} <= names


def g13(repo, rep, tier):
    rep.rule('accepted', 'the checking backend accepts every well-formed '
             'call and gives what the operation gives; the modifiers of '
             'values work on it')
    if not present(repo):
        return
    cls = find_cls(repo, 'DebugHandler')
    dead = {}
    for op, args, want in cases():
        ow, fn = repo.lookup(cls, op)
        if not isinstance(fn, Fn) or dead.get(op, 0) > 2 or not finite(
                args, want):
            continue
        if each(repo, rep, 'accepted', title(op, args), fn,
                lambda m: fine(repo, m, fn, args, want)):
            dead[op] = dead.get(op, 0) + 1
    for cname, args, calls in table():
        cs = [c for c in repo.classes() if c.name == cname and
              'value_modifiers' in c.mod.name]
        if len(cs) != 1 or dead.get(cname, 0) > 2:
            continue
        ow, fn = repo.lookup(cs[0], '__call__')
        ow, init = repo.lookup(cs[0], '__init__')
        if not isinstance(fn, Fn) or not isinstance(init, Fn):
            continue
        what = '%s(%s) with the checking backend on %s' % (
            cname, ', '.join(str(a).replace(' ', '') for a in args)[:60],
            str(calls[0][0][0]).replace(' ', '')[:80])
        if each(repo, rep, 'accepted', what, fn, lambda m: modified(
                repo, m, cs[0], init, fn, args, calls)):
            dead[cname] = dead.get(cname, 0) + 1


def modified(repo, m, c, init, fn, args, calls):
    o, r = O('modifier', c), O('rnd')
    o.none = r.none = False
    o.attrs['rnd'] = r
    h = backend(repo, m)
    try:
        m.call_fn(init, [make(a) if isinstance(a, list) else a
                         for a in args], {}, o, init.node)
        for i, (given, want) in enumerate(calls):
            xs = prepared(repo, m, given)
            m.call_fn(fn, [h] + xs, {}, o, fn.node)
            for x, w in zip(xs, want):
                g = unwrap(repo, x).flat()
                if any(not isinstance(v, (int, float)) for v in g):
                    raise Unsupported('a value')
                if any(not close(p, q) for p, q in zip(g, flat(w))):
                    return 'call %d gives %s instead of %s' % (
                        i + 1, shown(g[:8]), shown(flat(w)[:8]))
    except PyExc as e:
        return 'raises %s' % e.name
    return ''


# operations whose operands all have one shape
EQUAL = {'add_tt': 3, 'subtract_tt': 3, 'mult_tt': 3, 'divide_tt': 3,
         'mult_add_tt': 3, 'modulo_tt': 3, 'copy_to_if': 3, 'add_into_if': 3,
         'abs_t': 2, 'sqrt_t': 2, 'log_t': 2, 'sign_t': 2, 'rel': 2,
         'tanh': 2, 'sigmoid': 2, 'el': 2, 'copy_to': 2, 'softmax_m': 2,
         'rel_deriv': 4, 'tanh_deriv': 4, 'sigmoid_deriv': 4, 'el_deriv': 4}
SCALED = {'add_st': 3, 'mult_st': 3, 'mult_add_st': 3}


def misuse():
    """operation, arguments (Raw: not wrapped), what is wrong"""
    good = lambda n: [seq(2, 3, start=0.5) for _ in range(n)]
    shapes = (seq(3, 2), seq(2, 2), seq(6), seq(1, 3), seq(2, 1),
              seq(2, 3, 1))
    for op, n in sorted(EQUAL.items()):
        for i in range(n):
            for s in shapes:
                a = good(n)
                a[i] = s
                yield op, a, 'argument %d of another shape' % (i + 1)
            a = good(n)
            a[i] = Raw(a[i])
            yield op, a, 'a plain array as argument %d' % (i + 1)
    for op, n in sorted(SCALED.items()):
        for i in (1, 2):
            for s in shapes:
                a = [2.0] + good(2)
                a[i] = s
                yield op, a, 'argument %d of another shape' % (i + 1)
            a = [2.0] + good(2)
            a[i] = Raw(a[i])
            yield op, a, 'a plain array as argument %d' % (i + 1)
    for op in ('add_mv', 'subtract_mv', 'mult_mv', 'divide_mv',
               'mult_add_mv'):
        m, o = seq(2, 3), seq(2, 3)
        for v in (seq(3, 1), seq(1, 2), seq(3), seq(2), seq(1, 1)):
            yield op, [m, v, o], 'a vector of the wrong shape'
        yield op, [m, seq(1, 3), seq(3, 2)], 'a result of another shape'
        yield op, [Raw(m), seq(1, 3), o], 'a plain matrix'
        yield op, [m, Raw(seq(1, 3)), o], 'a plain vector'
        yield op, [m, seq(1, 3), Raw(o)], 'a plain result'
    for op in ('dot_mm', 'dot_add_mm'):
        for ta in (False, True):
            for tb in (False, True):
                s = lambda t, n, k: seq(k, n) if t else seq(n, k)
                for a, b, o in (((2, 3), (2, 3), (2, 3)),
                                ((2, 3), (3, 4), (4, 2)),
                                ((2, 3), (3, 4), (3, 4)),
                                ((2, 3), (4, 3), (2, 4))):
                    yield op, [s(ta, *a), s(tb, *b), seq(*o), ta, tb], \
                        'matrices that do not fit'
    for x in (float('nan'), float('inf'), -float('inf')):
        for op, n in sorted(EQUAL.items()):
            if op in ('copy_to_if', 'add_into_if') or op.endswith('_deriv'):
                continue
            a = good(n)
            a[0] = [[1.0, x, 2.0], [3.0, 4.0, 5.0]]
            yield op, a, 'the value %s' % x
        for op in sorted(SCALED):
            yield op, [x] + good(2), 'the factor %s' % x
            yield op, [2.0, [[1.0, x]], [[1.0, 2.0]]], 'the value %s' % x
    z = [[0.0, 1.0]]
    yield 'divide_tt', [[[1.0, 2.0]], z, old(1, 2)], 'a division by zero'
    yield 'log_t', [z, old(1, 2)], 'the logarithm of zero'
    yield 'clip_t', [seq(2, 2), 1.0, -1.0, seq(2, 2)], 'an empty range'
    yield 'clip_t', [seq(2, 2), -1.0, 1.0, seq(2, 3)], 'another shape'
    yield 'index_m_by_v', [seq(2, 3), [[0.0]], old(1, 1)], 'too few indices'
    yield 'binarize_v', [[[0.0], [3.0]], old(2, 3)], 'a class too large'
    yield 'binarize_v', [[[0.0], [-1.0]], old(2, 3)], 'a negative class'
    yield 'sum_t', [seq(2, 3), 2, old(2)], 'an axis that does not exist'
    yield 'broadcast_t', [seq(2, 3), 0, old(2, 3)], 'a source that is not flat'
    yield 'merge_tt', [seq(2, 3), seq(2, 2), old(2, 6)], 'sizes that differ'
    yield 'split_add_tt', [seq(2, 6), seq(2, 3), seq(2, 2)], \
        'sizes that differ'


class Raw(object):
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return 'plain ' + str(self.v)


def g16(repo, rep, tier):
    rep.rule('refused', 'the checking backend raises when an operand is not '
             'one of its arrays, does not fit or is not finite')
    if not present(repo):
        return
    cls = find_cls(repo, 'DebugHandler')
    dead = {}
    for op, args, why in misuse():
        ow, fn = repo.lookup(cls, op)
        if not isinstance(fn, Fn) or dead.get(op, 0) > 2:
            continue

        def given(m):
            return [make(a.v) if isinstance(a, Raw) else wrap(repo, m, a)
                    if isinstance(a, list) else a for a in args]
        if each(repo, rep, 'refused', title(op, args), fn,
                lambda m: refused(repo, m, fn, given, why)):
            dead[op] = dead.get(op, 0) + 1
