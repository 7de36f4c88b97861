"""Value and gradient modifiers evaluated on small arrays.

Constructor and repeated calls are evaluated by the abstract machine with the
operations of NumpyHandler; the arrays are compared with the documented
result.  Part of P51."""
import math

from .arr import Arr, make
from .hooks import guarded
from .machine import Ext, Machine, O, PyExc, Unsupported
from .prog import find_cls
from .rawops import Ops, close, flat, seq, shown
from .repo import Fn
from .valid import loc
from .watch import judge


HUGE = 1.7976931348623157e308


class Mods(Ops):
    def compare(self, m, op, a, b):
        if op in ('Eq', 'Is', 'NotEq', 'IsNot') and all(
                isinstance(x, Ext) and x.name.split('.')[-1] in (
                    'ndarray', 'float64') for x in (a, b)):
            r = a.name.split('.')[-1] == b.name.split('.')[-1]
            return r == (op in ('Eq', 'Is'))
        return Ops.compare(self, m, op, a, b)

    def call(self, m, f, args, kw, node):
        if isinstance(f, Ext) and f.name == 'type' and len(args) == 1 and \
                isinstance(args[0], Arr):
            return Ext('numpy.ndarray')
        if isinstance(f, Ext) and f.name == 'isinstance':
            return NotImplemented
        if isinstance(f, Ext) and f.name == 'numpy.finfo':
            o = O('finfo')
            o.none = False
            o.attrs['max'], o.attrs['min'] = HUGE, -HUGE
            return o
        return Ops.call(self, m, f, args, kw, node)


def leaf(f, *xs):
    if isinstance(xs[0], list):
        return [leaf(f, *t) for t in zip(*xs)]
    return f(*xs)


def limited(limit):
    def f(x):
        if not isinstance(x[0], list):
            return x
        out = []
        for r in x:
            n = math.sqrt(sum(v * v for v in flat(r)))
            out.append(leaf(lambda v: v * limit / n if n > limit else v, r))
        return out
    return f


def clipped(lo, hi):
    return lambda x: leaf(lambda v: min(max(v, lo), hi), x)


SHAPES = ((3,), (1, 1), (2, 3), (3, 2), (4, 1), (2, 2, 3), (3, 2, 1, 2))


def views():
    for i, s in enumerate(SHAPES):
        yield seq(*s, start=-2.0, step=1.25)
        yield seq(*s, start=0.0, step=0.0)
        yield seq(*s, start=-3000.0, step=0.5)


def same(x):
    return x


def table():
    """class, arguments, [(arrays handed over, arrays afterwards)]"""
    for v in views():
        for limit in (0.5, 1.0, 3.0, 10.0):
            f = limited(limit)
            yield 'ConstrainL2Norm', [limit], [([v], [f(v)])]
        yield 'ClipValues', [], [([v], [clipped(-1.0, 1.0)(v)])]
        yield 'ClipValues', [-2.5, 0.5], [([v], [clipped(-2.5, 0.5)(v)])]
        k = [0]

        def bit(_):
            k[0] += 1
            return float(k[0] % 2)
        mask = leaf(bit, v)
        by = lambda a, b: a * b
        w = leaf(lambda a: a + 7.0, v)
        yield 'MaskValues', [mask], [([v], [leaf(by, v, mask)]),
                                     ([w], [leaf(by, w, mask)])]
        yield 'FreezeValues', [], [([v], [v]), ([w], [v]), ([w], [v])]
        yield 'FreezeValues', [w], [([v], [w]), ([v], [w])]
        for f in (0.0, 0.1, 2.0):
            sg = leaf(lambda a: float((a > 0) - (a < 0)), v)
            yield 'L1Decay', [f], [([v, w], [v, leaf(
                lambda g, s: g + f * s, w, sg)])]
            yield 'L2Decay', [f], [([v, w], [v, leaf(
                lambda g, p: g + f * p, w, v)])]


def handler(repo):
    h = O('handler under test', find_cls(repo, 'NumpyHandler'))
    h.none = False
    h.attrs['dtype'] = Ext('numpy.float64')
    h.attrs['array_type'] = Ext('numpy.ndarray')
    return h


def one(repo, m, c, args, calls):
    o = O('modifier', c)
    o.none = False
    ow, init = repo.lookup(c, '__init__')
    ow, fn = repo.lookup(c, '__call__')
    r = O('rnd')
    r.none = False
    o.attrs['rnd'] = r
    h = handler(repo)
    try:
        m.call_fn(init, [make(a) if isinstance(a, list) else a
                         for a in args], {}, o, init.node)
        for i, (given, want) in enumerate(calls):
            xs = [make(a) for a in given]
            m.call_fn(fn, [h] + xs, {}, o, fn.node)
            for x, w in zip(xs, want):
                g = x.flat()
                if any(not isinstance(v, (int, float)) for v in g):
                    raise Unsupported('a value')
                if any(not close(a, b) for a, b in zip(g, flat(w))):
                    return 'call %d gives %s instead of %s' % (
                        i + 1, shown(g[:8]), shown(flat(w)[:8]))
    except PyExc as e:
        return 'raises %s' % e.name
    return ''


def run(repo, rep, rule):
    names = {c.name for c in repo.classes()}
    dead = {}
    for cname, args, calls in table():
        if cname not in names or dead.get(cname, 0) > 2:
            continue
        # L1Decay and L2Decay are also layers
        cs = [c for c in repo.classes() if c.name == cname and
              'value_modifiers' in c.mod.name]
        if len(cs) != 1:
            continue
        c = cs[0]
        ow, fn = repo.lookup(c, '__call__')
        ow, init = repo.lookup(c, '__init__')
        if not isinstance(fn, Fn) or not isinstance(init, Fn):
            continue
        what = '%s(%s) on %s' % (cname, ', '.join(
            str(a).replace(' ', '') for a in args)[:60], str(
                calls[0][0][0]).replace(' ', '')[:80])

        def go():
            m = Machine(repo, None, Mods, 50, concrete=True)
            out = []
            m.each(lambda m: out.append(one(repo, m, c, args, calls)))
            return out
        n = len(rep.undecided)
        judge(rep, rule, what, guarded(rep, rule, what, go), loc(fn))
        if len(rep.undecided) > n:
            dead[cname] = dead.get(cname, 0) + 1


def g51(repo, rep, tier):
    rep.rule('values', 'on small arrays every modifier leaves the documented '
             'values behind, call after call')
    run(repo, rep, 'values')
