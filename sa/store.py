"""Elementwise symbolic execution of a path over arrays.

The content of every array is a formula (see elem) over the contents the
arrays had when the path began; handler operations change it by their
documented formula (property P12)."""
from fractions import Fraction

from .elem import Undecided, parse
from .handler_checks import FORMULAS, rename
from .prog import fname, recv
from .repo import Fn
from .terms import V, cval

VIEWS = ('reshape', 'ravel', 'flatten', 'view', 'squeeze')
NPF = {'numpy.abs': 'abs', 'numpy.sqrt': 'sqrt', 'numpy.exp': 'exp',
       'numpy.sign': 'sign', 'numpy.maximum': 'max', 'numpy.minimum': 'min',
       'numpy.clip': 'clip', 'max': 'max', 'min': 'min', 'numpy.max': 'max',
       'numpy.min': 'min', 'abs': 'abs', 'math.sqrt': 'sqrt',
       'numpy.square': 'square', 'numpy.log': 'log', 'numpy.power': 'pow',
       'numpy.fmax': 'max', 'numpy.fmin': 'min', 'math.exp': 'exp',
       'numpy.tanh': 'tanh', 'numpy.where': 'where', 'pow': 'pow',
       'math.pow': 'pow'}
SAMEV = ('numpy.asarray', 'numpy.array', 'float', 'numpy.float32',
         'numpy.float64', 'numpy.copy', 'numpy.ascontiguousarray')


class Unsure(Exception):
    pass


def subst(x, m):
    if isinstance(x, list):
        return [subst(y, m) for y in x]
    if not isinstance(x, tuple):
        return x
    if len(x) == 2 and x[0] == 'var':
        return m.get(x[1], x)
    return tuple(subst(y, m) for y in x)


class Store(object):
    """names: V -> name of a quantity; base: the interface of handlers"""

    def __init__(self, I, st, p, names, base, repo, alias=None):
        self.I, self.st, self.p = I, st, p
        self.names, self.base, self.repo = dict(names), base, repo
        self.mem = {}
        self.written = []          # (array, event)
        self.alias = alias or (lambda v: v)
        self.n = 0
        self.unsure = []

    def arr(self, v):
        """the array an expression denotes"""
        v = self.p.s(v)
        while True:
            if v.op == 'phi' or v.op == 'ref':
                w = self.p.s(v)
                if w is v:
                    break
                v = w
            elif v.op == 'call' and v.a[0].op == 'attr' and v.a[0].a[
                    1] in VIEWS:
                v = v.a[0].a[0]
            elif v.op == 'idx' and self.whole(v.a[1]):
                v = v.a[0]
            elif v.op == 'aug':
                v = v.a[1]
            else:
                break
        return self.alias(v)

    def whole(self, i):
        if i.op == 'slice':
            return all(cval(x, 1) is None for x in i.a)
        return cval(i, 0) is Ellipsis or str(i) in ('Ellipsis', '...')

    def name(self, v):
        return self.names.get(v) or str(v)

    def e(self, v):
        """formula of an expression"""
        a = self.arr(v)
        if a in self.mem:
            return self.mem[a]
        v = self.p.s(v)
        if v in self.names:
            return ('var', self.names[v])
        op, a_ = v.op, v.a
        if op == 'const':
            c = a_[0]
            if isinstance(c, bool) or not isinstance(c, (int, float)):
                return ('var', repr(c))
            return ('num', Fraction(str(c)))
        if op in ('bin', 'aug'):
            o = a_[0]
            return ('bin', o, self.e(a_[1]), self.e(a_[2]))
        if op == 'cmp':
            return ('cmp', a_[0], self.e(a_[1]), self.e(a_[2]))
        if op == 'un' and a_[0] == '-':
            return ('neg', self.e(a_[1]))
        if op == 'un' and a_[0] == '+':
            return self.e(a_[1])
        if op == 'phi':
            return ('cond', self.e(a_[0]), self.e(a_[1]), self.e(a_[2]))
        if op == 'not':
            return ('not', self.e(a_[0]))
        if op == 'call' and a_[0].op == 'ext':
            n = a_[0].a[0]
            if n in NPF and not a_[2]:
                xs = list(a_[1])
                if len(xs) == 1 and NPF[n] in ('max', 'min') and self.seq(
                        xs[0]):
                    xs = self.seq(xs[0])
                return ('f', NPF[n], [self.e(x) for x in xs])
            if n in SAMEV and a_[1]:
                return self.e(a_[1][0])
        if op == 'call' and a_[0].op == 'attr' and a_[0].a[1] in (
                'astype', 'copy'):
            return self.e(a_[0].a[0])
        if op == 'call' and fname(a_[0]) in ('zeros',):
            return ('num', Fraction(0))
        return ('var', self.name(a))

    def seq(self, v):
        if v.op == 'tuple':
            return list(v.a[0])
        o = self.I.obj(self.st, v) if v.op == 'ref' else None
        if o is not None and o.kind == 'list' and o.more is None:
            return list(o.items)
        return None

    def put(self, a, x, ev):
        self.mem[a] = x
        self.written.append((a, ev))

    def fresh(self, what):
        self.n += 1
        return ('var', '%s%d' % (what, self.n))

    def is_op(self, ev):
        if ev.kind not in ('call', 'mut') or ev.f.op not in (
                'attr', 'bound', 'func'):
            return None
        n = fname(ev.f)
        m = self.repo.lookup(self.base, n)
        return m[1] if m and isinstance(m[1], Fn) else None

    def do(self, ev):
        """effect of one event; True if it was one on arrays"""
        if ev.kind == 'aug':
            t = self.arr(ev.target)
            if t in self.mem or t in self.names:
                self.put(t, ('bin', ev.aop, self.e(ev.target),
                             self.e(ev.val)), ev)
                return True
            return False
        if ev.kind == 'setitem':
            t = self.arr(ev.obj)
            if self.whole(ev.idx):
                self.put(t, self.e(ev.val), ev)
            else:
                self.put(t, self.fresh('part'), ev)
            return True
        fn = self.is_op(ev)
        if fn is None:
            return False
        n = fname(ev.f)
        ps = fn.params()[1:]
        args = dict(zip(ps, ev.args))
        args.update(ev.kw)
        if n in ('zeros', 'ones'):
            self.mem[self.p.s(ev.res)] = ('num', Fraction(0 if n == 'zeros' else 1))
            return True
        if n == 'allocate':
            self.mem[self.p.s(ev.res)] = self.fresh('memory')
            return True
        if n in ('create_from_numpy', 'get_numpy_copy'):
            self.mem[self.p.s(ev.res)] = self.e(ev.args[0] if ev.args else
                                      list(ev.kw.values())[0])
            return True
        for a in ps:
            if a not in args:
                d = fn_default(fn, a)
                if d is not None:
                    args[a] = d
        from .opspec import OPS
        if n in FORMULAS:
            dst, src = FORMULAS[n]
            f = parse(src)
            m = {a: self.e(x) for a, x in args.items()}
            self.put(self.arr(args[dst]), subst(f, m), ev)
            return True
        if n == 'sum_t' and 'out' in args:
            ax = cval(args.get('axis', V('const', None)), None)
            self.put(self.arr(args['out']), ('f', 'sum%s' % ax, [
                self.e(args['a'])]), ev)
            return True
        if n in OPS:
            for w in OPS[n][1]:
                if w in args:
                    self.put(self.arr(args[w]), self.fresh(n), ev)
            return True
        if n in ('is_fully_finite',):
            return True
        return False


def fn_default(fn, name):
    import ast
    a = fn.node.args
    ps = [x.arg for x in a.args]
    off = len(ps) - len(a.defaults)
    i = ps.index(name) if name in ps else -1
    if i >= off:
        d = a.defaults[i - off]
        if isinstance(d, ast.Constant):
            return V('const', d.value)
    return None


def value_of(src, **vars_):
    return subst(parse(src), vars_)


__all__ = ['Store', 'Undecided', 'value_of', 'rename']
