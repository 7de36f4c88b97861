"""Value graph over exact numbers, variables and uninterpreted functions.

Expressions are shared (hash-consed).  Equality of two expressions for all
values of the variables is decided by random interpretation (Gulwani and
Necula, POPL 2004): both graphs are mapped to the field of integers modulo
the prime 2**61 - 1, variables to random elements, uninterpreted functions to
random functions of the value of their argument.  Equal expressions are
always mapped to equal elements; different ones collide with probability
below degree / 2**61 per round."""
import hashlib
from fractions import Fraction

P = (1 << 61) - 1


class Retry(Exception):
    pass


class Degenerate(Exception):
    """division by an expression that is zero"""


_tab = {}


class E(object):
    __slots__ = ('op', 'a', 'n')

    def __init__(self, op, a, n):
        self.op, self.a, self.n = op, a, n

    def __repr__(self):
        return show(self)

    # ------------------------------------------------------------ algebra --
    def __add__(self, o):
        o = of(o)
        if o is None:
            return NotImplemented
        if is0(self):
            return o
        if is0(o):
            return self
        if self.op == 'n' and o.op == 'n':
            return num(self.a[0] + o.a[0])
        return mk('+', (self, o) if self.n <= o.n else (o, self))
    __radd__ = __add__

    def __neg__(self):
        return self * num(-1)

    def __sub__(self, o):
        o = of(o)
        if o is None:
            return NotImplemented
        return ZERO if o is self else self + -o

    def __rsub__(self, o):
        return of(o) + -self

    def __mul__(self, o):
        o = of(o)
        if o is None:
            return NotImplemented
        if is0(self) or is0(o):
            return ZERO
        if is1(self):
            return o
        if is1(o):
            return self
        if self.op == 'n' and o.op == 'n':
            return num(self.a[0] * o.a[0])
        return mk('*', (self, o) if self.n <= o.n else (o, self))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = of(o)
        if o is None:
            return NotImplemented
        if o.op == 'n':
            if not o.a[0]:
                raise Degenerate('division by zero')
            return self * num(1 / o.a[0])
        return mk('/', (self, o)) if not is0(self) else ZERO

    def __rtruediv__(self, o):
        return of(o) / self

    def __abs__(self):
        return num(abs(self.a[0])) if self.op == 'n' else fn('abs', self)

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise TypeError('power')
        r = ONE
        for _ in range(k):
            r = r * self
        return r


def mk(op, a):
    k = (op,) + tuple(x.n if isinstance(x, E) else x for x in a)
    r = _tab.get(k)
    if r is None:
        r = _tab[k] = E(op, a, len(_tab))
    return r


def reset():
    """forget the expressions of the previous analysis"""
    _tab.clear()
    for e in (ZERO, ONE):
        _tab[('n',) + e.a] = e


def num(x):
    if isinstance(x, float):
        x = Fraction(x).limit_denominator(10 ** 9)
    return mk('n', (Fraction(x),))


def var(*name):
    return mk('v', name)


def fn(name, *args):
    return mk('f', (name,) + tuple(of(x) for x in args))


ZERO, ONE = num(0), num(1)


def of(x):
    if isinstance(x, E):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return num(x)
    return None


def is0(e):
    return e is ZERO


def is1(e):
    return e is ONE


def const(x):
    """the number x is, or None"""
    if isinstance(x, E):
        return x.a[0] if x.op == 'n' else None
    if isinstance(x, (bool, int, float)):
        return Fraction(x)
    return None


def show(e, d=0):
    if e.op == 'n':
        return str(e.a[0])
    if e.op == 'v':
        return '%s%s' % (e.a[0], list(e.a[1:]) if e.a[1:] else '')
    if d > 5:
        return '...'
    if e.op == 'f':
        return '%s(%s)' % (e.a[0], ', '.join(show(x, d + 1)
                                             for x in e.a[1:]))
    return '(%s %s %s)' % (show(e.a[0], d + 1), e.op, show(e.a[1], d + 1))


def order(roots):
    """all expressions below roots, operands first"""
    seen, out, st = set(), [], [(r, False) for r in roots]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x.n in seen:
            continue
        seen.add(x.n)
        st.append((x, True))
        for y in x.a:
            if isinstance(y, E) and y.n not in seen:
                st.append((y, False))
    return out


def prf(*k):
    h = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') % P


class Interp(object):
    """one random interpretation; alt(name) -> variables drawn anew"""

    def __init__(self, seed, alt=None, fixed=None):
        self.seed, self.alt, self.memo = seed, alt, {}
        self.fixed = fixed or {}

    def __call__(self, e):
        m = self.memo
        if e.n in m:
            return m[e.n]
        for x in order([e]):
            if x.n not in m:
                m[x.n] = self.one(x)
        return m[e.n]

    def one(self, x):
        m, a = self.memo, x.a
        if x.op == 'n':
            return a[0].numerator % P * pow(a[0].denominator, P - 2, P) % P
        if x.op == 'v':
            if a in self.fixed:
                return self.fixed[a] % P
            return prf(self.seed, 'v', a,
                       'alt' if self.alt and self.alt(a) else '')
        if x.op == '+':
            return (m[a[0].n] + m[a[1].n]) % P
        if x.op == '*':
            return m[a[0].n] * m[a[1].n] % P
        if x.op == '/':
            d = m[a[1].n]
            if not d:
                raise Degenerate(show(a[1]))
            return m[a[0].n] * pow(d, P - 2, P) % P
        v = tuple(m[y.n] for y in a[1:])
        f = a[0]
        if f == 'sqrt':
            s = pow(v[0], (P + 1) // 4, P)
            if s * s % P != v[0]:
                raise Retry()
            return min(s, P - s)
        h = prf(self.seed, 'f', f, v)
        if f in ('nz', 'pos'):
            return h & 1 if v[0] else 0
        if f == 'sgn':
            return (1 if h & 1 else P - 1) if v[0] else 0
        return h


def rounds(check, n=3, limit=400, alt=None, fixed=None):
    """check(interp) must hold in n random interpretations"""
    got = s = 0
    while got < n:
        s += 1
        if s > limit:
            raise Degenerate('no interpretation with square roots')
        try:
            if not check(Interp(s, alt, fixed)):
                return False
        except Retry:
            continue
        got += 1
    return True


def same(a, b):
    return a is b or rounds(lambda i: i(a) == i(b))


D_ = {'sigmoid': lambda y, x: y * (ONE - y), 'tanh': lambda y, x: ONE - y * y,
      'exp': lambda y, x: y, 'log': lambda y, x: ONE / x,
      'sqrt': lambda y, x: ONE / (num(2) * y), 'rel': lambda y, x: fn('pos', y),
      'el': lambda y, x: fn('eld', y), 'abs': lambda y, x: fn('sgn', x),
      'pos': None, 'nz': None, 'sgn': None}


def gradient(outs):
    """outs: [(expression, weight)]; -> {variable: d sum(w * e) / d variable}"""
    adj = {}
    for e, w in outs:
        adj[e.n] = adj[e.n] + w if e.n in adj else w
    res = {}
    for x in reversed(order([e for e, _ in outs])):
        w = adj.get(x.n)
        if w is None or is0(w):
            continue

        def add(y, v):
            if not is0(v):
                adj[y.n] = adj[y.n] + v if y.n in adj else v
        if x.op == 'v':
            res[x.a] = w
        elif x.op == '+':
            add(x.a[0], w)
            add(x.a[1], w)
        elif x.op == '*':
            add(x.a[0], w * x.a[1])
            add(x.a[1], w * x.a[0])
        elif x.op == '/':
            add(x.a[0], w / x.a[1])
            add(x.a[1], -(w * x) / x.a[1])
        elif x.op == 'f':
            if x.a[0] not in D_:
                raise Degenerate('derivative of %s' % x.a[0])
            d = D_[x.a[0]]
            if d is not None:
                add(x.a[1], w * d(x, x.a[1]))
    return res


def variables(e):
    return [x.a for x in order([e]) if x.op == 'v']
