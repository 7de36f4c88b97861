"""Polynomials and rational functions with exact coefficients over arbitrary
hashable atoms; the normal form used to compare formulas."""
from fractions import Fraction


def akey(a):
    return (str(type(a)), str(a))


class Poly(object):
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c != 0}
        self._h = None

    @staticmethod
    def num(n):
        return Poly({(): Fraction(n)})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, e),): Fraction(1)})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        if len(self.t) * len(o.t) > 200000:
            raise OverflowError('polynomial too large')
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def __pow__(self, n):
        r = Poly.num(1)
        for _ in range(n):
            r = r * self
        return r

    def scale(self, f):
        return Poly({m: c * f for m, c in self.t.items()})

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def const(self):
        """the constant value or None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def subst(self, sub):
        """replace atoms by Polys (non-negative exponents only)"""
        if not any(a in sub for a in self.atoms()):
            return self
        r = Poly()
        for m, c in self.t.items():
            p = Poly.num(c)
            for a, e in m:
                if a in sub and e >= 0:
                    p = p * (sub[a] ** e)
                else:
                    p = p * Poly.atom(a, e)
            r = r + p
        return r

    def items(self):
        return sorted(self.t.items(), key=lambda x: str(x[0]))

    def degree_in(self, a):
        return max([e for m in self.t for b, e in m if b == a] or [0])

    def coeff(self, a, n=1):
        """coefficient polynomial of a**n"""
        r = {}
        for m, c in self.t.items():
            e = dict(m).get(a, 0)
            if e == n:
                r[tuple(x for x in m if x[0] != a)] = c
        return Poly(r)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.items():
            s = '*'.join(str(a) + ('' if e == 1 else '^%d' % e)
                         for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%s*%s' % (c, s))
        return ' + '.join(out)


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e),
                        key=lambda x: akey(x[0])))


class Rat(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = d if d is not None else Poly.num(1)
        if len(d.t) == 1:
            # monomial denominator: divide when it does not hurt
            (m, c), = d.t.items()
            if all(isexp(a) for a, e in m):
                inv = Poly({tuple((a, -e) for a, e in m): 1 / Fraction(c)})
                n, d = n * inv, Poly.num(1)
            else:
                n, d = n.scale(1 / Fraction(c)), Poly({m: Fraction(1)})
        self.n, self.d = n, d

    @staticmethod
    def num(x):
        return Rat(Poly.num(x))

    @staticmethod
    def atom(a):
        return Rat(Poly.atom(a))

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __sub__(self, o):
        return self + Rat(-o.n, o.d)

    def __mul__(self, o):
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        return Rat(self.n * o.d, self.d * o.n)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def same(self, o):
        if self.d == o.d:
            return self.n == o.n
        return self.n * o.d == o.n * self.d

    def const(self):
        c, d = self.n.const(), self.d.const()
        if c is None or not d:
            return None
        return c / d

    def key(self):
        return (self.n, self.d)

    def subst(self, sub):
        return Rat(self.n.subst(sub), self.d.subst(sub))

    def __repr__(self):
        if self.d == Poly.num(1):
            return repr(self.n)
        return '(%r)/(%r)' % (self.n, self.d)


def isexp(a):
    return isinstance(a, tuple) and len(a) == 2 and a[0] == 'E'
