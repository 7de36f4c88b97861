"""Linear forms over the symbolic sequence length T and loop variables."""


class Lin(object):
    __slots__ = ('c', 'k')

    def __init__(self, c=None, k=0):
        self.c = tuple(sorted(((v, n) for v, n in (c or {}).items() if n),
                              key=lambda p: str(p[0])))
        self.k = k

    def d(self):
        return dict(self.c)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.d(), self.k + o)
        d = self.d()
        for v, n in o.c:
            d[v] = d.get(v, 0) + n
        return Lin(d, self.k + o.k)

    def neg(self):
        return Lin({v: -n for v, n in self.c}, -self.k)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.d(), self.k - o)
        return self + o.neg()

    def scale(self, n):
        return Lin({v: m * n for v, m in self.c}, self.k * n)

    def const(self):
        return self.k if not self.c else None

    def subst(self, var, lin):
        d = self.d()
        n = d.pop(var, 0)
        r = Lin(d, self.k)
        return r + lin.scale(n) if n else r

    def coef(self, var):
        return self.d().get(var, 0)

    def vars(self):
        return [v for v, _ in self.c]

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.c, self.k))

    def __repr__(self):
        s = ''
        for v, n in self.c:
            nm = v if isinstance(v, str) else 't'
            s += ('+' if n > 0 else '-') + (
                '' if abs(n) == 1 else '%d*' % abs(n)) + nm
        if self.k or not s:
            s += '%+d' % self.k
        return s.lstrip('+')


T = Lin({'T': 1})


def K(n):
    return Lin(None, n)
