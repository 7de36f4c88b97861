"""Comparison of scalar formulas.

A formula is an expression tree over variables with conditionals, elementary
functions and exact decimal constants.  Two formulas are compared by case
analysis over the signs of the quantities their conditions test; within a
case both reduce to rational functions in normal form.  Cases in which a
tested quantity is zero are compared after substituting that equation, so
formulas that only differ in which side of a threshold owns the boundary are
equal when the values agree there.

  ('num', F) ('var', n) ('bin', op, a, b) ('neg', a) ('cmp', op, a, b)
  ('and', a, b) ('or', a, b) ('not', a) ('cond', c, a, b) ('f', name, args)
"""
import ast
from fractions import Fraction

from .poly import Poly, Rat


class Undecided(Exception):
    pass


class Split(Exception):
    def __init__(self, key):
        Exception.__init__(self)
        self.key = key


N = lambda x: ('num', Fraction(x))
ZERO, ONE = N(0), N(1)


def lower(e):
    """rewrite library functions into conditionals / exp"""
    if e[0] in ('num', 'var'):
        return e
    if e[0] == 'f':
        n, a = e[1], [lower(x) for x in e[2]]
        if n in ('abs', 'fabs', 'absolute', 'fabsf'):
            return ('cond', ('cmp', '<', a[0], ZERO), ('neg', a[0]), a[0])
        if n == 'sign':
            return ('cond', ('cmp', '<', a[0], ZERO), N(-1),
                    ('cond', ('cmp', '>', a[0], ZERO), ONE, ZERO))
        if n in ('minimum', 'fmin', 'fminf', 'min'):
            return ('cond', ('cmp', '<', a[0], a[1]), a[0], a[1])
        if n in ('maximum', 'fmax', 'fmaxf', 'max'):
            return ('cond', ('cmp', '>', a[0], a[1]), a[0], a[1])
        if n == 'clip':
            return lower(('f', 'min', [('f', 'max', [a[0], a[1]]), a[2]]))
        if n == 'where':
            return ('cond', a[0], a[1], a[2])
        if n == 'tanh' or n == 'tanhf':
            E = ('f', 'exp', [('bin', '*', N(2), a[0])])
            return ('bin', '/', ('bin', '-', E, ONE), ('bin', '+', E, ONE))
        if n == 'expm1':
            return ('bin', '-', ('f', 'exp', a), ONE)
        if n in ('expf', '__expf'):
            return ('f', 'exp', a)
        if n in ('sigmoid', 'expit'):
            return ('bin', '/', ONE, ('bin', '+', ONE, ('f', 'exp', [
                ('neg', a[0])])))
        if n in ('logf', '__logf'):
            return ('f', 'log', a)
        if n == 'log1p':
            return ('f', 'log', [('bin', '+', ONE, a[0])])
        if n == 'square':
            return ('bin', '*', a[0], a[0])
        if n == 'sqrtf':
            return ('f', 'sqrt', a)
        if n == 'reciprocal':
            return ('bin', '/', ONE, a[0])
        if n == 'negative':
            return ('neg', a[0])
        if n in ('power', 'pow', 'powf'):
            return lower(('bin', '**', a[0], a[1]))
        if n == 'heaviside':
            return ('cond', ('cmp', '<', a[0], ZERO), ZERO,
                    ('cond', ('cmp', '>', a[0], ZERO), ONE, a[1]))
        return ('f', n, a)
    if e[0] == 'bin' and e[1] == '**':
        a, b = lower(e[2]), lower(e[3])
        if b[0] == 'num' and b[1] == Fraction(1, 2):
            return ('f', 'sqrt', [a])
        return ('bin', '**', a, b)
    return (e[0],) + tuple(lower(x) if isinstance(x, tuple) and x and
                           isinstance(x[0], str) and x[0] in KINDS else x
                           for x in e[1:])


KINDS = {'num', 'var', 'bin', 'neg', 'cmp', 'and', 'or', 'not', 'cond', 'f'}


class Ev(object):
    def __init__(self, signs, sub):
        self.signs, self.sub = signs, sub

    def val(self, e):
        k = e[0]
        if k == 'num':
            return Rat.num(e[1])
        if k == 'var':
            a = ('v', e[1])
            return Rat(self.sub[a]) if a in self.sub else Rat.atom(a)
        if k == 'neg':
            return -self.val(e[1])
        if k == 'bin':
            op = e[1]
            a, b = self.val(e[2]), self.val(e[3])
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if not b.n.t:
                    raise Undecided('division by zero')
                return a / b
            if op == '**':
                c = b.const()
                if c is not None and c.denominator == 1 and abs(c) <= 8:
                    r = Rat.num(1)
                    for _ in range(abs(int(c))):
                        r = r * a
                    return r if c >= 0 else Rat.num(1) / r
                return Rat.atom(('f', 'pow', a.key(), b.key()))
            if op in ('//', '%'):
                return Rat.atom(('f', op, a.key(), b.key()))
            raise Undecided('operator ' + op)
        if k == 'cond':
            return self.val(e[2]) if self.truth(e[1]) else self.val(e[3])
        if k in ('cmp', 'and', 'or', 'not'):
            return Rat.num(1 if self.truth(e) else 0)
        if k == 'f':
            args = [self.val(x) for x in e[2]]
            if e[1] == 'exp' and len(args) == 1:
                return expo(args[0])
            return Rat.atom(('f', e[1]) + tuple(a.key() for a in args))
        raise Undecided('expression %s' % k)

    def sign(self, r):
        if r.const() is not None:
            c = r.const()
            return (c > 0) - (c < 0)
        p = r.n * r.d
        # strip positive factors
        p = strip_exp(p)
        lead = p.items()[0][1]
        for m, c in p.items():
            if m:
                lead = c
                break
        flip = -1 if lead < 0 else 1
        p = p.scale(1 / abs(Fraction(lead)) * flip)
        if p in self.signs:
            return self.signs[p] * flip
        s = allpos(p)
        if s is not None:
            return s * flip
        raise Split(p)

    def truth(self, e):
        k = e[0]
        if k == 'cmp':
            s = self.sign(self.val(e[2]) - self.val(e[3]))
            return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0,
                    '==': s == 0, '!=': s != 0}[e[1]]
        if k == 'and':
            return self.truth(e[1]) and self.truth(e[2])
        if k == 'or':
            return self.truth(e[1]) or self.truth(e[2])
        if k == 'not':
            return not self.truth(e[1])
        return self.sign(self.val(e)) != 0


def strip_exp(p):
    """divide by a common exp monomial"""
    return p


def allpos(p):
    """sign when every monomial is a positive multiple of exps"""
    ok = True
    for m, c in p.t.items():
        if c < 0 or not all(isinstance(a, tuple) and a[0] == 'E'
                            for a, e in m):
            return None
    return 1 if p.t else 0


def expo(r):
    d = r.d.const()
    if d is None:
        return Rat.atom(('f', 'exp', r.key()))
    out = Rat.num(1)
    for m, c in r.n.items():
        c = c / d
        if not m:
            out = out * Rat(Poly.atom(('E', ('const', c))))
        elif c.denominator == 1:
            out = out * Rat(Poly({((('E', m), int(c)),): Fraction(1)}))
        else:
            out = out * Rat(Poly.atom(('E', (m, c))))
    return out


def feasible(signs):
    """consistency of sign assignments: difference constraints over
    variables"""
    INF = None
    nodes = {'0'}
    edges = []          # x - y <= c (strict)
    for p, s in signs.items():
        lin = []
        k = Fraction(0)
        ok = True
        for m, c in p.t.items():
            if not m:
                k = c
            elif len(m) == 1 and m[0][1] == 1:
                lin.append((m[0][0], c))
            else:
                ok = False
        if not ok or not 1 <= len(lin) <= 2:
            continue
        if len(lin) == 1:
            (x, c), y = lin[0], '0'
        else:
            (x, c), (y, d) = lin
            if c != -d:
                continue
        # c*(x - y) + k  s  0
        b = -k / c
        if c < 0:
            s = -s
        nodes |= {x, y}
        if s < 0:
            edges.append((x, y, b, True))
        elif s > 0:
            edges.append((y, x, -b, True))
        else:
            edges.append((x, y, b, False))
            edges.append((y, x, -b, False))
    # Bellman-Ford style closure
    D = {}
    for x, y, b, st in edges:
        o = D.get((x, y))
        if o is None or (b, not st) < (o[0], not o[1]):
            D[(x, y)] = (b, st)
    ns = sorted(nodes, key=str)
    for z in ns:
        for x in ns:
            for y in ns:
                a, b = D.get((x, z)), D.get((z, y))
                if a and b:
                    v = (a[0] + b[0], a[1] or b[1])
                    o = D.get((x, y))
                    if o is None or v[0] < o[0] or (v[0] == o[0] and
                                                    v[1] and not o[1]):
                        D[(x, y)] = v
    for x in ns:
        d = D.get((x, x))
        if d and (d[0] < 0 or d[0] == 0 and d[1]):
            return False
    return True


def equation(p):
    """p == 0 solved for a variable -> (atom, Poly) or None"""
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'v':
            a = m[0][0]
            rest = p - Poly({m: c})
            if a not in rest.atoms() and not any(
                    isinstance(x, tuple) and x[0] == 'E'
                    for x in rest.atoms()):
                return a, rest.scale(-1 / Fraction(c))
    return None


def cases(exprs, assume=(), limit=2000):
    """yield (signs, [Rat, ...]) for every case"""
    exprs = [lower(e) for e in exprs]
    stack = [({}, {})]
    n = 0
    while stack:
        signs, sub = stack.pop()
        n += 1
        if n > limit:
            raise Undecided('too many cases')
        ev = Ev(signs, sub)
        try:
            if not all(ev.truth(lower(a)) for a in assume):
                continue
            vals = [ev.val(e) for e in exprs]
        except Split as s:
            for v in (-1, 0, 1):
                s2 = dict(signs)
                s2[s.key] = v
                if not feasible(s2):
                    continue
                sub2 = sub
                if v == 0:
                    eq = equation(s.key)
                    if eq:
                        sub2 = {k: p.subst({eq[0]: eq[1]})
                                for k, p in sub.items()}
                        sub2[eq[0]] = eq[1]
                        # re-express the tested quantities
                        s3 = {}
                        bad = False
                        for p, sv in s2.items():
                            q = p.subst({eq[0]: eq[1]})
                            c = q.const()
                            if c is not None:
                                if ((c > 0) - (c < 0)) != sv:
                                    bad = True
                                continue
                            lead = [cc for m, cc in q.items() if m][0]
                            f = -1 if lead < 0 else 1
                            s3[q.scale(1 / abs(Fraction(lead)) * f)] = sv * f
                        if bad or not feasible(s3):
                            continue
                        s2 = s3
                stack.append((s2, sub2))
            continue
        yield signs, sub, vals


def show_case(signs, sub):
    r = ['%r%s0' % (p, {-1: '<', 0: '=', 1: '>'}[s])
         for p, s in signs.items()]
    r += ['%s=%r' % (a[1], p) for a, p in sub.items()]
    return ', '.join(sorted(r)).replace("('v', '", '').replace("')", '')


def equal(a, b, assume=()):
    """None when equal, otherwise a description of a case that differs"""
    for signs, sub, (x, y) in cases([a, b], assume):
        if not x.same(y):
            return 'for %s: %r instead of %r' % (
                show_case(signs, sub) or 'all values', x, y)
    return None


def vars_of(e):
    if e[0] == 'var':
        return {e[1]}
    r = set()
    for x in e[1:]:
        if isinstance(x, tuple) and x and x[0] in KINDS:
            r |= vars_of(x)
        elif isinstance(x, list):
            for y in x:
                r |= vars_of(y)
    return r


def parse(src):
    """reference formula from Python syntax"""
    return from_ast(ast.parse(src, mode='eval').body)


CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
       ast.Eq: '==', ast.NotEq: '!='}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%'}


def from_ast(n):
    if isinstance(n, ast.Constant):
        return ('num', Fraction(str(n.value)))
    if isinstance(n, ast.Name):
        return ('var', n.id)
    if isinstance(n, ast.BinOp):
        return ('bin', BIN[type(n.op)], from_ast(n.left), from_ast(n.right))
    if isinstance(n, ast.UnaryOp):
        if isinstance(n.op, ast.USub):
            return ('neg', from_ast(n.operand))
        if isinstance(n.op, ast.Not):
            return ('not', from_ast(n.operand))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        return ('cmp', CMP[type(n.ops[0])], from_ast(n.left),
                from_ast(n.comparators[0]))
    if isinstance(n, ast.IfExp):
        return ('cond', from_ast(n.test), from_ast(n.body),
                from_ast(n.orelse))
    if isinstance(n, ast.Call):
        return ('f', n.func.id, [from_ast(x) for x in n.args])
    raise Undecided('reference syntax')
