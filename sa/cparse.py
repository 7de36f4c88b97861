"""Parser for the C subset used by the CUDA kernel strings.

Expressions become tuples:
  ('num', Fraction) ('name', n) ('idx', base, i) ('call', f, args)
  ('bin', op, a, b) ('cmp', op, a, b) ('and'|'or', a, b) ('not', a)
  ('neg', a) ('cond', c, a, b) ('cast', type, a) ('deref', a) ('addr', a)
Statements:
  ('decl', type, name, init|None, isptr) ('assign', lv, op, rhs)
  ('if', c, then, else) ('for', init, cond, step, body) ('expr', e)
  ('return', e|None) ('block', [..])
"""
import re
from fractions import Fraction

TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\#[^\n]*)
  | (?P<num>(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?[fFuUlL]*)
  | (?P<id>[A-Za-z_]\w*(\.[A-Za-z_]\w*)*)
  | (?P<op>\+\+|--|\+=|-=|\*=|/=|%=|<<|>>|<=|>=|==|!=|&&|\|\||->|[-+*/%<>=!&|?:;,(){}\[\]^~])
''', re.X | re.S)
TYPES = {'int', 'float', 'double', 'unsigned', 'const', 'long', 'void',
         'char', 'bool', 'size_t', 'short', 'signed', '__shared__',
         'static', '__global__', '__device__', 'inline', 'register'}


class CError(Exception):
    pass


def tokens(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise CError('cannot tokenise %r' % src[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if m.group('ws') is not None:
            continue
        if m.group('num') is not None:
            t = m.group('num').rstrip('fFuUlL')
            out.append(('num', Fraction(t)))
        elif m.group('id') is not None:
            out.append(('id', m.group('id')))
        else:
            out.append(('op', m.group('op')))
    return out


class P(object):
    def __init__(self, src):
        self.t = tokens(src)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None,
                                                                    None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def isop(self, v, k=0):
        return self.peek(k) == ('op', v)

    def eat(self, v):
        if not self.isop(v):
            raise CError('expected %s got %s' % (v, self.peek()))
        self.i += 1

    def istype(self, k=0):
        t = self.peek(k)
        return t[0] == 'id' and t[1] in TYPES

    # ------------------------------------------------------------ stmts ---
    def program(self):
        """functions of a translation unit -> {name: (params, body)}"""
        out = {}
        while self.peek()[0] is not None:
            while self.istype() or self.isop('*'):
                self.next()
            k, name = self.next()
            if k != 'id':
                raise CError('function name')
            self.eat('(')
            params = self.params(')')
            body = self.stmt()
            out[name] = (params, body)
        return out

    def params(self, end=None):
        ps = []
        while not (end and self.isop(end)) and self.peek()[0] is not None:
            ptr, ty = False, []
            while self.istype() or self.isop('*'):
                x = self.next()
                if x[1] == '*':
                    ptr = True
                else:
                    ty.append(x[1])
            k, n = self.next()
            ps.append((n, ptr, ' '.join(ty)))
            if self.isop(','):
                self.next()
        if end:
            self.eat(end)
        return ps

    def stmts(self):
        out = []
        while self.peek()[0] is not None and not self.isop('}'):
            if self.isop(';'):
                self.next()
                continue
            out.append(self.stmt())
        return out

    def stmt(self):
        if self.isop('{'):
            self.next()
            b = self.stmts()
            self.eat('}')
            return ('block', b)
        if self.isop(';'):
            self.next()
            return ('block', [])
        t = self.peek()
        if t == ('id', 'if'):
            self.next()
            self.eat('(')
            c = self.expr()
            self.eat(')')
            a = self.stmt()
            b = None
            if self.peek() == ('id', 'else'):
                self.next()
                b = self.stmt()
            return ('if', c, a, b)
        if t == ('id', 'for'):
            self.next()
            self.eat('(')
            init = self.simple() if not self.isop(';') else None
            self.eat(';')
            c = self.expr() if not self.isop(';') else None
            self.eat(';')
            st = self.simple() if not self.isop(')') else None
            self.eat(')')
            return ('for', init, c, st, self.stmt())
        if t == ('id', 'while'):
            self.next()
            self.eat('(')
            c = self.expr()
            self.eat(')')
            return ('for', None, c, None, self.stmt())
        if t == ('id', 'return'):
            self.next()
            e = None if self.isop(';') else self.expr()
            self.semi()
            return ('return', e)
        s = self.simple()
        self.semi()
        return s

    def semi(self):
        if self.isop(';'):
            self.next()
        elif self.peek()[0] is not None and not self.isop('}'):
            raise CError('expected ; got %s' % (self.peek(),))

    def simple(self):
        if self.istype():
            ptr, ty = False, []
            while self.istype() or self.isop('*'):
                x = self.next()
                if x[1] == '*':
                    ptr = True
                else:
                    ty.append(x[1])
            decls = []
            while True:
                k, n = self.next()
                arr = False
                while self.isop('['):
                    self.next()
                    self.expr()
                    self.eat(']')
                    arr = True
                init = None
                if self.isop('='):
                    self.next()
                    init = self.ternary()
                decls.append(('decl', ' '.join(ty), n, init, ptr or arr))
                if self.isop(','):
                    self.next()
                    continue
                break
            return decls[0] if len(decls) == 1 else ('block', decls)
        if self.isop('++') or self.isop('--'):
            op = self.next()[1]
            lv = self.unary()
            return ('assign', lv, op[0] + '=', ('num', Fraction(1)))
        e = self.expr()
        t = self.peek()
        if t[0] == 'op' and t[1] in ('=', '+=', '-=', '*=', '/=', '%='):
            self.next()
            return ('assign', e, t[1], self.expr())
        if self.isop('++') or self.isop('--'):
            op = self.next()[1]
            return ('assign', e, op[0] + '=', ('num', Fraction(1)))
        return ('expr', e)

    # ------------------------------------------------------------ exprs ---
    def expr(self):
        return self.ternary()

    def ternary(self):
        c = self.binary(0)
        if self.isop('?'):
            self.next()
            a = self.ternary()
            self.eat(':')
            b = self.ternary()
            return ('cond', c, a, b)
        return c

    LEVELS = [('||',), ('&&',), ('|',), ('^',), ('&',), ('==', '!='),
              ('<', '>', '<=', '>='), ('<<', '>>'), ('+', '-'),
              ('*', '/', '%')]

    def binary(self, l):
        if l == len(self.LEVELS):
            return self.unary()
        a = self.binary(l + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in self.LEVELS[l]:
            op = self.next()[1]
            b = self.binary(l + 1)
            if op == '||':
                a = ('or', a, b)
            elif op == '&&':
                a = ('and', a, b)
            elif op in ('==', '!=', '<', '>', '<=', '>='):
                a = ('cmp', op, a, b)
            else:
                a = ('bin', op, a, b)
        return a

    def unary(self):
        if self.isop('-'):
            self.next()
            return ('neg', self.unary())
        if self.isop('+'):
            self.next()
            return self.unary()
        if self.isop('!'):
            self.next()
            return ('not', self.unary())
        if self.isop('*'):
            self.next()
            return ('deref', self.unary())
        if self.isop('&'):
            self.next()
            return ('addr', self.unary())
        if self.isop('(') and self.istype(1):
            self.next()
            ty = []
            while self.istype() or self.isop('*'):
                ty.append(self.next()[1])
            self.eat(')')
            return ('cast', ' '.join(ty), self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.next()
        if k == 'num':
            e = ('num', v)
        elif (k, v) == ('op', '('):
            e = self.expr()
            self.eat(')')
        elif k == 'id':
            if v in TYPES and self.isop('('):
                self.next()
                a = self.expr()
                self.eat(')')
                e = ('cast', v, a)
            else:
                e = ('name', v)
        else:
            raise CError('unexpected %s' % (v,))
        while True:
            if self.isop('['):
                self.next()
                i = self.expr()
                self.eat(']')
                e = ('idx', e, i)
            elif self.isop('('):
                self.next()
                args = []
                while not self.isop(')'):
                    args.append(self.expr())
                    if self.isop(','):
                        self.next()
                self.eat(')')
                e = ('call', e[1] if e[0] == 'name' else '?', args)
            else:
                return e


def parse_kernel(params, body):
    """ElementwiseKernel(params, operation) -> ([(name, isptr, type)],
    [stmts])"""
    ps = P(params).params()
    return ps, P(body).stmts()


def parse_module(src):
    return P(src).program()
