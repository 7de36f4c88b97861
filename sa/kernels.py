"""Interpreters of kernel sources: Cython (as the AST sa.pyx makes of it) and
the C of the CUDA kernels.  Index arithmetic is exact, the elements of arrays
are abstract values; an access outside an array is reported with the place."""
import ast
import math

from . import cparse
from .arr import Arr, ArrErr, NoModel
from .machine import Unsupported

BIG = 2.0 ** 100


class Bounds(Exception):
    def __init__(self, fn, line, what):
        Exception.__init__(self, what)
        self.fn, self.line, self.what = fn, line, what


class Return(Exception):
    def __init__(self, val):
        Exception.__init__(self)
        self.val = val


class Jump(Exception):
    pass


def isint(x):
    return isinstance(x, int)


class Pyx(object):
    """one call of a Cython function"""
    CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
           ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
           ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}

    def __init__(self, fns, name, budget):
        self.fns, self.name, self.budget = fns, name, budget

    def run(self, args, kw=()):
        f = self.fns[self.name]
        ps = [p[0] for p in f.params]
        env = dict(zip(ps, args))
        env.update(dict(kw))
        if set(env) != set(ps) or len(args) > len(ps):
            raise Unsupported('arguments of %s' % self.name)
        for p, nd, ty in f.params:
            v = env[p]
            if nd and (not isinstance(v, Arr) or v.ndim != nd):
                raise Unsupported('%s is no array of %d dimensions' % (p, nd))
        self.env = env
        try:
            self.body(f.node.body)
        except Return as r:
            return r.val
        return None

    def stop(self, n, what):
        raise Unsupported('%s of %s, line %d' % (what, self.name,
                                                 getattr(n, 'lineno', 0)))

    # --------------------------------------------------------- statements --
    def body(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Unsupported('kernel runs too long')
        t = type(s)
        if t is ast.Assign:
            v = self.ev(s.value)
            for x in s.targets:
                self.store(x, v)
        elif t is ast.AugAssign:
            x = s.target
            if isinstance(x, ast.Name):
                self.env[x.id] = self.op(s.op, self.ev(x), self.ev(s.value),
                                         s)
            elif isinstance(x, ast.Subscript):
                a, i = self.place(x)
                if not isint(i):
                    self.stop(s, 'slice')
                a.buf[i] = self.op(s.op, a.buf[i], self.ev(s.value), s)
            else:
                self.stop(s, 'target')
        elif t is ast.For:
            if s.orelse or not isinstance(s.target, ast.Name):
                self.stop(s, 'loop')
            for i in self.range(s.iter):
                self.env[s.target.id] = i
                try:
                    self.body(s.body)
                except Jump as j:
                    if j.args[0] == 'break':
                        break
        elif t is ast.While:
            while self.cond(s.test):
                self.budget[0] -= 1
                if self.budget[0] < 0:
                    raise Unsupported('kernel runs too long')
                try:
                    self.body(s.body)
                except Jump as j:
                    if j.args[0] == 'break':
                        break
        elif t is ast.If:
            self.body(s.body if self.cond(s.test) else s.orelse)
        elif t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise Jump('break')
        elif t is ast.Continue:
            raise Jump('continue')
        elif t is ast.Return:
            raise Return(None if s.value is None else self.ev(s.value))
        else:
            self.stop(s, 'statement')

    def store(self, x, v):
        if isinstance(x, ast.Name):
            self.env[x.id] = v
        elif isinstance(x, ast.Tuple) and isinstance(v, tuple) and \
                len(v) == len(x.elts):
            for y, w in zip(x.elts, v):
                self.store(y, w)
        elif isinstance(x, ast.Subscript):
            a, i = self.place(x)
            if isint(i):
                a.buf[i] = v
            elif isinstance(v, Arr):
                if len(v.idx) != len(i):
                    raise Bounds(self.name, x.lineno, 'copies %d elements to '
                                 'a slice of %d' % (len(v.idx), len(i)))
                for k, w in zip(i, v.flat()):
                    a.buf[k] = w
            else:
                for k in i:
                    a.buf[k] = v
        else:
            self.stop(x, 'target')

    def range(self, e):
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and
                e.func.id in ('range', 'xrange', 'prange') and
                not e.keywords):
            self.stop(e, 'loop')
        a = [self.ev(x) for x in e.args]
        if not all(isint(x) for x in a):
            self.stop(e, 'range')
        return range(*a)

    # -------------------------------------------------------- expressions --
    def cond(self, e):
        v = self.ev(e)
        if not isinstance(v, (bool, int)):
            self.stop(e, 'condition')
        return bool(v)

    def ev(self, e):
        t = type(e)
        if t is ast.Name:
            if e.id in self.env:
                return self.env[e.id]
            if e.id in ('FLT_MAX', 'DBL_MAX'):
                return BIG
            self.stop(e, 'name %s' % e.id)
        if t is ast.Constant:
            return e.value
        if t is ast.BinOp:
            return self.op(e.op, self.ev(e.left), self.ev(e.right), e)
        if t is ast.Subscript:
            a, i = self.place(e)
            if a is None:
                return i
            if isint(i):
                return a.buf[i]
            return Arr(a.buf, (len(i),), list(i))
        if t is ast.Compare:
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) \
                    and self.types(e.left) and self.types(
                        e.comparators[0]):
                return isinstance(e.ops[0], ast.Is)
            l = self.ev(e.left)
            for o, r in zip(e.ops, e.comparators):
                r = self.ev(r)
                f = self.CMP.get(type(o))
                if f is None or not isinstance(l, (int, float)) or \
                        not isinstance(r, (int, float)):
                    self.stop(e, 'comparison')
                if not f(l, r):
                    return False
                l = r
            return True
        if t is ast.BoolOp:
            v = True
            for x in e.values:
                v = self.cond(x)
                if v != isinstance(e.op, ast.And):
                    return v
            return v
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                return not self.cond(e.operand)
            v = self.ev(e.operand)
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return v
            self.stop(e, 'operator')
        if t is ast.IfExp:
            return self.ev(e.body if self.cond(e.test) else e.orelse)
        if t is ast.Attribute and e.attr in ('shape', 'size', 'ndim'):
            v = self.ev(e.value)
            if isinstance(v, Arr):
                return getattr(v, e.attr)
        if t is ast.Tuple:
            return tuple(self.ev(x) for x in e.elts)
        if t is ast.Call and isinstance(e.func, ast.Name) and \
                not e.keywords:
            a = [self.ev(x) for x in e.args]
            if e.func.id in self.fns:
                return Pyx(self.fns, e.func.id, self.budget).run(a)
            if e.func.id in ('max', 'min', 'int', 'float', 'abs', 'len'):
                if all(isinstance(x, (int, float)) for x in a):
                    return {'max': max, 'min': min, 'int': int,
                            'float': lambda x: x, 'abs': abs}[e.func.id](*a)
        self.stop(e, 'expression')

    def types(self, e):
        s = ast.unparse(e)
        return s == 'DTYPE_t' or s.startswith('np.') or s in ('float',
                                                              'double')

    def op(self, o, a, b, n):
        t = type(o)
        if a is None or b is None:
            raise Bounds(self.name, n.lineno, 'uses memory nobody has '
                         'written')
        try:
            if t is ast.Add:
                return a + b
            if t is ast.Sub:
                return a - b
            if t is ast.Mult:
                return a * b
            if t is ast.Div:
                if isint(a) and isint(b) and b and a % b == 0:
                    return a // b
                return a / b
            if t is ast.FloorDiv and isint(a) and isint(b):
                return a // b
            if t is ast.Mod and isint(a) and isint(b):
                return a % b
        except ZeroDivisionError:
            raise Bounds(self.name, n.lineno, 'divides by zero')
        except TypeError:
            pass
        self.stop(n, 'arithmetic')

    def place(self, e):
        """(array, index or indices into its storage) of a subscript"""
        a = self.ev(e.value)
        if isinstance(a, (tuple, list)):
            i = self.ev(e.slice)
            if not isint(i) or not -len(a) <= i < len(a):
                self.stop(e, 'index')
            return None, a[i]
        if not isinstance(a, Arr):
            self.stop(e, 'array')
        s = e.slice
        if isinstance(s, ast.Slice):
            if a.ndim != 1 or s.step is not None:
                self.stop(e, 'slice')
            lo = 0 if s.lower is None else self.ev(s.lower)
            hi = a.shape[0] if s.upper is None else self.ev(s.upper)
            if not isint(lo) or not isint(hi):
                self.stop(e, 'slice')
            if lo < 0 or hi > a.shape[0] or hi < lo:
                raise Bounds(self.name, e.lineno, 'slice %d:%d of an array '
                             'of %d elements' % (lo, hi, a.shape[0]))
            return a, a.idx[lo:hi]
        ks = [self.ev(x) for x in s.elts] if isinstance(s, ast.Tuple) \
            else [self.ev(s)]
        if len(ks) != a.ndim or not all(isint(k) for k in ks):
            self.stop(e, 'index')
        f = 0
        for k, n in zip(ks, a.shape):
            if not 0 <= k < n:
                raise Bounds(self.name, e.lineno, 'index %s of an array of '
                             'shape %s' % (tuple(ks), a.shape))
            f = f * n + k
        return a, a.idx[f]


# ------------------------------------------------------------------ CUDA ----
class Ptr(object):
    __slots__ = ('arr', 'off')

    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off


class Cuda(object):
    """one launch of a CUDA kernel"""

    def __init__(self, fns, name, budget):
        self.fns, self.name, self.budget = fns, name, budget

    def launch(self, args, threads, blocks):
        params, body = self.fns[self.name]
        if len(params) != len(args):
            raise Unsupported('arguments of %s' % self.name)
        self.shared = {}
        steps = self.steps(body)
        # threads far beyond every integer argument are idle
        last = max([v for v in args if isint(v)] or [0]) + 64
        for b in range(blocks):
            self.shared = {}
            envs = []
            for t in range(threads):
                if b * threads + t > last and len(steps) == 1:
                    break
                env = {}
                for (n, ptr, ty), v in zip(params, args):
                    if ptr:
                        if not isinstance(v, Arr):
                            raise Unsupported('argument %s' % n)
                        env[n] = Ptr(v)
                    else:
                        env[n] = v
                env['blockIdx.x'], env['blockDim.x'] = b, threads
                env['threadIdx.x'], env['gridDim.x'] = t, blocks
                envs.append((env, {n for n, ptr, ty in params if not ptr and
                                   'int' in ty}))
            # all threads of a block reach a barrier before any passes it
            for i, step in enumerate(steps):
                for self.env, self.ints in envs:
                    try:
                        for x in step:
                            self.stmt(x)
                    except Return:
                        if i + 1 < len(steps):
                            raise Unsupported('a thread that leaves before '
                                              'a barrier')

    def steps(self, body):
        out = [[]]
        for x in body[1] if body[0] == 'block' else [body]:
            if x == ('expr', ('call', '__syncthreads', [])):
                out.append([])
            elif '__syncthreads' in str(x):
                raise Unsupported('a barrier inside a statement')
            else:
                out[-1].append(x)
        return out

    def stop(self, what):
        raise Unsupported('%s in %s' % (what, self.name))

    def stmt(self, s):
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Unsupported('kernel runs too long')
        k = s[0]
        if k == 'block':
            for x in s[1]:
                self.stmt(x)
        elif k == 'decl':
            _, ty, n, init, ptr = s
            if 'int' in ty and not ptr:
                self.ints.add(n)
            if '__shared__' in ty:
                if not ptr:
                    self.stop('shared variable')
                self.env[n] = self.shared.setdefault(
                    n, Ptr(Arr([None] * 1024, (1024,))))
                return
            self.env[n] = None if init is None else self.conv(
                n, self.ev(init))
        elif k == 'assign':
            self.assign(s)
        elif k == 'if':
            if self.cond(s[1]):
                self.stmt(s[2])
            elif s[3] is not None:
                self.stmt(s[3])
        elif k == 'for':
            if s[1] is not None:
                self.stmt(s[1])
            while s[2] is None or self.cond(s[2]):
                self.budget[0] -= 1
                if self.budget[0] < 0:
                    raise Unsupported('kernel runs too long')
                self.stmt(s[4])
                if s[3] is not None:
                    self.stmt(s[3])
        elif k == 'expr':
            e = s[1]
            if e[0] == 'call' and e[1] == 'atomicAdd' and len(e[2]) == 2:
                p = self.ev(e[2][0])
                i = self.at(p)
                p.arr.buf[i] = self.op('+', p.arr.buf[i], self.ev(e[2][1]))
            else:
                self.ev(e)
        elif k == 'return':
            raise Return(None)
        else:
            self.stop('statement %s' % k)

    def conv(self, n, v):
        if n in self.ints and isinstance(v, float):
            return int(v)
        return v

    def at(self, p, i=0):
        if not isinstance(p, Ptr) or not isint(i):
            self.stop('pointer')
        i += p.off
        if not 0 <= i < len(p.arr.idx):
            raise Bounds(self.name, 0, 'element %d of an array of %d' % (
                i, len(p.arr.idx)))
        return p.arr.idx[i]

    def lvalue(self, e):
        if e[0] == 'idx':
            p = self.ev(e[1])
            return p.arr, self.at(p, self.ev(e[2]))
        if e[0] == 'deref':
            p = self.ev(e[1])
            return p.arr, self.at(p)
        self.stop('assignment')

    def assign(self, s):
        _, lv, op, rhs = s
        v = self.ev(rhs)
        if lv[0] == 'name':
            n = lv[1]
            if op != '=':
                v = self.op(op[0], self.env[n], v)
            self.env[n] = self.conv(n, v)
            return
        a, i = self.lvalue(lv)
        a.buf[i] = v if op == '=' else self.op(op[0], a.buf[i], v)

    def cond(self, e):
        v = self.ev(e)
        if not isinstance(v, (bool, int)):
            self.stop('condition')
        return bool(v)

    def ev(self, e):
        k = e[0]
        if k == 'num':
            return int(e[1]) if e[1].denominator == 1 else float(e[1])
        if k == 'name':
            if e[1] in self.env:
                return self.env[e[1]]
            if e[1] in ('FLT_MAX', 'DBL_MAX'):
                return BIG
            self.stop('name %s' % e[1])
        if k == 'bin':
            return self.op(e[1], self.ev(e[2]), self.ev(e[3]))
        if k in ('idx', 'deref'):
            a, i = self.lvalue(e)
            return a.buf[i]
        if k == 'cmp':
            a, b = self.ev(e[2]), self.ev(e[3])
            if not isinstance(a, (int, float)) or not isinstance(
                    b, (int, float)):
                self.stop('comparison')
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                    '==': a == b, '!=': a != b}[e[1]]
        if k == 'and':
            return self.cond(e[1]) and self.cond(e[2])
        if k == 'or':
            return self.cond(e[1]) or self.cond(e[2])
        if k == 'not':
            return not self.cond(e[1])
        if k == 'neg':
            return -self.ev(e[1])
        if k == 'cond':
            return self.ev(e[2] if self.cond(e[1]) else e[3])
        if k == 'cast':
            v = self.ev(e[2])
            if 'int' in e[1]:
                if not isinstance(v, (int, float)):
                    self.stop('cast')
                return int(v)
            return v
        if k == 'call' and e[1] in ('exp', 'expf', '__expf', 'logf', 'log',
                                    '__logf', 'sqrtf', 'sqrt', 'tanh',
                                    'tanhf', 'fabs', 'fabsf') and \
                len(e[2]) == 1:
            v = self.ev(e[2][0])
            if not isinstance(v, (int, float)):
                self.stop('call')
            try:
                return getattr(math, e[1].strip('_').rstrip('f'))(v)
            except OverflowError:
                return float('inf')
            except ValueError:
                return float('nan') if v < 0 else -float('inf')
        if k == 'call' and e[1] in ('min', 'max', 'fmin', 'fmax', 'fminf',
                                    'fmaxf', 'abs'):
            a = [self.ev(x) for x in e[2]]
            if not all(isinstance(x, (int, float)) for x in a):
                self.stop('call')
            return abs(a[0]) if e[1] == 'abs' else \
                (min if 'min' in e[1] else max)(a)
        self.stop('expression %s' % k)

    def op(self, o, a, b):
        if isinstance(a, Ptr) and isint(b) and o in '+-':
            return Ptr(a.arr, a.off + (b if o == '+' else -b))
        if isinstance(b, Ptr) and isint(a) and o == '+':
            return Ptr(b.arr, b.off + a)
        if a is None or b is None:
            raise Bounds(self.name, 0, 'uses memory nobody has written')
        try:
            if o == '+':
                return a + b
            if o == '-':
                return a - b
            if o == '*':
                return a * b
            if o == '/':
                if isint(a) and isint(b):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return a / b
            if o == '%' and isint(a) and isint(b):
                q = abs(a) % abs(b)
                return q if a >= 0 else -q
        except ZeroDivisionError:
            raise Bounds(self.name, 0, 'divides by zero')
        except TypeError:
            pass
        self.stop('arithmetic')


def cuda_module(src):
    try:
        return cparse.parse_module(src)
    except cparse.CError as e:
        raise Unsupported('CUDA source: %s' % e)
