"""Abstract arrays: shape, storage and the abstract value of every element
(a number or the provenance of the element).  Views share storage."""
import math


class NoModel(Exception):
    """numpy behaviour that is not modelled"""


class ArrErr(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


class Lin(object):
    """linear form over provenance atoms"""

    def __init__(self, terms, const=0.0):
        self.terms = {k: v for k, v in terms.items() if v}
        self.const = const

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, (int, float)):
            return Lin({}, x)
        if isinstance(x, str):
            return Lin({x: 1.0})
        return NotImplemented

    def __add__(self, o):
        o = Lin.of(o)
        if o is NotImplemented:
            return o
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t.get(k, 0.0) + v
        return Lin(t, self.const + o.const)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -Lin.of(o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = Lin.of(o)
        if o is NotImplemented:
            return o
        if o.terms and self.terms:
            raise TypeError('product')
        a, b = (self, o.const) if not o.terms else (o, self.const)
        return Lin({k: v * b for k, v in a.terms.items()}, a.const * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (int, float)) or not o:
            raise TypeError('quotient')
        return self * (1.0 / o)

    def key(self):
        return (tuple(sorted((k, round(v, 9)) for k, v in
                             self.terms.items())), round(self.const, 9))

    def __eq__(self, o):
        o = Lin.of(o)
        return o is not NotImplemented and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '+'.join(['%g*%s' % (v, k) for k, v in sorted(
            self.terms.items())] + ['%g' % self.const])


class Arr(object):
    def __init__(self, buf, shape, idx=None, tag=''):
        self.buf, self.shape = buf, tuple(shape)
        self.idx = list(range(len(buf))) if idx is None else idx
        self.tag = tag
        self.dt = None
        if len(self.idx) != prod(self.shape):
            raise NoModel('shape')

    # ------------------------------------------------------------- basics --
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    def flat(self):
        return [self.buf[i] for i in self.idx]

    def fresh(self, vals, shape=None):
        return Arr(list(vals), self.shape if shape is None else shape)

    def copy(self):
        return self.typed(self.fresh(self.flat()))

    def typed(self, r):
        r.dt = self.dt
        return r

    def contiguous(self):
        return not self.idx or self.idx == list(range(
            self.idx[0], self.idx[0] + len(self.idx)))

    def nested(self):
        def go(xs, shape):
            if not shape:
                return xs[0]
            n = len(xs) // shape[0] if shape[0] else 0
            return [go(xs[i * n:(i + 1) * n], shape[1:])
                    for i in range(shape[0])]
        return go(self.flat(), self.shape)

    def __repr__(self):
        return 'array(%s)' % (self.nested(),)

    def __len__(self):
        if not self.shape:
            raise ArrErr('TypeError')
        return self.shape[0]

    # ----------------------------------------------------------- indexing --
    def select(self, key):
        """-> (positions in idx, shape, is view)"""
        key = list(key) if isinstance(key, tuple) else [key]
        if not all(k is None or k is Ellipsis or isinstance(
                k, (bool, int, float, slice, list, tuple, Arr, str))
                for k in key):
            raise NoModel('index')
        n = len([k for k in key if k is not None and k is not Ellipsis and
                 not (isinstance(k, Arr) and k.isbool())]) + sum(
                     k.ndim for k in key if isinstance(k, Arr) and k.isbool())
        if n > self.ndim:
            raise ArrErr('IndexError')
        if Ellipsis in [k for k in key if k is Ellipsis]:
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)] * (self.ndim - n)
        else:
            key += [slice(None)] * (self.ndim - n)
        if any(isinstance(k, Arr) and k.isbool() for k in key):
            if len(key) == 1 and key[0].shape == self.shape:
                pos = [i for i, b in enumerate(key[0].flat()) if b]
                return pos, (len(pos),), False
            if isinstance(key[0], Arr) and key[0].ndim == 1:
                key[0] = [i for i, b in enumerate(key[0].flat()) if b]
            else:
                raise NoModel('boolean index')
        dims, view, ax = [], True, 0
        fancy = []
        multi = None
        for k in key:
            if k is None:
                dims.append(('new', None))
                continue
            size = self.shape[ax]
            if isinstance(k, bool):
                raise NoModel('bool index')
            if isinstance(k, float):
                raise ArrErr('IndexError')
            if isinstance(k, int):
                if not -size <= k < size:
                    raise ArrErr('IndexError')
                dims.append(('int', k % size))
            elif isinstance(k, slice):
                if any(isinstance(x, float) for x in (k.start, k.stop,
                                                      k.step)):
                    raise ArrErr('TypeError')
                dims.append(('sl', range(size)[k]))
            else:
                if isinstance(k, Arr):
                    if k.ndim != 1:
                        if len(key) - len([x for x in key if x is None]) != \
                                self.ndim or any(
                                    isinstance(x, (list, Arr))
                                    for x in key if x is not k):
                            raise NoModel('index array')
                        multi = (len(dims), k.shape)
                    k = k.flat()
                if not all(isinstance(x, int) for x in k):
                    raise NoModel('index')
                if any(not -size <= x < size for x in k):
                    raise ArrErr('IndexError')
                fancy.append(len(k))
                dims.append(('fx', [x % size for x in k]))
                view = False
            ax += 1
        strides, s = [], 1
        for d in reversed(self.shape):
            strides.insert(0, s)
            s *= d
        if len(fancy) > 1:
            if len(set(fancy)) > 1:
                raise NoModel('index arrays')
            # paired index arrays: supported when they are adjacent
            pos_f = [i for i, d in enumerate(dims) if d[0] == 'fx']
            if pos_f != list(range(pos_f[0], pos_f[-1] + 1)):
                raise NoModel('index arrays')
        shape = []
        out = [0]
        ax = 0
        did = False
        for i, (t, v) in enumerate(dims):
            if t == 'new':
                shape.append(1)
                continue
            if t == 'int':
                out = [o + v * strides[ax] for o in out]
            elif t == 'sl':
                out = [o + x * strides[ax] for o in out for x in v]
                shape.append(len(v))
            else:
                if len(fancy) > 1:
                    if not did:
                        did = True
                        axs = [a for a in range(len(dims))
                               if dims[a][0] == 'fx']
                        n_new = len([d for d in dims[:i] if d[0] == 'new'])
                        offs = [sum(dims[a][1][j] * strides[
                            a - len([d for d in dims[:a] if d[0] == 'new'])]
                            for a in axs) for j in range(fancy[0])]
                        out = [o + f for o in out for f in offs]
                        shape.append(fancy[0])
                else:
                    out = [o + x * strides[ax] for o in out for x in v]
                    if multi and multi[0] == i:
                        shape.extend(multi[1])
                    else:
                        shape.append(len(v))
            ax += 1
        return out, tuple(shape), view

    def isbool(self):
        f = self.flat()
        return bool(f) and all(isinstance(x, bool) for x in f)

    def get(self, key):
        pos, shape, view = self.select(key)
        if shape == () and not any(
                k is Ellipsis for k in (key if isinstance(key, tuple)
                                        else (key,))):
            return self.buf[self.idx[pos[0]]]
        idx = [self.idx[p] for p in pos]
        if view:
            return self.typed(Arr(self.buf, shape, idx, self.tag))
        return self.typed(Arr([self.buf[i] for i in idx], shape))

    def put(self, key, val):
        pos, shape, view = self.select(key)
        vals = broadcast(val, shape)
        for p, v in zip(pos, vals):
            self.buf[self.idx[p]] = v

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if not all(isinstance(s, int) for s in shape):
            raise NoModel('shape')
        if -1 in shape:
            k = prod([s for s in shape if s != -1])
            if k == 0 or self.size % k:
                raise ArrErr('ValueError')
            shape = tuple(self.size // k if s == -1 else s for s in shape)
        if prod(shape) != self.size:
            raise ArrErr('ValueError')
        if self.buf is not None and not self.contiguous() and not affine(
                self.idx, shape):
            return self.typed(Arr(self.flat(), shape))      # numpy copies
        return self.typed(Arr(self.buf, shape, list(self.idx), self.tag))

    def transpose(self, axes=None):
        n = self.ndim
        axes = list(axes) if axes is not None else list(range(n))[::-1]
        strides, s = [], 1
        for d in reversed(self.shape):
            strides.insert(0, s)
            s *= d
        shape = tuple(self.shape[a] for a in axes)
        out = [0]
        for a in axes:
            out = [o + x * strides[a] for o in out
                   for x in range(self.shape[a])]
        return self.typed(Arr(self.buf, shape, [self.idx[p] for p in out],
                              self.tag))

    # --------------------------------------------------------- reductions --
    def reduce(self, f, axis=None, keepdims=False):
        if axis is None:
            r = f(self.flat())
            return Arr([r], (1,) * self.ndim) if keepdims else r
        if isinstance(axis, tuple):
            r = self
            for a in sorted([a % self.ndim for a in axis], reverse=True):
                r = r.reduce(f, a, keepdims)
            return r
        if not isinstance(axis, int):
            raise NoModel('axis')
        if not -self.ndim <= axis < self.ndim:
            raise ArrErr('ValueError')
        axis %= self.ndim
        order = [a for a in range(self.ndim) if a != axis] + [axis]
        t = self.transpose(order)
        n = self.shape[axis]
        fl = t.flat()
        vals = [f(fl[i * n:(i + 1) * n]) for i in range(
            prod(t.shape[:-1]))]
        shape = t.shape[:-1]
        if not shape:
            return vals[0] if not keepdims else Arr(vals, (1,))
        if keepdims:
            shape = self.shape[:axis] + (1,) + self.shape[axis + 1:]
        return Arr(vals, shape)

    def inplace(self, op, other):
        vals = broadcast(other, self.shape)
        for i, v in zip(self.idx, vals):
            self.buf[i] = OP[op](self.buf[i], v)
        return self


def affine(idx, shape):
    """is there a strided view with these positions"""
    if not idx:
        return True
    strides, s = [], 1
    for d in reversed(shape):
        strides.insert(0, s)
        s *= d
    step = [idx[st] - idx[0] if d > 1 else 0
            for d, st in zip(shape, strides)]
    for i, x in enumerate(idx):
        y = idx[0]
        for d, st, k in zip(shape, strides, step):
            y += i // st % d * k
        if x != y:
            return False
    return True


def shape_of(v):
    return v.shape if isinstance(v, Arr) else ()


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise ArrErr('ValueError')
        out.append(y if x == 1 else x)
    return tuple(out)


def broadcast(v, shape):
    """elements of v broadcast to shape"""
    if isinstance(v, (list, tuple)):
        v = make(v)
    if not isinstance(v, Arr):
        return [v] * prod(shape)
    if v.shape == tuple(shape):
        return v.flat()
    vs = v.shape
    while len(vs) > len(shape) and vs[0] == 1:
        vs = vs[1:]
    if len(vs) > len(shape):
        raise ArrErr('ValueError')
    vs = (1,) * (len(shape) - len(vs)) + tuple(vs)
    for x, y in zip(vs, shape):
        if x != y and x != 1:
            raise ArrErr('ValueError')
    strides, s = [], 1
    for d in reversed(vs):
        strides.insert(0, 0 if d == 1 else s)
        s *= d
    out = [0]
    for d, st in zip(shape, strides):
        out = [o + x * st for o in out for x in range(d)]
    fl = v.flat()
    return [fl[o] for o in out]


def div(a, b):
    if b == 0:
        return float('nan') if a == 0 else float('inf')
    return a / b


OP = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
      'Mult': lambda a, b: a * b, 'Div': div,
      'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
      'Pow': lambda a, b: a ** b, 'Eq': lambda a, b: a == b,
      'NotEq': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
      'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b,
      'GtE': lambda a, b: a >= b, 'BitAnd': lambda a, b: a & b,
      'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
      'xor': lambda a, b: bool(a) != bool(b),
      'land': lambda a, b: bool(a) and bool(b),
      'lor': lambda a, b: bool(a) or bool(b),
      'max': max, 'min': min}


def binop(op, a, b):
    if isinstance(a, (list, tuple)):
        a = make(a)
    if isinstance(b, (list, tuple)):
        b = make(b)
    if op not in OP:
        raise NoModel(op)
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return OP[op](a, b)
    sh = bshape(shape_of(a), shape_of(b))
    try:
        return Arr([OP[op](x, y) for x, y in zip(broadcast(a, sh),
                                                 broadcast(b, sh))], sh)
    except TypeError:
        raise NoModel('elements')


def make(v):
    """array from nested sequences"""
    def shp(x):
        if isinstance(x, Arr):
            return x.shape
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,)
            s = [shp(y) for y in x]
            if any(t != s[0] for t in s):
                raise NoModel('ragged')
            return (len(x),) + s[0]
        return ()

    def fl(x):
        if isinstance(x, Arr):
            return x.flat()
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in fl(y)]
        return [x]
    return Arr(fl(v), shp(v))


def fill(shape, v):
    if isinstance(shape, int):
        shape = (shape,)
    if not all(isinstance(s, int) for s in shape):
        raise NoModel('shape')
    return Arr([v] * prod(shape), tuple(shape))


def mean(xs):
    return sum(xs) / len(xs)


def argmax(xs):
    return xs.index(max(xs))


def argmin(xs):
    return xs.index(min(xs))


RED = {'sum': sum, 'mean': mean, 'min': min, 'max': max, 'prod': prod,
       'argmax': argmax, 'argmin': argmin, 'amax': max, 'amin': min,
       'any': lambda xs: any(bool(x) for x in xs),
       'all': lambda xs: all(bool(x) for x in xs),
       'count_nonzero': lambda xs: len([x for x in xs if x])}


def conv(t):
    """element conversion for a dtype, None if unknown"""
    n = str(t).split('.')[-1]
    if n.startswith('bool'):
        return bool
    if n.startswith(('int', 'uint')):
        return lambda x: int(x) if isinstance(x, (int, float)) else x
    return lambda x: x if not isinstance(x, bool) else float(x)


DTS = {'float': 'float64', 'double': 'float64', 'single': 'float32',
       'float_': 'float64', 'float64': 'float64', 'float32': 'float32'}


def dt_of(t):
    """name of a dtype, None if unknown"""
    return DTS.get(str(t).split('.')[-1])


def method(a, n, args, kw):
    """method n of array a; NotImplemented if not modelled"""
    if n in RED:
        ax = args[0] if args else kw.get('axis')
        if set(kw) - {'axis', 'keepdims', 'dtype'}:
            return NotImplemented
        if not a.size and n not in ('sum', 'prod', 'any', 'all',
                                    'count_nonzero'):
            raise ArrErr('ValueError')
        return a.reduce(RED[n], ax, bool(kw.get('keepdims', False)))
    if n == 'reshape':
        return a.reshape(*args)
    if n in ('copy', 'flatten'):
        return a.copy() if n == 'copy' else a.fresh(a.flat(), (a.size,))
    if n == 'ravel':
        return a.reshape(-1) if a.size else a.fresh([], (0,))
    if n == 'astype':
        c = conv(args[0] if args else kw.get('dtype'))
        r = a.fresh([c(x) for x in a.flat()])
        r.dt = dt_of(args[0] if args else kw.get('dtype'))
        return r
    if n == 'tolist':
        return a.nested()
    if n == 'fill':
        a.put(Ellipsis, args[0])
        return None
    if n == 'transpose':
        if len(args) == 1 and isinstance(args[0], (tuple, list)):
            args = list(args[0])
        return a.transpose(args or None)
    if n == 'swapaxes':
        o = list(range(a.ndim))
        i, j = args
        o[i], o[j] = o[j], o[i]
        return a.transpose(o)
    if n == 'squeeze':
        ax = args[0] if args else kw.get('axis')
        if ax is None:
            return a.reshape(tuple(s for s in a.shape if s != 1))
        ax %= a.ndim
        return a.reshape(a.shape[:ax] + a.shape[ax + 1:])
    if n == 'nonzero':
        return call('nonzero', [a], {})
    if n == 'item':
        return a.flat()[args[0] if args else 0]
    if n == 'repeat':
        return call('repeat', [a] + list(args), kw)
    return NotImplemented


def exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def log(x):
    return math.log(x) if x > 0 else -math.inf if x == 0 else math.nan


def sec(f):
    return lambda x: f(x)


UN = {'abs': abs, 'absolute': abs, 'sqrt': lambda x: math.sqrt(x),
      'exp': lambda x: exp(x), 'log': lambda x: log(x), 'expm1': lambda
      x: exp(x) - 1 if x > 1 else math.expm1(x), 'tanh': math.tanh, 'sign': lambda x: (
          x > 0) - (x < 0), 'square': lambda x: x * x,
      'ceil': lambda x: float(math.ceil(x)), 'negative': lambda x: -x,
      'floor': lambda x: float(math.floor(x)), 'logical_not': lambda x:
      not x, 'isfinite': lambda x: math.isfinite(x), 'isnan': lambda x:
      math.isnan(x), 'isinf': lambda x: math.isinf(x), 'round': round,
      'rint': round}
BI = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div',
      'true_divide': 'Div', 'equal': 'Eq', 'not_equal': 'NotEq',
      'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt',
      'greater_equal': 'GtE', 'logical_xor': 'xor', 'logical_and': 'land',
      'logical_or': 'lor', 'maximum': 'max', 'minimum': 'min',
      'power': 'Pow'}


def call(n, args, kw):
    """numpy.n(*args); NotImplemented if not modelled"""
    args = list(args)
    if n == 'copyto' and len(args) == 2 and not set(kw) - {
            'casting'} and isinstance(
            args[0], Arr):
        args[0].put(Ellipsis, args[1])
        return None
    k = 1 if n in UN else 2 if n in BI or n == 'fmod' else 3 \
        if n == 'clip' else None
    out = kw.get('out')
    if k is not None and len(args) == k + 1 and 'out' not in kw:
        out = args.pop()
    if isinstance(out, Arr) and (k is not None or n in RED):
        r = call(n, args, {x: y for x, y in kw.items() if x != 'out'})
        if r is NotImplemented:
            return r
        if isinstance(r, Arr) and r.shape != out.shape or not isinstance(
                r, Arr) and out.shape != ():
            if n in RED or not isinstance(r, Arr):
                raise ArrErr('ValueError')
            try:
                ok = bshape(r.shape, out.shape) == out.shape
            except ArrErr:
                ok = False
            if not ok:
                raise ArrErr('ValueError')
        out.put(Ellipsis, r)
        return out
    if n == 'fmod' and len(args) == 2 and not kw and all(
            isinstance(a, Arr) for a in args) and args[0].shape == \
            args[1].shape:
        return args[0].fresh([math.fmod(x, y) if y else math.nan
                              for x, y in zip(args[0].flat(),
                                              args[1].flat())])
    isarr = [isinstance(a, (Arr, list, tuple)) for a in args]
    if n in ('array', 'asarray', 'ascontiguousarray', 'asanyarray',
             'asfortranarray'):
        x = args[0]
        d = args[1] if len(args) > 1 else kw.get('dtype')
        if isinstance(x, Arr):
            c = n == 'array' and kw.get('copy', True) or (
                n == 'ascontiguousarray' and not x.contiguous())
            if d is not None and dt_of(d) is not None and dt_of(
                    d) == x.dt:
                d = None
            r = x.copy() if c or d is not None else x
        else:
            r = make(x)
        if d is not None:
            f = conv(d)
            r = r.fresh([f(v) for v in r.flat()])
            r.dt = dt_of(d)
        return r
    if n in ('zeros', 'ones', 'empty', 'full'):
        k = 2 if n == 'full' else 1
        d = args[k] if len(args) > k else kw.get('dtype')
        r = fill(args[0] if args else kw['shape'], {
            'zeros': 0.0, 'ones': 1.0, 'empty': None,
                           'full': args[1] if len(args) > 1 else
                           kw.get('fill_value')}[n])
        if n != 'full' or d is not None:
            r.dt = 'float64' if d is None else dt_of(d)
        if d is not None and n != 'empty':
            r.buf[:] = [conv(d)(x) for x in r.buf]
        return r
    if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and \
            isinstance(args[0], Arr):
        r = fill(args[0].shape, {
            'zeros_like': 0.0, 'ones_like': 1.0, 'empty_like': None,
            'full_like': args[1] if len(args) > 1 else None}[n])
        r.dt = args[0].dt if 'dtype' not in kw else dt_of(kw['dtype'])
        return r
    if n in ('eye', 'identity') and isinstance(args[0], int):
        m = args[1] if len(args) > 1 and n == 'eye' else args[0]
        f = conv(kw.get('dtype', 'float'))
        if not isinstance(m, int):
            return NotImplemented
        return Arr([f(1.0 if i == j else 0.0) for i in range(args[0])
                    for j in range(m)], (args[0], m))
    if n in ('cumsum', 'diff', 'atleast_2d', 'atleast_1d') and isarr[0]:
        a = args[0] if isinstance(args[0], Arr) else make(args[0])
        if n.startswith('atleast'):
            while a.ndim < int(n[8]):
                a = a.get((None,))
            return a
        ax = args[1] if n == 'cumsum' and len(args) > 1 else kw.get(
            'axis', -1 if n == 'diff' else None)
        if n == 'cumsum' and ax is None:
            a, ax = a.reshape(-1), 0
        if set(kw) - {'axis'} or n == 'diff' and len(args) > 1 or not \
                isinstance(ax, int) or not a.ndim:
            return NotImplemented
        k, sl = a.shape[ax], (slice(None),) * (ax % a.ndim)
        if n == 'diff':
            return binop('Sub', a.get(sl + (slice(1, None),)),
                         a.get(sl + (slice(0, k - 1 if k else 0),)))
        r = a.copy()
        for i in range(1, k):
            r.put(sl + (i,), binop('Add', r.get(sl + (i - 1,)),
                                   r.get(sl + (i,))))
        return r
    if n == 'arange' and all(isinstance(a, int) for a in args):
        r = list(range(*args))
        return Arr(r, (len(r),))
    if n in RED and args and isarr[0]:
        a = args[0] if isinstance(args[0], Arr) else make(args[0])
        return method(a, n, args[1:], kw)
    if n in RED and args and isinstance(args[0], (int, float)):
        return args[0]
    if n in UN and args and isarr[0] and not set(kw) - {'dtype'}:
        a = args[0] if isinstance(args[0], Arr) else make(args[0])
        return a.fresh([UN[n](x) for x in a.flat()])
    if n in UN and args and isinstance(args[0], (int, float)):
        return UN[n](args[0])
    if n in BI and len(args) == 2 and not kw:
        return binop(BI[n], *args)
    if n == 'where' and len(args) == 3:
        sh = bshape(bshape(shape_of(args[0]), shape_of(args[1])),
                    shape_of(args[2]))
        return Arr([x if c else y for c, x, y in zip(*[
            broadcast(v, sh) for v in args])], sh)
    if n in ('nonzero', 'where', 'flatnonzero') and len(args) == 1 and \
            isinstance(args[0], Arr):
        a = args[0]
        pos = []
        for i, v in enumerate(a.flat()):
            if v:
                c = []
                for d in reversed(a.shape):
                    c.insert(0, i % d)
                    i //= d
                pos.append(c)
        if n == 'flatnonzero':
            if a.ndim != 1:
                return NotImplemented
            return Arr([p[0] for p in pos], (len(pos),))
        return tuple(Arr([p[k] for p in pos], (len(pos),))
                     for k in range(a.ndim))
    if n in ('concatenate', 'hstack', 'vstack', 'stack') and args:
        xs = [x if isinstance(x, Arr) else make(x) for x in args[0]]
        ax = args[1] if len(args) > 1 else kw.get('axis', 0)
        if n == 'hstack':
            ax = 1 if xs[0].ndim > 1 else 0
        if n == 'stack':
            xs = [x.get((slice(None),) * ax + (None,)) for x in xs]
        if n == 'vstack':
            xs = [x if x.ndim > 1 else x.reshape(1, -1) for x in xs]
        ax %= xs[0].ndim
        o = [ax] + [i for i in range(xs[0].ndim) if i != ax]
        inv = [o.index(i) for i in range(len(o))]
        ts = [x.transpose(o) for x in xs]
        if len({t.shape[1:] for t in ts}) > 1:
            raise ArrErr('ValueError')
        r = Arr([v for t in ts for v in t.flat()],
                (sum(t.shape[0] for t in ts),) + ts[0].shape[1:])
        return r.transpose(inv)
    if n in ('reshape', 'transpose', 'squeeze', 'ravel', 'copy',
             'swapaxes', 'repeat_') and isinstance(args[0], Arr):
        return method(args[0], n, args[1:], kw)
    if n in ('flip', 'fliplr', 'flipud') and isinstance(args[0], Arr):
        ax = {'fliplr': 1, 'flipud': 0}.get(
            n, args[1] if len(args) > 1 else kw.get('axis'))
        if not isinstance(ax, int):
            return NotImplemented
        return args[0].get((slice(None),) * (ax % args[0].ndim) + (
            slice(None, None, -1),))
    if n == 'moveaxis' or n == 'rollaxis':
        return NotImplemented
    if n == 'expand_dims' and isinstance(args[0], Arr):
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if not isinstance(ax, int) or ax < 0:
            return NotImplemented
        return args[0].get((slice(None),) * ax + (None,))
    if n == 'take' and isinstance(args[0], Arr):
        ax = args[2] if len(args) > 2 else kw.get('axis')
        if not isinstance(ax, int):
            return NotImplemented
        i = args[1].flat() if isinstance(args[1], Arr) else list(args[1])
        return args[0].get((slice(None),) * (ax % args[0].ndim) + (i,))
    if n == 'pad' and isinstance(args[0], Arr):
        w = args[1] if len(args) > 1 else kw.get('pad_width')
        mode = args[2] if len(args) > 2 else kw.get('mode', 'constant')
        cv = kw.get('constant_values', 0)
        a = args[0]
        if mode != 'constant' or not isinstance(cv, (int, float)):
            return NotImplemented
        if isinstance(w, int):
            w = [(w, w)] * a.ndim
        w = [tuple(x) if isinstance(x, (tuple, list)) else (x, x) for x in w]
        if len(w) != a.ndim:
            return NotImplemented
        r = fill(tuple(s + p + q for s, (p, q) in zip(a.shape, w)), cv)
        r.put(tuple(slice(p, p + s) for s, (p, q) in zip(a.shape, w)), a)
        return r
    if n in ('expand', 'float64', 'float32', 'int64', 'int32') and args and \
            isinstance(args[0], (int, float)):
        return float(args[0]) if n.startswith('float') else int(args[0])
    if n in ('unique',) and isinstance(args[0], Arr) and not kw:
        r = sorted(set(args[0].flat()))
        return Arr(r, (len(r),))
    if n == 'dot' and all(isinstance(a, Arr) and a.ndim == 1 for a in args):
        return sum(x * y for x, y in zip(args[0].flat(), args[1].flat()))
    if n == 'average' and isinstance(args[0], Arr):
        a = args[0]
        w = kw.get('weights', args[2] if len(args) > 2 else None)
        if w is None:
            return mean(a.flat())
        w = broadcast(w, a.shape)
        return sum(x * y for x, y in zip(a.flat(), w)) / sum(w)
    if n == 'clip' and isinstance(args[0], Arr):
        lo, hi = args[1:3]
        return args[0].fresh([min(max(x, lo), hi) for x in args[0].flat()])
    if n in ('any', 'all') and isinstance(args[0], bool):
        return args[0]
    if n == 'iinfo' or n == 'finfo':
        return NotImplemented
    if n == 'argsort' and isinstance(args[0], Arr) and args[0].ndim == 1:
        f = args[0].flat()
        r = sorted(range(len(f)), key=lambda i: f[i])
        return Arr(r, (len(r),))
    if n == 'broadcast_to' and isinstance(args[0], Arr):
        return Arr(broadcast(args[0], args[1]), args[1])
    if n == 'isscalar':
        return isinstance(args[0], (int, float))
    if n in ('ndim', 'shape', 'size') and isinstance(args[0], Arr):
        return getattr(args[0], n)
    return NotImplemented
