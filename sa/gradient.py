"""P90: the backward pass of a layer is the derivative of its forward pass.

Both passes are evaluated abstractly for a table of shapes; the element of
every buffer is an expression over the elements of inputs, parameters,
recurrent context and incoming deltas (value graph, see symx).  The graph of
the outputs is differentiated and compared, element by element, with the
graphs the backward pass leaves in input deltas and gradients."""
import ast
import itertools
import multiprocessing
import os

from . import symx as X
from .arr import Arr, ArrErr, NoModel, broadcast, prod
from .layers import all_layers
from .machine import (ClsV, D, Ext, Func, L, Machine, Meth, Monitor, O, PyExc, Sl,
                      Unsupported, down, tag)
from .opspec import OPS
from .prog import find_cls
from .repo import AnalysisBroken
from .valid import loc


class NeedInt(Exception):
    def __init__(self, names):
        Exception.__init__(self, str(names))
        self.names = names


class Shape(Exception):
    pass


class View(L):
    """named buffers"""

    def __init__(self, pairs, tg):
        L.__init__(self, [v for _, v in pairs], tg)
        self.names = [k for k, _ in pairs]
        for k, v in pairs:
            self.attrs[k] = v


def arr(shape, f):
    n = prod(shape)
    idx = [()]
    for d in shape:
        idx = [i + (k,) for i in idx for k in range(d)]
    assert len(idx) == n
    return Arr([f(i) for i in idx], shape)


def shaped(v):
    return v.shape if isinstance(v, Arr) else ()


def els(v, shape):
    try:
        return [X.of(x) for x in broadcast(v, shape)]
    except ArrErr:
        raise Shape('%s does not fit %s' % (shaped(v), tuple(shape)))


def integer(x):
    c = X.const(x)
    if c is None:
        raise NeedInt({v[1] for v in X.variables(x) if v[0] == 'inputs'})
    return int(c)


# ------------------------------------------------------------ operations ---
def put(out, vals):
    if not isinstance(out, Arr):
        raise Unsupported('destination %s' % tag(out))
    if len(vals) != out.size:
        raise Shape('%d values for %s' % (len(vals), out.shape))
    for i, v in zip(out.idx, vals):
        out.buf[i] = v


def ew(f, *names):
    def go(a, out):
        out = a[out]
        o = out.shape
        vs = []
        for n in names:
            v = a[n]
            if not isinstance(v, (Arr, X.E, int, float)):
                raise Unsupported('operand %s' % tag(v))
            vs.append(els(v, o))
        return [f(*xs) for xs in zip(*vs)]
    return go


def matmul(a, out):
    x, y = a['a'], a['b']
    if not isinstance(x, Arr) or not isinstance(y, Arr):
        raise Unsupported('operand')
    if a.get('transa'):
        x = x.transpose()
    if a.get('transb'):
        y = y.transpose()
    if len(x.shape) != 2 or len(y.shape) != 2 or x.shape[1] != y.shape[0]:
        raise Shape('product of %s and %s' % (x.shape, y.shape))
    (m, k), n = x.shape, y.shape[1]
    if a[out].shape != (m, n):
        raise Shape('product %s into %s' % ((m, n), a[out].shape))
    p, q = [X.of(v) for v in x.flat()], [X.of(v) for v in y.flat()]
    r = []
    for i in range(m):
        for j in range(n):
            s = X.ZERO
            for t in range(k):
                s = s + p[i * k + t] * q[t * n + j]
            r.append(s)
    return r


def sum_t(a, out):
    x, axis, o = a['a'], a['axis'], a[out]
    if not isinstance(axis, (int, type(None))):
        raise Unsupported('axis')
    keep = axis is not None and len(o.shape) == len(x.shape)
    r = x.reduce(lambda vs: sum(map(X.of, vs), X.ZERO), axis, keep)
    if shaped(r) != o.shape:
        raise Shape('sum of shape %s into %s' % (shaped(r), o.shape))
    return r.flat() if isinstance(r, Arr) else [r]


def softmax(a, out):
    m = a['m']
    if len(m.shape) != 2 or a[out].shape != m.shape:
        raise Shape('softmax of %s into %s' % (m.shape, a[out].shape))
    r, n = [], m.shape[1]
    fl = [X.of(v) for v in m.flat()]
    for i in range(m.shape[0]):
        e = [X.fn('exp', v) for v in fl[i * n:(i + 1) * n]]
        s = sum(e, X.ZERO)
        r += [v / s for v in e]
    return r


def binarize(a, out):
    o = a[out]
    n = o.shape[-1]
    v = a['v'].flat()
    if len(v) * n != o.size:
        raise Shape('%d classes into %s' % (len(v), o.shape))
    return [X.ONE if integer(x) == j else X.ZERO for x in v
            for j in range(n)]


def index(a, out):
    m, v, o = a['m'], a['v'], a[out]
    if len(m.shape) != 2 or v.size != m.shape[0] or o.size != v.size:
        raise Shape('index %s by %s into %s' % (m.shape, v.shape, o.shape))
    fl, n = m.flat(), m.shape[1]
    return [X.of(fl[i * n + integer(x)]) for i, x in enumerate(v.flat())]


def bcast(a, out):
    x, o, ax = a['a'], a[out], a['axis']
    if x.shape != o.shape[:ax] + (1,) + o.shape[ax + 1:]:
        raise Shape('broadcast %s to %s' % (x.shape, o.shape))
    return els(x, o.shape)


def merge(a, out):
    p, q, o = a['a'], a['b'], a[out]
    s, t = p.shape[-1], q.shape[-1]
    if s + t != o.shape[-1] or p.size // s != q.size // t or \
            p.size // s != o.size // (s + t):
        raise Shape('merge %s and %s into %s' % (p.shape, q.shape, o.shape))
    f, g, r = p.flat(), q.flat(), []
    for i in range(p.size // s):
        r += f[i * s:(i + 1) * s] + g[i * t:(i + 1) * t]
    return [X.of(v) for v in r]


def modulo(x, y):
    c, d = X.const(x), X.const(y)
    if c is None or d is None:
        raise Unsupported('modulo of unknown numbers')
    if not d:
        raise X.Degenerate('modulo 0')
    r = abs(c) % abs(d)
    return X.num(r if c >= 0 else -r)


def where(c, a, b):
    k = X.const(c)
    if k is not None:
        return a if k else b
    z = X.fn('nz', c)
    return z * a + (X.ONE - z) * b


def pad_int(p):
    if not isinstance(p, int):
        raise Unsupported('padding')
    return p


def windows(x, window, stride, padding, out):
    """for each output pixel the input pixels under the window (None where
    it hangs over)"""
    if len(x.shape) != 4 or len(out.shape) != 4:
        raise Shape('images %s, %s' % (x.shape, out.shape))
    window, stride = down(window), down(stride)
    if not all(isinstance(v, int) for v in tuple(window) + tuple(stride)):
        raise Unsupported('window')
    p = pad_int(padding)
    n, h, w, c = x.shape
    _, oh, ow, _ = out.shape
    if out.shape[0] != n or oh != (h + 2 * p - window[0]) // stride[0] + 1 \
            or ow != (w + 2 * p - window[1]) // stride[1] + 1:
        raise Shape('window %s, stride %s, padding %s: images %s to %s' % (
            window, stride, p, x.shape, out.shape))
    for i in range(n):
        for y in range(oh):
            for z in range(ow):
                cand = []
                for dy in range(window[0]):
                    for dx in range(window[1]):
                        yy = y * stride[0] + dy - p
                        xx = z * stride[1] + dx - p
                        cand.append((yy, xx) if 0 <= yy < h and
                                    0 <= xx < w else None)
                yield i, y, z, cand


def at(x, *k):
    o = 0
    for d, j in zip(x.shape, k):
        o = o * d + j
    return x.idx[o]


def val(x, *k):
    return X.of(x.buf[at(x, *k)])


def acc(x, v, *k):
    i = at(x, *k)
    x.buf[i] = X.of(x.buf[i]) + v


def maxpool_f(a):
    x, o, am = a['inputs'], a['outputs'], a['argmax']
    ws = list(windows(x, a['window'], a['stride'], a['padding'], o))
    if o.shape[3] != x.shape[3] or am.shape[:4] != o.shape:
        raise Shape('argmax %s, outputs %s' % (am.shape, o.shape))
    for i, y, z, cand in ws:
        for c in range(x.shape[3]):
            ins = [q for q in cand if q]
            if not ins:
                raise Unsupported('window outside of the image')
            q = ins[X.prf('max', i, y, z, c) % len(ins)]
            o.buf[at(o, i, y, z, c)] = val(x, i, q[0], q[1], c)
            for k in range(am.shape[4] if len(am.shape) > 4 else 1):
                ix = (i, y, z, c) + ((k,) if len(am.shape) > 4 else ())
                am.buf[at(am, *ix)] = X.num(q[k] if len(
                    am.shape) > 4 else q[0] * x.shape[2] + q[1])


def maxpool_b(a):
    x, o, am = a['in_deltas'], a['out_deltas'], a['argmax']
    for i, y, z, cand in windows(x, a['window'], a['stride'], a['padding'],
                                 o):
        for c in range(o.shape[3]):
            if len(am.shape) > 4:
                q = [X.const(val(am, i, y, z, c, k)) for k in range(2)]
            else:
                k = X.const(val(am, i, y, z, c))
                q = [None] if k is None else divmod(k, x.shape[2])
            if any(v is None for v in q):
                # positions of some other pass: every pixel may be hit
                v = X.var('garbage', 'argmax', i, y, z, c)
                acc(x, v, i, 0, 0, c)
                continue
            acc(x, val(o, i, y, z, c), i, int(q[0]), int(q[1]), c)


def avgpool_f(a):
    x, o = a['inputs'], a['outputs']
    for i, y, z, cand in list(windows(x, a['window'], a['stride'],
                                      a['padding'], o)):
        ins = [q for q in cand if q]
        for c in range(x.shape[3]):
            s = sum((val(x, i, q[0], q[1], c) for q in ins), X.ZERO)
            o.buf[at(o, i, y, z, c)] = s / len(ins)


def avgpool_b(a):
    x, o = a['in_deltas'], a['out_deltas']
    for i, y, z, cand in windows(x, a['window'], a['stride'], a['padding'],
                                 o):
        ins = [q for q in cand if q]
        for c in range(x.shape[3]):
            for q in ins:
                acc(x, val(o, i, y, z, c) / len(ins), i, q[0], q[1], c)


def conv_f(a):
    x, w, b, o = a['inputs'], a['weights'], a['bias'], a['outputs']
    f, kh, kw, m = w.shape
    if m != x.shape[3] or o.shape[3] != f or b.size != f:
        raise Shape('filters %s, bias %s, images %s to %s' % (
            w.shape, b.shape, x.shape, o.shape))
    res = []
    bf = [X.of(v) for v in b.flat()]
    for i, y, z, cand in windows(x, (kh, kw), a['stride'], a['padding'], o):
        for j in range(f):
            s = bf[j]
            for k, q in enumerate(cand):
                if q:
                    for c in range(m):
                        s = s + val(x, i, q[0], q[1], c) * val(
                            w, j, k // kw, k % kw, c)
            res.append((at(o, i, y, z, j), s))
    for k, v in res:
        o.buf[k] = v


def conv_b(a):
    x, w, o = a['inputs'], a['weights'], a['out_deltas']
    dx, dw, db = a['in_deltas'], a['weight_deltas'], a['bias_deltas']
    f, kh, kw, m = w.shape
    if dw.shape != w.shape or db.size != f or dx.shape != x.shape:
        raise Shape('gradients %s, %s, deltas %s' % (dw.shape, db.shape,
                                                    dx.shape))
    put(dw, [X.ZERO] * dw.size)
    put(db, [X.ZERO] * db.size)
    for i, y, z, cand in windows(x, (kh, kw), a['stride'], a['padding'], o):
        for j in range(f):
            d = val(o, i, y, z, j)
            db.buf[db.idx[j]] = db.buf[db.idx[j]] + d
            for k, q in enumerate(cand):
                if q:
                    for c in range(m):
                        acc(dw, d * val(x, i, q[0], q[1], c), j, k // kw,
                            k % kw, c)
                        acc(dx, d * val(w, j, k // kw, k % kw, c), i, q[0],
                            q[1], c)


WHOLE = {'maxpool2d_forward_batch': maxpool_f,
         'maxpool2d_backward_batch': maxpool_b,
         'avgpool2d_forward_batch': avgpool_f,
         'avgpool2d_backward_batch': avgpool_b,
         'conv2d_forward_batch': conv_f, 'conv2d_backward_batch': conv_b}


def split_add(a):
    x, p, q = a['x'], a['out_a'], a['out_b']
    s, t = p.shape[-1], q.shape[-1]
    if s + t != x.shape[-1] or p.size // s != x.size // (s + t) or \
            q.size // t != x.size // (s + t):
        raise Shape('split %s into %s and %s' % (x.shape, p.shape, q.shape))
    fl = [X.of(v) for v in x.flat()]
    for i in range(x.size // (s + t)):
        r = fl[i * (s + t):(i + 1) * (s + t)]
        for k in range(s):
            p.buf[p.idx[i * s + k]] = X.of(p.buf[p.idx[i * s + k]]) + r[k]
        for k in range(t):
            q.buf[q.idx[i * t + k]] = X.of(q.buf[q.idx[i * t + k]]) + r[s + k]


WHOLE['split_add_tt'] = split_add


def deriv(y, dy, name):
    if name == 'sigmoid':
        return dy * y * (X.ONE - y)
    if name == 'tanh':
        return dy * (X.ONE - y * y)
    return dy * X.fn({'rel': 'pos', 'el': 'eld'}[name], y)


VALUE = {
    'copy_to': ew(lambda a: a, 'src'), 'abs_t': ew(
        lambda a: X.fn('abs', a), 'a'),
    'set_from_numpy': ew(lambda a: a, 'arr'),
    'fill': ew(lambda a: a, 'val'),
    'add_mv': ew(lambda a, b: a + b, 'm', 'v'),
    'subtract_mv': ew(lambda a, b: a - b, 'm', 'v'),
    'mult_mv': ew(lambda a, b: a * b, 'm', 'v'),
    'mult_add_mv': ew(lambda a, b: a * b, 'm', 'v'),
    'divide_mv': ew(lambda a, b: a / b, 'm', 'v'),
    'add_st': ew(lambda a, b: a + b, 's', 't'),
    'mult_st': ew(lambda a, b: a * b, 's', 't'),
    'mult_add_st': ew(lambda a, b: a * b, 's', 't'),
    'add_tt': ew(lambda a, b: a + b, 'a', 'b'),
    'subtract_tt': ew(lambda a, b: a - b, 'a', 'b'),
    'mult_tt': ew(lambda a, b: a * b, 'a', 'b'),
    'mult_add_tt': ew(lambda a, b: a * b, 'a', 'b'),
    'divide_tt': ew(lambda a, b: a / b, 'a', 'b'),
    'modulo_tt': ew(modulo, 'a', 'b'), 'modulo_mm': ew(modulo, 'a', 'b'),
    'clip_t': ew(lambda a: a, 'a'),     # inside of the bounds
    'log_t': ew(lambda a: X.fn('log', a), 'a'),
    'sqrt_t': ew(lambda a: X.fn('sqrt', a), 'a'),
    'sign_t': ew(lambda a: X.fn('sgn', a), 'a'),
    'dot_mm': matmul, 'dot_add_mm': matmul, 'sum_t': sum_t,
    'softmax_m': softmax, 'binarize_v': binarize, 'index_m_by_v': index,
    'broadcast_t': bcast, 'merge_tt': merge,
}
for _n in ('sigmoid', 'tanh', 'rel', 'el'):
    VALUE[_n] = ew(lambda x, n=_n: X.fn(n, x), 'x')
    VALUE[_n + '_deriv'] = ew(lambda y, d, n=_n: deriv(y, d, n), 'y', 'dy')

IF = {'copy_to_if': ('src', 'dest'), 'fill_if': ('val', 'mem'),
      'add_into_if': ('a', 'out')}


class Handler(Monitor):
    """abstract semantics of the handler operations"""

    def __init__(self, repo, hs):
        self.repo, self.hs = repo, hs
        self.n = 0
        self.sig = {}
        base = find_cls(repo, 'Handler')
        for op in OPS:
            ow, fn = repo.lookup(base, op)
            if hasattr(fn, 'params'):
                self.sig[op] = fn

    def opaque(self, fn):
        return fn.cls is not None and fn.cls.name in self.hs and \
            fn.name in OPS

    def fresh(self, what, shape):
        self.n += 1
        return arr(shape, lambda i: X.var(what, self.n, *i))

    def call(self, m, f, args, kw, node):
        if isinstance(f, Meth) and isinstance(f.obj, View):
            v = f.obj
            if f.name == 'items':
                return tuple(zip(v.names, v.seq))
            if f.name == 'keys':
                return tuple(v.names)
            if f.name == 'values':
                return tuple(v.seq)
            if f.name == '_asdict':
                return D(zip(v.names, v.seq))
        if isinstance(f, Meth) and isinstance(f.obj, O) and f.obj.cls is not \
                None and f.obj.cls.name in self.hs and f.name in OPS:
            return self.op(m, f.name, args, kw, node)
        if isinstance(f, O) and f.cls is None or isinstance(
                f, Meth) and isinstance(f.obj, O) and not isinstance(
                    f.obj, (L, D)) and f.obj.cls is None:
            if any(isinstance(x, Arr) for x in
                   list(args) + list(kw.values())):
                raise Unsupported('call of %s' % tag(f))
        return NotImplemented

    def item(self, m, b, k):
        if isinstance(b, View) and isinstance(k, str):
            if k not in b.attrs:
                raise PyExc('KeyError')
            return b.attrs[k]
        return NotImplemented

    def bind(self, name, args, kw):
        fn = self.sig.get(name)
        if fn is None:
            raise Unsupported('signature of %s' % name)
        ps = [p for p in fn.params() if p != 'self']
        if len(args) > len(ps):
            raise Unsupported('arguments of %s' % name)
        a = dict(zip(ps, args))
        a.update(kw)
        d = fn.node.args.defaults
        for p, x in zip(ps[len(ps) - len(d):], d):
            if p not in a and hasattr(x, 'value'):
                a[p] = x.value
        if set(a) != set(ps):
            raise Unsupported('arguments of %s' % name)
        return a

    def op(self, m, name, args, kw, node):
        a = self.bind(name, args, kw)
        spec = OPS[name]
        try:
            if 'alloc' in spec[2]:
                if 'shape' in a:
                    s = down(a['shape'])
                    s = (s,) if isinstance(s, int) else tuple(s)
                    if not all(isinstance(x, int) for x in s):
                        raise Unsupported('shape')
                    if 'zeros' in spec[2]:
                        return arr(s, lambda i: X.ZERO)
                    if 'ones' in spec[2]:
                        return arr(s, lambda i: X.ONE)
                    return self.fresh('garbage', s)
                src = [v for v in a.values() if isinstance(v, Arr)]
                if len(src) != 1:
                    raise Unsupported(name)
                return src[0].copy()
            for p in list(spec[0]) + list(spec[1]):
                if p in a and not isinstance(a[p], Arr):
                    raise Unsupported('%s of %s: %s' % (p, name, tag(a[p])))
            if name in WHOLE:
                WHOLE[name](a)
                return None
            if name in IF:
                s, d = IF[name]
                o = a[d]
                new, old = els(a[s], o.shape), els(o, o.shape)
                if name == 'add_into_if':
                    new = [x + y for x, y in zip(old, new)]
                put(o, [where(c, x, y) for c, x, y in zip(
                    els(a['cond'], o.shape), new, old)])
                return None
            if 'random' in spec[2]:
                (p, _), = spec[1].items()
                r = self.fresh('random', a[p].shape)
                put(a[p], r.flat())
                return None
            if name in VALUE and len(spec[1]) == 1:
                (p, mode), = spec[1].items()
                v = VALUE[name](a, p)
                if mode == 'a':
                    v = [x + y for x, y in zip(els(a[p], a[p].shape), v)]
                put(a[p], v)
                return None
        except (NoModel, ArrErr) as e:
            raise Unsupported('%s: %s' % (name, e))
        raise Unsupported('operation %s' % name)


# ---------------------------------------------------------- one instance ---
OPTIONS = {'size': [2], 'num_filters': [2], 'factor': [0.5],
           'importance': [0.5], 'drop_prob': [0.25], 'decay': [0.75],
           'epsilon': [0.125], 'type': ['max', 'avg'], 'carry_bias': [1.0]}
GEOMETRY = [dict(kernel_size=(2, 2), stride=(1, 1), padding=0),
            dict(kernel_size=(2, 3), stride=(1, 2), padding=1),
            dict(kernel_size=(1, 2), stride=(2, 1), padding=0)]
FEATURES = [(2,), (2, 2), (3, 3, 2)]


def names(repo, cls, attr):
    """a declaration of the class: names it lists, or None"""
    import ast
    for c in repo.mro(cls):
        for s in c.node.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == attr
                    for t in s.targets):
                try:
                    return list(ast.literal_eval(s.value))
                except (ValueError, TypeError):
                    if isinstance(s.value, ast.Dict):
                        return [k.value for k in s.value.keys]
                    return None
    return []


def lit(repo, cls, attr):
    r = names(repo, cls, attr)
    if r is None:
        raise Unsupported('declaration %s' % attr)
    return r


class Inst(object):
    """one layer with its buffers, in one machine"""

    def __init__(self, m, repo, cls, handler, options, feats, Tn, Bn, ints):
        self.m, self.cls = m, cls
        self.T, self.B = Tn, Bn
        BS = ClsV(find_cls(repo, 'BufferStructure'))
        mk = lambda *s: m.call(BS, list(s), {}, None, None)
        self.ins = {n: (f if isinstance(f, O) else mk('T', 'B', *f))
                    for n, f in feats.items()}
        o = self.o = O('layer', cls)
        kw = D(options)
        o.attrs.update(name='L', kwargs=kw, in_shapes=D(sorted(
            self.ins.items())), incoming=L([], 'set'), outgoing=L([], 'set'),
            handler=None)
        fn = self.meth('setup')
        r = m.call_fn(fn, [kw, o.attrs['in_shapes']], {}, o, None)
        if not isinstance(r, tuple) or len(r) != 3 or not all(
                isinstance(x, D) for x in r):
            raise Unsupported('result of setup')
        o.attrs.update(out_shapes=r[0], parameter_shapes=r[1],
                       internal_shapes=r[2])
        self.outs, self.pars, self.ints = [x.items for x in r]
        m.call_fn(self.meth('set_handler'), [handler], {}, o, None)
        self.no_grad = lit(repo, cls, 'computes_no_gradients_for')
        self.no_in = lit(repo, cls, 'computes_no_input_deltas_for')
        self.no_out = lit(repo, cls, 'takes_no_output_deltas_from')
        self.fill(ints)

    def meth(self, n):
        ow, fn = self.m.repo.lookup(self.cls, n)
        if not hasattr(fn, 'node'):
            raise Unsupported('no %s' % n)
        return fn

    def shape(self, s):
        ctx = self.m.getattr(s, 'context_size', None)
        r = self.m.call(self.m.getattr(s, 'get_shape', None),
                        [self.T, self.B], {}, None, None)
        if not isinstance(r, tuple) or not all(isinstance(x, int)
                                               for x in r):
            raise Unsupported('shape')
        return r, ctx, self.m.getattr(s, 'is_backward_only', None)

    def fill(self, ints):
        """initial contents"""
        def prim(cat, n, s):
            sh, ctx, bo = self.shape(s)
            return arr(sh, lambda i: X.var(cat, n, *i))

        def stale(cat, n, s):
            sh, ctx, bo = self.shape(s)
            if bo is True:
                return arr(sh, lambda i: X.ZERO)

            def one(i):
                if ctx and i[0] >= self.T:
                    return X.var('context', n, *i)
                return X.var('garbage', n, *i)
            return arr(sh, one)

        def zero(n, s):
            return arr(self.shape(s)[0], lambda i: X.ZERO)

        def inp(n, s):
            if n in ints:
                k = itertools.count()
                return arr(self.shape(s)[0],
                           lambda i: X.num(next(k) % 2))
            return prim('inputs', n, s)

        def par(n, s):
            if n in self.no_grad:
                return arr(self.shape(s)[0], lambda i: X.num(
                    1 + sum(i)))
            return prim('parameters', n, s)
        srt = lambda d: sorted(d.items())
        V = {}
        V['inputs'] = View([(n, inp(n, s)) for n, s in srt(self.ins)],
                           'inputs')
        V['outputs'] = View([(n, stale('outputs', n, s))
                             for n, s in self.outs.items()], 'outputs')
        V['parameters'] = View([(n, par(n, s))
                                for n, s in self.pars.items()], 'parameters')
        V['internals'] = View([(n, stale('internals', n, s))
                               for n, s in self.ints.items()], 'internals')
        V['gradients'] = View([(n, zero(n, s))
                               for n, s in self.pars.items()], 'gradients')

        def odelta(n, s):
            sh, ctx, bo = self.shape(s)

            def one(i):
                # the context slot of deltas is cleared, never filled
                if ctx and i[0] >= self.T:
                    return X.ZERO
                return X.var('output_deltas', n, *i)
            return arr(sh, one)
        V['output_deltas'] = View([(n, odelta(n, s))
                                   for n, s in self.outs.items()],
                                  'output_deltas')
        V['input_deltas'] = View([(n, prim('input_deltas', n, s))
                                  for n, s in srt(self.ins)], 'input_deltas')
        self.V = V
        order = ('inputs', 'outputs', 'parameters', 'internals', 'gradients',
                 'output_deltas', 'input_deltas')
        self.buffers = View([(k, V[k]) for k in order], 'buffers')

    def run(self, name, **kw):
        fn = self.meth(name)
        self.m.call_fn(fn, [self.buffers], kw, self.o, fn.node)


class Bad(Exception):
    def __init__(self, where, msg):
        Exception.__init__(self, msg)
        self.where = where


def isgarbage(v):
    return v[0] == 'garbage'


def judge(inst, sink):
    """after a training-mode forward pass and a backward pass"""
    V = inst.V
    outs = []
    for n, a in inst.snap.items():
        if n in inst.no_out:
            continue
        d = inst.dy[n]
        for e, w in zip(a, d):
            outs.append((e, X.ONE if sink else w))
    g = X.gradient(outs)
    bad = []
    if sink:
        fixed = {('output_deltas', n) + i: 1 for n in inst.outs
                 for i in ()}
    for cat, src, skip in (('gradients', 'parameters', inst.no_grad),
                           ('input_deltas', 'inputs', inst.no_in)):
        v = V[cat]
        for n, a in zip(v.names, v.seq):
            if n in skip:
                continue
            ok, first = 0, None
            shape = a.shape
            idx = [()]
            for dd in shape:
                idx = [i + (k,) for i in idx for k in range(dd)]
            for i, have in zip(idx, a.flat()):
                want = g.get((src, n) + i, X.ZERO)
                if cat == 'input_deltas':
                    want = want + X.var('input_deltas', n, *i)
                if not X.same(X.of(have), want):
                    first = first or (i, X.of(have), want)
                else:
                    ok += 1
            yield cat, n, ok, first


def describe(inst, have, want):
    """which incoming deltas enter wrongly"""
    wrong = []
    for n, d in inst.dy.items():
        for w in d:
            if w.op != 'v':
                continue
            fx = {x.a: 0 for dd in inst.dy.values() for x in dd
                  if x.op == 'v' and x is not w}
            try:
                if not X.rounds(lambda it: it(have) == it(want), 2,
                                fixed=fx):
                    wrong.append('%s%s' % (n, list(w.a[2:])))
            except X.Degenerate:
                return ''
    if any(isgarbage(v) for v in X.variables(have)):
        return ' (it depends on memory nothing was written to)'
    return ' (wrong for the deltas of %s)' % ', '.join(wrong[:3]) \
        if wrong else ''


def option_sets(kws, acts):
    """combinations of options for a layer"""
    acts_key = [k for k in kws if k.startswith('activation')]
    base = [{}]
    if 'kernel_size' in kws:
        base = [dict(g) for g in GEOMETRY]
        base = [{k: v for k, v in b.items() if k in kws} for b in base]
    for k in sorted(kws):
        if k in OPTIONS:
            base = [dict(b, **{k: v}) for b in base for v in OPTIONS[k]]
    for k in acts_key:
        base = [dict(b, **{k: v}) for b in base for v in acts]
    return base


def configs(repo, cls, tier):
    """(options, feature shapes, T, B) to look at"""
    kws = names(repo, cls, 'expected_kwargs')
    ins = names(repo, cls, 'expected_inputs')
    if kws is None:
        kws = []
    if ins is None:
        raise Unsupported('expected inputs')
    acts = ('tanh', 'sigmoid', 'rel', 'linear', 'el')
    for opt in option_sets(kws, acts):
        for fs in FEATURES:
            alts = [dict.fromkeys(ins, fs)]
            if len(ins) > 1:
                for k, n in enumerate(ins):
                    alts.append(dict(dict.fromkeys(ins, fs),
                                     **{n: fs[:-1] + (1,)}))
                    for o in ([(3,), (2, 1)] if len(fs) == 1 else
                              [(3,) + fs[1:], (prod(fs),), fs + (1,)]):
                        alts.append(dict(dict.fromkeys(ins, fs), **{n: o}))
            if 'mask' in ins:
                alts.append(dict(dict.fromkeys(ins, fs), mask=(1,)))
            for feats in alts:
                yield opt, feats


def p90(repo, rep, tier):
    rep.rule('derivative', 'what backward_pass adds to the gradients and '
             'input deltas is the derivative of the outputs, weighted with '
             'the output deltas, as expressions over all inputs, parameters, '
             'context and deltas')
    rep.rule('outputs', 'outputs do not depend on what memory held before '
             'the pass')
    rep.rule('shapes', 'operands fit together for every accepted '
             'configuration')
    try:
        hc = find_cls(repo, 'NumpyHandler')
        hs = {c.name for c in repo.mro(hc)}
    except Exception:
        raise AnalysisBroken('P90: NumpyHandler not found')
    todo, who = [], []
    for cls in all_layers(repo):
        if cls.name in EXEMPT:
            continue
        ow, bw = repo.lookup(cls, 'backward_pass')
        ow2, fw = repo.lookup(cls, 'forward_pass')
        if not hasattr(bw, 'node') or not hasattr(fw, 'node') or \
                ow.name == 'Layer':
            continue
        rep.saw(fw.qual)
        rep.saw(bw.qual)
        try:
            t = plan(repo, cls, hc, hs, tier)
        except Unsupported as e:
            rep.skip('derivative', cls.name, str(e))
            continue
        who.append((cls, fw, bw, len(todo), len(todo) + len(t)))
        todo += t
    res = everything(todo)
    n = sum(one_layer(rep, cls, fw, bw, todo[i:j], res[i:j])
            for cls, fw, bw, i, j in who)
    rep.counts['configurations'] = n


EXEMPT = ('DeltasScalingLayerImpl', 'InputLayerImpl')


TASK = []


def work(k):
    repo, cls, hc, hs, opt, feats, Tn, Bn = TASK[k]
    X.reset()
    ints = set()
    while True:
        r = attempt(repo, cls, hc, hs, opt, feats, Tn, Bn, ints)
        if r[0] == 'ints':
            if r[1] - ints:
                ints |= r[1]
                continue
            r = 'skip', 'numbers that are not known'
        return r


def everything(todo):
    TASK[:] = todo
    n = min(8, os.cpu_count() or 1)
    if n == 1 or multiprocessing.current_process().daemon:
        return [work(k) for k in range(len(todo))]
    # one process per share of the work; the forks see TASK
    with multiprocessing.get_context('fork').Pool(n) as pool:
        return pool.map(work, range(len(todo)), 1)


def plan(repo, cls, hc, hs, tier):
    """what to look at for one layer"""
    cfgs = list(configs(repo, cls, tier))
    ctx = recurrent(repo, cls, hc, hs, cfgs)
    out, seen = [], set()
    for k, (opt, feats) in enumerate(cfgs):
        act = tuple(sorted((n, v) for n, v in opt.items()
                           if n.startswith('activation')))
        rest = repr((sorted((n, v) for n, v in opt.items()
                            if not n.startswith('activation')), feats))
        if tier == 'quick' and act:
            # every activation once, everything else with one of them
            if act in seen and rest in seen:
                continue
            seen.update((act, rest))
        for Tn in ((1, 2, 3, 4) if ctx and tier != 'quick' else
                   (1, 3) if ctx and k == 0 else (2,)):
            out.append((repo, cls, hc, hs, opt, feats, Tn,
                        2 if Tn < 3 or not ctx else 1))
    return out


def recurrent(repo, cls, hc, hs, cfgs):
    for c in repo.mro(cls):
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and x.attr == 'context_size' or \
                    isinstance(x, ast.keyword) and x.arg == 'context_size':
                return True
    return False


def one_layer(rep, cls, fw, bw, tasks, results):
    acc_ = {}
    done = 0
    whys = []
    for (_, _, _, _, opt, feats, Tn, Bn), (kind, res) in zip(tasks, results):
        if kind == 'rejected':
            continue
        cfg = 'T=%d B=%d %s inputs %s' % (Tn, Bn, opt, feats)
        if kind == 'skip':
            whys.append('%s: %s' % (cfg, res))
            continue
        done += 1
        if kind == 'shape':
            acc_.setdefault(('shapes', 'operands'), '%s (%s)' % (res, cfg))
            continue
        for key, ok, msg in res:
            acc_.setdefault(key, None)
            if not ok and acc_[key] is None:
                acc_[key] = '%s (%s)' % (msg, cfg)
    if done:
        acc_.setdefault(('shapes', 'operands'), None)
    for (rule, what), msg in sorted(acc_.items()):
        rep.check(msg is None, rule, '%s.%s' % (cls.name, what),
                  msg or '', loc(bw if rule == 'derivative' else fw))
    for w in whys[:2]:
        rep.skip('derivative', cls.name, w)
    if not done and not whys:
        rep.skip('derivative', cls.name, 'no accepted configuration')
    return done


def attempt(repo, cls, hc, hs, opt, feats, Tn, Bn, ints):
    m = Machine(repo, None, lambda: Handler(repo, hs), 50, concrete=True)
    out = []

    def body(m):
        m.mon.n = 0
        try:
            h = O('handler', hc)
            ow, init = repo.lookup(hc, '__init__')
            m.call_fn(init, [Ext('numpy.float64')], {}, h, None)
            inst = Inst(m, repo, cls, h, opt, feats, Tn, Bn, ints)
        except PyExc as e:
            out.append(('rejected', e.name))
            return
        try:
            inst.run('forward_pass', training_pass=True)
            inst.snap, inst.dy = {}, {}
            for n in inst.outs:
                a = inst.V['outputs'].attrs[n]
                k = inst.shape(inst.outs[n])
                live = a.flat()
                dl = inst.V['output_deltas'].attrs[n].flat()
                if k[1]:
                    # without the context slots
                    per = a.size // a.shape[0]
                    live, dl = live[:inst.T * per], dl[:inst.T * per]
                inst.snap[n] = [X.of(v) for v in live]
                inst.dy[n] = [X.of(v) for v in dl]
            inst.run('backward_pass')
        except Shape as e:
            out.append(('shape', str(e)))
            return
        except PyExc as e:
            out.append(('shape', 'raises %s' % e.name))
            return
        res = []
        for n, vs in inst.snap.items():
            bad = None
            for k, v in enumerate(vs):
                if any(isgarbage(x) for x in X.variables(v)) and \
                        not X.rounds(lambda it: it(v) == X.Interp(
                            it.seed, isgarbage)(v)):
                    bad = k
                    break
            res.append((('outputs', 'outputs.%s' % n), bad is None,
                        'element %s of %s depends on what the memory held '
                        'before the pass' % (bad, n)))
        sink = all(not isinstance(s, O) or inst.m.getattr(
            s, 'scales_with_time', None) is False
            for s in inst.outs.values())
        for cat, n, ok, first in judge(inst, sink):
            msg = ''
            if first is not None:
                i, have, want = first
                msg = '%s.%s%s is not the derivative of the outputs%s' % (
                    cat, n, list(i), describe(inst, have, want))
            res.append((('derivative', '%s.%s' % (cat, n)), first is None,
                        msg))
        out.append(('done', res))
    try:
        m.each(body)
    except NeedInt as e:
        if not e.names:
            return 'skip', 'numbers that are not known'
        return 'ints', e.names
    except Unsupported as e:
        return 'skip', str(e)
    except X.Degenerate as e:
        return 'skip', 'degenerate: %s' % e
    except Shape as e:
        return 'rejected', str(e)
    except (TypeError, ValueError, AttributeError, KeyError, IndexError,
            RecursionError) as e:
        return 'skip', 'not understood: %s %s' % (type(e).__name__, e)
    if not out:
        return 'skip', 'no path'
    for k in ('shape', 'done', 'rejected'):
        for o in out:
            if o[0] == k:
                return o
    return out[0]
