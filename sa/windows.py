"""P07 and P15: convolution and pooling.

The handlers' methods and the kernels they call (Cython and CUDA) are
evaluated abstractly: geometry is concrete and comes from a table, elements
are linear forms, expressions or, for the maximum, ranks."""
import ast
import os
import random

from . import pyx
from . import symx as X
from .arr import Arr, ArrErr, Lin, NoModel, binop, fill, prod
from .kernels import Bounds, Cuda, Pyx, cuda_module
from .machine import (ClsV, D, Ext, Func, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported, down)
from .prog import find_cls
from .repo import AnalysisBroken
from .valid import loc

ATTRS = ('gpudata', 'ptr')


def axes():
    """(image, kernel, stride, padding) along one axis, as layers accept"""
    out = []
    for n in (1, 2, 3, 4, 5):
        for k in (1, 2, 3):
            for s in (1, 2, 3):
                for p in (0, 1, 2, 3):
                    if n + 2 * p >= k and (n + 2 * p - k) // s < 6:
                        out.append((n, k, s, p))
    return out


def outsize(a):
    n, k, s, p = a
    return (n + 2 * p - k) // s + 1


def geometries(count):
    """pairs of axes with the same padding, different in most respects"""
    r = random.Random(7)
    ax = axes()
    r.shuffle(ax)
    out = []
    while len(out) < count:
        i = len(out)
        a = ax[i % len(ax)]
        bs = [x for x in ax if x[3] == a[3] and x[:3] != a[:3] and
              outsize(a) * outsize(x) <= 15 and a[0] * x[0] <= 15] or [(1, 3, 2, a[3])]
        big = [x for x in bs if x[1] > 1 and x[0] > 2] or bs
        b = r.choice(big if i % 4 else bs)
        if i % 2:
            a, b = b, a
        out.append((a, b, (1, 2, 1)[i % 3], (1, 2, 2)[i // 2 % 3],
                    (1, 2)[i // 3 % 2]))
    return out


def show(g):
    a, b, n, c, f = g
    return 'images %dx%dx%dx%d, window %dx%d, stride %d,%d, padding %d' % (
        n, a[0], b[0], c, a[1], b[1], a[2], b[2], a[3])


def windows(a, n):
    """positions inside the image of every window along an axis"""
    size, k, s, p = a
    return [[(o * s - p + j, j) for j in range(k)
             if 0 <= o * s - p + j < size] for o in range(outsize(a))]


class Eval(Monitor):
    fns = {}
    budget = None

    def opaque(self, fn):
        return fn.cls is not None and fn.name in (
            'zeros', 'allocate', 'dot_mm', 'dot_add_mm', 'sum_t', 'add_tt',
            'add_mv', 'fill')

    def constant(self, e):
        if isinstance(e, ast.BinOp):
            return self.constant(e.left) and self.constant(e.right)
        return isinstance(e, ast.Constant) or isinstance(
            e, ast.Call) and 'SourceModule' in ast.unparse(e.func) or \
            isinstance(e, ast.Call) and isinstance(
                e.func, ast.Attribute) and e.func.attr == 'get_function'

    def call(self, m, f, args, kw, node):
        if isinstance(f, Func) and self.opaque(f.fn):
            return self.handler(m, f.fn, args, kw, f.self_v)
        if isinstance(f, O) and getattr(f, 'source', None) is not None:
            return f.source(m)
        if isinstance(f, Meth) and isinstance(f.obj, Arr) and \
                f.name == 'fill':
            f.obj.put(Ellipsis, args[0])
            return None
        if isinstance(f, Meth) and isinstance(f.obj, O) and \
                f.obj.tag in ('self', 'handler'):
            return self.handler(m, None, args, kw, f.obj, f.name)
        if isinstance(f, Ext):
            s = f.name.split('.')[-1]
            if '_cpuop' in f.name and s in self.fns:
                return Pyx(self.fns, s, self.budget).run(
                    [self.plain(x) for x in args],
                    {k: self.plain(v) for k, v in kw.items()})
            if s == 'SourceModule' and args and isinstance(args[0], str):
                o = O('cuda module')
                o.src = args[0]
                return o
            if f.name == 'numpy.dot':
                a = dict(zip(('a', 'b', 'out'), args))
                a.update(kw)
                return matmul(a['a'], a['b'], a.get('out'), False)
            if s in ('dot', 'add_dot') and 'linalg' in f.name or s in (
                    'dot', 'add_dot') and 'culinalg' in f.name:
                ps = ('a', 'b', 'transa', 'transb', 'out') if s == 'dot' \
                    else ('a', 'b', 'out', 'transa', 'transb')
                a = dict(zip(ps, args))
                a.update(kw)
                x = a['a'].transpose() if a.get('transa', 'N') in (
                    'T', 't') else a['a']
                y = a['b'].transpose() if a.get('transb', 'N') in (
                    'T', 't') else a['b']
                return matmul(x, y, a.get('out'), s == 'add_dot')
            if s in ('int32', 'int64', 'intp', 'int_') and len(args) == 1 \
                    and isinstance(args[0], int):
                return args[0]
        if isinstance(f, Meth) and f.name == 'get_function' and \
                getattr(f.obj, 'src', None) is not None:
            o = O('cuda kernel')
            o.src, o.fname = f.obj.src, args[0]
            return o
        if isinstance(f, O) and getattr(f, 'fname', None) is not None:
            fns = cuda_module(f.src)
            if f.fname not in fns:
                raise Unsupported('kernel %s' % f.fname)
            blk, grid = down(kw.get('block')), down(kw.get('grid'))
            if not isinstance(blk, (tuple, list)) or not isinstance(
                    grid, (tuple, list)):
                raise Unsupported('launch')
            if any(x != 1 for x in tuple(blk[1:]) + tuple(grid[1:])):
                raise Unsupported('launch')
            Cuda(fns, f.fname, self.budget).launch(
                [self.plain(x) for x in args], blk[0], grid[0])
            return None
        return NotImplemented

    def plain(self, x):
        if isinstance(x, L):
            return tuple(self.plain(y) for y in x.seq)
        return x

    def handler(self, m, fn, args, kw, obj, name=None):
        name = name or fn.name
        ps = {'zeros': ('shape',), 'allocate': ('shape',),
              'dot_mm': ('a', 'b', 'out', 'transa', 'transb'),
              'dot_add_mm': ('a', 'b', 'out', 'transa', 'transb'),
              'sum_t': ('a', 'axis', 'out'), 'add_tt': ('a', 'b', 'out'),
              'add_mv': ('m', 'v', 'out'), 'fill': ('mem', 'val')}.get(name)
        if ps is None:
            return NotImplemented
        a = dict(zip(ps, args))
        a.update(kw)
        if set(a) - set(ps):
            raise Unsupported(name)
        if name in ('zeros', 'allocate'):
            sh = down(a['shape'])
            return fill(sh, 0.0 if name == 'zeros' else None)
        if name == 'fill':
            a['mem'].put(Ellipsis, a['val'])
            return None
        if name in ('dot_mm', 'dot_add_mm'):
            x = a['a'].transpose() if a.get('transa') else a['a']
            y = a['b'].transpose() if a.get('transb') else a['b']
            return matmul(x, y, a['out'], name == 'dot_add_mm')
        if name == 'sum_t':
            r = a['a'].reduce(sum, a['axis'])
        else:
            x, y = (a['a'], a['b']) if name == 'add_tt' else (a['m'], a['v'])
            if name == 'add_tt' and x.shape != y.shape:
                raise Unsupported('shapes of add_tt')
            r = binop('Add', x, y)
        if not isinstance(r, Arr) or r.size != a['out'].size:
            raise Unsupported('shape of %s' % name)
        for i, v in zip(a['out'].idx, r.flat()):
            a['out'].buf[i] = v
        return None


def matmul(a, b, out, add):
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim != 2 or \
            b.ndim != 2:
        raise Unsupported('matrix product')
    if a.shape[1] != b.shape[0]:
        raise PyExc('ValueError', 'shapes of a matrix product')
    n, k, m = a.shape[0], a.shape[1], b.shape[1]
    x, y = a.flat(), b.flat()
    r = []
    for i in range(n):
        for j in range(m):
            t = 0.0
            for q in range(k):
                u, v = x[i * k + q], y[q * m + j]
                if u is None or v is None:
                    raise Bounds('matrix product', 0, 'uses memory nobody '
                                 'has written')
                t = t + u * v
            r.append(t)
    if out is None:
        return Arr(r, (n, m))
    if not isinstance(out, Arr) or out.shape != (n, m):
        raise PyExc('ValueError', 'output of a matrix product')
    for i, v in zip(out.idx, r):
        out.buf[i] = out.buf[i] + v if add else v
    return out


def sym(kind, shape):
    return Arr([X.var(kind, i) for i in range(prod(shape))], shape)


def lin(kind, shape):
    return Arr([Lin({'%s%d' % (kind, i): 1.0}) for i in range(prod(shape))],
               shape)


class Case(object):
    """one operation of one handler for one geometry"""

    def __init__(self, repo, cls, fns, g):
        self.repo, self.cls, self.fns, self.g = repo, cls, fns, g
        a, b, self.n, self.c, self.f = g
        self.pad = a[3]
        self.window, self.stride = (a[1], b[1]), (a[2], b[2])
        self.ish = (self.n, a[0], b[0], self.c)
        self.osh = (self.n, outsize(a), outsize(b), self.c)
        self.wy, self.wx = windows(a, 0), windows(b, 0)

    def machine(self):
        fns = self.fns

        def make():
            e = Eval()
            e.fns = fns
            e.budget = [400000]
            return e
        return Machine(self.repo, None, make, 200, concrete=True)

    def call(self, m, op, *args):
        ow, fn = self.repo.lookup(self.cls, op)
        if not hasattr(fn, 'node'):
            raise Unsupported('no method %s' % op)
        o = O('self', self.cls)
        o.attrs['dtype'] = 'float64'
        m.call_fn(fn, list(args), {}, o, fn.node)

    def cells(self):
        """(flat output index, n, c, [flat input indices of the window])"""
        _, H, W, C = self.ish
        i = 0
        for n in range(self.n):
            for wy in self.wy:
                for wx in self.wx:
                    for c in range(C):
                        yield i, [((n * H + y) * W + x) * C + c
                                  for y, _ in wy for x, _ in wx]
                        i += 1

    # ----------------------------------------------------------- pooling --
    def orders(self):
        n = prod(self.ish)
        r = random.Random(n)
        p = list(range(n))
        r.shuffle(p)
        yield [float(x - n - 1) for x in p]              # all negative
        yield [float(n - x) for x in range(n)]
        yield [float(x % 2 - 1) for x in p]              # many equal

    def maxpool(self, m):
        k = m.choose(3, True)
        vals = list(self.orders())[k % 3]
        x = Arr(list(vals), self.ish)
        y, am = fill(self.osh, None), fill(self.osh, None)
        self.call(m, 'maxpool2d_forward_batch', x, self.window, y, self.pad,
                  self.stride, am)
        got = y.flat()
        for i, w in self.cells():
            want = max([vals[j] for j in w]) if w else 0.0
            if got[i] is None or got[i] != want:
                return 'maxpool2d_forward_batch', 'output %d is %s instead ' \
                    'of %s' % (i, got[i], want)
        if x.flat() != vals:
            return 'maxpool2d_forward_batch', 'changes its inputs'
        dx, dy = lin('dx', self.ish), lin('dy', self.osh)
        self.call(m, 'maxpool2d_backward_batch', x, self.window, y, self.pad,
                  self.stride, am, dx, dy)
        where = {}
        for j, v in enumerate(dx.flat()):
            v = Lin.of(v)
            if v is NotImplemented or v.const:
                return 'maxpool2d_backward_batch', 'input delta %d is %s' % (
                    j, v)
            for t, f in v.terms.items():
                if abs(f - 1) > 1e-9:
                    return 'maxpool2d_backward_batch', 'input delta %d is ' \
                        '%s' % (j, v)
                where.setdefault(t, []).append(j)
        for j in range(prod(self.ish)):
            if where.pop('dx%d' % j, None) != [j]:
                return 'maxpool2d_backward_batch', 'does not add to the ' \
                    'input deltas'
        for i, w in self.cells():
            t = where.pop('dy%d' % i, [])
            if not w and not t:
                continue
            if len(t) != 1 or t[0] not in w or vals[t[0]] != got[i]:
                return 'maxpool2d_backward_batch', 'output delta %d goes ' \
                    'to inputs %s instead of the maximum of %s' % (i, t, w)
        return None

    def avgpool(self, m):
        x, y = lin('x', self.ish), fill(self.osh, None)
        self.call(m, 'avgpool2d_forward_batch', x, self.window, y, self.pad,
                  self.stride)
        got = y.flat()
        for i, w in self.cells():
            want = Lin({'x%d' % j: 1.0 / len(w) for j in w})
            if got[i] is None or Lin.of(got[i]) != want:
                return 'avgpool2d_forward_batch', 'output %d is %s instead ' \
                    'of %s' % (i, got[i], want)
        dx, dy = lin('dx', self.ish), lin('dy', self.osh)
        want = dx.flat()
        for i, w in self.cells():
            for j in w:
                want[j] = want[j] + Lin({'dy%d' % i: 1.0 / len(w)})
        self.call(m, 'avgpool2d_backward_batch', x, self.window, y, self.pad,
                  self.stride, dx, dy)
        for j, v in enumerate(dx.flat()):
            if Lin.of(v) != want[j]:
                return 'avgpool2d_backward_batch', 'input delta %d is %s ' \
                    'instead of %s' % (j, v, want[j])
        return None

    # ------------------------------------------------------- convolution --
    def conv(self, m):
        F = self.f
        a, b = self.g[0], self.g[1]
        wsh = (F,) + self.window + (self.c,)
        osh = self.osh[:3] + (F,)
        x, w, bias = sym('x', self.ish), sym('w', wsh), sym('b', (F,))
        y = fill(osh, None)
        self.call(m, 'conv2d_forward_batch', x, w, bias, y, self.pad,
                  self.stride)
        got = y.flat()
        xs, ws = x.flat(), w.flat()
        _, H, W, C = self.ish
        terms = []        # (output, weight, input)
        o = 0
        for n in range(self.n):
            for wy in self.wy:
                for wx in self.wx:
                    for f in range(F):
                        for y_, ky in wy:
                            for x_, kx in wx:
                                for c in range(C):
                                    terms.append((
                                        o, ((f * a[1] + ky) * b[1] + kx) * C
                                        + c, ((n * H + y_) * W + x_) * C + c,
                                        f))
                        o += 1
        want = [X.var('b', i % F) for i in range(prod(osh))]
        for o, k, j, f in terms:
            want[o] = want[o] + X.var('w', k) * X.var('x', j)
        i = differ(got, want)
        if i is not None:
            return 'conv2d_forward_batch', 'output %d is %s instead of %s' % (
                i, cut(got[i]), cut(want[i]))
        dx, dy = sym('dx', self.ish), sym('dy', osh)
        dw, db = sym('gw', wsh), sym('gb', (F,))
        wx_ = dx.flat()
        ww = [X.ZERO] * prod(wsh)
        wb = [X.ZERO] * F
        for o, k, j, f in terms:
            d = X.var('dy', o)
            wx_[j] = wx_[j] + d * X.var('w', k)
            ww[k] = ww[k] + d * X.var('x', j)
        for o in range(prod(osh)):
            wb[o % F] = wb[o % F] + X.var('dy', o)
        self.call(m, 'conv2d_backward_batch', x, w, self.pad, self.stride,
                  dx, dy, dw, db)
        for nm, g, e in (('input delta', dx.flat(), wx_),
                         ('gradient of the weights', dw.flat(), ww),
                         ('gradient of the bias', db.flat(), wb)):
            i = differ(g, e)
            if i is not None:
                return 'conv2d_backward_batch', '%s %d is %s instead of %s' \
                    % (nm, i, cut(g[i]), cut(e[i]))
        for nm, g, e in (('inputs', x.flat(), xs), ('weights', w.flat(), ws)):
            if differ(g, e) is not None:
                return 'conv2d_backward_batch', 'changes its %s' % nm
        return None


def cut(e):
    s = str(e)
    return s if len(s) < 90 else s[:87] + '...'


def differ(got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        g = X.of(g) if g is not None else None
        if g is None:
            return i
        if not X.same(g, X.of(w)):
            return i
    return None


class Size(Exception):
    pass


class LayerCase(Case):
    """a layer with the CPU handler around the same operations"""
    IMPL = {'conv': 'Convolution2DLayerImpl',
            'maxpool': 'Pooling2DLayerImpl', 'avgpool': 'Pooling2DLayerImpl'}

    def setup(self, m, what):
        cls = find_cls(self.repo, self.IMPL[what])
        o = O('layer', cls)
        bs = O('structure')
        bs.attrs['feature_shape'] = self.ish[1:]
        bs.attrs['shape'] = ('T', 'B') + self.ish[1:]
        o.attrs['in_shapes'] = D({'default': bs})
        kw = {'kernel_size': self.window, 'stride': self.stride,
              'padding': self.pad}
        if what == 'conv':
            kw.update(num_filters=self.f, activation='linear')
        else:
            kw.update(type=what[:3])
        h = O('handler', self.cls)
        nop = O('activation')
        nop.source = lambda m: None
        for n in ('inplace_act_func', 'inplace_act_func_deriv', 'act_func',
                  'act_func_deriv'):
            h.attrs[n] = D({'linear': nop})
        h.attrs['dtype'] = 'float64'
        o.attrs['handler'] = h
        ow, fn = self.repo.lookup(cls, 'setup')
        r = m.call_fn(fn, [D(kw), o.attrs['in_shapes']], {}, o, fn.node)
        if not isinstance(r, tuple) or len(r) != 3 or not all(
                isinstance(x, D) for x in r):
            raise Unsupported('result of setup')
        want = {'default': ('T', 'B') + self.osh[1:3] + (
            (self.f,) if what == 'conv' else self.osh[3:])}
        self.announced(r[0], want, 'outputs')
        self.announced(r[1], {
            'W': (self.f,) + self.window + (self.c,), 'bias': (self.f,)}
            if what == 'conv' else {}, 'parameters')
        if what == 'maxpool':
            self.announced(r[2], {'argmax': want['default']}, 'internals')
        return o

    def announced(self, d, want, kind):
        for k, v in want.items():
            b = d.items.get(k)
            if not isinstance(b, O) or 'shape' not in b.attrs:
                raise Unsupported('structure of %s' % kind)
            got = down(b.attrs['shape'])
            if got != v:
                raise Size('announces %s %s of shape %s instead of %s' % (
                    kind, k, got, v))

    def time(self, a):
        t, b = ((a.shape[0], 1), (1, a.shape[0]))[self.c % 2]
        return Arr(a.buf, (t, b) + a.shape[1:], a.idx)

    def call(self, m, op, *args):
        what = op[:4] if op.startswith('conv') else op[:7]
        if getattr(m.mon, 'layer', None) is None:
            m.mon.layer = self.setup(m, what)
        o = m.mon.layer
        back = 'backward' in op
        T = self.time
        am = par = grad = din = dout = None
        if what == 'conv' and not back:
            x, w, bias, y, p, s = args
            par = [w, bias]
            m.mon.out = y
        elif what == 'conv':
            x, w, p, s, din, dout, dw, db = args
            par, grad, y = [w, m.mon.bias], [dw, db], m.mon.out
        elif not back:
            x, win, y, p, s = args[:5]
            am = (args + (None,))[5]
        else:
            x, win, y, p, s = args[:5]
            am = args[5] if what == 'maxpool' else None
            din, dout = args[-2:]
        if par is not None:
            m.mon.bias = par[1]
        b = O('buffers')

        def view(name, d, as_list=False):
            v = L(list(d.values())) if as_list else O(name)
            v.attrs.update(d)
            v.items.update(d)
            b.attrs[name] = v
            b.items[name] = v
        view('inputs', {'default': T(x)})
        view('outputs', {'default': T(y)})
        if am is not None:
            view('internals', {'argmax': T(am)})
        if par is not None:
            view('parameters', {'W': par[0], 'bias': par[1]}, True)
        if grad is not None:
            view('gradients', {'W': grad[0], 'bias': grad[1]}, True)
        if back:
            view('input_deltas', {'default': T(din)})
            view('output_deltas', {'default': T(dout)})
        ow, fn = self.repo.lookup(o.cls, 'backward_pass' if back else
                                  'forward_pass')
        m.call_fn(fn, [b] if back else [b, True], {}, o, fn.node)


OPS = (('maxpool', 'maxpool2d'), ('avgpool', 'avgpool2d'),
       ('conv', 'conv2d'))
IMPL = {'layer ' + k: v for k, v in LayerCase.IMPL.items()}


def handlers(repo):
    out = []
    for n in ('NumpyHandler', 'PyCudaHandler'):
        try:
            out.append(find_cls(repo, n))
        except Exception:
            pass
    return out


def kernel_sources(repo):
    out = {}
    for d, _, fs in sorted(os.walk(os.path.join(repo.root, 'brainstorm'))):
        for x in sorted(fs):
            if x.endswith('.pyx'):
                with open(os.path.join(d, x)) as f:
                    out.update(pyx.parse(f.read()))
    return out


def evaluate(repo, cls, fns, what, g):
    """-> (message or None, (operation, message) or None, Bounds or None)"""
    c = (LayerCase if what.startswith('layer ') else Case)(repo, cls, fns, g)
    what = what.split()[-1]
    m = c.machine()
    out = {}

    def body(m):
        if 'bad' in out or 'bounds' in out:
            return
        try:
            r = getattr(c, what)(m)
        except Bounds as e:
            out['bounds'] = e
            return
        except Size as e:
            out['bad'] = ('setup', str(e))
            return
        except PyExc as e:
            out['bad'] = (what, 'raises %s' % e.name)
            return
        if r is not None:
            out['bad'] = r
    try:
        m.each(body)
    except (Unsupported, ArrErr, NoModel, X.Degenerate) as e:
        return str(e), None, None
    return None, out.get('bad'), out.get('bounds')


_done = {}


def results(repo, tier):
    """{(handler, what, geometry)} of the whole table; shared by P07, P15"""
    k = (id(repo), tier)
    if k in _done:
        return _done[k]
    fns = kernel_sources(repo)
    jobs = []
    gs = geometries(200 if tier == 'quick' else 1500)
    for cls in handlers(repo):
        for what, _ in OPS:
            for i, g in enumerate(gs):
                jobs.append((cls, what, i, g))
                if cls.name == 'NumpyHandler' and i % 4 == 0:
                    jobs.append((cls, 'layer ' + what, i, g))
    out = {}
    import multiprocessing
    global _work

    def _work(j):
        cls, what, i, g = jobs[j]
        X.reset()
        r = evaluate(repo, cls, fns, what, g)
        b = r[2]
        return j, r[0], r[1], None if b is None else (b.fn, b.line, b.what)
    n = min(8, multiprocessing.cpu_count())
    try:
        if multiprocessing.current_process().daemon:
            raise OSError
        with multiprocessing.get_context('fork').Pool(n) as p:
            res = p.map(_call, range(len(jobs)), 4)
    except OSError:
        res = [_work(j) for j in range(len(jobs))]
    for j, skip, bad, bounds in res:
        cls, what, i, g = jobs[j]
        out[(cls.name, what, i)] = (g, skip, bad, bounds)
    _done.clear()
    _done[k] = out
    return out


def _call(j):
    return _work(j)


def p07(repo, rep, tier):
    rep.rule('window', 'outputs and deltas of convolution and pooling equal '
             'those of the definition')
    rep.rule('layer', 'Convolution2D and Pooling2D announce the number of '
             'windows that fit and compute the operation of their options')
    hs = {c.name: c for c in handlers(repo)}
    for (h, what, i), (g, skip, bad, bounds) in sorted(results(
            repo, tier).items()):
        lay = what.startswith('layer ')
        if lay:
            cls = find_cls(repo, IMPL[what])
            names = ('setup', 'forward_pass', 'backward_pass')
        else:
            cls, op = hs[h], dict(OPS)[what]
            names = (op + '_forward_batch', op + '_backward_batch')
        con = '%s %s %s' % (cls.name, what.split()[-1], show(g))
        rule = 'layer' if lay else 'window'
        if skip is not None:
            rep.skip(rule, con, skip)
            continue
        if bounds is not None:
            bad = (what.split()[-1], 'leaves its arrays: %s' % bounds[2])
        place = None
        for n in names:
            ow, f = repo.lookup(cls, n)
            if hasattr(f, 'node'):
                rep.saw(f.qual)
                if place is None or bad is not None and bad[0] == n:
                    place = f
        if bad is not None:
            con = '%s %s' % (cls.name, bad[0])
        rep.check(bad is None, rule, con, bad and '%s with %s: %s' % (
            con, show(g), bad[1]), loc(place))


def p15(repo, rep, tier):
    rep.rule('bounds', 'every access of a kernel is inside the array it is '
             'given')
    hs = {c.name: c for c in handlers(repo)}
    for (h, what, i), (g, skip, bad, bounds) in sorted(results(
            repo, tier).items()):
        op = dict(OPS)[what.split()[-1]]
        con = '%s.%s %s' % (h, op, show(g))
        if what.startswith('layer ') and bounds is None:
            continue
        if skip is not None:
            rep.skip('bounds', con, skip)
            continue
        ow, fn = repo.lookup(hs[h], op + '_forward_batch')
        if bounds is not None:
            con = '%s (%s.%s)' % (bounds[0], h, op)
        rep.check(bounds is None, 'bounds', con, bounds and
                  '%s, called by %s.%s with %s: %s' % (
                      bounds[0] + (' line %d' % bounds[1] if bounds[1]
                                   else ''), h, op, show(g), bounds[2]),
                  loc(fn))
    for what, skip, bad, bounds in crops(repo):
        if skip:
            rep.skip('bounds', what, skip)
            continue
        rep.check(bounds is None, 'bounds', what if bounds is None else
                  '_crop_images', bounds and '%s, line %d: %s' % (
                      what, bounds.line, bounds.what),
                  'brainstorm/handlers/_cpuop.pyx')


CROPS = [(1, 1, 3, 4, 1, 2, 2), (2, 3, 4, 3, 2, 3, 1), (3, 2, 2, 5, 1, 1, 4),
         (1, 2, 3, 3, 3, 3, 3), (2, 1, 5, 2, 1, 2, 2)]


def crops(repo):
    """[(what, skip, bad, bounds)] for the cropping kernel"""
    fns = kernel_sources(repo)
    out = []
    if '_crop_images' not in fns:
        return [('_crop_images', 'not found', None, None)]
    r = random.Random(3)
    for T, B, H, W, C, h, w in CROPS:
        for corner in (0, 1, 2):
            rows = [(0, H - h, r.randint(0, H - h))[corner]
                    for _ in range(B)]
            cols = [(W - w, 0, r.randint(0, W - w))[corner]
                    for _ in range(B)]
            x, y = lin('x', (T, B, H, W, C)), fill((T, B, h, w, C), None)
            what = '_crop_images %s to %dx%d at %s, %s' % (
                x.shape, h, w, rows, cols)
            try:
                Pyx(fns, '_crop_images', [100000]).run(
                    [x, h, w, Arr(rows, (B,)), Arr(cols, (B,)), y])
            except Bounds as e:
                out.append((what, None, None, e))
                continue
            except (Unsupported, NoModel, ArrErr) as e:
                out.append((what, str(e), None, None))
                continue
            want = []
            for t in range(T):
                for b in range(B):
                    for i in range(h):
                        for j in range(w):
                            for c in range(C):
                                want.append(x.get((t, b, rows[b] + i,
                                                   cols[b] + j, c)))
            got = y.flat()
            bad = [i for i in range(len(want)) if got[i] is None or
                   Lin.of(got[i]) != want[i]]
            out.append((what, None, 'element %d is %s instead of %s' % (
                bad[0], got[bad[0]], want[bad[0]]) if bad else None, None))
    return out


def p74(repo, rep, tier):
    rep.rule('kernel', 'the cropping kernel copies the window of every image')
    for what, skip, bad, bounds in crops(repo):
        if skip or bounds:
            rep.skip('kernel', what, skip or 'leaves its arrays (P15)')
            continue
        rep.check(bad is None, 'kernel', what if bad is None else
                  '_crop_images', bad and '%s: %s' % (what, bad),
                  'brainstorm/handlers/_cpuop.pyx')
