"""Data iterators. P70: every sample once; P72: sources unchanged; P73:
validation and announcements; P74: what augmentation steps do."""
import itertools

from . import arr as A
from .arr import Arr, Lin, prod
from .machine import (ClsV, D, Ext, Func, It, L, Machine, Meth, Monitor, O,
                      PyExc, Unsupported, Violation, down, model, tag)
from .prog import find_cls
from .repo import AnalysisBroken, Fn
from .training import arg
from .valid import loc

GRID = (0.125, 0.375, 0.625, 0.875)


class Rnd(Monitor):
    """random numbers are choices (uniform='grid') or spread evenly"""

    def __init__(self, uniform='grid'):
        self.uniform = uniform
        self.draws = 0
        self.atoms = 0
        self.fixed = uniform == 'fixed'

    def pick(self, m, n):
        if not self.fixed:
            return m.choose(n, True)
        self.draws += 1
        return self.draws % n

    def opaque(self, fn):
        return fn.cls is not None and fn.cls.name == 'Seedable'

    def getattr(self, m, o, name):
        return NotImplemented

    def uni(self, m, shape):
        self.draws += 1
        n = prod(shape)
        if self.uniform in ('even', 'fixed'):
            vals = [((7 * i + 3) % n + 0.5) / n for i in range(n)]
        else:
            if n > 4:
                raise Unsupported('%d random numbers' % n)
            vals = [GRID[m.choose(len(GRID), True)] for _ in range(n)]
        return Arr(vals, shape)

    def ints(self, m, lo, hi, size):
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Unsupported('range of random numbers')
        if hi < lo:
            raise PyExc('ValueError')
        if size is None:
            return lo + self.pick(m, hi - lo + 1)
        n = size if isinstance(size, int) else prod(size)
        return Arr([lo + self.pick(m, hi - lo + 1) for _ in range(n)],
                   (n,) if isinstance(size, int) else tuple(size))

    def perm(self, m, n):
        if n <= 3:
            ps = list(itertools.permutations(range(n)))
        else:
            r = list(range(n))
            ps = [r, r[::-1], r[1:] + r[:1], r[1::2] + r[::2],
                  [1, 0] + r[2:], r[:-2] + [n - 1, n - 2]]
        return list(ps[self.pick(m, len(ps))])

    def call(self, m, f, args, kw, node):
        if isinstance(f, Ext) and f.name.split('.')[-1] == '_crop_images':
            return self.crop(m, args, kw, node)
        if isinstance(f, Meth) and tag(f.obj) == 'rnd':
            n = f.name
            a = [down(x) for x in args]
            if n == 'shuffle':
                x = args[0]
                if isinstance(x, L):
                    p = self.perm(m, len(x.seq))
                    x.seq[:] = [x.seq[i] for i in p]
                    return None
                if isinstance(x, Arr):
                    p = self.perm(m, x.shape[0])
                    x.put(Ellipsis, x.get((p,)))
                    return None
            if n == 'permutation':
                x = args[0]
                if isinstance(x, int):
                    p = self.perm(m, x)
                    return Arr(p, (len(p),))
                if isinstance(x, Arr):
                    return x.get((self.perm(m, x.shape[0]),))
                if isinstance(x, L):
                    p = self.perm(m, len(x.seq))
                    return A.make([down(x.seq[i]) for i in p])
            if n in ('standard_normal', 'randn', 'normal'):
                loc_, scale = 0.0, 1.0
                if n == 'normal':
                    loc_ = arg(a, kw, 0, 'loc') or 0.0
                    scale = arg(a, kw, 1, 'scale')
                    scale = 1.0 if scale is None else scale
                    size = arg(a, kw, 2, 'size')
                elif n == 'randn':
                    size = tuple(a)
                else:
                    size = arg(a, kw, 0, 'size')
                if isinstance(size, int):
                    size = (size,)
                if size is None:
                    size = ()
                v = []
                for _ in range(prod(size)):
                    v.append(Lin({'noise%d' % self.atoms: 1.0}) * scale +
                             loc_)
                    self.atoms += 1
                return Arr(v, tuple(size)) if size != () else v[0]
            if n in ('rand', 'random_sample', 'random', 'uniform'):
                if n == 'uniform':
                    if arg(a, kw, 0, 'low') not in (None, 0, 0.0) or arg(
                            a, kw, 1, 'high') not in (None, 1, 1.0):
                        raise Unsupported('uniform')
                    size = arg(a, kw, 2, 'size')
                elif n == 'rand':
                    size = tuple(a) or None
                else:
                    size = arg(a, kw, 0, 'size')
                if size is None:
                    return self.uni(m, (1,)).buf[0]
                return self.uni(m, (size,) if isinstance(size, int)
                                else tuple(size))
            if n == 'random_integers':
                lo, hi = a[0], arg(a, kw, 1, 'high')
                if hi is None:
                    lo, hi = 1, lo
                return self.ints(m, lo, hi, down(arg(args, kw, 2, 'size')))
            if n == 'randint':
                lo, hi = a[0], arg(a, kw, 1, 'high')
                if hi is None:
                    lo, hi = 0, lo
                return self.ints(m, lo, hi - 1, down(arg(args, kw, 2,
                                                         'size')))
            if n in ('binomial',):
                raise Unsupported(n)
            raise Unsupported('rnd.' + n)
        if isinstance(f, O) and getattr(f, 'source', None) is not None:
            return f.source(m)
        return NotImplemented

    def crop(self, m, args, kw, node):
        names = ('inputs', 'height', 'width', 'row_indices', 'col_indices',
                 'outputs')
        x, h, w, ri, ci, out = [arg(args, kw, i, n)
                                for i, n in enumerate(names)]
        if not all(isinstance(v, Arr) for v in (x, ri, ci, out)):
            raise Unsupported('arguments of _crop_images')
        if x.ndim != 5 or out.ndim != 5 or not x.contiguous() or \
                not out.contiguous():
            raise PyExc('ValueError', '_crop_images needs contiguous 5D data')
        if x.dt is not None and out.dt is not None and x.dt != out.dt:
            raise PyExc('ValueError', '_crop_images: %s and %s data' % (
                x.dt, out.dt))
        T, N, H, W, C = x.shape
        for i in range(ri.shape[0]):
            r, c = ri.flat()[i], ci.flat()[i]
            if r < 0 or c < 0 or r + h > H or c + w > W:
                raise Violation('_crop_images reads outside the images', node)
            if i >= N or out.shape != (T, N, h, w, C):
                raise Violation('_crop_images writes outside its output',
                                node)
            out.put((slice(None), i), x.get((slice(None), i, slice(r, r + h),
                                             slice(c, c + w))))
        return None


# ------------------------------------------------------------- scenarios ----
def data_arr(name, shape, dt='float64', lin=False):
    v = []
    for p in itertools.product(*[range(s) for s in shape]):
        a = '%s%s' % (name, list(p))
        v.append(Lin({a: 1.0}) if lin else a)
    r = Arr(v, shape, tag=name)
    r.dt = dt
    return r


def mask_arr(lens, T):
    r = Arr([1.0 if t < n else 0.0 for t in range(T) for n in lens],
            (T, len(lens), 1), tag='mask')
    r.dt = 'float64'
    return r


def build(m, repo, cname, args, kw):
    c = find_cls(repo, cname)
    if c is None:
        raise AnalysisBroken(cname)
    ow, init = repo.lookup(c, '__init__')
    o = O(cname, c)
    o.none, o.truth = False, True
    r = O('rnd')
    r.none, r.truth = False, True
    o.attrs['rnd'] = r
    m.call_fn(init, list(args), dict(kw), o, init.node)
    o.attrs['rnd'] = r
    return o


def batches(m, it, cap=40):
    """what one pass yields"""
    g = m.call(it_call(m, it), [O('handler')], {}, None, None)
    out = []
    for b in m.drain(m.iter(g, None), None):
        out.append(b)
        if len(out) > cap:
            raise Violation('a pass of %s does not end' % it.tag)
    return out


def it_call(m, it):
    ow, fn = m.repo.lookup(it.cls, '__call__')
    if not isinstance(fn, Fn):
        raise Unsupported('__call__ of %s' % it.tag)
    return Func(fn, it)


def as_dict(b):
    if not isinstance(b, D):
        raise Unsupported('batch %s' % tag(b))
    for k, v in b.items.items():
        if not isinstance(v, Arr):
            raise Unsupported('%s in a batch is %s' % (k, tag(v)))
    return b.items


def decide(rep, rule, what, repo, body, where, uniform='grid', limit=3000):
    """body(m) raises Violation; exceptions of the code are violations"""
    try:
        m = Machine(repo, None, lambda: Rnd(uniform), limit, True)

        def run(m):
            try:
                body(m)
            except PyExc as e:
                raise Violation('%s%s is raised' % (e.name, ' (%s)' % e.val
                                                    if e.val else ''))
        bad = m.each(run)
    except (Unsupported, AttributeError, KeyError, TypeError, IndexError,
            RecursionError, ValueError) as e:
        rep.skip(rule, what, 'not evaluated: %s %s' % (type(e).__name__, e))
        return None
    if bad:
        rep.bad(rule, what, '%s: %s' % (what, bad[0]), where)
    else:
        rep.ok(rule, what, where)
    return m


def where_of(repo, cname, meth='__call__'):
    c = find_cls(repo, cname)
    ow, fn = repo.lookup(c, meth)
    return loc(fn)


# ------------------------------------------------------------------- P70 ----
def column(src, t1, j):
    """identities of sample j, steps before t1"""
    return src.get((slice(0, t1), j)).flat()


def check_pass(bs, data, lens, size, ordered, length):
    """one pass over data (name -> source array)"""
    first = next(iter(data.values()))
    T, N = first.shape[:2]
    seen = []
    for b in bs:
        b = as_dict(b)
        if set(b) != set(data):
            raise Violation('a batch holds %s instead of %s' % (
                sorted(b), sorted(data)))
        shapes = {v.shape[:2] for v in b.values()}
        if len(shapes) != 1:
            raise Violation('arrays of a batch differ in their sizes: %s' %
                            sorted(shapes))
        (t1, n), = shapes
        if n > size or n < 1:
            raise Violation('a batch of %d samples with batch size %d' % (
                n, size))
        cols = None
        for k in sorted(b):
            if b[k].shape[2:] != data[k].shape[2:]:
                raise Violation('the samples of %s change their shape' % k)
            src = {}
            for j in range(N):
                src.setdefault(tuple(column(data[k], min(t1, T), j)),
                               []).append(j)
            mine = []
            for i in range(n):
                c = tuple(b[k].get((slice(None), i)).flat())
                if c not in src or t1 > T:
                    raise Violation('sample %d of a batch of %s is not one '
                                    'of the data' % (i, k))
                mine.append(src[c])
            if k == 'mask':
                continue        # samples of a mask are not distinct
            mine = [x[0] for x in mine]
            if cols is not None and mine != cols:
                raise Violation('the arrays of a batch hold different '
                                'samples: %s and %s' % (cols, mine))
            cols = mine
        if 'mask' in b:
            m = [b['mask'].get((slice(None), i)).flat() for i in range(n)]
            if m != [column(data['mask'], t1, j) for j in cols]:
                raise Violation('the mask belongs to other samples than the '
                                'data')
        want = max(lens[j] for j in cols)
        if t1 < want:
            raise Violation('a batch ends after %d steps with sequences of '
                            '%d' % (t1, want))
        if t1 > want:
            raise Violation('a batch of sequences of at most %d steps has '
                            '%d' % (want, t1))
        seen.append(cols)
    flat = [j for c in seen for j in c]
    if sorted(flat) != list(range(N)):
        raise Violation('samples %s are presented instead of %s' % (
            flat, list(range(N))))
    if ordered and flat != sorted(flat):
        raise Violation('samples come in the order %s without shuffling' %
                        flat)
    if length is not None and length != len(bs):
        raise Violation('%s batches are announced and %d presented' % (
            length, len(bs)))


def cuts(T, N):
    yield None, {}, [T] * N
    if T > 1:
        lens = [(i * 2 + 1) % T + 1 for i in range(N)]
        yield 'mask', {}, lens
        yield 'lens', {'cut_according_to': lens}, lens
        yield 'nocut', {'cut_according_to': None}, [T] * N
        yield 'other', {'cut_according_to': 'm2'}, lens
        yield 'gap', {}, lens
        if N > 1:
            yield 'mask of an empty sequence', {}, [
                0 if i == 1 else lens[i] for i in range(N)]


def minibatches(repo, rep, rule, tier):
    w = where_of(repo, 'Minibatches')
    for N in range(1, 6 if tier == 'quick' else 8):
        for size in range(1, N + 2):
            for T in (1, 3):
                for kind, kw, lens in cuts(T, N):
                    if size < 2 and 0 in lens:
                        continue
                    for sh in (False, True):
                        def body(m):
                            data = {'default': data_arr('x', (T, N, 2)),
                                    'targets': data_arr('y', (T, N, 1))}
                            if kind in ('mask', 'gap') or 0 in lens:
                                data['mask'] = mask_arr(lens, T)
                            if kind == 'gap':
                                for i in range(N):
                                    if lens[i] > 1:
                                        data['mask'].put((0, i, 0), 0.0)
                            if kind == 'other':
                                data['m2'] = mask_arr(lens, T)
                            k = dict(kw)
                            if isinstance(k.get('cut_according_to'), list):
                                k['cut_according_to'] = L(lens)
                            it = build(m, repo, 'Minibatches', [size, sh],
                                       dict(k, **data))
                            for p in range(2 if N < 5 or not sh else 1):
                                d2 = dict(data)
                                bs = [as_dict(b) for b in batches(m, it)]
                                bs = [D(b) for b in bs]
                                if kind == 'other':
                                    d2['mask'] = d2.pop('m2')
                                    for b in bs:
                                        if 'm2' in b.items:
                                            b.items['mask'] = b.items.pop(
                                                'm2')
                                check_pass(bs, d2, lens, size, not sh,
                                           it.attrs.get('length'))
                        decide(rep, rule, 'Minibatches of %d samples, batch '
                               'size %d, %d steps, %s%s' % (
                                   N, size, T, 'shuffled' if sh else
                                   'in order', ', cut by ' + kind if kind
                                   else ''), repo, body, w)


def undivided(repo, rep, rule):
    w = where_of(repo, 'Undivided')
    for N, T in itertools.product((1, 3), (1, 2)):
        def body(m):
            data = {'default': data_arr('x', (T, N, 2)),
                    'targets': data_arr('y', (T, N, 1))}
            it = build(m, repo, 'Undivided', [], data)
            for p in range(2):
                bs = batches(m, it)
                check_pass(bs, data, [T] * N, N, True,
                           it.attrs.get('length'))
        decide(rep, rule, 'Undivided with %d samples, %d steps' % (N, T),
               repo, body, w)


# wrappers: name -> (arguments, data of 'default')
def wrappers():
    """(class, keyword arguments, shape of default, elements)"""
    img = (2, 3, 4, 5, 2)
    seq = (2, 3, 2)
    yield 'AddGaussianNoise', {'std_dict': {'default': 2.0}}, seq, 'lin'
    yield 'AddGaussianNoise', {'std_dict': {'default': 0.5}, 'mean_dict': {
        'default': -1.0}}, seq, 'lin'
    yield 'AddGaussianNoise', {'std_dict': {'default': 2.0, 'targets': 3.0},
                               'mean_dict': {'default': 1.0,
                                             'targets': 0.5}}, seq, 'lin'
    yield 'AddSaltNPepper', {'prob_dict': {'default': 0.5}}, (2, 5, 10), 'id'
    yield 'AddSaltNPepper', {'prob_dict': {'default': 0.5}, 'ratio_dict': {
        'default': 0.2}}, (2, 5, 10), 'id'
    yield 'AddSaltNPepper', {'prob_dict': {'default': 0.0}}, (2, 5, 10), 'id'
    yield 'AddSaltNPepper', {'prob_dict': {'default': 1.0}, 'ratio_dict': {
        'default': 0.75}}, (2, 5, 10), 'id'
    for p in (0.0, 0.25, 0.5, 1.0):
        yield 'Flip', {'prob_dict': {'default': p}}, (2, 2, 2, 3, 2), 'id'
    yield 'Flip', {}, (1, 2, 2, 4, 1), 'id'
    yield 'OneHot', {'vocab_size_dict': {'default': 4}}, (2, 3, 1), 'int'
    yield 'OneHot', {'vocab_size_dict': {'default': 5, 'targets': 6}}, (
        3, 2, 1), 'int'
    yield 'MultiHot', {'vocab_size_dict': {'default': 4}}, (2, 3, 2), 'int'
    yield 'MultiHot', {'vocab_size_dict': {'default': 7}}, (1, 2, 3), 'int'
    for s in (0, 1, 3):
        yield 'Pad', {'size_dict': {'default': s}}, img, 'id'
    yield 'Pad', {'size_dict': {'default': 2}, 'value_dict': {
        'default': 7.0}}, img, 'id'
    for s in ((2, 3), (4, 5), (3, 5), (4, 1), (1, 1)):
        yield 'RandomCrop', {'shape_dict': {'default': s}}, (
            2, 2, 4, 5, 1), 'id'


def content(name, shape, kind):
    if kind == 'int':
        n = prod(shape)
        r = Arr([(3 * i + i // 4) % 4 for i in range(n)], shape, tag=name)
        return r
    return data_arr(name, shape, 'float32', True)


def nestd(d):
    return {k: D(v) if isinstance(v, dict) else v for k, v in d.items()}


def wrapped(m, repo, cname, kw, shape, kind, over, size):
    T, N = shape[:2]
    data = {'default': content('x', shape, kind),
            'targets': content('y', (T, N, 1), kind),
            'extra': content('z', (T, N, 3), 'id')}
    if over == 'Undivided':
        src = build(m, repo, over, [], data)
    else:
        src = build(m, repo, over, [size, False], data)
    kws = {k: D(v) for k, v in kw.items()}
    it = build(m, repo, cname, [src], kws)
    return data, src, it, kws


def named(kw):
    out = set()
    for d in kw.values():
        out |= set(d)
    return out or {'default'}


# ------------------------------------------------------------------- P72 ----
def untouched(repo, rep, rule):
    for cname, kw, shape, kind in wrappers():
        for over, size in (('Undivided', 3), ('Minibatches', 2),
                           ('Minibatches', 1)):
            def body(m):
                data, src, it, kws = wrapped(m, repo, cname, kw, shape, kind,
                                             over, size)
                before = {k: list(v.buf) for k, v in data.items()}
                opts = {k: dict(v.items) for k, v in kws.items()}
                shapes = {k: v.shape for k, v in data.items()}
                for p in range(2):
                    got = []
                    for b in batches(m, it):
                        got.append(as_dict(b))
                    for b in got:
                        b.clear()       # a batch belongs to its consumer
                    for k, v in data.items():
                        if v.buf != before[k]:
                            raise Violation('the array %s of the source is '
                                            'changed' % k)
                    for k, v in kws.items():
                        if v.items != opts[k]:
                            raise Violation('%s given by the user is changed'
                                            % k)
                    if src.attrs['data_shapes'].items != shapes:
                        raise Violation('the shapes announced by the wrapped '
                                        'iterator are changed')
                check_pass(batches(m, src), data, [shape[0]] * shape[1],
                           shape[1], True, None)
            decide(rep, rule, '%s(%s) over %s%s' % (
                cname, ', '.join('%s=%s' % x for x in sorted(kw.items())),
                over, '' if over == 'Undivided' else '(%d)' % size), repo,
                body, where_of(repo, cname), 'fixed')


def own_copies(repo, rep, rule):
    """what a consumer does to a batch does not reach the iterator"""
    for cname, args in (('Undivided', []), ('Minibatches', [2, False]),
                        ('Minibatches', [3, True])):
        def body(m):
            data = {'default': data_arr('x', (2, 3, 2)),
                    'targets': data_arr('y', (2, 3, 1)),
                    'mask': mask_arr([2, 2, 2], 2)}
            before = {k: list(v.buf) for k, v in data.items()}
            it = build(m, repo, cname, args, data)
            for p in range(2):
                bs = batches(m, it)
                check_pass(bs, data, [2] * 3, 3, len(args) < 2 or
                           not args[1], None)
                for b in bs:
                    as_dict(b).clear()
                    b.items['other'] = 1
                for k, v in data.items():
                    if v.buf != before[k]:
                        raise Violation('the array %s is changed' % k)
        decide(rep, rule, '%s(%s)' % (cname, ', '.join(map(str, args))),
               repo, body, where_of(repo, cname), 'fixed')


def p70(repo, rep, tier):
    r = 'every-sample'
    rep.rule(r, 'the provenance of every element of the batches of one pass '
             'and of the next: every sample exactly once, paired over all '
             'arrays, in order unless shuffled, cut after the longest '
             'sequence of the batch, in as many batches as announced, for '
             'tables of sizes, lengths and shuffle orders')
    minibatches(repo, rep, r, tier)
    undivided(repo, rep, r)


def p72(repo, rep, tier):
    r, c = 'source', 'consumer'
    rep.rule(r, 'two passes over an augmentation step leave every element '
             'of the source arrays, the options and what the wrapped '
             'iterator yields and announces as they were')
    rep.rule(c, 'changing a batch that was yielded does not change what the '
             'iterator yields next')
    untouched(repo, rep, r)
    own_copies(repo, rep, c)


# ------------------------------------------------------------------- P73 ----
def good_bad():
    """(class, source shapes, constructor arguments, accepted)"""
    x, y = (2, 3, 2), (2, 3, 1)
    img = (2, 3, 4, 5, 2)
    for c, a in (('Undivided', []), ('Minibatches', [2])):
        yield c, None, a, {'default': x, 'targets': y}, True
        yield c, None, a, {'default': x}, True
        yield c, None, a, {'default': img, 'targets': y}, True
        yield c, None, a, {'default': x, 'targets': (2, 4, 1)}, False
        yield c, None, a, {'default': x, 'targets': (2, 2, 1)}, False
        yield c, None, a, {'default': x, 'targets': (1, 3, 1)}, False
        yield c, None, a, {'default': x, 'targets': (3, 3, 1)}, False
        yield c, None, a, {'default': (3, 2, 2), 'targets': y}, False
        yield c, None, a, {'default': x, 'targets': (2, 3)}, False
        yield c, None, a, {'default': (2, 3), 'targets': (2, 3)}, False
        yield c, None, a, {'default': x, 'targets': [1, 2]}, False
        yield c, None, a, {'a': x, 'b': y, 'c': (2, 4, 1)}, False
        yield c, None, a, {'a': (2, 4, 1), 'b': x, 'c': y}, False
        yield c, None, a, {'a': y, 'b': (1, 3, 9), 'c': y}, False
        yield c, None, a, {'a': y, 'b': x, 'c': (1, 3, 9)}, False
        yield c, None, a, {'a': (1, 3, 9), 'b': y, 'c': x}, False
    for lens in ([2, 1, 2],):
        yield 'Minibatches', None, [2, True, L(lens)], {'default': x}, True
    for lens in ([2, 1], [2, 1, 2, 1]):
        yield 'Minibatches', None, [2, True, L(lens)], {'default': x}, False
    S = {'default': x, 'targets': y}
    I = {'default': img, 'targets': y}
    one = lambda v, k='default': {k: v}
    for c, o, src, okv, nokv in (
            ('AddGaussianNoise', 'std_dict', S, [1.0], []),
            ('AddSaltNPepper', 'prob_dict', S, [0.5], []),
            ('Flip', 'prob_dict', I, [0.0, 0.5, 1.0], [1.5, -0.5]),
            ('OneHot', 'vocab_size_dict', {'default': y, 'targets': y}, [4],
             [4.5, '4']),
            ('MultiHot', 'vocab_size_dict', S, [4], [4.5, '4']),
            ('Pad', 'size_dict', I, [0, 2], []),
            ('RandomCrop', 'shape_dict', I,
             [(1, 1), (4, 5), (4, 1), (2, 5)],
             [(5, 5), (4, 6), (-1, 2), (2, -1), (2,), (2, 2, 2), 3])):
        for v in okv:
            yield c, src, [], {o: one(v)}, True
        for v in nokv:
            yield c, src, [], {o: one(v)}, False
        yield c, src, [], {o: one(okv[0], 'nothere')}, False
        yield c, src, [], {o: {'default': okv[0], 'zz': okv[0]}}, False
        if c in ('Flip', 'Pad', 'RandomCrop'):
            yield c, S, [], {o: one(okv[0])}, False
            yield c, {'default': (2, 3, 4, 5), 'targets': y}, [], {
                o: one(okv[0])}, False
            yield c, I, [], {o: one(okv[0], 'targets')}, False
        if c == 'OneHot':
            yield c, S, [], {o: one(4)}, False
            yield c, {'default': (2, 3, 1, 1), 'targets': y}, [], {
                o: one(4)}, False
        if c == 'MultiHot':
            yield c, I, [], {o: one(4)}, False
    for c, o, o2, src in (
            ('AddGaussianNoise', 'std_dict', 'mean_dict', S),
            ('AddSaltNPepper', 'prob_dict', 'ratio_dict', S),
            ('Pad', 'size_dict', 'value_dict', I)):
        v = 1 if c == 'Pad' else 0.5
        yield c, src, [], {o: one(v), o2: one(v)}, True
        yield c, src, [], {o: one(v), o2: one(v, 'targets')}, False
        yield c, src, [], {o: one(v), o2: {}}, False
        yield c, src, [], {o: one(v), o2: {'default': v, 'targets': v}}, False


def source(shapes):
    o = O('iterator')
    o.none, o.truth = False, True
    o.attrs['data_shapes'] = D(shapes)
    o.attrs['length'] = 2
    return o


def validation(repo, rep, rule):
    for c, src, a, kw, good in good_bad():
        def body(m):
            if src is None:
                k = {n: Arr([0.0] * prod(v), v) if isinstance(v, tuple)
                     else L(v) for n, v in kw.items()}
                args = list(a)
            else:
                k, args = {n: D(v) for n, v in kw.items()}, [source(src)]
            try:
                build(m, repo, c, args, k)
            except PyExc as e:
                if good:
                    raise Violation('%s is raised for valid data' % e.name)
                if e.name in ('NameError', 'UnboundLocalError'):
                    raise Violation('%s is raised' % e.name)
                return
            if not good:
                raise Violation('nothing is raised')
        decide(rep, rule, '%s(%s)%s%s' % (
            c, ', '.join(['%s=%s' % x for x in sorted(kw.items())]),
            ', %s' % (a[2:],) if a[2:] else '',
            ' over %s' % sorted(src.items()) if src else ''), repo, body,
            where_of(repo, c, '__init__'))


def announced(repo, rep, rule):
    for cname, kw, shape, kind in wrappers():
        for over, size in (('Undivided', shape[1]), ('Minibatches', 2),
                           ('Minibatches', 1)):
            def body(m):
                data, src, it, kws = wrapped(m, repo, cname, kw, shape, kind,
                                             over, size)
                an = it.attrs.get('data_shapes')
                if not isinstance(an, D):
                    raise Unsupported('data_shapes')
                bs = [as_dict(b) for b in batches(m, it)]
                if it.attrs.get('length') != len(bs):
                    raise Violation('%s batches are announced and %d '
                                    'presented' % (it.attrs.get('length'),
                                                   len(bs)))
                if set(an.items) != set(data) or any(
                        set(b) != set(data) for b in bs):
                    raise Violation('%s are announced and %s presented' % (
                        sorted(an.items), sorted(bs[0])))
                for k, sh in an.items.items():
                    got = (max(b[k].shape[0] for b in bs),
                           sum(b[k].shape[1] for b in bs))
                    rest = {b[k].shape[2:] for b in bs}
                    if rest != {tuple(sh[2:])} or got != tuple(sh[:2]):
                        raise Violation('%s of shape %s is announced but %s '
                                        'presented' % (k, sh, [
                                            b[k].shape for b in bs]))
                src_b = [as_dict(b) for b in batches(m, src)]
                for b, o in zip(bs, src_b):
                    for k in data:
                        if b[k].shape[:2] != o[k].shape[:2]:
                            raise Violation('%s changes its leading '
                                            'dimensions' % k)
                        if k not in named(kw) and (
                                b[k].flat() != o[k].flat() or
                                b[k].shape != o[k].shape):
                            raise Violation('%s is changed, which is not '
                                            'named' % k)
            decide(rep, rule, '%s(%s) over %s%s' % (
                cname, ', '.join('%s=%s' % x for x in sorted(kw.items())),
                over, '' if over == 'Undivided' else '(%d)' % size), repo,
                body, where_of(repo, cname), 'fixed')
    for cname, args in (('Undivided', []), ('Minibatches', [2, False])):
        def body(m):
            data = {'default': data_arr('x', (2, 3, 2)),
                    'targets': data_arr('y', (2, 3, 1))}
            it = build(m, repo, cname, args, data)
            an = it.attrs.get('data_shapes')
            if not isinstance(an, D):
                raise Unsupported('data_shapes')
            if an.items != {k: v.shape for k, v in data.items()}:
                raise Violation('%s is announced' % an.items)
        decide(rep, rule, cname, repo, body, where_of(repo, cname,
                                                      '__init__'))


def p73(repo, rep, tier):
    v, a = 'validation', 'announced'
    rep.rule(v, 'constructing an iterator raises for every row of a table of '
             'inconsistent data and options and returns for the consistent '
             'ones')
    rep.rule(a, 'names, shapes and number of batches announced are those '
             'yielded; arrays that are not named keep every element, named '
             'ones their leading dimensions')
    validation(repo, rep, v)
    announced(repo, rep, a)


# ------------------------------------------------------------------- P74 ----
def ref_pad(x, s, v):
    t, b, h, w, c = x.shape
    r = A.fill((t, b, h + 2 * s, w + 2 * s, c), v)
    r.put((slice(None), slice(None), slice(s, s + h), slice(s, s + w)), x)
    return r


def same(a, b):
    return a.shape == b.shape and all(
        x == y and isinstance(x, str) == isinstance(y, str)
        for x, y in zip(a.flat(), b.flat()))


def transforms(repo, rep, rule):
    for cname, kw, shape, kind in wrappers():
        for over, size in (('Undivided', shape[1]), ('Minibatches', 1)):
            stats = {'runs': 0, 'flips': {}, 'seen': set()}

            def body(m):
                data, src, it, kws = wrapped(m, repo, cname, kw, shape, kind,
                                             over, size)
                orig = [as_dict(b) for b in batches(m, src)]
                outs = [as_dict(b) for b in batches(m, it)]
                if len(orig) != len(outs):
                    raise Violation('%d batches become %d' % (len(orig),
                                                              len(outs)))
                stats['runs'] += 1
                stats['draws'] = len(outs) * len(named(kw))
                for i, (b, o) in enumerate(zip(outs, orig)):
                    for k in sorted(named(kw)):
                        one(m, cname, kw, k, o[k], b[k], i, stats)
            uni = 'even' if cname == 'AddSaltNPepper' else 'grid'
            what = '%s(%s) over %s' % (cname, ', '.join(
                '%s=%s' % x for x in sorted(kw.items())), over)
            w = where_of(repo, cname)
            m = decide(rep, rule, what, repo, body, w, uni, 5000)
            if m is None:
                continue
            if cname == 'Flip':
                p = kw.get('prob_dict', {'default': 0.5})['default']
                for j, n in sorted(stats['flips'].items()):
                    rep.check(n == p * stats['runs'], rule,
                              what + ' sample %s' % (j,),
                              '%s flips sample %s in %d of %d cases for '
                              'probability %s' % (what, j, n, stats['runs'],
                                                  p), w)
            if cname == 'RandomCrop':
                ch, cw = kw['shape_dict']['default']
                want = set(itertools.product(range(shape[2] - ch + 1),
                                             range(shape[3] - cw + 1)))
                got = stats['seen']
                rep.check(got == want, rule, what + ' offsets',
                          '%s uses the offsets %s instead of %s' % (
                              what, sorted(got), sorted(want)), w)


def one(m, cname, kw, k, x, y, i, stats):
    if cname == 'AddGaussianNoise':
        std = kw['std_dict'][k]
        mean = kw.get('mean_dict', {}).get(k, 0.0)
        if y.shape != x.shape:
            raise Violation('the shape changes to %s' % (y.shape,))
        used = set()
        for a, b in zip(x.flat(), y.flat()):
            d = Lin.of(b) - a
            t = dict(d.terms)
            if len(t) != 1 or abs(abs(list(t.values())[0]) - std) > 1e-9 or \
                    abs(d.const - mean) > 1e-9:
                raise Violation('%s becomes %s instead of %s + %s * noise + '
                                '%s' % (a, b, a, std, mean))
            if set(t) & used:
                raise Violation('the same noise is added to several elements')
            used |= set(t)
    elif cname == 'AddSaltNPepper':
        p = kw['prob_dict'][k]
        r = kw.get('ratio_dict', {}).get(k, 0.5)
        if m.mon.draws != stats['draws']:
            raise Unsupported('several draws per element')
        if y.shape != x.shape:
            raise Violation('the shape changes to %s' % (y.shape,))
        n = [0, 0]
        for a, b in zip(x.flat(), y.flat()):
            if isinstance(b, (int, float)) and b in (0.0, 1.0):
                n[int(b)] += 1
            elif a != b:
                raise Violation('%s becomes %s' % (a, b))
        want = [x.size * p * (1 - r), x.size * p * r]
        if any(abs(a - b) > 1e-9 for a, b in zip(n, want)):
            raise Violation('of %d elements %d become 0 and %d become 1 '
                            'instead of %g and %g' % (
                                x.size, n[0], n[1], want[0], want[1]))
    elif cname == 'Flip':
        if y.shape != x.shape:
            raise Violation('the shape changes to %s' % (y.shape,))
        for j in range(x.shape[1]):
            a = x.get((slice(None), j))
            b = y.get((slice(None), j))
            f = a.get((slice(None), slice(None), slice(None, None, -1)))
            n = stats['flips'].setdefault((i, j), 0)
            if same(b, f):
                stats['flips'][i, j] = n + 1
            elif not same(a, b):
                raise Violation('a sample is neither left alone nor mirrored '
                                'as a whole')
    elif cname in ('OneHot', 'MultiHot'):
        v = kw['vocab_size_dict'][k]
        T, N, F = x.shape
        fl = x.flat()
        want = [1.0 if q in fl[(t * N + n) * F:(t * N + n + 1) * F] else 0.0
                for t in range(T) for n in range(N) for q in range(v)]
        if y.shape != (T, N, v) or [float(q) for q in y.flat()] != want:
            raise Violation('%s becomes %s' % (x.nested(), y.nested()))
    elif cname == 'Pad':
        v = kw.get('value_dict', {}).get(k, 0.0)
        if not same(ref_pad(x, kw['size_dict'][k], v), y):
            raise Violation('the data is not the images with %d pixels of %s '
                            'on every side' % (kw['size_dict'][k], v))
    elif cname == 'RandomCrop':
        h, w = kw['shape_dict'][k]
        T, N, H, W, C = x.shape
        if y.shape != (T, N, h, w, C):
            raise Violation('the crops have the shape %s' % (y.shape,))
        for j in range(N):
            b = y.get((slice(None), j))
            hits = [(r, c) for r in range(H - h + 1) for c in range(W - w + 1)
                    if same(b, x.get((slice(None), j, slice(r, r + h),
                                      slice(c, c + w))))]
            if not hits:
                raise Violation('a crop is not a window of its image')
            stats['seen'].add(hits[0])


def p74(repo, rep, tier):
    r = 'transform'
    rep.rule(r, 'the provenance of every element an augmentation step yields '
             'is what its documentation says for every choice of its random '
             'numbers from a grid, and choices occur as often as their '
             'probability')
    transforms(repo, rep, r)
