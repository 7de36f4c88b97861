"""Abstract run of the memory of whole networks.

Layout, buffer manager, views and network are evaluated by the abstract
machine for a table of architectures.  Layers and backends are stand-ins:
a backend hands out abstract arrays whose cells hold the provenance of their
value, a layer only records what memory it was given.  What is checked are
relations between cells: which views share memory, and which cells have
which provenance when the first layer runs.
Contributes to P20, P21, P22 and P24, and decides P82."""
from .arr import Arr, fill, prod
from .machine import (ClsV, D, Ext, Func, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported, down)
from .prog import find_cls
from .repo import AnalysisBroken
from .valid import loc


# ------------------------------------------------------------ architectures
class Spec(object):
    """layers: (name, inputs, outputs, parameters, internals, loss);
    shapes are (shape, context, backward only)"""

    def __init__(self, title, layers, wires, sizes=((3, 2), (5, 4), (2, 1)),
                 legal=True):
        self.title, self.layers, self.wires = title, layers, wires
        self.sizes, self.legal = sizes, legal


def S(*shape, **kw):
    return (shape, kw.get('ctx', 0), kw.get('bwd', False))


T, B = 'T', 'B'


def lay(name, ins=(), outs=(), par=(), inter=(), loss=False):
    return (name, tuple(ins), tuple(outs), tuple(par), tuple(inter), loss)


def specs(tier):
    inp = lambda *o: lay('Input', outs=o)
    out = []
    out.append(Spec('a chain of a dense and a recurrent layer', [
        inp(('default', S(T, B, 3)), ('targets', S(T, B, 2))),
        lay('Fc', [('default', S(T, B, 3))], [('default', S(T, B, 4))],
            [('W', S(4, 3)), ('bias', S(4))], [('H', S(T, B, 4)),
                                              ('dH', S(T, B, 4, bwd=True))]),
        lay('Rnn', [('default', S(T, B, 4))],
            [('default', S(T, B, 2, ctx=1))],
            [('W', S(2, 4)), ('R', S(2, 2)), ('bias', S(2))],
            [('Ha', S(T, B, 2, ctx=1)),
             ('dHa', S(T, B, 2, ctx=1, bwd=True)),
             ('dHb', S(T, B, 2, ctx=1, bwd=True))]),
        lay('Loss', [('default', S(T, B, 2)), ('targets', S(T, B, 2))],
            [('loss', S(1))], loss=True)],
        [('Input.default', 'Fc.default'), ('Fc.default', 'Rnn.default'),
         ('Rnn.default', 'Loss.default'),
         ('Input.targets', 'Loss.targets')]))
    out.append(Spec('one output read by two layers, joined again', [
        inp(('default', S(T, B, 2))),
        lay('A', [('default', S(T, B, 2))], [('default', S(T, B, 3))],
            [('W', S(3, 2))]),
        lay('B', [('default', S(T, B, 2))], [('default', S(T, B, 2))],
            [('W', S(2, 2)), ('b', S(2))], [('z', S(T, B, 1))]),
        lay('C', [('default', S(T, B, 5))], [('default', S(T, B, 1))]),
        lay('D', [('default', S(T, B, 2))], [('default', S(T, B, 2))])],
        [('Input.default', 'A.default'), ('Input.default', 'B.default'),
         ('A.default', 'C.default'), ('B.default', 'C.default'),
         ('B.default', 'D.default')]))
    out.append(Spec('sources whose order has to be found', [
        inp(('a', S(T, B, 1)), ('b', S(T, B, 2)), ('c', S(T, B, 3)),
            ('d', S(T, B, 4))),
        lay('P', [('x', S(T, B, 4)), ('y', S(T, B, 6)), ('z', S(T, B, 7))],
            [('default', S(T, B, 2))], [('W', S(2, 2))])],
        [('Input.a', 'P.x'), ('Input.c', 'P.x'), ('Input.b', 'P.y'),
         ('Input.d', 'P.y'), ('Input.c', 'P.z'), ('Input.d', 'P.z')]))
    out.append(Spec('three pairs of three sources', [
        inp(('a', S(T, B, 1)), ('b', S(T, B, 1)), ('c', S(T, B, 1))),
        lay('P', [('x', S(T, B, 2)), ('y', S(T, B, 2)), ('z', S(T, B, 2))],
            [('default', S(T, B, 2))])],
        [('Input.a', 'P.x'), ('Input.b', 'P.x'), ('Input.b', 'P.y'),
         ('Input.c', 'P.y'), ('Input.c', 'P.z'), ('Input.a', 'P.z')],
        legal=False))
    out.append(Spec('images, and buffers that do not grow with time', [
        inp(('default', S(T, B, 2, 3, 1)), ('m', S(T, B, 1))),
        lay('Conv', [('default', S(T, B, 2, 3, 1))],
            [('default', S(T, B, 1, 2, 2)), ('stat', S(B, 2))],
            [('W', S(2, 2, 2, 1)), ('bias', S(2))],
            [('col', S(B, 3)), ('tab', S(2, 2)), ('dtab', S(3, bwd=True)),
             ('dcol', S(B, 3, bwd=True))]),
        lay('Cut', [('default', S(T, B, 4)), ('s', S(B, 2))],
            [('default', S(T, B, 4))], [('g', S(1))], [('state', S(
                T, B, 1, ctx=2))])],
        [('Input.default', 'Conv.default'), ('Conv.default', 'Cut.default'),
         ('Conv.stat', 'Cut.s')]))
    out.append(Spec('no parameters, parallel recurrent layers', [
        inp(('default', S(T, B, 2))),
        lay('R2', [('default', S(T, B, 2))], [('default', S(
            T, B, 1, ctx=1))], (), [('c', S(T, B, 2, ctx=1))]),
        lay('R1', [('default', S(T, B, 2))], [('default', S(
            T, B, 2, ctx=1)), ('other', S(T, B, 1))], (),
            [('c', S(T, B, 1, ctx=2))]),
        lay('M', [('l', S(T, B, 3)), ('r', S(T, B, 1))],
            [('default', S(T, B, 4))])],
        [('Input.default', 'R2.default'), ('Input.default', 'R1.default'),
         ('R1.default', 'M.l'), ('R2.default', 'M.l'),
         ('R1.other', 'M.r')]))
    out.append(Spec('three losses of one layer', [
        inp(('default', S(T, B, 2)), ('t1', S(T, B, 1)), ('t2', S(
            T, B, 1))),
        lay('Fc', [('default', S(T, B, 2))], [('a', S(T, B, 1)), (
            'b', S(T, B, 1))], [('W', S(2, 2))]),
        lay('Zl', [('default', S(T, B, 1)), ('t', S(T, B, 1))],
            [('loss', S(1))], loss=True),
        lay('L1', [('default', S(T, B, 1)), ('t', S(T, B, 1))],
            [('loss', S(1))], loss=True),
        lay('Al', [('default', S(T, B, 2))], [('loss', S(1))], loss=True)],
        [('Input.default', 'Fc.default'), ('Fc.a', 'Zl.default'),
         ('Input.t1', 'Zl.t'), ('Fc.b', 'L1.default'), ('Input.t2', 'L1.t'),
         ('Fc.a', 'Al.default'), ('Fc.b', 'Al.default')]))
    out.append(Spec('two losses', [
        inp(('default', S(T, B, 2)), ('t1', S(T, B, 2))),
        lay('Y', [('default', S(T, B, 2)), ('t', S(T, B, 2))],
            [('loss', S(1)), ('predictions', S(T, B, 2))], loss=True),
        lay('X', [('default', S(T, B, 2))], [('loss', S(1))], loss=True)],
        [('Input.default', 'Y.default'), ('Input.t1', 'Y.t'),
         ('Y.predictions', 'X.default')]))
    if tier != 'quick':
        out += generated(40)
    else:
        out += generated(6)
    return out


def generated(n):
    """layered networks drawn from a fixed sequence"""
    import random
    out = []
    r = random.Random(11)
    for k in range(n):
        names = r.sample(['A', 'Bb', 'C_1', 'zz', 'Mid', 'q', 'Xy'], 3)
        layers = [lay('Input', outs=[(o, S(T, B, r.randint(1, 3)))
                                     for o in ('default', 'aux')[
                                         :r.randint(1, 2)]])]
        ports = [('Input.' + o, sh[0][2]) for o, sh in layers[0][2]]
        wires = []
        for nm in names:
            ins = []
            for p in ('default', 'gate')[:r.randint(1, 2)]:
                src = r.sample(ports, min(len(ports), r.choice((1, 1, 2))))
                ins.append((p, S(T, B, sum(x[1] for x in src))))
                wires += [(x[0], '%s.%s' % (nm, p)) for x in src]
            outs = [(o, S(T, B, r.randint(1, 3), ctx=r.randint(0, 1)))
                    for o in ('default', 'extra')[:r.randint(1, 2)]]
            par = [(w, S(*[r.randint(1, 3) for _ in range(r.randint(1, 2))]))
                   for w in ('W', 'R', 'a')[:r.randint(0, 3)]]
            inter = [(i, S(T, B, r.randint(1, 2), ctx=r.randint(0, 2),
                           bwd=i[0] == 'd'))
                     for i in ('H', 'dH', 'C')[:r.randint(0, 3)]]
            layers.append(lay(nm, ins, outs, par, inter))
            ports += [('%s.%s' % (nm, o), sh[0][2]) for o, sh in outs]
        out.append(Spec('generated network %d' % k, layers, wires,
                        legal=None))
    return out


CATS = ('inputs', 'outputs', 'parameters', 'internals', 'input_deltas',
        'output_deltas', 'gradients')
BACK = ('input_deltas', 'output_deltas', 'gradients')


# ----------------------------------------------------------------- monitor
class Mem(Monitor):
    """backends and layers are recorded, not evaluated"""
    layers = None
    handlers = ()

    def __init__(self):
        self.log = []
        self.count = 0
        self.react = None

    def opaque(self, fn):
        c = fn.cls
        if c is not None and c.name in self.skipped:
            return True
        return fn.name == 'instantiate_layers_from_architecture'
    skipped = ('Layer', 'LossLayerImpl', 'Seedable', 'RandomState')

    def atom(self, what):
        self.count += 1
        return '%s#%d' % (what, self.count)

    def call(self, m, f, args, kw, node):
        if isinstance(f, Ext) and \
                f.name == 'instantiate_layers_from_architecture':
            return self.layers
        if isinstance(f, Meth) and isinstance(f.obj, Arr) and \
                f.name == 'fill':
            f.obj.put(Ellipsis, args[0])
            return None
        if not isinstance(f, Meth) or not isinstance(f.obj, O):
            return NotImplemented
        o, n = f.obj, f.name
        if getattr(o, 'layer', None) is not None:
            self.log.append((n, o.layer, args, kw))
            if self.react is not None:
                self.react(n, o, args, kw)
            return None
        if not getattr(o, 'backend', False):
            return NotImplemented
        ps = {'allocate': ('shape',), 'zeros': ('shape',),
              'ones': ('shape',), 'fill': ('mem', 'val'),
              'copy_to': ('src', 'dest'),
              'set_from_numpy': ('mem', 'arr'),
              'get_numpy_copy': ('mem',), 'create_from_numpy': ('arr',),
              'mult_st': ('s', 't', 'out'), 'add_st': ('s', 't', 'out'),
              'add_tt': ('a', 'b', 'out')}.get(n)
        if ps is None:
            raise Unsupported('operation %s of the backend' % n)
        a = dict(zip(ps, args))
        a.update(kw)
        if set(a) != set(ps):
            raise Unsupported('arguments of %s' % n)
        if n in ('allocate', 'zeros', 'ones'):
            sh = down(a['shape'])
            sh = (sh,) if isinstance(sh, int) else tuple(sh)
            r = fill(sh, 0.0 if n == 'zeros' else 1.0 if n == 'ones'
                     else None)
            if n == 'allocate':
                r.buf[:] = [self.atom('garbage') for _ in r.buf]
            return r
        if n == 'fill':
            a['mem'].put(Ellipsis, a['val'])
            return None
        if n in ('get_numpy_copy', 'create_from_numpy'):
            return list(a.values())[0].copy()
        if 'out' in a:
            x, t = a['out'], [
                v.flat() if isinstance(v, Arr) else [v] * a['out'].size
                for v in (a[p] for p in ps[:2])]
            if not isinstance(x, Arr) or len(t[0]) != len(t[1]) or \
                    len(t[0]) != x.size:
                raise Unsupported('arguments of %s' % n)
            unit = 1.0 if n == 'mult_st' else 0.0
            for i, u, v in zip(x.idx, *t):
                x.buf[i] = 0.0 if n == 'mult_st' and 0.0 in (u, v) else \
                    v if u == unit else u if v == unit else \
                    self.atom('garbage')
            return None
        x, y = (a['dest'], a['src']) if n == 'copy_to' else (a.get('mem'),
                                                             a.get('arr'))
        if not isinstance(x, Arr) or not isinstance(y, Arr):
            raise Unsupported('arguments of %s' % n)
        if x.shape != y.shape:
            raise PyExc('ValueError', 'shapes %s and %s' % (
                x.shape, y.shape))
        for i, v in zip(x.idx, y.flat()):
            x.buf[i] = v
        return None


class Bad(Exception):
    def __init__(self, prop, rule, msg):
        Exception.__init__(self, msg)
        self.prop, self.rule, self.msg = prop, rule, msg


def cells(a):
    return [(id(a.buf), i) for i in a.idx]


class Net(object):
    """one architecture under evaluation"""

    def __init__(self, repo, spec, count):
        self.repo, self.spec, self.count = repo, spec, count

    # ------------------------------------------------------------- set up --
    def structure(self, m, s):
        shape, ctx, bwd = s
        kw = {}
        if ctx:
            kw['context_size'] = ctx
        if bwd:
            kw['is_backward_only'] = True
        return m.call(ClsV(find_cls(self.repo, 'BufferStructure')),
                      list(shape), kw, None, None)

    def build(self, m):
        self.m = m
        base = find_cls(self.repo, 'Layer')
        loss = find_cls(self.repo, 'LossLayerImpl')
        layers = D()
        for name, ins, outs, par, inter, isloss in self.spec.layers:
            o = O('layer ' + name, loss if isloss else base)
            o.layer, o.none = name, False
            o.attrs['name'] = name
            for attr, d in (('in_shapes', ins), ('out_shapes', outs),
                            ('parameter_shapes', par),
                            ('internal_shapes', inter)):
                o.attrs[attr] = D([(k, self.structure(m, s)) for k, s in d])
            o.attrs['outgoing'], o.attrs['incoming'] = L(), L()
            layers.items[name] = o
        for a, b in self.spec.wires:
            c = O('connection')
            c.attrs.update(start_layer=a.split('.')[0],
                           output_name=a.split('.')[1],
                           end_layer=b.split('.')[0],
                           input_name=b.split('.')[1])
            for v in c.attrs.values():
                assert isinstance(v, str)
            layers.items[a.split('.')[0]].attrs['outgoing'].seq.append(c)
            layers.items[b.split('.')[0]].attrs['incoming'].seq.append(c)
        m.mon.layers = layers
        self.layers = layers
        h = self.backend('first')
        m.backend0 = h
        net = find_cls(self.repo, 'Network')
        ow, fn = self.repo.lookup(net, 'from_architecture')
        self.net = m.call_fn(fn, [D()], {}, ClsV(net), fn.node)
        if not isinstance(self.net, O):
            raise Unsupported('from_architecture')

    def backend(self, name):
        h = O('backend ' + name)
        h.backend, h.none, h.truth = True, False, True
        h.attrs['array_type'] = Ext('ndarray')
        h.attrs['dtype'] = Ext('numpy.float32')
        return h

    def meth(self, name, *args, **kw):
        ow, fn = self.repo.lookup(self.net.cls, name)
        if not hasattr(fn, 'node'):
            raise Unsupported('Network.%s' % name)
        return self.m.call_fn(fn, list(args), kw, self.net, fn.node)

    # ------------------------------------------------------------- access --
    def at(self, *path):
        """the view under a path, as layers see it"""
        b = self.m.getattr(self.net, 'buffer', None)
        for p in path:
            v = self.m.getattr(b, p, None)
            if isinstance(b, L) and b.cls is not None:
                f = self.m.special(b, '__getitem__')
                w = self.m.call(f, [p], {}, None, None) if f else v
                if w is not v:
                    raise Bad('P20', 'views', '%s by name and as an '
                              'attribute are different' % '.'.join(path))
                if not any(x is v for x in b.seq):
                    raise Bad('P20', 'views', '%s is not among the elements '
                              'of its view' % '.'.join(path))
            b = v
        return b

    def arr(self, *path):
        v = self.at(*path)
        if not isinstance(v, Arr):
            raise Unsupported('view %s' % '.'.join(path))
        return v

    def ports(self):
        """(layer, category, name, (shape, ctx, bwd))"""
        for name, ins, outs, par, inter, _ in self.spec.layers:
            for cat, d in zip(CATS, (ins, outs, par, inter, ins, outs, par)):
                for k, s in d:
                    yield name, cat, k, s

    def everything(self):
        """cells of the whole memory -> value"""
        out = {}
        for x in self.bufs():
            for i, v in enumerate(x):
                out[id(x), i] = v
        return out

    def bufs(self):
        seen = {}
        for l, c, k, s in self.ports():
            b = self.arr(l, c, k).buf
            seen[id(b)] = b
        for n in ('parameters', 'gradients'):
            b = self.arr(n).buf
            seen[id(b)] = b
        return list(seen.values())

    def soil(self):
        for b in self.bufs():
            for i in range(len(b)):
                b[i] = self.m.mon.atom('old')

    # ------------------------------------------------------------- layout --
    def ok(self, prop, rule, n=1):
        self.count[prop, rule] = self.count.get((prop, rule), 0) + n

    def shapes(self, tsize, bsize):
        for l, c, k, (sh, ctx, bwd) in self.ports():
            want = tuple(tsize + ctx if x == T else bsize if x == B else x
                         for x in sh)
            if c in ('inputs', 'input_deltas'):
                # an input is as long as its source
                got = self.arr(l, c, k).shape
                if len(got) == len(want) and got[1:] == want[1:] and \
                        sh[0] == T and got[0] >= want[0]:
                    self.ok('P24', 'shape')
                    continue
            got = self.arr(l, c, k).shape
            if got != want:
                raise Bad('P24', 'shape', '%s.%s.%s has the shape %s instead '
                          'of %s with %d steps and %d sequences' % (
                              l, c, k, got, want, tsize, bsize))
            self.ok('P24', 'shape')

    def sharing(self, tsize):
        own = {}
        conn = {}
        for a, b in self.spec.wires:
            (x, o), (y, i) = a.split('.'), b.split('.')
            conn.setdefault((y, i), []).append((x, o))
        for l, c, k, s in self.ports():
            v = self.arr(l, c, k)
            cs = cells(v)
            if len(set(cs)) != len(cs):
                raise Bad('P24', 'disjoint', '%s.%s.%s uses a cell twice' % (
                    l, c, k))
            if c in ('inputs', 'input_deltas') and (l, k) in conn:
                continue
            for x in cs:
                if x in own:
                    raise Bad('P24', 'disjoint', '%s.%s.%s and %s.%s.%s '
                              'share memory without being connected' % (
                                  (l, c, k) + own[x]))
                own[x] = (l, c, k)
            self.ok('P24', 'disjoint')
        for (l, k), srcs in conn.items():
            order = {}
            for c, oc in (('inputs', 'outputs'),
                          ('input_deltas', 'output_deltas')):
                v = self.arr(l, c, k)
                rows = self.rows(v, self.struct(l, c, k), tsize)
                names = ['%s.%s.%s' % (x, oc, o) for x, o in srcs]
                parts = [(n, self.rows(self.arr(x, oc, o), self.struct(
                    x, oc, o), tsize)) for n, (x, o) in zip(names, srcs)]
                got = []
                for t, row in enumerate(rows):
                    left = [(n, p[t]) for n, p in parts]
                    seq, pos = [], 0
                    while pos < len(row):
                        hit = [(n, p) for n, p in left
                               if row[pos:pos + len(p)] == p]
                        if not hit:
                            raise Bad(
                                'P24', 'connected', '%s.%s.%s at feature %d '
                                'of row %d is not the memory of any of %s' % (
                                    l, c, k, pos, t, ', '.join(names)))
                        seq.append(hit[0][0])
                        left.remove(hit[0])
                        pos += len(hit[0][1])
                    if left:
                        raise Bad('P24', 'connected', '%s.%s.%s does not '
                                  'contain %s' % (l, c, k, left[0][0]))
                    got.append(seq)
                if any(s != got[0] for s in got):
                    raise Bad('P24', 'connected', '%s.%s.%s joins its '
                              'sources in different orders' % (l, c, k))
                order[c] = [s.replace('output_deltas', 'outputs')
                            for s in (got[0] if got else [])]
                self.ok('P24', 'connected')
            if order['inputs'] != order['input_deltas']:
                raise Bad('P24', 'order', 'the outputs connected to %s.%s '
                          'are joined as %s forward but as %s backward' % (
                              l, k, order['inputs'], order['input_deltas']))
            self.ok('P24', 'order')
        for whole, cat in (('parameters', 'parameters'),
                           ('gradients', 'gradients')):
            a = cells(self.arr(whole))
            b = []
            for l, c, k, s in self.ports():
                if c == cat:
                    b.append(((l, k), cells(self.arr(l, c, k))))
            if len(self.arr(whole).shape) != 1 or sorted(a) != sorted(
                    x for _, cs in b for x in cs):
                raise Bad('P24', 'whole', 'the memory of all %s is not the '
                          'memory of the %s of all layers' % (whole, cat))
            at = {x: i for i, x in enumerate(a)}
            last, lname = -1, None
            for (l, k), cs in b:
                if [at[x] for x in cs] != list(range(at[cs[0]],
                                                     at[cs[0]] + len(cs))):
                    raise Bad('P24', 'whole', '%s.%s.%s is not one piece of '
                              'all %s' % (l, cat, k, whole))
                if lname == l and at[cs[0]] != last + 1:
                    raise Bad('P24', 'forced order', '%s.%s.%s does not '
                              'follow the one declared before it' % (
                                  l, cat, k))
                last, lname = at[cs[-1]], l
                self.ok('P24', 'whole')
            if cat == 'gradients':
                for (l, k), cs in b:
                    pa = cells(self.arr('parameters'))
                    pc = cells(self.arr(l, 'parameters', k))
                    if pa.index(pc[0]) != at[cs[0]]:
                        raise Bad('P24', 'whole', '%s.%s lies at another '
                                  'place in all parameters than in all '
                                  'gradients' % (l, k))

    def struct(self, l, c, k):
        for x in self.ports():
            if x[:3] == (l, c, k):
                return x[3]

    def rows(self, v, s, tsize):
        """cells of one step and sequence, features in order"""
        n = len([x for x in s[0] if x in (T, B)])
        f = prod(v.shape[n:])
        cs = cells(v)
        r = [cs[i:i + f] for i in range(0, len(cs), f)]
        if n == 2:
            r = r[:tsize * v.shape[1]]
        return r

    # --------------------------------------------------------------- data --
    def data(self, t, b, form):
        d = D()
        ins = [x for x in self.spec.layers if x[0] == 'Input'][0][2]
        for k, (sh, ctx, bwd) in ins:
            shape = (t, b) + sh[2:]
            a = fill(shape, None)
            a.buf[:] = [self.m.mon.atom('data') for _ in a.buf]
            d.items[k] = a
        return d

    def legal(self, rule, name, *args, **kw):
        """a call that must be accepted"""
        try:
            return self.meth(name, *args, **kw)
        except PyExc as e:
            if e.name not in ('KeyError', 'ValueError'):
                raise
            raise Bad('P82', rule, '%s raises %s for legal data' % (
                name, e.name))

    def provide(self, t, b):
        d = self.data(t, b, None)
        want = {k: a.flat() for k, a in d.items.items()}
        self.legal('inputs', 'provide_external_data', d)
        for k, a in want.items():
            v = self.arr('Input', 'outputs', k)
            if v.flat()[:len(a)] != a:
                raise Bad('P82', 'inputs', 'Input.outputs.%s does not hold '
                          'the data provided for %s' % (k, k))
            self.ok('P82', 'inputs')

    def partial(self):
        """data for some inputs only"""
        t, b = self.size
        d = self.data(t, b, None)
        names = list(d.items)
        want = {k: a.flat() for k, a in d.items.items()}
        if len(names) > 1:
            e = D([(names[-1], d.items[names[-1]])])
            old = self.arr('Input', 'outputs', names[0]).flat()
            self.legal('partial', 'provide_external_data', e,
                       all_inputs=False)
            v = self.arr('Input', 'outputs', names[-1])
            if v.flat()[:len(want[names[-1]])] != want[names[-1]]:
                raise Bad('P82', 'partial', 'data provided for %s alone does '
                          'not reach it' % names[-1])
            if self.arr('Input', 'outputs', names[0]).flat() != old:
                raise Bad('P82', 'partial', 'data provided for %s changes '
                          '%s' % (names[-1], names[0]))
            self.ok('P82', 'partial')
            try:
                self.meth('provide_external_data', e)
            except PyExc:
                self.ok('P82', 'partial')
            else:
                raise Bad('P82', 'partial', 'data that lacks %s is accepted '
                          'although all inputs are required' % names[0])
        # more than the network needs
        d = self.data(t, b, None)
        want = {k: a.flat() for k, a in d.items.items()}
        d.items['unused'] = fill((t, b, 1), 0.0)
        self.legal('inputs', 'provide_external_data', d)
        for k in names:
            if self.arr('Input', 'outputs', k).flat()[
                    :len(want[k])] != want[k]:
                raise Bad('P82', 'inputs', 'with data for other names '
                          'present %s does not get its data' % k)
        self.ok('P82', 'inputs')

    # --------------------------------------------------------- parameters --
    def params(self):
        return {(l, k): self.arr(l, c, k).flat() for l, c, k, s in
                self.ports() if c == 'parameters'}

    def give(self):
        for l, c, k, s in self.ports():
            if c == 'parameters':
                v = self.arr(l, c, k)
                v.put(Ellipsis, fill(v.shape, None).fresh(
                    [self.m.mon.atom('param') for _ in range(v.size)]))

    def kept(self, old, what):
        new = self.params()
        for k in old:
            if old[k] != new[k]:
                raise Bad('P20', 'kept', 'after %s %s.parameters.%s holds '
                          'other values' % ((what,) + k))
        whole = self.arr('parameters').flat()
        if sorted(map(str, whole)) != sorted(
                str(x) for v in old.values() for x in v):
            raise Bad('P20', 'kept', 'after %s all parameters together hold '
                      'other values than the layers' % what)
        self.ok('P20', 'kept')

    # ------------------------------------------------------------- passes --
    def first(self, name, before, cond):
        """cond(cell values) when the first layer is called"""
        seen = []

        def react(n, o, args, kw):
            if n != name:
                return
            if not seen:
                cond()
            seen.append(o.layer)
            a = list(args) + list(kw.values())
            if name == 'forward_pass' and (len(a) != 2 or
                                           a[1] is not self.training):
                raise Bad('P23', 'mode', '%s is not run with '
                          'training_pass=%s' % (o.layer, self.training))
            if not a or a[0] is not self.at(o.layer):
                raise Bad('P20', 'current', '%s of %s is not given the '
                          'views of the current memory' % (name, o.layer))
            # the layer writes all its own deltas
            cat = 'input_deltas' if name == 'backward_pass' else 'outputs'
            for l, c, k, s in self.ports():
                if l == o.layer and c in (
                        (cat, 'gradients') if name == 'backward_pass'
                        else (cat,)):
                    v = self.arr(l, c, k)
                    for i in v.idx:
                        v.buf[i] = self.written = self.m.mon.atom('by layer')
            self.after = self.everything()
        self.m.mon.react = react
        self.seen = seen

    def backward(self):
        self.soil()
        zero, keep = set(), {}
        for l, c, k, s in self.ports():
            cs = cells(self.arr(l, c, k))
            if c in BACK or s[2]:
                zero.update(cs)
        zero.update(cells(self.arr('gradients')))
        before = self.everything()
        names = {}
        for l, c, k, s in self.ports():
            for x in cells(self.arr(l, c, k)):
                names.setdefault(x, '%s.%s.%s' % (l, c, k))
        for x in cells(self.arr('parameters')):
            names.setdefault(x, 'parameters')

        def cond():
            now = self.everything()
            for x, v in now.items():
                if x in zero:
                    if v != 0 or isinstance(v, str):
                        raise Bad('P21', 'zero', '%s is not zero when the '
                                  'first layer runs backward' % names[x])
                elif x in names and v != before[x]:
                    raise Bad('P21', 'only', '%s is changed before the first '
                              'layer runs backward' % names[x])
            self.ok('P21', 'zero', len(zero))
            self.ok('P21', 'only', len(names))
        self.first('backward_pass', before, cond)
        self.meth('backward_pass')
        self.m.mon.react = None
        self.ran('backward', self.seen)
        if self.everything() != self.after:
            raise Bad('P21', 'kept', 'memory changes after the last layer '
                      'ran backward')
        self.ok('P21', 'kept')

    def contexts(self):
        """cells of recurrent state before the first step, by view"""
        t, b = self.size
        for l, c, k, (sh, ctx, bwd) in self.ports():
            if ctx and sh[0] == T and c in ('outputs', 'internals'):
                v = self.arr(l, c, k)
                f = prod(v.shape[1:])
                cs = cells(v)
                yield l, c, k, bwd, [cs[i * f:(i + 1) * f]
                                     for i in range(v.shape[0])]

    def ran(self, what, seen):
        names = [x[0] for x in self.spec.layers if x[0] != 'Input']
        for x in names:
            if seen.count(x) != 1:
                raise Bad('P23', 'once', 'a %s pass runs %s %d times' % (
                    what, x, seen.count(x)))
        if 'Input' in seen:
            raise Bad('P23', 'once', 'a %s pass runs the data source' % what)
        order = seen if what == 'forward' else seen[::-1]
        for a, b in self.spec.wires:
            a, b = a.split('.')[0], b.split('.')[0]
            if a != 'Input' and order.index(a) > order.index(b):
                raise Bad('P23', 'order', 'a %s pass runs %s and %s in the '
                          'wrong order' % (what, a, b))
        if what == 'forward':
            self.order = seen
        elif seen != self.order[::-1]:
            raise Bad('P23', 'order', 'a backward pass does not run the '
                      'layers in the opposite order')
        self.ok('P23', 'once')
        self.ok('P23', 'order')

    def losses(self):
        """what get_loss_values makes of the losses of the layers"""
        want, x = {}, 0.75
        for name, _, outs, _, _, isloss in self.spec.layers:
            if isloss:
                for i in self.arr(name, 'outputs', 'loss').idx:
                    self.arr(name, 'outputs', 'loss').buf[i] = x
                want[name] = x
                x = x * 4 + 1
        if not want:
            return
        r = self.meth('get_loss_values')
        if not isinstance(r, D):
            raise Unsupported('get_loss_values')
        total = sum(want.values())
        if len(want) == 1:
            want = {}
        want['total_loss'] = total
        if r.items != want:
            raise Bad('P82', 'losses', 'with losses %s get_loss_values '
                      'gives %s' % (want, r.items))
        self.ok('P82', 'losses')

    def copies(self):
        for l, c, k, s in self.ports():
            a = self.arr(l, c, k)
            r = self.meth('get', '%s.%s.%s' % (l, c, k))
            if not isinstance(r, Arr) or r.shape != a.shape or r.flat() != \
                    a.flat():
                raise Bad('P82', 'get', 'get does not return the contents '
                          'of %s.%s.%s' % (l, c, k))
            if r.buf is a.buf:
                raise Bad('P82', 'get', 'get returns the memory of the '
                          'network and no copy')
            if l == 'Input' and c == 'outputs':
                r = self.meth('get_input', k)
                if not isinstance(r, Arr) or r.flat() != a.flat():
                    raise Bad('P82', 'get', 'get_input does not return the '
                              'data of %s' % k)
        self.ok('P82', 'get')

    def forward(self, saved=None, training=False):
        t, b = self.size
        self.soil()
        before = self.everything()
        inside = set()
        for l, c, k, s in self.ports():
            v = self.arr(l, c, k)
            cs = cells(v)
            if s[0][0] == T:
                cs = cs[:t * prod(v.shape[1:])]
            inside.update(cs)
        ctx = list(self.contexts())

        def cond():
            now = self.everything()
            for x in inside:
                if now[x] != before[x]:
                    raise Bad('P22', 'inside', 'a forward pass changes data '
                              'inside the sequence before the first layer '
                              'runs')
            self.ok('P22', 'inside')
            for l, c, k, bwd, steps in ctx:
                for j, cs in enumerate(steps[t:]):
                    for i, x in enumerate(cs):
                        v = now[x]
                        if saved is None:
                            if v != 0 or isinstance(v, str):
                                raise Bad('P22', 'reset', '%s.%s.%s does not '
                                          'start from zero' % (l, c, k))
                        elif v != saved[l, c, k][j][i]:
                            raise Bad('P22', 'restored', '%s.%s.%s does not '
                                      'start from the saved state' % (
                                          l, c, k))
                self.ok('P22', 'reset' if saved is None else 'restored')
        self.first('forward_pass', before, cond)
        self.training = training
        kw = {'training_pass': True} if training else {}
        if saved is not None:
            kw['context'] = self.context
        self.meth('forward_pass', **kw)
        self.m.mon.react = None
        self.ran('forward', self.seen)
        if self.everything() != self.after:
            raise Bad('P22', 'inside', 'memory changes after the last layer '
                      'ran forward')

    def save(self):
        t, b = self.size
        before = self.everything()
        out = {}
        for l, c, k, bwd, steps in self.contexts():
            n = len(steps) - t
            out[l, c, k] = [[before[x] for x in cs]
                            for cs in steps[t - n:t]]
        self.context = self.meth('get_context')
        if self.everything() != before:
            raise Bad('P22', 'saved', 'saving the context changes memory')
        for c in self.m.seq(self.context) if self.context is not None else ():
            if isinstance(c, Arr) and any(c.buf is x for x in self.bufs()):
                raise Bad('P22', 'saved', 'the saved context is no copy')
        self.ok('P22', 'saved')
        return out

    # ---------------------------------------------------------- scenarios --
    def run(self, m):
        spec = self.spec
        try:
            self.build(m)
        except PyExc as e:
            if spec.legal is not True and e.name == 'NetworkValidationError':
                self.ok('P24', 'impossible')
                return
            raise Bad('P24', 'possible', 'no layout is found (%s)' % e.name)
        if spec.legal is False:
            raise Bad('P24', 'impossible', 'an arrangement that one buffer '
                      'cannot provide is accepted')
        self.give()
        old = self.params()
        for n, (t, b) in enumerate(spec.sizes + (spec.sizes[0],)):
            self.size = (t, b)
            self.provide(t, b)
            what = 'changing to %d steps of %d sequences' % (t, b)
            self.kept(old, what)
            self.shapes(t, b)
            self.sharing(t)
            self.forward(training=bool(n % 2))
            self.backward()
            self.give()
            self.losses()
            old = self.params()
            # the same size again: nothing moves, nothing changes
            mem = self.everything()
            self.m.call_fn(*self.resize(t, b))
            if self.everything() != mem:
                raise Bad('P20', 'same size', 'resizing to the current size '
                          'changes memory')
            self.ok('P20', 'same size')
            if n == 1:
                self.partial()
                self.copies()
        # context travels between sequences of different length
        self.size = (4, 2)
        self.provide(4, 2)
        self.forward()
        saved = self.save()
        self.forward(saved)
        self.soil()
        self.size = (3, 2)
        self.provide(3, 2)
        self.forward(saved)
        self.forward()
        self.give()
        old = self.params()
        other = self.backend('second')
        other.attrs['array_type'] = Ext('dict')
        self.meth('set_handler', other)
        if self.m.getattr(self.net, 'handler', None) is not other:
            raise Bad('P20', 'told', 'the network keeps its old backend')
        self.kept(old, 'changing the backend')
        for l, c, k, s in self.ports():
            self.arr(l, c, k)
        told = [x[1] for x in m.mon.log if x[0] == 'set_handler' and
                x[2] and x[2][0] is other]
        for x in spec.layers:
            if x[0] not in told:
                raise Bad('P20', 'told', '%s is not told of the new backend'
                          % x[0])
        self.ok('P20', 'told')
        self.size = (3, 2)
        self.provide(3, 2)
        self.kept(old, 'changing the backend and providing data')
        self.shapes(3, 2)
        self.sharing(3)
        self.backward()

    def resize(self, t, b):
        mgr = self.m.getattr(self.net, '_buffer_manager', None)
        if not isinstance(mgr, O) or mgr.cls is None:
            raise Unsupported('the buffer manager')
        ow, fn = self.repo.lookup(mgr.cls, 'resize')
        if not hasattr(fn, 'node'):
            raise Unsupported('resize')
        return fn, [t, b], {}, mgr, fn.node


class Mac(Machine):
    backend0 = None

    def glob(self, mod, name):
        if name == 'default_handler' and self.backend0 is not None:
            return self.backend0
        return Machine.glob(self, mod, name)

    def head(self):
        self.steps = 0


def one(args):
    repo, spec = args
    count, bad, skip = {}, [], []
    m = Mac(repo, None, Mem, 200, concrete=True)
    n = Net(repo, spec, count)
    try:
        m.each(n.run)
    except Bad as e:
        bad.append((e.prop, e.rule, e.msg))
    except PyExc as e:
        skip.append('raises %s %s' % (e.name, e.val if isinstance(
            e.val, str) else ''))
    except (Unsupported, AttributeError, KeyError, TypeError,
            IndexError) as e:
        skip.append('%s %s' % (type(e).__name__, e))
    return spec.title, count, bad, skip


_CACHE = {}


def results(repo, tier):
    k = (repo.root, tier)
    if k not in _CACHE:
        from multiprocessing import current_process, get_context
        js = [(repo, s) for s in specs(tier)]
        if current_process().daemon:
            _CACHE[k] = [one(j) for j in js]
        else:
            global _JOBS
            _JOBS = js
            with get_context('fork').Pool(8) as p:
                _CACHE[k] = p.map(_nth, range(len(js)), 1)
    return _CACHE[k]


_JOBS = []


def _nth(i):
    return one(_JOBS[i])


RULES = {
    'P20': (('kept', 'parameters keep their values through every change of '
             'size and backend'),
            ('same size', 'resizing to the current size changes nothing'),
            ('told', 'the network and every layer get the new backend'),
            ('current', 'every layer is given views of current memory')),
    'P21': (('zero', 'all backward-only cells are zero when the first layer '
             'runs backward'), ('only', 'all other cells are unchanged then'),
            ('kept', 'nothing is cleared afterwards')),
    'P22': (('reset', 'all recurrent state is zero when the first layer '
             'runs'), ('restored', 'state equals the saved last steps'),
            ('inside', 'nothing else changes'),
            ('saved', 'the saved context is a copy')),
    'P23': (('once', 'every layer but the data source runs once per pass'),
            ('mode', 'with the requested mode'),
            ('order', 'in dependency order, backward in the opposite')),
    'P24': (('shape', 'every view has the declared shape'),
            ('disjoint', 'views that are not connected share no cell'),
            ('connected', 'an input is the memory of its sources'),
            ('order', 'forward and backward order agree'),
            ('whole', 'all parameters are the parameters of all layers'),
            ('impossible', 'arrangements without layout are rejected')),
    'P82': (('inputs', 'every input gets the data of its name'),
            ('partial', 'inputs that are left out keep their data, and are '
             'an error unless that was asked for'),
            ('losses', 'every loss layer\'s own loss, and their sum'),
            ('get', 'the contents of the named buffer, as a copy')),
}


def report(repo, rep, tier, prop):
    for r, t in RULES[prop]:
        rep.rule('memory ' + r, t)
    net = find_cls(repo, 'Network')
    rep.saw(*[f.qual for c in (net, find_cls(repo, 'BufferManager'),
                               find_cls(repo, 'BufferStructure'),
                               find_cls(repo, 'BufferView'))
              if c is not None for f in c.members.values()
              if hasattr(f, "qual")])
    for title, count, bad, skip in results(repo, tier):
        for (p, r), n in sorted(count.items()):
            if p == prop:
                for _ in range(n if n < 50 else 50):
                    rep.ok('memory ' + r, title)
        for p, r, msg in bad:
            if p == prop:
                rep.bad('memory ' + r, title, msg, net.mod.name)
        for s in skip:
            rep.skip('memory', title, s)


def p20(repo, rep, tier):
    report(repo, rep, tier, 'P20')


def p21(repo, rep, tier):
    report(repo, rep, tier, 'P21')


def p22(repo, rep, tier):
    report(repo, rep, tier, 'P22')


def p23(repo, rep, tier):
    report(repo, rep, tier, 'P23')


def p24(repo, rep, tier):
    report(repo, rep, tier, 'P24')


def p82(repo, rep, tier):
    report(repo, rep, tier, 'P82')
