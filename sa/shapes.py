"""Networks of the real layer classes, set up by the abstract machine.

Every layer type is set up with different options and inputs inside a small
architecture; the declared outputs and parameters are compared with what the
options ask for, and ill-formed uses must end in an error.  Decides P29 and
part of P25."""
from .arch import fn_of
from .graphs import Wire, dd
from .hooks import guarded
from .machine import ClsV, D, Ext, L, Machine, Meth, O, PyExc, Unsupported
from .prog import find_cls
from .valid import loc
from .watch import attempt, judge


class Setup(Wire):
    def constant(self, e):
        return True

    def opaque(self, fn):
        return fn.name in ('get_layer_class_from_typename',)

    def call(self, m, f, args, kw, node):
        n = f.name.split('.')[-1] if isinstance(f, (Meth, Ext)) else None
        if n == 'get_layer_class_from_typename':
            return ClsV(find_cls(m.repo, args[0]))
        if n == 'inspect':
            raise Unsupported('inspection')
        return Wire.call(self, m, f, args, kw, node)


def tb(*s):
    return ('T', 'B') + s


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def out(n, k, p, s):
    return (n + 2 * p - k) // s + 1


LSTM = [(w + g, k) for w, k in (('W', 'in'), ('R', 'rec'), ('b', 'bias'))
        for g in 'zifo'] + [(w, 'peep') for w in ('pi', 'pf', 'po')]


def lstm(n, i):
    k = {'in': (n, i), 'rec': (n, n), 'bias': (n,), 'peep': (1, n)}
    return {a: k[b] for a, b in LSTM}


def cases():
    """type, options, shapes of the inputs, outputs, parameters"""
    for s in ((3,), (2, 3), (4, 5, 2)):
        d = {'default': tb(*s)}
        n = prod(s)
        for size in (5, (5,), (2, 3), (3, 1, 2), [4, 2], None):
            t = s if size is None else (size,) if isinstance(
                size, int) else tuple(size)
            o = {} if size is None else {'size': size}
            yield 'FullyConnected', o, d, {'default': tb(*t)}, {
                'W': (prod(t), n), 'bias': (prod(t),)}
        for size in (1, 5, None):
            z = n if size is None else size
            o = {} if size is None else {'size': size}
            yield 'Recurrent', o, d, {'default': tb(z)}, {
                'W': (z, n), 'R': (z, z), 'bias': (z,)}
            yield 'Clockwork', o, d, {'default': tb(z)}, {
                'W': (z, n), 'R': (z, z), 'bias': (z,), 'timing': (z,)}
            yield 'Lstm', o, d, {'default': tb(z)}, lstm(z, n)
            yield 'ClockworkLstm', o, d, {'default': tb(z)}, dict(
                lstm(z, n), timing=(z,))
        for t, o in (('NoOp', {}), ('Dropout', {'drop_prob': 0.2}),
                     ('Dropout', {}), ('Elementwise', {}),
                     ('Elementwise', {'activation': 'tanh'}),
                     ('DeltasScaling', {'factor': 2.0})):
            yield t, o, d, {'default': tb(*s)}, {}
        for o in ({}, {'decay': 0.5, 'epsilon': 1e-3}, {'decay': 0.0},
                  {'decay': 1.0}):
            yield 'BatchNorm', o, d, {'default': tb(*s)}, {
                k: s[-1:] for k in ('gamma', 'beta', 'mu', 'sigma')}
        for t in ('L1Decay', 'L2Decay'):
            yield t, {}, d, {'loss': tb(1)}, {}
        yield 'Loss', {}, d, {'loss': (1,)}, {}
        yield 'Loss', {'importance': 0.5}, d, {'loss': (1,)}, {}
        yield 'Highway', {}, {k: tb(*s) for k in 'HTx'}, {
            'default': tb(*s)}, {}
        two = {'inputs_1': tb(*s), 'inputs_2': tb(*s)}
        yield 'SquaredDifference', {}, two, {'default': tb(*s)}, {}
        yield 'Merge', {}, two, {'default': tb(*s[:-1] + (2 * s[-1],))}, {}
        yield 'Merge', {}, {'inputs_1': tb(*s), 'inputs_2': tb(
            *s[:-1] + (7,))}, {'default': tb(*s[:-1] + (s[-1] + 7,))}, {}
        tg = {'default': tb(*s), 'targets': tb(*s)}
        for t in ('SquaredError', 'SigmoidCE'):
            yield t, {}, tg, {'predictions': tb(*s), 'loss': tb(*s)}, {}
        yield 'BinomialCrossEntropy', {}, tg, {'default': tb(1)}, {}
        yield 'SoftmaxCE', {}, {'default': tb(*s), 'targets': tb(
            *s[:-1] + (1,))}, {'predictions': tb(*s), 'loss': tb(
                *s[:-1] + (1,))}, {}
        for m in {(1,), s[:-1] + (1,), s}:
            yield 'Mask', {}, {'default': tb(*s), 'mask': tb(*m)}, {
                'default': tb(*s)}, {}
    yield 'Loss', {}, {'default': ('B', 4)}, {'loss': (1,)}, {}
    yield 'Loss', {}, {'default': (4,)}, {'loss': (1,)}, {}
    for s in ((8, 8, 1), (7, 5, 3), (6, 9, 2)):
        for k in ((1, 1), (3, 3), (2, 4), [3, 2]):
            for p, st in ((None, None), (1, (1, 1)), (0, (2, 3)),
                          (2, [3, 1])):
                o = {'kernel_size': k}
                if p is not None:
                    o.update(padding=p, stride=st)
                q, r = p or 0, st or (1, 1)
                h, w = (out(s[i], k[i], q, r[i]) for i in (0, 1))
                yield 'Convolution2D', dict(o, num_filters=4), {
                    'default': tb(*s)}, {'default': tb(h, w, 4)}, {
                        'W': (4,) + tuple(k) + s[-1:], 'bias': (4,)}
                for t in ('max', 'avg'):
                    yield 'Pooling2D', dict(o, type=t), {
                        'default': tb(*s)}, {'default': tb(
                            h, w, s[-1])}, {}


def arch(t, opts, ins):
    """the layer fed by one output of the data source per input"""
    a = {'Input': {'@type': 'Input', 'out_shapes': {
        'to_' + k: s for k, s in ins.items()}, '@outgoing_connections': {
            'to_' + k: ['it.' + k] for k in ins}},
         'it': {'@type': t, '@outgoing_connections': {}}}
    a['it'].update(opts)
    return a


def shape(x):
    s = x.attrs.get('shape') if isinstance(x, O) else None
    if not isinstance(s, tuple) or not all(isinstance(k, (int, str))
                                           for k in s):
        raise Unsupported('a shape')
    return s


def shapes(l, k):
    d = l.attrs.get(k) if isinstance(l, O) else None
    if not isinstance(d, D) or not all(isinstance(n, str) for n in d.items):
        raise Unsupported(k)
    return {n: shape(x) for n, x in d.items.items()}


def go(repo, body):
    m = Machine(repo, None, Setup, 50, concrete=True)
    out = []
    m.each(lambda m: out.append(attempt(lambda: body(m))))
    return out


def compare(l, what, k, want):
    got = shapes(l, k)
    if got != want:
        n = sorted(n for n in set(got) | set(want)
                   if got.get(n) != want.get(n))[0]
        return 'has the %s %s %s instead of %s' % (
            what, n, got.get(n), want.get(n))
    return ''


def declared(repo, rep, rule):
    fn = fn_of(repo, 'instantiate_layers_from_architecture')
    for t, o, ins, outs, params in cases():
        def body(m):
            ls = m.call_fn(fn, [dd(arch(t, o, ins))], {}, None, fn.node)
            if not isinstance(ls, D) or 'it' not in ls.items:
                raise Unsupported('layers')
            l = ls.items['it']
            return compare(l, 'output', 'out_shapes', outs) or compare(
                l, 'parameter', 'parameter_shapes', params) or compare(
                    l, 'input', 'in_shapes', ins) or compare(
                        ls.items['Input'], 'output', 'out_shapes', {
                            'to_' + k: s for k, s in ins.items()})
        what = '%s(%s) fed by %s' % (t, ', '.join(
            '%s=%s' % (k, o[k]) for k in sorted(o)), ' and '.join(
                str(ins[k][2:] if len(ins[k]) > 2 else ins[k])
                for k in sorted(ins)))
        c = find_cls(repo, t + 'LayerImpl')
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, body)), loc(repo.lookup(c, 'setup')[1]))


CHAINS = [
    # (layers after the data source), shapes of their outputs
    ((4, 6, 2), [('Convolution2D', {'num_filters': 3, 'kernel_size': (2, 2),
                                    'padding': 1}, tb(5, 7, 3)),
                 ('Pooling2D', {'type': 'max', 'kernel_size': (2, 2),
                                'stride': (2, 2)}, tb(2, 3, 3)),
                 ('BatchNorm', {}, tb(2, 3, 3)),
                 ('FullyConnected', {'size': 7}, tb(7)),
                 ('Lstm', {'size': 3}, tb(3)),
                 ('Dropout', {}, tb(3)),
                 ('Recurrent', {}, tb(3)),
                 ('Loss', {}, (1,))]),
    ((5,), [('FullyConnected', {'size': (2, 3)}, tb(2, 3)),
            ('Elementwise', {}, tb(2, 3)),
            ('ClockworkLstm', {}, tb(6)),
            ('NoOp', {}, tb(6)),
            ('Clockwork', {'size': 2}, tb(2)),
            ('L2Decay', {}, tb(1)),
            ('Loss', {}, (1,))]),
]


def chains(repo, rep, rule):
    fn = fn_of(repo, 'instantiate_layers_from_architecture')
    for s, ls in CHAINS:
        a = {'Input': {'@type': 'Input', 'out_shapes': {
            'default': tb(*s)}, '@outgoing_connections': ['n0']}}
        for i, (t, o, r) in enumerate(ls):
            a['n%d' % i] = dict(o, **{
                '@type': t, '@outgoing_connections': {}})
            if i + 1 < len(ls):
                k = 'loss' if t in ('L2Decay', 'Loss') else 'default'
                a['n%d' % i]['@outgoing_connections'] = {
                    k: ['n%d' % (i + 1)]}

        def body(m):
            got = m.call_fn(fn, [dd(a)], {}, None, fn.node)
            for i, (t, o, r) in enumerate(ls):
                g = list(shapes(got.items['n%d' % i],
                                'out_shapes').values())
                if g != [r]:
                    return '%s provides %s instead of %s' % (t, g, r)
            return ''
        what = 'the chain %s' % ' >> '.join(t for t, o, r in ls)
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, body)), loc(fn))
    for parts, want in (([(3,), (4,)], (7,)), ([(2, 3), (2, 5), (2, 1)],
                                               (2, 9)),
                        ([(4, 4, 1), (4, 4, 3)], (4, 4, 4))):
        def joined(m):
            a = {'Input': {'@type': 'Input', 'out_shapes': {
                'p%d' % i: tb(*s) for i, s in enumerate(parts)},
                '@outgoing_connections': {
                    'p%d' % i: ['it'] for i in range(len(parts))}},
                 'it': {'@type': 'NoOp', '@outgoing_connections': {}}}
            got = m.call_fn(fn, [dd(a)], {}, None, fn.node)
            return compare(got.items['it'], 'input', 'in_shapes', {
                'default': tb(*want)}) or compare(
                    got.items['it'], 'output', 'out_shapes', {
                        'default': tb(*want)})
        what = 'a layer fed by %s at one input' % ' and '.join(
            str(s) for s in parts)
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, joined)), loc(fn))


# --------------------------------------------------------------- refusing --
def wrong():
    """(what, architecture) of ill-formed uses of the layers"""
    seen = {}
    for t, o, ins, outs, params in cases():
        seen.setdefault(t, (o, ins, outs, params))
    for t, (o, ins, outs, params) in sorted(seen.items()):
        for k in ('sise', 'unknown', 'name_', 'targets', 'loss', 'kernel'):
            yield '%s with the unknown option %s' % (t, k), arch(
                t, dict(o, **{k: 1}), ins)
        for k in sorted(ins):
            less = {x: s for x, s in ins.items() if x != k}
            yield '%s without the input %s' % (t, k), arch(t, o, less)
        for k in ('extra', 'Default', 'target', 'mask_'):
            yield '%s with the input %s' % (t, k), arch(
                t, o, dict(ins, **{k: tb(3)}))
        for k in ('nothing', 'defaults', '..parameters.X', '..internals.X',
                  '..outputs.default', '..parameters', '..internals',
                  '..gradients.W'):
            if k in outs:
                continue
            a = arch(t, o, ins)
            a['it']['@outgoing_connections'][k] = ['end']
            a['end'] = {'@type': 'NoOp', '@outgoing_connections': {}}
            yield 'a connection of the output %s of %s' % (k, t), a
        for k in o:
            if (t, k) in (('Convolution2D', 'kernel_size'),
                          ('Convolution2D', 'num_filters'),
                          ('Pooling2D', 'kernel_size'),
                          ('Pooling2D', 'type'),
                          ('DeltasScaling', 'factor')):
                yield '%s without the option %s' % (t, k), arch(
                    t, {x: v for x, v in o.items() if x != k}, ins)
    a = arch('NoOp', {}, {'default': tb(3)})
    a['Input'].pop('out_shapes')
    yield 'Input without the option out_shapes', a
    for t in ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'):
        for v in ('5', 2.5, (5,), None):
            yield '%s with the size %r' % (t, v), arch(
                t, {'size': v}, {'default': tb(3)})
        yield '%s without time' % t, arch(t, {'size': 2}, {
            'default': ('B', 3)})
    for v in ('5', 2.5, (5, 'a'), None):
        yield 'FullyConnected with the size %r' % (v,), arch(
            'FullyConnected', {'size': v}, {'default': tb(3)})
    f = {'kernel_size': (2, 2)}
    for t, o in (('Convolution2D', dict(f, num_filters=2)),
                 ('Pooling2D', dict(f, type='max'))):
        for k, v in (('kernel_size', 3), ('kernel_size', (3,)),
                     ('kernel_size', (3, 3, 3)), ('padding', -1),
                     ('padding', 1.5), ('padding', (1, 1)), ('stride', 2),
                     ('stride', (1,)), ('stride', (1, 1, 1)),
                     ('stride', (-1, 1)), ('stride', (1, -2)),
                     ('kernel_size', (9, 9)), ('kernel_size', (6, 1)),
                     ('kernel_size', (1, 6))):
            yield '%s with the option %s=%s' % (t, k, v), arch(
                t, dict(o, **{k: v}), {'default': tb(5, 5, 2)})
        for s in ((5,), (5, 5), (5, 5, 2, 2)):
            yield '%s fed by %s' % (t, s), arch(t, o, {'default': tb(*s)})
    yield 'Pooling2D of the type min', arch('Pooling2D', dict(
        f, type='min'), {'default': tb(5, 5, 2)})
    for v in (-0.1, 1.5):
        yield 'BatchNorm with the decay %s' % v, arch(
            'BatchNorm', {'decay': v}, {'default': tb(3)})
    for s, q in (((3,), (4,)), ((2, 3), (3, 2)), ((6,), (2, 3)),
                 ((2, 3), (2, 1)), ((3,), (3, 1)), ((2, 3, 4), (2, 5, 1)),
                 ((2, 3, 4), (2, 3, 5)), ((2, 3, 4), (2, 3)),
                 ((2, 3, 1), (3, 3, 1))):
        for t, ks in (('Highway', ('H', 'T', 'x')),
                      ('SquaredDifference', ('inputs_1', 'inputs_2')),
                      ('SquaredError', ('default', 'targets')),
                      ('SigmoidCE', ('default', 'targets')),
                      ('BinomialCrossEntropy', ('default', 'targets'))):
            for odd in ks:
                yield '%s fed by %s and %s at %s' % (t, s, q, odd), arch(
                    t, {}, {k: tb(*(q if k == odd else s)) for k in ks})
        if len(s) != len(q) or s[:-1] != q[:-1]:
            yield 'Merge fed by %s and %s' % (s, q), arch('Merge', {}, {
                'inputs_1': tb(*s), 'inputs_2': tb(*q)})
        if q[-1] != 1 or len(q) != len(s) or q[:-1] != s[:-1]:
            yield 'SoftmaxCE fed by %s with targets %s' % (s, q), arch(
                'SoftmaxCE', {}, {'default': tb(*s), 'targets': tb(*q)})
        if q != (1,) and q != s[:-1] + (1,):
            yield 'Mask fed by %s with the mask %s' % (s, q), arch(
                'Mask', {}, {'default': tb(*s), 'mask': tb(*q)})
    for x, y in ((tb(3), tb(3, 1)), (tb(2, 3), tb(3, 3)), (tb(3), ('B', 3)),
                 (tb(3), ('B', 3, 3))):
        a = {'Input': {'@type': 'Input', 'out_shapes': {'a': x, 'b': y},
                       '@outgoing_connections': {'a': ['it'],
                                                 'b': ['it']}},
             'it': {'@type': 'Loss', '@outgoing_connections': {}}}
        yield 'a layer fed by %s and %s at one input' % (x, y), a
    for x in ((), ('T', 'B'), ('B', 'T', 3), ('T', 3), ('B',),
              ('T', 'B', 'x'), ('T', 'B', 2.5), ('B', 'F'), ('T', 'B', '...'),
              ('B', 3, 'T')):
        yield 'a data source that provides %s' % (x,), arch(
            'Loss', {}, {'default': x})


def refused(repo, rep, rule):
    fn = fn_of(repo, 'instantiate_layers_from_architecture')

    def body(m, a):
        try:
            m.call_fn(fn, [dd(a)], {}, None, fn.node)
        except PyExc:
            return ''
        return 'is accepted'
    for what, a in wrong():
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, lambda m: body(m, a))), loc(fn))


def p29(repo, rep, tier):
    rep.rule('declared', 'each layer declares the outputs and parameters '
             'that its options and inputs ask for')
    rep.rule('flow', 'each layer is told the shapes that the layers before '
             'it provide')
    declared(repo, rep, 'declared')
    chains(repo, rep, 'flow')


def g25(repo, rep, tier):
    rep.rule('misused', 'layers refuse options, inputs and shapes that do '
             'not fit')
    refused(repo, rep, 'misused')


