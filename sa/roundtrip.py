"""Describing and recreating objects, evaluated by the abstract machine.

Objects of every describable class are built with different arguments,
described, recreated and compared attribute by attribute.  Part of P30."""
from .arch import fn_of
from .arr import Arr, make
from .graphs import dd
from .hooks import guarded
from .machine import (ClsV, D, Ext, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported)
from .prog import find_cls
from .valid import loc
from .watch import judge

GIVEN_UP = {('FreezeValues', 'weights')}


class Plain(Monitor):
    """random states are opaque, everything else is evaluated"""

    def constant(self, e):
        return True

    def call(self, m, f, args, kw, node):
        if isinstance(f, ClsV) and f.cls.name == 'RandomState':
            return O('random state')
        if isinstance(f, Ext) and f.name in ('signal.signal', 'print'):
            return None
        return NotImplemented


def mk(name, /, *args, **kw):
    return ('new', name, args, kw)


A = ('array', [[1.0, 2.0], [3.0, 4.0]])
M = ('array', [1.0, 0.0, 1.0])


def hook(name, /, *args, **kw):
    yield mk(name, *args, **kw)
    for extra in ({'name': 'my_name'}, {'timescale': 'update',
                                        'interval': 3},
                  {'verbose': True}, {'verbose': False}, {'interval': 10},
                  {'verbose': None, 'name': 'x y'}):
        yield mk(name, *args, **dict(kw, **extra))


def objects():
    yield mk('Gaussian')
    yield mk('Gaussian', 0.5)
    yield mk('Gaussian', 0.1, 0.0)
    yield mk('Gaussian', 2, -1)
    yield mk('Gaussian', mean=3.5)
    for a in ((), (0.2,), (0.1, 0.3), (-2, 0), (0, 1), (-0.1, 0.1)):
        yield mk('Uniform', *a)
    for n in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
        for a in ((), ('tanh',), ('sigmoid',), ('linear',), (2.5,), (1,)):
            yield mk(n, *a)
    for a in ((), (0.5,), (1.0,), (0,)):
        yield mk('EchoState', *a)
        yield mk('Orthogonal', *a)
        yield mk('Identity', *a)
    yield mk('Identity', 2.0, 0.1, False)
    yield mk('Identity', enforce_square=False)
    yield mk('Identity', std=0.0)
    for a in ((), (1, 2, 3, 4), (0.0, 0.0, 5.0, 0.0),
              (mk('Gaussian', 0.3), 0.0, mk('Uniform', 0.2, 0.4), 2.0),
              (0, 1, 0, mk('SparseInputs', mk('Gaussian'), 2))):
        yield mk('LstmOptInit', *a)
    for a in ((), ('rel',), ('linear', 0.5), ('linear', 0), ('rel', None)):
        yield mk('RandomWalk', *a)
    for n in ('SparseInputs', 'SparseOutputs'):
        for a in ((mk('Gaussian'),), (mk('Uniform', 0.3), 4),
                  (mk('Gaussian', 1, 2), 0), (3.0,), (0, 2),
                  (mk(n, mk('Orthogonal', 2.0), 3), 5)):
            yield mk(n, *a)
    for a in ((), (-2, 2), (0.0, 1.0), (-1.0, 3)):
        yield mk('ClipValues', *a)
    for a in (1.0, 0.5, 3):
        yield mk('ConstrainL2Norm', a)
        yield mk('L1Decay', a)
        yield mk('L2Decay', a)
    yield mk('FreezeValues')
    yield mk('MaskValues', A)
    yield mk('MaskValues', M)
    for a in ((), (True,), (False,)):
        yield mk('ForwardStepper', *a)
    yield mk('TrainingStepper')
    for n in ('SgdStepper', 'MomentumStepper', 'NesterovStepper'):
        yield mk(n)
        for r in (0.1, 0.5, 0.0, 1):
            yield mk(n, r)
            yield mk(n, learning_rate=r)
    for n in ('MomentumStepper', 'NesterovStepper'):
        for a in ((0.1, 0.9), (0.2, 0.5, True), (0.2, 0.5, False),
                  (0.1, 0.0, False)):
            yield mk(n, *a)
    for n, a in (('DecreaseAfterEpoch', (0.5, 3)),
                 ('DecreaseAfterEpoch', (1, 10)),
                 ('Exponential', (0.1, 0.9)),
                 ('Exponential', (0.1, 0.9, 0.01)),
                 ('Exponential', (0.1, 1.1, 0.01, 0.5)),
                 ('Exponential', (0.1, 1.1, 0, 1)),
                 ('Linear', (1.0, 0.1, 9)), ('Linear', (0, 1, 1)),
                 ('MultiStep', (0.1, [1, 2, 5], [0.3, 0.2, 0.0])),
                 ('MultiStep', (1.0, [], [])),
                 ('MultiStep', (1.0, [3], [0]))):
        yield mk(n, *a)
    for n in ('Accuracy', 'Hamming', 'MeanSquaredError'):
        yield mk(n)
        yield mk(n, name='mine')
        yield mk(n, out_name='Output.out', targets_name='labels',
                 mask_name='mask')
    yield mk('Hamming', 0.3)
    yield mk('Hamming', threshold=0, name='')
    for n, a, k in (
            ('EarlyStopper', ('validation.Accuracy',), {}),
            ('EarlyStopper', ('a.b', 5, 'max'), {}),
            ('EarlyStopper', ('a',), {'patience': 0}),
            ('ModifyStepperAttribute', (mk('Linear', 1.0, 0.1, 9),), {}),
            ('ModifyStepperAttribute', (mk(
                'MultiStep', 0.1, [2], [0.3]), 'momentum'), {}),
            ('MonitorLayerDeltas', ('hidden',), {}),
            ('MonitorLayerGradients', ('hidden',), {}),
            ('MonitorLayerInOuts', ('hidden',), {}),
            ('MonitorLayerParameters', ('hidden',), {}),
            ('MonitorLoss', ('valid',), {}),
            ('MonitorScores', ('valid', []), {}),
            ('MonitorScores', ('valid', [mk('Accuracy', name='acc'),
                                         mk('Hamming', 0.25)]), {}),
            ('SaveBestNetwork', ('v.Accuracy',), {}),
            ('SaveBestNetwork', ('v.loss', 'net.h5', 'min'), {}),
            ('StopAfterEpoch', (5,), {}),
            ('StopAfterThresholdReached', ('v.loss', 0.1), {}),
            ('StopAfterThresholdReached', ('v.acc', 0.0, 'max'), {}),
            ('StopOnNan', (), {}),
            ('StopOnNan', (['a.b', 'c'], False, False), {}),
            ('StopOnNan', (['a.b'],), {'check_parameters': False}),
            ('StopOnNan', (), {'check_training_loss': False}),
            ('StopOnSigQuit', (), {})):
        for o in hook(n, *a, **k):
            yield o
    for n in ('SaveLogs', 'SaveNetwork'):
        yield mk(n, 'file.h5')
        yield mk(n, 'file.h5', 'x', 'update', 7)
    yield mk('InfoUpdater', None)
    yield mk('InfoUpdater', None, interval=4)
    yield mk('ProgressBar')
    s = mk('SgdStepper', 0.3)
    for k in ({}, {'verbose': True}, {'verbose': False}):
        yield mk('Trainer', s, **k)
        for hs in HOOKS:
            yield ('hooked', mk('Trainer', mk('MomentumStepper', 0.1, 0.9),
                                **k), hs)


HOOKS = [
    [mk('StopAfterEpoch', 3)],
    [mk('StopAfterEpoch', 3), mk('MonitorLoss', 'valid', name='loss'),
     mk('StopOnNan')],
    [mk('SaveNetwork', 'f', 'b'), mk('SaveNetwork', 'g', 'c'),
     mk('SaveNetwork', 'h', 'a')],
    [mk('MonitorScores', 'v', [mk('Accuracy')], name='z'),
     mk('EarlyStopper', 'z.Accuracy', name='m'),
     mk('SaveBestNetwork', 'z.Accuracy', criterion='min', name='a',
        timescale='update')],
    [mk('ModifyStepperAttribute', mk('Exponential', 0.1, 0.5), interval=2),
     mk('ProgressBar')],
]


def build(m, x, node):
    if not isinstance(x, tuple):
        if isinstance(x, list):
            return L(build(m, y, node) for y in x)
        return x
    if x[0] == 'array':
        return make(x[1])
    if x[0] == 'hooked':
        t = build(m, x[1], node)
        for h in x[2]:
            m.call(m.getattr(t, 'add_hook', node), [build(m, h, node)], {},
                   node, None)
        return t
    if x[1] not in {c.name for c in m.repo.classes()}:
        raise Unsupported('the class ' + x[1])
    c = find_cls(m.repo, x[1])
    return m.call(ClsV(c), [build(m, y, node) for y in x[2]], {
        k: build(m, y, node) for k, y in x[3].items()}, node, None)


def show(x):
    if not isinstance(x, tuple):
        return '[%s]' % ', '.join(show(y) for y in x) if isinstance(
            x, list) else repr(x)
    if x[0] == 'array':
        return 'array(%s)' % x[1]
    if x[0] == 'hooked':
        return '%s with %s' % (show(x[1]), ', '.join(show(h) for h in x[2]))
    return '%s(%s)' % (x[1], ', '.join([show(y) for y in x[2]] + [
        '%s=%s' % (k, show(y)) for k, y in sorted(x[3].items())]))


def json(x, at='the description'):
    """'' if a description can be written as JSON"""
    if isinstance(x, L) and x.cls is None and x.tag == 'list':
        for i, y in enumerate(x.seq):
            r = json(y, '%s[%d]' % (at, i))
            if r:
                return r
        return ''
    if isinstance(x, D) and x.cls is None:
        for k, y in x.items.items():
            if not isinstance(k, str):
                return '%s has the key %r' % (at, k)
            r = json(y, '%s[%s]' % (at, k))
            if r:
                return r
        return ''
    if isinstance(x, (bool, int, float, str, type(None))):
        return ''
    if isinstance(x, tuple):
        for i, y in enumerate(x):
            r = json(y, '%s[%d]' % (at, i))
            if r:
                return r
        return ''
    if isinstance(x, (Arr, L)) or isinstance(x, O) and x.cls is not None:
        return '%s is %s, which JSON does not know' % (
            at, 'an array' if isinstance(x, Arr) else 'an object')
    raise Unsupported('a description with %r' % (x,))


def copied(x):
    """as it comes back from JSON"""
    if isinstance(x, (L, tuple)):
        return L(copied(y) for y in (x.seq if isinstance(x, L) else x))
    if isinstance(x, D):
        return D((k, copied(y)) for k, y in x.items.items())
    return x


def same(a, b, at, seen, ordered=False):
    """'' if b is as good as a"""
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            return '%s is %s' % (at, 'no longer an array' if isinstance(
                a, Arr) else 'an array')
        return '' if (a.shape, a.flat()) == (b.shape, b.flat()) else '%s has other elements' % at
    if isinstance(a, (L, tuple)) and isinstance(b, (L, tuple)):
        p, q = [x.seq if isinstance(x, L) else x for x in (a, b)]
        if len(p) != len(q):
            return '%s has %d elements instead of %d' % (at, len(q), len(p))
        for i, (x, y) in enumerate(zip(p, q)):
            r = same(x, y, '%s[%d]' % (at, i), seen, ordered)
            if r:
                return r
        return ''
    if isinstance(a, D) and isinstance(b, D):
        if (list if ordered else set)(a.items) != (list if ordered else
                                                   set)(b.items):
            return '%s has the entries %s instead of %s' % (
                at, list(b.items), list(a.items))
        for k in a.items:
            r = same(a.items[k], b.items[k], '%s[%s]' % (at, k), seen,
                     ordered)
            if r:
                return r
        return ''
    if isinstance(a, (bool, int, float, str, type(None))) or isinstance(
            b, (bool, int, float, str, type(None))):
        if type(a) is type(b) and (a == b or a != a and b != b):
            return ''
        if isinstance(b, O) and b.cls is None and not isinstance(b, (L, D)):
            raise Unsupported('%s is %r' % (at, b))
        return '%s is %s instead of %s' % (at, text(b), text(a))
    if isinstance(a, Meth) or isinstance(a, Ext):
        return '' if type(a) is type(b) else '%s is %s' % (at, text(b))
    if isinstance(a, O) and isinstance(b, O) and not isinstance(
            a, (L, D)) and not isinstance(b, (L, D)):
        if a.cls is None and b.cls is None:
            return '' if a.tag == b.tag else '%s is %r' % (at, b)
        if a.cls is None or b.cls is None:
            raise Unsupported('%s is %r' % (at, b))
        if a.cls is not b.cls:
            return '%s is of the class %s' % (at, b.cls.name)
        if (id(a), id(b)) in seen:
            return ''
        seen.add((id(a), id(b)))
        for k in sorted(set(a.attrs) - set(b.attrs)):
            return '%s has lost the attribute %s' % (at, k)
        for k in sorted(a.attrs):
            if (a.cls.name, k) in GIVEN_UP and b.attrs[k] is None:
                continue
            if a.attrs[k] == '' and b.attrs[k] is None or \
                    k == '__name__' and at == 'the object':
                # transient names, given by the trainer or the network
                continue
            r = same(a.attrs[k], b.attrs[k], '%s.%s' % (at, k), seen,
                     True)
            if r:
                return r
        return ''
    if type(a) is type(b):
        return '' if a is b else '%s has changed' % at
    return '%s is %s instead of %s' % (at, text(b), text(a))


def text(x):
    return repr(x) if not isinstance(x, O) else \
        'a dictionary' if isinstance(x, D) else 'a list' if isinstance(
            x, L) else x.cls.name if x.cls is not None else repr(x)


def shared(a, b, at, seen):
    """'' if two objects share no mutable state"""
    if isinstance(a, (Arr, L, D)) and a is b:
        return '%s is shared by all objects recreated' % at
    if isinstance(a, O) and isinstance(b, O) and id(a) not in seen:
        seen.add(id(a))
        if a is b:
            return '%s is shared by all objects recreated' % at if \
                a.cls is not None or a.tag == 'random state' else ''
        q = [(k, a.attrs[k], b.attrs[k]) for k in sorted(a.attrs)
             if k in b.attrs and not isinstance(a, (L, D))]
        if isinstance(a, D) and isinstance(b, D):
            q = [(k, a.items[k], b.items[k]) for k in a.items
                 if k in b.items]
        if isinstance(a, L) and isinstance(b, L):
            q = [(i, x, y) for i, (x, y) in enumerate(zip(a.seq, b.seq))]
        for k, x, y in q:
            r = shared(x, y, '%s.%s' % (at, k), seen)
            if r:
                return r
    return ''


def go(repo, body):
    m = Machine(repo, None, Plain, 50, concrete=True)
    out = []

    def one(m):
        try:
            out.append(body(m))
        except PyExc as e:
            if isinstance(e.val, O) and e.val.cls is not None:
                out.append('raises %s' % e.name)
            elif e.name in ('TypeError', 'KeyError', 'AssertionError',
                            'ValueError', 'IndexError'):
                out.append('raises %s' % e.name)
            else:
                raise Unsupported('raises %s' % e.name)
    m.each(one)
    return out


def roundtrip(repo, rep, rule):
    tell, again = fn_of(repo, 'get_description'), fn_of(
        repo, 'create_from_description')
    known = {c.name for c in repo.classes()}
    for x in objects():
        c = find_cls(repo, x[1][1] if x[0] == 'hooked' else x[1]) if (
            x[1][1] if x[0] == 'hooked' else x[1]) in known else None
        if c is None:
            continue
        what = 'describing and recreating %s' % show(x)

        def body(m):
            o = build(m, x, tell.node)
            if not isinstance(o, O) or o.cls is None:
                raise Unsupported('an object')
            d = m.call_fn(tell, [o], {}, None, tell.node)
            r = json(d)
            if r:
                return r
            if not isinstance(d, D):
                return '' if c.name == 'ArrayInitializer' else \
                    'the description is no dictionary'
            if d.items.get('@type') != o.cls.name:
                return "the description has the type %r" % (
                    d.items.get('@type'),)
            ps = [m.call_fn(again, [copied(d)], {}, None, again.node)
                  for _ in (0, 1)]
            r = same(o, ps[0], 'the object', set()) or shared(
                ps[0], ps[1], 'the object', set())
            if r:
                return r
            e = m.call_fn(tell, [ps[0]], {}, None, tell.node)
            return same(copied(d), copied(e), 'the second description',
                        set())
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, body)), loc(tell))


VALUES = [None, True, False, 0, 3, -2.5, 'text', '', [], [1, [2, None]],
          {}, {'a': 1, 'b': {'c': [1, 2], 'd': None}}, [{'x': 0}], 0.0]


def wrap(x):
    if isinstance(x, list):
        return L(wrap(y) for y in x)
    if isinstance(x, dict):
        return D((k, wrap(y)) for k, y in x.items())
    return x


def values(repo, rep, rule):
    tell, again = fn_of(repo, 'get_description'), fn_of(
        repo, 'create_from_description')
    for v in VALUES:
        def body(m):
            a = wrap(v)
            d = m.call_fn(tell, [a], {}, None, tell.node)
            e = m.call_fn(again, [copied(d)], {}, None, again.node)
            return json(d) or same(wrap(v), d, 'the description', set()) or \
                same(wrap(v), e, 'the value', set()) or (
                    'the description is the value itself' if isinstance(
                        a, (L, D)) and d is a else '')
        what = 'describing and recreating %r' % (v,)
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, body)), loc(tell))

    def refused(what, fn, f):
        def body(m):
            try:
                f(m)
            except PyExc:
                return ''
            return 'is accepted'
        judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
            repo, body)), loc(fn))
    for v in ('NoSuchClass', 'object', '', 'Describable_'):
        refused('recreating an object of the class %r' % v, again,
                lambda m: m.call_fn(again, [wrap({'@type': v, 'a': 1})], {},
                                    None, again.node))
    for n, v in (('a set', L([3, 4], 'set')),
                 ('a list of sets', L([3, L([4], 'set')]))):
        refused('describing %s' % n, tell, lambda m: m.call_fn(
            tell, [v], {}, None, tell.node))


def run(repo, rep, rule):
    roundtrip(repo, rep, rule)
    values(repo, rep, rule)


def g30(repo, rep, tier):
    rep.rule('roundtrip', 'objects of every class come back equal, '
             'attribute by attribute, and share no state')
    run(repo, rep, 'roundtrip')
