"""Layout of connected ports (P24)."""
from collections import OrderedDict

from .evalt import Con, Eval, Matrix, Rec, npath, replay
from .interp import Interp, State
from .prog import Unknown, find_cls, fname, live, run, run_fn, top
from .repo import AnalysisBroken, Fn
from .structure import carry, final_attr, sym
from .terms import V, cval, is_const


def fn_of(repo, name):
    f = repo.find_function(name)
    if f is None:
        raise AnalysisBroken('function %s not found' % name)
    return f


def names(*ns):
    return lambda f: f.name in ns


def compare(rep, rule, what, F, expected, where, describe=str):
    """facts of a function against the expected ones"""
    wrong = [f for f in F.may if f not in expected]
    if wrong:
        rep.bad(rule, what, 'produces %s' % describe(wrong[0]), where)
        return
    missing = [f for f in expected if f not in F.may]
    partly = [f for f in expected if f in F.may and f not in F.must]
    if (missing or partly) and F.und:
        rep.skip(rule, what, 'not recognised: %s' % (F.und[0][1],))
    elif missing:
        rep.bad(rule, what, 'does not produce %s' % describe(missing[0]),
                where)
    elif partly:
        rep.bad(rule, what, 'produces %s only sometimes' %
                describe(partly[0]), where)
    else:
        rep.ok(rule, what, where)


# ----------------------------------------------------------- connections --
def pairs(ev, E):
    """pairs of names put into some list"""
    if isinstance(ev, tuple):
        return []
    if ev.kind != 'mut' or fname(ev.f) not in ('append', 'extend', 'insert',
                                               'add', 'update'):
        return []
    v = E(ev.args[-1])
    vs = v if fname(ev.f) in ('extend', 'update') else [v]
    return [x for x in vs if isinstance(x, tuple) and len(x) == 2 and
            all(isinstance(y, str) for y in x)]


def connections(repo, rep):
    rule = 'connected'
    fn = fn_of(repo, 'get_connections')
    rep.saw(fn.qual)
    rep.saw(fn_of(repo, 'get_backward_connection').qual)
    I, st, ps = run_fn(repo, fn, precise=True, opaque=names('get_normalized_path'))
    L = sym(fn.params()[0])
    A = Rec(outgoing=[Con('A', 'x', 'B', 'y'),
                      Con('A', '..internals.h', 'B', 'z'),
                      Con('A', '..parameters.w', 'C', 'y')],
            internal_shapes=OrderedDict([('h', 1), ('dh', 1)]),
            parameter_shapes=OrderedDict([('w', 1), ('b', 1)]))
    B = Rec(outgoing=[Con('B', 'o', 'C', 'i')], internal_shapes={},
            parameter_shapes={})
    F = replay(I, st, ps, {L: OrderedDict([('A', A), ('B', B)])}, pairs)
    exp = [('A.outputs.x', 'B.inputs.y'),
           ('A.output_deltas.x', 'B.input_deltas.y'),
           ('A.internals.h', 'B.inputs.z'),
           ('A.internals.dh', 'B.input_deltas.z'),
           ('A.parameters.w', 'C.inputs.y'),
           ('A.gradients.w', 'C.input_deltas.y'),
           ('B.outputs.o', 'C.inputs.i'),
           ('B.output_deltas.o', 'C.input_deltas.i'),
           ('A.parameters.w', 'parameters'),
           ('A.parameters.b', 'parameters'),
           ('A.gradients.w', 'gradients'), ('A.gradients.b', 'gradients')]
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)
    if not F.may:
        # built by an expression
        for p in live(ps):
            try:
                E = Eval(I, st, {L: OrderedDict([('A', A), ('B', B)])})
                F.may = F.must = [tuple(x) for x in E(p.val)]
            except (Unknown, TypeError):
                rep.skip(rule, fn.name, 'list of connections not recognised')
                return
    compare(rep, rule, 'connections between ports', F, exp, where,
            lambda x: '%s -> %s' % x)
    # a missing delta buffer is an error
    A2 = Rec(outgoing=[Con('A', '..internals.h', 'B', 'z')],
             internal_shapes={'h': 1}, parameter_shapes={})
    F = replay(I, st, ps, {L: OrderedDict([('A', A2)])}, pairs)
    bad = [f for f in F.may if f not in [
        ('A.internals.h', 'B.inputs.z'),
        ('A.internals.dh', 'B.input_deltas.z')]]
    rep.check(not bad, rule, 'internal buffer without delta buffer',
              'connects %s' % bad[:1], where)


def orders(repo, rep):
    """parameters and gradients are laid out in the same order"""
    rule = 'order'
    got = {}
    for n, cat in (('get_parameter_order', 'parameters'),
                   ('get_gradient_order', 'gradients')):
        fn = fn_of(repo, n)
        rep.saw(fn.qual)
        I, st, ps = run_fn(repo, fn, precise=True, opaque=names('get_normalized_path'))
        pr = fn.params()
        env = {sym(pr[0]): 'A', sym(pr[1]): Rec(
            parameter_shapes=OrderedDict([('w', 1), ('b', 2), ('a', 3)]))}
        for p in live(ps):
            try:
                v = list(Eval(I, st, env)(p.val))
            except Unknown as e:
                rep.skip(rule, n, 'value %s' % e)
                continue
            rep.check(v == ['A.%s.%s' % (cat, x) for x in 'wba'], rule, n,
                      'gives %s for parameters w, b, a' % v,
                      '%s:%d' % (fn.mod.path, fn.node.lineno))


# ------------------------------------------------------------------ hubs --
def hubs(repo, rep):
    fn = fn_of(repo, 'layout_hubs')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True, opaque=names('get_indices', 'get_by_path'))
    pr = fn.params()
    h0 = Rec(btype=2, size=5, is_backward_only=False,
             idx=[('a', (0, 2)), ('b', (2, 5))])
    h1 = Rec(btype=2, size=4, is_backward_only=True, idx=[('c', (0, 4)), ('d', (1, 4))])

    def ext(ev, E):
        if isinstance(ev, tuple):
            return []
        if ev.kind == 'setitem' and cval(ev.idx) in ('@slice', '@hub'):
            return [(E(ev.obj), cval(ev.idx), E(ev.val))]
        if ev.kind in ('mut', 'call') and fname(ev.f) == 'update' and \
                ev.f.op == 'attr':
            return [(E(ev.f.a[0]), k, v) for k, v in E(ev.args[0]).items()]
        return []
    env = {sym(pr[0]): [h0, h1], sym(pr[1]): 'L'}
    funcs = {'get_indices': lambda h: h.idx,
             'get_by_path': lambda d, p: ('node', p)}
    F = replay(I, st, ps, env, ext, funcs)
    exp = []
    for i, h in enumerate((h0, h1)):
        for n, sl in h.idx:
            exp += [(('node', n), '@slice', sl), (('node', n), '@hub', i)]
    compare(rep, 'layout', 'slices and hubs of the ports', F, exp,
            '%s:%d' % (fn.mod.path, fn.node.lineno))

    # positions inside a hub
    hub = find_cls(repo, 'Hub')
    I, st, ps, s = run(repo, hub, 'get_indices', precise=True, opaque=lambda f: False)
    fn = I.method(hub, 'get_indices')
    rep.saw('Hub.get_indices')

    def at(n):
        return V('attr', s, n)

    def yields(ev, E):
        if not isinstance(ev, tuple) and ev.kind == 'yield':
            v = E(ev.val)
            return [(v[0], tuple(v[1]))]
        return []
    for tab, srcs, sinks, sizes, exp in (
            ([[1, 0], [1, 1], [0, 1]], 'abc', 'pq', [2, 3, 4],
             [('a', (0, 2)), ('b', (2, 5)), ('c', (5, 9)), ('p', (0, 5)),
              ('q', (2, 9))]),
            ([[1]], 'a', 'p', [7], [('a', (0, 7)), ('p', (0, 7))]),
            ([[0, 1], [1, 1], [1, 0]], 'abc', 'pq', [1, 5, 2],
             [('a', (0, 1)), ('b', (1, 6)), ('c', (6, 8)), ('p', (1, 8)),
              ('q', (0, 6))]),
            ([[], []], 'ab', '', [3, 4], [('a', (0, 3)), ('b', (3, 7))])):
        env = {at('flat_sources'): list(srcs), at('sizes'): sizes,
               at('sinks'): list(sinks), at('connection_table'):
               Matrix(tab), at('size'): sum(sizes)}
        F = replay(I, st, ps, env, yields)
        compare(rep, 'layout', 'positions in a hub with sources %s and sinks '
                '%s' % (srcs, sinks or 'none'), F, exp,
                '%s:%d' % (fn.mod.path, fn.node.lineno))

    # creation of a hub
    fn = repo.lookup(hub, 'create')[1]

    def hook(I, f, args, kw, fr, cont, node):
        # the permutation of the sources found by setup
        if fname(f) == 'setup' and f.op == 'bound':
            I.setattr(f.a[1], 'perm', sym('perm'), fr, cont, node)
        return None
    I, st, ps = run_fn(repo, fn, precise=True, opaque=names(
        'from_layout', 'get_by_path', 'setup', 'flatten',
        'convert_to_nested_indices'), hook=hook)
    rep.saw('Hub.create')
    pr = fn.params()
    S = {'a': Rec(buffer_type=2, context_size=1, feature_size=3,
                  is_backward_only=False),
         'b': Rec(buffer_type=2, context_size=4, feature_size=5,
                  is_backward_only=False),
         'c': Rec(buffer_type=2, context_size=0, feature_size=7,
                  is_backward_only=False)}

    funcs = {'from_layout': lambda *a: a[-1], 'get_by_path':
             lambda d, p: S[p], 'flatten': lambda x: list(x),
             'convert_to_nested_indices': lambda x: list(range(len(x)))}
    for p in live(ps):
        o = I.obj(st, p.val)
        if o is None:
            rep.skip('size', 'Hub.create', 'value %s' % p.val)
            continue
        env = {sym(x): y for x, y in zip(pr, [['c', 'a', 'b'], ['y', 'x'],
                                              'L', []])}
        if pr[0] in ('cls', 'self'):
            env = {sym(x): y for x, y in zip(pr[1:], [
                ['c', 'a', 'b'], ['y', 'x'], 'L', []])}
        env[sym('perm')] = [1, 0, 2]
        E = Eval(I, st, env, funcs=funcs)
        for name, want in (('context_size', 4), ('sizes', [5, 3, 7]),
                           ('size', 15), ('btype', 2),
                           ('is_backward_only', False)):
            v = final_attr(p, p.val, name)
            if v is None:
                v = o.attrs.get(name)
            if v is None:
                rep.skip('size', 'Hub.create ' + name, 'not set')
                continue
            try:
                got = E(p.s(v))
            except Unknown as e:
                rep.skip('size', 'Hub.create ' + name, 'value %s' % e)
                continue
            if isinstance(got, tuple):
                got = list(got)
            rep.check(got == want, 'size', 'Hub.create ' + name,
                      'is %s instead of %s' % (got, want),
                      '%s:%d' % (fn.mod.path, fn.node.lineno))


# ---------------------------------------------------------------- shapes --
def shapes(repo, rep):
    hub = find_cls(repo, 'Hub')
    bs = find_cls(repo, 'BufferStructure')
    I, st, ps, s = run(repo, hub, 'get_shape', precise=True)
    fn = I.method(hub, 'get_shape')
    T, B = [sym(x) for x in fn.params()[1:3]]
    rep.saw('Hub.get_shape', 'BufferStructure.get_shape')
    full = {0: (8,), 1: (5, 8), 2: (7 + 3, 5, 8)}
    for bt in (0, 1, 2):
        for ctx in ((0,) if bt < 2 else (0, 3)):
            env = {T: 7, B: 5, V('attr', s, 'btype'): bt,
                   V('attr', s, 'context_size'): ctx,
                   V('attr', s, 'size'): 8}
            want = full[bt] if bt < 2 else (7 + ctx, 5, 8)
            shape_value(rep, I, st, ps, env, want, 'Hub.get_shape',
                        'btype %d context %d' % (bt, ctx), fn)
    fn = I.method(bs, 'get_shape')
    for shp, ctx, want in ((('T', 'B', 2, 4), 3, (10, 5, 2, 4)),
                           (('T', 'B', 6), 0, (7, 5, 6)),
                           (('B', 2, 4), 0, (5, 2, 4)),
                           ((9,), 0, (9,)), ((3, 2), 0, (3, 2))):
        I, st, ps, s = run(repo, bs, 'get_shape', precise=True)
        env = structure_env(s, shp, ctx)
        env.update({sym(a): b for a, b in zip(fn.params()[1:], (7, 5))})
        shape_value(rep, I, st, ps, env, want, 'BufferStructure.get_shape',
                    'shape %s context %d' % (shp, ctx), fn)


def structure_env(s, shp, ctx):
    bt = 2 if 'T' in shp else 1 if 'B' in shp else 0
    size = 1
    for x in shp[bt:]:
        size *= x
    return {V('attr', s, 'shape'): shp, V('attr', s, 'context_size'): ctx,
            V('attr', s, 'buffer_type'): bt,
            V('attr', s, 'first_feature_dim'): bt,
            V('attr', s, 'feature_shape'): shp[bt:],
            V('attr', s, 'feature_size'): size}


def shape_value(rep, I, st, ps, env, want, what, case, fn):
    E = Eval(I, st, env)
    for p in live(ps):
        if not E.holds(p.conds):
            continue
        try:
            got = tuple(E(p.val))
        except (Unknown, TypeError) as e:
            rep.skip('size', what, 'value %s' % e)
            continue
        rep.check(got == want, 'size', '%s for %s' % (what, case),
                  'is %s instead of %s' % (got, want),
                  '%s:%d' % (fn.mod.path, fn.node.lineno))


class Buf(object):
    """a buffer of known shape; subscripts are recorded"""

    def __init__(self, shape, sel=None):
        self.shape, self.sel = shape, sel

    def __getitem__(self, i):
        if self.sel is not None:
            raise TypeError
        i = i if isinstance(i, tuple) else (i,)
        if Ellipsis in i:
            raise TypeError
        i = i + (slice(None),) * (len(self.shape) - len(i))
        sel = []
        for x, n in zip(i, self.shape):
            r = list(range(n))[x]
            if not isinstance(r, list):
                raise TypeError
            sel.append(tuple(r))
        return Buf(tuple(len(x) for x in sel), tuple(sel))


def port_views(repo, rep):
    """the view of a port in the buffer of its hub"""
    bs = find_cls(repo, 'BufferStructure')
    rep.saw('BufferStructure.create_from_buffer_hub')
    sl = slice(2, 10)
    for shp, hctx, ctx in ((('T', 'B', 2, 4), 3, 3), (('T', 'B', 2, 4), 3, 1),
                           (('T', 'B', 8), 3, 0), (('T', 'B', 8), 0, 0),
                           (('T', 'B', 8), 1, 1), (('B', 2, 4), 0, 0),
                           ((8,), 0, 0), ((2, 4), 0, 0)):
        I, st, ps, s = run(repo, bs, 'create_from_buffer_hub', precise=True)
        fn = I.method(bs, 'create_from_buffer_hub')
        pr = fn.params()[1:]
        bt = 2 if 'T' in shp else 1 if 'B' in shp else 0
        shape = ((6 + hctx, 5, 12)[2 - bt:])
        env = structure_env(s, shp, ctx)
        h = Rec(context_size=hctx, btype=bt, size=12)
        env.update({sym(pr[0]): Buf(shape), sym(pr[1]): h, sym(pr[2]): sl})
        want = [tuple(range(2, 10))]
        if bt >= 1:
            want.insert(0, tuple(range(5)))
        if bt == 2:
            want.insert(0, tuple(range(6 + ctx)))
        shape = ((6 + ctx, 5)[2 - bt:]) + tuple(shp[bt:])
        funcs = {'reshape': lambda b, *a: ('view', b.sel, tuple(
            a[0] if len(a) == 1 and isinstance(a[0], (tuple, list))
            else a))}
        E = Eval(I, st, env, funcs=funcs)
        case = 'shape %s, context %d in a hub with context %d' % (shp, ctx,
                                                                  hctx)
        where = '%s:%d' % (fn.mod.path, fn.node.lineno)
        n = 0
        for p in live(ps):
            if not E.holds(p.conds):
                continue
            n += 1
            try:
                got = E(p.val)
            except Unknown as e:
                rep.skip('view', 'create_from_buffer_hub', 'value %s' % e)
                continue
            if isinstance(got, Buf):
                got = ('view', got.sel, got.shape)
            rep.check(got[1] == tuple(want), 'view', 'part of the hub for ' +
                      case, 'selects %s' % (got[1],), where)
            rep.check(got[2] == shape, 'view', 'shape of the view for ' +
                      case, 'is %s instead of %s' % (got[2], shape), where)
        rep.check(n, 'view', 'a view for ' + case, 'no path returns', where)


def buffers(repo, rep):
    """the hubs are consecutive parts of one allocation"""
    fn = fn_of(repo, 'get_total_size_slices_and_shapes')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True)
    pr = [sym(x) for x in fn.params()]
    hs = [Rec(sh=(3,)), Rec(sh=(2, 4)), Rec(sh=(2, 5, 2))]
    env = {pr[0]: hs, pr[1]: 2, pr[2]: 5}
    asked = []

    def get_shape(h, *a):
        asked.append(a)
        return h.sh
    E = Eval(I, st, env, funcs={'get_shape': get_shape})
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)
    for p in live(ps):
        if not E.holds(p.conds):
            continue
        try:
            size, slices, shapes_ = E(p.val)
            sl = [(x.start or 0, x.stop) for x in slices]
        except (Unknown, TypeError, ValueError, AttributeError) as e:
            rep.skip('size', fn.name, 'value %s' % e)
            continue
        rep.check(all(a == (2, 5) for a in asked), 'size', 'time and batch '
                  'size passed to the hubs', 'passes %s' % asked, where)
        rep.check(size == 31, 'size', 'total size', 'is %s for buffers of '
                  '3, 8 and 20 elements' % size, where)
        rep.check(sl == [(0, 3), (3, 11), (11, 31)], 'disjoint', 'slices of '
                  'the hubs', 'are %s for buffers of 3, 8 and 20 elements' %
                  sl, where)
        rep.check([tuple(x) for x in shapes_] == [h.sh for h in hs], 'size',
                  'shapes of the hubs', 'are %s' % (shapes_,), where)
    # and the manager uses them
    mgr = find_cls(repo, 'BufferManager')
    opaque = names('get_total_size_slices_and_shapes',
                   'create_buffer_views_from_layout')
    I, st, ps, s = run(repo, mgr, 'resize', precise=True, opaque=opaque)
    rep.saw('BufferManager.resize')
    fn = I.method(mgr, 'resize')
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)

    class Full(object):
        def __getitem__(self, i):
            return Part(i)

    class Part(object):
        def __init__(self, i):
            self.i = i

    def leaf(v):
        if v is V('attr', s, 'full_buffer') or v.op == 'call' and \
                fname(v.a[0]) in ('allocate', 'zeros'):
            return [Full()]
        return None
    funcs = {'get_total_size_slices_and_shapes': lambda *a: (
        9, [slice(0, 4), slice(4, 9)], [(4,), (5, 1)]),
        'reshape': lambda b, *a: (b.i.start, b.i.stop, tuple(
            a[0] if len(a) == 1 and isinstance(a[0], (tuple, list))
            else a))}
    for p, old in [(p, o) for p in live(ps) for o in (4, 100)]:
        E = Eval(I, st, {V('attr', s, 'hubs'): [0, 1],
                         V('attr', s, 'size'): old,
                         V('attr', s, 'time_size'): 1,
                         V('attr', s, 'batch_size'): 1,
                         sym('time_size'): 2, sym('batch_size'): 2},
                 funcs=funcs)
        E.leaf = leaf
        if not E.holds(p.conds):
            continue
        v = final_attr(p, s, 'buffers')
        if v is None:
            continue
        try:
            got = E(p.s(v))
        except Unknown as e:
            rep.skip('disjoint', 'buffers', 'value %s' % e)
            continue
        rep.check(list(got) == [(0, 4, (4,)), (4, 9, (5, 1))], 'disjoint',
                  'buffers of the hubs', 'are %s for slices 0:4, 4:9' % (
                      got,), where)


# ------------------------------------------------------------------ stub --
def stub(repo, rep):
    """every port of a layer gets a place of the size asked for"""
    fn = fn_of(repo, 'get_layout_stub_for_layer')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True)
    lay = Rec(in_shapes=OrderedDict([('default', 'SB'), ('a', 'SA')]),
              out_shapes=OrderedDict([('z', 'SZ'), ('y', 'SY')]),
              parameter_shapes=OrderedDict([('w', 'SW'), ('c', 'SC')]),
              internal_shapes=OrderedDict([('h', 'SH'), ('dh', 'SD')]))
    E = Eval(I, st, {sym(fn.params()[0]): lay},
             funcs={'to_json': lambda s, i=None: ('place', s, i)})
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)
    want = {'inputs': ['SA', 'SB'], 'outputs': ['SZ', 'SY'],
            'parameters': ['SW', 'SC'], 'internals': ['SH', 'SD'],
            'input_deltas': ['SA', 'SB'], 'output_deltas': ['SZ', 'SY'],
            'gradients': ['SW', 'SC']}
    src = {'inputs': 'in_shapes', 'input_deltas': 'in_shapes',
           'outputs': 'out_shapes', 'output_deltas': 'out_shapes',
           'parameters': 'parameter_shapes', 'gradients': 'parameter_shapes',
           'internals': 'internal_shapes'}
    for p in live(ps):
        o = I.obj(st, p.val)
        if o is None or o.kind != 'dict':
            rep.skip('stub', fn.name, 'value %s' % p.val)
            continue
        have = {cval(k): v for k, v in o.items.items()}
        for cat in sorted(want):
            if cat not in have:
                rep.check(o.more is not None, 'stub', 'category ' + cat,
                          'the layout of a layer has no %s' % cat, where)
                continue
            try:
                d = E(p.s(have[cat]))
            except Unknown as e:
                rep.skip('stub', cat, 'value %s' % e)
                continue
            got = {k: x for k, x in d.items() if not k.startswith('@')}
            shp = getattr(lay, src[cat])
            bad = [k for k in shp if k not in got or
                   got[k][:2] != ('place', shp[k])] + [
                k for k in got if k not in shp]
            rep.check(not bad, 'stub', 'places of ' + cat,
                      'the place of %s is %s' % (bad[:1], [got.get(
                          k) for k in bad[:1]]), where)
            if not bad:
                seq = [x[1] for x in sorted(got.values(),
                                            key=lambda x: str(x[2]))]
                twin = {'gradients': 'parameters', 'input_deltas': 'inputs',
                        'output_deltas': 'outputs'}.get(cat)
                if twin:
                    rep.check(seq == want[cat] or seq == want[twin], 'order',
                              '%s in the order of %s' % (cat, twin),
                              'order %s' % seq, where)
                rep.check(len({x[2] for x in got.values()}) == len(got),
                          'stub', 'positions of ' + cat,
                          'two ports have the same position', where)


def builder(repo, rep):
    """views are built from the hub and slice written into the layout"""
    fn = fn_of(repo, 'create_buffer_views_from_layout')
    rep.saw(fn.qual)
    target = fn

    seen = []

    def opaque(f):
        # the body is interpreted once; recursive calls stay opaque
        if f is target:
            seen.append(f)
            return len(seen) > 1
        return f.name in ('create_from_buffer_hub', 'from_layout',
                          'sort_by_index_key') or \
            f.cls is not None and f.cls.name == 'BufferView'
    I = Interp(repo, precise=True, opaque=opaque)
    st = State()
    pr = fn.params()
    v, st, blk = I.run(fn, [sym(x) for x in pr], st)
    ps = top(blk)
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)
    p_ = {'@type': 'array', '@index': 7, 'n': 'p'}
    q_ = {'@type': 'array', '@index': 3, 'n': 'q'}
    node = OrderedDict([('@type', 'BufferView'), ('@index', 0),
                        ('@slice', (2, 5)), ('@hub', 1), ('@shape', (3,)),
                        ('p', p_), ('q', q_)])
    leafnode = {'@type': 'array', '@index': 0, '@slice': (1, 4), '@hub': 0,
                '@shape': (3,)}
    plain = OrderedDict([('@type', 'BufferView'), ('@index', 0), ('p', p_),
                         ('q', q_)])
    funcs = {'sort_by_index_key': lambda x: x[1]['@index'] if isinstance(
        x[1], dict) and '@index' in x[1] else -1,
        'from_layout': lambda *a: ('structure', a[-1]),
        'create_from_buffer_hub': lambda s, b, h, sl: ('part', s[1], b, h,
                                                       (sl.start, sl.stop)),
        'create_buffer_views_from_layout': lambda l, b, h, existing_view=None:
            ('sub', l['n'], b, h, existing_view)}
    for what, lay, ex in (('array', leafnode, None), ('view', node, None),
                          ('view again', node, {'p': 'vp', 'q': 'vq'}),
                          ('group', plain, None),
                          ('group again', plain, {'p': 'vp', 'q': 'vq'})):
        env = dict(zip([sym(x) for x in pr], [lay, ['b0', 'b1'],
                                              ['h0', 'h1'], ex]))

        def ext(ev, E):
            if isinstance(ev, tuple):
                p = ev[1]
                if p.end == 'raise':
                    return [('raise',)]
                return []
            if ev.kind == 'call' and fname(ev.f) == 'create_from_buffer_hub':
                r = E(ev.res)
                return [('part', r[1] is lay) + r[2:]]
            if ev.kind == 'call' and ev.f.op == 'func' and \
                    ev.f.a[0] is target:
                return [E(ev.res)]
            if ev.kind == 'mut' and fname(ev.f) == 'append':
                v = E(ev.args[0])
                if isinstance(v, str):
                    return [('name', v)]
            return []
        F = replay(I, st, ps, env, ext, funcs)
        exp = []
        if '@slice' in lay:
            h = lay['@hub']
            exp.append(('part', True, 'b%d' % h, 'h%d' % h, lay['@slice']))
        if lay is not leafnode:
            for n in 'qp':
                exp.append(('sub', n, ['b0', 'b1'], ['h0', 'h1'],
                            ex[n] if ex else None))
        opt = [('name', 'q'), ('name', 'p')] if lay is not leafnode else []
        F.may = [f for f in F.may if f not in opt]
        order = [f for f in F.must if f in opt]
        F.must = [f for f in F.must if f not in opt]
        compare(rep, 'build', 'what a %s is built from' % what, F, exp,
                where)
        rep.check(order in ([], opt), 'build', 'order of the names of a ' +
                  what, 'names are %s' % order, where)
    f = fn_of(repo, 'sort_by_index_key')
    I, st, ps = run_fn(repo, f, precise=True)
    for x, want in ((('k', {'@index': 4}), 4), (('k', {'@index': 0}), 0)):
        E = Eval(I, st, {sym(f.params()[0]): x})
        E.env[V('ext', 'dict')] = dict
        E.funcs['isinstance'] = isinstance
        for p in live(ps):
            if not E.holds(p.conds):
                continue
            try:
                got = E(p.val)
            except Unknown as e:
                rep.skip('build', f.name, 'value %s' % e)
                continue
            rep.check(got == want or got == -1 and any(
                'isinstance' in str(c) for c in p.conds), 'build',
                'sort_by_index_key sorts by @index', 'gives %s for %s' % (
                    got, x), '%s:%d' % (f.mod.path, f.node.lineno))


def whole_shapes(repo, rep):
    """all parameters / gradients: as large as their slice"""
    fn = fn_of(repo, 'create_layout')
    rep.saw(fn.qual)
    other = {b[1] for b in fn.mod.bindings.values() if b[0] == 'fn' and
             b[1] is not fn}
    I, st, ps = run_fn(repo, fn, precise=True, opaque=lambda f: f in other)
    n = 0
    for p in live(ps):
        for e in p.events():
            if e.kind != 'setitem' or cval(e.idx) != '@shape':
                continue
            E = Eval(I, st, {})
            E.leaf = lambda v: [(2, 7)] if v.op == 'idx' and cval(
                v.a[1]) == '@slice' else [(2, 7)] if is_const(
                    v, (0, 0)) or v.op == 'tuple' and all(
                        is_const(x, 0) for x in v.a[0]) else None
            try:
                got = E(p.s(e.val))
            except Unknown as x:
                rep.skip('size', 'size of all ' + str(e.obj)[-12:],
                         'value %s' % x)
                continue
            n += 1
            rep.check(tuple(got) == (5,), 'size', 'shape of %s in the layout'
                      % e.obj.a[1] if e.obj.op == 'idx' else str(e.obj),
                      'is %s for the slice 2:7' % (got,), e.where())
        # no hub of a port is changed after the layout of the hubs
    return n


def permutation(repo, rep):
    """sources are permuted like the rows of the connection table"""
    hub = find_cls(repo, 'Hub')
    rep.saw('Hub.permute_rows')
    I, st, ps, s = run(repo, hub, 'permute_rows', precise=True,
                       opaque=names('can_be_connected_with_single_buffer',
                                    'flatten'))
    fn = I.method(hub, 'permute_rows')
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)

    class Table(object):
        def __init__(self, rows):
            self.rows = rows

        def __getitem__(self, i):
            if not isinstance(i, list):
                raise TypeError
            return Table([self.rows[j] for j in i])

        def __eq__(self, o):
            return isinstance(o, Table) and o.rows == self.rows
    for good in (True, False):
        tests = []

        def test(*a):
            tests.append(a[-1])
            return good
        env = {V('attr', s, 'nesting'): [0, 1, 2],
               V('attr', s, 'flat_sources'): ['a', 'b', 'c'],
               V('attr', s, 'connection_table'): Table(['A', 'B', 'C'])}
        funcs = {'can_be_connected_with_single_buffer': test,
                 'flatten': lambda x: list(x)}

        def ext(ev, E):
            if isinstance(ev, tuple):
                return []
            if ev.kind == 'setattr' and ev.obj is s and ev.name in (
                    'perm', 'flat_sources', 'connection_table'):
                v = E(ev.val)
                return [(ev.name, v.rows if isinstance(v, Table) else
                         list(v))]
            return []
        F = replay(I, st, ps, env, ext, funcs,
                   leaf=lambda v: [[[1, 2, 0]]] if v.op == 'call' and
                   fname(v.a[0]) == 'itertools.permutations' else None)
        if F.und and good:
            rep.skip('order', 'permute_rows', 'value %s' % F.und[0][1])
            continue
        sets = dict(F.may)
        if good:
            rep.check(sets.get('perm') == [1, 2, 0] and
                      sets.get('flat_sources') == ['b', 'c', 'a'] and
                      sets.get('connection_table') == ['B', 'C', 'A'],
                      'order', 'sources, table and permutation agree',
                      'for the permutation 1, 2, 0 of a, b, c they are %s' %
                      sets, where)
            rep.check(tests and all(t == Table(['B', 'C', 'A']) for t in
                                    tests), 'order',
                      'the permuted table is tested', 'tests %s' % [
                          getattr(t, 'rows', t) for t in tests], where)
        else:
            rep.check(F.ends == {'raise'}, 'order', 'no permutation fits',
                      'the layout is accepted', where)


def combined(repo, rep):
    fn = fn_of(repo, 'combine_buffer_structures')
    rep.saw(fn.qual)
    bs = find_cls(repo, 'BufferStructure')
    I, st, ps = run_fn(repo, fn, precise=True, opaque=lambda f: f.cls is bs)
    S = sym(fn.params()[0])
    where = '%s:%d' % (fn.mod.path, fn.node.lineno)

    def mk(*shp):
        bt = 2 if 'T' in shp else 1 if 'B' in shp else 0
        return Rec(shape=shp, buffer_type=bt, nr_dims=len(shp),
                   feature_shape=shp[bt:], scaling_shape=shp[:bt],
                   first_feature_dim=bt)
    for shp, want in (([mk('T', 'B', 2, 3), mk('T', 'B', 2, 4),
                        mk('T', 'B', 2, 1)], ('T', 'B', 2, 8)),
                      ([mk('B', 5)], ('B', 5)),
                      ([mk(2), mk(3)], (5,))):
        env = {S: shp}
        for x in shp:
            pass
        E = Eval(I, st, env)
        for p in live(ps):
            if not E.holds(p.conds):
                continue
            r = p.s(p.val)
            ev = [e for e in p.events() if e.kind == 'new' and e.res is r]
            if not ev:
                rep.skip('size', fn.name, 'value %s' % r)
                continue
            try:
                got = []
                for a in ev[-1].args:
                    if a.op == 'star':
                        got += list(E(a.a[0]))
                    else:
                        got.append(E(a))
            except Unknown as e:
                rep.skip('size', fn.name, 'value %s' % e)
                continue
            rep.check(tuple(got) == want, 'size', 'size of the '
                      'concatenation of %s' % ', '.join(
                          str(x.shape) for x in shp), 'is %s' % (
                          tuple(got),), where)


def p24(repo, rep, tier):
    rep.rule('connected', 'the list of connections holds, for every '
             'connection and every parameter, the forward and the backward '
             'pair of buffers, and nothing else')
    rep.rule('order', 'sources are permuted together with the table that is tested; gradients have the order of the parameters, deltas '
             'the order of the activations')
    rep.rule('layout', 'every source and sink of a hub is given the slice of '
             'its sources and the number of its hub')
    rep.rule('size', 'shapes, sizes and contexts are those of the structures '
             'put into the hub')
    rep.rule('view', 'a port is its feature slice of the hub, from the first '
             'time step on, with its own context')
    rep.rule('disjoint', 'hubs are consecutive, disjoint parts of the '
             'allocation')
    rep.rule('stub', 'every input, output, parameter, internal and their '
             'backward twins have a place of the structure asked for')
    rep.rule('build', 'views are taken from the hub and slice in the layout')
    rep.rule('carry', 'shape and context size go unchanged through the '
             'layout')
    connections(repo, rep)
    orders(repo, rep)
    hubs(repo, rep)
    shapes(repo, rep)
    port_views(repo, rep)
    buffers(repo, rep)
    stub(repo, rep)
    builder(repo, rep)
    combined(repo, rep)
    whole_shapes(repo, rep)
    permutation(repo, rep)
    carry(repo, rep, 'shape', '@shape', 'carry')
    carry(repo, rep, 'context_size', '@context_size', 'carry')
    rep.need('connected', 1, 'lists of connections')
    rep.need('view', 8, 'views')
    rep.need('disjoint', 2, 'partitions')
