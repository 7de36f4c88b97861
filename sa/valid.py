"""Ill-formed architectures are rejected (P25)."""
import ast

from .arch import Con, fn_of, names
from .evalt import Eval, Rec, replay
from .interp import Interp
from .prog import (Unknown, calls, find_cls, flat, fname, live, recv, run,
                   run_fn)
from .repo import AnalysisBroken, Fn
from .structure import sym
from .terms import V, cval, is_const, subterms


def nothing(ev, E):
    return []


def judge(rep, rule, what, F, must_raise, where):
    """the sample is rejected / accepted"""
    if must_raise:
        if F.ends and F.ends <= {'raise'}:
            rep.ok(rule, what, where)
        elif F.loose:
            rep.skip(rule, what, 'condition %s' % (F.loose[0],))
        else:
            rep.bad(rule, what, 'is accepted', where)
    else:
        if 'raise' in F.ends and not F.ends - {'raise'}:
            if F.loose:
                rep.skip(rule, what, 'condition %s' % (F.loose[0],))
            else:
                rep.bad(rule, 'well-formed: ' + what, 'is rejected', where)
        else:
            rep.ok('accepted', what, where)


def loc(fn):
    return '%s:%d' % (fn.mod.path, fn.node.lineno)


# --------------------------------------------------------- architectures --
def arch_(**extra):
    a = {'Input': {'@type': 'Input', '@outgoing_connections': ['A']},
         'A': {'@type': 'X', '@outgoing_connections': {'out': ['B.y']}},
         'B': {'@type': 'X', '@outgoing_connections': []}}
    for k, v in extra.items():
        if v is None:
            a.pop(k)
        else:
            a[k] = v
    return a


def cons(arch):
    """the connections of an architecture, by definition"""
    out = []
    for n, l in arch.items():
        o = l['@outgoing_connections']
        for k, v in (o.items() if isinstance(o, dict) else
                     [('default', o)]):
            for c in v:
                e, _, i = c.partition('.')
                out.append(Con(n, k, e, i or 'default'))
    return sorted(out)


def architecture(repo, rep):
    fn = fn_of(repo, 'validate_architecture')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True, opaque=names(
        'collect_all_connections', 'is_valid_layer_name'))
    A = sym(fn.params()[0])
    number = arch_()
    number[3] = {'@type': 'X', '@outgoing_connections': []}
    cases = [
        ('well-formed architecture', arch_(), False),
        ('layer name that is no string', number, True),
        ('layer without @type', arch_(B={'@outgoing_connections': []}),
         True),
        ('@type that is no string', arch_(
            B={'@type': 4, '@outgoing_connections': []}), True),
        ('@outgoing_connections that are a string', arch_(
            B={'@type': 'X', '@outgoing_connections': 'A'}), True),
        ('@outgoing_connections that are a number', arch_(
            B={'@type': 'X', '@outgoing_connections': 5}), True),
        ('invalid layer name', arch_(**{'not valid': {
            '@type': 'X', '@outgoing_connections': []}}), True),
        ('connection to a layer that does not exist', arch_(B=None), True),
        ('no layer called Input', {'A': {
            '@type': 'X', '@outgoing_connections': []}}, True),
        ('Input layer of another type', arch_(Input={
            '@type': 'X', '@outgoing_connections': ['A']}), True),
        ('connection to the Input', arch_(B={
            '@type': 'X', '@outgoing_connections': ['Input']}), True)]
    for what, a, bad in cases:
        def collect(arch):
            try:
                return cons(arch)
            except (AttributeError, TypeError, KeyError):
                return []
        F = replay(I, st, ps, {A: a}, nothing, {
            'collect_all_connections': collect,
            'is_valid_layer_name': lambda n: n != 'not valid'})
        judge(rep, 'architecture', what, F, bad, loc(fn))
    fn = fn_of(repo, 'is_valid_layer_name')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True)
    for n, want in (('fc', True), ('_a1', True), ('A', True),
                    ('LstmOpt_2', True), ('', False), ('a b', False),
                    ('1a', False), ('a.b', False), ('a-b', False),
                    ('@type', False), ('a\n', False), (' a', False),
                    ('default', False), ('fallback', False),
                    ('parameters', False), ('gradients', False)):
        E = Eval(I, st, {sym(fn.params()[0]): n})
        got = set()
        try:
            for p in live(ps):
                if E.holds(p.conds):
                    got.add(bool(E(p.val)))
        except Unknown as e:
            rep.skip('names', 'is_valid_layer_name', 'value %s' % e)
            continue
        rep.check(got == {want}, 'names', 'layer name %r' % n,
                  'is %s' % ('rejected' if want else 'accepted'), loc(fn))
    # unknown layer types
    fn = fn_of(repo, 'get_layer_class_from_typename')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True,
                       opaque=names('get_inheritors'))
    cl = [Rec(__name__='ALayerImpl'), Rec(__name__='BLayerImpl')]
    T = sym(fn.params()[0])

    def ret(ev, E):
        if isinstance(ev, tuple) and ev[1].end == 'ret':
            return [E(ev[1].val).__dict__['__name__']]
        return []
    for n, want in (('BLayerImpl', ['BLayerImpl']), ('C', None),
                    ('A', None), ('ayerImpl', None)):
        F = replay(I, st, ps, {T: n}, ret, {'get_inheritors': lambda c: cl})
        if want is None:
            judge(rep, 'layer-type', 'unknown layer type %r' % n, F, True,
                  loc(fn))
        elif F.und:
            rep.skip('layer-type', n, 'value %s' % F.und[0][1])
        else:
            rep.check(set(F.may) == set(want), 'layer-type',
                      'class of type %s' % n, 'is %s' % F.may, loc(fn))


# ---------------------------------------------------------------- layers --
def cycles(repo, rep):
    """layers that cannot be placed end in an error"""
    fn = fn_of(repo, 'get_canonical_layer_order')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, precise=True,
                       opaque=names('collect_all_connections'))
    A = sym(fn.params()[0])
    env = {A: arch_()}
    for p in ps:
        for c in p.conds:
            for x in subterms(c):
                if x.op == 'loopout':
                    env[x] = {'B'}
    for p in live(ps):
        E = Eval(I, st, env)
        if not E.holds(p.conds):
            rep.ok('cycle', 'layers that are never ready', loc(fn))
        elif any(not E.known(c) for c in p.conds) or any(
                any(q.end == 'ret' for q in getattr(x, 'paths', ()))
                for x in p.items):
            rep.skip('cycle', fn.qual, 'condition of the return')
        else:
            rep.bad('cycle', 'layers that are never ready', 'a cyclic '
                    'architecture is accepted', loc(fn))


def layer_checks(repo, rep):
    base = find_cls(repo, 'Layer')
    rep.saw('Layer.__init__', 'Layer._validate_kwargs',
            'Layer._validate_in_shapes', 'Layer._validate_connections')

    # give the instance the attributes of the sample as symbols
    def with_attrs(meth, what, attrs, bad):
        box = {}

        def setup(I, st, s):
            for k in attrs:
                I.obj(st, s).attrs[k] = sym('@' + k)
        if base.members.get(meth) is None:
            raise AnalysisBroken('Layer.%s not found' % meth)
        I, st, ps, s = run(repo, base, meth, precise=True,
                           opaque=names('matches'), setup=setup)
        env = {sym('@' + k): v for k, v in attrs.items()}
        env[V('attr', s, 'name')] = 'L'
        F = replay(I, st, ps, env, nothing,
                   {'matches': lambda t, s_: t == s_})
        judge(rep, 'layer', what, F, bad, loc(I.method(base, meth)))

    with_attrs('_validate_kwargs', 'unknown option', {
        'kwargs': {'size': 1, 'foo': 2}, 'expected_kwargs': {'size': 0}},
        True)
    with_attrs('_validate_kwargs', 'only unknown options', {
        'kwargs': {'foo': 2}, 'expected_kwargs': {}}, True)
    with_attrs('_validate_kwargs', 'known options', {
        'kwargs': {'size': 1}, 'expected_kwargs': {'size': 0, 'b': 0}},
        False)
    m = '_validate_in_shapes'
    with_attrs(m, 'unknown input', {
        'in_shapes': {'default': 1, 'foo': 2},
        'expected_inputs': {'default': 1}}, True)
    with_attrs(m, 'missing input', {
        'in_shapes': {'default': 1},
        'expected_inputs': {'default': 1, 'targets': 2}}, True)
    with_attrs(m, 'no input at all', {
        'in_shapes': {}, 'expected_inputs': {'default': 1}}, True)
    with_attrs(m, 'input of the wrong shape', {
        'in_shapes': {'default': 1, 'targets': 3},
        'expected_inputs': {'default': 1, 'targets': 2}}, True)
    with_attrs(m, 'inputs as expected', {
        'in_shapes': {'default': 1, 'targets': 2},
        'expected_inputs': {'default': 1, 'targets': 2}}, False)
    m = '_validate_connections'
    ok = dict(incoming=[Con('A', 'x', 'L', 'default')],
              outgoing=[Con('L', 'out', 'B', 'y'),
                        Con('L', '..parameters.w', 'B', 'y'),
                        Con('L', '..internals.h', 'B', 'y')],
              in_shapes={'default': 1}, out_shapes={'out': 1},
              parameter_shapes={'w': 1}, internal_shapes={'h': 1, 'dh': 1})
    with_attrs(m, 'valid connections', ok, False)
    for what, k, c in (
            ('connection to an unknown input', 'incoming',
             Con('A', 'x', 'L', 'foo')),
            ('connection from an unknown output', 'outgoing',
             Con('L', 'foo', 'B', 'y')),
            ('connection from an unknown parameter', 'outgoing',
             Con('L', '..parameters.out', 'B', 'y')),
            ('connection from an unknown internal', 'outgoing',
             Con('L', '..internals.w', 'B', 'y')),
            ('connection from gradients', 'outgoing',
             Con('L', '..gradients.w', 'B', 'y')),
            ('connection from inputs', 'outgoing',
             Con('L', '..inputs.default', 'B', 'y'))):
        with_attrs(m, what, dict(ok, **{k: [c]}), True)
        with_attrs(m, what + ' after a valid one', dict(
            ok, **{k: ok[k] + [c]}), True)

    # the constructor calls them
    vs = ('_validate_kwargs', '_validate_in_shapes')
    for cls in [base] + [c for c in repo.subclasses(base)]:
        ow, init = repo.lookup(cls, '__init__')
        for m in vs + ('_validate_connections',):
            o2, f2 = repo.lookup(cls, m)
            if o2 is not base:
                calls_super(repo, rep, cls, f2, m)
        if cls is not base and ow is base:
            continue
        I, st, ps, s = run(repo, cls, '__init__', opaque=lambda f: f.name in
                           vs + ('_validate_connections', 'setup'))
        for p in live(ps):
            seq = [(fname(e.f), e) for e in p.events() if e.kind == 'call'
                   and recv(e.f) is s]
            order = [n for n, e in seq]
            if 'setup' not in order:
                if cls is base:
                    rep.bad('checked', cls.name + '.__init__ sets up',
                            'setup is not called', loc(init))
                continue
            k = order.index('setup')
            for m in vs:
                rep.check(m in order[:k], 'checked', '%s.__init__ calls %s '
                          'before setup' % (cls.name, m), 'the layer is set '
                          'up without the check', loc(init))
            rep.check('_validate_connections' in order[k:], 'checked',
                      '%s.__init__ checks the connections' % cls.name,
                      'connections are not checked after setup', loc(init))
            # what is checked is what was passed in
            for a, prm in (('kwargs', None), ('incoming', 3),
                           ('outgoing', 4)):
                sets = [e for e in p.events() if e.kind == 'setattr' and
                        e.obj is s and e.name == a]
                for e in sets[-1:]:
                    if prm is not None and cls is base:
                        want = sym(init.params()[prm])
                        rep.check(p.s(e.val) is want or want in subterms(
                            p.s(e.val)), 'checked', 'Layer.%s' % a,
                            'is %s' % e.val, e.where())


def calls_super(repo, rep, cls, fn, meth):
    """an overriding check includes the inherited one"""
    base = find_cls(repo, 'Layer')
    I, st, ps, s = run(repo, cls, meth, opaque=lambda f: f.cls is base and
                       f.name == meth)
    n = 0
    for p in live(ps):
        ok = any(e.kind == 'call' and e.f.op == 'bound' and
                 e.f.a[0].cls is base and e.f.a[0].name == meth
                 for e in p.events())
        if not ok and cls.name == 'InputLayerImpl':
            # the data source has no inputs; its own check replaces it
            rep.ok('checked', '%s.%s' % (cls.name, meth))
            continue
        rep.check(ok, 'checked', '%s.%s includes the inherited check' % (
            cls.name, meth), 'skips the check of Layer', loc(fn))


# ----------------------------------------------------------------- order --
def construction(repo, rep):
    """validation comes first, and every network passes it"""
    fn = fn_of(repo, 'instantiate_layers_from_architecture')
    rep.saw(fn.qual)
    val = fn_of(repo, 'validate_architecture')
    I, st, ps = run_fn(repo, fn, opaque=lambda f: f is val or f.name in (
        'get_canonical_layer_order', 'collect_all_connections',
        'get_layer_class_from_typename', 'get_kwargs',
        'combine_buffer_structures', 'get_normalized_path'))
    A = sym(fn.params()[0])
    for p in live(ps):
        first = None
        for i, e, loops in flat(p):
            if e.kind != 'call':
                continue
            if e.f.op == 'func' and e.f.a[0] is val:
                first = e
                rep.check(e.args and e.args[0] is A, 'first', 'architecture '
                          'that is validated', 'is %s' % e.args[:1],
                          e.where())
                break
            if A in e.args or e.f.op == 'func' and e.f.a[0].name in (
                    'get_layer_class_from_typename', 'get_kwargs'):
                rep.bad('first', 'validation before use', 'the architecture '
                        'is used by %s before it is validated' % fname(e.f),
                        e.where())
                first = e
                break
        rep.check(first is not None, 'first', 'architectures are validated',
                  'the architecture is not validated', loc(fn))
        # options and connections reach the layer
        made = [e for e in p.events() if e.kind == 'call' and e.f.op ==
                'call' and fname(e.f.a[0]) == 'get_layer_class_from_typename']
        for e in made:
            inc = [a for a in list(e.args) + list(e.kw.values())]
            rep.check(len(e.args) + len([k for k in e.kw]) >= 4, 'first',
                      'arguments of the layer', 'has %d' % len(inc),
                      e.where())
    # networks are built from validated layers only
    net = find_cls(repo, 'Network')
    ifn = fn
    own, init = repo.lookup(net, '__init__')
    k = init.params().index('layers') if 'layers' in init.params() else 1
    n = 0
    for m in repo.modules.values():
        if '.tests' in m.name:
            continue
        for f in functions(m):
            if not builds(f, net):
                continue
            n += 1
            if f.cls is not None and f.kind != 'staticmethod':
                args = [sym(x) for x in f.params()[1:]]
            else:
                args = [sym(x) for x in f.params()]
            I = Interp(repo, opaque=lambda g: g is ifn or g.name in (
                'create_layout', '__init__', 'generate_architecture',
                'create_from_description', 'get_description'))
            from .interp import State
            st = State()
            v, st2, blk = I.run(f, args, st, self_v=V('cls', net)
                                if f.cls is net else None)
            from .prog import top
            for p in top(blk):
                for e in p.events():
                    if e.kind != 'new' or not (
                            e.cls is net or getattr(e.cls, 'op', None) ==
                            'cls' and e.cls.a[0] is net):
                        continue
                    a = e.args[k - 1] if len(e.args) >= k else e.kw.get(
                        'layers')
                    src = [x for x in subterms(a) if x.op == 'call' and
                           x.a[0].op == 'func' and x.a[0].a[0] is ifn] \
                        if a is not None else []
                    if not src and a is not None and any(
                            x in subterms(a) for x in args):
                        rep.skip('first', 'network built in ' + f.name,
                                 'layers are an argument')
                        continue
                    rep.check(bool(src), 'first', 'network built in %s' %
                              f.qual.split('.', 1)[-1], 'its layers are %s' %
                              a, e.where())
    return n


def functions(m):
    for n, b in m.bindings.items():
        if b[0] == 'fn':
            yield b[1]
        elif b[0] == 'cls':
            for f in b[1].members.values():
                if isinstance(f, Fn):
                    yield f


def builds(f, net):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (
                x.func.id == net.name or x.func.id == 'cls' and
                f.cls is net):
            return True
    return False


# ------------------------------------------------------------ structures --
def structures(repo, rep):
    fn = fn_of(repo, 'combine_buffer_structures')
    bs = find_cls(repo, 'BufferStructure')
    stt = find_cls(repo, 'StructureTemplate')
    I, st, ps = run_fn(repo, fn, precise=True, opaque=lambda f: f.cls is bs)
    S = sym(fn.params()[0])

    def mk(*shp):
        bt = 2 if 'T' in shp else 1 if 'B' in shp else 0
        return Rec(shape=shp, buffer_type=bt, nr_dims=len(shp),
                   feature_shape=shp[bt:], scaling_shape=shp[:bt],
                   first_feature_dim=bt, scales_with_time='T' in shp,
                   scales_with_batch_size='B' in shp)
    for what, ss, bad in (
            ('inputs with different numbers of dimensions',
             [mk('T', 'B', 3), mk('T', 'B', 2, 3)], True),
            ('inputs that differ in time scaling',
             [mk('B', 2, 3), mk('T', 'B', 3)], True),
            ('inputs that differ in batch scaling',
             [mk('B', 3), mk(4, 3)], True),
            ('inputs that differ in a fixed dimension',
             [mk('T', 'B', 2, 3), mk('T', 'B', 4, 3)], True),
            ('third input that differs in a fixed dimension',
             [mk('B', 2, 3), mk('B', 2, 3), mk('B', 4, 3)], True),
            ('inputs that fit', [mk('T', 'B', 2, 3), mk('T', 'B', 2, 4)],
             False)):
        F = replay(I, st, ps, {S: ss}, nothing)
        judge(rep, 'shapes', what, F, bad, loc(fn))
    for ss, want in (([mk('T', 'B', 2, 3), mk('T', 'B', 2, 4)],
                      ('T', 'B', 2, 7)),
                     ([mk('B', 3)], ('B', 3)), ([mk(3), mk(4)], (7,)),
                     ([mk('T', 'B', 1), mk('T', 'B', 2), mk('T', 'B', 4)],
                      ('T', 'B', 7))):
        def made(ev, E):
            if isinstance(ev, tuple) or ev.kind != 'new':
                return []
            if getattr(ev.cls, 'name', None) != bs.name:
                return []
            return [E(V('tuple', tuple(ev.args)))]
        F = replay(I, st, ps, {S: ss}, made)
        what = 'shape of inputs %s together' % ([x.shape for x in ss],)
        if F.und or not F.may:
            rep.skip('shapes', what, 'structure that is made')
        else:
            rep.check(set(F.may) == {want}, 'shapes', what,
                      'is %s' % (F.may,), loc(fn))
    for cls, tmpl in ((bs, False), (stt, True)):
        ow, v = repo.lookup(cls, 'validate')
        rep.saw(cls.name + '.validate', cls.name + '.__init__')
        I, st, ps, s = run(repo, cls, '__init__', args=[V('sym', 'd0')],
                           opaque=lambda f: f is v)
        for p in live(ps):
            rep.check(any(e.kind == 'call' and e.f.op == 'bound' and
                          e.f.a[0] is v for e in p.events()), 'shapes',
                      '%s is validated when it is made' % cls.name,
                      'is not validated', loc(v))
        good = [(('T', 'B', 3), 0), (('T', 'B', 3, 4), 2), (('B', 3), 0),
                ((3,), 0)]
        bad = [((), 0), (('T', 3), 0), (('T', 3, 4), 0), (('B', 'T', 3), 0), (('T',), 0),
               ((3, 'B'), 0), (('T', 'B', 'x'), 0), (('T', 'B', 3), -1),
               (('B', 3), 1), (('T', 'B', 3), 'a')]
        if tmpl:
            good += [(('T', 'B', 'F'), 0), (('B', 'F', 'F'), 0),
                     (('T', 'B', '...'), 0)]
            bad += [(('T', 'B', 'F', 3), 0), (('T', 'B', 3, '...'), 0)]
        else:
            bad += [(('T', 'B'), 0), (('T', 'B', 'F'), 0)]
        for shp, ctx in good + bad:
            bt = 2 if 'T' in shp else 1 if 'B' in shp else 0

            def setup(I, st, s):
                I.obj(st, s).attrs.update({
                    k: sym('@' + k) for k in ('shape', 'context_size')})
            I, st, ps, s = run(repo, cls, 'validate', precise=True,
                               setup=setup)
            env = {sym('@shape'): shp, sym('@context_size'): ctx}
            for k, x in (('buffer_type', bt), ('first_feature_dim', bt)):
                env[V('attr', s, k)] = x
            F = replay(I, st, ps, env, nothing)
            judge(rep, 'shapes', '%s%s with context %s' % (
                cls.name, shp, ctx), F, (shp, ctx) in bad, loc(v))
    # matching
    ow, m = repo.lookup(stt, 'matches')
    rep.saw('StructureTemplate.matches')

    def setup(I, st, s):
        I.obj(st, s).attrs['shape'] = sym('@shape')
    I, st, ps, s = run(repo, stt, 'matches', precise=True, setup=setup)
    P = sym(m.params()[1])
    for t, shp, want in (
            (('T', 'B', 'F'), ('T', 'B', 4), True),
            (('T', 'B', 'F'), ('B', 4), False),
            (('T', 'B', 'F'), ('T', 'B', 4, 2), False),
            (('T', 'B', 'F', 'F'), ('T', 'B', 4), False),
            (('T', 'B', 1), ('T', 'B', 1), True),
            (('T', 'B', 1), ('T', 'B', 2), False),
            (('T', 'B', '...'), ('T', 'B', 2, 3), True),
            (('T', 'B', '...'), ('T', 'B', 2), True),
            (('T', 'B', '...'), ('B', 2, 3), False),
            (('B', 'F'), ('T', 'B', 2), False),
            (('B', 'F'), (3, 4), False),
            (('...',), ('T', 'B', 2), True),
            (('F', 'F'), (3, 4), True), (('F', 'F'), ('B', 4), False),
            (('B', 'F'), ('B', 4), True), (('B', 'F'), (2, 4), False)):
        F = first_return(I, st, ps, {sym('@shape'): t, P: mk(*shp)})
        what = 'template %s against %s' % (t, shp)
        if F is None:
            rep.skip('shapes', what, 'value of matches not recognised')
        else:
            rep.check(F is want, 'shapes', what, 'matches' if not want else
                      'does not match', loc(m))


def first_return(I, st, ps, env):
    """the value of a function that returns from inside loops, or None"""
    def path(p, idx, top_):
        from .paths import LoopItem
        E = Eval(I, st, env, idx)
        for x in p.items:
            if not isinstance(x, LoopItem):
                continue
            try:
                n = len(list(E(x.node.it)))
            except (Unknown, TypeError):
                raise Unknown(x.node.it)
            for i in range(n):
                j = dict(idx)
                j[x.node.uid] = i
                cand = []
                for q in x.paths:
                    Eq = Eval(I, st, env, j)
                    if Eq.holds(q.conds):
                        if any(not Eq.known(c) for c in q.conds):
                            raise Unknown(None)
                        cand.append(q)
                if len(cand) != 1:
                    vals = {(q.end, str(q.val)) for q in cand}
                    if len(vals) != 1:
                        raise Unknown(None)
                q = cand[0]
                if q.end == 'ret':
                    return ('ret', Eval(I, st, env, j)(q.val))
                if q.end == 'break':
                    break
                r = path(q, j, False)
                if r is not None and r[0] == 'ret':
                    return r
        if p.end == 'ret' and top_:
            return ('ret', E(p.val))
        return None
    try:
        vals = set()
        for p in ps:
            E = Eval(I, st, env, {})
            if not E.holds(p.conds):
                continue
            if any(not E.known(c) for c in p.conds):
                continue    # a copy that belongs to a return in a loop
            r = path(p, {}, True)
            if r is not None:
                vals.add(bool(r[1]))
        return vals.pop() if len(vals) == 1 else None
    except Unknown:
        return None


# --------------------------------------------------------------- options --
def options(repo, rep):
    """options a layer looks at can be given to it"""
    base = find_cls(repo, 'Layer')
    for cls in repo.subclasses(base):
        exp = expected(repo, cls)
        if exp is None:
            rep.skip('options', cls.name, 'expected_kwargs not literal')
            continue
        for f in cls.members.values():
            if not isinstance(f, Fn):
                continue
            for x in ast.walk(f.node):
                key = None
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in (
                        'get', 'pop') and is_kwargs(x.func.value) and \
                        x.args and isinstance(x.args[0], ast.Constant):
                    key = x.args[0].value
                elif isinstance(x, ast.Subscript) and is_kwargs(x.value) \
                        and isinstance(x.slice, ast.Constant):
                    key = x.slice.value
                if isinstance(key, str):
                    rep.check(key in exp, 'options', '%s reads option %s' %
                              (cls.name, key), 'the option is not in '
                              'expected_kwargs and can never be given',
                              '%s:%d' % (f.mod.path, x.lineno))


def is_kwargs(x):
    return isinstance(x, ast.Name) and x.id == 'kwargs' or isinstance(
        x, ast.Attribute) and x.attr == 'kwargs'


def expected(repo, cls):
    ow, v = repo.lookup(cls, 'expected_kwargs')
    if isinstance(v, tuple):
        v = v[-1]
    if isinstance(v, ast.Set):
        v = v.elts
    elif isinstance(v, ast.Dict):
        v = v.keys
    else:
        return None
    if all(isinstance(x, ast.Constant) for x in v):
        return {x.value for x in v}
    return None


def p25(repo, rep, tier):
    rep.rule('architecture', 'each kind of ill-formed architecture ends in '
             'an error, on every path')
    rep.rule('cycle', 'the layer order is only returned when every layer '
             'has been placed')
    rep.rule('names', 'layer names are identifiers that clash with no '
             'reserved name')
    rep.rule('layer-type', 'only the class of that exact name is taken')
    rep.rule('layer', 'each kind of ill-formed layer ends in an error')
    rep.rule('checked', 'layers run their checks before and after setup')
    rep.rule('first', 'architectures are validated before they are used; '
             'networks consist of layers built that way')
    rep.rule('shapes', 'shapes that do not fit are rejected')
    rep.rule('options', 'options read by a layer are options it accepts')
    architecture(repo, rep)
    cycles(repo, rep)
    layer_checks(repo, rep)
    construction(repo, rep)
    structures(repo, rep)
    options(repo, rep)
    rep.need('architecture', 5, 'kinds of ill-formed architectures')
    rep.need('layer', 5, 'kinds of ill-formed layers')
    rep.need('checked', 3, 'calls of the checks')
    rep.need('first', 2, 'validations')
