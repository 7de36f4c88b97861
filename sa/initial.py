"""P50: initialisation of the parameters."""
from collections import OrderedDict

from .arch import compare, fn_of, names
from .evalt import Eval, Rec, replay
from .prog import Unknown, find_cls, fname, flat, live, run, run_fn
from .repo import AnalysisBroken, Fn
from .structure import sym
from .terms import V, cval
from .valid import loc

M = 'brainstorm.structure.view_references'


class Coll(list):
    """a collection of references"""


def text(v):
    return str(v)


# ----------------------------------------------------- matching of keys ---

def target_of(e, E):
    """the object something is put into"""
    return E(e.f.a[0])


def matching(repo, rep):
    rule = 'match'
    rep.rule(rule, 'A reference applies to exactly the keys its pattern '
             'covers as a whole; "default" only to keys nothing else '
             'matches, "fallback" to none; a reference without a key is an '
             'error.')
    fn = fn_of(repo, 'get_key_to_references_mapping')
    rep.saw(fn.qual, fn_of(repo, 'get_regex_for_reference').qual)
    I, st, ps = run_fn(repo, fn, raw=True)
    K, R = [sym(a) for a in fn.params()]

    def case(what, keys, refs, want, err=False):
        rs = {p.s(p.val) for p in live(ps) if p.val is not None}
        rs = {r for r in rs if r.op == 'ref'}
        plain = {k: Coll(r for r in v if r != 'default')
                 for k, v in want.items()}
        env = {K: keys, R: refs}
        for r in rs:
            env[r] = plain
        for k in plain:
            plain[k].key = k

        def ext(ev, E):
            if isinstance(ev, tuple) or ev.kind not in ('call', 'mut'):
                return []
            n = fname(ev.f)
            if n in ('add', 'append', 'update', 'extend') and ev.args:
                c = target_of(ev, E)
                if not isinstance(c, Coll):
                    return []
                v = E(ev.args[0])
                vs = v if n in ('update', 'extend') and not isinstance(
                    v, str) else [v]
                return [(c.key, x) for x in vs]
            return []
        F = replay(I, st, ps, env, ext)
        if err:
            if F.ends <= {'raise'}:
                rep.ok(rule, what, loc(fn))
            elif F.und or F.loose:
                rep.skip(rule, what, 'conditions not decided')
            else:
                rep.bad(rule, what, 'no error is raised', loc(fn))
            return
        if F.ends == {'raise'}:
            rep.bad(rule, what, 'an error is raised', loc(fn))
            return
        compare(rep, rule, what, F,
                [(k, r) for k, v in want.items() for r in v], loc(fn),
                lambda x: '%s for %s' % (x[1], x[0]))
    keys = ['Alpha', 'Al', 'Beta1', 'Gam_ma']
    case('exact name', keys, {'Al': 1}, {'Alpha': [], 'Al': ['Al'],
                                         'Beta1': [], 'Gam_ma': []})
    case('wildcards', keys, OrderedDict([('Al*', 1), ('*a*', 2)]), {
        'Alpha': ['Al*', '*a*'], 'Al': ['Al*'], 'Beta1': ['*a*'],
        'Gam_ma': ['*a*']})
    case('wildcard at the end', keys, {'*a': 1}, {
        'Alpha': ['*a'], 'Al': [], 'Beta1': [], 'Gam_ma': ['*a']})
    case('default', keys, OrderedDict([('Al*', 1), ('default', 2)]), {
        'Alpha': ['Al*'], 'Al': ['Al*'], 'Beta1': ['default'],
        'Gam_ma': ['default']})
    case('fallback', keys, OrderedDict([('fallback', 1), ('Al', 2)]), {
        'Alpha': [], 'Al': ['Al'], 'Beta1': [], 'Gam_ma': []})
    case('reference without a key', keys, {'Delta': 1}, {}, err=True)
    case('pattern without a key', keys, OrderedDict([
        ('Al', 1), ('Z*', 1)]), {}, err=True)
    case('part of a name', keys, {'Bet': 1}, {}, err=True)


# ------------------------------------------------------------- recursion --

def recursion(repo, rep):
    rule = 'resolve'
    rep.rule(rule, 'Descending into layers and views, what is given for a '
             'key goes to that key; the default and the fallback are those '
             'of the innermost level that has one; what is not matched at '
             'all gets no value of its own but these two.')
    fn = fn_of(repo, 'apply_references_recursively')
    rep.saw(fn.qual)
    MAP, LEAF, REC = ('get_key_to_references_mapping',
                      'append_to_all_leaves', 'apply_references_recursively')
    I, st, ps = run_fn(repo, fn, raw=True, opaque=lambda f: f.name in (
        MAP, LEAF, REC))
    S, R, PD, PF = [sym(a) for a in fn.params()]

    def case(what, struct, refs, mapping, pd, pf, want):
        maps = {k: list(v) for k, v in mapping.items()} if mapping else None
        if maps and 'default' in refs:
            for v in maps.values():
                if not v:
                    v.append('default')

        def ext(ev, E):
            if isinstance(ev, tuple) or ev.kind not in ('call', 'mut'):
                return []
            n = fname(ev.f)
            if n in (LEAF, REC) and ev.f.op in ('func', 'bound'):
                g = fn_of(repo, n)
                ps_ = g.params()
                a = dict(zip(ps_, ev.args))
                a.update(ev.kw)
                v = []
                for x in ps_:
                    y = E(a[x])
                    v.append(sorted(y) if isinstance(y, (
                        set, frozenset)) else y)
                return [tuple([n] + [text(x) for x in v])]
            return []
        F = replay(I, st, ps, {S: struct, R: refs, PD: pd, PF: pf}, ext, {
            MAP: lambda a, b: maps})
        compare(rep, rule, what, F, [tuple(str(x) for x in w) for w in want],
                loc(fn), lambda x: '%s(%s)' % (x[0], ', '.join(x[1:])))
    st2 = OrderedDict([('A', 'a'), ('B', 'b')])
    case('own default and fallback', st2, OrderedDict([
        ('A', 1), ('default', 2), ('fallback', 3)]),
        OrderedDict([('A', ['A']), ('B', [])]), 9, 8,
        [(REC, 'a', 1, 2, 3), (REC, 'b', 2, 2, 3)])
    case('inherited default and fallback', st2, OrderedDict([('A', 1)]),
         OrderedDict([('A', ['A']), ('B', [])]), 9, 8,
         [(REC, 'a', 1, 9, 8), (LEAF, 'b', [], 9, 8)])
    case('own fallback', st2, OrderedDict([('A', 1), ('fallback', 3)]),
         OrderedDict([('A', ['A']), ('B', [])]), 9, 8,
         [(REC, 'a', 1, 9, 3), (LEAF, 'b', [], 9, 3)])
    case('two references for a key', st2, OrderedDict([
        ('A', 1), ('*', 4), ('fallback', 3)]),
        OrderedDict([('A', ['A', '*']), ('B', ['*'])]), None, None,
        [(REC, 'a', 1, None, 3), (REC, 'a', 4, None, 3),
         (REC, 'b', 4, None, 3)])
    case('one value for a whole structure', st2, 7, None, 9, 8,
         [(LEAF, st2, 7, 9, 8)])
    case('value for a leaf', 'leaf', 7, None, 9, 8,
         [(LEAF, 'leaf', 7, 9, 8)])


# ---------------------------------------------------------------- leaves --

def leaves(repo, rep):
    rule = 'leaf'
    rep.rule(rule, 'A leaf keeps the values, the defaults and the fallbacks '
             'it is given apart; its value is what was given for it, else '
             'the default; both go into collections of its own.')
    fn = fn_of(repo, 'append_to_all_leaves')
    REC, ADD = fn.name, 'add_or_update'
    adder = repo.find_function(ADD, required=False)
    I, st, ps = run_fn(repo, fn, raw=True,
                       opaque=lambda f: f.name in (REC,))
    S, C, D, FB = [sym(a) for a in fn.params()]

    def node(**k):
        n = Rec(content=Coll(), defaults=Coll(), fallback=Coll())
        for a in ('content', 'defaults', 'fallback'):
            c = Coll(k.get(a, ()))
            c.key = a
            setattr(n, a, c)
        return n

    def isnode(t, E):
        """isinstance(x, Node)"""
        if t.op == 'call' and t.a[0] is V('ext', 'isinstance') and len(
                t.a[1]) == 2:
            k = t.a[1][1]
            if k.op == 'call' and 'namedtuple' in text(k.a[0]) or \
                    k.op == 'cls' and k.a[0].name == 'Node':
                return [isinstance(E(t.a[1][0]), Rec)]
        return None

    def ext(ev, E):
        if isinstance(ev, tuple) or ev.kind not in ('call', 'mut'):
            return []
        n = fname(ev.f)
        if n == REC and ev.f.op in ('func', 'bound'):
            a = dict(zip(fn.params(), ev.args))
            a.update(ev.kw)
            return [tuple([n] + [text(E(a[x])) for x in fn.params()])]
        if n in ('add', 'update', 'append', 'extend') and ev.args:
            c = target_of(ev, E)
            if not isinstance(c, Coll):
                return []
            v = E(ev.args[0])
            vs = v if n in ('update', 'extend') else [v]
            return [(c.key, text(x)) for x in vs]
        return []
    rep.saw(fn.qual)
    for what, c, d, f, want in (
            ('all three', 1, 2, 3, [('content', '1'), ('defaults', '2'),
                                    ('fallback', '3')]),
            ('no default', 1, None, 3, [('content', '1'),
                                        ('fallback', '3')]),
            ('no fallback', 1, 2, None, [('content', '1'),
                                         ('defaults', '2')]),
            ('default 0', 1, 0, 0, [('content', '1'), ('defaults', '0'),
                                    ('fallback', '0')]),
            ('nothing given', set(), 2, 3, [('defaults', '2'),
                                            ('fallback', '3')]),
            ('a list', [4, 5], None, None, [('content', '(4, 5)')])):
        F = replay(I, st, ps, {S: node(), C: c, D: d, FB: f}, ext,
                   leaf=isnode)
        compare(rep, rule, 'leaf given %s' % what, F, want, loc(fn),
                lambda x: '%s to its %s' % (x[1], x[0]))
    d2 = OrderedDict([('A', 'a'), ('B', 'b')])
    F = replay(I, st, ps, {S: d2, C: 1, D: 2, FB: 3}, ext, leaf=isnode)
    compare(rep, rule, 'structure', F, [
        (REC, 'a', '1', '2', '3'), (REC, 'b', '1', '2', '3')], loc(fn))

    # value of a leaf
    fn = fn_of(repo, 'evaluate_defaults')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True,
                       opaque=lambda f: f.name == fn.name or f.name in (
                           'update', 'add', '__ior__'))
    S = sym(fn.params()[0])

    def made(ev, E):
        if isinstance(ev, tuple):
            v = ev[1].val
            if v is None:
                return []
            try:
                return [('value', text(list(E(v))))]
            except (Unknown, TypeError):
                o = I.obj(st, ev[1].s(v))
                if o is not None and o.kind == 'obj':
                    return []
                raise Unknown(v)
        if ev.kind in ('call', 'mut') and fname(ev.f) in (
                'update', 'add') and ev.args:
            x = E(ev.args[0])
            return [('value', text(list(x) if fname(ev.f) == 'update'
                                   else [x]))]
        if ev.kind == 'new' and len(ev.args) == 1:
            return [('value', text(list(E(ev.args[0]))))]
        return []
    for what, n, want in (
            ('a value of its own', node(content=[1], defaults=[2]), [1]),
            ('two values', node(content=[1, 3], defaults=[2]), [1, 3]),
            ('only a default', node(defaults=[2]), [2]),
            ('nothing', node(), [])):
        F = replay(I, st, ps, {S: n}, made, leaf=isnode)
        F.may = [x for x in F.may if x[0] == 'value']
        compare(rep, rule, 'leaf with ' + what, F, [('value', text(want))],
                loc(fn), lambda x: 'values %s' % x[1])
    F = replay(I, st, ps, {S: node(defaults=[2, 3])}, made, leaf=isnode)
    if F.loose or F.und:
        rep.skip(rule, 'leaf with two defaults', 'not decided')
    else:
        rep.check(F.ends <= {'raise'} or bool([x for x in F.may if x[1] ==
                                               '[2, 3]']), rule,
                  'leaf with two defaults', 'one of them is chosen', loc(fn))
    G = replay(I, st, ps, {S: d2}, lambda ev, E: [], {
        fn.name: lambda x: 'v' + x}, leaf=isnode)
    for p in live(ps):
        E = Eval(I, st, {S: d2}, None, {fn.name: lambda x: 'v' + x})
        E.leaf = isnode
        if not E.holds(p.conds):
            continue
        value(rep, rule, 'leaves of a structure', I, st, p, E, {
            'A': 'va', 'B': 'vb'}, loc(fn))
    fn = fn_of(repo, 'get_fallbacks')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True,
                       opaque=lambda f: f.name == fn.name)
    S = sym(fn.params()[0])
    for what, x, want in (('a leaf', node(fallback=[5]), [5]),
                          ('a structure', d2, {'A': 'va', 'B': 'vb'})):
        for p in live(ps):
            E = Eval(I, st, {S: x}, None, {fn.name: lambda y: 'v' + y})
            E.leaf = isnode
            if E.holds(p.conds):
                value(rep, rule, 'fallbacks of ' + what, I, st, p, E, want,
                      loc(fn))
    # three separate collections
    fn = fn_of(repo, 'empty_dict_from')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True,
                       opaque=lambda f: f.name == fn.name)
    for p in live(ps):
        v = p.s(p.val)
        if v.op == 'call' and len(v.a[1]) + len(v.a[2]) == 3:
            parts = list(v.a[1]) + [x for k, x in v.a[2]]
            rep.check(len(set(parts)) == 3 and all(
                x.op in ('ref', 'call') for x in parts), rule, 'new leaf',
                'values, defaults and fallbacks of a leaf share a '
                'collection', loc(fn))
    fn = fn_of(repo, 'resolve_references')
    rep.saw(fn.qual)
    parts = ('empty_dict_from', 'apply_references_recursively',
             'evaluate_defaults', 'get_fallbacks')
    I, st, ps = run_fn(repo, fn, raw=True,
                       opaque=lambda f: f.name in parts)
    S, R = [sym(a) for a in fn.params()]
    for p in live(ps):
        calls_ = [(fname(e.f), e) for i, e, _ in flat(p)
                  if e.kind in ('call', 'mut') and fname(e.f) in parts]
        ap = [e for n, e in calls_ if n == parts[1]]
        em = [e for n, e in calls_ if n == parts[0]]
        ok = len(ap) == 1 and len(em) >= 1 and ap[0].args[0] is em[0].res \
            and em[0].args[0] is S and ap[0].args[1] is R and \
            all(cval(x, 1) is None for x in list(ap[0].args[2:]) + list(
                ap[0].kw.values()))
        if not ok:
            rep.bad(rule, 'resolve_references', 'the references are not '
                    'applied to one empty structure made for the call',
                    loc(fn))
            continue
        order = [n for n, e in calls_]
        v = p.s(p.val)
        ok = v.op == 'tuple' and len(v.a[0]) == 2
        if ok:
            for x, want in zip(v.a[0], parts[2:]):
                e = [e for n, e in calls_ if n == want and e.res is x]
                ok = ok and len(e) == 1 and e[0].args[0] is em[0].res
        rep.check(ok and order.index(parts[1]) < min(
            order.index(parts[2]) if parts[2] in order else 99,
            order.index(parts[3]) if parts[3] in order else 99), rule,
            'resolve_references', 'does not return the values and the '
            'fallbacks of the structure it has filled', loc(fn))
    rep.need(rule, 12, 'cases of leaves')


def value(rep, rule, what, I, st, p, E, want, where):
    try:
        got = E(p.val)
    except Unknown:
        r = p.s(p.val)
        F = replay(I, st, [p], E.env, lambda ev, E_: [
            (text(E_(ev.idx)), text(E_(ev.val)))] if not isinstance(
                ev, tuple) and ev.kind == 'setitem' and ev.obj is r else [],
            E.funcs, E.leaf)
        if not isinstance(want, dict):
            rep.skip(rule, what, 'value not understood')
            return
        compare(rep, rule, what, F, [(text(k), text(x)) for k, x in
                                     want.items()], where,
                lambda x: '%s: %s' % x)
        return
    if isinstance(want, list):
        got = list(got)
    rep.check(got == want, rule, what, 'is %s instead of %s' % (got, want),
              where)


# ------------------------------------------------------------ initialize --

class BV(dict):
    """view with named parts"""


class Shaped(object):
    def __init__(self, name, shape):
        self.name, self.shape = name, shape

    def __repr__(self):
        return self.name


class Ev(Eval):
    pass


def once(repo, rep):
    rule = 'once'
    rep.rule(rule, 'initialize() sets every parameter of every layer '
             'exactly once, from the one value found for it (an error if '
             'there is none or more than one), with its own shape and its '
             'own fallback.')
    Net = find_cls(repo, 'Network')
    fn = repo.lookup(Net, 'initialize')[1]
    if not isinstance(fn, Fn):
        raise AnalysisBroken('Network.initialize not found')
    rep.saw(fn.qual)
    EV, RES = 'evaluate_initializer', 'resolve_references'
    opq = (EV, RES, 'create_random_state', 'generate_seed',
           '_update_references_with_dict', 'get_description',
           '_replace_lists_with_array_initializers')
    I, st, ps, me = run(repo, Net, 'initialize', raw=True,
                        opaque=lambda f: f.name in opq)
    W1, B1, W2 = (Shaped('w1', (2, 3)), Shaped('b1', (2,)),
                  Shaped('w2', (5, 2)))
    buf = OrderedDict([
        ('parameters', Shaped('all', (9,))), ('gradients', Shaped('g', (9,))),
        ('L1', BV(parameters=BV([('W', W1), ('b', B1)]), outputs=BV())),
        ('In', BV(outputs=BV())),
        ('Zero', BV(parameters=None)),
        ('L2', BV(parameters=BV([('W', W2)])))])
    refs = {'default': 'x'}

    class E2(Eval):
        classes = {'BufferView': BV}

    def case(what, inits, falls, want, err=False):
        def funcs():
            return {
                '_update_references_with_dict': lambda a, b: refs,
                '_replace_lists_with_array_initializers': lambda a: a,
                'get_description': lambda a: a,
                'create_random_state': lambda *a: 'rnd',
                'generate_seed': lambda *a: 1,
                EV: evaluated,
                RES: resolved}

        def evaluated(init, shape, fallback=None, seed=None):
            return ('eval', init, tuple(shape), fallback)

        def resolved(structure, references):
            seen.append(structure)
            return (inits, falls)
        seen = []

        def leaf(t, E):
            if t.op == 'call':
                f = t.a[0]
                if f.op == 'attr' and f.a[1] == 'pop' and not t.a[1]:
                    c = list(E(f.a[0]))
                    return [c[0]]
                if f.op == 'ext' and f.a[0] in ('next', 'iter') and t.a[1]:
                    c = list(E(t.a[1][0]))
                    return [c[0] if f.a[0] == 'next' else c]
                if f is V('ext', 'isinstance') and text(
                        t.a[1][1]) == 'BufferView':
                    return [isinstance(E(t.a[1][0]), BV)]
            if t.op == 'phi' and 'Describable' in text(t.a[0]):
                return ['description']
            if t.op == 'attr' and t.a[1] == 'buffer' and t.a[0] is me:
                return [buf]
            if t.op == 'attr' and t.a[1] == 'rnd' and t.a[0] is me:
                return ['rnd']
            return None

        def ext(ev, E):
            if isinstance(ev, tuple) or ev.kind not in ('call', 'mut'):
                return []
            n = fname(ev.f)
            if n == 'set_from_numpy':
                a = list(ev.args)
                v = E(a[1] if len(a) > 1 else ev.kw['arr'])
                d = E(a[0] if a else ev.kw['mem'])
                return [(d.name, v)]
            if n in ('copy_to', 'fill') and not ev.kw:
                return [('other', text(ev.f))]
            return []
        env = {sym(fn.params()[1]): None, sym(fn.params()[2]): None}
        for e in {e for p in ps for i, e, _ in flat(p)}:
            if e.kind in ('call', 'mut') and fname(
                    e.f) == '_update_references_with_dict':
                env.update((a, {}) for a in list(e.args) + list(
                    e.kw.values()) if a.op == 'ref')
        F = replay(I, st, ps, env, ext, funcs(), leaf)
        if err:
            if F.ends <= {'raise'}:
                rep.ok(rule, what, loc(fn))
            elif F.und or F.loose:
                rep.skip(rule, what, 'conditions not decided')
            else:
                rep.bad(rule, what, 'no error is raised', loc(fn))
            return
        if F.ends == {'raise'}:
            rep.bad(rule, what, 'an error is raised', loc(fn))
            return
        twice = [f for f in F.must if F.must.count(f) > 1]
        if twice:
            rep.bad(rule, what, '%s is set twice' % (twice[0],), loc(fn))
            return
        compare(rep, rule, what, F, want, loc(fn),
                lambda x: '%s set to %s' % (x[0], x[1]))
        if seen:
            keys = {k: None if v is None else sorted(v) for k, v in
                    seen[0].items() if v is not None}
            rep.check(keys == {'L1': ['W', 'b'], 'L2': ['W']}, rule,
                      what + ': parameters resolved',
                      'initialisers are resolved for %s' % keys, loc(fn))
    ini = {'L1': {'W': ['i1'], 'b': ['i2']}, 'L2': {'W': ['i3']},
           'Zero': []}
    none = {'L1': {'W': [], 'b': []}, 'L2': {'W': []}, 'Zero': []}
    want = [('w1', ('eval', 'i1', (2, 3), None)),
            ('b1', ('eval', 'i2', (2,), None)),
            ('w2', ('eval', 'i3', (5, 2), None))]
    case('one value for each parameter', ini, none, want)
    fb = {'L1': {'W': ['f1'], 'b': ['f2']}, 'L2': {'W': []}, 'Zero': []}
    case('fallbacks', ini, fb, [
        ('w1', ('eval', 'i1', (2, 3), 'f1')),
        ('b1', ('eval', 'i2', (2,), 'f2')),
        ('w2', ('eval', 'i3', (5, 2), None))])
    two = {'L1': {'W': ['i1'], 'b': ['i2']}, 'L2': {'W': ['i3', 'i4']},
           'Zero': []}
    case('two values for a parameter', two, none, [], err=True)
    mis = {'L1': {'W': ['i1'], 'b': []}, 'L2': {'W': ['i3']}, 'Zero': []}
    case('no value for a parameter', mis, none, [], err=True)
    fb2 = {'L1': {'W': ['f1', 'f3'], 'b': []}, 'L2': {'W': []}, 'Zero': []}
    case('two fallbacks for a parameter', ini, fb2, [], err=True)
    rep.need(rule, 5, 'cases of initialisation')

    # the references come from the arguments
    for p in live(ps):
        es = {fname(e.f): e for i, e, _ in flat(p)
              if e.kind in ('call', 'mut') and fname(e.f) in opq}
        u, r, a = [es.get(k) for k in ('_update_references_with_dict', RES,
                                       opq[-1])]
        if u is None or r is None:
            continue
        ua = list(u.args) + list(u.kw.values())
        ok = ua[0] is sym(fn.params()[1])
        kwd = [I.obj(st, x) for x in ua[1:]]
        if not any(o is not None and 'kwargs' in o.attrs for o in kwd):
            rep.bad(rule, 'references', 'what is given by keyword is not '
                    'used', loc(fn))
            continue
        src = r.args[1] if len(r.args) > 1 else None
        if a is not None and src is a.res:
            src = a.args[0]
        rep.check(ok and src is u.res, rule, 'references',
                  'the references resolved are not those given',
                  loc(fn))
    helpers(repo, rep)


def helpers(repo, rep):
    rule = 'given'
    rep.rule(rule, 'What is given as dictionary and by keyword is put '
             'together; anything given twice is an error; a single value '
             'stands for the default; lists and arrays become array '
             'initialisers wherever they stand.')
    fn = fn_of(repo, '_update_references_with_dict')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True)
    A, B = [sym(a) for a in fn.params()]

    for what, a, b, want in (
            ('nothing', None, {}, {}),
            ('keywords', None, {'x': 1}, {'x': 1}),
            ('a dictionary', {'y': 2}, {}, {'y': 2}),
            ('both', {'y': 2}, {'x': 1}, {'x': 1, 'y': 2}),
            ('a value', 5, {}, {'default': 5}),
            ('a value and keywords', 5, {'x': 1}, {'x': 1, 'default': 5}),
            ('a value of 0', 0, {'x': 1}, {'x': 1, 'default': 0}),
            ('the same name twice', {'x': 2}, {'x': 1}, None),
            ('default twice', 5, {'default': 1}, None)):
        res = []

        def content(r, E, evs):
            """what a dictionary of the function holds after these events"""
            r = r if r.op == 'ref' else next(iter_ref(r, E), r)
            o = I.obj(st, r) if r.op == 'ref' else None
            if o is None or o.kind != 'dict':
                return dict(E(r))
            if 'made' in o.attrs:
                d = dict(E(o.attrs['made']))
            else:
                d = {E(k): E(x) for k, x in o.items.items()
                     if x.op != 'absent'}
            for e in evs:
                if e.kind in ('call', 'mut') and e.f.op == 'attr' and \
                        choose(e.f.a[0], E) is r and e.f.a[1] == 'update':
                    if e.args:
                        d.update(E(e.args[0]))
                    d.update({k: E(x) for k, x in e.kw.items()})
                elif e.kind == 'setitem' and choose(e.obj, E) is r:
                    d[E(e.idx)] = E(e.val)
                elif e.kind in ('call', 'mut') and e.f.op == 'attr' and \
                        choose(e.f.a[0], E) is r and e.kind == 'mut':
                    raise Unknown(r)
            return d

        def choose(v, E):
            while v.op == 'phi':
                v = v.a[1] if E(v.a[0]) else v.a[2]
            return v

        def iter_ref(v, E):
            v = choose(v, E)
            if v.op == 'ref':
                yield v

        def leaf(t, E):
            if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[
                    1] in ('keys', 'items', 'copy'):
                r = choose(t.a[0].a[0], E)
                if r.op == 'ref':
                    d = content(r, E, ())
                    return [list(d.items()) if t.a[0].a[1] == 'items'
                            else dict(d)]
            if t.op == 'ref' and I.obj(st, t) is not None and I.obj(
                    st, t).kind == 'dict':
                return [content(t, E, ())]
            return None
        for p in ps:
            E = Eval(I, st, {A: a, B: b})
            E.leaf = leaf
            if not E.holds(p.conds):
                continue
            known = all(E.known(c) for c in p.conds)
            if p.end == 'raise':
                res.append(('raise', None, known))
                continue
            evs, d = [], {}

            def walk(items):
                for x in items:
                    if hasattr(x, 'paths'):
                        return False
                    evs.append(x)
                return True
            if not walk(p.items):
                known = False
            try:
                r = p.s(p.val)
                d = content(r, E, evs) if known else {}
            except (Unknown, TypeError, ValueError):
                known = False
            res.append(('ret', d, known))
        if not res or any(not k for _, _, k in res):
            rep.skip(rule, what, 'not understood')
            continue
        if want is None:
            rep.check(all(r[0] == 'raise' for r in res), rule, what,
                      'no error is raised', loc(fn))
        else:
            rep.check(all(r[0] == 'ret' and r[1] == want for r in res),
                      rule, what, 'gives %s' % (res[0],), loc(fn))

    fn = fn_of(repo, '_replace_lists_with_array_initializers')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True, opaque=lambda f: f is fn)
    P = sym(fn.params()[0])
    AI = find_cls(repo, 'ArrayInitializer')
    for p in live(ps):
        d = OrderedDict([('a', {'k': 1}), ('b', [1, 2]), ('c', 'init')])

        def leaf(t, E):
            o = I.obj(st, t) if t.op == 'ref' else None
            if o is not None and o.kind == 'obj' and getattr(
                    o, 'cls', None) is AI:
                arr = o.attrs.get('array')
                try:
                    return [('array', E(arr))]
                except Unknown:
                    return [('array', None)]
            if t.op == 'ext' and t.a[0] == 'numpy.ndarray':
                return [bytes]
            if t.op == 'call' and t.a[0] is V('ext', 'isinstance') and \
                    t.a[1][1].op == 'tuple':
                return [isinstance(E(t.a[1][0]), list)]
            return None
        r = p.s(p.val)
        F = replay(I, st, [p], {P: d}, lambda ev, E_: [
            (E_(ev.idx), E_(ev.val))] if not isinstance(
                ev, tuple) and ev.kind == 'setitem' and ev.obj is r else [],
            {fn.name: lambda x: ('rec', x)}, leaf)
        if not F.may:
            E = Eval(I, st, {P: d}, None, {fn.name: lambda x: ('rec', x)})
            E.leaf = leaf
            try:
                F.may = F.must = list(E(r).items())
            except Unknown:
                rep.skip(rule, fn.name, 'not understood')
                continue
        compare(rep, rule, 'lists and arrays', F, [
            ('a', ('rec', {'k': 1})), ('b', ('array', [1, 2])),
            ('c', 'init')], loc(fn), lambda x: '%s: %s' % x)


# ------------------------------------------------- evaluate_initializer --

def evaluation(repo, rep):
    rule = 'evaluate'
    rep.rule(rule, 'An initialiser is asked for values of the shape of the '
             'parameter; the fallback is asked, for the same shape, exactly '
             'when the initialiser raises InitializationError; a number '
             'fills the whole shape; anything else is an error.')
    fn = fn_of(repo, 'evaluate_initializer')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True, opaque=lambda f: f.name in (
        'set_seed', '__call__') or f is fn)
    A, SH = sym(fn.params()[0]), sym(fn.params()[1])
    FB = sym(fn.params()[2])
    n = 0
    for p in live(ps):
        conds = {text(c): v for c, v in p.conds.items()}
        v = p.s(p.val) if p.val is not None else None
        run_it = [e for i, e, _ in flat(p) if e.kind in ('call', 'mut') and (
            e.f is A or fname(e.f) == '__call__' or
            e.f.op in ('ref', 'sym', 'phi'))]
        again = [e for i, e, _ in flat(p) if e.kind in ('call', 'mut') and
                 fname(e.f) == fn.name and e.f.op in ('func', 'bound')]
        n += 1
        if again and not any(v is e.res for e in again):
            rep.bad(rule, 'fallback', 'the fallback is evaluated but its '
                    'values are not used', loc(fn))
        for e in again:
            a = dict(zip(fn.params(), e.args))
            a.update(e.kw)
            rep.check(a.get(fn.params()[0]) is FB and
                      a.get(fn.params()[1]) is SH, rule, 'fallback',
                      'the fallback is evaluated as %s' % e, loc(fn))
            rep.check(conds.get('(fallback is None)') is False or
                      conds.get('(fallback is not None)') is True, rule,
                      'fallback given', 'the fallback is used without '
                      'having been given', loc(fn))
            h = [k for k in conds if 'raises' in k or 'exc' in k or
                 'InitializationError' in k]
            rep.ok(rule, 'handlers %s' % h)
        if run_it and not again:
            e = run_it[0]
            rep.check(len(e.args) == 1 and e.args[0] is SH and v is e.res or
                      v is None, rule, 'initialiser', 'the values are %s, '
                      'not those of the initialiser for the shape' % (v,),
                      loc(fn))
    used = [p for p in live(ps) for i, e, _ in flat(p)
            if e.kind in ('call', 'mut') and fname(e.f) == fn.name and
            p.val is not None and p.s(p.val) is e.res]
    if not used and not any(
            FB is x for p in live(ps) for i, e, _ in flat(p)
            if e.kind in ('call', 'mut') and fname(e.f) != fn.name
            for x in [e.f, *e.args, *e.kw.values()]):
        rep.bad(rule, 'fallback', 'the values of the fallback are never '
                'returned', loc(fn))
    handlers(repo, rep, fn, rule)
    shapes_of(repo, rep)


def handlers(repo, rep, fn, rule):
    """exactly InitializationError is caught around the evaluation"""
    import ast
    tries = [x for x in ast.walk(fn.node) if isinstance(x, ast.Try) and any(
        isinstance(y, ast.Call) for b in x.body for y in ast.walk(b))]
    for t in tries:
        for h in t.handlers:
            nm = ast.unparse(h.type) if h.type is not None else 'everything'
            rep.check(nm.split('.')[-1] == 'InitializationError', rule,
                      'what is caught', 'the fallback is used on %s, not '
                      'only when the initialiser declines' % nm, loc(fn))
            # without a fallback the error goes on
            ok = any(isinstance(y, ast.Raise) for b in h.body
                     for y in ast.walk(b)) or any(
                isinstance(y, ast.Raise) for y in ast.walk(fn.node)
                if isinstance(y, ast.Raise) and y.exc is None)
            rep.check(ok, rule, 'no fallback', 'without a fallback the '
                      'error is swallowed', loc(fn))
    if not tries:
        rep.bad(rule, 'what is caught', 'an initialiser that declines is '
                'not replaced by the fallback', loc(fn))


# ------------------------------------------------- shapes of initialisers --

SAME = ('tanh', 'numpy.abs', 'numpy.sign', 'numpy.sqrt', 'numpy.exp',
        'numpy.tanh', 'abs', 'numpy.clip', 'numpy.asarray', 'numpy.array',
        'numpy.copy', 'numpy.ascontiguousarray', 'numpy.zeros_like',
        'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like',
        'numpy.float32', 'numpy.float64')
SHAPED = ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full')
SCALARF = ('numpy.prod', 'max', 'min', 'len', 'sum', 'float', 'int',
           'numpy.max', 'numpy.min', 'numpy.sum', 'numpy.mean', 'range',
           'math.sqrt', 'math.exp', 'abs', 'numpy.log', 'bool')


class Shapes(object):
    """'S': the requested shape, '0': a number, None: unknown,
    'X': certainly something else"""

    def __init__(self, I, st, p, sh):
        self.I, self.st, self.p, self.sh = I, st, p, sh

    def whole(self, args, kw=()):
        """the arguments say 'the requested shape'"""
        if len(args) == 1 and args[0].op == 'star' and args[0].a[0] is \
                self.sh:
            return True
        if args and args[0] is self.sh:
            return True
        if dict(kw).get('size') is self.sh or dict(kw).get(
                'shape') is self.sh:
            return True
        dims = [self.dim(a) for a in args]
        if dims and None not in dims and dims == list(range(len(dims))):
            return self.rank(len(dims))
        if args and args[0].op == 'tuple':
            return self.whole(list(args[0].a[0]))
        return False

    def dim(self, v):
        if v.op == 'idx' and v.a[0] is self.sh:
            i = cval(v.a[1], None)
            return i if isinstance(i, int) else None
        if v.op == 'star' and v.a[0].op == 'idx' and v.a[0].a[
                0] is self.sh and v.a[0].a[1].op == 'slice':
            return cval(v.a[0].a[1].a[0], None)
        return None

    def rank(self, n):
        """the path has established len(shape) == n"""
        for c, val in self.p.conds.items():
            t = text(c)
            if t in ('(len(shape) == %d)' % n, '(%d == len(shape))' % n) \
                    and val or t in ('(len(shape) != %d)' % n,) and not val:
                return True
        return None

    def square(self):
        for c, val in self.p.conds.items():
            t = text(c)
            if t == '(shape[0] == shape[1])' and val or \
                    t == '(shape[0] != shape[1])' and not val:
                return True
        return False

    def __call__(self, v, d=0):
        v = self.p.s(v) if v.op in ('phi', 'ref') else v
        if d > 30:
            return None
        op, a = v.op, v.a
        if op == 'const':
            return '0'
        if op in ('bin', 'cmp', 'aug'):
            x, y = self(a[1], d + 1), self(a[2], d + 1)
            if 'X' in (x, y):
                return 'X'
            if None in (x, y):
                return None
            return 'S' if 'S' in (x, y) else '0'
        if op == 'un':
            return self(a[1], d + 1)
        if op == 'phi':
            x, y = self(a[1], d + 1), self(a[2], d + 1)
            return x if x == y else None
        if op == 'attr':
            if a[1] == 'T':
                x = self(a[0], d + 1)
                return x if x != 'S' or self.square() else 'X'
            if a[1] in ('size', 'ndim'):
                return '0'
            if a[1] == 'array':
                # guarded by a comparison of shapes
                t = '(%s.shape == shape)' % text(v)
                for c, val in self.p.conds.items():
                    if text(c) in (t, '(shape == %s.shape)' % text(v)) and \
                            val or text(c) in (
                                '(%s.shape != shape)' % text(v),) and \
                            not val:
                        return 'S'
                return 'X'
            if a[1] == 'shape':
                return None
            if a[0].op == 'ref' or a[0].op == 'sym':
                return '0'
            return None
        if op == 'sym':
            return None
        if op == 'idx':
            if a[0] is self.sh:
                return '0'
            o = self.I.obj(self.st, a[0])
            if o is not None and o.kind == 'dict':
                ks = {self(x, d + 1) for x in o.items.values()}
                return '0' if ks == {'0'} else None
            return None
        if op == 'ref':
            o = self.I.obj(self.st, v)
            return None
        if op == 'call':
            f, args, kw, u = a
            n = fname(f)
            if f.op == 'ext':
                if n in SHAPED:
                    w = self.whole(args[:1], kw)
                    return 'S' if w else 'X' if w is False and args and \
                        args[0].op != 'call' else None
                if n == 'numpy.eye' or n == 'numpy.identity':
                    if n == 'numpy.eye' and len(args) == 2 and [
                            self.dim(x) for x in args] == [0, 1]:
                        return 'S' if self.rank(2) else 'X'
                    if len(args) == 1 and self.dim(args[0]) is not None:
                        return 'S' if self.square() and self.rank(2) \
                            else 'X'
                    return 'X' if len(args) == 2 and None not in [
                        self.dim(x) for x in args] else None
                if n in SAME and args:
                    return self(args[0], d + 1)
                if n in ('numpy.reshape',) and len(args) == 2:
                    return 'S' if self.whole(args[1:]) else None
                if n in SCALARF or n.startswith('math.'):
                    return '0'
                if n in ('numpy.multiply', 'numpy.add', 'numpy.divide',
                         'numpy.subtract', 'numpy.dot'):
                    if n == 'numpy.dot':
                        return None
                    ks = [self(x, d + 1) for x in args]
                    return 'S' if 'S' in ks and None not in ks and \
                        'X' not in ks else None
                return None
            if f.op in ('func', 'bound') and f.a[0].name == \
                    'evaluate_initializer':
                return 'S' if len(args) > 1 and args[1] is self.sh else 'X'
            if n in ('rand', 'randn'):
                w = self.whole(args, kw)
                return 'S' if w else 'X' if w is False else None
            if n in ('random_sample', 'uniform', 'normal',
                     'standard_normal', 'random'):
                kws = dict(kw)
                if 'size' in kws:
                    return 'S' if kws['size'] is self.sh else None
                if n in ('random_sample', 'standard_normal', 'random') and \
                        args:
                    return 'S' if args[0] is self.sh else None
                if n in ('uniform', 'normal') and len(args) == 3:
                    return 'S' if args[2] is self.sh else None
                return '0' if n in ('uniform', 'normal') and len(
                    args) <= 2 else None
            if n == 'reshape':
                return 'S' if self.whole(args, kw) else None
            if n in ('astype', 'copy', 'clip', 'round'):
                return self(f.a[0], d + 1) if f.op == 'attr' else None
            if n in ('max', 'min', 'sum', 'mean', 'std', 'prod') and not \
                    args and not kw:
                return '0'
            if n in ('generate_seed',):
                return '0'
        return None


def shapes_of(repo, rep):
    rule = 'shape'
    rep.rule(rule, 'Every initialiser of the library returns values of '
             'exactly the shape it is asked for, or raises.')
    base = find_cls(repo, 'Initializer')
    n = 0
    for c in [base] + repo.subclasses(base):
        if '.tests' in c.mod.name:
            continue
        own, fn = repo.lookup(c, '__call__')
        if not isinstance(fn, Fn) or own is base:
            continue
        rep.saw(fn.qual)
        try:
            I, st, ps, me = run(repo, c, '__call__', raw=True,
                                opaque=lambda f: f.name in (
                                    'evaluate_initializer',
                                    'generate_seed'))
        except Exception as e:                       # noqa
            rep.skip(rule, c.name, str(e)[:80])
            continue
        sh = sym(fn.params()[1])
        good = live(ps)
        if not good:
            rep.bad(rule, c.name, 'never returns values', loc(fn))
        for p in good:
            if p.val is None or cval(p.val, 1) is None:
                rep.bad(rule, c.name, 'returns nothing', loc(fn))
                continue
            k = Shapes(I, st, p, sh)(p.val)
            n += 1
            if k == 'S':
                rep.ok(rule, c.name, loc(fn))
            elif k in ('X', '0'):
                rep.bad(rule, c.name, 'returns %s, which need not have the '
                        'requested shape' % text(p.s(p.val))[:100], loc(fn))
            else:
                rep.skip(rule, c.name, 'shape of %s not known' %
                         text(p.val)[:80])
    # where an array is filled
    for name in ('NumpyHandler', 'PyCudaHandler'):
        c = find_cls(repo, name)
        own, fn = repo.lookup(c, 'set_from_numpy')
        I, st, ps, me = run(repo, c, 'set_from_numpy', raw=True)
        m, a = [sym(x) for x in fn.params()[1:3]]
        want = {'(%s.shape == %s.shape)' % (m, a),
                '(%s.shape == %s.shape)' % (a, m)}
        for p in live(ps):
            ok = any(text(k) in want and v or text(k).replace(
                '!=', '==') in want and '!=' in text(k) and not v
                for k, v in p.conds.items())
            rep.check(ok, rule, name + '.set_from_numpy', 'values of '
                      'another shape are accepted and spread over the '
                      'array', loc(fn))
    rep.need(rule, 12, 'initialisers')


def p50(repo, rep, tier):
    matching(repo, rep)
    recursion(repo, rep)
    leaves(repo, rep)
    once(repo, rep)
    evaluation(repo, rep)
