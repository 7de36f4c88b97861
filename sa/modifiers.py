"""P51: value modifiers."""
from collections import OrderedDict

from .arch import compare, fn_of
from .elem import Undecided, equal
from .evalt import Eval, Rec, replay
from .prog import Unknown, find_cls, flat, fname, live, recv, run, run_fn
from .repo import AnalysisBroken, Fn
from .store import Store, value_of
from .structure import sym
from .terms import V, cval
from .valid import loc

BV = dict


class Mod(object):
    def __init__(self, name, grad=False):
        self.name, self.grad = name, grad
        self.rnd = Rec()

    def __repr__(self):
        return self.name


def applied(repo, rep):
    """calls of the installed modifiers"""
    rule = 'applied'
    rep.rule(rule, 'every installed modifier is called once per application, '
             'in list order, with the handler and exactly the array of its '
             'own layer and view (gradient modifiers: with the parameters '
             'and the gradients of it)')
    Net = find_cls(repo, 'Network')
    buf = OrderedDict()
    buf['parameters'], buf['gradients'] = 'P', 'G'
    for l, vs in (('L1', ('W', 'b')), ('L2', ('W',))):
        buf[l] = {k: {v: '%s:%s.%s' % (k[0].upper(), l, v) for v in vs}
                  for k in ('parameters', 'gradients')}
    a, b, c, d = Mod('a'), Mod('b', True), Mod('c'), Mod('d', True)
    for meth, attr, mods in (
            ('apply_weight_modifiers', 'weight_modifiers', OrderedDict([
                ('L2', OrderedDict([('W', [a])])),
                ('L1', OrderedDict([('b', [c, a]), ('W', [a, c, b])]))])),
            ('apply_gradient_modifiers', 'gradient_modifiers', OrderedDict([
                ('L2', OrderedDict([('W', [b])])),
                ('L1', OrderedDict([('b', [c, b]), ('W', [d, a, b])]))]))):
        own, fn = repo.lookup(Net, meth)
        if not isinstance(fn, Fn):
            raise AnalysisBroken('Network.%s not found' % meth)
        rep.saw(fn.qual)
        I, st, ps, me = run(repo, Net, meth, raw=True,
                            opaque=lambda f: f.name in (
                                'generate_seed', 'set_seed', 'seed'))

        def leaf(t, E):
            if t.op == 'attr' and t.a[0] is me:
                return {'buffer': [buf], 'handler': ['H'], 'rnd': [Rec()],
                        attr: [mods]}.get(t.a[1])
            if t.op == 'call' and t.a[0] is V('ext', 'isinstance'):
                x, k = E(t.a[1][0]), t.a[1][1]
                if isinstance(x, Mod) and k.op == 'cls':
                    if k.a[0].name == 'GradientModifier':
                        return [x.grad]
                    if k.a[0].name == 'ValueModifier':
                        return [not x.grad]
            return None

        def ext(ev, E):
            if isinstance(ev, tuple) or ev.kind not in ('call', 'mut'):
                return []
            f = ev.f
            if f.op == 'attr' and f.a[1] == '__call__':
                f = f.a[0]
            if f.op in ('ext', 'func', 'bound', 'cls', 'attr'):
                return []
            m = E(f)
            if not isinstance(m, Mod):
                return []
            xs = []
            for x in ev.args:
                if x.op == 'star':
                    xs += list(E(x.a[0]))
                else:
                    xs.append(E(x))
            kw = {k: E(x) for k, x in ev.kw.items()}
            for k in ('handler', 'view', 'parameters', 'gradients'):
                if k in kw:
                    xs.append(kw.pop(k))
            return [(m.name,) + tuple(xs)]
        F = replay(I, st, ps, {}, ext, {'generate_seed': lambda *a: 1,
                                        'set_seed': lambda *a: None,
                                        'seed': lambda *a: None}, leaf)
        want = []
        for l, views in mods.items():
            for v, ms in views.items():
                for m in ms:
                    g = meth == 'apply_gradient_modifiers'
                    arg = ['%s:%s.%s' % ('G' if g else 'P', l, v)]
                    if g and m.grad:
                        arg = ['P:%s.%s' % (l, v)] + arg
                    want.append((m.name, 'H') + tuple(arg))
        compare(rep, rule, meth, F, want, loc(fn),
                lambda x: 'a call of %s with %s' % (x[0], x[1:]))
        if F.und or F.loose:
            continue
        for l in ('L1', 'L2'):
            for v in ('W', 'b'):
                seq = [f for f in F.must if f[-1].endswith(l + '.' + v)]
                exp = [f for f in want if f[-1].endswith(l + '.' + v)]
                if sorted(seq) == sorted(exp):
                    rep.check(seq == exp, rule, '%s: order' % meth,
                              'the modifiers of an array are called in the '
                              'order %s instead of %s' % (
                                  [x[0] for x in seq], [x[0] for x in exp]),
                              loc(fn))
                elif set(seq) == set(exp):
                    rep.bad(rule, '%s: once' % meth, 'a modifier is called '
                            'more than once', loc(fn))
    rep.need(rule, 2, 'applications')


def when(repo, rep):
    rule = 'when'
    rep.rule(rule, 'gradient modifiers run once, after the backward pass of '
             'every layer and nothing touches the gradients afterwards; the '
             'trainer runs weight modifiers once after every step and '
             'before any hook sees the weights')
    Net = find_cls(repo, 'Network')
    own, fn = repo.lookup(Net, 'backward_pass')
    rep.saw(fn.qual)
    I, st, ps, me = run(repo, Net, 'backward_pass', raw=True,
                        opaque=lambda f: f.name in (
                            'apply_gradient_modifiers', 'backward_pass',
                            'clear_backward_buffers') and f is not fn)
    for p in live(ps):
        evs = flat(p)
        ap = [i for i, e, l in evs if e.kind in ('call', 'mut') and fname(
            e.f) == 'apply_gradient_modifiers' and not l]
        lo = [i for i, e, l in evs if e.kind in ('call', 'mut') and fname(
            e.f) == 'apply_gradient_modifiers' and l]
        bw = [i for i, e, l in evs if e.kind in ('call', 'mut') and fname(
            e.f) in ('backward_pass', 'clear_backward_buffers')]
        if lo or len(ap) > 1:
            rep.bad(rule, 'backward_pass', 'gradient modifiers run more '
                    'than once', loc(fn))
        elif not ap:
            rep.bad(rule, 'backward_pass', 'a backward pass ends without '
                    'gradient modifiers', loc(fn))
        else:
            rep.check(bool(bw) and max(bw) < ap[0], rule, 'backward_pass',
                      'gradient modifiers run before the backward pass is '
                      'complete', loc(fn))
    T = find_cls(repo, 'Trainer')
    own, fn = repo.lookup(T, 'train')
    rep.saw(fn.qual)
    I, st, ps, me = run(repo, T, 'train', raw=True, opaque=lambda f:
                        f.name != 'train')
    n = 0
    seen = set()
    for p in live(ps):
        for i, e, loops in flat(p):
            if not (e.kind in ('call', 'mut') and fname(e.f) == 'run' and
                    loops):
                continue
            q = loops[-1][1]
            if id(q) in seen:
                continue
            seen.add(id(q))
            if q.end == 'raise':
                continue
            es = flat(q)
            r = [j for j, x, l in es if x is e]
            w = [j for j, x, l in es if x.kind in ('call', 'mut') and fname(
                x.f) == 'apply_weight_modifiers']
            hk = [j for j, x, l in es if x.kind in ('call', 'mut') and
                  fname(x.f) == '_emit_hooks']
            n += 1
            if len(w) != 1:
                rep.bad(rule, 'train', 'weight modifiers run %s after a '
                        'step' % ('not at all' if not w else 'more than '
                                  'once'), loc(fn))
            else:
                rep.check(w[0] > r[-1], rule, 'train', 'weight modifiers '
                          'run before the update they should correct',
                          loc(fn))
                rep.check(not hk or w[0] < min(hk), rule, 'train: hooks',
                          'hooks see weights that have not been through '
                          'the modifiers', loc(fn))
    if not n:
        rep.skip(rule, 'train', 'no call of run() in a loop of train')


def installed(repo, rep):
    """set_*_modifiers"""
    rule = 'installed'
    rep.rule(rule, 'modifiers are resolved against the parameters '
             '(gradients) of all layers and all of them are installed, for '
             'the view they were given for and in the order given')
    Net = find_cls(repo, 'Network')
    OPQ = ('resolve_references', '_update_references_with_dict',
           'prune_view_references', 'order_and_copy_modifiers')
    buf = OrderedDict()
    buf['parameters'], buf['gradients'] = 'P', 'G'
    for l, vs in (('L1', ('W', 'b')), ('L2', ('W',))):
        buf[l] = {k: {v: '%s:%s.%s' % (k[0].upper(), l, v) for v in vs}
                  for k in ('parameters', 'gradients', 'outputs')}
    buf['In'] = {'outputs': {}}
    for meth, attr, kind in (
            ('set_weight_modifiers', 'weight_modifiers', 'parameters'),
            ('set_gradient_modifiers', 'gradient_modifiers', 'gradients')):
        own, fn = repo.lookup(Net, meth)
        if not isinstance(fn, Fn):
            raise AnalysisBroken('Network.%s not found' % meth)
        rep.saw(fn.qual)
        I, st, ps, me = run(repo, Net, meth, raw=True,
                            opaque=lambda f: f.name in OPQ)
        given = sym(fn.params()[1])
        got = []

        def leaf(t, E):
            if t.op == 'attr' and t.a[0] is me and t.a[1] == 'buffer':
                return [buf]
            if t.op == 'ref':
                o = I.obj(st, t)
                if o is not None and 'kwargs' in o.attrs:
                    return ['KW']
            if t.op == 'call' and t.a[0] is V('ext', 'isinstance') and \
                    'BufferView' in str(t.a[1][1]):
                return [isinstance(E(t.a[1][0]), dict)]
            return None

        def resolved(s, refs):
            got.append({k: v for k, v in s.items()})
            return ('mods', refs), ('fall', refs)
        funcs = {'resolve_references': resolved,
                 '_update_references_with_dict': lambda a, b: (a, b),
                 'prune_view_references': lambda x: x if x[0] == 'mods'
                 else {},
                 'order_and_copy_modifiers': lambda x: ('ordered', x)}

        def ext(ev, E):
            if isinstance(ev, tuple):
                return []
            if ev.kind == 'setattr' and ev.obj is me:
                return [(ev.name, E(ev.val))]
            return []
        F = replay(I, st, ps, {given: 'GIVEN'}, ext, funcs, leaf)
        compare(rep, rule, meth, F, [(attr, ('ordered', (
            'mods', ('GIVEN', 'KW'))))], loc(fn),
            lambda x: '%s = %s' % x)
        if got:
            rep.check(got[0] == {l: buf[l][kind] for l in ('L1', 'L2')},
                      rule, meth + ': resolved against', 'the modifiers are '
                      'resolved against %s' % (got[0],), loc(fn))
    # nothing is lost and the order is kept
    fn = fn_of(repo, 'order_and_copy_modifiers')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True,
                       opaque=lambda f: f.name == 'copy_modifier_for')
    A = sym(fn.params()[0])
    refs = OrderedDict([('L1', OrderedDict([
        ('W', ['b', ('c', 'a'), 'd']), ('b', [['x', 'y']])])),
        ('L2', OrderedDict([('W', ['z'])]))])

    def ext2(ev, E):
        if isinstance(ev, tuple):
            return []
        if ev.kind == 'setitem':
            return [('key', E(ev.idx))]
        if ev.kind in ('call', 'mut') and fname(ev.f) in (
                'append', 'extend') and ev.args:
            v = E(ev.args[0])
            return [v] if fname(ev.f) == 'append' else list(v)
        if ev.kind in ('call', 'mut') and fname(ev.f) in (
                'insert', 'reverse', 'sort', 'pop', 'remove'):
            raise Unknown(ev.f)
        return []
    funcs = {'copy_modifier_for': lambda m, l, v: ('copy', m, l, v)}
    F = replay(I, st, ps, {A: refs}, ext2, funcs)
    want = [('copy', 'b', 'L1', 'W'), ('copy', 'c', 'L1', 'W'),
            ('copy', 'a', 'L1', 'W'), ('copy', 'd', 'L1', 'W'),
            ('copy', 'x', 'L1', 'b'), ('copy', 'y', 'L1', 'b'),
            ('copy', 'z', 'L2', 'W')]
    cp = [f for f in F.must if f[0] == 'copy']
    if F.und or F.loose or not cp:
        rep.skip(rule, fn.name, 'not understood')
    else:
        compare(rep, rule, fn.name, F, want + [
            ('key', k) for k in ('L1', 'L2', 'W', 'b')], loc(fn), str)
        if sorted(cp) == sorted(want):
            rep.check(cp == want, rule, fn.name + ': order', 'the modifiers '
                      'of an array are put in another order than given',
                      loc(fn))
        elif set(cp) == set(want):
            rep.bad(rule, fn.name + ': once', 'a modifier is installed '
                    'twice', loc(fn))
    fn = fn_of(repo, 'prune_view_references')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True)
    A = sym(fn.params()[0])
    refs = OrderedDict([('L1', OrderedDict([('W', ['m']), ('b', [])])),
                        ('L2', OrderedDict([('V', [])])), ('N', None)])

    def ext3(ev, E):
        if not isinstance(ev, tuple) and ev.kind == 'setitem':
            try:
                return [(E(ev.idx), str(E(ev.val)))]
            except Unknown:
                return [(E(ev.idx), '')]
        return []
    F = replay(I, st, ps, {A: refs}, ext3)
    views = [f for f in F.may if f[0] == 'W']
    if views or not F.und:
        # the entry of a layer depends on what was collected
        rep.check(('W', "['m']") in F.may, rule, fn.name, 'modifiers of a '
                  'view are dropped', loc(fn))
    else:
        rep.skip(rule, fn.name, 'not understood')
    # collections that keep the order
    for name in ('get_key_to_references_mapping', 'empty_dict_from',
                 'evaluate_defaults'):
        fn = fn_of(repo, name)
        rep.saw(fn.qual)
        I, st, ps = run_fn(repo, fn, raw=True,
                           opaque=lambda f: f is fn or f.name in (
                               'get_regex_for_reference',))
        bad = None
        for p in live(ps):
            for v in results(I, st, p, p.val):
                o = I.obj(st, v)
                if o is not None and o.kind == 'set':
                    bad = v
        rep.check(bad is None, rule, name + ': order', 'collects references '
                  'in a set: the order in which they were given is lost',
                  loc(fn))
    OS = find_cls(repo, 'OrderedSet') if any(
        c.name == 'OrderedSet' for c in repo.classes()) else None
    if OS is not None:
        it = repo.lookup(OS, '__iter__')[1]
        I, st, ps, me = run(repo, OS, '__iter__', raw=True)
        for p in live(ps):
            t = str(p.s(p.val)) if p.val is not None else ''
            rep.check('sorted' not in t and 'reversed' not in t, rule,
                      'OrderedSet', 'is not iterated in the order of '
                      'insertion', loc(it))


def results(I, st, p, v, d=0):
    """objects that make up a result"""
    if v is None or d > 4:
        return
    v = p.s(v)
    yield v
    if v.op == 'call':
        for x in v.a[1]:
            for y in results(I, st, p, x, d + 1):
                yield y
    if v.op == 'tuple':
        for x in v.a[0]:
            for y in results(I, st, p, x, d + 1):
                yield y
    o = I.obj(st, v) if v.op == 'ref' else None
    if o is not None and o.kind == 'dict':
        for x in o.items.values():
            for y in results(I, st, p, x, d + 1):
                yield y
        if o.more is not None:
            for y in results(I, st, p, o.more, d + 1):
                yield y


# --------------------------------------------------------------- effects --
# class: formulas one of which the array must follow, assumptions
PROMISE = {
    'ClipValues': (['clip(x, low, high)'], ['low <= high']),
    'MaskValues': (['x * mask'], []),
    'ConstrainL2Norm': (['x / clip(sqrt(sum1(x * x)) / limit, 1, BIG)',
                         'x / max(sqrt(sum1(x * x)) / limit, 1)',
                         'x / clip(sqrt(sum1(x * x)) / limit, 1, BIG)'], []),
    'FreezeValues': (['weights'], []),
    'L1Decay': (['g + factor * sign(p)'], []),
    'L2Decay': (['g + factor * p'], []),
}


def effects(repo, rep):
    rule = 'effect'
    rep.rule(rule, 'a modifier writes its own array (a gradient modifier: '
             'the gradients) and nothing else but memory of its own, on '
             'every path')
    prom = 'promise'
    rep.rule(prom, 'what a modifier leaves in the array equals the formula '
             'it promises, in every case of its conditions')
    base = find_cls(repo, 'Handler')
    n = 0
    for root, grad in (('ValueModifier', False), ('GradientModifier', True)):
        R = find_cls(repo, root)
        for c in repo.subclasses(R):
            if '.tests' in c.mod.name:
                continue
            own, fn = repo.lookup(c, '__call__')
            if not isinstance(fn, Fn) or own is R:
                continue
            rep.saw(fn.qual)
            n += 1
            one(repo, rep, rule, prom, c, fn, grad, base)
    rep.need(rule, 5, 'modifiers')


def init_names(repo, c):
    own, fn = repo.lookup(c, '__init__')
    return fn.params()[1:] if isinstance(fn, Fn) else []


def one(repo, rep, rule, prom, c, fn, grad, base):
    I, st, ps, me = run(repo, c, '__call__', raw=True)
    prm = fn.params()
    H = sym(prm[1])
    names = {}
    if grad:
        names[sym(prm[2])], names[sym(prm[3])] = 'p', 'g'
        target, rd = sym(prm[3]), sym(prm[2])
    else:
        names[sym(prm[2])] = 'x'
        target, rd = sym(prm[2]), None
    for p in live(ps):
        S = Store(I, st, p, names, base, repo)
        own = set()
        attr_now = {}
        first = {}
        dev = {}

        def walk(items):
            for x in items:
                if hasattr(x, 'paths'):
                    S.unsure.append('a loop')
                    continue
                ev = x
                if ev.kind == 'setattr' and ev.obj is me:
                    attr_now[ev.name] = ev.val
                    a = V('attr', me, ev.name)
                    v = S.arr(ev.val)
                    S.mem[a] = S.e(ev.val)
                    own.add(v)
                    dev[ev.name] = v
                    continue
                if ev.kind == 'setattr':
                    rep.bad(rule, c.name, 'sets %s.%s' % (ev.obj, ev.name),
                            ev.where())
                S.do(ev)
                if ev.kind in ('call', 'mut') and S.is_op(ev) is not None \
                        and fname(ev.f) in ('zeros', 'ones', 'allocate',
                                            'create_from_numpy',
                                            'get_numpy_copy'):
                    own.add(p.s(ev.res))
                elif ev.kind in ('call', 'mut') and S.is_op(ev) is None and \
                        any(names.get(S.arr(a)) for a in list(ev.args) +
                            list(ev.kw.values())) and ev.f.op != 'ext':
                    if fname(ev.f) in ('format', 'message', 'reshape'):
                        continue
                    S.unsure.append('the call of %s' % ev.f)
        walk(p.items)
        # which arrays of its own it reads: attributes stand for themselves
        for a, ev in S.written:
            if a is target or a in own or a.op == 'attr' and a.a[0] is me:
                continue
            o = I.obj(st, a) if a.op == 'ref' else None
            if a is rd:
                rep.bad(rule, c.name, 'a modifier of the gradients changes '
                        'the parameters', ev.where())
            elif a.op in ('sym', 'attr', 'idx'):
                rep.bad(rule, c.name, 'writes %s' % a, ev.where())
        if S.unsure:
            rep.skip(rule, c.name, S.unsure[0])
            continue
        w = [ev for a, ev in S.written if a is target]
        if not w:
            # biases are documented to be ignored
            if c.name == 'ConstrainL2Norm':
                rep.check(low_rank(p, target), prom, c.name + ': ignored',
                          'weights with two or more dimensions are left '
                          'unconstrained', loc(fn))
            elif c.name in PROMISE:
                rep.bad(rule, c.name, 'leaves its array untouched for some '
                        'arguments', loc(fn))
            continue
        rep.ok(rule, c.name, loc(fn))
        if c.name not in PROMISE:
            continue
        got = S.mem[target]
        got = named(repo, c, got, S, me, p)
        srcs, assume = PROMISE[c.name]
        if c.name == 'FreezeValues':
            wv = attr_now.get('weights')
            if wv is not None:
                # remembers the first weights it sees
                e0 = S.mem.get(V('attr', me, 'weights'))
                rep.check(e0 == ('var', 'x'), prom, c.name + ': remembered',
                          'the weights remembered are not those it first '
                          'saw', loc(fn))
                srcs = ['x', 'weights']
        verdict = None
        try:
            rs = [equal(got, value_of(s), [value_of(a) for a in assume])
                  for s in srcs]
            verdict = None if None in rs else rs[0]
        except (Undecided, OverflowError, KeyError) as e:
            rep.skip(prom, c.name, str(e)[:80])
            continue
        if verdict and unknown(got):
            rep.skip(prom, c.name, 'value not understood')
            continue
        rep.check(verdict is None, prom, c.name, 'the array is not %s '
                  'afterwards: %s' % (srcs[0], verdict), loc(fn))
        reuse(rep, prom, c, p, S, me, H, dev, fn)


def low_rank(p, target):
    from .prog import OPS
    t = str(target)
    for c, v in p.conds.items():
        s = str(c)
        if s == '(len(%s.shape) < 2)' % t and v or \
                s == '(%s.ndim < 2)' % t and v or \
                s == '(len(%s.shape) == 1)' % t and v or \
                s == '(%s.ndim == 1)' % t and v or \
                s == '(len(%s.shape) <= 1)' % t and v or \
                s == '(1 < len(%s.shape))' % t and not v or \
                s == '(1 < %s.ndim)' % t and not v or \
                s == '(2 <= len(%s.shape))' % t and not v:
            return True
    return False


def unknown(e):
    if isinstance(e, (tuple, list)):
        if len(e) == 2 and e[0] == 'var':
            import re
            return bool(re.match(r'(part|memory)\d', e[1]))
        return any(unknown(x) for x in e)
    return False


def named(repo, c, e, S, me, p):
    """attributes by name; a copy on the device stands for the original"""
    orig = {'device_mask': 'mask', 'device_weights': 'weights'}

    def nm(x):
        if isinstance(x, list):
            return [nm(y) for y in x]
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == 'var' and isinstance(x[1], str):
            s = x[1]
            pre = str(me) + '.'
            if s.startswith(pre):
                s = s[len(pre):]
                return ('var', orig.get(s, s))
            if 'finfo' in s and s.endswith('.max') or s in (
                    'numpy.inf', 'numpy.Inf', "float('inf')"):
                return ('var', 'BIG')
            return x
        return tuple(nm(y) for y in x)
    return nm(e)


def reuse(rep, rule, c, p, S, me, H, dev, fn):
    """a copy on the device that is used again belongs to this handler"""
    for name in ('device_mask', 'device_weights'):
        if name in dev:
            # freshly made: holds the original
            a = dev[name]
            want = ('var', name.replace('device_', ''))
            e = named(None, c, S.mem.get(a, ('var', '?')), S, me, p)
            if e == ('var', 'x') and name == 'device_weights':
                continue
            rep.check(e == want, rule, c.name + ': copy', 'the copy on the '
                      'device does not hold the %s' % want[1], loc(fn))
            continue
        used = [ev for ev in p.events() if ev.kind in ('call', 'mut') and
                any(S.arr(a) is V('attr', me, name) for a in
                    list(ev.args) + list(ev.kw.values()))]
        used = [ev for ev in used if S.is_op(ev) is not None]
        if used:
            rep.check(any(str(H) in str(k) and name in str(k)
                          for k in p.conds), rule, c.name + ': handler',
                      'reuses %s without checking that it belongs to the '
                      'current handler' % name, loc(fn))


def p51(repo, rep, tier):
    applied(repo, rep)
    when(repo, rep)
    installed(repo, rep)
    effects(repo, rep)
