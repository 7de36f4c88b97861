"""P64: schedules."""
from .evalt import EXT, Eval
from .interp import Interp, State
from .prog import Unknown, find_cls, flat, fname, live, run, top
from .repo import AnalysisBroken, Fn
from .structure import sym
from .terms import V, const, subterms
from .valid import loc

INF = float('inf')
EXT.update({'numpy.max': lambda x, *a: max(x) if isinstance(
    x, (list, tuple)) else x, 'numpy.min': lambda x, *a: min(x) if isinstance(
        x, (list, tuple)) else x,
    'numpy.power': lambda a, b: a ** b, 'pow': pow,
    'math.pow': lambda a, b: float(a) ** b,
    'numpy.clip': lambda x, a, b: min(max(x, a), b),
    'numpy.float64': float, 'numpy.float32': float,
    'numpy.searchsorted': lambda a, v, side='left': len(
        [x for x in a if x < v or side == 'right' and x == v]),
    'bisect.bisect_right': lambda a, v: len([x for x in a if x <= v]),
    'bisect.bisect': lambda a, v: len([x for x in a if x <= v]),
    'bisect.bisect_left': lambda a, v: len([x for x in a if x < v])})


def linear(a, b, n):
    def f(e, u, ts, iv):
        k = (e if ts == 'epoch' else u) // iv
        return b if k >= n else a + (b - a) / n * k
    return f


def exponential(a, f, lo=-INF, hi=INF):
    return lambda e, u, ts, iv: min(hi, max(lo, a * f ** (
        (e if ts == 'epoch' else u) // iv)))


def multistep(a, steps, values):
    def f(e, u, ts, iv):
        c = e if ts == 'epoch' else u
        return ([a] + values)[len([s for s in steps if s <= c])]
    return f


def decrease(a, T):
    return lambda e, u, ts, iv: a * T / max(e + 1, T)


SAMPLES = {
    'Linear': (linear, [(0.9, 1.0, 10), (1.0, 0.25, 3), (2.0, -2.0, 1)]),
    'Exponential': (exponential, [(1.0, 0.5), (1.0, 0.5, 0.1, 0.7),
                                  (2.0, 3.0, 0.0, 50.0), (-1.0, 2.0, -8.0),
                                  (1.0, -0.5)]),
    'MultiStep': (multistep, [(1.0, [4, 6, 9], [0.1, 0.01, 0.001]),
                              (0.5, [1], [0.25])]),
    'DecreaseAfterEpoch': (decrease, [(0.05, 5), (1.0, 1), (2.0, 11)]),
}


def grid(name):
    for ts in ('epoch', 'update'):
        for iv in ((1,) if name == 'MultiStep' else (1, 2, 5)):
            for n in list(range(0, 14)) + [29, 30, 31, 57]:
                yield (n, 3 * n + 1, ts, iv)


def evaluate(repo, c, init, call):
    """constant propagation through __init__ and __call__"""
    I = Interp(repo, opaque=lambda f: False, raw=True)
    st = State()
    s = I.instance(st, c)

    def cv(x):
        if isinstance(x, list):
            r = I.new(st, 'list')
            I.obj(st, r).items = [const(y) for y in x]
            return r
        return const(x)
    v, st, blk = I.run(I.method(c, '__init__'), [cv(x) for x in init], st,
                       self_v=s)
    v, st, blk = I.run(I.method(c, '__call__'), [cv(x) for x in call] + [
        V('sym', x) for x in ('net', 'stepper', 'logs')], st, self_v=s)
    E = Eval(I, st, {V('ext', 'numpy.inf'): INF, V('ext', 'numpy.Inf'): INF})
    vals = []
    for p in top(blk):
        if not E.holds(p.conds):
            continue
        if p.end == 'raise':
            vals.append('an error')
            continue
        if not all(E.known(k) for k in p.conds):
            raise Unknown(p.val)
        vals.append(E(p.val))
    if len(set(map(repr, vals))) != 1:
        raise Unknown(v)
    return vals[0]


def p64(repo, rep, tier):
    pure, form = 'pure', 'value'
    rep.rule(pure, 'a schedule reads only its parameters, the numbers of '
             'epochs and updates, timescale and interval, and changes '
             'nothing its values depend on')
    rep.rule(form, 'constants propagated through constructor and call give '
             'the documented value at every point of a grid of settings, '
             'timescales, intervals and counts')
    mod = [m for m in repo.modules.values()
           if m.name == 'brainstorm.training.schedules'] if isinstance(
               repo.modules, dict) else [
                   m for m in repo.modules
                   if m.name == 'brainstorm.training.schedules']
    if not mod:
        raise AnalysisBroken('brainstorm.training.schedules not found')
    cs = [c for c in repo.classes() if c.mod is mod[0]]
    n = 0
    for c in cs:
        own, fn = repo.lookup(c, '__call__')
        if not isinstance(fn, Fn):
            continue
        rep.saw(fn.qual)
        n += 1
        purity(repo, rep, pure, c, fn)
    for name, (spec, inits) in sorted(SAMPLES.items()):
        c = find_cls(repo, name)
        fn = repo.lookup(c, '__call__')[1]
        for init in inits:
            f = spec(*init)
            wrong = und = None
            pts = 0
            for pt in grid(name):
                try:
                    got = evaluate(repo, c, init, pt)
                    ok = isinstance(got, (int, float)) and not isinstance(
                        got, bool) and abs(got - f(*pt)) <= 1e-9 * max(
                            1, abs(f(*pt)))
                except Unknown:
                    und = pt
                    break
                pts += 1
                if not ok:
                    wrong = (pt, got, f(*pt))
                    break
            what = '%s%s' % (name, init)
            if und is not None:
                rep.skip(form, what, 'value not determined at %s' % (und,))
            elif wrong:
                (e, u, ts, iv), g, w = wrong
                rep.bad(form, name, '%s gives %s instead of %s at epoch %d, '
                        'update %d (timescale %s, interval %d)' % (
                            what, g, w, e, u, ts, iv), loc(fn))
            else:
                rep.ok(form, '%s at %d points' % (what, pts), loc(fn))
    rep.need(pure, 4, 'schedules')
    rep.need(form, 8, 'settings')


def purity(repo, rep, rule, c, fn):
    I, st, ps, me = run(repo, c, '__call__', raw=True)
    outside = {sym(x): x for x in ('net', 'stepper', 'logs')}
    for p in ps:
        terms = set()
        for k in p.conds:
            terms |= set(subterms(k))
        if p.val is not None:
            terms |= set(subterms(p.val))
            terms |= set(subterms(p.s(p.val)))
        for t, nm in outside.items():
            if p.end != 'raise':
                rep.check(t not in terms, rule, '%s(%s)' % (c.name, nm),
                          'the value depends on the %s' % nm, loc(fn))
        for i, e, l in flat(p):
            if e.kind == 'setattr' and e.obj is me:
                a = V('attr', me, e.name)
                used = a in terms or a in set(subterms(e.val))
                rep.check(not used, rule, '%s.%s' % (c.name, e.name),
                          'a call changes %s, on which the values depend'
                          % e.name, e.where())
            elif e.kind == 'setattr':
                rep.bad(rule, c.name, 'a call sets %s.%s' % (e.obj, e.name),
                        e.where())
            elif e.kind in ('setitem', 'mut'):
                o = e.obj if e.kind == 'setitem' else e.f.a[0] if \
                    e.f.op == 'attr' else None
                if o is not None and o.op == 'attr' and o.a[0] is me or \
                        o in outside:
                    rep.bad(rule, c.name, 'a call changes %s' % o,
                            e.where())
            elif e.kind == 'call' and fname(e.f) in (
                    'append', 'pop', 'insert', 'extend', 'remove', 'clear',
                    'update', 'setdefault', 'sort', 'reverse') and \
                    e.f.op == 'attr' and path_root(e.f.a[0]) in (
                        [me] + list(outside)):
                rep.bad(rule, c.name, 'a call changes %s' % e.f.a[0],
                        e.where())
            elif e.kind in ('call', 'mut') and fname(e.f) and any(
                    x in fname(e.f) for x in ('random', 'time.', 'uniform',
                                              'randn')):
                rep.bad(rule, c.name, 'the value depends on %s' % e.f,
                        e.where())
    if not live(ps):
        rep.bad(rule, c.name, 'never returns', loc(fn))


def path_root(v):
    while v.op in ('attr', 'idx'):
        v = v.a[0]
    return v
