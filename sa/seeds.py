"""P40: where random numbers come from and where seeds go."""
import ast

from .arch import fn_of
from .prog import find_cls, flat, fname, live, nouid, recv, run, run_fn, \
    source
from .repo import AnalysisBroken, Fn
from .unordered import DRAWS, Unordered
from .valid import loc

RANDOM = ('random', 'numpy.random', 'secrets', 'uuid', 'os.urandom',
          'os.getrandom', 'random.SystemRandom', 'scipy.stats')
CLOCK = ('time', 'datetime', 'os.getpid', 'os.times', 'timeit', 'tempfile',
         'threading', 'socket', 'platform')
IDENT = ('id', 'hash')
SEEDS = {'set_seed', 'seed', 'create_random_state', 'RandomState',
         'shuffle_data', 'evaluate_initializer', 'initialize', 'Seedable',
         'XORWOWRandomNumberGenerator', 'default_rng'}
STATE = {'rnd', 'global_rnd'}


def under(name, roots):
    return any(name == r or name.startswith(r + '.') for r in roots)


def src_fns(repo):
    return [f for f in repo.functions() if '.tests' not in f.mod.name]


def dotted(repo, mod, e):
    """external dotted name an expression refers to"""
    if isinstance(e, ast.Name):
        r = repo.resolve(mod, e.id)
        if r and r[0] == 'ext':
            return r[1]
        return None
    if isinstance(e, ast.Attribute):
        b = dotted(repo, mod, e.value)
        return b + '.' + e.attr if b else None
    return None


class Scopes(object):
    """the function (or module) each node belongs to"""

    def __init__(self, repo):
        self.repo = repo
        self.of = {}
        for f in repo.functions():
            if '.tests' in f.mod.name:
                continue
            for x in ast.walk(f.node):
                cur = self.of.get(x)
                if cur is None or len(f.qual) >= len(cur.qual):
                    self.of[x] = f


def modules(repo):
    return [m for n, m in sorted(repo.modules.items()) if '.tests' not in n]


def local_imports(fn):
    """names bound to external modules by imports inside a function"""
    if getattr(fn, '_imports', None) is not None:
        return fn._imports
    out = fn._imports = {}
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split('.')[0]] = \
                    a.name if a.asname else a.name.split('.')[0]
        elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
            for a in x.names:
                out[a.asname or a.name] = x.module + '.' + a.name
    return out


def outermost(tree):
    """attribute chains, outermost only"""
    inner = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and x not in inner:
            y = x.value
            while isinstance(y, ast.Attribute):
                inner.add(y)
                y = y.value
            inner.add(y)
            yield x
        elif isinstance(x, ast.Name) and x not in inner:
            yield x


# ------------------------------------------------------------- origins ----

def global_statement(repo):
    """the statement that creates the library's own random state"""
    r = None
    for m in modules(repo):
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == 'global_rnd'
                    for t in s.targets):
                r = (m, s)
    if r is None:
        raise AnalysisBroken('global_rnd is not defined at module level')
    return r


def origins(repo, rep):
    rep.rule('origin', 'Random numbers come only from random states of the '
             'library: nothing uses the process-global generators of numpy '
             'or Python or the operating system; the only exception is the '
             'very first seed of global_rnd.')
    gmod, gnode = global_statement(repo)
    allowed = set(ast.walk(gnode))
    base = set()
    for c in repo.classes():
        if '.tests' not in c.mod.name:
            for b in c.node.bases:
                base |= set(ast.walk(b))
    sc = Scopes(repo)
    n = 0
    for m in modules(repo):
        for x in outermost(m.tree):
            f = sc.of.get(x)
            d = dotted(repo, m, x)
            if d is None and f is not None:
                e, tail = x, []
                while isinstance(e, ast.Attribute):
                    tail.append(e.attr)
                    e = e.value
                li = local_imports(f) if isinstance(e, ast.Name) else {}
                if isinstance(e, ast.Name) and e.id in li:
                    d = '.'.join([li[e.id]] + tail[::-1])
            if d is None:
                continue
            n += 1
            if not under(d, RANDOM) or x in allowed or x in base:
                continue
            where = '%s:%d' % (m.path, x.lineno)
            who = f.qual if f else m.name
            if d.endswith(('.RandomState', '.default_rng', '.Random')):
                call = next((y for y in ast.walk(m.tree) if isinstance(
                    y, ast.Call) and y.func is x), None)
                if call is None:
                    continue      # a type used in a test or as an alias
                args = list(call.args) + [k.value for k in call.keywords]
                rep.check(args and not (isinstance(args[0], ast.Constant)
                                        and args[0].value is None),
                          'origin', '%s %s' % (who, d),
                          '%s is created without a seed' % d, where)
                continue
            if not isinstance(x.ctx, ast.Load) or d in (
                    'numpy.random', 'random'):
                continue
            rep.bad('origin', '%s %s' % (who, d), '%s uses %s, which does '
                    'not follow the seeds of the library' % (who, d), where)
    rep.ok('origin', '%d names of external modules resolved' % n)
    if n < 300:
        raise AnalysisBroken('only %d external names found' % n)


# ------------------------------------------------------ random receivers --

class Receivers(object):
    def __init__(self, repo):
        self.repo = repo
        self.state = find_cls(repo, 'RandomState')
        self.attrs = {}
        for f in src_fns(repo):
            if isinstance(f.node, ast.Lambda):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Attribute):
                            self.attrs.setdefault(t.attr, []).append(
                                (f, x.value))

    def makes(self, fn, e, depth=0):
        """True: an expression is a library random state; False: it is
        not; None: unknown"""
        repo = self.repo
        if depth > 6:
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                r = repo.resolve(fn.mod, f.id)
                if r and r[0] == 'cls':
                    return self.state in repo.mro(r[1])
                if f.id == 'XORWOWRandomNumberGenerator':
                    return bool(e.args or e.keywords)
                if r and r[0] == 'fn':
                    return self.returns(r[1], depth)
                return None
            if isinstance(f, ast.Attribute):
                if f.attr == 'create_random_state':
                    return True
                if f.attr in ('deepcopy', 'copy') and e.args:
                    return self.makes(fn, e.args[0], depth + 1)
                d = dotted(repo, fn.mod, f)
                if d and d.endswith('.RandomState'):
                    a = list(e.args) + [k.value for k in e.keywords]
                    return bool(a) and not (isinstance(
                        a[0], ast.Constant) and a[0].value is None)
                if f.attr == 'RandomState':
                    return True
            return None
        if isinstance(e, ast.IfExp):
            a = self.makes(fn, e.body, depth + 1)
            b = self.makes(fn, e.orelse, depth + 1)
            return a and b
        if isinstance(e, ast.BoolOp):
            vs = [self.makes(fn, v, depth + 1) for v in e.values]
            return all(vs) if all(v is not None for v in vs) else None
        if isinstance(e, ast.Name):
            if e.id in STATE:
                return True
            if isinstance(fn.node, ast.Lambda):
                return None
            vals = [x.value for x in ast.walk(fn.node)
                    if isinstance(x, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in x.targets)]
            if e.id in fn.params():
                return None
            if vals:
                rs = [self.makes(fn, v, depth + 1) for v in vals]
                if all(r is True for r in rs):
                    return True
                return False if False in rs else None
            r = repo.resolve(fn.mod, e.id)
            if r and r[0] == 'ext':
                return False
            return None
        if isinstance(e, ast.Attribute):
            if e.attr in STATE:
                return True
            d = dotted(repo, fn.mod, e)
            if d:
                return False
            vals = self.attrs.get(e.attr, [])
            rs = [self.makes(f, v, depth + 1) for f, v in vals]
            if rs and all(r is True for r in rs):
                return True
            return None
        return None

    def returns(self, g, depth):
        rs = [self.makes(g, x.value, depth + 1) for x in ast.walk(g.node)
              if isinstance(x, ast.Return) and x.value is not None]
        return True if rs and all(r is True for r in rs) else None


def is_draw(call):
    return isinstance(call.func, ast.Attribute) and call.func.attr in DRAWS


def draws(repo, rep):
    rep.rule('draw', 'Every draw of random numbers is made from a random '
             'state of the library (an rnd attribute, global_rnd or a '
             'RandomState made from one of them or from a given seed).')
    rep.rule('state', 'Every attribute rnd holds a RandomState of the '
             'library or a generator that has been given a seed.')
    R = Receivers(repo)
    sc = Scopes(repo)
    state = find_cls(repo, 'RandomState')
    for m in modules(repo):
        for x in ast.walk(m.tree):
            f = sc.of.get(x)
            if isinstance(x, ast.Call) and is_draw(x) and f is not None:
                if f.cls is state and isinstance(x.func.value, ast.Name):
                    continue
                k = R.makes(f, x.func.value)
                name = '%s %s' % (f.qual, ast.unparse(x.func))
                if k is True:
                    rep.ok('draw', name, loc(f))
                elif k is False and dotted(repo, f.mod, x.func) is None:
                    rep.bad('draw', name, '%s draws from something that is '
                            'not a random state of the library' % name,
                            loc(f))
                else:
                    base = x.func.value
                    if isinstance(base, ast.Attribute) or isinstance(
                            base, ast.Name):
                        rep.skip('draw', name, 'unknown receiver')
            if isinstance(x, ast.Assign) and f is not None:
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr == 'rnd':
                        k = R.makes(f, x.value)
                        name = '%s %s' % (f.qual, ast.unparse(x)[:70])
                        if k is True:
                            rep.ok('state', name, loc(f))
                        elif k is False:
                            rep.bad('state', name, '%s is not a random '
                                    'state of the library' % name, loc(f))
                        else:
                            rep.skip('state', name, 'unknown value')
    rep.need('draw', 15, 'draws of random numbers')
    rep.need('state', 3, 'random states')


# ------------------------------------------------- clocks and identities --

def clocks(repo, rep):
    rep.rule('clock', 'Neither the time, the process, nor the identity or '
             'hash of an object reaches a seed, the arguments of a draw or '
             'the order in which something is sorted.')
    attr_taint = set()
    ret_taint = set()

    def src(fn, e):
        if not isinstance(e, ast.Call):
            return False
        if isinstance(e.func, ast.Name) and e.func.id in IDENT and \
                repo.resolve(fn.mod, e.func.id) is None:
            return True
        d = dotted(repo, fn.mod, e.func)
        if d is None and isinstance(e.func, ast.Attribute):
            y, tail = e.func, []
            while isinstance(y, ast.Attribute):
                tail.append(y.attr)
                y = y.value
            li = local_imports(fn)
            if isinstance(y, ast.Name) and y.id in li:
                d = '.'.join([li[y.id]] + tail[::-1])
        return bool(d and under(d, CLOCK + RANDOM[2:]))

    n = 0
    for _ in range(4):
        hits = []
        for f in src_fns(repo):
            if isinstance(f.node, ast.Lambda) or f.name == '__hash__':
                continue
            tn = set()

            def tainted(e):
                for x in ast.walk(e):
                    if src(f, x):
                        return True
                    if isinstance(x, ast.Name) and x.id in tn:
                        return True
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and f.cls is not None and \
                            (f.cls.name, x.attr) in attr_taint:
                        return True
                    if isinstance(x, ast.Call) and isinstance(
                            x.func, ast.Name) and x.func.id in ret_taint:
                        return True
                return False
            for _ in range(3):
                for x in ast.walk(f.node):
                    if isinstance(x, (ast.Assign, ast.AugAssign)):
                        if tainted(x.value):
                            ts = x.targets if isinstance(
                                x, ast.Assign) else [x.target]
                            for t in ts:
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Name) and \
                                            isinstance(y.ctx, ast.Store):
                                        tn.add(y.id)
                                    if isinstance(y, ast.Attribute) and \
                                            f.cls is not None:
                                        attr_taint.add((f.cls.name, y.attr))
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Return, ast.Yield)) and \
                        x.value is not None and tainted(x.value):
                    ret_taint.add(f.name)
                if not isinstance(x, ast.Call):
                    continue
                n += 1
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else \
                    x.func.id if isinstance(x.func, ast.Name) else None
                args = []
                if nm in SEEDS or nm in DRAWS:
                    args = list(x.args) + [k.value for k in x.keywords]
                    if nm in ('initialize', 'evaluate_initializer',
                              'shuffle_data'):
                        args = [k.value for k in x.keywords
                                if k.arg == 'seed']
                else:
                    args = [k.value for k in x.keywords if k.arg == 'seed']
                bad = [a for a in args if tainted(a)]
                if nm in ('sorted', 'sort', 'min', 'max'):
                    for k in x.keywords:
                        if k.arg == 'key' and (
                                isinstance(k.value, ast.Name) and
                                k.value.id in IDENT or isinstance(
                                    k.value, ast.Lambda) and tainted(
                                        k.value.body)):
                            bad.append(k.value)
                if bad:
                    hits.append((f, x))
    for f, x in hits:
        rep.bad('clock', '%s %s' % (f.qual, ast.unparse(x)[:80]),
                'depends on the time, the process or the identity of an '
                'object', loc(f))
    rep.ok('clock', '%d calls of %d functions' % (
        n // 4, len(src_fns(repo))))


# ------------------------------------------------------ unordered things --

# Functions whose result is the same whatever the order of what they are
# given: combine_buffer_structures takes its first element as the
# representative of a collection it has just verified to be equal in every
# dimension but the last, which it adds up.
SYMMETRIC = {'combine_buffer_structures'}


def unordered(repo, rep):
    rep.rule('order', 'Nothing that is numbered, indexed, drawn for, joined '
             'or otherwise decided one after the other is taken from a set '
             'or from a sequence or mapping filled in the order of a set.')
    U = Unordered(repo)
    for f, node, why in U.found:
        if f.name in SYMMETRIC:
            continue
        rep.bad('order', '%s %s' % (f.qual, ast.unparse(node)[:80]),
                '%s: %s' % (f.qual, why),
                '%s:%d' % (f.mod.path, node.lineno))
    for q, line in sorted(U.sites):
        rep.ok('order', '%s:%d iterates in arbitrary order harmlessly' % (
            q, line))
    rep.ok('order', '%d functions' % len(U.fns))


# --------------------------------------------------------- seeds go where --

def arg0(e, name='seed'):
    if e.d.get('args'):
        return e.args[0]
    return e.kw.get(name)


def resolve(v, p):
    """value on this path: a choice on a decided condition is taken"""
    while v is not None and getattr(v, 'op', None) == 'phi' or \
            getattr(v, 'op', None) == 'ite':
        c = p.conds.get(v.a[0])
        if c is None:
            return v
        v = v.a[1] if c else v.a[2]
    return v


def uses(v, name):
    return (" sym '%s'" % name in repr(v)) or name in text(v)


def text(v):
    return str(v)


def states(repo, rep):
    rep.rule('statecls', 'A RandomState starts from the seed it is given, 0 '
             'included, else from one drawn from global_rnd; seeding it '
             'again, resetting it and making another from it all go through '
             'that seed.')
    from .terms import V
    C = find_cls(repo, 'RandomState')
    where = C.mod.path
    S = V('sym', 'seed')

    def one(meth, **kw):
        I, st, ps, me = run(repo, C, meth, **kw)
        return I, st, live(ps), me

    def supers(p, name):
        out = []
        for i, e, _ in flat(p):
            if e.kind == 'call' and fname(e.f) == name and text(
                    e.f).startswith(('super(', 'numpy.random')):
                out.append(e)
        return out

    def given(c, seed):
        """is the branch condition 'no seed was given' exactly?"""
        return all(text(k) in ('(seed is None)', '(seed is not None)',
                               '(seed == None)', '(seed != None)')
                   or 'seed' not in text(k) for k in c)

    for meth in ('__init__', 'seed', 'set_seed'):
        I, st, ps, me = one(meth)
        if not ps:
            rep.bad('statecls', meth, 'RandomState.%s never completes'
                    % meth, where)
        for p in ps:
            sup = [e for i, e, _ in flat(p) if e.kind == 'call' and
                   fname(e.f) in ('__init__', 'seed') and
                   'super' in text(e.f) and text(me) in text(e.f)]
            own = [e for i, e, _ in flat(p) if e.kind == 'setattr' and
                   e.name == '_seed' and e.obj == me]
            none = [v for c, v in p.conds.items()
                    if text(c) == '(seed is None)']
            ok = given(p.conds, S) and len(sup) == 1 and bool(own)
            val = arg0(sup[0]) if len(sup) == 1 else None
            if ok and meth == '__init__' and none and none[0]:
                val2 = pick(val, p)
                ok = 'randint' in text(val2) or 'generate_seed' in text(
                    val2)
                ok = ok and text(pick(own[-1].val, p)) == text(val2)
            elif ok:
                ok = pick(val, p) == S and pick(own[-1].val, p) == S
            rep.check(ok, 'statecls', meth, 'RandomState.%s does not hand '
                      'exactly the given seed to the generator and keep it'
                      % meth, where)
    I, st, ps, me = one('reset')
    for p in ps:
        sup = [e for i, e, _ in flat(p) if e.kind == 'call' and
               fname(e.f) == 'seed' and 'super' in text(e.f)]
        rep.check(len(sup) == 1 and text(arg0(sup[0])).endswith('._seed'),
                  'statecls', 'reset', 'reset() does not go back to the '
                  'seed', where)
    I, st, ps, me = one('generate_seed')
    for p in ps:
        rep.check(text(p.val).startswith(text(me) + '.randint('),
                  'statecls', 'generate_seed', 'generate_seed() does not '
                  'draw from the random state itself', where)
    I, st, ps, me = one('create_random_state')
    for p in ps:
        new = [e for i, e, _ in flat(p) if e.kind == 'new' and
               e.cls is C and e.res == p.val]
        none = [v for c, v in p.conds.items() if text(c) == '(seed is None)']
        ok = len(new) == 1 and given(
            [c for c in p.conds if text(c).count('seed') == 1], S)
        if ok:
            v = pick(arg0(new[0]), p)
            if none and none[0]:
                ok = text(v).startswith(text(me) + '.randint(')
            else:
                ok = v == S
        rep.check(ok, 'statecls', 'create_random_state', 'the new state is '
                  'not made from the given seed, or from one drawn from '
                  'this state', where)
    I, st, ps, me = one('__reduce__')
    for p in ps:
        t = text(p.val)
        rep.check('._seed' in t and '.get_state()' in t, 'statecls',
                  '__reduce__', 'a copied random state does not keep its '
                  'seed and its state', where)
    I, st, ps, me = one('__setstate__')
    for p in ps:
        ok = any(e.kind == 'call' and fname(e.f) in (
            'set_state', '__setstate__') and e.args and
            text(e.args[-1]) == 'state' for i, e, _ in flat(p))
        rep.check(ok, 'statecls', '__setstate__', 'a copied random state '
                  'does not take over the state', where)
    rep.need('statecls', 9, 'methods of RandomState')


def pick(v, p, depth=0):
    """resolve choices whose condition the path has decided"""
    if depth > 8 or not hasattr(v, 'op'):
        return v
    if v.op in ('phi', 'ite', 'choice', 'ifexp') and len(v.a) >= 3:
        c = p.conds.get(v.a[0])
        if c is not None:
            return pick(v.a[1] if c else v.a[2], p, depth + 1)
    return v


def truthy(repo, rep):
    rep.rule('given', 'Whether a seed was given is decided by comparing it '
             'with None: 0 is a seed like any other.')
    for f in src_fns(repo):
        if isinstance(f.node, ast.Lambda):
            continue
        names = {a for a in f.params() if a == 'seed'}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and isinstance(
                    x.targets[0], ast.Name) and isinstance(
                        x.value, ast.Call) and any(
                            isinstance(a, ast.Constant) and a.value == 'seed'
                            for a in x.value.args):
                names.add(x.targets[0].id)
        if not names:
            continue
        bad = []
        for x in ast.walk(f.node):
            tests = []
            if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                tests = [x.test]
            elif isinstance(x, ast.BoolOp):
                tests = x.values if isinstance(x.op, ast.And) else \
                    x.values
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                tests = [x.operand]
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == 'bool':
                tests = x.args
            for t in tests:
                if isinstance(t, ast.Name) and t.id in names:
                    bad.append(x)
        rep.check(not bad, 'given', f.qual, '%s tests the truth of a seed: '
                  '%s treats 0 as no seed' % (
                      f.qual, ast.unparse(bad[0])[:60] if bad else ''),
                  loc(f))
    rep.need('given', 6, 'functions taking a seed')


def passed(repo, rep):
    rep.rule('passed', 'A seed that is given reaches the random state that '
             'is drawn from, on every path.')
    S = 'seed'
    state = find_cls(repo, 'RandomState')
    for c in repo.classes():
        if '.tests' in c.mod.name or c is state:
            continue
        init = c.members.get('__init__')
        if not isinstance(init, Fn) or S not in init.params():
            continue
        try:
            I, st, ps, me = run(repo, c, '__init__')
        except Exception as e:                      # noqa
            rep.skip('passed', c.name, str(e)[:80])
            continue
        for p in live(ps):
            ok = False
            for i, e, _ in flat(p):
                if e.kind == 'new' and e.cls is state and e.args and \
                        text(pick(e.args[0], p)) == S:
                    ok = True
                if e.kind in ('call', 'mut') and fname(e.f) in (
                        'set_seed', 'seed') and e.args and text(
                            pick(e.args[0], p)) == S:
                    ok = True
                if e.kind in ('call', 'new') and any(
                        k == 'seed_getter' for k in e.kw):
                    ok = True
                if e.kind == 'setattr' and e.name == 'rnd' and any(
                        v for k, v in p.conds.items()
                        if text(k) == '(seed is None)'):
                    ok = True
            rep.check(ok, 'passed', c.name + '.__init__',
                      '%s ignores the seed it is given' % c.name, loc(init))
    # functions
    for f in src_fns(repo):
        if f.name == '__init__' or isinstance(f.node, ast.Lambda) or \
                f.cls is state:
            continue
        takes = S in f.params()
        kwget = any(isinstance(x, ast.Call) and isinstance(
            x.func, ast.Attribute) and x.func.attr in ('get', 'pop') and
            x.args and isinstance(x.args[0], ast.Constant) and
            x.args[0].value == S for x in ast.walk(f.node))
        if not takes and not kwget:
            continue
        used = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(
                    x.func, ast.Attribute) else getattr(x.func, 'id', None)
                args = list(x.args) + [k.value for k in x.keywords]
                if nm in SEEDS and any(mentions(a, S, f) for a in args):
                    used.append(x)
        rep.check(bool(used), 'passed', f.qual, '%s accepts a seed but never '
                  'hands it to a random state' % f.qual, loc(f))
    for n in ('shuffle_data', 'initialize', 'evaluate_initializer'):
        f = next((f for f in src_fns(repo) if f.name == n), None)
        if f is None:
            raise AnalysisBroken('%s not found' % n)
        rep.check(any(isinstance(x, ast.Constant) and x.value == S or
                      isinstance(x, ast.Name) and x.id == S
                      for x in ast.walk(f.node)), 'passed', n,
                  '%s no longer uses the seed it documents' % n, loc(f))
    rep.need('passed', 5, 'constructors and functions taking a seed')


def mentions(e, name, fn):
    names = {name}
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Assign) and isinstance(
                x.targets[0], ast.Name) and any(
                    isinstance(y, ast.Constant) and y.value == name or
                    isinstance(y, ast.Name) and y.id == name
                    for y in ast.walk(x.value)):
            names.add(x.targets[0].id)
    return any(isinstance(x, ast.Name) and x.id in names or isinstance(
        x, ast.Constant) and x.value == name for x in ast.walk(e))


def initialising(repo, rep):
    rep.rule('init', 'Initialising draws one seed per parameter from a '
             'random state made from the seed given to initialize() and the '
             'random state of the network; evaluating an initialiser seeds '
             'it, and its fallback, before it draws.')
    Net = find_cls(repo, 'Network')
    EV = 'evaluate_initializer'
    RES = 'resolve_references'

    def opaque(fn):
        return fn.name in (EV, RES, 'create_random_state', 'generate_seed',
                           '_replace_lists_with_array_initializers')
    try:
        I, st, ps, me = run(repo, Net, 'initialize', opaque=opaque, raw=True)
    except Exception as e:                          # noqa
        rep.skip('init', 'Network.initialize', str(e)[:80])
        ps = []
    fn = repo.lookup(Net, 'initialize')[1]
    for p in live(ps):
        evs = flat(p)
        for i, e, loops in evs:
            if e.kind not in ('call', 'mut') or fname(e.f) != EV:
                continue
            g = fn_of(repo, EV)
            ps_ = g.params()
            a = e.kw.get('seed')
            if a is None and len(e.args) > ps_.index('seed'):
                a = e.args[ps_.index('seed')]
            t = text(nouid(a)) if a is not None else 'None'
            ok = t.startswith('self.rnd.create_random_state(seed') or \
                'create_random_state(seed)' in t
            ok = ok and 'generate_seed' in t
            rep.check(ok, 'init', 'Network.initialize seed of %s' % EV,
                      'a parameter is initialised with the seed %s, not one '
                      'drawn from the random state made for this call' % t,
                      loc(fn))
            for li, q in loops:
                s = source(I, st, li.node.it)
                if s is not None:
                    rep.check(not s.unordered, 'init', 'Network.initialize '
                              'order', 'parameters are visited in arbitrary '
                              'order, so each gets a different seed on '
                              'every run', loc(fn))
    g = fn_of(repo, EV)

    def opq(fn):
        return fn is g and opq.n or fn.name == 'set_seed'
    opq.n = False
    I, st, ps = run_fn(repo, g, opaque=lambda f: f.name in (
        'set_seed', '__call__'), raw=True)
    seeded = 0
    for p in live(ps):
        evs = flat(p)
        none = any(v and text(k) == '(seed is None)' or not v and text(
            k) == '(seed is not None)' for k, v in p.conds.items())
        run_at = [i for i, e, _ in evs if e.kind in ('call', 'mut') and (
            text(e.f) == 'initializer' or 'initializer.__call__' in
            text(e.f) or e.f.op == 'sym' and e.args and text(
                e.args[0]) == 'shape')]
        sets = [(i, e) for i, e, _ in evs if e.kind in ('call', 'mut') and
                fname(e.f) in ('set_seed', 'seed')]
        if run_at and not none:
            ok = any(i < run_at[0] and text(e.args[0]) == 'seed'
                     for i, e in sets)
            seeded += 1
            rep.check(ok, 'init', EV + ' seeds', 'an initialiser is evaluated '
                      'without having been given the seed', loc(g))
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == EV:
            ps_ = g.params()
            i = ps_.index('seed')
            v = x.args[i] if len(x.args) > i else next(
                (k.value for k in x.keywords if k.arg == 'seed'), None)
            rep.check(v is not None and mentions(v, 'seed', g), 'init',
                      EV + ' fallback', 'the fallback is evaluated without '
                      'the seed', loc(g))
    # initialisers evaluating others
    for f in src_fns(repo):
        if isinstance(f.node, ast.Lambda) or f is g or f.cls is None or \
                f.cls is Net:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == EV:
                i = g.params().index('seed')
                v = x.args[i] if len(x.args) > i else next(
                    (k.value for k in x.keywords if k.arg == 'seed'), None)
                ok = v is not None and not (isinstance(v, ast.Constant))
                if ok:
                    t = ast.unparse(v)
                    ok = 'rnd' in t or isinstance(v, (ast.Name, ast.Subscript,
                                                      ast.Attribute))
                rep.check(ok, 'init', '%s %s' % (f.qual,
                                                 ast.unparse(x)[:50]),
                          '%s evaluates an initialiser without a seed drawn '
                          'from its own random state' % f.qual, loc(f))
    rep.need('init', 8, 'uses of initialisers')


# ------------------------------------------------------ made at import ----

def at_import(repo, rep):
    rep.rule('import', 'Nothing that is created when the package is '
             'imported draws from or keeps a random state of its own: it '
             'would have been seeded before the user can set the seed.')
    gmod, gnode = global_statement(repo)
    state = find_cls(repo, 'RandomState')
    U = Unordered(repo)
    from .unordered import Walk
    n = 0
    for m in modules(repo):
        exprs = []

        def visit(body, who):
            for s in body:
                if s is gnode:
                    continue
                if isinstance(s, ast.ClassDef):
                    visit(s.body, who + '.' + s.name)
                    exprs.extend((who + '.' + s.name, d)
                                 for d in s.decorator_list)
                elif isinstance(s, (ast.FunctionDef, ast.Lambda)):
                    a = s.args
                    for d in list(a.defaults) + [
                            k for k in a.kw_defaults if k is not None]:
                        exprs.append((who + '.' + s.name, d))
                    exprs.extend((who + '.' + s.name, d)
                                 for d in s.decorator_list)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With,
                                    ast.Try)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, fld, []) or [], who)
                    for h in getattr(s, 'handlers', []):
                        visit(h.body, who)
                    for fld in ('test', 'iter'):
                        if getattr(s, fld, None) is not None:
                            exprs.append((who, getattr(s, fld)))
                else:
                    exprs.append((who, s))
        visit(m.tree.body, m.name)
        # nested defaults are evaluated when the outer function runs
        for who, e in exprs:
            skip = set()
            for x in ast.walk(e):
                if isinstance(x, ast.Lambda):
                    skip |= set(ast.walk(x.body))
            for x in ast.walk(e):
                if not isinstance(x, ast.Call) or x in skip:
                    continue
                n += 1
                if is_draw(x):
                    d = dotted(repo, m, x.func)
                    if d is None:
                        rep.bad('import', '%s %s' % (
                            who, ast.unparse(x)[:60]), 'draws random '
                            'numbers when the package is imported',
                            '%s:%d' % (m.path, x.lineno))
                    continue
                r = None
                if isinstance(x.func, ast.Name):
                    r = repo.resolve(m, x.func.id)
                elif isinstance(x.func, ast.Attribute) and isinstance(
                        x.func.value, ast.Name):
                    q = repo.resolve(m, x.func.value.id)
                    if q and q[0] == 'mod':
                        r = repo.resolve(repo.modules[q[1]], x.func.attr)
                if not r or r[0] not in ('cls', 'fn'):
                    continue
                where = '%s:%d' % (m.path, x.lineno)
                name = '%s %s' % (who, ast.unparse(x)[:60])
                if r[0] == 'fn':
                    rep.check(not Walk(U, r[1]).draws(r[1], set()),
                              'import', name, 'draws random numbers when '
                              'the package is imported', where)
                    continue
                C = r[1]
                if state in repo.mro(C):
                    rep.bad('import', name, 'a random state made when the '
                            'package is imported does not follow the seed '
                            'set later', where)
                    continue
                own, init = repo.lookup(C, '__init__')
                if not isinstance(init, Fn):
                    rep.ok('import', name, where)
                    continue
                seeded = seeds_at(repo, C, init, x, state)
                if seeded is None:
                    rep.skip('import', name, 'constructor not understood')
                else:
                    rep.check(not seeded, 'import', name, '%s keeps a '
                              'random state that is seeded when the package '
                              'is imported, before any seed can be set' %
                              C.name, where)
    rep.ok('import', '%d calls made at import time' % n)
    rep.need('import', 2, 'calls made when the package is imported')


def seeds_at(repo, C, init, call, state):
    """does constructing C with these arguments make a new random state?"""
    from .terms import V
    from .terms import const as wrap
    ps = init.params()[1:]
    given = dict(zip(ps, [V('sym', a) for a in ps]))
    nd = len(init.node.args.defaults)
    dflt = dict(zip(init.params()[-nd:] if nd else [],
                    init.node.args.defaults))
    passed_ = set(ps[:len(call.args)]) | {k.arg for k in call.keywords}
    for a in ps:
        if a in dflt and a not in passed_:
            d = dflt[a]
            if isinstance(d, ast.Constant):
                given[a] = wrap(d.value)
    for k in call.keywords:
        if k.arg in given and isinstance(k.value, ast.Constant):
            given[k.arg] = wrap(k.value.value)
    for a, x in zip(ps, call.args):
        if isinstance(x, ast.Constant):
            given[a] = wrap(x.value)
    try:
        I, st, pp, me = run(repo, C, '__init__',
                            args=[given[a] for a in ps])
    except Exception:                               # noqa
        return None
    for p in live(pp):
        for i, e, _ in flat(p):
            if e.kind == 'new' and e.cls is not None and state in repo.mro(
                    e.cls):
                return True
            if e.kind in ('call', 'mut') and fname(e.f) in (
                    'generate_seed',):
                return True
    return False


def p40(repo, rep, tier):
    origins(repo, rep)
    draws(repo, rep)
    clocks(repo, rep)
    unordered(repo, rep)
    states(repo, rep)
    truthy(repo, rep)
    passed(repo, rep)
    initialising(repo, rep)
    at_import(repo, rep)
