"""Descriptions and saved networks (P30, P31)."""
import ast

from .effects import Alias
from .interp import Interp, State, With
from .paths import TooMany
from .prog import (calls, find_cls, fname, live, nouid, recv, run, run_fn)
from .repo import AnalysisBroken, Cls, Fn
from .terms import FALSE, NONE, TRUE, V, const, cval, is_const, subterms
from .valid import loc

# documented as not part of a description although they can be given to the
# constructor: the name of a hook is kept by the trainer, the values that
# FreezeValues keeps are taken from the network when it first runs
GIVEN_TRANSIENT = {('Hook', '__name__'), ('FreezeValues', 'weights'),
                   ('Handler', 'rnd')}
MUT = {'append', 'extend', 'insert', 'pop', 'update', 'setdefault', 'clear',
       'add', 'remove', 'popitem'}
PRINTING = {'__repr__', '__str__', 'message'}


def literal(n):
    try:
        return True, ast.literal_eval(n)
    except (ValueError, SyntaxError):
        return False, None


def table(repo, cls, name):
    """merged {attribute: initial value} of __undescribed__ and the like"""
    out = {}
    for c in reversed(repo.mro(cls)):
        n = c.members.get(name)
        if n is None:
            continue
        if not isinstance(n, ast.AST):
            raise AnalysisBroken('%s.%s is no literal' % (c.name, name))
        if isinstance(n, ast.Call) and not n.args and not n.keywords:
            continue
        if isinstance(n, ast.Call) and len(n.args) == 1:
            n = n.args[0]
        if isinstance(n, (ast.Set, ast.List, ast.Tuple)):
            for e in n.elts:
                ok, v = literal(e)
                if not ok:
                    raise AnalysisBroken('%s.%s: odd entry' % (c.name, name))
                out[v] = (NONE, c)
        elif isinstance(n, ast.Dict):
            for k, e in zip(n.keys, n.values):
                ok, kk = literal(k)
                if not ok:
                    raise AnalysisBroken('%s.%s: odd entry' % (c.name, name))
                ok, v = literal(e)
                if ok and not isinstance(v, (dict, list, set)):
                    out[kk] = (const(v), c)
                else:
                    out[kk] = (V('literal', ast.dump(e)), c)
        else:
            raise AnalysisBroken('%s.%s: not understood' % (c.name, name))
    return out


def norm(I, st, v):
    """term comparable between two runs"""
    v = nouid(v)
    o = I.obj(st, v) if v.op == 'ref' else None
    if o is not None:
        if o.kind == 'obj':
            return V('made', o.cls.name if isinstance(o.cls, Cls) else
                     str(o.cls))
        its = o.items
        if o.more is None and not its:
            return V('literal', ast.dump({'dict': ast.Dict([], []),
                                          'list': ast.List([], ast.Load()),
                                          'set': ast.Set([])}[o.kind]))
        return V('made', o.kind)
    return v


def reads(repo, cls, attr):
    """methods (not constructors or printing) that read self.attr"""
    out = []
    for c in repo.mro(cls):
        for n, m in c.members.items():
            if not isinstance(m, Fn) or n in (
                    '__init__', '__describe__', '__init_from_description__',
                    '__new_from_description__') or n in PRINTING:
                continue
            ps = m.params()
            if not ps:
                continue
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and x.attr == attr and \
                        isinstance(x.ctx, ast.Load) and isinstance(
                            x.value, ast.Name) and x.value.id == ps[0]:
                    out.append((n, m))
                    break
    return out


def outside(repo, attr):
    """functions that read .attr of something other than their own self"""
    memo = repo.__dict__.setdefault('_outside', {})
    if attr in memo:
        return memo[attr]
    out = []
    for f in repo.functions():
        ps = f.params() if f.cls is not None else []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == attr and \
                    isinstance(x.ctx, ast.Load) and not (
                        isinstance(x.value, ast.Name) and ps and
                        x.value.id == ps[0]):
                out.append((f.name, f))
                break
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == 'getattr' and len(
                    x.args) > 1 and isinstance(x.args[1], ast.Constant) \
                    and x.args[1].value == attr:
                out.append((f.name, f))
                break
    memo[attr] = out
    return out


def sets(repo, cls, fn, seen=None):
    """(attribute, place) that a method and those it calls on self set"""
    seen = seen if seen is not None else set()
    if fn in seen or not fn.params():
        return set()
    seen.add(fn)
    me = fn.params()[0]

    def is_self(x):
        return isinstance(x, ast.Attribute) and isinstance(
            x.value, ast.Name) and x.value.id == me
    out = set()
    for x in ast.walk(fn.node):
        if is_self(x) and isinstance(x.ctx, ast.Store):
            out.add((x.attr, '%s:%d' % (fn.mod.path, x.lineno)))
        elif isinstance(x, ast.Call) and isinstance(
                x.func, ast.Name) and x.func.id == 'setattr' and \
                len(x.args) == 3 and isinstance(x.args[0], ast.Name) and \
                x.args[0].id == me and isinstance(x.args[1], ast.Constant):
            out.add((x.args[1].value, '%s:%d' % (fn.mod.path, x.lineno)))
        elif isinstance(x, ast.Subscript) and isinstance(
                x.ctx, (ast.Store, ast.Del)) and is_self(x.value):
            out.add((x.value.attr, '%s:%d' % (fn.mod.path, x.lineno)))
        elif isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute) and is_self(x.func.value) and \
                x.func.attr in MUT:
            out.add((x.func.value.attr, '%s:%d' % (fn.mod.path, x.lineno)))
        elif isinstance(x, ast.Call) and is_self(x.func):
            got = repo.lookup(cls, x.func.attr)
            if got and isinstance(got[1], Fn):
                out |= sets(repo, cls, got[1], seen)
        elif isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute) and isinstance(
                x.func.value, ast.Call) and isinstance(
                x.func.value.func, ast.Name) and \
                x.func.value.func.id == 'super':
            own = fn.cls
            mro = repo.mro(cls)
            for c in mro[mro.index(own) + 1:] if own in mro else ():
                m = c.members.get(x.func.attr)
                if isinstance(m, Fn):
                    out |= sets(repo, cls, m, seen)
                    break
    return out


def none_use(p, s):
    """an event of the path that uses None as if it were an object"""
    def odd(t):
        if t.op == 'attr' and t.a[0] is NONE and t.a[1] not in (
                '__class__',):
            return True
        if t.op in ('idx', 'elem', 'key') and t.a[0] is NONE:
            return True
        if t.op == 'bin' and NONE in t.a[1:]:
            return True
        if t.op == 'cmp' and t.a[0] in ('<', '<=', '>', '>=') and \
                NONE in t.a[1:]:
            return True
        return t.op == 'call' and t.a[0] is NONE
    for e in p.events():
        for x in e.d.values():
            for y in (x if isinstance(x, (list, tuple)) else
                      x.values() if isinstance(x, dict) else (x,)):
                if isinstance(y, V) and any(odd(t) for t in
                                            subterms(p.s(y))):
                    return e
    return None


class Obj(object):
    """attributes after construction and after recreation"""

    def __init__(self, repo, cls):
        self.cls = cls
        self.undesc = table(repo, cls, '__undescribed__')
        self.default = table(repo, cls, '__default_values__')
        # parameters under the names they have in the constructor
        I, st, ps, s = run(repo, cls, '__init__', raw=True)
        self.I0, self.st0, self.s0 = I, st, s
        self.ctor = {}
        for p in live(ps):
            for e in p.events():
                if e.kind == 'setattr' and e.obj is s:
                    self.ctor.setdefault(e.name, None)
        o = I.obj(st, s)
        for n in list(self.ctor):
            self.ctor[n] = o.attrs.get(n)
        self.asserted = set()
        for p in live(ps):
            for c, b in p.conds.items():
                if b and c.op == 'call' and c.a[0] is V(
                        'ext', 'isinstance') and c.a[1][1:] and \
                        c.a[1][1] is V('ext', 'numpy.ndarray'):
                    self.asserted.add(c.a[1][0])
            for e in p.events():
                if e.kind == 'assert':
                    for c in ([e.cond] + (list(e.cond.a[0]) if
                                          e.cond.op == 'and' else [])):
                        if c.op == 'call' and c.a[0] is V(
                                'ext', 'isinstance') and c.a[1][1:] and \
                                c.a[1][1] is V('ext', 'numpy.ndarray'):
                            self.asserted.add(c.a[1][0])
        got = repo.lookup(cls, '__init_from_description__')
        attrs = {}
        for n, v in self.ctor.items():
            if n in self.undesc:
                attrs[n] = self.undesc[n][0]
            elif v is None or v.op == 'ref':
                attrs[n] = V('sym', 'described ' + n)
            else:
                attrs[n] = v
        for n, (v, c) in self.undesc.items():
            attrs.setdefault(n, v)
        self.before = dict(attrs)
        self.fn = got[1]
        try:
            I, st, ps, s = run(repo, cls, '__init_from_description__',
                               raw=True, attrs=attrs)
            self.again = dict(I.obj(st, s).attrs)
            self.I1, self.st1 = I, st
            self.restored = {e.name for p in live(ps) for e in p.events()
                             if e.kind == 'setattr' and e.obj is s}
        except Exception as e:
            raise AnalysisBroken('%s.__init_from_description__: %s' % (
                cls.name, e))

    def array(self, v):
        return v is not None and (v in self.asserted or v.op == 'call' and
                                  v.a[0].op == 'ext' and
                                  v.a[0].a[0].startswith('numpy.') and
                                  v.a[0].a[0].rpartition('.')[2] in (
                                      'array', 'asarray', 'zeros', 'ones',
                                      'empty', 'eye', 'ascontiguousarray'))


def recreated(repo, rep, cls):
    O = Obj(repo, cls)
    rep.saw(cls.name)
    own_desc = repo.lookup(cls, '__describe__')[0].name != 'Describable'
    start = repo.lookup(cls, 'start')
    started = {}
    if start and isinstance(start[1], Fn):
        own = repo.mro(cls)
        I, st, ps, s = run(repo, cls, 'start', raw=True, attrs=O.again,
                           opaque=lambda f: f.cls not in own)
        for a in O.ctor:
            started[a] = bool(live(ps)) and all(any(
                e.kind == 'setattr' and e.obj is s and e.name == a
                for e in p.events()) for p in live(ps))
    for a in sorted(O.ctor):
        v0, v1 = O.ctor[a], O.again.get(a)
        what = '%s.%s' % (cls.name, a)
        where = loc(O.fn)
        if a not in O.undesc:
            if O.array(v0) and not own_desc:
                rep.check(O.array(v1) and v1 is not v0 or a in O.restored,
                          'arrays', what, 'is an array, but a list after '
                          'recreation', where)
            continue
        n0 = norm(O.I0, O.st0, v0) if v0 is not None else NONE
        n1 = norm(O.I1, O.st1, v1) if v1 is not None else NONE
        owner = O.undesc[a][1]
        if n0 is n1 or is_const(n0) and is_const(n1) and \
                cval(n0) == cval(n1):
            rep.ok('transient', what, where)
            continue
        if a in O.restored and not is_const(n1) and not is_const(n0):
            # set up by the same code, from described attributes
            params = {t for t in subterms(n0) if t.op == 'sym'}
            if not params or n1.op == n0.op:
                if n1.op == n0.op and n1.op in ('const', 'phi', 'bin',
                                                'un', 'cmp'):
                    rep.bad('transient', what, 'is %s after construction, '
                            'but %s after recreation' % (n0, n1), where)
                    continue
                rep.ok('transient', what, where)
                continue
        if started.get(a):
            rep.ok('transient', what, where)
            continue
        used = reads(repo, cls, a)
        if v1 is NONE and (not any((c.name, a) in GIVEN_TRANSIENT for c in
                                   repo.mro(cls)) or a == '__name__'):
            ext = outside(repo, a)
            if ext:
                rep.bad('transient', what, 'is %s after construction but '
                        'None after recreation, and %s reads it' % (
                            v0, ', '.join(n for n, m in ext[:4])), where)
                continue
        if not used:
            rep.ok('transient', what, where)
            continue
        given = any(t.op == 'sym' for t in subterms(v0)) if \
            v0 is not None else False
        if given and any((c.name, a) in GIVEN_TRANSIENT for c in
                         repo.mro(cls)):
            if v1 is NONE:
                for n, m in used:
                    own = repo.mro(cls)
                    I, st, ps, s = run(repo, cls, n, raw=True,
                                       attrs=O.again,
                                       opaque=lambda f: f.cls not in own)
                    e = next((x for x in (none_use(p, s) for p in
                                          live(ps)) if x), None)
                    rep.check(e is None, 'transient', what + ' in ' + n,
                              'is used while it is None', e.where() if e
                              else loc(m))
            else:
                rep.ok('transient', what, where)
            continue
        rep.bad('transient', what, 'is %s after construction but %s after '
                'recreation, and %s reads it' % (v0, v1, ', '.join(
                    n for n, m in used)), where)
    # what running sets is transient and must not be described
    for meth in ('start', 'run', '__call__', 'train'):
        got = repo.lookup(cls, meth)
        if not got or not isinstance(got[1], Fn):
            continue
        for a, where in sorted(sets(repo, cls, got[1])):
            rep.check(a in O.undesc or own_desc, 'dynamic', '%s.%s, set '
                      'by %s' % (cls.name, a, meth), 'is described '
                      'although it changes while running', where)
    return O


def own_description(repo, rep, cls):
    """a description of its own holds what its recreation reads"""
    ow, fn = repo.lookup(cls, '__describe__')
    if ow.name == 'Describable':
        return
    I, st, ps, s = run(repo, cls, '__describe__', raw=True)
    keys = None
    for p in live(ps):
        o = I.obj(st, p.s(p.val))
        if o is None or o.kind != 'dict':
            # described as a plain value: nothing to recreate
            own = [t for t in subterms(p.s(p.val)) if t.op == 'attr' and
                   t.a[0] is s]
            rep.check(bool(own), 'own', '%s.__describe__' % cls.name,
                      'describes nothing of the object', loc(fn))
            return
        k = {cval(x) for x in o.items}
        keys = k if keys is None else keys & k
        rep.check('@type' in k, 'own', '%s.__describe__' % cls.name,
                  'has no @type', loc(fn))
        t = o.items.get(const('@type'))
        if t is not None:
            rep.check(is_const(t, cls.name) or t.op != 'const', 'own',
                      '@type of %s' % cls.name, 'is %s' % t, loc(fn))
    I, st, ps, s = run(repo, cls, '__init_from_description__', raw=True)
    d = V('sym', repo.lookup(
        cls, '__init_from_description__')[1].params()[1])
    want = set()
    for p in live(ps):
        for e in p.events():
            for x in e.d.values():
                for y in (x if isinstance(x, (list, tuple)) else (x,)):
                    if isinstance(y, V):
                        for t in subterms(y):
                            if t.op == 'idx' and t.a[0] is d:
                                want.add(cval(t.a[1]))
    rep.check(keys is None or want <= keys, 'own', 'recreation of %s' %
              cls.name, 'reads %s, which its description lacks' % sorted(
                  map(str, want - (keys or set()))), loc(fn))
    # what the constructor takes and the object reads is described
    O = Obj(repo, cls)
    for a, v in sorted(O.ctor.items()):
        if v is not None and v.op == 'sym' and a not in O.undesc:
            ok = a in (keys or ()) or any(
                t.op == 'attr' and t.a[1] == a for p in live(run(
                    repo, cls, '__describe__', raw=True)[2])
                for x in [p.val] for t in subterms(x))
            rep.check(ok, 'own', '%s.%s' % (cls.name, a), 'is not part of '
                      'its description', loc(fn))


def generic(repo, rep):
    """the description protocol itself"""
    D = find_cls(repo, 'Describable')
    rep.saw('Describable.__describe__', 'Describable.'
            '__new_from_description__', 'get_description',
            'create_from_description')
    opq = lambda f: f.name in ('get_description', 'create_from_description',
                               '__get_all_undescribed__',
                               '__get_all_default_values__',
                               '__init_from_description__')
    I, st, ps, s = run(repo, D, '__describe__', raw=True, opaque=opq)
    ow, fn = repo.lookup(D, '__describe__')
    from .prog import flat
    from .paths import LoopItem
    stored = 0
    for p in live(ps):
        typ = False
        for i, e, loops in flat(p):
            if e.kind != 'setitem':
                continue
            if is_const(e.idx, '@type'):
                typ = True
                continue
            if not loops:
                continue
            stored += 1
            li, q = loops[-1]
            if q.end == 'raise':
                continue
            v = q.s(e.val)
            rep.check(v.op == 'call' and fname(v.a[0]) == 'get_description',
                      'protocol', 'value stored for a member',
                      'is %s' % v, e.where())
            # condition of storing: not ignored, not equal to its default
            cs = list(q.conds.items())
            ign = [b for c, b in cs if c.op == 'cmp' and c.a[0] in (
                'in', 'not in') and 'undescribed' in str(c.a[2])]
            if not ign and any(c.op in ('cmp', 'call', 'not', 'and', 'or')
                               for c, b in cs if 'default' not in str(c)
                               and c.a[0] not in ('==', '!=')):
                rep.skip('protocol', 'members that are not described',
                         'test not recognised')
                continue
            rep.check(len(ign) >= 1, 'protocol', 'members that are not '
                      'described', 'are not tested for', e.where())
        rep.check(typ, 'protocol', 'description of an object', 'has no '
                  '@type', loc(fn))
    if not stored:
        rep.skip('protocol', '__describe__', 'no entry is stored in a loop')
    else:
        describe_cases(repo, rep, I, st, ps, fn)
    new_cases(repo, rep, D, opq)
    collectors(repo, rep, D)
    plain_values(repo, rep)


def describe_cases(repo, rep, I, st, ps, fn):
    """which members are stored: all but ignored ones and defaults"""
    from .prog import flat
    from .paths import LoopItem, decide

    def loops_of(p):
        for x in p.items:
            if isinstance(x, LoopItem):
                yield x
    for p in live(ps):
        for li in loops_of(p):
            kinds = {}
            for q in li.paths:
                if q.end == 'raise':
                    continue
                ign = eq = None
                for c, b in q.conds.items():
                    if c.op == 'cmp' and c.a[0] in ('in', 'not in'):
                        x = b == (c.a[0] == 'in')
                        if 'undescribed' in str(c.a[2]):
                            ign = x
                        elif 'default' in str(c.a[2]):
                            if not x:
                                eq = False
                    elif c.op == 'cmp' and c.a[0] in ('==', '!='):
                        eq = b == (c.a[0] == '==')
                put = any(e.kind == 'setitem' and not is_const(
                    e.idx) for e in q.events())
                kinds.setdefault((ign, eq), set()).add(put)
            if not any(True in v for v in kinds.values()):
                continue
            for (ign, eq), v in sorted(kinds.items(), key=str):
                want = not (ign or eq)
                what = 'member %s' % (
                    'declared as undescribed' if ign else
                    'equal to its declared default' if eq else
                    'not excluded')
                if ign is None:
                    rep.skip('protocol', what, 'test not recognised')
                    continue
                if len(v) > 1:
                    rep.bad('protocol', what, 'is described only under '
                            'further conditions', loc(fn))
                    continue
                if eq and not ign or ign or (ign is False and
                                             eq in (False, None)):
                    rep.check(v == {want}, 'protocol', what, 'is %sdescribed'
                              % ('' if True in v else 'not '), loc(fn))


def new_cases(repo, rep, D, opq):
    I, st, ps, s = run(repo, D, '__new_from_description__', raw=True,
                       opaque=opq)
    ow, fn = repo.lookup(D, '__new_from_description__')
    d = V('sym', fn.params()[1])
    from .prog import flat
    for p in live(ps):
        order = []
        for i, e, loops in flat(p):
            sa = e.kind == 'call' and fname(e.f) == 'setattr' and len(
                e.args) == 3
            if (e.kind == 'setitem' or sa) and loops and \
                    loops[-1][1].end != 'raise':
                src = str(loops[-1][0].node.it)
                v = loops[-1][1].s(e.args[2] if sa else e.val)
                if 'undescribed' in src:
                    k = 'undescribed'
                elif 'default_values' in src:
                    k = 'default'
                elif loops[-1][0].node.it is not None and d in subterms(
                        loops[-1][0].node.it):
                    k = 'described'
                else:
                    continue
                order.append(k)
                for q in loops[-1][0].paths:
                    if q.end == 'raise' or any(
                            x.kind == 'setitem' or x.kind == 'call' and
                            fname(x.f) == 'setattr' for x in q.events()):
                        continue
                    typ = [1 for c, b in q.conds.items() if b == (
                        c.a[0] == '==') and c.op == 'cmp' and any(
                            is_const(x, '@type') for x in c.a[1:])]
                    if k == 'described' and not typ or k != 'described':
                        left = [c for c in q.conds]
                        if not left:
                            continue
                        rep.bad('protocol', '%s member' % k, 'is left out '
                                'when %s' % ', '.join(map(str, left)),
                                e.where())
                if k == 'described':
                    rep.check(v.op == 'call' and fname(v.a[0]) ==
                              'create_from_description', 'protocol',
                              'described member', 'becomes %s' % v,
                              e.where())
                else:
                    fresh = v.op == 'call' and fname(v.a[0]) in (
                        'copy.deepcopy', 'deepcopy')
                    rep.check(fresh, 'protocol', '%s member' % k,
                              'becomes %s, which is shared by all '
                              'instances' % v, e.where())
            elif e.kind == 'call' and fname(e.f) == \
                    '__init_from_description__':
                order.append('init')
        if not {'undescribed', 'default', 'described', 'init'} <= set(order):
            lack = {'undescribed', 'default', 'described', 'init'} - set(
                order)
            if 'described' in order or 'init' in order:
                rep.bad('protocol', 'recreation', 'leaves out: %s' %
                        ', '.join(sorted(lack)), loc(fn))
            else:
                rep.skip('protocol', 'recreation', 'not recognised')
            continue
        last = {k: max(i for i, x in enumerate(order) if x == k)
                for k in set(order)}
        first = {k: order.index(k) for k in set(order)}
        rep.check(last['undescribed'] < first['described'] and
                  last['default'] < first['described'] and
                  last['described'] < first['init'], 'protocol',
                  'order of recreation', 'is %s' % ', '.join(order), loc(fn))


def collectors(repo, rep, D):
    """declarations of all classes of the hierarchy are merged, those of
    derived classes winning"""
    from .evalt import replay
    from .prog import flat, source
    T = [f for f in repo.functions() if f.cls is None and any(
        isinstance(x, ast.Attribute) and x.attr == '__mro__'
        for x in ast.walk(f.node))]
    for m in ('__get_all_undescribed__', '__get_all_default_values__'):
        ow, fn = repo.lookup(D, m)
        rep.saw(fn.qual)
        und = m == '__get_all_undescribed__'
        sample = [{}, {'a': 1, 'b': 2}, {'b': 3, 'd': 5}]
        want = {'a': 1, 'b': 3, 'd': 5}
        if und:
            sample.append({'c'})
            want = dict(want, c=None)
        asked = []

        def trav(*a):
            asked.append(a[1:])
            return sample
        I, st, ps, s = run(repo, D, m, raw=True, opaque=lambda f: f in T)

        def ext(ev, E):
            if isinstance(ev, tuple) or ev.kind not in (
                    'mut', 'call', 'setitem'):
                return []
            if ev.kind == 'setitem':
                if I.obj(st, ev.obj) is None:
                    return []
                return [(E(ev.idx), E(ev.val))]
            if fname(ev.f) == 'update' and ev.f.op == 'attr':
                d = E(ev.args[0])
                return list(d.items() if isinstance(d, dict) else d)
            if fname(ev.f) == 'setdefault':
                return [('setdefault',)]
            return []
        F = replay(I, st, ps, {s: 'class'}, ext, {t.name: trav for t in T})
        out = {}
        for k in F.must:
            if k == ('setdefault',):
                out = None
                break
            out[k[0]] = k[1]
        if F.und or F.loose or not T or out is None or not F.must:
            rep.skip('protocol', m, 'not understood')
            continue
        rep.check(out == want and {x for a in asked for x in a} <= {
            '__undescribed__' if und else '__default_values__'},
            'protocol', 'declarations merged by ' + m, 'are %s for %s'
            % (out, sample), loc(fn))
    for t in T:
        I, st, ps = run_fn(repo, t, raw=True)
        c, a = [V('sym', n) for n in t.params()[:2]]
        for p in live(ps):
            for i, e, loops in flat(p):
                if e.kind != 'yield' or not loops:
                    continue
                it = loops[-1][0].node.it
                rev = source(I, st, it).rev
                src = [x for x in subterms(it) if x.op == 'attr' and
                       x.a[1] == '__mro__']
                if not src:
                    rep.skip('protocol', t.name, 'walks over %s' % it)
                    continue
                rep.check(rev, 'protocol', 'order of ' + t.name,
                          'lets base classes win', e.where())
                odd = [x for x, b in loops[-1][1].conds.items() if not (
                    x.op == 'call' and fname(x.a[0]) == 'hasattr' and
                    x.a[1][1] is a) and not (
                    x.op == 'cmp' and x.a[0] in ('in', 'not in') and
                    x.a[1] is a)]
                if odd:
                    rep.skip('protocol', t.name, 'depends on %s' % odd[0])


DESCRIBABLE = ('numpy.ndarray', 'list', 'dict', 'tuple')


def describable_values(repo, rep, cls, O):
    """what a described attribute holds after construction has a
    description"""
    if repo.lookup(cls, '__describe__')[0].name != 'Describable':
        return
    D = find_cls(repo, 'Describable')
    for a, v in sorted(O.ctor.items()):
        if a in O.undesc or v is None:
            continue
        o = O.I0.obj(O.st0, v) if v.op == 'ref' else None
        bad = None
        if o is not None and o.kind == 'set':
            bad = 'a set'
        elif o is not None and o.kind == 'obj' and isinstance(
                o.cls, Cls) and D not in repo.mro(o.cls):
            bad = 'a ' + o.cls.name
        elif v.op in ('func', 'bound', 'lambda', 'cls'):
            bad = 'a function'
        elif v.op == 'ext' and v.a[0].startswith(('numpy.', 'math.',
                                                  'time.')):
            bad = v.a[0]
        rep.check(bad is None, 'describable', '%s.%s' % (cls.name, a),
                  'holds %s and is not declared as undescribed' % bad,
                  loc(repo.lookup(cls, '__init__')[1]) if isinstance(
                      repo.lookup(cls, '__init__')[1], Fn) else '')


def plain_values(repo, rep):
    """lists and dictionaries are walked completely, both ways"""
    for name in ('get_description', 'create_from_description'):
        fs = [f for f in repo.functions() if f.name == name and
              f.cls is None]
        if not fs:
            raise AnalysisBroken(name + ' not found')
        fn = fs[0]
        this = V('sym', fn.params()[0])
        I, st, ps = run_fn(repo, fn, raw=True,
                           opaque=lambda f: f.name in (name,
                                                       'get_inheritors'))
        A = Alias(I, st)
        kinds = set()
        for p in live(ps):
            if p.end != 'ret':
                rep.bad('protocol', name, 'falls off its end', loc(fn))
                continue
            v = p.s(p.val)
            o = I.obj(st, v)
            if o is not None and o.kind in ('list', 'dict'):
                el = o.more if o.more is not None else (
                    list(o.items.values()) if isinstance(o.items, dict)
                    else o.items)
                if isinstance(el, list):
                    el = el[0] if len(el) == 1 else None
                if el is None:
                    rep.bad('protocol', '%s of a %s' % (name, o.kind),
                            'is always empty', loc(fn))
                    continue
                els = el.a[0] if el.op == 'oneof' else (el,)
                ok = all(x.op == 'call' and fname(x.a[0]) == name
                         for x in els)
                rep.check(ok, 'protocol', 'entries in %s of a %s' % (
                    name, o.kind), 'are %s' % el, loc(fn))
                cond = o.attrs.get('comp_cond')
                rep.check(cond is None or not cond.a[0] if cond is not None
                          and cond.op == 'tuple' else not cond, 'protocol',
                          'entries in %s of a %s' % (name, o.kind),
                          'are left out under a condition', loc(fn))
                kinds.add(o.kind)
            elif v is this:
                kinds.add('plain')
                for c, b in p.conds.items():
                    if b and c.op == 'call' and c.a[0] is V(
                            'ext', 'isinstance') and len(c.a[1]) == 2 and \
                            c.a[1][0] is this:
                        ts = c.a[1][1].a[0] if c.a[1][1].op == 'tuple' \
                            else (c.a[1][1],)
                        rep.check(not any(t.op == 'ext' and t.a[0] in (
                            'list', 'dict') for t in ts), 'protocol', '%s '
                            'of a container' % name, 'is the container '
                            'itself', loc(fn))
            elif v.op == 'call' and fname(v.a[0]) in ('__describe__',
                                                      'tolist',
                                                      name,
                                                      '__new_from_'
                                                      'description__'):
                kinds.add(fname(v.a[0]))
            else:
                rep.skip('protocol', name, 'result %s' % v)
        for k in ('list', 'dict', 'plain'):
            if k not in kinds:
                rep.skip('protocol', '%s of a %s' % (name, k), 'not found')


def unique_names(repo, rep, classes):
    names = {}
    for c in classes:
        names.setdefault(c.name, []).append(c)
    for n, cs in sorted(names.items()):
        rep.check(len(cs) == 1, 'names', 'class name %s' % n, 'is shared by '
                  'describable classes of %s' % ', '.join(
                      c.mod.name for c in cs), '')


def hooks_restored(repo, rep):
    """a recreated trainer has its hooks in order and under their names"""
    T = find_cls(repo, 'Trainer')
    I, st, ps, s = run(repo, T, '__init_from_description__', raw=True)
    ow, fn = repo.lookup(T, '__init_from_description__')
    from .prog import flat, source
    rep.saw('Trainer.__init_from_description__')
    for p in live(ps):
        named = put = False
        for i, e, loops in flat(p):
            if not loops:
                continue
            src = source(I, st, loops[-1][0].node.it)
            if e.kind == 'setattr' and e.name == '__name__':
                named = True
            if e.kind == 'setitem':
                put = True
                key = None
                for t in subterms(loops[-1][0].node.it):
                    if t.op == 'call' and fname(t.a[0]) == 'sorted':
                        key = dict(t.a[2]).get('key', NONE)
                if src.sort and key is not None:
                    kf = next((x for x in (key.a if key is not NONE else ())
                               if isinstance(x, Fn)), None)
                    if key is not NONE and kf is None:
                        rep.skip('hooks', 'order', 'key %s' % key)
                    else:
                        rep.check(kf is not None and any(
                            getattr(x, 'attr', getattr(x, 'value', None)) ==
                            'priority' for x in ast.walk(kf.node)), 'hooks',
                            'key of the order of recreated hooks', 'is not '
                            'the priority', e.where())
                rep.check(src.sort and not src.rev, 'hooks', 'order of the '
                          'hooks of a recreated trainer', 'is not that of '
                          'their priorities', e.where())
        rep.check(named, 'hooks', 'names of the hooks of a recreated '
                  'trainer', 'are not restored', loc(fn))
        if not put:
            rep.skip('hooks', 'order of hooks', 'not recognised')


def p30(repo, rep, tier):
    rep.rule('transient', 'an undescribed attribute has after recreation '
             'the value of the constructor, or is set before it is used, or '
             'is documented as given up')
    rep.rule('arrays', 'attributes that hold arrays hold arrays after '
             'recreation')
    rep.rule('dynamic', 'attributes set while running are not described')
    rep.rule('own', 'descriptions of their own contain what recreation reads '
             'and what the constructor was given')
    rep.rule('protocol', 'every member that is not excluded is described and '
             'restored; transient ones and defaults are copies set first')
    rep.rule('describable', 'described attributes hold values that have a '
             'description')
    rep.rule('names', 'class names of describable classes are unique')
    rep.rule('hooks', 'hooks regain order and name')
    D = find_cls(repo, 'Describable')
    classes = [c for c in repo.subclasses(D) if c is not D]
    if len(classes) < 40:
        raise AnalysisBroken('only %d describable classes' % len(classes))
    unique_names(repo, rep, classes)
    for c in classes:
        if c.name in ('Network', 'Describable'):
            continue
        try:
            O = recreated(repo, rep, c)
            own_description(repo, rep, c)
            describable_values(repo, rep, c, O)
        except AnalysisBroken as e:
            rep.skip('transient', c.name, str(e))
        except TooMany:
            rep.skip('transient', c.name, 'too many paths')
    generic(repo, rep)
    hooks_restored(repo, rep)
    rep.need('transient', 30, 'transient attributes')
    rep.need('dynamic', 8, 'attributes set while running')


# ------------------------------------------------------------------- P31 --
LOSSLESS = {'compression', 'compression_opts', 'shuffle', 'fletcher32',
            'chunks', 'data', 'name', 'track_times'}
DUMPS = {'indent', 'separators', 'ensure_ascii', 'allow_nan', 'check_circular'}
LOADS = {'object_pairs_hook'}


def is_file(v):
    return v.op == 'call' and v.a[0] is V('ext', 'h5py.File')


def key_of(v, base):
    """name under which something is read from base"""
    if v.op == 'idx' and base(v.a[0]) and v.a[1].op == 'const':
        return cval(v.a[1])
    if v.op == 'call' and v.a[0].op == 'attr' and v.a[0].a[1] == 'get' and \
            base(v.a[0].a[0]) and v.a[1] and v.a[1][0].op == 'const':
        return cval(v.a[1][0])
    return None


def unread(v):
    """strip what turns a dataset into an array: [()], [:], [...], array"""
    while True:
        if v.op == 'idx' and (v.a[1].op in ('slice', 'tuple') and
                              not v.a[1].a[0] or str(v.a[1]) in (
                                  'slice(None, None, None)', 'Ellipsis',
                                  'slice(None,None,None)')):
            v = v.a[0]
        elif v.op == 'idx' and v.a[1].op == 'slice' and all(
                x is NONE for x in v.a[1].a):
            v = v.a[0]
        elif v.op == 'idx' and v.a[1].op == 'const' and cval(
                v.a[1]) in ((), Ellipsis):
            v = v.a[0]
        elif v.op == 'attr' and v.a[1] == 'value':
            v = v.a[0]
        elif v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in (
                'numpy.array', 'numpy.asarray') and len(v.a[1]) == 1 and \
                not v.a[2]:
            v = v.a[1][0]
        else:
            return v


def written(I, p):
    """[(name, value, event, keywords)] put into a file"""
    out = []
    for e in p.events():
        if e.kind == 'setitem' and is_file(p.s(e.obj)) and \
                e.idx.op == 'const':
            out.append((cval(e.idx), p.s(e.val), e, {}))
        elif e.kind == 'call' and fname(e.f) in (
                'create_dataset', 'require_dataset') and e.f.op == 'attr' \
                and is_file(p.s(e.f.a[0])):
            kw = {k: p.s(x) for k, x in e.kw.items()}
            n = e.args[0] if e.args else kw.get('name')
            if n is not None and n.op == 'const':
                v = kw.get('data') or (p.s(e.args[3]) if len(
                    e.args) > 3 else None)
                out.append((cval(n), v, e, kw))
    return out


def saver(repo, rep, N):
    opq = lambda f: f.name in ('get_description', '__describe__',
                               'get_brainstorm_info', 'get')
    I, st, ps, s = run(repo, N, 'save_as_hdf5', raw=True, opaque=opq)
    fn = I.method(N, 'save_as_hdf5')
    rep.saw(fn.qual)
    keys = None
    for p in live(ps):
        files = [e for e in calls(p) if e.f is V('ext', 'h5py.File')]
        for e in files:
            a = [p.s(x) for x in e.args]
            rep.check(a[:1] == [V('sym', fn.params()[1])], 'save', 'file '
                      'written', 'is %s' % a[:1], e.where())
            m = a[1] if len(a) > 1 else e.kw.get('mode', NONE)
            rep.check(m.op == 'const' and str(cval(m))[:1] == 'w', 'save',
                      'mode of the file written', 'is %s: an existing file '
                      'is not replaced' % m, e.where())
        got = {}
        for k, v, e, kw in written(I, p):
            got[k] = v
            if k == 'parameters':
                ok = v is not None and (
                    v.op == 'call' and fname(v.a[0]) == 'get' and
                    recv(v.a[0]) is s and v.a[1][:1] and
                    is_const(v.a[1][0], 'parameters') or
                    v.op == 'call' and fname(v.a[0]) == 'get_numpy_copy' and
                    str(v.a[1][0]).replace("['parameters']", '.parameters')
                    .endswith('buffer.parameters'))
                rep.check(bool(ok), 'save', 'parameters written', 'are %s' %
                          v, e.where())
                odd = {x for x in kw if x not in LOSSLESS and not (
                    x == 'shape' and False)}
                rep.check(not odd, 'save', 'parameters written', 'are '
                          'changed by %s' % sorted(odd), e.where())
            elif k == 'description':
                ch, src = chain(v)
                D = src is not None and src.op == 'call' and fname(
                    src.a[0]) in ('get_description', '__describe__') and (
                        src.a[1][:1] == (s,) or recv(src.a[0]) is s)
                rep.check(bool(D), 'save', 'description written', 'is %s' % v,
                          e.where())
                for f, kws in ch:
                    if f == 'dumps':
                        bad = {x for x, y in kws if x not in DUMPS}
                        rep.check(not bad, 'save', 'description written',
                                  'is reordered or changed by %s' %
                                  sorted(bad), e.where())
        keys = set(got) if keys is None else keys & set(got)
        for k in ('parameters', 'description'):
            rep.check(k in got, 'save', '%s of the network' % k, 'are not '
                      'written on some path', loc(fn))
    return keys, s


def chain(v):
    """[(conversion, keywords)], what is converted"""
    out = []
    while v is not None and v.op == 'call':
        f, a, kw, u = v.a
        n = fname(f)
        if f.op == 'attr' and n in ('encode', 'decode'):
            out.append((n, tuple(x for x in a)))
            v = f.a[0]
        elif f.op == 'ext' and n in ('json.dumps', 'json.loads', 'dumps',
                                     'loads') and a:
            out.append((n.rpartition('.')[2], kw))
            v = a[0]
        elif f.op == 'ext' and n in ('numpy.string_', 'numpy.bytes_', 'str',
                                     'bytes') and a:
            v = a[0]
        else:
            break
    return out, v


def loader(repo, rep, N, keys):
    opq = lambda f: f.name in ('create_from_description',
                               '__new_from_description__')
    I, st, ps, s = run(repo, N, 'from_hdf5', raw=True, opaque=opq)
    fn = I.method(N, 'from_hdf5')
    rep.saw(fn.qual)
    if not live(ps):
        rep.bad('load', 'Network.from_hdf5', 'always fails', loc(fn))
    for p in live(ps):
        files = [e for e in calls(p) if e.f is V('ext', 'h5py.File')]
        for e in files:
            a = [p.s(x) for x in e.args]
            rep.check(a[:1] == [V('sym', fn.params()[1])], 'load',
                      'file read', 'is %s' % a[:1], e.where())
            m = a[1] if len(a) > 1 else e.kw.get('mode', const('r'))
            rep.check(m.op == 'const' and cval(m) in ('r', 'r+', 'a'),
                      'load', 'mode of the file read', 'is %s' % m,
                      e.where())
        read = set()
        for e in p.events():
            for x in list(e.d.values()):
                for y in (x if isinstance(x, (list, tuple)) else
                          x.values() if isinstance(x, dict) else (x,)):
                    if isinstance(y, V):
                        for t in subterms(p.s(y)):
                            k = key_of(t, is_file)
                            if k is not None:
                                read.add(k)
        if any(c.op == 'cmp' and c.a[0] in ('in', 'not in') and
               cval(c.a[1]) in (keys or ()) and b != (c.a[0] == 'in')
               for c, b in p.conds.items()):
            continue        # the saver always writes it
        rep.check(read <= (keys or set()), 'load', 'names read', 'include '
                  '%s, which the saver does not write on every path' %
                  sorted(read - (keys or set())), loc(fn))
        net = p.s(p.val) if p.val is not None else NONE
        made = net.op == 'call' and fname(net.a[0]) in (
            'create_from_description', '__new_from_description__')
        rep.check(made, 'load', 'value returned by from_hdf5', 'is %s' % net,
                  loc(fn))
        if not made:
            continue
        ch, src = chain(net.a[1][0])
        rep.check(src is not None and key_of(unread(src), is_file) ==
                  'description', 'load', 'description used', 'is %s' % src,
                  loc(fn))
        for f, kws in ch:
            if f == 'loads':
                bad = {x for x, y in kws if x not in LOADS}
                rep.check(not bad, 'load', 'description used', 'is changed '
                          'by %s' % sorted(bad), loc(fn))
        put = []
        other = []
        for e in p.events():
            if e.kind not in ('call', 'mut'):
                continue
            r = e.f.a[0] if e.f.op == 'attr' else None
            if r is None or net not in set(subterms(p.s(r))):
                continue
            n = fname(e.f)
            if n == 'set_from_numpy' and len(e.args) == 2:
                put.append(e)
            elif n not in ('items', 'keys', 'values'):
                other.append(n)
        if not put and (other or any(
                e.kind == 'setitem' for e in p.events())):
            rep.skip('load', 'parameters', 'set by %s' % other)
            continue
        good = False
        for e in put:
            d, v = p.s(e.args[0]), p.s(e.args[1])
            if str(d).replace("['parameters']", '.parameters').endswith(
                    'buffer.parameters') and net in set(subterms(d)):
                good = True
                k = key_of(unread(v), is_file)
                rep.check(k == 'parameters', 'load', 'parameters restored',
                          'are %s' % v, e.where())
        rep.check(good, 'load', 'parameters of the loaded network', 'are not '
                  'restored', loc(fn))


def restored(repo, rep, N):
    """every described attribute of a network comes back"""
    I, st, ps, s = run(repo, N, '__init__', raw=True, opaque=lambda f:
                       f.cls is not None and N not in repo.mro(f.cls) or
                       f.name in ('set_handler',))
    names = {e.name for p in live(ps) for e in p.events()
             if e.kind == 'setattr' and e.obj is s}
    und = set(table(repo, N, '__undescribed__'))
    want = sorted(names - und)
    rep.need_ = len(want)
    opq = lambda f: f.name != '__new_from_description__' and (
        f.cls is None or f.name.startswith(('set_', 'from_', 'initialize',
                                            '__')))
    I, st, ps, s = run(repo, N, '__new_from_description__', raw=True,
                       opaque=opq)
    fn = I.method(N, '__new_from_description__')
    rep.saw(fn.qual)
    d = V('sym', fn.params()[1])
    base = lambda v: v is d

    def value(v):
        """key of the description a value comes from"""
        while True:
            k = key_of(v, base)
            if k is not None:
                return k
            if v.op == 'call' and fname(v.a[0]) in (
                    'create_from_description', 'deepcopy', 'copy', 'dict',
                    'copy.deepcopy', 'copy.copy') and v.a[1]:
                v = v.a[1][0]
                continue
            o = I.obj(st, v)
            if o is not None and 'from' in o.attrs:
                v = o.attrs['from']
                continue
            return None
    for p in live(ps):
        net = p.s(p.val) if p.val is not None else NONE
        arch = net.a[1][0] if net.op == 'call' and fname(
            net.a[0]) == 'from_architecture' and net.a[1] else None
        back = {}
        if arch is not None:
            back['architecture'] = (value(arch), fn)
        elif net.op != 'call':
            rep.bad('restore', 'recreated network', 'is %s' % net, loc(fn))
            continue
        for e in p.events():
            if e.kind == 'setattr' and p.s(e.obj) is net:
                back[e.name] = (value(p.s(e.val)), fn)
            elif e.kind in ('call', 'mut') and e.f.op in ('attr', 'bound'):
                r = recv(e.f)
                if r is None or p.s(r) is not net:
                    continue
                m = repo.lookup(N, fname(e.f))
                if not m or not isinstance(m[1], Fn):
                    continue
                ks = [value(p.s(x)) for x in list(e.args) +
                      list(e.kw.values())]
                for a, w in sets(repo, N, m[1]):
                    back[a] = (ks[0] if ks else None, m[1])
        for a in want:
            empty = any(value(t) == a and not b or t.op == 'cmp' and any(
                value(x) == a for x in t.a[1:] if isinstance(x, V)) or
                t.op == 'cmp' and is_const(t.a[1], a)
                for t, b in p.conds.items())
            if a not in back:
                rep.check(empty, 'restore', 'Network.' + a, 'is described '
                          'but not restored', loc(fn))
                continue
            rep.check(back[a][0] == a, 'restore', 'Network.' + a,
                      'is restored from %s' % back[a][0], loc(fn))


def files_closed(repo, rep):
    """files are opened in a with statement or closed in a finally block"""
    n = 0
    for f in repo.functions():
        if '.tests' in f.mod.name or f.mod.name.startswith('tests'):
            continue
        ctx, names, fin = set(), {}, set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.With):
                for it in x.items:
                    for y in ast.walk(it.context_expr):
                        ctx.add(y)
                    if isinstance(it.context_expr, ast.Name):
                        fin.add(it.context_expr.id)
            elif isinstance(x, ast.Try):
                for b in x.finalbody:
                    for y in ast.walk(b):
                        if isinstance(y, ast.Call) and isinstance(
                                y.func, ast.Attribute) and y.func.attr == \
                                'close' and isinstance(y.func.value,
                                                       ast.Name):
                            fin.add(y.func.value.id)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name):
                names[x.value] = x.targets[0].id
            elif isinstance(x, ast.Return) and x.value is not None:
                names[x.value] = '<return>'
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and (
                    isinstance(x.func, ast.Name) and x.func.id == 'open' or
                    isinstance(x.func, ast.Attribute) and x.func.attr ==
                    'File' and isinstance(x.func.value, ast.Name) and
                    x.func.value.id == 'h5py'):
                n += 1
                rep.check(x in ctx or names.get(x) in fin or
                          names.get(x) == '<return>', 'closed',
                          'file opened in %s' % f.qual, 'stays open when an '
                          'error occurs', '%s:%d' % (f.mod.path, x.lineno))
    return n


def hook_files(repo, rep):
    """what the saving hooks load is what they saved"""
    for name, save, load in (('SaveNetwork', '__call__', 'load_network'),
                             ('SaveBestNetwork', '__call__',
                              'load_best_network')):
        c = find_cls(repo, name)
        opq = lambda f: f.name in ('from_hdf5', 'message', 'get_by_path',
                                   'save_as_hdf5')
        files = set()
        I, st, ps, s = run(repo, c, save, raw=True, opaque=opq)
        net = None
        cached = set()
        stored = 0
        for p in live(ps):
            for e in p.events():
                if e.kind in ('call', 'mut') and fname(e.f) == \
                        'save_as_hdf5':
                    files.add(p.s(e.args[0]))
                    stored += 1
                    rep.check(recv(e.f) is V('sym', I.method(
                        c, save).params()[3]), 'hooks', '%s.%s' % (
                            name, save), 'saves %s' % recv(e.f), e.where())
                elif e.kind == 'setattr' and e.obj is s:
                    cached.add(e.name)
        fn = I.method(c, save)
        rep.saw(fn.qual)
        rep.check(stored, 'hooks', name + '.' + save, 'never saves', loc(fn))
        I, st, ps, s2 = run(repo, c, load, raw=True, opaque=opq)
        fn = I.method(c, load)
        rep.saw(fn.qual)
        for p in live(ps):
            v = p.s(p.val) if p.val is not None else NONE
            vs = [(v, {})]
            if v.op == 'phi':
                vs = [(v.a[1], 1), (v.a[2], 0)]
            for v, b in vs:
                if v.op == 'call' and fname(v.a[0]) == 'from_hdf5':
                    rep.check({nouid(v.a[1][0])} == {nouid(x) for x in
                                                     files}, 'hooks',
                              '%s.%s' % (name, load), 'loads %s, but saved '
                              'is %s' % (v.a[1][0], ', '.join(
                                  map(str, files))), loc(fn))
                elif v.op == 'attr' and v.a[0] is s2:
                    rep.check(v.a[1] in cached, 'hooks', '%s.%s' % (
                        name, load), 'returns %s, which is never kept' % v,
                        loc(fn))
                else:
                    o = I.obj(st, v)
                    rep.bad('hooks', '%s.%s' % (name, load), 'returns %s' %
                            v, loc(fn)) if v is NONE else rep.skip(
                                'hooks', '%s.%s' % (name, load),
                                'returns %s' % v)


def p31(repo, rep, tier):
    rep.rule('save', 'the complete description and the unchanged parameters '
             'are written')
    rep.rule('load', 'what is read was written under that name; the network '
             'is made from the description, then given the parameters')
    rep.rule('restore', 'every described attribute of a network is restored '
             'from the entry of its name')
    rep.rule('closed', 'files are closed on every path')
    rep.rule('hooks', 'the saving hooks load the file they saved')
    N = find_cls(repo, 'Network')
    keys, s = saver(repo, rep, N)
    loader(repo, rep, N, keys)
    restored(repo, rep, N)
    files_closed(repo, rep)
    hook_files(repo, rep)
    rep.need('save', 4, 'things written')
    rep.need('load', 5, 'things read')
    rep.need('restore', 6, 'attributes restored')
    rep.need('closed', 3, 'files opened')
    rep.need('hooks', 4, 'uses of saving hooks')
