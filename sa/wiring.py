"""Architectures built by wiring layers together (P26)."""
import ast

from .arch import Con, compare, fn_of, names
from .evalt import Eval, Rec, replay
from .interp import Interp, State
from .prog import (Unknown, calls, find_cls, flat, fname, live, recv, run,
                   run_fn, top)
from .repo import AnalysisBroken, Fn
from .structure import deep, final_attr, sym
from .terms import NONE, V, cval, is_const, subterms
from .valid import arch_, cons, judge, loc, nothing


class Layout(object):
    """positions of name, name and layer in the recorded connections"""
    out = inc = None


def connect(repo, rep):
    """a >> b records one connection, on both ends, and joins the scopes"""
    cls = find_cls(repo, 'ConstructionWrapper')
    ow, fn = repo.lookup(cls, '__rshift__')
    rep.saw('ConstructionWrapper.__rshift__')
    I, st, ps, s = run(repo, cls, '__rshift__', raw=True,
                       opaque=names('merge_scopes'))
    other = sym(fn.params()[1])
    mine, its = at(s, 'layer'), V('attr', other, 'layer')
    want_out = {at(s, 'output_name'), V('attr', other, 'input_name'), its}
    want_in = {mine, at(s, 'output_name'), V('attr', other, 'input_name')}
    L = Layout()
    n = 0
    for p in live(ps):
        if p.end == 'ret' and p.val is V('ext', 'NotImplemented'):
            rep.check(not any(e.kind in ('mut', 'setattr', 'setitem') for e
                              in p.events()), 'connect', 'unsupported '
                      'operand', 'changes something', loc(fn))
            continue
        n += 1
        rep.check(p.s(p.val) is other, 'connect', 'result of a >> b',
                  'is %s' % p.val, loc(fn))
        for end, want, place in ((mine, want_out, 'outgoing'),
                                 (its, want_in, 'incoming')):
            added, odd = [], []
            for i, e, loops in flat(p):
                v = None
                if e.kind in ('call', 'mut') and fname(e.f) in (
                        'append', 'insert', 'extend', 'add'):
                    if recv(e.f) is V('attr', end, place):
                        v = e.args[-1]
                elif e.kind == 'setattr' and e.name == place and \
                        e.obj is end:
                    v = e.val
                    if v.op == 'aug' and v.a[1] is V('attr', end, place):
                        v = v.a[2]
                    if v.op == 'bin' and v.a[0] == '+' and v.a[1] is V(
                            'attr', end, place):
                        v = v.a[2]
                elif e.kind == 'aug' and e.target is V('attr', end, place):
                    v = e.val
                if v is None:
                    continue
                o = I.obj(st, v)
                if o is not None and o.kind == 'list' and len(
                        o.items) == 1:
                    v = o.items[0]
                if v.op == 'tuple':
                    added.append((v.a[0], e))
                else:
                    odd.append(v)
            what = '%s connections of the %s layer' % (
                place, 'left' if end is mine else 'right')
            if odd:
                rep.skip('connect', what, str(odd[0]))
                continue
            rep.check(len(added) == 1, 'connect', what, '%d entries are '
                      'added' % len(added), loc(fn))
            for v, e in added[:1]:
                ok = rep.check(set(v) == want and len(v) == 3, 'connect',
                               'entry in ' + what, 'is %s' % (v,), e.where())
                if ok:
                    ks = [at(s, 'output_name'),
                          V('attr', other, 'input_name'),
                          its if place == 'outgoing' else mine]
                    setattr(L, place[:3], [list(v).index(k) for k in ks])
        m = [e for e in p.events() if e.kind == 'call' and
             fname(e.f) == 'merge_scopes']
        ends = {x for e in m for x in (recv(e.f),) + tuple(e.args)}
        rep.check(ends == {mine, its}, 'scope', 'a >> b joins the scopes',
                  'scopes of %s are joined' % (ends or 'no layers'),
                  loc(fn))
    if not n:
        raise AnalysisBroken('__rshift__: no connecting path')
    for meth, arg in (('__sub__', 'output_name'), ('__rsub__',
                                                   'input_name')):
        ow, fn = repo.lookup(cls, meth)
        rep.saw('ConstructionWrapper.' + meth)
        I, st, ps, s = run(repo, cls, meth, raw=True)
        other = sym(fn.params()[1])
        for p in live(ps):
            if p.val is V('ext', 'NotImplemented'):
                continue
            r = p.s(p.val)
            o = I.obj(st, r)
            if o is None:
                rep.skip('connect', meth, 'result %s' % r)
                continue
            rep.check(r is not s, 'connect', '%s gives a new wrapper' % meth,
                      'the wrapper itself is changed', loc(fn))
            for k in ('layer', 'input_name', 'output_name'):
                want = other if k == arg else at(s, k)
                got = p.s(o.attrs.get(k, NONE))
                rep.check(got is want, 'connect', '%s of x %s' % (k, meth),
                          'is %s' % got, loc(fn))
            rep.check(not any(e.kind == 'setattr' and e.obj is s for e in
                              p.events()), 'connect', '%s leaves the wrapper '
                      'alone' % meth, 'it is changed', loc(fn))
    return L


def at(o, n):
    return V('attr', o, n)


# ---------------------------------------------------------- descriptions --
def entries(D, ev, E, I, st):
    """(key, strings, replaces) for effects that add to a dict of lists"""
    if isinstance(ev, tuple):
        return None

    def is_d(x):
        return x is not None and x in D

    def lst(v):
        o = I.obj(st, v)
        if o is not None and o.kind == 'list' and o.more is None:
            return list(o.items)
        return None
    if ev.kind == 'setitem' and is_d(ev.obj):
        its = lst(ev.val)
        if its is None:
            v = ev.val
            # d[k] = d.get(k, []) + [x]
            if v.op in ('bin', 'aug') and v.a[0] == '+':
                r = lst(v.a[2])
                if r is not None and any(is_d(x) for x in
                                         subterms(v.a[1])):
                    return (ev.idx, r, False)
            o = I.obj(st, v)
            if o is not None and 'concat' in o.attrs:
                a, b = o.attrs['concat'].a[0]
                r = lst(b)
                if r is not None and any(is_d(x) for x in subterms(a)):
                    return (ev.idx, r, False)
            raise Unknown(ev.val)
        return (ev.idx, its, True)
    if ev.kind in ('call', 'mut') and fname(ev.f) in ('append', 'extend',
                                                      'add'):
        r = recv(ev.f)
        k = None
        if r is not None and r.op == 'idx' and is_d(r.a[0]):
            k = r.a[1]
        elif r is not None and r.op == 'call' and fname(r.a[0]) in (
                'setdefault', 'get') and is_d(recv(r.a[0])):
            k = r.a[1][0]
        if k is not None:
            v = ev.args[-1]
            if fname(ev.f) == 'extend':
                its = lst(v)
                if its is None:
                    raise Unknown(v)
                return (k, its, False)
            return (k, [v], False)
    return None


def descriptions(repo, rep, L):
    fn = fn_of(repo, 'get_layer_description')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True, opaque=names('name'))
    d = sym(fn.params()[0])
    where = loc(fn)
    # the result, with its entries
    for p in live(ps):
        r = p.s(p.val)
        o = I.obj(st, r)
        if o is None or o.kind != 'dict':
            rep.skip('description', fn.qual, 'result %s' % r)
            return
        get = {cval(k): v for k, v in o.items.items() if is_const(k)}
        t = get.get('@type')
        rep.check(t is not None and p.s(t) is at(d, 'layer_type'),
                  'description', '@type', 'is %s' % t, where)
        out = get.get('@outgoing_connections')
        if out is None:
            rep.bad('description', '@outgoing_connections', 'are missing',
                    where)
            return
        kw = at(d, 'layer_kwargs')
        has = p.conds.get(kw)
        if has is None:
            has = not any(c.op == 'not' and c.a[0] is kw and b
                          for c, b in p.conds.items())
        used = any(e.kind in ('mut', 'call') and fname(e.f) == 'update' and
                   recv(e.f) is r and kw in e.args for e in p.events()) or \
            kw in deep(I, st, r) or any(
                hasattr(x, 'paths') and kw in subterms(x.node.it)
                for x in p.items)
        rep.check(used or not has, 'description', 'options of the layer',
                  'are not part of the description', where)
        oo = I.obj(st, p.s(out))
        D = {p.s(out)}
        if oo is None or oo.kind != 'dict':
            if p.s(out).op == 'call':
                # dict(x), defaultdict
                D |= set(p.s(out).a[1])
            else:
                rep.skip('description', '@outgoing_connections',
                         'value %s' % out)
                return
        if L.out is None:
            rep.skip('description', 'connections', 'layout of the entries '
                     'unknown')
            return
        po, pi, pl = L.out

        def con(o_, i_, l_):
            x = [None] * 3
            x[po], x[pi], x[pl] = o_, i_, Rec(name=l_)
            return tuple(x)
        sample = [con('o1', 'i1', 'A'), con('o2', 'i2', 'B'),
                  con('o1', 'i3', 'A'), con('o1', 'i1', 'C')]
        env = {at(d, 'outgoing'): sample}

        def extract(ev, E):
            e = entries(D, ev, E, I, st)
            if e is None:
                return []
            return [('entry', E(e[0]), E(x)) for x in e[1]]
        F = replay(I, st, [p], env, extract, leaf=is_known(D, True))
        G = replay(I, st, [p], env, extract, leaf=is_known(D, False))
        want = [('entry', x[po], '%s.%s' % (x[pl].name, x[pi]))
                for x in sample]
        compare(rep, 'description', 'connections of a layer (name known)',
                F, want, where)
        compare(rep, 'description', 'connections of a layer (new name)',
                G, want, where)
        # entries that exist are not replaced
        for i, e, loops in flat(p):
            try:
                x = entries(D, e, None, I, st)
            except Unknown:
                continue
            if x is None or not x[2] or not loops:
                continue
            q = loops[-1][1]
            fresh = any(is_member(c, D, x[0]) and not v or
                        is_absent(c, D, x[0]) and v
                        for c, v in q.conds.items())
            rep.check(fresh, 'description', 'connections under one name',
                      'earlier connections of the output are replaced',
                      e.where())


def is_member(c, D, k):
    return c.op == 'cmp' and c.a[0] == 'in' and c.a[1] is k and any(
        x in D for x in subterms(c.a[2]))


def is_absent(c, D, k):
    return c.op == 'cmp' and c.a[0] == 'not in' and c.a[1] is k and any(
        x in D for x in subterms(c.a[2]))


def is_known(D, yes):
    def leaf(v):
        if v.op == 'cmp' and v.a[0] in ('in', 'not in') and any(
                x in D for x in subterms(v.a[2])):
            return [(v.a[0] == 'in') == yes]
        return None
    return leaf


def architecture(repo, rep):
    fn = fn_of(repo, 'generate_architecture')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True, opaque=names(
        'collect_connected_layers', 'get_layer_description', 'name'))
    P = sym(fn.params()[0])
    sample = [Rec(name='A', layer=None), Rec(name='B', layer=None),
              Rec(name='C', layer=None)]
    want = {x.name: 'descr ' + x.name for x in sample}
    for what, v in (('layer', Rec(layer=None, name='s')),
                    ('wrapper', Rec(layer=Rec(layer=None, name='s'),
                                    name='w'))):
        start = v if v.layer is None else v.layer

        def leaf(t):
            if t.op == 'call' and t.a[0] is V('ext', 'isinstance') and \
                    t.a[1][0] is P:
                return [v.layer is not None]
            return None
        got = []
        for p in live(ps):
            E = Eval(I, st, {P: v}, None, {
                'collect_connected_layers': lambda x: sample
                if x is start else [],
                'get_layer_description': lambda x: 'descr ' + x.name})
            E.leaf = leaf
            if not E.holds(p.conds):
                continue
            try:
                got.append(E(p.val))
            except Unknown as e:
                # built in a loop
                r = p.s(p.val)
                F = replay(I, st, [p], {P: v}, lambda ev, E_: [
                    (E_(ev.idx), E_(ev.val))] if not isinstance(
                        ev, tuple) and ev.kind == 'setitem' and
                    ev.obj is r else [], E.funcs, leaf)
                compare(rep, 'all-layers', 'architecture from a ' + what, F,
                        sorted(want.items()), loc(fn))
        for g in got:
            rep.check(g == want, 'all-layers', 'architecture from a ' + what,
                      'is %s for the layers %s' % (
                          g, [x.name for x in sample]), loc(fn))


def closure(repo, rep, L):
    """collect_connected_layers follows connections both ways, to the end"""
    cls = find_cls(repo, 'LayerDetails')
    ow, fn = repo.lookup(cls, 'collect_connected_layers')
    rep.saw('LayerDetails.collect_connected_layers')
    I, st, ps, s = run(repo, cls, 'collect_connected_layers', raw=True)
    for p in live(ps):
        ts = set()
        for i, e, loops in flat(p):
            for v in e.d.values() if hasattr(e, 'd') else vals(e):
                ts |= deep(I, st, v)
            for li, q in loops:
                ts |= deep(I, st, q.s(li.node.it)) if li.node.it is not \
                    None else set()
        ts |= deep(I, st, p.s(p.val))
        for x in p.items:
            ts |= ups(x, I, st)
        for place, k in (('outgoing', L.out), ('incoming', L.inc)):
            if k is None:
                continue
            es = [t for t in ts if t.op == 'idx' and is_const(t.a[1]) and
                  t.a[0].op == 'elem' and t.a[0].a[0].op == 'attr' and
                  t.a[0].a[0].a[1] == place]
            whole = [t for t in ts if t.op == 'attr' and t.a[1] == place]
            if not whole:
                rep.bad('connected', 'layers reached by %s connections' %
                        place, 'are not collected', loc(fn))
            elif not es:
                rep.skip('connected', place, 'use of the connections')
            else:
                ok = [t for t in es if cval(t.a[1]) % 3 == k[2]]
                rep.check(ok, 'connected', 'layers reached by %s '
                          'connections' % place, 'entry %s of a connection '
                          'is followed' % es[0].a[1], loc(fn))
        # repeated: the layers that are expanded change from round to round
        rnd = [x for x in p.items if hasattr(x, 'paths') and
               x.node.it is None]
        rec = any(e.kind == 'call' and fname(e.f) == fn.name
                  for e in p.events())
        own = [x for x in p.items if hasattr(x, 'paths') and
               x.node.it is not None and x.node.it not in (
                   at(s, 'outgoing'), at(s, 'incoming'))]
        what = 'layers are collected until no new ones are found'
        if rnd or rec:
            rep.ok('connected', what, loc(fn))
        elif own:
            rep.skip('connected', what, 'loop over %s' % own[0].node.it)
        else:
            rep.bad('connected', what, 'only one step is taken', loc(fn))
        rep.check(s in ts, 'connected', 'the layer itself', 'is not '
                  'collected', loc(fn))


def vals(e):
    return [v for v in vars(e).values() if isinstance(v, V)] + [
        y for v in vars(e).values() if isinstance(v, (list, tuple))
        for y in v if isinstance(y, V)]


def ups(x, I, st):
    out = set()
    if hasattr(x, 'paths'):
        n = x.node
        for v in vars(n).values():
            if isinstance(v, dict):
                for y in v.values():
                    if isinstance(y, V):
                        out |= deep(I, st, y)
            elif isinstance(v, V):
                out |= deep(I, st, v)
        for q in x.paths:
            for y in q.items:
                out |= ups(y, I, st)
    return out


# ----------------------------------------------------------------- names --
def scopes(repo, rep):
    cls = find_cls(repo, 'UniquelyNamed')
    ow, fn = repo.lookup(cls, 'merge_scopes')
    rep.saw('UniquelyNamed.merge_scopes', 'UniquelyNamed.__init__',
            'UniquelyNamed.name')
    I, st, ps, s = run(repo, cls, 'merge_scopes', raw=True)
    oth = at(sym(fn.params()[1]), 'scope')
    mine = at(s, 'scope')
    where = loc(fn)
    for p in live(ps):
        # every name of the other scope is taken over, in every case
        loops_ = [x for x in p.items if hasattr(x, 'paths') and
                  oth in subterms(x.node.it)]
        done = False
        for x in loops_:
            cover = []
            for q in x.paths:
                sets = [e for e in q.items if getattr(e, 'kind', None) ==
                        'setitem']
                hit = None
                for e in sets:
                    ds = deep(I, st, q.s(e.val))
                    if any(t.op in ('idx', 'valueof') and oth in subterms(t)
                           for t in ds) or oth in ds and any(
                               t.op == 'elem' for t in ds):
                        hit = e, ds
                cover.append(hit)
                if hit is None:
                    continue
                e, ds = hit
                # the own members stay
                absent = any(c.op == 'cmp' and not v and c.a[0] == 'in' and
                             mine in subterms(c.a[2]) or c.op == 'cmp' and
                             v and c.a[0] == 'not in' and
                             mine in subterms(c.a[2])
                             for c, v in q.conds.items())
                own = any(t.op == 'idx' and t.a[0] is mine for t in ds) or \
                    any(t.op == 'call' and fname(t.a[0]) in (
                        'get', 'setdefault') and recv(t.a[0]) is mine
                        for t in ds)
                rep.check(own or absent, 'scope', 'members of the own scope',
                          'are lost when scopes are joined', e.where())
                # each member once
                once = any(t.op == 'call' and t.a[0].op == 'ext' and
                           t.a[0].a[0] in ('set', 'frozenset',
                                           'collections.OrderedDict',
                                           'dict.fromkeys') for t in ds) or \
                    any(I.obj(st, t) is not None and I.obj(st, t).kind in (
                        'set', 'dict') for t in ds if t.op == 'ref') or any(
                            t.op == 'cmp' and t.a[0] in ('in', 'not in')
                            and t.a[1].op == 'elem'
                            for t in list(ds) + list(q.conds))
                rep.check(once or absent and not own, 'scope', 'members of a '
                          'joined scope', 'a layer can be listed twice and '
                          'so get several names', e.where())
                # in an order that does not depend on how they were joined
                srt = [t for t in ds if t.op == 'call' and t.a[0] is V(
                    'ext', 'sorted')]
                if not srt and once and not any(
                        getattr(y, 'kind', None) in ('call', 'mut') and
                        fname(y.f) == 'sort' for y in q.items):
                    uno = any(t.op == 'call' and t.a[0] is V('ext', 'set')
                              for t in ds)
                    if uno or any(I.obj(st, t) is not None and I.obj(
                            st, t).kind == 'set' for t in ds
                            if t.op == 'ref'):
                        rep.bad('scope', 'order of a joined scope',
                                'names depend on the order of a set',
                                e.where())
                for t in srt:
                    kf = dict(t.a[2]).get('key')
                    rep.check(kf is not None, 'scope', 'order of a joined '
                              'scope', 'layers are sorted without a key',
                              e.where())
            if all(cover):
                done = True
            elif any(cover):
                rep.bad('scope', 'names of the other scope', 'are only '
                        'sometimes taken over', where)
                done = True
        if not done:
            rep.skip('scope', 'merge_scopes', 'joining not recognised')
        # all members get the joined scope
        ok = False
        for i, e, loops in flat(p):
            if e.kind == 'setattr' and e.name == 'scope' and e.obj.op == \
                    'elem':
                ok = True
                v = p.s(e.val)
                good = v is mine or v.op == 'ref'
                rep.check(good, 'scope', 'scope the members get', 'is %s' %
                          v, e.where())
        rep.check(ok, 'scope', 'members get the joined scope', 'layers keep '
                  'their old scope', where)
    # creation order
    ow, init = repo.lookup(cls, '__init__')
    I, st, ps, s = run(repo, cls, '__init__', raw=True)
    ow, nm = repo.lookup(cls, 'name')
    keys = {x.attr for x in ast.walk(fn.node) if isinstance(
        x, ast.Attribute) and x.attr not in ('scope', 'items', 'keys',
                                             'values', 'append', 'get')}
    for p in live(ps):
        o = I.obj(st, s)
        sc = p.s(o.attrs.get('scope', NONE))
        so = I.obj(st, sc)
        b = sym(init.params()[1])
        if so is None or so.kind != 'dict':
            rep.skip('scope', 'initial scope', 'value %s' % sc)
        else:
            v = list(so.items.values())
            m = I.obj(st, v[0]) if v else None
            rep.check(m is not None and list(so.items) and m.items == [s],
                      'scope', 'initial scope', 'does not contain exactly '
                      'the layer itself', loc(init))
        if 'creation_id' in keys:
            bump = [e for e in p.events() if e.kind == 'setattr' and
                    e.obj is not s and e.aug == '+' or e.kind == 'call' and
                    e.f.op == 'ext' and e.f.a[0] == 'next']
            rep.check(bool(bump), 'scope', 'creation ids differ', 'the '
                      'counter is not advanced', loc(init))
    unique_name(repo, rep, cls, nm)


def unique_name(repo, rep, cls, fn):
    I, st, ps, s = run(repo, cls, 'name', raw=True)
    base = at(s, '_basename')
    members = V('idx', at(s, 'scope'), base)
    where = loc(fn)

    def rets(p, path):
        for x in p.items:
            if hasattr(x, 'paths'):
                for q in x.paths:
                    if q.end == 'ret':
                        yield q, x
                    for y in rets(q, None):
                        yield y
    n = 0
    loops = [x for p in live(ps) for x in p.items if hasattr(x, 'paths') and
             members in subterms(x.node.it)]
    for p in live(ps):
        if p.end == 'ret' and p.val is base:
            one = V('cmp', '==', V('call', V('ext', 'len'), (members,), (),
                                   0), V('const', 1))
            E = Eval(I, st, {members: [s, 'x'], base: 'B'})
            rep.check(not E.holds(p.conds), 'unique', 'plain name', 'is '
                      'given although several layers share it', where)
            n += 1
    for x in loops:
        for q in x.paths:
            whiles = [y for y in q.items if hasattr(y, 'paths') and
                      y.node.it is None]
            augs = [e for e in q.items if getattr(e, 'kind', '') == 'aug'
                    and e.aop == '+']
            if q.end != 'ret':
                if q.end == 'cont' or q.end is None:
                    rep.check(bool(augs), 'unique', 'number of the next '
                              'layer', 'does not change from layer to layer',
                              where)
                    n += 1
            else:
                rep.check(any(c.op == 'cmp' and s in (c.a[1], c.a[2]) and (
                    v == (c.a[0] in ('is', '=='))) for c, v in
                    q.conds.items()), 'unique', 'layer whose name is '
                    'returned', 'need not be the layer itself', where)
                v = q.val
                rep.check(bool(whiles) and v.op == 'loopout', 'unique',
                          'returned name', 'may be taken by another layer '
                          'of the same scope', where)
                n += 1
            for w in whiles:
                # leaves the loop only with a name no other layer has
                names_ = [v for r in w.paths for c in r.conds for v in
                          subterms(c) if v.op == 'loopvar']
                adv = all(any(getattr(e, 'kind', '') == 'aug' for e in
                              r.items) for r in w.paths if r.end in
                          (None, 'cont'))
                rep.check(adv, 'unique', 'next candidate', 'the number is '
                          'not advanced', where)
                if w.node.cond is not None if hasattr(w.node, 'cond') else \
                        False:
                    pass
    if not n:
        rep.skip('unique', fn.qual, 'not recognised')


# ------------------------------------------------------------- creation --
def creation(repo, rep):
    cls = find_cls(repo, 'ConstructionWrapper')
    det = find_cls(repo, 'LayerDetails')
    ow, fn = repo.lookup(cls, 'create')
    rep.saw('ConstructionWrapper.create', 'LayerDetails.__init__')
    I, st, ps, s = run(repo, cls, 'create', raw=True,
                       kwargs={'opt1': sym('@1'), 'opt2': sym('@2')})
    T, N = sym(fn.params()[1]), sym(fn.params()[2])
    n = 0
    for p in live(ps):
        r = I.obj(st, p.s(p.val))
        d = r and I.obj(st, p.s(r.attrs.get('layer', NONE)))
        if not d:
            rep.skip('creation', fn.qual, 'result %s' % p.val)
            continue
        n += 1
        kw = I.obj(st, p.s(d.attrs.get('layer_kwargs', NONE)))
        got = {cval(k): v for k, v in kw.items.items()} if kw else {}
        rep.check(got == {'opt1': sym('@1'), 'opt2': sym('@2')}, 'creation',
                  'options given to a layer', 'are kept as %s' % got,
                  loc(fn))
        for k in ('input_name', 'output_name'):
            v = p.s(r.attrs.get(k, NONE))
            rep.check(is_const(v) and cval(v) == 'default', 'creation',
                      '%s of a new layer' % k, 'is %s' % v, loc(fn))
        for k in ('incoming', 'outgoing'):
            o = I.obj(st, p.s(d.attrs.get(k, NONE)))
            rep.check(o is not None and o.kind == 'list' and not o.items,
                      'creation', '%s connections of a new layer' % k,
                      'are not an empty list of their own', loc(fn))
        for tn, nm in (('FooLayerImpl', None), ('FooLayerImpl', 'bar')):
            for byname in (True, False):
                val = tn if byname else Rec(__name__=tn)
                E = Eval(I, st, {T: val, N: nm})
                if not E.holds(p.conds):
                    continue
                try:
                    t = E(p.s(d.attrs['layer_type']))
                    b = E(p.s(d.attrs['_basename']))
                except (Unknown, KeyError):
                    rep.skip('creation', 'type', 'value not recognised')
                    continue
                rep.check(t == 'Foo' and b == (nm or 'Foo'), 'creation',
                          'type and name of a layer', '%s, %s becomes %s, %s'
                          % (tn, nm, t, b), loc(fn))
    # the type name and the class name correspond
    fn = fn_of(repo, 'instantiate_layers_from_architecture')
    # layer functions pass every argument on under its name
    create = repo.lookup(cls, 'create')[1]
    lay = find_cls(repo, 'Layer')
    for f in repo.functions():
        if f.cls is not None or not any(
                isinstance(x, ast.Attribute) and x.attr == 'create' and
                isinstance(x.value, ast.Name) for x in ast.walk(f.node)):
            continue
        r = repo.resolve(f.mod, 'ConstructionWrapper')
        if not r or r[0] != 'cls' or r[1] is not cls:
            continue
        a = f.node.args
        ps_ = f.params() + [x.arg for x in a.kwonlyargs]
        I, st, ps = run_fn(repo, f, opaque=lambda g: g is create,
                           args=[sym(x) for x in f.params()],
                           kwargs={x.arg: sym(x.arg) for x in a.kwonlyargs})
        rep.saw(f.qual)
        for p in live(ps):
            es = [e for e in p.events() if e.kind == 'call' and
                  e.f.op in ('func', 'bound') and e.f.a[0] is create]
            if len(es) != 1:
                continue
            e = es[0]
            c = e.args[0] if e.args else e.kw.get(fn_param(create, 1))
            ok = c is not None and c.op == 'cls'
            if ok:
                rep.check(lay in repo.mro(c.a[0]), 'creation', 'class made '
                          'by %s' % f.name, 'is no layer', e.where())
            given = dict(e.kw)
            if len(e.args) > 1:
                given['name'] = e.args[1]
            exp = kwargs_of(repo, c.a[0]) if ok else None
            for x in ps_:
                use = [k for k, v in given.items() if x in [
                    t.a[0] for t in subterms(v) if t.op == 'sym'] or
                    I.obj(st, v) is not None and sym(x) in deep(I, st, v)]
                if not use:
                    # left out on a path that tests the argument
                    if any(sym(x) in subterms(c_) for c_ in p.conds):
                        rep.ok('pass-on', '%s(%s)' % (f.name, x))
                    else:
                        rep.bad('pass-on', '%s(%s)' % (f.name, x), 'the '
                                'option is dropped', e.where())
                    continue
                for k in use:
                    direct = given[k] is sym(x)
                    if direct and k != x and x in (exp or ()):
                        rep.bad('pass-on', '%s(%s)' % (f.name, x), 'is '
                                'passed as option %s' % k, e.where())
                    else:
                        rep.ok('pass-on', '%s(%s)' % (f.name, x))
            for k in given:
                if k != 'name' and exp is not None:
                    rep.check(k in exp, 'pass-on', 'option %s of %s' % (
                        k, f.name), 'is unknown to %s' % c.a[0].name,
                        e.where())


def fn_param(f, i):
    return f.params()[i]


def kwargs_of(repo, cls):
    from .valid import expected
    return expected(repo, cls)


# ---------------------------------------------------------- connections --
def connections(repo, rep):
    fn = fn_of(repo, 'collect_all_outgoing_connections')
    rep.saw(fn.qual, 'brainstorm.structure.architecture.parse_connection')
    I, st, ps = run_fn(repo, fn, raw=True)
    Lp, Np = [sym(x) for x in fn.params()[:2]]
    for what, o in (('list', ['B', 'C.x', 'B.default']),
                    ('tuple', ('B.y',)), ('empty list', []),
                    ('empty dictionary', {}),
                    ('dictionary', {'out': ['B', 'C.x'], 'o2': ['B'],
                                    'default': ['D.y'],
                                    '..parameters.W': ['D.z']})):
        layer = {'@type': 'X', '@outgoing_connections': o}
        want = [c for c in cons({'A': layer})]

        def extract(ev, E):
            if isinstance(ev, tuple):
                r = ev[1].val
                if ev[1].end != 'ret' or r is None:
                    return []
                try:
                    x = E(r)
                except Unknown:
                    return []
                return list(x)
            if ev.kind == 'mut' and fname(ev.f) == 'append':
                return [E(ev.args[0])]
            if ev.kind == 'mut' and fname(ev.f) == 'extend':
                return list(E(ev.args[0]))
            return []
        F = replay(I, st, ps, {Lp: layer, Np: 'A'}, extract)
        compare(rep, 'read', 'connections given as a ' + what, F, want,
                loc(fn))
    fn = fn_of(repo, 'collect_all_connections')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True, opaque=names(
        'collect_all_outgoing_connections'))
    A = sym(fn.params()[0])
    a = arch_()
    F = replay(I, st, ps, {A: a}, extract, {
        'collect_all_outgoing_connections':
            lambda l, n: cons({n: l})})
    compare(rep, 'read', 'connections of an architecture', F, cons(a),
            loc(fn))
    fn = fn_of(repo, 'get_kwargs')
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True)
    d = {'@type': 'X', '@outgoing_connections': [], 'size': 3, 'type': 'm'}
    ev = dict(size=3, type='m')
    got = []
    for p in live(ps):
        E = Eval(I, st, {sym(fn.params()[0]): d}, None)
        if not E.holds(p.conds):
            continue
        try:
            rep.check(E(p.val) == ev, 'read', 'options in an architecture',
                      'are %s' % (E(p.val),), loc(fn))
        except Unknown as e:
            rep.skip('read', 'options', 'value %s' % e)


def instantiate(repo, rep):
    fn = fn_of(repo, 'instantiate_layers_from_architecture')
    rep.saw(fn.qual)
    comb = []
    I, st, ps = run_fn(repo, fn, raw=True, opaque=names(
        'validate_architecture', 'get_canonical_layer_order',
        'collect_all_connections', 'get_layer_class_from_typename',
        'get_kwargs', 'combine_buffer_structures', 'get_shape',
        'get_normalized_path'))
    A = sym(fn.params()[0])
    a = arch_(B={'@type': 'Y', '@outgoing_connections': {
        'q': ['C.b', 'C.a']}}, C={'@type': 'Z', '@outgoing_connections': []})
    a['Input'] = {'@type': 'Input', '@outgoing_connections': ['A', 'C.a']}
    order = ['Input', 'A', 'B', 'C']
    cc = cons(a)

    funcs = {
        'validate_architecture': lambda x: True,
        'get_canonical_layer_order': lambda x: order,
        'collect_all_connections': lambda x: cc,
        'get_layer_class_from_typename': lambda n: 'class ' + n,
        'get_kwargs': lambda l: {'@of': l['@type']},
        'combine_buffer_structures': lambda x: sorted(x),
        'get_shape': lambda l, p: (l, p)}

    def extract(ev, E):
        if isinstance(ev, tuple) or ev.kind != 'call':
            return []
        f = ev.f
        if not (f.op == 'call' and fname(f.a[0]) ==
                'get_layer_class_from_typename'):
            return []
        args = [ev.args[i] if i < len(ev.args) else ev.kw[k] for i, k in
                ((0, 'name'), (2, 'incoming_connections'),
                 (3, 'outgoing_connections'))]
        args = [E(x) for x in args]
        return [('made', E(f), args[0], tuple(sorted(args[1])),
                 tuple(sorted(args[2])), E(f.a[1][0]))]

    env = {A: a}
    F = replay(I, st, ps, env, extract, funcs)
    want = []
    for n in order:
        t = a[n]['@type'] + 'LayerImpl'
        want.append(('made', 'class ' + t, n,
                     tuple(c for c in cc if c.end_layer == n),
                     tuple(c for c in cc if c.start_layer == n), t))
    compare(rep, 'read', 'layers made from an architecture', F, want,
            loc(fn))
    # options
    for p in live(ps):
        es = [(e, loops) for i, e, loops in flat(p) if e.kind == 'call' and
              e.f.op == 'call' and fname(e.f.a[0]) ==
              'get_layer_class_from_typename']
        for e, loops in es:
            ks = [v for k, v in e.kw.items() if k in (None, '**')] + [
                v for k, v in e.kw.items()]
            ok = any('get_kwargs' == fname(t.a[0]) for v in ks + list(
                e.args) for t in subterms(v) if t.op == 'call')
            if not ok and not ks:
                rep.bad('read', 'options of the layers that are made',
                        'are not passed', e.where())
            elif ok:
                rep.ok('read', 'options of the layers that are made')
            else:
                rep.skip('read', 'options of the layers', str(ks[:1]))
    # shapes of the inputs: all and only the outputs connected to them
    in_shapes(repo, rep, I, st, ps, env, funcs, a, cc, order, fn)


def in_shapes(repo, rep, I, st, ps, env, funcs, a, cc, order, fn):
    def extract(ev, E):
        if isinstance(ev, tuple) or ev.kind != 'setitem':
            return []
        v = ev.val
        if not any(t.op == 'call' and fname(t.a[0]) ==
                   'combine_buffer_structures' for t in subterms(v)):
            return []
        return [(E(ev.idx), tuple(E(v)))]

    def leaf(v, E):
        # the layers made so far, by name
        if v.op == 'idx' and v.a[0].op == 'ref' and I.obj(
                st, v.a[0]) is not None and I.obj(
                    st, v.a[0]).kind == 'dict' and 'start_layer' in [
                        t.a[1] for t in subterms(v.a[1]) if t.op == 'attr']:
            return [E(v.a[1])]
        return None
    F = replay(I, st, ps, env, extract, funcs, leaf)
    got = {x for x in F.may}
    want = set()
    for n in order:
        for i in {c.input_name for c in cc if c.end_layer == n}:
            want.add((i, tuple(sorted(
                (c.start_layer, 'outputs.' + c.output_name) for c in cc
                if c.end_layer == n and c.input_name == i))))
    if F.und or not got:
        rep.skip('read', 'shapes of the inputs', 'not recognised: %s' % (
            F.und[0][1] if F.und else None))
    else:
        rep.check(got == want, 'read', 'shapes of the inputs', 'are '
                  'combined from %s' % sorted(got ^ want)[:2], loc(fn))


def p26(repo, rep, tier):
    rep.rule('connect', 'a >> b records exactly one connection between the '
             'named ports, on both ends')
    rep.rule('scope', 'wired layers share one scope in which each is listed '
             'once, in order of creation')
    rep.rule('unique', 'numbered names skip names that are taken')
    rep.rule('description', 'a description holds type, options and every '
             'outgoing connection')
    rep.rule('all-layers', 'every connected layer is described under its '
             'name')
    rep.rule('connected', 'connections are followed in both directions')
    rep.rule('creation', 'type, name and options are taken as given')
    rep.rule('pass-on', 'layer functions pass each argument on under its '
             'own name')
    rep.rule('read', 'connections and options are read back from an '
             'architecture as written')
    L = connect(repo, rep)
    descriptions(repo, rep, L)
    architecture(repo, rep)
    closure(repo, rep, L)
    scopes(repo, rep)
    creation(repo, rep)
    connections(repo, rep)
    instantiate(repo, rep)
    rep.need('connect', 4, 'wirings')
    rep.need('read', 4, 'readings')
