"""Memory of a network: parameters survive (P20), backward memory is zeroed
(P21), context (P22), order of execution (P23)."""
import ast

from .interp import Interp, State
from .paths import LoopItem, TooMany
from .prog import (Unknown, arg, arith, calls, consistent, elem_of, escapes,
                   find_cls, flat, fname, live, nouid, recv, run, run_fn,
                   slice_range, source, top)
from .repo import AnalysisBroken, Fn
from .terms import V, const, is_const, cval, subterms, NONE, TRUE, FALSE


def sym(n):
    return V('sym', n)


def view_builders(repo):
    """module level functions that build or adjust BufferViews, and those
    that call them"""
    fns = {}
    for m in repo.modules.values():
        for n, b in m.bindings.items():
            if b[0] == 'fn':
                fns[b[1]] = {x.id for x in ast.walk(b[1].node)
                             if isinstance(x, ast.Name)} | {
                    x.attr for x in ast.walk(b[1].node)
                    if isinstance(x, ast.Attribute)}
    made = set()
    for f in fns:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and (
                    isinstance(x.func, ast.Name) and
                    x.func.id == 'BufferView' or
                    isinstance(x.func, ast.Attribute) and
                    x.func.attr in ('BufferView', 'adjust')):
                made.add(f)
    grow = True
    while grow:
        grow = False
        names = {f.name for f in made}
        for f, ids in fns.items():
            if f not in made and ids & names and \
                    f.mod.name.endswith('structure.buffers'):
                made.add(f)
                grow = True
    if not made:
        raise AnalysisBroken('no function builds BufferViews')
    return made


class Model(object):
    """a Network whose buffer manager is known"""

    def __init__(self, repo):
        self.repo = repo
        self.net = find_cls(repo, 'Network')
        self.mgr = find_cls(repo, 'BufferManager')
        self.builders = view_builders(repo)
        self.attr = self.manager_attr()

    def opaque(self, fn):
        return fn in self.builders or fn.name == 'validate_architecture'

    def manager_attr(self):
        I = Interp(self.repo, opaque=lambda f: f.cls is not self.net or
                   f.name != '__init__')
        st = State()
        m = I.instance(st, self.mgr)
        s = I.instance(st, self.net)
        fn = I.method(self.net, '__init__')
        args = [m if 'manager' in p or p == 'buffers' else sym(p)
                for p in fn.params()[1:]]
        v, st2, blk = I.run(fn, args, st, self_v=s)
        for k, v in I.obj(st2, s).attrs.items():
            if v is m:
                return k
        raise AnalysisBroken('Network.__init__ keeps no buffer manager')

    def net_run(self, meth, args=None, kwargs=None, **attrs):
        box = {}

        def setup(I, st, s):
            box['mgr'] = I.instance(st, self.mgr)
            o = I.obj(st, s)
            o.attrs[self.attr] = box['mgr']
            o.attrs.update(attrs)
        I, st, ps, s = run(self.repo, self.net, meth, args=args,
                           kwargs=kwargs, opaque=self.opaque, setup=setup)
        return I, st, ps, s, box['mgr']


def at(o, n):
    return V('attr', o, n)


def final_attr(p, obj, name, default=None):
    v = default
    for e in p.events():
        if e.kind == 'setattr' and e.obj is obj and e.name == name:
            v = p.s(e.val)
    return v


# ------------------------------------------------------------------- P20 --
def builder_call(M, e):
    return e.kind == 'call' and e.f.op == 'func' and e.f.a[0] in M.builders


def check_rebuild(rep, M, I, st, p, mgr, what, old_handler, new_handler,
                  sizes):
    """one path on which the views are built again"""
    rule = 'save-restore'
    views0 = at(mgr, 'views')
    evs = list(p.events())
    bi = [i for i, e in enumerate(evs) if builder_call(M, e)]
    where = evs[bi[0]].where()
    for e in evs:
        if e.kind == 'setattr' and e.name == 'buffers' and e.obj is mgr:
            break
    none = p.conds.get(V('cmp', 'is', views0, NONE))
    views1 = p.s(evs[bi[-1]].res)
    fb = final_attr(p, mgr, 'full_buffer', at(mgr, 'full_buffer'))
    realloc = fb is not at(mgr, 'full_buffer')
    rep.saw(M.mgr.name + '.' + what)
    # current memory
    rep.check(not (realloc and is_const(fb, None)), 'memory', what +
              ' memory', 'the views are built on no memory', where)
    if realloc and not is_const(fb, None):
        h = p.s(recv(fb.a[0])) if fb.op == 'call' and recv(
            fb.a[0]) is not None else None
        if h is not None and fname(fb.a[0]) in ('allocate', 'zeros', 'ones'):
            rep.check(h is new_handler, 'memory', what + ' allocates with '
                      'the current handler', 'memory comes from %s' % h,
                      where)
            n = fb.a[1][0] if fb.a[1] else None
            if n is not None and n.op == 'tuple' and len(n.a[0]) == 1:
                n = n.a[0][0]
            sz = final_attr(p, mgr, 'size')
            rep.check(sz is not None and n is not None and p.s(sz) is p.s(n),
                      'memory', what + ' records the size',
                      'allocated %s but recorded size %s' % (n, sz), where)
    elif what == 'set_handler':
        rep.bad('memory', what + ' new memory', 'the old memory stays in use '
                'with the new handler', where)
    # buffers come from the current memory
    bufs = final_attr(p, mgr, 'buffers')
    if bufs is None:
        rep.bad('memory', what + ' buffers', 'buffers are not updated', where)
    else:
        o = I.obj(st, bufs)
        if o is not None:
            ts = set()
            for x in list(o.items) + ([o.more] if o.more is not None else []):
                if isinstance(x, V):
                    ts |= subterms(p.s(x))
            old = at(mgr, 'full_buffer')
            rep.check(not (realloc and old in ts), 'memory',
                      what + ' buffers', 'buffers are cut from the old '
                      'memory', where)
        used = any(bufs in subterms(x) for x in
                   list(evs[bi[-1]].args) + list(evs[bi[-1]].kw.values()))
        rep.check(used or at(mgr, 'buffers') not in evs[bi[-1]].args,
                  'memory', what + ' views', 'the views are built on the old '
                  'buffers', where)
    rep.check(final_attr(p, mgr, 'views') is views1, 'current-views',
              what + ' keeps the new views', 'self.views is not the result of '
              'the rebuild', where)
    for n, v in sizes.items():
        got = final_attr(p, mgr, n)
        rep.check(got is v, 'size-recorded', '%s records %s' % (what, n),
                  '%s is %s after the rebuild' % (n, got), where)
    if none is True:
        return
    if not realloc and what == 'resize':
        rep.ok(rule, what + ' keeps the memory', where)
        # in place: parameters must not be overwritten
    saves = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and
             fname(e.f) == 'get_numpy_copy' and e.args and
             p.s(e.args[0]).op == 'attr' and
             p.s(e.args[0]).a[1] == 'parameters']
    puts = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and
            fname(e.f) in ('set_from_numpy', 'copy_to') and
            any(p.s(x).op == 'attr' and p.s(x).a[1] == 'parameters'
                for x in e.args)]
    if not realloc and not puts:
        return
    if not puts:
        rep.bad(rule, what + ' restores the parameters', 'no path puts the '
                'saved parameters into the new memory', where)
        return
    i, e = puts[-1]
    if fname(e.f) == 'copy_to':
        rep.skip(rule, what, 'parameters restored with copy_to')
        return
    dest, val = p.s(arg(e, 0, 'mem')), p.s(arg(e, 1, 'arr'))
    rep.check(i > bi[-1] and dest in (at(views1, 'parameters'),
                                      at(views0, 'parameters')),
              rule, what + ' restores into the new views',
              'parameters are restored into %s before the views are rebuilt'
              % dest, e.where())
    rep.check(p.s(recv(e.f)) is new_handler, rule, what + ' restores with the '
              'current handler', 'restored with %s' % recv(e.f), e.where())
    src = [j for j, s in saves if p.s(s.res) is val]
    if not src:
        rep.bad(rule, what + ' restores the saved parameters',
                'the value restored (%s) is not a copy of the parameters'
                % val, e.where())
        return
    j = src[0]
    s = evs[j]
    rep.check(j < bi[0] and p.s(s.args[0]) is at(views0, 'parameters'), rule,
              what + ' saves the old parameters',
              'the copy is taken from %s after the views were rebuilt'
              % s.args[0], s.where())
    rep.check(p.s(recv(s.f)) is old_handler, rule, what + ' saves with the '
              'handler that owns the memory', 'saved with %s' % recv(s.f),
              s.where())
    for k, x in enumerate(evs[:j]):
        if x.kind == 'call' and fname(x.f) in ('fill', 'copy_to',
                                               'set_from_numpy') and \
                what != 'set_handler':
            rep.bad(rule, what + ' writes before saving', 'memory is written '
                    'before the parameters are saved', x.where())


def p20(repo, rep, tier):
    rep.rule('save-restore', 'on every path that rebuilds the views on other '
             'memory the parameters are copied out with the old handler '
             'first and put into the new views with the new handler')
    rep.rule('memory', 'views and buffers are cut from the memory that is '
             'current, which is large enough and belongs to the handler')
    rep.rule('current-views', 'what the network exposes is the result of the '
             'last rebuild')
    rep.rule('lazy', 'views are left alone only if both sizes are unchanged')
    rep.rule('size-recorded', 'the sizes are recorded on every rebuild')
    rep.rule('adjust', 'adjusting a view replaces every child, by index and '
             'by name')
    M = Model(repo)
    # resize
    I, st, ps, mgr = run(repo, M.mgr, 'resize', opaque=M.opaque)
    fn = I.method(M.mgr, 'resize')
    pt, pb = [sym(x) for x in fn.params()[1:3]]
    h = at(mgr, 'handler')
    for p in live(ps):
        evs = list(p.events())
        if not any(builder_call(M, e) for e in evs):
            bad = None
            for t0, t1, b0, b1 in [(1, 2, 1, 1), (1, 1, 1, 2), (2, 1, 1, 1),
                                   (1, 1, 2, 1), (1, 2, 2, 1), (2, 1, 1, 2)]:
                env = {at(mgr, 'time_size'): t0, pt: t1,
                       at(mgr, 'batch_size'): b0, pb: b1}
                if consistent(p, env):
                    bad = env
            rep.check(bad is None, 'lazy', 'resize returns without rebuilding',
                      'the views are kept although the size changed: %s' % bad,
                      fn.mod.name)
            rep.check(p.val is not None and p.s(p.val) is at(mgr, 'views'),
                      'current-views', 'resize returns the current views',
                      'returns %s' % p.val)
            continue
        check_rebuild(rep, M, I, st, p, mgr, 'resize', h, h,
                      {'time_size': pt, 'batch_size': pb})
        b = [e for e in evs if builder_call(M, e)][-1]
        rep.check(p.val is not None and p.s(p.val) is p.s(b.res),
                  'current-views', 'resize returns the new views',
                  'returns %s' % p.val, b.where())
        fb = final_attr(p, mgr, 'full_buffer')
        if fb is None:
            # kept memory must be large enough
            sizes = {x for c in p.conds for x in subterms(c)
                     if x.op == 'cmp' and at(mgr, 'size') in subterms(x)}
            ok = False
            for c in sizes:
                other = [y for y in c.a[1:] if y is not at(mgr, 'size')]
                if len(other) == 1:
                    env = {at(mgr, 'size'): 3, other[0]: 4}
                    if not consistent(p, env):
                        ok = True
            rep.check(ok, 'memory', 'resize keeps memory that is large enough',
                      'the memory is kept although more is needed', b.where())
    # set_handler
    I, st, ps, mgr = run(repo, M.mgr, 'set_handler', opaque=M.opaque)
    fn = I.method(M.mgr, 'set_handler')
    nh = sym(fn.params()[1])
    n = 0
    for p in live(ps):
        evs = list(p.events())
        infeasible = False
        for c, val in p.conds.items():
            # the total size of the memory is at least 0
            if c.op == 'cmp' and c.a[0] in ('<', '<=', '>', '>='):
                a, b = c.a[1:]
                if is_const(a, -1) and not is_const(b) and \
                        c.a[0] in ('<', '<=') and val is False:
                    infeasible = True
                if is_const(b, -1) and not is_const(a) and \
                        c.a[0] in ('>', '>=') and val is False:
                    infeasible = True
        if infeasible:
            continue
        n += 1
        if not any(builder_call(M, e) for e in evs):
            rep.bad('memory', 'set_handler rebuilds', 'the views are not '
                    'rebuilt for the new handler', fn.mod.name)
            continue
        hs = final_attr(p, mgr, 'handler')
        rep.check(hs is nh, 'memory', 'set_handler keeps the handler',
                  'handler is %s' % hs)
        check_rebuild(rep, M, I, st, p, mgr, 'set_handler', at(mgr, 'handler'),
                      nh, {})
    if not n:
        raise AnalysisBroken('BufferManager.set_handler has no path')
    # Network.set_handler
    I, st, ps, net, mgr = M.net_run('set_handler')
    fn = I.method(M.net, 'set_handler')
    nh = sym(fn.params()[1])
    layers = at(net, 'layers')
    rep.saw('Network.set_handler')
    for p in live(ps):
        bs = [e for e in p.events() if builder_call(M, e)]
        if not bs:
            rep.bad('current-views', 'Network.set_handler', 'the buffer '
                    'manager does not get the handler', fn.mod.name)
            continue
        got = final_attr(p, net, 'buffer')
        rep.check(got is not None and p.s(got) is p.s(bs[-1].res),
                  'current-views', 'Network.set_handler refreshes its buffer',
                  'network.buffer is %s, not the rebuilt views' % got,
                  bs[-1].where())
        rep.check(final_attr(p, net, 'handler') is nh, 'current-views',
                  'Network.set_handler keeps the handler', 'network.handler '
                  'is not the new handler', bs[-1].where())
        done = False
        for x in p.items:
            if isinstance(x, LoopItem):
                s = source(I, st, x.node.it)
                if s.base is layers and s.full() and not escapes(x) and all(
                        any(fname(e.f) == 'set_handler' and
                            elem_of(recv(e.f), layers) and e.args and
                            e.args[0] is nh for e in calls(q))
                        for q in live(x.paths)):
                    done = True
        rep.check(done, 'current-views', 'Network.set_handler reaches every '
                  'layer', 'not every layer gets the new handler', fn.mod.name)
    # provide_external_data
    I, st, ps, net, mgr = M.net_run('provide_external_data')
    rep.saw('Network.provide_external_data')
    for p in live(ps):
        bs = [e for e in p.events() if builder_call(M, e)]
        want = p.s(bs[-1].res) if bs else at(mgr, 'views')
        got = final_attr(p, net, 'buffer', at(net, 'buffer'))
        if not bs and got is at(net, 'buffer'):
            continue       # sizes unchanged: both are the current views
        if bs and got is at(net, 'buffer') and any(
                p.s(x) is at(mgr, 'views') for x in list(bs[-1].args) +
                list(bs[-1].kw.values())):
            rep.ok('current-views', 'the views are adjusted in place')
            continue
        rep.check(p.s(got) is want, 'current-views', 'provide_external_data '
                  'refreshes the buffer', 'network.buffer is %s' % got)
        for e in p.events():
            if e.kind == 'call' and fname(e.f) in ('copy_to',
                                                   'set_from_numpy'):
                ts = set()
                for a in e.args:
                    ts |= subterms(p.s(a))
                rep.check(not (bs and (at(net, 'buffer') in ts)),
                          'current-views', 'provide_external_data writes to '
                          'the current memory', 'data is copied into %s'
                          % list(e.args), e.where())
    # BufferView.adjust
    bv = find_cls(repo, 'BufferView')
    I, st, ps, v = run(repo, bv, 'adjust')
    fn = I.method(bv, 'adjust')
    pn, pbuf = [sym(x) for x in fn.params()[1:3]]
    rep.saw('BufferView.adjust')
    for p in live(ps):
        by_idx = by_name = False
        for x in p.items:
            if not isinstance(x, LoopItem) or escapes(x):
                continue
            s = source(I, st, x.node.it)
            if s.other or s.skip or s.cond:
                continue
            for q in live(x.paths):
                di = dn = False
                for e in q.events():
                    if e.kind == 'setitem':
                        if e.obj is v and elem_of(q.s(e.val), pbuf):
                            di = True
                        if e.obj is at(v, '__dict__') and \
                                elem_of(e.idx, pn) and (
                                    elem_of(q.s(e.val), pbuf) or
                                    di and q.s(e.val).op in ('idx', 'call')
                                    and v in subterms(q.s(e.val))):
                            dn = True
                    elif e.kind == 'call' and fname(e.f) == 'setattr' and \
                            len(e.args) == 3 and e.args[0] is v and \
                            elem_of(e.args[1], pn):
                        dn = True
                    elif e.kind in ('call', 'mut') and \
                            fname(e.f) == '__setitem__' and elem_of(
                                e.args[-1], pbuf):
                        di = True
                by_idx, by_name = by_idx or di, by_name or dn
        for e in p.events(False):
            if e.kind == 'setitem' and e.obj is v and e.idx.op == 'slice' \
                    and pbuf in subterms(e.val):
                by_idx = True
            if e.kind in ('mut', 'call') and fname(e.f) == 'update' and \
                    recv(e.f) is at(v, '__dict__'):
                by_name = True
        rep.check(by_idx, 'adjust', 'BufferView.adjust replaces by index',
                  'the children found by index stay the old ones', fn.mod.name)
        rep.check(by_name, 'adjust', 'BufferView.adjust replaces by name',
                  'the children found by name stay the old ones', fn.mod.name)
        full = final_attr(p, v, '_full_buffer')
        if full is not None or any(
                k == '_full_buffer' for k in ['_full_buffer']):
            rep.check(p.val is None or p.s(p.val) is v, 'adjust',
                      'BufferView.adjust returns the view',
                      'returns %s' % p.val, fn.mod.name)


# ------------------------------------------------------------- P21, P22 --
HANDLER_WRITES = {'fill': ('mem', 0), 'copy_to': ('dest', 1),
                  'set_from_numpy': ('mem', 0)}


def writes(q, handler=None):
    """(event, destination, operation) of the handler operations on a path"""
    for e in q.events():
        if e.kind != 'call' or e.f.op != 'attr':
            continue
        n = e.f.a[1]
        if n in HANDLER_WRITES:
            nm, i = HANDLER_WRITES[n]
            d = arg(e, i, nm)
            if d is not None:
                yield e, q.s(d), n
        elif n in ('mult_st', 'mult_tt', 'add_tt', 'add_st', 'subtract_tt'):
            d = arg(e, 2, 'out')
            if d is not None:
                yield e, q.s(d), n
    for e in q.events():
        if e.kind == 'setitem' and e.obj.op not in ('ref',):
            yield e, V('idx', q.s(e.obj), e.idx), 'setitem'


def split_dest(d, bufs):
    """(True, subscript or None) if d is (part of) the current buffer"""
    if elem_of(d, bufs):
        return True, None
    if d.op == 'idx' and elem_of(d.a[0], bufs):
        return True, d.a[1]
    return False, None


def hub_loops(I, st, p, mgr):
    hubs, bufs = at(mgr, 'hubs'), at(mgr, 'buffers')
    for i, x in enumerate(p.items):
        if isinstance(x, LoopItem):
            s = source(I, st, x.node.it)
            bases = [z.base for z in s.zips] if s.zips else [s.base]
            if hubs in bases or bufs in bases:
                yield i, x, s


class Effects(object):
    def __init__(self):
        self.steps, self.envs, self.foreign = [], [], []


def hub_effects(I, st, p, mgr, vals, base, before, no_context=None):
    """What the loops over the hubs, up to item `before` of the path, do to
    one hub with the given attributes: a list of loops, each a list of the
    alternatives (writes per feasible body path)."""
    r = Effects()
    bufs = at(mgr, 'buffers')
    for i, x, s in hub_loops(I, st, p, mgr):
        if i >= before:
            continue
        alt, envs = [], []
        covers = not s.skip and not s.other and not escapes(x)
        ran = True
        for q in live(x.paths):
            env = dict(base)
            env.update(hub_env(q, mgr, extra=s.cond, **vals))
            if no_context is not None:
                ts = set()
                for c in list(q.conds) + list(s.cond):
                    ts |= subterms(c)
                for t in ts:
                    if t.op == 'cmp' and t.a[0] == 'is' and elem_of(
                            t.a[1], sym('context')):
                        env[t] = no_context
            for c in s.cond:
                try:
                    if not arith(c, env):
                        ran = False
                except Unknown:
                    covers = False
            if not ran or not consistent(q, env):
                continue
            ws = []
            for e, d, op in writes(q):
                mine, sub = split_dest(d, bufs)
                if mine:
                    ws.append((e, sub, op))
                else:
                    r.foreign.append((e, d))
            alt.append(ws)
            envs.append(env)
        if any(alt):
            if not covers:
                alt.append([])
                envs.append({})
            r.steps.append(alt)
            r.envs.append(envs)
    return r


def hub_env(q, mgr, extra=(), **vals):
    """sample values for attributes of whatever hub term the path uses"""
    env = {at(mgr, 'time_size'): vals.get('T', 3),
           V('cmp', 'is', at(mgr, 'buffers'), NONE): False}
    hubs = at(mgr, 'hubs')
    terms = set()
    for c in list(q.conds) + list(extra):
        terms |= subterms(c)
    for e in q.events():
        for k, v in e.d.items():
            for x in (v if isinstance(v, (list, tuple)) else
                      list(v.values()) if isinstance(v, dict) else [v]):
                if isinstance(x, V):
                    terms |= subterms(x)
    for t in terms:
        if t.op == 'attr' and elem_of(t.a[0], hubs) and t.a[1] in vals:
            env[t] = vals[t.a[1]]
        if t.op == 'attr' and t.a[1] == 'shape' and 'context_size' in vals:
            if elem_of(t.a[0], sym('context')):
                env[t] = (vals['context_size'], 2, 4)
            elif elem_of(t.a[0], at(mgr, 'buffers')):
                env[t] = (vals['T'] + vals['context_size'], 2, 4)
    return env


def layer_calls(p, net, name):
    """indices of the items of p in which a layer's method is called"""
    layers = at(net, 'layers')
    out = []
    for i, x in enumerate(p.items):
        es = list(x.paths[0].events()) if False else []
        if isinstance(x, LoopItem):
            es = [e for q in x.paths for e in q.events()]
        else:
            es = [x]
        if any(e.kind == 'call' and fname(e.f) == name and
               recv(e.f) is not None and layers in subterms(recv(e.f))
               for e in es):
            out.append(i)
    return out


def zero(v):
    return is_const(v) and cval(v) == 0 and not isinstance(cval(v), bool)


def p21(repo, rep, tier):
    rep.rule('clear', 'every path of backward_pass fills the whole of every '
             'backward-only hub with zero, and no other hub, before any '
             'layer runs backward')
    rep.rule('mark', 'the layout marks input deltas, output deltas and '
             'gradients of every layer, and the network gradients, as '
             'backward-only, and nothing else on its own account')
    rep.rule('carry', 'the mark of a structure reaches the layout, the '
             'structures read from it and the hub')
    M = Model(repo)
    I, st, ps, net, mgr = M.net_run('backward_pass')
    fn = I.method(M.net, 'backward_pass')
    rep.saw('Network.backward_pass', 'BufferManager.clear_backward_buffers')
    bufs = at(mgr, 'buffers')
    for p in live(ps):
        if not consistent(p, {V('cmp', 'is', bufs, NONE): False}):
            continue
        li = layer_calls(p, net, 'backward_pass')
        if not li:
            rep.bad('clear', 'backward_pass runs the layers', 'no layer is '
                    'run on this path', fn.mod.name)
            continue
        for bo in (True, False):
            eff = hub_effects(I, st, p, mgr, dict(is_backward_only=bo), {},
                              li[0])
            for e, d in eff.foreign:
                rep.bad('clear', 'backward_pass writes %s' % d, 'memory '
                        'that is no hub is written', e.where())
            if not bo:
                w = [x for alt in eff.steps for ws in alt for x in ws]
                rep.check(not w, 'clear', 'forward memory is left alone',
                          'a hub that is not backward-only is written before '
                          'the backward pass', w[0][0].where() if w else '')
                continue
            done = bool(eff.steps) and any(
                alt and all(any(op == 'fill' and zero(arg(e, 1, 'val')) and
                                (sub is None or full_slice(sub))
                                for e, sub, op in ws) for ws in alt)
                for alt in eff.steps)
        rep.check(done, 'clear', 'backward_pass clears first',
                  'no loop over the hubs zeroes the backward-only memory '
                  'before the layers run', fn.mod.name)
    # marks in the layout stub
    stub = repo.find_function('get_layout_stub_for_layer')
    root = repo.find_function('create_layout_stub')
    tj = lambda f: f.name == 'to_json'
    I, st, ps = run_fn(repo, stub, opaque=tj)
    rep.saw(stub.qual, root.qual)
    want = {'inputs': False, 'outputs': False, 'parameters': False,
            'internals': False, 'input_deltas': True, 'output_deltas': True,
            'gradients': True}
    KEY = const('@is_backward_only')
    for p in live(ps):
        if p.val is None:
            continue
        o = I.obj(st, p.s(p.val))
        if o is None:
            raise AnalysisBroken('layout stub is no dictionary')
        always, maybe = {}, {}
        for x in p.items:
            ev = [(x, None)] if not isinstance(x, LoopItem) else [
                (e, x) for q in x.paths for e in q.events()]
            for e, loop in ev:
                if e.kind == 'setitem' and e.idx is KEY:
                    maybe[nouid(e.obj)] = e
                    if loop is None or all(
                            any(f.kind == 'setitem' and f.idx is KEY and
                                f.obj is e.obj for f in q.events())
                            for q in live(loop.paths)) and \
                            not escapes(loop):
                        always[nouid(e.obj)] = e
        for cat, backward in want.items():
            d = o.items.get(const(cat))
            if d is None:
                rep.skip('mark', cat, 'not found in the layout of a layer')
                continue
            do = I.obj(st, d)
            if do is None or do.kind != 'dict':
                rep.skip('mark', cat, 'not a dictionary')
                continue
            es = [v for k, v in do.items.items() if not (
                is_const(k) and str(cval(k)).startswith('@'))]
            if do.more is not None:
                es.append(do.more)
            got = []
            es = [y for v in es for y in
                  (v.a[0] if v.op == 'oneof' else (v,))
                  if y.op != 'absent']
            for v in es:
                vo, v = I.obj(st, v), nouid(v)
                if vo is not None and vo.kind == 'dict' and KEY in vo.items:
                    k = vo.items[KEY]
                    got.append(True if is_const(k, True) else None)
                elif v in always:
                    got.append(True if is_const(always[v].val, True)
                               else None)
                elif v in maybe:
                    got.append(None)
                else:
                    got.append(False)
            # other ways to build the layout are decided by sa.memory
            good = got and all(g is True for g in got) if backward else \
                not any(g is True or g is None for g in got)
            if good:
                rep.ok('mark', 'layout %s %s' % (
                    'marks' if backward else 'leaves unmarked', cat))
            else:
                rep.skip('mark', cat, 'the marking is not recognised')
    I, st, ps = run_fn(repo, root, opaque=lambda f: f is stub or tj(f))
    for p in live(ps):
        o = I.obj(st, p.s(p.val)) if p.val is not None else None
        if o is None:
            raise AnalysisBroken('create_layout_stub returns no dictionary')
        for n, b in (('gradients', True), ('parameters', False)):
            d = I.obj(st, o.items.get(const(n), NONE))
            if d is None:
                rep.bad('mark', 'network ' + n, 'missing in the layout')
                continue
            m = is_const(d.items.get(KEY, FALSE), True)
            rep.check(m == b, 'mark', 'network %s mark' % n, 'network %s %s '
                      'marked as backward-only' % (n, 'is not' if b else 'is'),
                      root.mod.name)
    carry(repo, rep, 'is_backward_only', '@is_backward_only', 'carry')
    hub_carry(repo, rep, 'is_backward_only', 'carry')


def full_slice(s):
    if s.op == 'slice':
        return is_const(s.a[0], None, 0) and is_const(s.a[1], None) and \
            is_const(s.a[2], None, 1)
    return is_const(s) and cval(s) is Ellipsis


def carry(repo, rep, attr, key, rule):
    """an attribute of a BufferStructure survives to_json / from_layout"""
    bs = find_cls(repo, 'BufferStructure')
    K = const(key)
    I, st, ps, s = run(repo, bs, 'to_json')
    rep.saw('BufferStructure.to_json', 'BufferStructure.from_layout')
    A = at(s, attr)
    for val in ((True, False) if attr == 'is_backward_only' else (2, 0)
                if attr == 'context_size' else (('T', 'B', 3),)):
        for p in live(ps):
            if not consistent(p, {A: val}):
                continue
            d = final_dict(I, st, p)
            v = d.get(K)
            if v is None:
                rep.check(not val, rule, 'to_json writes %s' % attr,
                          '%s=%r does not reach the layout' % (attr, val))
                continue
            try:
                got = arith(p.s(v), {A: val})
            except Unknown:
                rep.skip(rule, 'to_json ' + attr, 'value %s' % v)
                continue
            rep.check(got == val, rule, 'to_json writes %s' % attr,
                      '%s=%r becomes %r' % (attr, val, got))
    fn = I.method(bs, 'from_layout')
    made = []

    def hook(I, f, args, kw, fr, cont, node):
        if f.op == 'cls' and f.a[0] is bs or f.op == 'sym' and \
                f.a[0] == 'cls':
            made.append((list(args), dict(kw)))
            return V('call', f, tuple(args), tuple(sorted(kw.items())), 0)
        return None
    I = Interp(repo, hook=hook)
    st = State()
    lay = sym('layout')
    params = fn.params()
    v, st2, blk = I.run(fn, [lay] if len(params) == 2 else [lay], st,
                        self_v=V('cls', bs))
    if not made:
        rep.skip(rule, 'from_layout', 'constructor call not recognised')
        return
    for args, kw in made:
        if attr == 'shape':
            ok = any(K in subterms(a) for a in args)
            rep.check(ok, rule, 'from_layout reads %s' % attr,
                      'the shape of the structure is not %s' % key)
        else:
            v = kw.get(attr)
            rep.check(v is not None and K in subterms(v), rule,
                      'from_layout reads %s' % attr,
                      '%s is built from %s, not from %s' % (attr, v, key))
            others = [k for k, x in kw.items() if k != attr and
                      K in subterms(x)]
            rep.check(not others, rule, 'from_layout passes %s to one '
                      'parameter' % key, 'also passed as %s' % others)
    # constructor keeps it
    I, st, ps, s = run(repo, bs, '__init__', args=[sym('d0')],
                       kwargs={} if attr == 'shape' else {attr: sym('x')})
    for p in live(ps):
        got = final_attr(p, s, attr)
        if attr == 'shape':
            ok = got is not None and sym('d0') in subterms(got)
        else:
            ok = got is sym('x')
        rep.check(ok, rule, 'BufferStructure keeps %s' % attr,
                  '%s is %s' % (attr, got))


def final_dict(I, st, p):
    """items of the dictionary a path returns, as the path leaves them"""
    r = p.s(p.val)
    d = {}
    o = I.obj(st, r)
    if o is not None and o.kind == 'dict':
        sets = {e.idx for e in p.events() if e.kind == 'setitem' and
                e.obj is r}
        for k, v in o.items.items():
            if k in sets:
                continue
            # entries of conditional stores are phis with an absent branch
            w = p.s(v)
            if w.op == 'absent' or w.op in ('phi', 'oneof') and any(
                    isinstance(x, V) and x.op == 'absent'
                    for x in subterms(w)):
                continue
            d[k] = w
        for e in p.events():
            if e.kind == 'setitem' and e.obj is r:
                d[e.idx] = p.s(e.val)
    return d


def hub_carry(repo, rep, attr, rule):
    """Hub.create takes the attribute from the structures of its sources"""
    hub = find_cls(repo, 'Hub')
    I = Interp(repo, opaque=lambda f: f.name in (
        'from_layout', 'get_by_path', 'flatten',
        'convert_to_nested_indices', 'setup'))
    st = State()
    fn = I.method(hub, 'create')
    v, st2, blk = I.run(fn, [sym(x) for x in fn.params()], st)
    rep.saw('Hub.create')
    for p in live(top(blk)):
        o = I.obj(st2, p.s(p.val)) if p.val is not None else None
        if o is None:
            raise AnalysisBroken('Hub.create returns no hub')
        got = o.attrs.get(attr)
        src = {'btype': 'buffer_type'}.get(attr, attr)
        ok = got is not None and any(t.op == 'attr' and t.a[1] == src
                                     for t in deep(I, st2, got))
        rep.check(ok, rule, 'Hub.create takes %s from its sources' % attr,
                  '%s of a hub is %s' % (attr, got), fn.mod.name)


def deep(I, st, v, seen=None):
    """subterms, through heap containers as well"""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        for t in subterms(x):
            if t in seen:
                continue
            seen.add(t)
            o = I.obj(st, t)
            if o is not None:
                its = o.items.values() if isinstance(o.items, dict) else \
                    o.items
                todo += [y for y in its if isinstance(y, V)]
                if isinstance(o.more, V):
                    todo.append(o.more)
                todo += [y for y in o.attrs.values() if isinstance(y, V)
                         and o.kind in ('list', 'dict', 'set')]
    return seen


def p22(repo, rep, tier):
    rep.rule('reset', 'a forward pass without context zeroes exactly the '
             'steps behind the sequence of every hub with context, before '
             'any layer runs')
    rep.rule('restore', 'a forward pass with context copies the saved state '
             'of each hub into exactly those steps, before any layer runs')
    rep.rule('save', 'the saved context is new memory holding exactly the '
             'last steps of the sequence, one entry per hub')
    M = Model(repo)
    samples = [(T, C, b) for T in (1, 2, 3, 5) for C in (0, 1, 2)
               for b in (0, 1, 2) if T >= C]
    for mode in ('reset', 'restore'):
        ctx = NONE if mode == 'reset' else sym('context')
        I, st, ps, net, mgr = M.net_run(
            'forward_pass', args=[], kwargs={'training_pass':
                                             sym('training_pass'),
                                             'context': ctx})
        fn = I.method(M.net, 'forward_pass')
        rep.saw('Network.forward_pass')
        bufs = at(mgr, 'buffers')
        base = {V('cmp', 'is', bufs, NONE): False,
                V('cmp', 'is', sym('context'), NONE): False}
        for p in live(ps):
            if not consistent(p, base):
                continue
            li = layer_calls(p, net, 'forward_pass')
            if not li:
                rep.bad(mode, 'forward_pass runs the layers', 'no layer runs '
                        'on this path', fn.mod.name)
                continue
            bad = None
            for i, x in enumerate(p.items):
                if isinstance(x, LoopItem):
                    continue
                if x.kind == 'call' and x.f.op == 'attr' and \
                        x.f.a[1] in HANDLER_WRITES:
                    rep.bad(mode, 'forward_pass writes outside the hubs',
                            'unexpected write', x.where())
            for T, C, bt in samples:
                eff = hub_effects(I, st, p, mgr, dict(
                    T=T, context_size=C, btype=bt), base, li[0],
                    no_context=not (bt == 2 and C > 0))
                for e, d in eff.foreign:
                    bad = bad or (e, 'writes %s' % d)
                state = 'untouched'
                for alt, env in zip(eff.steps, eff.envs):
                    after = set()
                    for ws, qenv in zip(alt, env):
                        cur = state
                        for e, sub, op in ws:
                            n = T + C if bt == 2 else T
                            try:
                                rng = list(range(n)) if sub is None else \
                                    slice_range(sub, n, qenv)
                            except Unknown:
                                rep.skip(mode, 'range', str(sub))
                                cur = 'unknown'
                                continue
                            if rng and (bt != 2 or C == 0):
                                bad = bad or (
                                    e, 'a hub without context is written '
                                    '(btype %d, context %d)' % (bt, C))
                            elif rng and min(rng) < T:
                                bad = bad or (
                                    e, 'step %d of a sequence of %d is '
                                    'overwritten' % (min(rng), T))
                            elif rng != list(range(T, T + C)):
                                bad = bad or (
                                    e, 'steps %s are written, the context is '
                                    '%d..%d' % (rng, T, T + C - 1))
                            elif op == 'fill' and zero(arg(e, 1, 'val')):
                                cur = 'reset'
                            elif op == 'copy_to' and elem_of(
                                    arg(e, 0, 'src'), sym('context')):
                                cur = 'restore'
                            else:
                                cur = op
                        after.add(cur)
                    if len(after) == 1:
                        state = after.pop()
                    elif after:
                        state = 'unknown' if 'unknown' in after else \
                            'sometimes ' + '/'.join(sorted(after))
                if bt == 2 and C > 0 and state not in (mode, 'unknown'):
                    bad = bad or (None, 'context steps %d..%d of a sequence '
                                  'of %d are %s before the layers run' % (
                                      T, T + C - 1, T, state))
            if bad:
                rep.bad(mode, 'forward_pass context', bad[1],
                        bad[0].where() if bad[0] else fn.mod.name)
            else:
                rep.ok(mode, 'forward_pass, %d samples' % len(samples))
    # saving
    I, st, ps, net, mgr = M.net_run('get_context')
    fn = I.method(M.net, 'get_context')
    bufs = at(mgr, 'buffers')
    rep.saw('Network.get_context')
    base = {V('cmp', 'is', bufs, NONE): False}
    FRESH = ('zeros', 'allocate', 'ones', 'create_from_numpy')
    for p in live(ps):
        if not consistent(p, base):
            continue
        r = p.s(p.val) if p.val is not None else NONE
        loops = [(i, x, s) for i, x, s in hub_loops(I, st, p, mgr)]
        if not loops or I.obj(st, r) is None:
            rep.skip('save', 'get_context', 'returns %s' % r)
            continue
        for i, x, s in loops:
            bad = None
            if not s.full() or escapes(x):
                bad = (None, 'not every hub has an entry in the context')
            for T, C, bt in samples:
                for q in live(x.paths):
                    env = dict(base)
                    env.update(hub_env(q, mgr, T=T, context_size=C, btype=bt))
                    if not consistent(q, env):
                        continue
                    if x.node.kind == 'comp':
                        o = I.obj(st, r)
                        val = [q.s(o.more)] if o.more is not None else []
                    else:
                        val = [q.s(e.args[0]) for e in q.events()
                               if e.kind == 'mut' and fname(e.f) == 'append'
                               and recv(e.f) is r and e.args]
                    if len(val) != 1:
                        bad = (None, '%d entries for one hub (btype %d, '
                               'context %d)' % (len(val), bt, C))
                        continue
                    v = val[0]
                    if v.op == 'phi':
                        try:
                            v = v.a[1] if arith(v.a[0], env) else v.a[2]
                        except Unknown:
                            rep.skip('save', 'entry', str(v))
                            continue
                    if bt != 2 or C == 0:
                        if not is_const(v, None) and False:
                            bad = (None, 'entry for a hub without context')
                        continue
                    if v.op == 'call' and fname(v.a[0]) == 'get_numpy_copy':
                        rep.skip('save', 'entry', 'numpy copy')
                        continue
                    if not (v.op == 'call' and fname(v.a[0]) in FRESH):
                        bad = (None, 'the saved state %s is not an '
                               'independent copy' % v)
                        continue
                    good = False
                    for e in q.events():
                        if e.kind == 'call' and fname(e.f) == 'copy_to' and \
                                q.s(arg(e, 1, 'dest')) is v:
                            mine, sub = split_dest(q.s(arg(e, 0, 'src')),
                                                   bufs)
                            if mine and sub is not None:
                                try:
                                    good = slice_range(
                                        sub, T + C, env) == list(
                                            range(T - C, T))
                                except Unknown:
                                    good = True
                                    rep.skip('save', 'range', str(sub))
                    if not good:
                        bad = (None, 'the last %d of %d steps are not what '
                               'is saved' % (C, T))
            if bad:
                rep.bad('save', 'get_context', bad[1], '%s:%s' % tuple(
                    x.node.loc[:2]))
            else:
                rep.ok('save', 'get_context, %d samples' % len(samples))
    rep.need('reset', 1, 'paths')
    rep.need('restore', 1, 'paths')


# ------------------------------------------------------------------- P23 --
def p23(repo, rep, tier):
    rep.rule('once', 'in each pass every layer but the first of the ordered '
             'dictionary runs exactly once, with its own buffers and the '
             'requested mode')
    rep.rule('order', 'forward in the stored order, backward in the opposite '
             'order')
    rep.rule('modifiers', 'gradient modifiers run after the last layer, once')
    rep.rule('topological', 'a layer is placed only when all layers it feeds '
             '(placing from the end) or needs (placing from the start) are '
             'placed, and the result is turned to run sources first')
    rep.rule('deterministic', 'neither the order of insertion into the '
             'architecture nor that of a set decides the order')
    M = Model(repo)
    for meth, backward in (('forward_pass', False), ('backward_pass', True)):
        I, st, ps, net, mgr = M.net_run(meth)
        fn = I.method(M.net, meth)
        layers = at(net, 'layers')
        rep.saw('Network.' + meth)
        base = {V('cmp', 'is', at(mgr, 'buffers'), NONE): False}
        for p in live(ps):
            if not consistent(p, base):
                continue
            li = layer_calls(p, net, meth)
            rep.check(len(li) == 1, 'once', meth + ' has one loop over the '
                      'layers', '%d places run layers' % len(li), fn.mod.name)
            if not li:
                continue
            x = p.items[li[0]]
            if not isinstance(x, LoopItem):
                rep.bad('once', meth + ' loops over the layers', 'a layer is '
                        'run outside a loop', x.where())
                continue
            where = '%s:%s' % tuple(x.node.loc[:2])
            s = source(I, st, x.node.it)
            if s.base is not layers:
                rep.skip('order', meth, 'loop over %s' % x.node.it)
                continue
            rep.check(not escapes(x) and not s.other, 'once',
                      meth + ' reaches every layer',
                      'the loop over the layers can stop early or skips some',
                      where)
            byname = False
            for q in live(x.paths):
                cs = [e for e in q.events() if e.kind == 'call' and
                      fname(e.f) == meth and layers in subterms(recv(e.f))]
                inp = None
                for c, v in q.conds.items():
                    if c.op == 'cmp' and c.a[0] == '==' and is_const(
                            c.a[2], 'Input') and (
                                layers in subterms(c.a[1])):
                        inp = v
                    if c.op == 'call' and fname(c.a[0]) == 'isinstance' and \
                            'InputLayer' in str(c.a[1][1]):
                        inp = v
                if inp is True and not cs:
                    byname = True
                    continue
                rep.check(len(cs) == 1, 'once', meth + ' runs a layer once',
                          'a layer is run %d times per pass' % len(cs), where)
                for e in cs:
                    r = recv(e.f)
                    own = elem_of(r, layers)
                    k = r.a[1] if r.op == 'idx' else None
                    b = q.s(e.args[0]) if e.args else None
                    rep.check(own and b is not None and b.op == 'idx' and
                              b.a[0] is at(net, 'buffer') and
                              (k is None or b.a[1] is k), 'once',
                              meth + ' hands each layer its buffers',
                              'layer %s gets %s' % (r, b), e.where())
                    if not backward:
                        t = arg(e, 1, 'training_pass')
                        rep.check(t is sym('training_pass'), 'once',
                                  meth + ' passes the mode on',
                                  'training_pass is %s' % t, e.where())
            rep.check(s.skip == 1 or byname and s.skip == 0, 'once',
                      meth + ' leaves out the data source only',
                      '%d layers are left out' % s.skip, where)
            rep.check(not s.sort and not s.unordered and s.rev == backward,
                      'order', meth + ' order', 'layers run %s' % (
                          'sorted' if s.sort else 'in arbitrary order' if
                          s.unordered else 'in the wrong direction'), where)
            if backward:
                after = p.items[li[0] + 1:]
                before = p.items[:li[0]]

                def mods(items):
                    n = 0
                    for y in items:
                        if isinstance(y, LoopItem) and at(
                                net, 'gradient_modifiers') in subterms(
                                    source(I, st, y.node.it).base):
                            n += 1
                    return n
                inside = any(mods(q.items) for q in x.paths)
                rep.check(mods(after) == 1 and not mods(before) and
                          not inside, 'modifiers', 'backward_pass applies '
                          'the gradient modifiers once, at the end',
                          'gradient modifiers are applied %d times after '
                          'the layers, %d times before, %s' % (
                              mods(after), mods(before), 'in the loop' if
                              inside else 'not in the loop'), fn.mod.name)
    topological(repo, rep)
    instantiate(repo, rep)


def topological(repo, rep):
    fn = repo.find_function('get_canonical_layer_order')
    rep.saw(fn.qual)
    # judged on the syntax tree with locals resolved
    node = fn.node
    src = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            src.setdefault(n.targets[0].id, []).append(n.value)
    subset = []
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.LtE, ast.Lt, ast.GtE, ast.Gt)):
            a, b = n.left, n.comparators[0]
            if isinstance(n.ops[0], (ast.GtE, ast.Gt)):
                a, b = b, a
            subset.append((a, b, isinstance(n.ops[0], (ast.Lt, ast.Gt)), n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr == 'issubset' and n.args:
                subset.append((n.func.value, n.args[0], False, n))
            if n.func.attr == 'issuperset' and n.args:
                subset.append((n.args[0], n.func.value, False, n))
    todo = []
    for a, b, strict, n in subset:
        for v in ([a] if not isinstance(a, ast.Name) else
                  src.get(a.id, [])):
            if isinstance(v, (ast.SetComp, ast.ListComp, ast.GeneratorExp)) \
                    or isinstance(v, ast.Call) and v.args and isinstance(
                        v.args[0], (ast.SetComp, ast.ListComp,
                                    ast.GeneratorExp)):
                todo.append((v if not isinstance(v, ast.Call) else v.args[0],
                             b, strict, n))
    dirs = []
    for comp, b, strict, n in todo:
        elt = comp.elt
        g = comp.generators[0]
        if not (isinstance(elt, ast.Attribute) and g.ifs):
            continue
        cmp_ = [c for t in g.ifs for c in ast.walk(t)
                if isinstance(c, ast.Compare) and isinstance(
                    c.ops[0], ast.Eq)]
        if not cmp_:
            continue
        attrs = [x.attr for c in cmp_ for x in (c.left, c.comparators[0])
                 if isinstance(x, ast.Attribute)]
        if elt.attr == 'end_layer' and 'start_layer' in attrs:
            dirs.append(('sinks-first', strict, n))
        elif elt.attr == 'start_layer' and 'end_layer' in attrs:
            dirs.append(('sources-first', strict, n))
    if len(dirs) != 1:
        rep.skip('topological', fn.qual, 'readiness test not recognised')
        return
    d, strict, n = dirs[0]
    where = '%s:%d' % (fn.mod.name, n.lineno)
    rep.check(not strict, 'topological', 'readiness test', 'a layer is ready '
              'only if a proper subset is placed', where)
    # direction of the result: count reversals of the returned list
    I = Interp(repo, opaque=lambda f: f is not fn)
    rets = [r for r in ast.walk(node) if isinstance(r, ast.Return) and
            r.value is not None]
    if len(rets) != 1:
        rep.skip('topological', fn.qual, '%d returns' % len(rets))
        return

    def turned(e, seen=()):
        """parity of reversals applied to the accumulated list"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ('list', 'tuple') and e.args:
                return turned(e.args[0], seen)
            if e.func.id == 'reversed' and e.args:
                t = turned(e.args[0], seen)
                return None if t is None else not t
            return None
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            s = e.slice
            if s.lower is None and s.upper is None and s.step is not None \
                    and ast.unparse(s.step) == '-1':
                t = turned(e.value, seen)
                return None if t is None else not t
            return None
        if isinstance(e, ast.Name):
            inplace = 0
            front = None
            for x in ast.walk(node):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and isinstance(
                            x.func.value, ast.Name) and \
                        x.func.value.id == e.id:
                    if x.func.attr == 'reverse':
                        inplace += 1
                    if x.func.attr in ('insert', 'appendleft'):
                        return None
            vals = [v for v in src.get(e.id, [])
                    if not (isinstance(v, ast.List) and not v.elts)]
            if len(vals) == 1 and e.id not in seen and not isinstance(
                    vals[0], ast.BinOp):
                t = turned(vals[0], seen + (e.id,))
                return None if t is None else t != bool(inplace % 2)
            if vals:
                return None
            return bool(inplace % 2)
        return None
    t = turned(rets[0].value)
    if t is None:
        rep.skip('topological', fn.qual, 'result %s' % ast.unparse(
            rets[0].value))
    else:
        rep.check(t == (d == 'sinks-first'), 'topological', 'direction',
                  'layers are collected %s and the list is %sreversed' % (
                      d, '' if t else 'not '), where)
    # what is appended in one round comes from a sorted list
    adds = []
    acc = None
    for x in ast.walk(node):
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add):
            adds.append(x.value)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and x.func.attr == 'extend' and x.args:
            adds.append(x.args[0])
    res = []
    for a in adds:
        v = a
        for _ in range(3):
            if isinstance(v, ast.Name) and len(src.get(v.id, [])) == 1:
                v = src[v.id][0]
        names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
        is_sorted = isinstance(v, ast.Call) and isinstance(
            v.func, ast.Name) and v.func.id == 'sorted'
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr == 'sort' and \
                    isinstance(x.func.value, ast.Name) and \
                    x.func.value.id in names:
                is_sorted = True
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and \
                    isinstance(x.iter.func, ast.Name) and \
                    x.iter.func.id == 'sorted':
                is_sorted = True
            if isinstance(x, ast.comprehension) and isinstance(
                    x.iter, ast.Call) and isinstance(
                        x.iter.func, ast.Name) and x.iter.func.id == 'sorted':
                is_sorted = True
        res.append(is_sorted)
    if not res:
        rep.skip('deterministic', fn.qual, 'accumulation not recognised')
    else:
        rep.check(all(res), 'deterministic', 'ties are sorted',
                  'layers that are ready at the same time are placed in the '
                  'order of a dictionary or set', fn.mod.name)


def instantiate(repo, rep):
    """layers are created and stored in the canonical order"""
    fn = repo.find_function('instantiate_layers_from_architecture')
    order = repo.find_function('get_canonical_layer_order')
    I, st, ps = run_fn(repo, fn, opaque=lambda f: f is not fn)
    rep.saw(fn.qual)
    found = False
    for p in live(ps):
        for x in p.items:
            if not isinstance(x, LoopItem):
                continue
            s = source(I, st, x.node.it)
            if s.base.op == 'call' and s.base.a[0].op == 'func' and \
                    s.base.a[0].a[0] is order:
                found = True
                rep.check(not s.rev and not s.sort and not s.unordered and
                          s.full() and not escapes(x), 'order',
                          'layers are stored in the canonical order',
                          'the canonical order is changed or cut',
                          '%s:%s' % tuple(x.node.loc[:2]))
    if not found:
        rep.skip('order', fn.qual, 'loop over the canonical order not found')
