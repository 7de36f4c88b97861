"""P60: optimisation steps; P64: schedules."""
from .elem import Undecided, equal
from .prog import find_cls, flat, fname, live, recv, run
from .repo import AnalysisBroken, Fn
from .store import Store, value_of
from .structure import sym
from .terms import V, cval
from .valid import loc

LR = {True: 'learning_rate * (1 - momentum)', False: 'learning_rate'}
# class -> (parameters afterwards, state afterwards, parameters at forward)
STEP = {
    'SgdStepper': ('p - LR * g', {}, 'p'),
    'MomentumStepper': ('p + momentum * v - LR * g',
                        {'velocity': 'momentum * v - LR * g'}, 'p'),
    'NesterovStepper': ('p + momentum * v - LR * g',
                        {'velocity': 'momentum * v - LR * g'},
                        'p + momentum * v'),
}


def attr(b, *ns):
    for n in ns:
        b = V('attr', b, n)
    return b


def path_of(v):
    """names from the outermost object: ('net', 'buffer', 'parameters')"""
    out = []
    while v.op in ('attr', 'idx'):
        if v.op == 'attr':
            out.append(v.a[1])
        else:
            k = cval(v.a[1], None)
            out.append(k if isinstance(k, str) else '?')
        v = v.a[0]
    return v, tuple(reversed(out))


class Net(object):
    """names of the arrays of the network of a stepper"""

    def __init__(self, me):
        self.me = me

    def __call__(self, v):
        root, ns = path_of(v)
        if ns and ns[-2:] in (('buffer', 'parameters'),
                              ('buffer', 'gradients')) and root is self.me:
            return attr(self.me, 'net', 'buffer', ns[-1])
        return v


def steps(repo, rep):
    seq = 'sequence'
    rep.rule(seq, 'a step runs one forward pass in training mode, then one '
             'backward pass, on every path; the gradients it uses are those '
             'of this backward pass')
    upd = 'update'
    rep.rule(upd, 'parameters and optimiser state afterwards equal the '
             'documented update; nothing else of the network is written and '
             'the gradients are left as the backward pass made them')
    ini = 'state'
    rep.rule(ini, 'start() attaches the network and gives every array of '
             'optimiser state the shape of the parameters and the value 0')
    base = find_cls(repo, 'TrainingStepper')
    H = find_cls(repo, 'Handler')
    n = 0
    for c in repo.subclasses(base):
        if '.tests' in c.mod.name:
            continue
        own, fn = repo.lookup(c, 'run')
        if not isinstance(fn, Fn) or own is base:
            continue
        rep.saw(fn.qual)
        n += 1
        state = one(repo, rep, c, fn, H)
        if state is not None:
            start(repo, rep, ini, c, state)
    rep.need(seq, 4, 'steppers')


def training(e, fn_net):
    """value of the training_pass argument"""
    a = e.args[0] if e.args else e.kw.get('training_pass')
    return a


def one(repo, rep, c, fn, H):
    seq, upd = 'sequence', 'update'
    I, st, ps, me = run(repo, c, 'run', raw=True)
    P, G = [attr(me, 'net', 'buffer', x) for x in ('parameters', 'gradients')]
    alias = Net(me)
    initial = set()
    own_init = repo.lookup(c, '__init__')[1]
    settings = set(own_init.params()[1:]) if isinstance(
        own_init, Fn) else set()
    for p in live(ps):
        S = Store(I, st, p, {P: 'p', G: 'g0'}, H, repo, alias)
        fw, bw, at_forward, unsure = [], [], None, []
        order = []

        def walk(items, loop):
            for x in items:
                if hasattr(x, 'paths'):
                    for q in x.paths:
                        walk(q.items, True)
                    continue
                e = x
                if e.kind in ('call', 'mut'):
                    n, r = fname(e.f), recv(e.f)
                    net = r is not None and path_of(r)[1][-1:] == ('net',)
                    if net and n == 'forward_pass':
                        fw.append((e, loop))
                        order.append('f')
                        nonlocal_['at'] = S.e(P)
                        continue
                    if net and n == 'backward_pass':
                        bw.append((e, loop))
                        order.append('b')
                        S.mem[G] = ('var', 'g')
                        continue
                    if net and n in ('provide_external_data', 'initialize',
                                     'apply_weight_modifiers',
                                     'apply_gradient_modifiers',
                                     'set_handler'):
                        rep.bad(upd, '%s calls %s' % (c.name, n), 'a step '
                                'does more than one update', e.where())
                        continue
                    if net and n in ('get_loss_values', 'get', 'get_input',
                                     'get_context'):
                        continue
                if e.kind == 'setattr':
                    if e.obj is me and e.name in settings:
                        rep.bad(upd, '%s.%s' % (c.name, e.name), 'a step '
                                'overwrites a setting that schedules '
                                'control', e.where())
                    elif e.obj is me:
                        a = attr(me, e.name)
                        S.mem[a] = S.e(e.val)
                    else:
                        unsure.append('%s.%s is set' % (e.obj, e.name))
                    continue
                if loop:
                    if S.is_op(e) is not None or e.kind in (
                            'setitem', 'aug'):
                        unsure.append('arrays are changed in a loop')
                    continue
                did = S.do(e)
                if not did and e.kind in ('call', 'mut') and e.f.op not in (
                        'ext',) and fname(e.f) not in ('format',):
                    if any(alias(S.arr(a)) in (P, G) for a in
                           list(e.args) + list(e.kw.values())):
                        unsure.append('call of %s' % e.f)
        nonlocal_ = {}
        walk(p.items, False)
        at_forward = nonlocal_.get('at')
        where = loc(fn)
        if c.name == 'ForwardStepper':
            rep.check(not bw and not S.written and len(fw) == 1, upd, c.name,
                      'is not just one forward pass', where)
            for e, _ in fw:
                t = training(e, None)
                rep.check(t is not None and p.s(t) is attr(
                    me, 'use_training_pass'), seq, c.name, 'does not run '
                    'the forward pass in the mode asked for', where)
            continue
        if any(l for _, l in fw + bw):
            rep.skip(seq, c.name, 'passes in a loop')
            continue
        if len(fw) != 1 or len(bw) != 1:
            rep.bad(seq, c.name, 'a step runs %d forward and %d backward '
                    'passes' % (len(fw), len(bw)), where)
            continue
        rep.check(order == ['f', 'b'], seq, c.name, 'the backward pass runs '
                  'before the forward pass', where)
        t = training(fw[0][0], None)
        rep.check(t is not None and cval(p.s(t), None) is True, seq,
                  c.name + ': mode', 'the forward pass of a step is not '
                  'run in training mode', where)
        ctx = fw[0][0].kw.get('context') or (
            fw[0][0].args[1] if len(fw[0][0].args) > 1 else None)
        rep.check(ctx is None or cval(ctx, 1) is None, seq,
                  c.name + ': context', 'the forward pass of a step '
                  'continues from a context', where)
        if unsure:
            rep.skip(upd, c.name, unsure[0])
            continue
        # writes
        for a, e in S.written:
            if a is G:
                rep.bad(upd, c.name + ': gradients', 'a step changes the '
                        'gradients', e.where())
            elif a is not P and path_of(a)[1][:1] == ('net',) and path_of(
                    a)[0] is me:
                rep.bad(upd, c.name + ': other', 'a step writes %s' % a,
                        e.where())
        pv = rename_attrs(S.mem.get(P, ('var', 'p')), me)
        txt = repr(pv)
        if "'g0'" in txt:
            rep.bad(upd, c.name, 'the update uses the gradients of an '
                    'earlier pass', where)
            continue
        initial |= {v for v in variables(pv)}
        if c.name not in STEP:
            rep.check('g' in variables(pv), upd, c.name, 'the update does '
                      'not use the gradients', where)
            continue
        want, states, look = STEP[c.name]
        sc = None
        for k, v in p.conds.items():
            if k is attr(me, 'scale_learning_rate'):
                sc = v
        lr = LR[bool(sc)]
        if c.name == 'SgdStepper':
            lr = 'learning_rate'
        exprs = [('parameters', pv, want),
                 ('parameters during the passes', rename_attrs(
                     at_forward, me), look)]
        for s, w in states.items():
            a = attr(me, s)
            exprs.append((s, rename_attrs(S.mem.get(a, ('var', 'v')), me),
                          w))
            initial.add(s)
        for what, got, w in exprs:
            w = value_of(w.replace('LR', '(%s)' % lr).replace(
                '* v', '* velocity'))
            if sc is None and 'scale_learning_rate' in variables(got):
                w2 = value_of('(%s) if scale_learning_rate != 0 else (%s)' % (
                    LR[True], LR[False]))
                w = value_of(exprs_src(what, exprs), LR=w2)
            try:
                d = equal(got, w)
            except (Undecided, OverflowError) as e:
                rep.skip(upd, '%s: %s' % (c.name, what), str(e)[:60])
                continue
            if d and any(x.startswith(('part', 'memory', 'call'))
                         for x in variables(got)):
                # memory that was never filled is a fault of its own
                if any(x.startswith('memory') for x in variables(got)):
                    rep.bad(upd, '%s: %s' % (c.name, what), 'depends on '
                            'memory that was not initialised', where)
                else:
                    rep.skip(upd, '%s: %s' % (c.name, what),
                             'not understood')
                continue
            rep.check(d is None, upd, '%s: %s' % (c.name, what),
                      'do not follow the documented update: %s' % d, where)
    if c.name == 'ForwardStepper':
        return set()
    known = {'p', 'g', 'learning_rate', 'momentum', 'scale_learning_rate'}
    return {x for x in initial if x not in known and x not in settings and
            x.isidentifier() and not x.startswith(('part', 'memory'))}


def exprs_src(what, exprs):
    for w, g, s in exprs:
        if w == what:
            return s.replace('* v', '* velocity')
    return 'p'


def rename_attrs(e, me):
    pre = str(me) + '.'

    def nm(x):
        if isinstance(x, list):
            return [nm(y) for y in x]
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == 'var' and isinstance(x[1], str):
            s = x[1]
            return ('var', s[len(pre):] if s.startswith(pre) else s)
        return tuple(nm(y) for y in x)
    return nm(e)


def variables(e):
    if isinstance(e, list):
        return set().union(*[variables(x) for x in e]) if e else set()
    if not isinstance(e, tuple):
        return set()
    if len(e) == 2 and e[0] == 'var':
        return {e[1]}
    return set().union(*[variables(x) for x in e])


def start(repo, rep, rule, c, state):
    own, fn = repo.lookup(c, 'start')
    if not isinstance(fn, Fn):
        raise AnalysisBroken('%s.start not found' % c.name)
    rep.saw(fn.qual)
    I, st, ps, me = run(repo, c, 'start', raw=True)
    N = sym(fn.params()[1])
    H = find_cls(repo, 'Handler')
    for p in live(ps):
        S = Store(I, st, p, {}, H, repo)
        sets = {}
        shape = {}
        for i, e, l in flat(p):
            if e.kind == 'setattr' and e.obj is me:
                sets[e.name] = (p.s(e.val), S.arr(e.val))
                continue
            if e.kind in ('call', 'mut') and fname(e.f) in (
                    'zeros', 'ones', 'allocate') and e.args:
                shape[p.s(e.res)] = p.s(e.args[0])
            if not l:
                S.do(e)
        rep.check('net' in sets and sets['net'][0] is N, rule,
                  c.name + '.net', 'start() does not attach the network',
                  loc(fn))
        for a in sorted(state):
            what = '%s.%s' % (c.name, a)
            if a not in sets:
                rep.bad(rule, what, 'keeps the state of an earlier run',
                        loc(fn))
                continue
            v = sets[a][1]
            val = S.mem.get(v)
            if val is None:
                rep.skip(rule, what, 'value not understood')
                continue
            try:
                zero = equal(val, value_of('0')) is None
            except Undecided:
                zero = False
            rep.check(zero, rule, what, 'does not start at zero', loc(fn))
            sh = shape.get(v)
            if sh is not None:
                good = sh is attr(N, 'buffer', 'parameters', 'shape') or \
                    sh is attr(me, 'net', 'buffer', 'parameters', 'shape')
                if not good and sh.op == 'attr' and sh.a[1] == 'shape' and \
                        path_of(sh)[1][-3:] in (
                            ('buffer', 'gradients', 'shape'),):
                    good = True
                if good or sh.op == 'attr' or sh.op == 'const' or \
                        sh.op == 'tuple':
                    rep.check(good, rule, what + ': shape', 'is not kept '
                              'per parameter but has the shape %s' % sh,
                              loc(fn))
                else:
                    rep.skip(rule, what + ': shape', str(sh)[:60])


def scheduled(repo, rep):
    rule = 'scheduled'
    rep.rule(rule, 'every call of the scheduling hook sets the attribute of '
             'the stepper to the value of the schedule for the current '
             'epoch and update, on every path')
    c = find_cls(repo, 'ModifyStepperAttribute')
    own, fn = repo.lookup(c, '__call__')
    rep.saw(fn.qual)
    I, st, ps, me = run(repo, c, '__call__', raw=True)
    sched = attr(me, 'schedule')
    want = [sym('epoch_nr'), sym('update_nr'), attr(me, 'timescale'),
            attr(me, 'interval'), sym('net'), sym('stepper'), sym('logs')]
    pn = ['epoch_nr', 'update_nr', 'timescale', 'interval', 'net', 'stepper',
          'logs']
    for p in live(ps):
        res = None
        for i, e, l in flat(p):
            if e.kind in ('call', 'mut') and (e.f is sched or p.s(
                    e.f) is sched):
                a = dict(zip(pn, e.args))
                a.update(e.kw)
                rep.check([p.s(a[x]) if x in a else None for x in pn] ==
                          want, rule, 'arguments', 'the schedule is asked '
                          'for %s' % [str(a.get(x)) for x in pn], e.where())
                res = e.res
        done = False
        for i, e, l in flat(p):
            if e.kind in ('call', 'mut') and fname(e.f) == 'setattr' and \
                    len(e.args) == 3:
                done = done or (e.args[0] is sym('stepper') and e.args[
                    1] is attr(me, 'attr_name') and p.s(
                        e.args[2]) is res and res is not None)
            elif e.kind == 'setattr' and e.obj is sym('stepper'):
                done = done or p.s(e.val) is res
            elif e.kind == 'setitem' and p.s(e.val) is res and \
                    res is not None:
                done = True
        rep.check(done, rule, 'ModifyStepperAttribute', 'does not put the '
                  'value of the schedule into the attribute', loc(fn))
    rep.need(rule, 2, 'facts about the scheduling hook')


def p60(repo, rep, tier):
    steps(repo, rep)
    scheduled(repo, rep)
