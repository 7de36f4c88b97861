"""Properties P01-P06: what layer passes may read and write."""
from .interp import walk
from .layers import BUFFERS, LayerModel, Pass, Region, all_layers
from .lin import K, Lin, T
from .opspec import ACTS, OPS
from .repo import AnalysisBroken
from .terms import (FALSE, NONE, TRUE, V, const, cval, is_const, show,
                    subterms)

_cache = {}


def get_models(repo):
    if id(repo) not in _cache:
        _cache[id(repo)] = [LayerModel(repo, c) for c in all_layers(repo)]
    return _cache[id(repo)]


def resolve(v, asm):
    """Resolve phis decided by the path assumptions."""
    memo = {}

    def go(x):
        if not isinstance(x, V):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x in memo:
            return memo[x]
        if x.op == 'phi' and x.a[0] in asm:
            r = go(x.a[1] if asm[x.a[0]] else x.a[2])
        elif any(isinstance(y, (V, tuple)) for y in x.a):
            na = tuple(go(y) for y in x.a)
            r = V(x.op, *na) if na != x.a else x
        else:
            r = x
        memo[x] = r
        return r
    return go(v)


class Op(object):
    """A handler operation (or direct array store) on one path."""
    __slots__ = ('name', 'args', 'reads', 'writes', 'ev', 'conds', 'res',
                 'flags')

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(
            '%s=%r' % (k, v) for k, v in self.args.items()))


def make_op(ps, ev, conds, asm):
    o = Op()
    o.ev, o.conds = ev, tuple((resolve(c, asm), b) for c, b in conds)
    o.args, o.reads, o.writes, o.res, o.flags = {}, [], [], NONE, ()
    if ev.kind == 'hop':
        o.name = ev.op
        o.res = ev.res
        for k, v in ev.b.items():
            v = resolve(v, asm)
            r = ps.region(v)
            o.args[k] = r if r is not None else v
        spec = OPS.get(o.name)
        if spec is None:
            spec = derived_spec(ps.m.repo, o.name)
        if spec is not None:
            o.flags = spec[2]
            for p in spec[0]:
                if isinstance(o.args.get(p), Region):
                    o.reads.append((p, o.args[p]))
            for p, mode in spec[1].items():
                if isinstance(o.args.get(p), Region):
                    o.writes.append((p, o.args[p], mode))
                    if mode in ('a', 'ac'):
                        o.reads.append((p, o.args[p]))
        return o
    if ev.kind in ('setitem', 'aug'):
        if ev.kind == 'setitem':
            base = ps.region(resolve(V('idx', ev.obj, ev.idx), asm))
            if base is None:
                return None
            aug = ev.aug
            val = resolve(ev.rhs, asm)
        else:
            base = ps.region(resolve(ev.target, asm))
            if base is None:
                return None
            aug = ev.aop
            val = resolve(ev.val, asm)
        o.name = 'store'
        mode = 'w' if not aug else ('a' if aug in '+-' else 'w')
        o.writes.append(('out', base, mode))
        if aug:
            o.reads.append(('out', base))
        for s in subterms(val):
            if s.op in ('buf', 'tmp'):
                o.reads.append(('rhs', Region(s, 'all')))
        o.args = {'out': base}
        return o
    return None


def derived_spec(repo, name):
    """Effects of an operation that is not in the table, taken from the
    numpy backend's source (used only for operations added later)."""
    try:
        from .handler_checks import derive_numpy_effects
        return derive_numpy_effects(repo, name)
    except ImportError:
        return None


def build(ps, prog, asm):
    out = []
    for p in prog:
        if p[0] == 'loop':
            out.append(('loop', p[1], build(ps, p[2], asm), p[3]))
        else:
            o = make_op(ps, p[1], p[2], asm)
            if o is not None:
                out.append(('op', o))
            elif p[1].kind == 'setattr' and p[1].obj is ps.m.self_v:
                out.append(('self', p[1]))
    return out


def paths(m, meth, act=None, training=None):
    ps = m.run(meth, act, training)
    res = []
    for asm, prog in ps.programs():
        res.append((ps, asm, build(ps, prog, asm)))
    return res


def ops_of(prog, loops=()):
    for p in prog:
        if p[0] == 'loop':
            for x in ops_of(p[2], loops + (p[1],)):
                yield x
        elif p[0] == 'op':
            yield p[1], loops


def buf(cat, name):
    return V('buf', cat, name)


def asmtxt(asm):
    t = ['%s%s' % ('' if b else 'not ', show(c)) for c, b in asm.items()
         if not c.op == 'choice']
    return (' when ' + ' and '.join(t)) if t else ''


# ------------------------------------------------------------------ P01 ---
LINEAR = {'add_tt': (('a', 1), ('b', 1)), 'subtract_tt': (('a', 1),
                                                           ('b', -1)),
          'add_st': (('t', 1),), 'add_mv': (('m', 1), ('v', 1)),
          'subtract_mv': (('m', 1), ('v', -1)), 'copy_to': (('src', 1),)}


def keep_analysis(prog, target, rep_bad):
    """Coefficient of target's original content in every array."""
    MIX = 'mixed'

    def coef(st, r):
        if not isinstance(r, Region):
            return 0
        return st.get(r.root, 0)

    def run(prog, st):
        for p in prog:
            if p[0] == 'loop':
                s1 = run(p[2], dict(st))
                s1 = run(p[2], dict(s1)) if s1 != st else s1
                for k in set(s1) | set(st):
                    if s1.get(k, 0) != st.get(k, 0):
                        # a body that re-establishes the value is fine
                        st[k] = MIX
                st.update({k: v for k, v in s1.items()
                           if st.get(k) != MIX})
                continue
            if p[0] != 'op':
                continue
            o = p[1]
            new = {}
            for par, reg, mode in o.writes:
                r = reg.root
                if mode in ('a', 'ac'):
                    # the addend must not be (a function of) the target
                    base = coef(st, reg)
                    for q, x in o.reads:
                        if q != par and coef(st, x) != 0:
                            base = MIX
                    new[r] = base
                    continue
                if o.name in LINEAR:
                    c = 0
                    for q, s in LINEAR[o.name]:
                        x = o.args.get(q)
                        cx = coef(st, x)
                        if cx == MIX:
                            c = MIX
                            break
                        if cx and r is target and x.root is target and \
                                x.key() != reg.key():
                            cx = 0      # other region's content
                        c += s * cx
                elif o.name == 'mult_st' and is_const(o.args.get('s', NONE)):
                    cx = coef(st, o.args.get('t'))
                    c = cx if cx == MIX else cx * cval(o.args['s'])
                else:
                    c = 0
                    if any(coef(st, x) != 0 for q, x in o.reads
                           if q != 'cond'):
                        c = MIX
                full = mode == 'w' and not o.conds and reg.kind != 'part'
                if r is target and reg.kind in ('t', 'r', 'part'):
                    full = False
                if not full and c != st.get(r, 0):
                    c = MIX
                new[r] = c
            for r, c in new.items():
                if r is target and c != 1 and st.get(r, 0) == 1:
                    rep_bad.append((o, c))
                st[r] = c
        return st
    st = run(prog, {target: 1})
    return st.get(target, 0)


def p01(repo, rep, tier):
    rep.rule('keep-deltas', 'on every path of backward_pass the content that '
             'an input_deltas buffer had on entry reaches the exit with '
             'coefficient exactly 1 (only additive updates)')
    n = 0
    for m in get_models(repo):
        for act in m.acts():
            for ps, asm, prog in paths(m, 'backward_pass', act):
                rep.saw(*ps.I.inlined)
                rep.saw(ps.fn.qual)
                for name in m.bufs['input_deltas']:
                    bad = []
                    c = keep_analysis(prog, buf('input_deltas', name), bad)
                    site = bad[0][0] if bad else None
                    touched = [o for o, l in ops_of(prog) if any(
                        w[1].root is buf('input_deltas', name)
                        for w in o.writes)]
                    rep.check(
                        c == 1, 'keep-deltas', '%s.backward_pass:%s' % (
                            m.cls.name, name),
                        'the deltas other consumers left in input_deltas.%s '
                        'do not survive%s (%s)' % (
                            name, asmtxt(asm),
                            site if site is not None else 'coefficient %s' %
                            c),
                        site.ev.where() if site is not None else '')
                    n += len(touched)
    rep.need('keep-deltas', 20, 'input-delta buffers')
    if n < 20:
        raise AnalysisBroken('P01: only %d updates of input_deltas found' % n)


# ------------------------------------------------------------------ P02 ---
def exposed_reads(prog):
    """roots read before being fully written on this path (in order)."""
    written, exposed = set(), {}

    def run(prog):
        for p in prog:
            if p[0] == 'loop':
                run(p[2])
            elif p[0] == 'op':
                o = p[1]
                for q, x in o.reads:
                    if x.root not in written:
                        exposed.setdefault(x.root, o)
                for q, x, mode in o.writes:
                    if mode == 'w' and x.kind in ('all', 'r') and \
                            not o.conds:
                        written.add(x.root)
    run(prog)
    return exposed


def p02(repo, rep, tier):
    rep.rule('fwd-writes', 'forward_pass writes only its own outputs, '
             'internals, temporaries and (while training) running '
             'statistics that receive no gradient')
    rep.rule('bwd-writes', 'backward_pass writes only input_deltas, '
             'gradients, its own output_deltas, temporaries and internals '
             'whose forward content the backward pass does not consume')
    for m in get_models(repo):
        grads = set()
        for act in m.acts():
            for ps, asm, prog in paths(m, 'backward_pass', act):
                for o, l in ops_of(prog):
                    for q, r, mode in o.writes:
                        if r.root.op == 'buf' and \
                                r.root.a[0] == 'gradients':
                            grads.add(r.root.a[1])
        for act in m.acts():
            for tr in (True, False):
                for ps, asm, prog in paths(m, 'forward_pass', act, tr):
                    rep.saw(ps.fn.qual)
                    rep.saw(*ps.I.inlined)
                    for o, l in ops_of(prog):
                        for q, r, mode in o.writes:
                            root = r.root
                            if root.op == 'tmp':
                                ok = True
                            else:
                                cat = root.a[0]
                                ok = cat in ('outputs', 'internals')
                                if cat == 'parameters' and tr and \
                                        root.a[1] not in grads:
                                    ok = True
                            rep.check(ok, 'fwd-writes', '%s.forward_pass:%s'
                                      ':%s' % (m.cls.name, r.name(), o.name),
                                      'forward pass (training=%s) modifies '
                                      '%s' % (tr, r), o.ev.where())
            for ps, asm, prog in paths(m, 'backward_pass', act):
                rep.saw(ps.fn.qual)
                exp = exposed_reads(prog)
                for o, l in ops_of(prog):
                    for q, r, mode in o.writes:
                        root = r.root
                        msg = 'backward pass modifies %s' % r
                        if root.op == 'tmp':
                            ok = True
                        else:
                            cat = root.a[0]
                            ok = cat in ('input_deltas', 'gradients',
                                         'output_deltas')
                            if cat == 'internals':
                                info = m.bufs['internals'].get(root.a[1])
                                ok = info is None or info.backward_only or \
                                    root not in exp
                                msg += ', whose forward content it also ' \
                                    'reads: a second backward pass gives ' \
                                    'another result'
                        rep.check(ok, 'bwd-writes', '%s.backward_pass:%s:%s'
                                  % (m.cls.name, r.name(), o.name), msg,
                                  o.ev.where())
    rep.need('fwd-writes', 60, 'writes in forward passes')
    rep.need('bwd-writes', 80, 'writes in backward passes')


# ------------------------------------------------------------------ P03 ---
NONDIFF_PARAM = {'cond'}
NONDIFF_OPS = {'modulo_tt', 'binarize_v', 'sign_t', 'fill', 'modulo_mm'}
NONDIFF_ARG = {('index_m_by_v', 'v')}


def deps(prog, sources, differentiable=False):
    """may-dependence: root -> set of source roots its content depends on."""
    st = {s: {s} for s in sources}

    def run(prog):
        changed = False
        for p in prog:
            if p[0] == 'loop':
                for _ in range(6):
                    before = {k: set(v) for k, v in st.items()}
                    run(p[2])
                    if before == st:
                        break
            elif p[0] == 'op':
                o = p[1]
                for q, r, mode in o.writes:
                    d = set()
                    for qq, x in o.reads:
                        if differentiable and (
                                qq in NONDIFF_PARAM or
                                o.name in NONDIFF_OPS or
                                (o.name, qq) in NONDIFF_ARG):
                            if not (qq == q):
                                continue
                        d |= st.get(x.root, set())
                    strong = mode == 'w' and r.kind == 'all' and not o.conds
                    if strong:
                        st[r.root] = d
                    else:
                        st[r.root] = st.get(r.root, set()) | d
    run(prog)
    return st


def must_contrib(prog, target, srcs):
    """Is there, on this path, an unconditional accumulating/overwriting
    write into target whose operand depends on srcs, after which target is
    not overwritten by something independent?"""
    st = {s: True for s in srcs}

    def run(prog, st):
        for p in prog:
            if p[0] == 'loop':
                for _ in range(4):
                    b = dict(st)
                    run(p[2], st)
                    if b == st:
                        break
            elif p[0] == 'op':
                o = p[1]
                for q, r, mode in o.writes:
                    d = any(st.get(x.root) for qq, x in o.reads
                            if qq not in ('cond',))
                    if o.conds or mode in ('wc', 'ac'):
                        continue
                    if mode == 'w' and r.kind == 'all':
                        st[r.root] = d
                    elif d:
                        st[r.root] = True
        return st
    return bool(run(prog, st).get(target))


def scalar_sink(m):
    return all(b.time is False for b in m.bufs['outputs'].values()) and \
        m.bufs['outputs']


def p03(repo, rep, tier):
    rep.rule('input-deltas', 'if an output depends differentiably on an '
             'input, backward_pass lets the output\'s deltas contribute to '
             'that input\'s deltas on every path')
    rep.rule('gradients', 'if an output depends differentiably on a '
             'parameter, backward_pass lets the output\'s deltas contribute '
             'to that parameter\'s gradient on every path')
    rep.rule('scalar-loss', 'a layer with a scalar output injects its own '
             'unit delta into every input')
    for m in get_models(repo):
        for act in m.acts():
            fw = paths(m, 'forward_pass', act, True)
            bw = paths(m, 'backward_pass', act)
            fw = [x for x in fw if feasible(m, x[1])]
            bw = [x for x in bw if feasible(m, x[1])]
            fdep = {}
            for ps, asm, prog in fw:
                rep.saw(ps.fn.qual)
                src = [buf('inputs', n) for n in m.bufs['inputs']] + \
                    [buf('parameters', n) for n in m.bufs['parameters']]
                d = deps(prog, src, differentiable=True)
                for n in m.bufs['outputs']:
                    fdep.setdefault(n, []).append(
                        (asm, d.get(buf('outputs', n), set())))
            upd = set()
            for ps, asm, prog in fw:
                for o, l in ops_of(prog):
                    for q, r, mode in o.writes:
                        if r.root.op == 'buf' and r.root.a[0] == \
                                'parameters':
                            upd.add(r.root.a[1])
            outs = [n for n in m.bufs['outputs']
                    if n not in m.takes_no_output_deltas_from]
            for ps, asm, prog in bw:
                rep.saw(ps.fn.qual)
                if scalar_sink(m):
                    for n in m.bufs['inputs']:
                        if n in m.computes_no_input_deltas_for:
                            continue
                        w = [o for o, l in ops_of(prog) for q, r, mode in
                             o.writes if r.root is buf('input_deltas', n) and
                             not o.conds]
                        rep.check(bool(w), 'scalar-loss',
                                  '%s.backward_pass:%s' % (m.cls.name, n),
                                  'no unconditional update of input_deltas.'
                                  '%s%s' % (n, asmtxt(asm)), ps.fn.qual)
                    continue
                for o_name in outs:
                    srcs = [buf('output_deltas', o_name)]
                    for kind, rule, exempt in (
                            ('inputs', 'input-deltas',
                             m.computes_no_input_deltas_for),
                            ('parameters', 'gradients',
                             m.computes_no_gradients_for | upd)):
                        tcat = {'inputs': 'input_deltas',
                                'parameters': 'gradients'}[kind]
                        for n in m.bufs[kind]:
                            if n in exempt:
                                continue
                            need = [a for a, s in fdep.get(o_name, [])
                                    if buf(kind, n) in s and
                                    compatible(a, asm)]
                            if not need:
                                continue
                            ok = must_contrib(prog, buf(tcat, n), srcs)
                            rep.check(
                                ok, rule, '%s.backward_pass:%s.%s' % (
                                    m.cls.name, tcat, n),
                                '%s.%s depends on %s.%s but its deltas do '
                                'not reach %s.%s%s' % (
                                    'outputs', o_name, kind, n, tcat, n,
                                    asmtxt(asm)), ps.fn.qual)
    rep.need('input-deltas', 30, 'output/input pairs')
    rep.need('gradients', 20, 'output/parameter pairs')


def compatible(a, b):
    return all(b.get(c, v) == v for c, v in a.items())


# ------------------------------------------------------------------ P05 ---
def p05(repo, rep, tier):
    rep.rule('eval-random', 'forward_pass with training_pass=False performs '
             'no random operation')
    rep.rule('eval-params', 'forward_pass with training_pass=False changes '
             'no parameter')
    rep.rule('eval-state', 'forward_pass leaves no state on the layer object '
             'that a later pass reads')
    rep.rule('eval-outputs', 'forward_pass with training_pass=False defines '
             'every declared output')
    for m in get_models(repo):
        for act in m.acts():
            for ps, asm, prog in paths(m, 'forward_pass', act, False):
                rep.saw(ps.fn.qual)
                rep.saw(*ps.I.inlined)
                wr = set()
                for o, l in ops_of(prog):
                    rep.check('random' not in o.flags, 'eval-random',
                              '%s.forward_pass:%s' % (m.cls.name, o.name),
                              'random operation %r in an evaluation pass%s' %
                              (o, asmtxt(asm)), o.ev.where())
                    for q, r, mode in o.writes:
                        wr.add(r.root)
                        rep.check(not (r.root.op == 'buf' and r.root.a[0] ==
                                       'parameters'), 'eval-params',
                                  '%s.forward_pass:%s' % (m.cls.name,
                                                          r.name()),
                                  'an evaluation pass changes %s' % r,
                                  o.ev.where())
                for e, g, i in walk(ps.blk):
                    if e.kind == 'call' and is_random_call(e):
                        rep.bad('eval-random', '%s.forward_pass:%s' % (
                            m.cls.name, show(e.f)),
                            'random call in an evaluation pass', e.where())
                if 'outputs' not in m.open_cats and m.input_names:
                    for n, b in m.bufs['outputs'].items():
                        if b.optional is not None or not feasible(m, asm):
                            continue
                        rep.check(buf('outputs', n) in wr, 'eval-outputs',
                                  '%s.forward_pass:outputs.%s' % (
                                      m.cls.name, n),
                                  'outputs.%s is not written in an '
                                  'evaluation pass%s' % (n, asmtxt(asm)),
                                  ps.fn.qual)
        self_state(m, rep)
    rep.need('eval-outputs', 20, 'outputs')


def is_random_call(e):
    s = show(e.f)
    return 'numpy.random' in s or '.rnd.' in s or s.startswith('random.')


def self_state(m, rep):
    import ast
    from .repo import Fn
    written = {}
    for meth in ('forward_pass', 'backward_pass'):
        for tr in ((True, False) if meth == 'forward_pass' else (None,)):
            ps = m.run(meth, m.acts()[0], tr)
            for e, g, i in walk(ps.blk):
                if e.kind == 'setattr' and e.obj is m.self_v:
                    written.setdefault(e.name, []).append((meth, tr, e))
    for name, sites in written.items():
        for meth, tr, e in sites:
            if meth == 'forward_pass' and tr is False or \
                    meth == 'backward_pass':
                # read before written in forward?  the old value flows into
                # the new one or into an event before this one
                reads = attr_read_before(m, name)
                rep.check(not reads, 'eval-state', '%s.%s:self.%s' % (
                    m.cls.name, meth, name),
                    'self.%s is changed by %s and read by a later '
                    'forward pass' % (name, meth), e.where())
    if not written:
        rep.ok('eval-state', '%s keeps no pass state' % m.cls.name)


def attr_read_before(m, name):
    """forward_pass reads self.name on some path before assigning it: seed
    the attribute with a marker and see whether it reaches an event."""
    marker = V('sym', 'marker_%s' % name)
    st = m.state
    o = st.heap[m.self_v.a[0]]
    old = o.attrs.get(name)
    o.attrs[name] = marker
    try:
        m._runs = {k: v for k, v in m._runs.items()}
        saved = dict(m._runs)
        m._runs.clear()
        hit = False
        for tr in (True, False):
            ps = m.run('forward_pass', m.acts()[0], tr)
            for e, g, i in walk(ps.blk):
                vals = []
                if e.kind == 'hop':
                    vals = list(e.b.values())
                elif e.kind in ('call', 'setattr'):
                    vals = list(e.d.get('args', [])) + [e.d.get('val')]
                vals += [x[1] for x in g if x[0] == 'if']
                for v in vals:
                    if isinstance(v, V) and marker in subterms(v):
                        hit = True
    finally:
        if old is None:
            o.attrs.pop(name, None)
        else:
            o.attrs[name] = old
        m._runs.clear()
        m._runs.update(saved)
    return hit


# ------------------------------------------------------------- P04, P06 ---
from .timeexp import (Cells, IndexProblem, Undecided, align,   # noqa: E402
                      dependences, expand, is_true)

TS = {'quick': (1, 2, 3), 'thorough': (1, 2, 3, 4, 5)}


def is_time(ps, root):
    return ps.length(root) is not None


def expansions(m, meth, act, training, tier, rep, rule):
    for ps, asm, prog in paths(m, meth, act, training):
        rep.saw(ps.fn.qual)
        for Tn in TS.get(tier, TS['quick']):
            try:
                yield ps, asm, Tn, expand(ps, prog, Tn)
            except IndexProblem as e:
                rep.bad(rule, '%s.%s:%s' % (m.cls.name, meth, e.op.name),
                        str(e), e.op.ev.where())
            except Undecided as e:
                rep.skip(rule, '%s.%s' % (m.cls.name, meth), str(e))


def p04(repo, rep, tier):
    rep.rule('defined-before-use', 'no operation of a pass reads a cell of '
             'its outputs, internals or freshly allocated memory that has '
             'not been written before in the same pass (context slots, '
             'zero-initialised memory and buffers the network clears before '
             'the pass excepted)')
    rep.rule('outputs-defined', 'forward_pass writes every cell of every '
             'real time step of every declared output')
    for m in get_models(repo):
        acts = m.acts()
        for act in acts:
            # forward, training and evaluation
            fdefs = {}
            for tr in (True, False):
                for ps, asm, Tn, cops in expansions(
                        m, 'forward_pass', act, tr, tier, rep,
                        'defined-before-use'):
                    defd = defined_scan(m, ps, cops, Tn, rep, 'forward_pass',
                                        set())
                    fdefs.setdefault(Tn, []).append((asm, defd))
                    if m.input_names and 'outputs' not in m.open_cats:
                        for n, b in m.bufs['outputs'].items():
                            r = buf('outputs', n)
                            L = ps.length(r)
                            cells = [(r, None)] if L is None else [
                                (r, i) for i in range(Tn)]
                            ok = all(c in defd for c in cells)
                            if not ok and feasible(m, asm):
                                rep.bad('outputs-defined',
                                        '%s.forward_pass:outputs.%s' % (
                                            m.cls.name, n),
                                        'outputs.%s is not written at every '
                                        'time step%s (T=%d, training=%s)' % (
                                            n, asmtxt(asm), Tn, tr),
                                        ps.fn.qual)
                            else:
                                rep.ok('outputs-defined', '%s.%s T=%d' % (
                                    m.cls.name, n, Tn))
            # backward: forward state must have been produced by the
            # forward pass of the same kind
            for ps, asm, Tn, cops in expansions(
                    m, 'backward_pass', act, None, tier, rep,
                    'defined-before-use'):
                base = set()
                cand = [d for a, d in fdefs.get(Tn, [])
                        if compatible(a, asm)]
                if cand:
                    # backward passes follow training passes
                    base = set(cand[0])
                defined_scan(m, ps, cops, Tn, rep, 'backward_pass', base)
    rep.need('defined-before-use', 300, 'reads')
    rep.need('outputs-defined', 40, 'outputs')


def feasible(m, asm):
    """Do the facts asserted during setup rule this path out?"""
    facts = setup_facts(m)
    for f in facts:
        if f.op == 'cmp' and f.a[0] == 'in':
            x, s = f.a[1], f.a[2]
            seq = m.setup_interp.concrete_seq(s, m.state)
            if seq is None:
                continue
            if all(asm.get(eqc(x, c)) is False for c in seq):
                return False
        if f in asm and asm[f] is False:
            return False
    return True


def eqc(x, c):
    return V('cmp', '==', x, c)


def setup_facts(m):
    if not hasattr(m, '_facts'):
        m._facts = []
        for e, g, i in walk(m.init_blk):
            if e.kind == 'assert' and not any(x[0] == 'if' for x in g):
                c = e.cond
                m._facts += list(c.a[0]) if c.op == 'and' else [c]
        # what every path through __init__ that does not raise has checked
        for c, v in m.state.path.items():
            if v is True and c not in m._facts:
                m._facts.append(c)
    return m._facts


def initially_defined(m, ps, cell, meth, Tn):
    root, i = cell
    if root.op == 'tmp':
        return root.a[1] != 'allocate'
    if root.op == 'badbuf':
        return True
    cat, name = root.a[0], root.a[1]
    if cat in ('inputs', 'parameters', 'input_deltas', 'output_deltas',
               'gradients'):
        return True
    info = m.bufs[cat].get(name)
    if info is None:
        return True
    if info.backward_only and meth == 'backward_pass':
        return True         # cleared by Network.backward_pass (P21)
    if i is not None and i >= Tn:
        return True         # context slot
    return False


def defined_scan(m, ps, cops, Tn, rep, meth, base):
    defd = set(base)
    for co in cops:
        o = co.op
        for q, rr in o.reads:
            cs = co.args.get(q)
            if not isinstance(cs, Cells):
                continue
            bad = [c for c in cs.cells() if c not in defd and
                   not initially_defined(m, ps, c, meth, Tn)]
            nm = rr.name()
            rep.check(not bad, 'defined-before-use', '%s.%s:%s(%s=%s)' % (
                m.cls.name, meth, o.name, q, nm),
                '%s reads %r before anything was written there (T=%d)' % (
                    o.name, cs, Tn), o.ev.where())
            defd.update(bad)    # report once
        for p, rr, mode in o.writes:
            cs = co.args.get(p)
            if isinstance(cs, Cells) and mode == 'w' and not cs.part:
                defd.update(cs.cells())
            elif isinstance(cs, Cells) and mode == 'w' and cs.part:
                defd.update(cs.cells())
    return defd


def recurrent(m):
    return any(b.ctx and not b.backward_only for c in ('outputs',
                                                       'internals')
               for b in m.bufs[c].values())


def p06(repo, rep, tier):
    rep.rule('index-range', 'every time index stays inside its buffer')
    rep.rule('causal', 'outputs at step t depend only on inputs at steps '
             '<= t, parameters and context slots')
    rep.rule('context-kept', 'forward_pass never writes a context slot')
    rep.rule('context-read', 'whatever step t reads from step t-1, step 0 '
             'reads from the context slot of the same buffer')
    rep.rule('wraparound', 'no pass reads a time step through an index that '
             'wraps around a buffer without context slot')
    rep.rule('bptt', 'deltas of output step t reach the deltas of input '
             'step s exactly when output step t depends on input step s')
    rep.rule('grad-cofactor', 'every forward value a parameter is '
             'multiplied with (context included) enters the gradient of '
             'that parameter')
    nrec = 0
    for m in get_models(repo):
        if m.open_cats & {'outputs', 'internals', 'parameters'}:
            continue
        rec = recurrent(m)
        nrec += rec
        for act in m.acts():
            fdep = {}
            cof = {}
            for ps, asm, Tn, cops in expansions(m, 'forward_pass', act,
                                                False, tier, rep, 'causal'):
                causal(m, ps, cops, Tn, rep)
            for ps, asm, Tn, cops in expansions(m, 'forward_pass', act, True,
                                                tier, rep, 'index-range'):
                rep.ok('index-range', '%s forward T=%d' % (m.cls.name, Tn))
                d, get = dependences(cops, lambda c: True, skip_nondiff)
                if rec:
                    causal(m, ps, cops, Tn, rep)
                if m.input_names:
                    fdep.setdefault(Tn, []).append((asm, d, get))
                cross1, cross0 = {}, {}
                for co in cops:
                    o = co.op
                    for p, rr, mode in o.writes:
                        cs = co.args.get(p)
                        if not isinstance(cs, Cells) or cs.idx is None:
                            continue
                        if rr.root.op == 'buf' and ctx_of(m, rr.root):
                            rep.check(all(i < Tn for i in cs.idx),
                                      'context-kept', '%s.forward_pass:%s' %
                                      (m.cls.name, rr.name()),
                                      '%s overwrites the context slot of %s'
                                      % (o.name, rr.name()), o.ev.where())
                    if rec:
                        cross_step(m, co, Tn, cross0, cross1, rep)
                    cofactors(m, co, Tn, cof.setdefault(Tn, {}))
                if rec and Tn >= 2:
                    s1, s0 = set(cross1), set(cross0)
                    for root in sorted(s1 | s0, key=str):
                        o = cross1.get(root) or cross0.get(root)
                        rep.check(root in s1 and root in s0, 'context-read',
                                  '%s.forward_pass:%s.%s' % (
                                      m.cls.name, root.a[0], root.a[1]),
                                  'steps t>0 %s the previous step of %s.%s '
                                  'while step 0 %s its context slot' % (
                                      'read' if root in s1 else
                                      'do not read', root.a[0], root.a[1],
                                      'reads' if root in s0 else
                                      'does not read'), o.ev.where())
            for ps, asm, Tn, cops in expansions(m, 'backward_pass', act,
                                                None, tier, rep,
                                                'index-range'):
                rep.ok('index-range', '%s backward T=%d' % (m.cls.name, Tn))
                if scalar_sink(m):
                    continue
                d, get = dependences(cops, lambda c: True, skip_cond)
                for co in cops:
                    wrap_check(m, co, Tn, rep, 'backward_pass')
                for fasm, fd, fget in fdep.get(Tn, []):
                    if not compatible(fasm, asm):
                        continue
                    bptt(m, ps, act, Tn, get, fget, rep)
                    # cofactor rule
                    for (pname, cell), op in sorted(
                            cof.get(Tn, {}).items(), key=str):
                        if pname in m.computes_no_gradients_for:
                            continue
                        g = get((buf('gradients', pname), None))
                        root, i = cell
                        if root.op != 'buf' or root.a[0] == 'parameters':
                            continue
                        where = 'context slot' if (
                            i is not None and i >= Tn) else 'step %s' % i
                        rep.check(
                            cell in g, 'grad-cofactor',
                            '%s.backward_pass:gradients.%s<-%s.%s[%s]' % (
                                m.cls.name, pname, root.a[0], root.a[1],
                                'context' if i is not None and i >= Tn
                                else 't'),
                            'parameters.%s multiplies %s.%s at the %s in the '
                            'forward pass but the gradient does not use that '
                            'value (T=%d)' % (pname, root.a[0], root.a[1],
                                              where, Tn), op.ev.where())
                    break
    if nrec < 4:
        raise AnalysisBroken('P06: only %d recurrent layers found' % nrec)
    rep.need('causal', 60, 'output steps')
    rep.need('grad-cofactor', 100, 'products')


def causal(m, ps, cops, Tn, rep):
    dall, getall = dependences(cops, lambda c: True)
    for n, b in m.bufs['outputs'].items():
        r = buf('outputs', n)
        if not is_time(ps, r):
            continue
        for t in range(Tn):
            late = [c for c in getall((r, t)) if c[1] is not None and
                    c[0].op == 'buf' and c[0].a[0] == 'inputs' and
                    c[1] > t and is_time(ps, c[0])]
            rep.check(not late, 'causal', '%s.forward_pass:outputs.%s' % (
                m.cls.name, n), 'output step %d depends on input step %s '
                '(T=%d)' % (t, [c[1] for c in late], Tn), ps.fn.qual)


def ctx_of(m, root):
    b = m.bufs[root.a[0]].get(root.a[1]) if root.op == 'buf' else None
    return bool(b is not None and b.ctx)


def skip_nondiff(o, q):
    return q in NONDIFF_PARAM or o.name in NONDIFF_OPS or \
        (o.name, q) in NONDIFF_ARG


def skip_cond(o, q):
    return q in NONDIFF_PARAM or o.name in ('modulo_tt', 'modulo_mm')


def cross_step(m, co, Tn, cross0, cross1, rep):
    """which buffers does step t read at t-1 (or, at step 0, at the slot)"""
    o = co.op
    for p, rr, mode in o.writes:
        w = co.args.get(p)
        if not isinstance(w, Cells) or w.idx is None or len(w.idx) != 1 or \
                not w.single:
            continue
        t = w.idx[0]
        if t >= Tn:
            continue
        for q, x in o.reads:
            r = co.args.get(q)
            if not isinstance(r, Cells) or r.idx is None or q == p or \
                    x.root.op != 'buf' or not r.single:
                continue
            if x.root.a[0] not in ('outputs', 'internals'):
                continue
            i = r.idx[0]
            if t >= 1 and i == t - 1:
                cross1.setdefault(x.root, o)
            elif t == 0 and i != 0:
                if ctx_of(m, x.root):
                    cross0.setdefault(x.root, o)
                else:
                    rep.bad('wraparound', '%s.forward_pass:%s.%s' % (
                        m.cls.name, x.root.a[0], x.root.a[1]),
                        'step 0 reads step %d of %s.%s through a wrapped '
                        'index' % (i, x.root.a[0], x.root.a[1]),
                        o.ev.where())


def wrap_check(m, co, Tn, rep, meth):
    o = co.op
    for q, x in list(o.reads) + [(p, r) for p, r, mode in o.writes]:
        if not isinstance(x, Region) or x.kind != 't':
            continue
        from .timeexp import ev_lin
        raw = ev_lin(x.lo, dict(co.env, T=Tn))
        cs = co.args.get(q)
        if raw < 0 and isinstance(cs, Cells) and x.root.op == 'buf':
            rep.check(ctx_of(m, x.root), 'wraparound', '%s.%s:%s.%s' % (
                m.cls.name, meth, x.root.a[0], x.root.a[1]),
                'index %d of %s.%s wraps around to step %d' % (
                    raw, x.root.a[0], x.root.a[1], cs.idx[0]),
                o.ev.where())


PRODUCT = {'dot_mm': ('a', 'b'), 'dot_add_mm': ('a', 'b'),
           'mult_mv': ('m', 'v'), 'mult_add_mv': ('m', 'v'),
           'mult_tt': ('a', 'b'), 'mult_add_tt': ('a', 'b')}


def cofactors(m, co, Tn, acc):
    o = co.op
    if o.name not in PRODUCT:
        return
    x, y = PRODUCT[o.name]
    X, Y = co.args.get(x), co.args.get(y)
    if not isinstance(X, Cells) or not isinstance(Y, Cells):
        return
    for P, Q in ((X, Y), (Y, X)):
        if P.root.op == 'buf' and P.root.a[0] == 'parameters':
            for c in Q.cells():
                acc.setdefault((P.root.a[1], c), o)


def bptt(m, ps, act, Tn, bget, fget, rep):
    outs = [n for n in m.bufs['outputs']
            if n not in m.takes_no_output_deltas_from]
    for n in m.bufs['inputs']:
        if n in m.computes_no_input_deltas_for:
            continue
        ri, rd = buf('inputs', n), buf('input_deltas', n)
        if not is_time(ps, ri):
            continue
        for on in outs:
            ro, rdo = buf('outputs', on), buf('output_deltas', on)
            if not is_time(ps, ro):
                continue
            for s in range(Tn):
                for t in range(Tn):
                    f = (ri, s) in fget((ro, t))
                    b = (rdo, t) in bget((rd, s))
                    if act == 'linear' and False:
                        continue
                    rep.check(f == b, 'bptt', '%s:%s->%s' % (
                        m.cls.name, n, on),
                        'output step %d %s on input step %d but its deltas '
                        '%s that step (T=%d)' % (
                            t, 'depends' if f else 'does not depend', s,
                            'reach' if b else 'do not reach', Tn),
                        ps.fn.qual)
