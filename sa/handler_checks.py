"""Properties P10-P13: the compute backends."""
import ast

from . import elem
from .handlers import (Sum, Undec, backends, c_effects, ext_name,
                       pointer_misuse, public_methods, root)
from .interp import Interp, State, walk
from .opspec import ACTS, OPS
from .repo import AnalysisBroken, Fn
from .terms import NONE, V, const, cval, is_const, show, subterms


def short(cls):
    return cls.name


def sig(fn):
    ps = fn.params()[1:]
    a = fn.node.args
    nd = len(a.defaults)
    defs = {}
    for p, d in zip(ps[len(ps) - nd:], a.defaults):
        try:
            defs[p] = ast.literal_eval(d)
        except ValueError:
            defs[p] = ast.dump(d)
    return ps, defs, a.vararg is not None or a.kwarg is not None


def abstract_ops(repo, base):
    out = {}
    for n, m in base.members.items():
        if isinstance(m, Fn) and not n.startswith('_'):
            out[n] = m
    if len(out) < 30:
        raise AnalysisBroken('the abstract handler offers only %d '
                             'operations' % len(out))
    return out


def wraps_handler(repo, c):
    """the class that delegates to another handler"""
    o, init = repo.lookup(c, '__init__')
    if not isinstance(init, Fn):
        return False
    return 'handler' in init.params()


# ------------------------------------------------------------------- P10 ---
def p10(repo, rep, tier):
    base, bs = backends(repo)
    rep.rule('offered', 'every operation of the abstract handler is '
             'implemented by every backend')
    rep.rule('signature', 'an implementation accepts the calls the interface '
             'allows: same number of parameters, same defaults, and a '
             'parameter that has a name of the interface is at its position')
    rep.rule('call', 'every handler call in the package names an operation '
             'of every backend and passes arguments all of them accept')
    rep.rule('table', 'the activation tables map each name to the function '
             'and the derivative of that activation')
    ops = abstract_ops(repo, base)
    impl = {c: public_methods(repo, c, base) for c in bs}
    for c in bs:
        for n, fn in sorted(ops.items()):
            m = impl[c].get(n)
            if not rep.check(m is not None, 'offered', '%s.%s' % (c.name, n),
                             'operation of the interface is not implemented',
                             c.mod.path):
                continue
            rep.saw(m.qual)
            check_sig(rep, c, n, fn, m)
    calls(repo, rep, base, bs, ops, impl)
    tables(repo, rep, base, bs)
    rep.need('offered', 100, 'operations')
    rep.need('call', 100, 'handler calls')


def check_sig(rep, c, n, fn, m):
    bp, bd, _ = sig(fn)
    mp, md, star = sig(m)
    con = '%s.%s' % (c.name, n)
    if star:
        rep.skip('signature', con, 'takes * arguments')
        return
    where = '%s in %s' % (m.mod.path, m.qual)
    if len(mp) != len(bp):
        extra = mp[len(bp):]
        if len(mp) > len(bp) and all(p in md for p in extra):
            rep.ok('signature', con)
        else:
            rep.bad('signature', con, 'has parameters (%s), the interface '
                    '(%s)' % (', '.join(mp), ', '.join(bp)), where)
        return
    for i, p in enumerate(mp):
        if p in bp and bp.index(p) != i:
            rep.bad('signature', con, 'parameter %s is at position %d, in '
                    'the interface at %d' % (p, i, bp.index(p)), where)
            return
    for i, p in enumerate(bp):
        if p in bd:
            if mp[i] not in md:
                rep.bad('signature', con, 'parameter %s lost its default' %
                        p, where)
                return
            if md[mp[i]] != bd[p]:
                rep.bad('signature', con, 'default of %s is %r, in the '
                        'interface %r' % (p, md[mp[i]], bd[p]), where)
                return
    rep.ok('signature', con, where)


def is_handler_expr(e, names):
    """does the expression denote a handler?"""
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Attribute):
        return e.attr in ('handler', '_handler')
    return False


def calls(repo, rep, base, bs, ops, impl):
    for mod in repo.modules.values():
        for node in ast.walk(mod.tree):
            if not isinstance(node, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(node, ast.Lambda):
                continue
            names = {'_h', 'handler'} & set(
                x.id for x in ast.walk(node) if isinstance(x, ast.Name)) | {
                a.arg for a in node.args.args
                if a.arg in ('_h', 'handler', 'hnd')}
            # local aliases of <x>.handler
            for st in ast.walk(node):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                        isinstance(st.targets[0], ast.Name) and \
                        isinstance(st.value, ast.Attribute) and \
                        st.value.attr == 'handler':
                    names.add(st.targets[0].id)
            for cl in ast.walk(node):
                if not (isinstance(cl, ast.Call) and
                        isinstance(cl.func, ast.Attribute)):
                    continue
                if not is_handler_expr(cl.func.value, names):
                    continue
                n = cl.func.attr
                if n.startswith('__') or n in ('array_type', 'dtype'):
                    continue
                one_call(repo, rep, mod, node, cl, n, base, bs, ops, impl)


def one_call(repo, rep, mod, fn, cl, n, base, bs, ops, impl):
    con = '%s.%s:%s(%d)' % (mod.name, fn.name, n, len(cl.args))
    where = '%s:%d' % (mod.path, cl.lineno)
    if n not in ops and not any(n in impl[c] for c in bs):
        # some other object called handler
        rep.skip('call', con, 'no backend offers it')
        if any(is_handlerish(cl) for _ in (0,)) and \
                looks_like_op(n, ops):
            rep.bad('call', con, 'no backend offers %s' % n, where)
        return
    if any(isinstance(a, ast.Starred) for a in cl.args) or any(
            k.arg is None for k in cl.keywords):
        rep.skip('call', con, 'starred arguments')
        return
    for c in [base] + bs:
        m = (ops if c is base else impl[c]).get(n)
        if m is None:
            rep.bad('call', con, '%s does not offer %s' % (c.name, n), where)
            return
        ps, defs, star = sig(m)
        if star:
            continue
        pos = ps[:len(cl.args)]
        if len(cl.args) > len(ps):
            rep.bad('call', con, '%s.%s takes %d arguments' % (c.name, n,
                                                               len(ps)),
                    where)
            return
        for k in cl.keywords:
            if k.arg not in ps:
                rep.bad('call', con, '%s.%s has no parameter %s' % (
                    c.name, n, k.arg), where)
                return
            if k.arg in pos:
                rep.bad('call', con, '%s.%s gets %s twice' % (c.name, n,
                                                              k.arg), where)
                return
        given = set(pos) | {k.arg for k in cl.keywords}
        miss = [p for p in ps if p not in given and p not in defs]
        if miss:
            rep.bad('call', con, '%s.%s is called without %s' % (
                c.name, n, ', '.join(miss)), where)
            return
    rep.ok('call', con, where)


def is_handlerish(cl):
    return True


def looks_like_op(n, ops):
    return n.endswith(('_tt', '_mv', '_mm', '_st', '_t', '_m', '_v',
                       '_batch', '_deriv', '_if'))


FUN = {'sigmoid': 'sigmoid', 'tanh': 'tanh', 'rel': 'rel', 'el': 'el'}


def tables(repo, rep, base, bs):
    """interpret Handler.__init__ and apply every table entry"""
    hooked = {}

    def hook(I, f, args, kwargs, fr, cont, node):
        if f.op == 'bound' and isinstance(f.a[0], Fn) and \
                f.a[0].name in OPS:
            I.emit(fr, cont, 'call', node, f=V('hop', f.a[0].name),
                   args=args, kw=kwargs, res=NONE)
            return NONE
        return None
    for c in [base] + bs:
        own, init = repo.lookup(base, '__init__')
        if c is not base:
            # a backend must run the initialiser that builds the tables
            o2, i2 = repo.lookup(c, '__init__')
            if isinstance(i2, Fn) and i2.cls is not base:
                src = ast.unparse(i2.node)
                if 'super(' not in src and base.name + '.__init__' not in \
                        src:
                    rep.bad('table', c.name, 'does not initialise the '
                            'activation tables', i2.mod.path)
                    continue
            rep.ok('table', c.name + ' runs the base initialiser')
            continue
        I = Interp(repo)
        st = State()
        sv = I.instance(st, base)
        v, st, blk = I.run(init, [], st, self_v=sv)
        attrs = I.obj(st, sv).attrs
        keys = {}
        for t in ('act_func', 'act_func_deriv', 'inplace_act_func',
                  'inplace_act_func_deriv'):
            d = attrs.get(t)
            o = I.obj(st, d) if d is not None else None
            if o is None or o.kind != 'dict':
                rep.skip('table', t, 'not a dict built by the initialiser')
                continue
            keys[t] = {cval(k) for k in o.items if is_const(k)}
            for k, f in o.items.items():
                if is_const(k):
                    entry(rep, I, st, sv, base, t, cval(k), f, hook)
        for t in keys:
            miss = set().union(*keys.values()) - keys[t]
            rep.check(not miss, 'table', t + ' keys', 'has no entry for %s' %
                      ', '.join(sorted(map(str, miss))))


class _H(object):
    pass


def entry(rep, I, st, sv, base, t, k, f, hook):
    con = '%s[%s]' % (t, k)
    n = {'act_func': 2, 'act_func_deriv': 4, 'inplace_act_func': 1,
         'inplace_act_func_deriv': 2}[t]
    names = {'act_func': ['x', 'y'], 'act_func_deriv': ['x', 'y', 'dy', 'dx'],
             'inplace_act_func': ['y'],
             'inplace_act_func_deriv': ['y', 'dy']}[t]
    args = [V('sym', a) for a in names]
    from .interp import Block, Cont, Frame
    blk = Block()
    cont = Cont(st.copy(), blk)
    fr = Frame(I.newfid(), None, base.mod, None)
    cont.st.frames[fr.fid] = {}
    I.hook = hook
    try:
        I.call(f, args, {}, fr, cont, ast.parse('0').body[0])
    finally:
        I.hook = None
    got = []
    for e, g, i in walk(blk):
        if e.kind == 'call' and e.f.op == 'hop':
            if e.kw:
                got.append((e.f.a[0], tuple(sorted(
                    [show(a) for a in e.args] +
                    ['%s=%s' % (x, show(y)) for x, y in e.kw.items()]))))
            else:
                got.append((e.f.a[0], tuple(show(a) for a in e.args)))
    inpl = t.startswith('inplace')
    deriv = t.endswith('deriv')
    if k == 'linear':
        if inpl:
            want = [[], [('copy_to', ('dy', 'dy') if deriv else
                          ('y', 'y'))]]
        else:
            want = [[('copy_to', ('dy', 'dx') if deriv else ('x', 'y'))]]
    else:
        nm = k + ('_deriv' if deriv else '')
        if nm not in OPS:
            rep.skip('table', con, 'activation not in the reference')
            return
        if deriv:
            want = [[(nm, ('y', 'y', 'dy', 'dy') if inpl else
                      ('x', 'y', 'dy', 'dx'))]]
            if inpl:
                want.append([(nm, ('None', 'y', 'dy', 'dy'))])
        else:
            want = [[(nm, ('y', 'y') if inpl else ('x', 'y'))]]
    if any(len(a) and '=' in ''.join(a) for _, a in got):
        rep.skip('table', con, 'keyword arguments')
        return
    rep.check(got in want, 'table', con, 'performs %s instead of %s' % (
        got, want[0]))


# ------------------------------------------------------------------- P11 ---
def param_map(repo, base, fn, name):
    """implementation parameter -> interface parameter"""
    o, b = repo.lookup(base, name)
    mp = fn.params()[1:]
    if not isinstance(b, Fn):
        return {p: p for p in mp}
    bp = b.params()[1:]
    return dict(zip(mp, bp))


OWNMODES = {'w': 'overwrites', 'a': 'adds to', 'wc': 'overwrites where the '
            'condition holds', 'ac': 'adds to where the condition holds'}


def p11(repo, rep, tier):
    base, bs = backends(repo)
    rep.rule('operands', 'an operation writes to no array except its '
             'documented destinations')
    rep.rule('destination', 'every destination is written on every path, '
             'overwriting or accumulating as documented')
    rep.rule('fresh', 'operations that return memory return new memory and '
             'copies are independent of their source')
    ops = abstract_ops(repo, base)
    for c in bs:
        if wraps_handler(repo, c):
            continue
        S = Sum(repo, c)
        impl = public_methods(repo, c, base)
        for n in sorted(set(OPS) & set(impl)):
            reads, writes, flags = OPS[n]
            con = '%s.%s' % (c.name, n)
            rep.saw(impl[n].qual)
            try:
                s = S.summary(n)
            except Undec as e:
                rep.skip('destination', con, str(e))
                continue
            pm = param_map(repo, base, s.fn, n)
            inv = {v: k for k, v in pm.items()}
            if 'alloc' in flags or n == 'is_fully_finite':
                alloc(rep, con, c, n, s, pm)
            if not s.paths:
                rep.skip('destination', con, 'no path')
                continue
            for e in s.paths:
                for p, ws in sorted(e.wr.items()):
                    q = pm.get(p, p)
                    if q in writes:
                        continue
                    rep.bad('operands', con, 'writes to its operand %s' % q,
                            ws[0][1])
                else:
                    rep.ok('operands', con)
                for q, mode in sorted(writes.items()):
                    p = inv.get(q, q)
                    destination(rep, con, n, p, q, mode, e, s)
    rep.need('destination', 50, 'destinations')


def destination(rep, con, n, p, q, mode, e, s):
    ws = e.wr.get(p, [])
    want = OWNMODES[mode]
    if not ws:
        if opaque_calls(s, p):
            rep.skip('destination', con, 'passed to an unknown function')
            return
        rep.bad('destination', con, 'does not write to %s, which it %s' %
                (q, want), '%s in %s' % (s.fn.mod.path, s.fn.qual))
        return
    x = e.st.get(p)
    where = ws[0][1]
    ms = [m for m, w in ws]
    formula = x is not None and x[0] != 'opaque'
    if formula and mode in ('w', 'a', 'wc', 'ac'):
        dep = depends_on(x, p)
        if dep is not None:
            if mode == 'w' and dep and not self_ref_ok(n, p):
                rep.bad('destination', con, 'the new %s depends on its '
                        'previous content, documented is that it %s' %
                        (q, want), where)
            elif mode in ('a', 'wc', 'ac') and not dep:
                rep.bad('destination', con, 'the previous content of %s is '
                        'lost, documented is that it %s' % (q, want), where)
            else:
                rep.ok('destination', con + ':' + q, where)
            return
    bare = [m.lstrip('cs') if m[0] != 'p' else m for m in ms]
    if mode in ('w', 'wc'):
        if all(m in ('a', 'pa', 'm') for m in bare):
            rep.bad('destination', con, 'only modifies %s in place, '
                    'documented is that it %s' % (q, want), where)
            return
    if mode in ('a', 'ac'):
        if bare[0] in ('w',) and not ms[0].startswith('c') and all(
                True for _ in (0,)) and not reads_self(s, p, ms[0]):
            rep.bad('destination', con, 'overwrites %s, documented is that '
                    'it %s' % (q, want), where)
            return
    rep.ok('destination', con + ':' + q, where)


def self_ref_ok(n, p):
    return False


def reads_self(s, p, m):
    """a plain store whose value reads the destination again"""
    for ev, g, i in walk(s.blk):
        if ev.kind == 'setitem' and root(ev.obj) == p and not ev.aug:
            if any(x.op == 'sym' and x.a[0] == p for x in subterms(ev.rhs)):
                return True
        if ev.kind == 'call':
            for a in list(ev.args) + list(ev.kw.values()):
                if root(a) == p:
                    return True
    return False


def depends_on(x, p):
    """does the value depend on variable p? (None: unknown)"""
    if p not in elem.vars_of(x):
        return False
    try:
        return elem.equal(x, rename(x, {p: p + "'"})) is not None
    except elem.Undecided:
        return None


def opaque_calls(s, p):
    known = ('numpy', 'skcuda', 'pycuda', 'brainstorm')
    for ev, g, i in walk(s.blk):
        if ev.kind != 'call':
            continue
        n = ext_name(ev.f)
        if n and n.split('.')[0] in known:
            if n.startswith('numpy.') or '_cpuop' not in n and not \
                    n.startswith('brainstorm'):
                if n.startswith('numpy.'):
                    continue
        if n in ('len', 'int', 'float', 'range', 'isinstance', 'type',
                 'slice', 'tuple', 'list'):
            continue
        for a in list(ev.args) + list(ev.kw.values()):
            if root(a) == p:
                return True
    return False


FRESH_NP = ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.array',
            'numpy.full', 'numpy.zeros_like', 'numpy.empty_like',
            'numpy.ones_like', 'numpy.full_like', 'numpy.copy',
            'pycuda.gpuarray.zeros', 'pycuda.gpuarray.empty',
            'pycuda.gpuarray.to_gpu', 'numpy.ascontiguousarray')
VIEWFN = ('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray',
          'numpy.reshape', 'numpy.ravel', 'numpy.atleast_2d')


def alloc(rep, con, c, n, s, pm):
    v = s.ret
    if n == 'is_fully_finite':
        return
    vals = [v] if v.op != 'phi' else [v.a[1], v.a[2]]
    for v in vals:
        if v.op == 'sym' or root(v) is not None:
            rep.bad('fresh', con, 'returns its argument (or a view of it) '
                    'instead of new memory', s.fn.mod.path)
            return
        if v.op == 'call':
            nm = ext_name(v.a[0])
            kw = dict(v.a[2])
            if nm in VIEWFN or nm == 'numpy.array' and is_const(
                    kw.get('copy', NONE), False):
                rep.bad('fresh', con, 'may return the memory of its '
                        'argument (%s)' % nm, s.fn.mod.path)
                return
            if v.a[0].op == 'attr' and v.a[0].a[1] == 'astype' and is_const(
                    kw.get('copy', NONE), False):
                rep.bad('fresh', con, 'may return the memory of its '
                        'argument (astype without copy)', s.fn.mod.path)
                return
        if is_const(v, None):
            rep.bad('fresh', con, 'returns nothing', s.fn.mod.path)
            return
    rep.ok('fresh', con)


def derive_numpy_effects(repo, name):
    try:
        cls = repo.find_class('NumpyHandler', required=False)
        if cls is None:
            return None
        S = Sum(repo, cls)
        s = S.summary(name)
    except (Undec, AnalysisBroken):
        return None
    w = {}
    for e in s.paths:
        for p, ws in e.wr.items():
            b = [m for m, _ in ws]
            add = all(m.lstrip('csp')[:1] == 'a' for m in b)
            cond = all(m[0] in 'cp' for m in b)
            w[p] = ('a' if add else 'w') + ('c' if cond else '')
    reads = tuple(p for p in s.ps)
    return reads, w, ()


# ------------------------------------------------------------------- P12 ---
FORMULAS = {
    'copy_to': ('dest', 'src'),
    'copy_to_if': ('dest', 'src if cond != 0 else dest'),
    'fill': ('mem', 'val'),
    'fill_if': ('mem', 'val if cond != 0 else mem'),
    'set_from_numpy': ('mem', 'arr'),
    'abs_t': ('out', 'abs(a)'),
    'add_into_if': ('out', 'out + a if cond != 0 else out'),
    'add_mv': ('out', 'm + v'),
    'add_st': ('out', 's + t'),
    'add_tt': ('out', 'a + b'),
    'broadcast_t': ('out', 'a'),
    'clip_t': ('out', 'clip(a, a_min, a_max)'),
    'divide_mv': ('out', 'm / v'),
    'divide_tt': ('out', 'a / b'),
    'fill_gaussian': ('out', 'mean + std * normal()'),
    'generate_probability_mask': ('mask', '1 if uniform() < probability '
                                  'else 0'),
    'log_t': ('out', 'log(a)'),
    'mult_add_st': ('out', 'out + s * t'),
    'mult_add_tt': ('out', 'out + a * b'),
    'mult_add_mv': ('out', 'out + m * v'),
    'mult_mv': ('out', 'm * v'),
    'mult_st': ('out', 's * t'),
    'mult_tt': ('out', 'a * b'),
    'sign_t': ('out', 'sign(a)'),
    'sqrt_t': ('out', 'sqrt(a)'),
    'subtract_mv': ('out', 'm - v'),
    'subtract_tt': ('out', 'a - b'),
    'rel': ('y', 'x if x > 0 else 0'),
    'rel_deriv': ('dx', 'dy if y > 0 else 0'),
    'sigmoid': ('y', '1 / (1 + exp(-x))'),
    'sigmoid_deriv': ('dx', 'dy * y * (1 - y)'),
    'tanh': ('y', 'tanh(x)'),
    'tanh_deriv': ('dx', 'dy * (1 - y * y)'),
    'el': ('y', 'x if x > 0 else exp(x) - 1'),
    'el_deriv': ('dx', 'dy if y > 0 else dy * (y + 1)'),
}
ASSUME = {'clip_t': ['a_min <= a_max']}


def rename(x, m):
    if not isinstance(x, (tuple, list)):
        return x
    if isinstance(x, list):
        return [rename(y, m) for y in x]
    if len(x) == 2 and x[0] == 'var':
        return ('var', m.get(x[1], x[1]))
    return tuple(rename(y, m) for y in x)


def p12(repo, rep, tier):
    base, bs = backends(repo)
    rep.rule('formula', 'on every path the value stored in the destination '
             'equals the documented formula in every case of its conditions')
    rep.rule('in-place', 'the formula also holds when the destination is '
             'the operand, for every operation the package uses in place')
    rep.rule('product', 'matrix products use their operands in order, '
             'transposed as requested')
    rep.rule('reduction', 'sums reduce the given array over the given axis')
    rep.rule('layout', 'merging and splitting put the two parts side by '
             'side in the last dimension, split where the first part ends')
    rep.rule('softmax', 'softmax is exp(m) divided by its row sum')
    rep.rule('kernel', 'device kernels never use a pointer as a number')
    alias = inplace_pairs(repo)
    for c in bs:
        if wraps_handler(repo, c):
            continue
        S = Sum(repo, c)
        impl = public_methods(repo, c, base)
        for n, (dst, src) in sorted(FORMULAS.items()):
            if n not in impl:
                continue
            rep.saw(impl[n].qual)
            formula(repo, rep, base, c, S, n, dst, src, impl[n], {},
                    'formula')
            for rd, wr in sorted(alias.get(n, ())):
                formula(repo, rep, base, c, S, n, dst, src, impl[n],
                        {rd: wr}, 'in-place')
        products(repo, rep, base, c, S, impl)
        reductions(repo, rep, base, c, S, impl)
        layouts(repo, rep, base, c, S, impl)
        softmax(repo, rep, base, c, S, impl)
        kernels(repo, rep, S)
    rep.need('formula', 30, 'formulas')


def inplace_pairs(repo):
    """{op: {(read param, written param)}} called with the same array"""
    out = {}
    base = repo.find_class('Handler')
    for mod in repo.modules.values():
        for cl in ast.walk(mod.tree):
            if not (isinstance(cl, ast.Call) and
                    isinstance(cl.func, ast.Attribute) and
                    cl.func.attr in OPS):
                continue
            n = cl.func.attr
            o, m = repo.lookup(base, n)
            if not isinstance(m, Fn):
                continue
            ps = m.params()[1:]
            b = {p: ast.unparse(a) for p, a in zip(ps, cl.args)}
            b.update({k.arg: ast.unparse(k.value) for k in cl.keywords
                      if k.arg})
            for w in OPS[n][1]:
                for p in OPS[n][0]:
                    if p in b and w in b and b[p] == b[w]:
                        out.setdefault(n, set()).add((p, w))
    for n in ('sigmoid', 'rel', 'tanh', 'el'):
        out.setdefault(n, set()).add(('x', 'y'))
        out.setdefault(n + '_deriv', set()).add(('dy', 'dx'))
    return out


def formula(repo, rep, base, c, S, n, dst, src, fn, alias, rule):
    pm = param_map(repo, base, fn, n)
    inv = {v: k for k, v in pm.items()}
    con = '%s.%s' % (c.name, n)
    if alias:
        con += ' with %s' % ' and '.join('%s = %s' % kv
                                         for kv in sorted(alias.items()))
    consts = {inv.get(a, a): V('sym', inv.get(b, b))
              for a, b in alias.items()}
    try:
        s = S.summary(n, consts)
    except Undec as e:
        rep.skip(rule, con, str(e))
        return
    ref = rename(elem.parse(src), dict(alias))
    asm = [elem.parse(a) for a in ASSUME.get(n, ())]
    p = inv.get(dst, dst)
    for i, e in enumerate(s.paths):
        x = e.st.get(p)
        if x is None or x[0] == 'opaque':
            rep.skip(rule, con, 'value of %s is not a formula the analysis '
                     'understands' % dst)
            continue
        try:
            d = elem.equal(rename(x, pm), ref, asm)
        except elem.Undecided as u:
            rep.skip(rule, con, str(u))
            continue
        where = e.wr.get(p, [('', '')])[0][1]
        rep.check(d is None, rule, con, '%s is not %s: %s' % (dst, src, d),
                  where)


def products(repo, rep, base, c, S, impl):
    for n in ('dot_mm', 'dot_add_mm'):
        if n not in impl:
            continue
        pm = param_map(repo, base, impl[n], n)
        inv = {v: k for k, v in pm.items()}
        for ta in (False, True):
            for tb in (False, True):
                con = '%s.%s(transa=%s, transb=%s)' % (c.name, n, ta, tb)
                consts = {inv.get('transa', 'transa'): const(ta),
                          inv.get('transb', 'transb'): const(tb)}
                try:
                    s = S.summary(n, consts)
                except Undec as e:
                    rep.skip('product', con, str(e))
                    continue
                want = dotref(ta, tb)
                if n == 'dot_add_mm':
                    want = ('bin', '+', ('var', 'out'), want)
                for e in s.paths:
                    x = e.st.get(inv.get('out', 'out'))
                    if x is None or x[0] == 'opaque':
                        rep.skip('product', con, 'not a formula')
                        continue
                    x = rename(x, pm)
                    try:
                        d = elem.equal(x, want)
                    except elem.Undecided as u:
                        rep.skip('product', con, str(u))
                        continue
                    rep.check(d is None, 'product', con, 'computes %s' %
                              (x,), impl[n].mod.path)


def dotref(ta, tb):
    a, b = ('var', 'a'), ('var', 'b')
    if ta:
        a = ('f', 'T', [a])
    if tb:
        b = ('f', 'T', [b])
    return ('f', 'dot', [a, b])


def reductions(repo, rep, base, c, S, impl):
    n = 'sum_t'
    if n not in impl:
        return
    for ax in (None, 0, 1):
        con = '%s.sum_t(axis=%s)' % (c.name, ax)
        pm = param_map(repo, base, impl[n], n)
        inv = {v: k for k, v in pm.items()}
        try:
            s = S.summary(n, {inv.get('axis', 'axis'): const(ax)})
        except Undec as e:
            rep.skip('reduction', con, str(e))
            continue
        for e in s.paths:
            x = e.st.get(inv.get('out', 'out'))
            if x is None or x[0] != 'f' or x[1] not in ('sum', 'rowsum'):
                rep.skip('reduction', con, 'not a plain sum')
                continue
            x = rename(x, pm)
            if x[1] == 'rowsum':
                good = ax == 1 and x[2][0] == ('var', 'a')
            else:
                if x[2][0] == ('var', '?'):
                    rep.skip('reduction', con, 'operand not understood')
                    continue
                a = x[2][1]
                if ax is None:
                    good = x[2][0] == ('var', 'a') and a in (
                        ('var', 'None'), elem.ZERO)
                    if a == elem.ZERO and c.name == 'NumpyHandler':
                        good = False
                else:
                    good = x[2][0] == ('var', 'a') and a == elem.N(ax)
            rep.check(good, 'reduction', con, 'computes %s' % (x,),
                      impl[n].mod.path)


def lastdim(v):
    """parameter whose last dimension the term is, or None"""
    if v.op == 'idx' and is_const(v.a[1], -1) and v.a[0].op == 'attr' and \
            v.a[0].a[1] == 'shape':
        return root(v.a[0].a[0])
    return None


def part(i):
    """(kind, k): which part of the last axis an index selects"""
    if i.op == 'tuple' and i.a[0]:
        from .handlers import full_index
        if not all(full_index(x) for x in i.a[0][:-1]):
            return None
        i = i.a[0][-1]
    else:
        return None
    if i.op != 'slice' or not is_const(i.a[2], None):
        return None
    lo, hi = i.a[0], i.a[1]
    if is_const(lo, None, 0) and not is_const(hi, None):
        return 'head', hi
    if is_const(hi, None) and not is_const(lo, None):
        return 'tail', lo
    return None


def layouts(repo, rep, base, c, S, impl):
    for n, first, whole in (('merge_tt', 'a', 'out'),
                            ('split_add_tt', 'out_a', 'x')):
        if n not in impl:
            continue
        con = '%s.%s' % (c.name, n)
        try:
            s = S.summary(n)
        except Undec as e:
            rep.skip('layout', con, str(e))
            continue
        pm = param_map(repo, base, s.fn, n)
        seen = 0
        for ev, g, i in walk(s.blk):
            if ev.kind not in ('setitem',):
                continue
            if n == 'merge_tt':
                pt = part(ev.idx)
                if pt is None or pm.get(root(ev.obj)) != 'out':
                    continue
                other = pm.get(root(ev.rhs))
                want = {'a': 'head', 'b': 'tail'}.get(other)
            else:
                r = ev.rhs
                while r.op in ('call',) and r.a[0].op == 'attr':
                    r = r.a[0].a[0]
                if r.op != 'idx':
                    continue
                pt = part(r.a[1])
                if pt is None or pm.get(root(r.a[0])) != 'x':
                    continue
                want = {'out_a': 'head', 'out_b': 'tail'}.get(
                    pm.get(root(ev.obj)))
                other = pm.get(root(ev.obj))
            if want is None:
                continue
            seen += 1
            if pt[0] != want:
                rep.bad('layout', con, '%s is at the wrong end' % other,
                        ev.where())
                continue
            ld = lastdim(pt[1])
            if ld is None:
                rep.skip('layout', con, 'split position not understood')
                continue
            rep.check(pm.get(ld) == first, 'layout', con + ':' + other,
                      'splits at the size of %s' % ld, ev.where())
        if not seen:
            rep.skip('layout', con, 'no slices')


def softmax(repo, rep, base, c, S, impl):
    n = 'softmax_m'
    if n not in impl:
        return
    con = '%s.%s' % (c.name, n)
    try:
        s = S.summary(n)
    except Undec as e:
        rep.skip('softmax', con, str(e))
        return
    pm = param_map(repo, base, s.fn, n)
    inv = {v: k for k, v in pm.items()}
    for e in s.paths:
        x = e.st.get(inv.get('out', 'out'))
        if x is None or x[0] == 'opaque':
            rep.skip('softmax', con, 'not a formula')
            continue
        x = rename(x, pm)
        # out = u / rowsum(u)  (or the same after a row constant)
        if x[0] == 'bin' and x[1] == '/' and x[3][0] == 'f' and \
                x[3][1] in ('rowsum',):
            u, w = x[2], x[3][2][0]
            try:
                d = elem.equal(u, w)
                if d is None and u[0] == 'f' and u[1] == 'exp':
                    a = u[2][0]
                    d = shift(a)
                elif d is None:
                    d = 'numerator is not an exponential'
            except elem.Undecided as q:
                rep.skip('softmax', con, str(q))
                continue
            rep.check(d is None, 'softmax', con, 'not exp(m)/sum(exp(m)): '
                      '%s' % d, impl[n].mod.path)
        else:
            rep.skip('softmax', con, 'not a quotient by a row sum')


def shift(a):
    """None when a = m + row constant"""
    if a == ('var', 'm'):
        return None
    if a[0] == 'bin' and a[1] in '+-' and a[2] == ('var', 'm'):
        if a[3][0] == 'f' and a[3][1].startswith('row'):
            return None
        if 'm' not in elem.vars_of(a[3]):
            return None
    return 'exponent is %s' % (a,)


def kernels(repo, rep, S):
    from . import cparse
    if getattr(rep, '_kernels', False):
        return
    rep._kernels = True
    for mod in repo.modules.values():
        for node in ast.walk(mod.tree):
            if not isinstance(node, ast.Call):
                continue
            nm = node.func.id if isinstance(node.func, ast.Name) else \
                node.func.attr if isinstance(node.func, ast.Attribute) else ''
            if nm != 'ElementwiseKernel' or len(node.args) < 2:
                continue
            try:
                a, b = [ast.literal_eval(x) for x in node.args[:2]]
                ps, body = cparse.parse_kernel(a, b)
            except (ValueError, cparse.CError) as e:
                rep.skip('kernel', '%s kernel' % mod.name, str(e))
                continue
            con = '%s:%s' % (mod.name, kernel_name(node))
            bad = pointer_misuse(ps, body)
            rep.check(not bad, 'kernel', con, 'uses the pointer %s as a '
                      'number' % ', '.join(sorted(set(bad))),
                      '%s:%d' % (mod.path, node.lineno))
    for n, (ps, body) in sorted(S.c_functions().items()):
        bad = pointer_misuse(ps, [body])
        rep.check(not bad, 'kernel', n, 'uses the pointer %s as a number' %
                  ', '.join(sorted(set(bad))))


def kernel_name(node):
    if len(node.args) > 2:
        try:
            return ast.literal_eval(node.args[2])
        except ValueError:
            pass
    return 'kernel'


# ------------------------------------------------------------------- P13 ---
READONLY = ('get_numpy_copy', 'is_fully_finite')


def p13(repo, rep, tier):
    base, bs = backends(repo)
    rep.rule('delegate', 'every operation calls the operation of the same '
             'name of the wrapped backend exactly once on every path that '
             'does not raise')
    rep.rule('arguments', 'arrays are passed unwrapped and everything else '
             'unchanged, each in its own role')
    rep.rule('result', 'what the wrapped backend returns is what the caller '
             'gets, wrapped when it is an array')
    rep.rule('other', 'nothing else of the wrapped backend that writes is '
             'called, and no wrapped array is written to')
    rep.rule('decorator', 'the finiteness check calls the operation once '
             'with all its arguments and returns its result')
    rep.rule('view', 'a wrapped array slices and reshapes like the array it '
             'wraps')
    ops = abstract_ops(repo, base)
    ws = [c for c in bs if wraps_handler(repo, c)]
    if not ws:
        raise AnalysisBroken('no delegating handler found')
    for c in ws:
        impl = public_methods(repo, c, base)
        arrcls = repo.find_class('DebugArray', required=False)
        for n, fn in sorted(impl.items()):
            if n not in OPS:
                continue
            rep.saw(fn.qual)
            delegate(repo, rep, base, c, n, fn, arrcls)
            decorators(repo, rep, c, n, fn)
        if arrcls is not None:
            views(repo, rep, arrcls)
    rep.need('delegate', 40, 'operations')


def paths_of(blk, limit=256):
    """list of event lists, one per path without a raise"""
    from .interp import Ev, If, Inl, Loop, Try, With

    def go(b, ps):
        for x in b:
            if not ps:
                return ps
            if isinstance(x, Ev):
                if x.kind == 'raise':
                    return []
                for p in ps:
                    p.append(x)
            elif isinstance(x, If):
                a = go(x.a, [list(p) + [('if', x.cond, True)] for p in ps])
                c = go(x.b or [], [list(p) + [('if', x.cond, False)]
                                   for p in ps])
                ps = a + c
                if len(ps) > limit:
                    raise Undec('too many paths')
            elif isinstance(x, (Inl, With)):
                ps = go(x.body, ps)
            elif isinstance(x, Loop):
                for p in ps:
                    p.append(('loop', x))
                q = go(x.body, [[] for _ in (0,)])
                for p in ps:
                    for e in q[:1]:
                        p.extend(('inloop', y) for y in e)
            elif isinstance(x, Try):
                ps = go(x.body, ps)
        return ps
    return go(blk, [[]])


def unwrap(v, H):
    """('array', p) for p.array, ('raw', p) for p"""
    if v.op == 'sym':
        return ('raw', v.a[0])
    if v.op == 'attr' and v.a[1] == 'array' and v.a[0].op == 'sym':
        return ('array', v.a[0].a[0])
    return None


def delegate(repo, rep, base, c, n, fn, arrcls):
    con = '%s.%s' % (c.name, n)
    I = Interp(repo)
    st = State()
    H = V('sym', '<inner>')
    sv = I.instance(st, c, handler=H)
    ps = fn.params()[1:]
    args = [V('sym', p) for p in ps]
    v, st2, blk = I.run(fn, args, st, self_v=sv)
    pm = param_map(repo, base, fn, n)
    where = '%s in %s' % (fn.mod.path, fn.qual)
    try:
        paths = paths_of(blk)
    except Undec as e:
        rep.skip('delegate', con, str(e))
        return
    o, bfn = repo.lookup(base, n)
    bps = bfn.params()[1:] if isinstance(bfn, Fn) else ps
    bdef = sig(bfn)[1] if isinstance(bfn, Fn) else {}
    if not paths:
        rep.bad('delegate', con, 'never returns', where)
        return
    for p in paths:
        inner = []
        conds = {}
        for e in p:
            lp = False
            if isinstance(e, tuple):
                if e[0] == 'if':
                    conds[e[1]] = e[2]
                    continue
                if e[0] == 'inloop':
                    e, lp = e[1], True
                    if isinstance(e, tuple):
                        continue
                else:
                    continue
            if e.kind == 'call' and e.f.op == 'attr' and e.f.a[0] is H:
                inner.append((e, lp))
            elif e.kind in ('setitem', 'aug'):
                t = e.obj if e.kind == 'setitem' else e.target
                if any(x.op == 'attr' and x.a[1] == 'array'
                       for x in subterms(t)):
                    rep.bad('other', con, 'writes to a wrapped array',
                            e.where())
            elif e.kind == 'call':
                for a in list(e.args) + list(e.kw.values()):
                    pass
                nm = ext_name(e.f)
                if nm and nm.startswith('numpy.') and any(
                        'array' == (unwrap(x, H) or ('',))[0]
                        for k, x in e.kw.items() if k == 'out'):
                    rep.bad('other', con, 'writes to a wrapped array',
                            e.where())
        same = [(e, lp) for e, lp in inner if e.f.a[1] == n]
        for e, lp in inner:
            if e.f.a[1] != n and e.f.a[1] not in READONLY:
                rep.bad('other', con, 'calls %s of the wrapped backend' %
                        e.f.a[1], e.where())
        if len(same) != 1 or same[0][1]:
            rep.bad('delegate', con, 'calls %s of the wrapped backend %s' %
                    (n, 'in a loop' if same and same[0][1] else
                     '%d times on a path' % len(same)), where)
            continue
        rep.ok('delegate', con, where)
        e = same[0][0]
        arguments(rep, con, n, e, bps, bdef, pm, conds)
    result(repo, rep, con, n, v, H, arrcls, where)


def strip_phi(v, conds):
    while v.op == 'phi' and v.a[0] in conds:
        v = v.a[1] if conds[v.a[0]] else v.a[2]
    return v


def arguments(rep, con, n, e, bps, bdef, pm, conds):
    reads, writes, flags = OPS[n]
    arrays = set(reads) | set(writes)
    bound = {}
    for i, a in enumerate(e.args):
        if a.op == 'star':
            rep.skip('arguments', con, 'starred')
            return
        if i < len(bps):
            bound[bps[i]] = a
    for k, a in e.kw.items():
        bound[k] = a
    inv = {v: k for k, v in pm.items()}
    for q in bps:
        p = inv.get(q, q)
        if q not in bound:
            if q in bdef:
                rep.bad('arguments', con, '%s is not passed on, so the '
                        'wrapped backend uses its default' % q, e.where())
            else:
                rep.bad('arguments', con, '%s is not passed on' % q,
                        e.where())
            continue
        a = strip_phi(bound[q], conds)
        if a.op == 'phi' and a.a[0].op in ('cmp', 'is', 'not', 'call'):
            opts = [a.a[1], a.a[2]]
        else:
            opts = [a]
        for a in opts:
            u = unwrap(a, None)
            raw_ok = n in ('create_from_numpy', 'set_from_numpy') and \
                q == 'arr'
            if q in arrays and not raw_ok:
                none_ok = any(is_const(y, None) for x in conds
                              for y in x.a if isinstance(y, V)) or True
                if u == ('array', p):
                    rep.ok('arguments', con + ':' + q)
                elif u == ('raw', p) and q == 'x' and \
                        none_path(conds, p):
                    rep.ok('arguments', con + ':' + q)
                elif is_const(a, None) and none_path(conds, p):
                    rep.ok('arguments', con + ':' + q)
                elif u is None and a.op == 'phi':
                    rep.skip('arguments', con, 'conditional argument')
                elif u is None and a.op not in ('sym', 'attr', 'const'):
                    if mentions_only(a, p):
                        rep.skip('arguments', con, 'derived argument')
                    else:
                        rep.bad('arguments', con, '%s gets %s' % (q, show(a)),
                                e.where())
                else:
                    rep.bad('arguments', con, '%s gets %s' % (q, show(a)),
                            e.where())
            else:
                if u == ('raw', p):
                    rep.ok('arguments', con + ':' + q)
                elif u is None and mentions_only(a, p) and a.op == 'call' \
                        and ext_name(a.a[0]) in ('int', 'float', 'bool',
                                                 'tuple'):
                    rep.skip('arguments', con, 'converted argument')
                else:
                    rep.bad('arguments', con, '%s gets %s' % (q, show(a)),
                            e.where())


def mentions_only(a, p):
    s = {x.a[0] for x in subterms(a) if x.op == 'sym'}
    return s == {p}


def none_path(conds, p):
    """does the path establish that p is None?"""
    for c, b in conds.items():
        if c.op in ('cmp', 'is') or True:
            t = show(c)
            if p in {x.a[0] for x in subterms(c) if x.op == 'sym'} and \
                    any(is_const(x, None) for x in subterms(c)):
                pos = 'not' not in t and '!=' not in t
                if b == pos:
                    return True
    return False


def result(repo, rep, con, n, v, H, arrcls, where):
    flags = OPS[n][2]
    needs = 'alloc' in flags or n == 'is_fully_finite'
    if not needs:
        return
    inner = [x for x in subterms(v) if x.op == 'call' and
             x.a[0].op == 'attr' and x.a[0].a[0] is H]
    if v.op == 'ref':
        rep.ok('result', con, where)
        return
    if inner:
        if n in ('get_numpy_copy', 'is_fully_finite'):
            rep.check(v is inner[0] or len(inner) == 1, 'result', con,
                      'returns %s' % show(v), where)
        else:
            rep.bad('result', con, 'returns the array of the wrapped '
                    'backend without wrapping it', where)
        return
    rep.bad('result', con, 'does not return the result of the wrapped '
            'backend', where)


def decorators(repo, rep, c, n, fn):
    for d in fn.node.decorator_list:
        nm = d.id if isinstance(d, ast.Name) else None
        if nm is None:
            rep.skip('decorator', '%s.%s' % (c.name, n), 'complex decorator')
            continue
        r = repo.resolve(fn.mod, nm)
        if not r or r[0] != 'fn':
            rep.skip('decorator', nm, 'not a function of the package')
            continue
        key = '_dec_' + r[1].qual
        if getattr(rep, key, None):
            continue
        setattr(rep, key, True)
        one_decorator(repo, rep, r[1])


def one_decorator(repo, rep, dec):
    rep.saw(dec.qual)
    I = Interp(repo)
    st = State()
    F = V('sym', '<f>')
    v, st, blk = I.run(dec, [F], st)
    if v.op not in ('func', 'partial'):
        if v is F:
            rep.ok('decorator', dec.qual)
            return
        rep.skip('decorator', dec.qual, 'does not return a function')
        return
    from .interp import Block, Cont, Frame
    cont = Cont(st, Block())
    fr = Frame(I.newfid(), None, dec.mod, None)
    cont.st.frames[fr.fid] = {}
    A = [V('sym', 'self'), V('sym', 'a1'), V('sym', 'a2')]
    K = {'k': V('sym', 'kv')}
    res = I.call(v, A, dict(K), fr, cont, ast.parse('0').body[0])
    for p in paths_of(cont.blk):
        n = [e[1] if isinstance(e, tuple) and e[0] == 'inloop' else e
             for e in p]
        cs = [e for e in n if not isinstance(e, tuple) and
              e.kind == 'call' and e.f is F]
        good = len(cs) == 1
        if good:
            e = cs[0]
            flat = []
            for a in e.args:
                if a.op == 'star' and a.a[0].op == 'tuple':
                    flat.extend(a.a[0].a[0])
                else:
                    flat.append(a)
            if any(a.op == 'star' for a in flat):
                rep.skip('decorator', dec.qual, 'arguments not followed')
                continue
            good = flat == A and ('k' in e.kw or '**' in e.kw)
        rep.check(good, 'decorator', dec.qual, 'does not call the operation '
                  'exactly once with its arguments')
    cs = {id(e.res) for e, g, i in walk(cont.blk)
          if e.kind == 'call' and e.f is F}
    rv = [res] if res.op != 'phi' else [res.a[1], res.a[2]]
    rep.check(all(id(x) in cs or any(x is e.res for e, g, i in
                                     walk(cont.blk) if e.kind == 'call' and
                                     e.f is F) for x in rv),
              'decorator', dec.qual + ' result', 'does not return what the '
              'operation returned')


def views(repo, rep, arrcls):
    for n, arg in (('__getitem__', 'item'), ('reshape', 'new_shape')):
        o, fn = repo.lookup(arrcls, n)
        con = '%s.%s' % (arrcls.name, n)
        if not isinstance(fn, Fn):
            rep.bad('view', con, 'missing', arrcls.mod.path)
            continue
        rep.saw(fn.qual)
        I = Interp(repo)
        st = State()
        A = V('sym', '<array>')
        sv = I.instance(st, arrcls, array=A)
        X = V('sym', fn.params()[1])
        v, st2, blk = I.run(fn, [X], st, self_v=sv)
        o = I.obj(st2, v)
        if o is None or o.kind != 'obj':
            if v.op == 'phi':
                rep.skip('view', con, 'conditional result')
            else:
                rep.bad('view', con, 'does not return a wrapped array',
                        fn.mod.path)
            continue
        inner = o.attrs.get('array')
        if inner is None:
            rep.skip('view', con, 'wrapped value unknown')
            continue
        alts = [inner]
        good = False
        if inner.op == 'idx' and inner.a[0] is A:
            good = True
        if inner.op == 'call' and inner.a[0].op == 'attr' and \
                inner.a[0].a[0] is A and inner.a[0].a[1] in (
                    '__getitem__', 'reshape'):
            good = (inner.a[0].a[1] == n) and any(
                X in set(subterms(a)) for a in inner.a[1])
        rep.check(good, 'view', con, 'wraps %s' % show(inner), fn.mod.path)
