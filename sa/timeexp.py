"""Time-indexed view of a layer pass.

The loops of a pass are affine in the time index.  For a given symbolic
length T := n the iteration space is enumerated and every operation is
mapped to (array, time index) cells; index arithmetic (negative indices,
slices, context slots) is resolved exactly.  Only dependences between cells
are computed - no values.
"""
from .layers import Region
from .lin import Lin
from .terms import V, cval, is_const


class Undecided(Exception):
    pass


class IndexProblem(Exception):
    def __init__(self, op, msg):
        Exception.__init__(self, msg)
        self.op = op


def ev_lin(l, env):
    n = l.k
    for v, c in l.c:
        if v not in env:
            raise Undecided('index variable %s' % (v,))
        n += c * env[v]
    return n


class COp(object):
    """operation instance: name, args {param: Cells | term}, source op"""
    __slots__ = ('op', 'args', 'env', 'step')

    def __init__(self, op, args, env, step):
        self.op, self.args, self.env, self.step = op, args, env, step


class Cells(object):
    """Cells of one array: idx is None (no time axis) or a tuple of ints."""
    __slots__ = ('root', 'idx', 'L', 'part', 'single')

    def __init__(self, root, idx, L, part=False, single=False):
        self.root, self.idx, self.L, self.part = root, idx, L, part
        self.single = single

    def cells(self):
        if self.idx is None:
            return [(self.root, None)]
        return [(self.root, i) for i in self.idx]

    def __repr__(self):
        r = self.root
        n = '%s.%s' % (r.a[0], r.a[1]) if r.op == 'buf' else 'tmp'
        return n + ('' if self.idx is None else str(list(self.idx)))


def cells_of(ps, reg, env, Tn, op):
    L = ps.length(reg.root)
    if L is None:
        return Cells(reg.root, None, None, part=reg.kind == 'part')
    Ln = ev_lin(L, dict(env, T=Tn))
    e = dict(env, T=Tn)
    if reg.kind == 'all':
        return Cells(reg.root, tuple(range(Ln)), Ln)
    if reg.kind == 'part':
        return Cells(reg.root, tuple(range(Ln)), Ln, part=True)
    if reg.kind == 't':
        i = ev_lin(reg.lo, e)
        if i < 0:
            i += Ln
        if not 0 <= i < Ln:
            raise IndexProblem(op, '%r is outside the buffer (index %d of '
                               'length %d for T=%d)' % (reg, i, Ln, Tn))
        return Cells(reg.root, (i,), Ln, single=True)
    lo, hi = ev_lin(reg.lo, e), ev_lin(reg.hi, e)
    lo, hi = max(0, min(lo, Ln)), max(0, min(hi, Ln))
    return Cells(reg.root, tuple(range(lo, hi)), Ln)


def ev_cond(ps, c, env, Tn):
    """loop condition on the time index -> True/False/None"""
    if c.op == 'not':
        r = ev_cond(ps, c.a[0], env, Tn)
        return None if r is None else not r
    if c.op in ('and', 'or'):
        rs = [ev_cond(ps, x, env, Tn) for x in c.a[0]]
        if any(r is None for r in rs):
            return None
        return all(rs) if c.op == 'and' else any(rs)
    if c.op == 'cmp':
        x, y = ps.lin(c.a[1]), ps.lin(c.a[2])
        if x is None or y is None:
            return None
        try:
            a, b = ev_lin(x, dict(env, T=Tn)), ev_lin(y, dict(env, T=Tn))
        except Undecided:
            return None
        return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b}.get(
            c.a[0])
    x = ps.lin(c)
    if x is not None:
        try:
            return ev_lin(x, dict(env, T=Tn)) != 0
        except Undecided:
            return None
    return None


def expand(ps, prog, Tn):
    """-> list of COp (in execution order) for sequence length Tn"""
    out = []

    def run(prog, env, step):
        for p in prog:
            if p[0] == 'loop':
                n = p[1]
                take = True
                for c, b in p[3]:
                    r = ev_cond(ps, c, env, Tn)
                    if r is None:
                        raise Undecided('condition in loop')
                    if r != b:
                        take = False
                if not take:
                    continue
                r = ps.loop_range(n.uid)
                if r is None:
                    # a loop without array operations does not matter
                    if not has_ops(p[2]):
                        continue
                    raise Undecided('loop range')
                e = dict(env, T=Tn)
                a, b, s = [ev_lin(x, e) for x in r]
                for t in range(a, b, s):
                    run(p[2], dict(env, **{}) | {('t', n.uid): t}, t)
            elif p[0] == 'op':
                o = p[1]
                take = True
                for c, b in o.conds:
                    r = ev_cond(ps, c, env, Tn)
                    if r is None:
                        take = None
                    elif r != b:
                        take = False
                        break
                if take is False:
                    continue
                if take is None:
                    raise Undecided('condition %s' % (o.conds,))
                args = {}
                for k, v in o.args.items():
                    if isinstance(v, Region):
                        args[k] = cells_of(ps, v, env, Tn, o)
                    else:
                        args[k] = v
                out.append(COp(o, args, env, step))
    run(prog, {}, None)
    return out


def has_ops(prog):
    for p in prog:
        if p[0] == 'op' or p[0] == 'loop' and has_ops(p[2]):
            return True
    return False


# --------------------------------------------------- aligned dependences ---
REDUCE_T = ('sum_t',)


def align(cop, par, wcell):
    """cells of operand `par` that cell wcell of the written operand depends
    on"""
    c = cop.args.get(par)
    if not isinstance(c, Cells):
        return []
    root, i = wcell
    w = None
    for k, v in cop.args.items():
        if isinstance(v, Cells) and v.root is root and (
                i is None or v.idx and i in v.idx):
            for p, reg, mode in cop.op.writes:
                if p == k:
                    w = v
    if c.idx is None or w is None or w.idx is None:
        return c.cells()
    if cop.op.name in ('dot_mm', 'dot_add_mm'):
        if is_true(cop.args.get('transa')) and par == 'a':
            return c.cells()
        if par == 'b':
            return c.cells()
    if len(c.idx) == len(w.idx):
        return [(c.root, c.idx[w.idx.index(i)])]
    if len(c.idx) == 1:
        return c.cells()
    return c.cells()


def is_true(v):
    return isinstance(v, V) and v.op == 'const' and bool(cval(v))


def dependences(cops, sources, skip=None):
    """{cell: set(source cells)}; sources: predicate on cells giving the
    initial content a name."""
    st = {}

    def get(c):
        if c in st:
            return st[c]
        return {c} if sources(c) else set()
    for co in cops:
        o = co.op
        new = {}
        for p, reg, mode in o.writes:
            cs = co.args.get(p)
            if not isinstance(cs, Cells):
                continue
            for w in cs.cells():
                d = set()
                for q, rr in o.reads:
                    if q == p:
                        if mode in ('a', 'ac') or cs.part:
                            d |= get(w)
                        continue
                    if skip and skip(o, q):
                        continue
                    for x in align(co, q, w):
                        d |= get(x)
                if mode in ('wc', 'ac') or cs.part:
                    d |= get(w)
                new[w] = new.get(w, set()) | d
        for w, d in new.items():
            st[w] = d
    return st, get
