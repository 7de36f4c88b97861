"""Enumeration of the feasible paths of an effect tree.

A path is a list of items: Ev, or LoopItem(node, paths) for a loop, whose
body paths are enumerated separately (and recursively).  Conditions that are
already decided by earlier conditions of the path prune infeasible paths.
"""
from .interp import Ev, If, Inl, Loop, Try, With, norm_cond
from .terms import V, const, is_const, cval, NONE


class TooMany(Exception):
    pass


class LoopItem(object):
    def __init__(self, node, paths):
        self.node, self.paths = node, paths

    def __repr__(self):
        return 'Loop(%s, %d paths)' % (self.node.it, len(self.paths))


class Path(object):
    __slots__ = ('items', 'conds', 'end', 'val', 'order')

    def __init__(self, items=(), conds=None, end=None, val=None):
        self.items = list(items)
        self.conds = dict(conds or {})
        self.end = end      # None | 'ret' | 'raise' | 'break' | 'cont'
        self.val = val

    def fork(self):
        return Path(self.items, self.conds, self.end, self.val)

    def events(self, loops=True):
        """events in order; the events of loop bodies once each"""
        for x in self.items:
            if isinstance(x, Ev):
                yield x
            elif loops and isinstance(x, LoopItem):
                for p in x.paths:
                    for e in p.events():
                        yield e

    def s(self, v):
        return simp(v, self.conds)


def decide(c, conds):
    """truth of condition c under conds, or None"""
    c, pol = norm_cond(c)
    if c in conds:
        return conds[c] == pol
    c2 = simp(c, conds)
    if c2 is not c:
        c3, p3 = norm_cond(c2)
        pol = pol == p3
        if c3 in conds:
            return conds[c3] == pol
        c = c3
    if is_const(c):
        return bool(cval(c)) == pol
    if c.op == 'and' or c.op == 'or':
        ds = [decide(x, conds) for x in c.a[0]]
        if c.op == 'and':
            if any(d is False for d in ds):
                return not pol
            if all(d is True for d in ds):
                return pol
        else:
            if any(d is True for d in ds):
                return pol
            if all(d is False for d in ds):
                return not pol
    if c.op == 'cmp' and c.a[0] in ('is', '==') and c.a[1] is c.a[2]:
        return pol
    if c.op == 'cmp' and c.a[0] in ('is', 'is not') and is_const(
            c.a[2], None):
        x = c.a[1]
        r = None
        if is_const(x, None):
            r = True
        elif is_const(x) or x.op in ('ref', 'tuple', 'func', 'cls', 'bound',
                                     'bin') or x.op == 'call' and \
                never_none(x):
            r = False
        if r is not None:
            if c.a[0] == 'is not':
                r = not r
            return r == pol
    return None


NN = ('get_numpy_copy', 'allocate', 'zeros', 'ones', 'copy', 'reshape',
      'create_from_numpy')


def never_none(x):
    f = x.a[0]
    return (f.op == 'attr' and f.a[1] in NN) or (
        f.op == 'ext' and f.a[0].split('.')[0] in ('numpy', 'int', 'len',
                                                   'list', 'dict', 'tuple',
                                                   'sorted', 'set', 'slice',
                                                   'range', 'zip'))


def simp(v, conds, memo=None):
    """resolve phi terms whose condition is decided"""
    if memo is None:
        memo = {}
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return tuple(simp(x, conds, memo) for x in v)
        return v
    if v in memo:
        return memo[v]
    if v.op in ('const', 'sym', 'ref', 'func', 'cls', 'ext', 'mod'):
        return v
    if v.op == 'phi':
        memo[v] = v
        d = decide(v.a[0], conds)
        if d is not None:
            r = simp(v.a[1] if d else v.a[2], conds, memo)
            memo[v] = r
            return r
    memo[v] = v
    na = tuple(simp(x, conds, memo) for x in v.a)
    if all(x is y or x == y for x, y in zip(na, v.a)):
        r = v
    else:
        r = V(v.op, *na)
    memo[v] = r
    return r


def put(conds, c, val):
    c, pol = norm_cond(c)
    v = val == pol
    conds[c] = v
    if c.op == 'and' and v:
        for x in c.a[0]:
            put(conds, x, True)
    if c.op == 'or' and not v:
        for x in c.a[0]:
            put(conds, x, False)
    # unit propagation
    for d, dv in list(conds.items()):
        if d.op == 'and' and dv is False or d.op == 'or' and dv is True:
            want = d.op == 'and'
            open_ = []
            for x in d.a[0]:
                n, pol = norm_cond(x)
                if n in conds:
                    if (conds[n] == pol) != want:
                        open_ = None
                        break
                else:
                    open_.append((n, pol))
            if open_ is not None and len(open_) == 1:
                n, pol = open_[0]
                put(conds, n, pol != want)


def paths(blk, limit=400, conds=None):
    """all feasible paths, including raising ones"""
    return _block(blk, [Path(conds=conds)], limit)


def _block(blk, ps, limit):
    for x in blk:
        if not any(p.end is None for p in ps):
            break
        out = []
        for p in ps:
            if p.end is not None:
                out.append(p)
            else:
                out.extend(_node(x, p, limit))
        ps = out
        if len(ps) > limit:
            raise TooMany()
    return ps


def _node(x, p, limit):
    if isinstance(x, Ev):
        p.items.append(x)
        if x.kind == 'return':
            p.end, p.val = 'ret', x.val
        elif x.kind == 'raise':
            p.end, p.val = 'raise', x.exc
        elif x.kind == 'break':
            p.end = 'break'
        elif x.kind == 'continue':
            p.end = 'cont'
        elif x.kind == 'assert':
            d = decide(x.cond, p.conds)
            if d is False:
                p.end, p.val = 'raise', None
            else:
                put(p.conds, x.cond, True)
        return [p]
    if isinstance(x, If):
        d = decide(x.cond, p.conds)
        out = []
        if d is not False:
            q = p.fork() if d is None else p
            put(q.conds, x.cond, True)
            out += _block(x.a, [q], limit)
        if d is not True:
            q = p
            put(q.conds, x.cond, False)
            out += _block(x.b or [], [q], limit)
        return out
    if isinstance(x, Inl):
        out = _block(x.body, [p], limit)
        for q in out:
            if q.end == 'ret':
                q.end = None
                q.val = None
        return out
    if isinstance(x, With):
        return _block(x.body, [p], limit)
    if isinstance(x, Loop):
        if x.kind == 'unroll':
            ps = [p]
            for it in x.body:
                nxt = []
                for q in ps:
                    if q.end is not None:
                        nxt.append(q)
                        continue
                    for r in _block(it.body, [q], limit):
                        if r.end == 'cont':
                            r.end = None
                        nxt.append(r)
                ps = nxt
                if len(ps) > limit:
                    raise TooMany()
            res = []
            for q in ps:
                if q.end == 'break':
                    q.end = None
                    res.append(q)
                elif q.end is None and x.orelse is not None:
                    res += _block(x.orelse, [q], limit)
                else:
                    res.append(q)
            return res
        body = _block(x.body, [Path(conds=p.conds)], limit)
        p.items.append(LoopItem(x, body))
        out = [p]
        seen = set()
        for b in body:
            # a return inside the loop ends the function there
            if b.end == 'ret':
                q = p.fork()
                q.items.extend(b.items)
                q.conds.update(b.conds)
                q.end, q.val = 'ret', b.val
                out.append(q)
        if x.orelse is not None:
            o2 = []
            for q in out:
                if q.end is None:
                    o2 += _block(x.orelse, [q], limit)
                else:
                    o2.append(q)
            out = o2
        return out
    if isinstance(x, Try):
        out = []
        for q in _block(x.body, [p.fork()], limit):
            if q.end == 'raise' and x.handlers:
                for types, hb in x.handlers:
                    r = q.fork()
                    r.end = None
                    out += _block(hb, [r], limit)
            else:
                out.append(q)
        if x.handlers:
            for types, hb in x.handlers:
                r = p.fork()
                out += _block(hb, [r], limit)
        res = []
        for q in out:
            if len(x.final):
                e, v = q.end, q.val
                q.end = None
                for r in _block(x.final, [q], limit):
                    if r.end is None:
                        r.end, r.val = e, v
                    res.append(r)
            else:
                res.append(q)
        return res
    raise TypeError(x)
