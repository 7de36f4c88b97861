"""Generic forward dataflow over effect trees.

A client gives transfer(event, state)->state (may return None = path ends),
join(a, b)->state, and optionally assume(cond, bool, state)->state|None.
States are treated as immutable values with ==.
"""
from .interp import Ev, If, Inl, Loop, Try, With

EXITS = ('ret', 'raise', 'break', 'cont')


class Flow(object):
    MAXIT = 12

    def __init__(self, transfer, join, assume=None, loop_at_least_once=False,
                 enter_loop=None, exit_loop=None, enter_inl=None,
                 leave_inl=None):
        self.transfer, self._join, self.assume = transfer, join, assume
        self.once = loop_at_least_once
        self.enter_loop, self.exit_loop = enter_loop, exit_loop
        self.enter_inl, self.leave_inl = enter_inl, leave_inl

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a == b:
            return a
        return self._join(a, b)

    def run(self, block, s):
        out = dict.fromkeys(('fall',) + EXITS)
        for n in block:
            if s is None:
                break
            if isinstance(n, Ev):
                s2 = self.transfer(n, s)
                if n.kind == 'return':
                    out['ret'] = self.join(out['ret'], s2)
                    s = None
                elif n.kind == 'raise':
                    out['raise'] = self.join(out['raise'], s2)
                    s = None
                elif n.kind == 'break':
                    out['break'] = self.join(out['break'], s2)
                    s = None
                elif n.kind == 'continue':
                    out['cont'] = self.join(out['cont'], s2)
                    s = None
                else:
                    s = s2
                continue
            o = self.node(n, s)
            for k in EXITS:
                out[k] = self.join(out[k], o[k])
            s = o['fall']
        out['fall'] = s
        return out

    def node(self, n, s):
        none = dict.fromkeys(('fall',) + EXITS)
        if isinstance(n, If):
            sa = self.assume(n.cond, True, s) if self.assume else s
            sb = self.assume(n.cond, False, s) if self.assume else s
            oa = self.run(n.a, sa) if sa is not None else none
            ob = self.run(n.b, sb) if sb is not None else none
            return {k: self.join(oa[k], ob[k]) for k in oa}
        if isinstance(n, Inl):
            if self.enter_inl:
                s = self.enter_inl(n, s)
            o = self.run(n.body, s)
            f = self.join(o['fall'], o['ret'])
            if self.leave_inl and f is not None:
                f = self.leave_inl(n, f)
            o['fall'], o['ret'] = f, None
            o['break'] = o['cont'] = None
            return o
        if isinstance(n, With):
            return self.run(n.body, s)
        if isinstance(n, Loop):
            if n.kind == 'iter':
                o = self.run(n.body, s)
                o['fall'] = self.join(o['fall'], o['cont'])
                o['cont'] = None
                return o
            if n.kind == 'unroll':
                o = self.run(n.body, s)
                f = o['fall']
                if n.orelse is not None and f is not None:
                    e = self.run(n.orelse, f)
                    for k in ('ret', 'raise', 'cont'):
                        o[k] = self.join(o[k], e[k])
                    f = e['fall']
                    bk = e['break']
                else:
                    bk = None
                o['fall'] = self.join(f, o['break'])
                o['break'] = bk
                return o
            acc = dict(none)
            cur = self.enter_loop(n, s) if self.enter_loop else s
            brk = None
            first = True
            last = None
            for _ in range(self.MAXIT):
                o = self.run(n.body, cur)
                end = self.join(o['fall'], o['cont'])
                brk = self.join(brk, o['break'])
                for k in ('ret', 'raise'):
                    acc[k] = self.join(acc[k], o[k])
                last = end
                nxt = self.join(cur, end)
                if nxt == cur:
                    break
                cur = nxt
            infinite = getattr(n, 'infinite', False)
            if infinite:
                f = None
            elif self.once:
                f = last
            else:
                f = self.join(s, cur)
            if f is not None and n.orelse is not None:
                e = self.run(n.orelse, f)
                for k in ('ret', 'raise'):
                    acc[k] = self.join(acc[k], e[k])
                f = e['fall']
            f = self.join(f, brk)
            if self.exit_loop and f is not None:
                f = self.exit_loop(n, f)
            acc['fall'] = f
            return acc
        if isinstance(n, Try):
            o = self.run(n.body, s)
            out = dict(o)
            # an exception may leave the body at any event: over-approximate
            # by joining entry and exits
            mid = self.join(s, self.join(o['fall'], o['raise']))
            caught = False
            fall = o['fall']
            for types, hb in n.handlers:
                h = self.run(hb, mid)
                caught = True
                fall = self.join(fall, h['fall'])
                for k in EXITS:
                    out[k] = self.join(out[k], h[k]) if k != 'raise' else \
                        out[k]
                out['raise'] = self.join(out['raise'], h['raise'])
            out['fall'] = fall
            if len(n.final):
                for k in list(out):
                    if out[k] is not None:
                        f = self.run(n.final, out[k])
                        out[k] = f['fall']
            return out
        raise TypeError(n)
