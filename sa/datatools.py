"""Tools that rearrange data sets, evaluated on arrays of identities.

Every element of an array stands for (array, step, sample, unit); what comes
out is traced to where it was.  Decides P83."""
import itertools

from .arr import Arr
from .hooks import guarded
from .machine import (ClsV, D, Ext, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported)
from .repo import Fn
from .valid import loc
from .watch import attempt, judge


def fn_of(repo, name):
    for m in (repo.modules.values() if isinstance(repo.modules, dict)
              else repo.modules):
        if m.name.split('.')[-1] == 'tools':
            k = repo.resolve(m, name)
            if k and isinstance(k[-1], Fn):
                return k[-1]
    from .repo import AnalysisBroken
    raise AnalysisBroken('no function ' + name)


def data(name, T, N, units):
    shape = (T, N) + units
    n = 1
    for u in units:
        n *= u
    return Arr(['%s:%d,%d,%d' % (name, t, i, u) for t in range(T)
                for i in range(N) for u in range(n)], shape, tag=name)


def samples(a, orig):
    """the samples an array holds, in order, or what is wrong with it"""
    if not isinstance(a, Arr):
        return 'is no array'
    if len(a.shape) != len(orig.shape) or (a.shape[:1] + a.shape[2:]) != (
            orig.shape[:1] + orig.shape[2:]):
        return 'has the shape %s made of %s' % (a.shape, orig.shape)
    out = []
    for i in range(a.shape[1]):
        got = a.get((slice(None), i)).flat()
        ids = {str(x).split(',')[1] for x in got}
        if len(ids) != 1:
            return 'mixes samples'
        k = int(ids.pop())
        if got != orig.get((slice(None), k)).flat():
            return 'mixes values of sample %d' % k
        out.append(k)
    return out


class Shuffles(Monitor):
    """generators of random numbers: every order is possible"""
    orders = None

    def call(self, m, f, args, kw, node):
        n = f.name.split('.')[-1] if isinstance(f, (Meth, Ext)) else None
        if n == 'RandomState' or isinstance(f, ClsV) and \
                f.cls.name == 'RandomState':
            return O('rnd')
        if isinstance(f, Meth) and isinstance(f.obj, O) and \
                f.obj.tag == 'rnd':
            if n == 'shuffle' and isinstance(args[0], (Arr, L)):
                vs = args[0].get(slice(None)).flat() if isinstance(
                    args[0], Arr) else list(args[0].seq)
                if isinstance(args[0], Arr) and args[0].ndim != 1:
                    raise Unsupported('shuffling an array of more axes')
                p = self.order(m, len(vs))
                if isinstance(args[0], Arr):
                    for i, k in enumerate(p):
                        args[0].put(i, vs[k])
                else:
                    args[0].seq[:] = [vs[k] for k in p]
                return None
            if n == 'permutation' and len(args) == 1:
                vs = list(range(args[0])) if isinstance(
                    args[0], int) else args[0].flat()
                return Arr([vs[k] for k in self.order(m, len(vs))],
                           (len(vs),))
            raise Unsupported('random numbers %s' % n)
        return NotImplemented

    def order(self, m, n):
        ps = list(itertools.permutations(range(n))) if n < 5 else [
            tuple(range(n)), tuple(reversed(range(n))),
            tuple(range(1, n)) + (0,)]
        return ps[m.choose(len(ps), True)]


def run(repo, fn, mk, look):
    out = []
    m = Machine(repo, None, Shuffles, 4000, concrete=True)

    def body(m):
        args, kw = mk()
        keep = [a.copy() if isinstance(a, Arr) else a for a in args]

        def f():
            v = m.call_fn(fn, args, kw, None, fn.node)
            for a, k in zip(args, keep):
                if isinstance(a, Arr) and a.flat() != k.flat():
                    return 'changes the array it is given'
            return look(m, v, keep)
        out.append(attempt(f))
    m.each(body)
    return out


def parts(ratios, n):
    """the allowed boundaries"""
    total, acc, out = float(sum(ratios)), 0.0, []
    for r in ratios:
        acc += r
        x = acc / total * n
        out.append((x - 0.5 - 1e-9, x + 0.5 + 1e-9))
    return out


def splitting(repo, rep, rule, tier):
    fn = fn_of(repo, 'split')
    table = [None, (9, 1), (1, 1), (7, 2, 1), (0.6, 0.2, 0.2), (1, 2, 3, 4),
             (1,), (5, 1, 1)]
    for ratios in table:
        for n in (1, 3, 4, 7, 10, 12) if tier == 'quick' else range(1, 26):
            def mk():
                a = [data('a', 2, n, (3,)), None, data('b', 2, n, (1, 2)),
                     data('c', 1, n, ())]
                return a, {} if ratios is None else {'ratios': ratios}

            def look(m, v, orig):
                vs = m.seq(v, False)
                want = parts(ratios or (9, 1), n)
                if vs is None or len(vs) != len(want):
                    return 'does not give %d parts' % len(want)
                at = 0
                for i, part in enumerate(vs):
                    xs = m.seq(part, False)
                    if xs is None or len(xs) != len(orig):
                        return 'part %d has not all arrays' % i
                    end = None
                    for x, o in zip(xs, orig):
                        if o is None:
                            if x is not None:
                                return 'makes something of None'
                            continue
                        s = samples(x, o)
                        if isinstance(s, str):
                            return 'an array of part %d %s' % (i, s)
                        if s != list(range(at, at + len(s))):
                            return 'part %d holds the samples %s after %d' \
                                % (i, s, at)
                        if end is not None and at + len(s) != end:
                            return 'arrays of part %d hold different ' \
                                'samples' % i
                        end = at + len(s)
                    at = end
                    if not want[i][0] <= at <= want[i][1]:
                        return 'part %d ends at %d of %d samples' % (
                            i, at, n)
                return '' if at == n else 'leaves out samples'
            what = 'split of %d samples, ratios %s' % (n, ratios or
                                                       'left out')
            outs = guarded(rep, rule, what, lambda: run(repo, fn, mk, look))
            judge(rep, rule, what, outs, loc(fn))


def shuffling(repo, rep, rule, tier):
    fn = fn_of(repo, 'shuffle_data')
    for n in (1, 2, 3, 4, 6):
        for none in (False, True):
            for kw in ({}, {'seed': 5}):
                def mk():
                    a = [data('a', 2, n, (3,)), data('b', 1, n, (1, 2)),
                         data('c', 3, n, ())]
                    if none:
                        a.insert(1, None)
                    return a, dict(kw)
                seen = set()

                def look(m, v, orig):
                    vs = m.seq(v, False)
                    if vs is None or len(vs) != len(orig):
                        return 'gives %s arrays' % (vs and len(vs))
                    first = None
                    for x, o in zip(vs, orig):
                        if o is None:
                            if x is not None:
                                return 'makes something of None'
                            continue
                        s = samples(x, o)
                        if isinstance(s, str):
                            return 'an array ' + s
                        if sorted(s) != list(range(n)):
                            return 'an array holds the samples %s' % s
                        if first is None:
                            first = s
                        elif s != first:
                            return 'arrays are shuffled differently'
                    seen.add(tuple(first))
                    return ''
                what = 'shuffle_data of %d samples%s%s' % (
                    n, ', one array None' if none else '', ', with a seed'
                    if kw else '')
                outs = guarded(rep, rule, what,
                               lambda: run(repo, fn, mk, look))
                if outs is not None and len(outs) == 1 and not outs[0] and \
                        n > 1:
                    rep.skip(rule, what, 'no random order')
                    continue
                if outs and all(o == '' for o in outs) and n < 5 and \
                        len(seen) < len(outs):
                    outs = ['some orders never come out']
                elif outs and any(outs):
                    outs = [o for o in outs if o][:1]
                judge(rep, rule, what, outs, loc(fn))


def p83(repo, rep, tier):
    s, h = 'split', 'shuffle'
    rep.rule(s, 'every sample of every array is in exactly one part, in '
             'order, with the same samples of all arrays in one part and '
             'sizes nearest to the ratios')
    rep.rule(h, 'all arrays come out in one common order of all samples; '
             'every order is possible')
    rep.saw(fn_of(repo, 'split').qual, fn_of(repo, 'shuffle_data').qual)
    splitting(repo, rep, s, tier)
    shuffling(repo, rep, h, tier)
