"""P62: when hooks run and when they stop training."""
import math

from .machine import (D, Ext, It, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported, Violation, tag)
from .prog import find_cls
from .repo import AnalysisBroken, Fn
from .training import EMIT, LOG, START, arg, explore
from .valid import loc


class EmitMonitor(Monitor):
    def __init__(self, ts, epoch, update, logs):
        self.ts, self.epoch, self.update = ts, epoch, update
        self.logs = logs
        self.net = O('net')
        self.net.none, self.net.truth = False, True
        self.trainer = None
        self.cur = None
        self.called = self.logged = False
        self.stop = False
        self.result = None
        self.ended = False
        self.error = None
        self.seen = 0

    def key(self, val):
        return (val(self.cur), self.called, self.logged, self.stop,
                self.ended, val(self.result), self.error, self.seen)

    def opaque(self, fn):
        return fn.name == LOG

    def call(self, m, f, args, kw, node):
        hooks = self.trainer.attrs['hooks']
        if isinstance(f, Meth) and f.obj is hooks:
            if f.name in ('items', 'values', 'keys'):
                o = O('hooks.' + f.name)
                o.view = f.name
                return o
            if f.name == 'get' and args and args[0] is getattr(
                    self.cur, 'key', 0):
                return self.cur
        if isinstance(f, Ext) and f.name in ('list', 'tuple', 'iter') and \
                args and (args[0] is hooks or hasattr(args[0], 'view')):
            return args[0]
        if isinstance(f, Ext) and f.name == 'sorted' and args and (
                args[0] is hooks or hasattr(args[0], 'view')):
            k = kw.get('key')
            v = getattr(args[0], 'view', 'keys')
            h = O('probe')
            n = O('probe name')
            x = {'items': (n, h), 'values': h, 'keys': n}[v]
            r = m.call(k, [x], {}, node, None) if k is not None else None
            if isinstance(r, O) and r.parent is h and r.name == 'priority' \
                    and not kw.get('reverse'):
                return args[0]
            raise Violation('hooks are not called in their order', node)
        if isinstance(f, Ext) and f.name == 'reversed' and args and (
                args[0] is hooks or hasattr(args[0], 'view')):
            raise Violation('hooks are called in reverse order', node)
        if isinstance(f, Ext) and f.name == 'set' and args and (
                args[0] is hooks or hasattr(args[0], 'view')):
            raise Violation('hooks are called in arbitrary order', node)
        if isinstance(f, Meth) and f.obj is self.trainer and f.name == LOG:
            return self.log(args, kw, node)
        if f is self.cur and f is not None or isinstance(
                f, Meth) and f.obj is self.cur and f.name == '__call__':
            return self.hook_call(m, args, kw, node)
        return NotImplemented

    def hook_call(self, m, args, kw, node):
        t = self.trainer
        if not self.due(self.cur):
            h = self.cur
            raise Violation(
                'a hook of timescale %s and interval %d is called %s after '
                'epoch %d, update %d' % (
                    h.attrs['timescale'], h.attrs['interval'],
                    'with the hooks of the %s' % self.ts, self.epoch,
                    self.update), node)
        if self.called:
            raise Violation('a hook is called twice', node)
        got = [arg(args, kw, i, k) for i, k in enumerate(
            ('epoch_nr', 'update_nr', 'net', 'stepper', 'logs'))]
        want = [self.epoch, self.update, self.net, t.attrs['stepper'],
                t.attrs['logs']]
        for g, w, k in zip(got, want, ('epoch number', 'update number',
                                       'network', 'stepper', 'logs')):
            if g is not w and not (isinstance(g, int) and g == w):
                raise Violation('a hook is not given the %s' % k, node)
        self.called = True
        c = m.choose(3)
        if c == 1:
            self.stop = True
            e = O('StopIteration')
            e.attrs['value'] = O('stop value')
            self.result = e.attrs['value']
            raise PyExc('StopIteration', e)
        if c == 2:
            self.error = 'HookError'
            self.result = O('error')
            raise PyExc('HookError', O('HookError'))
        self.result = O('hook result')
        self.result.isresult = True
        return self.result

    def item(self, m, b, k):
        if b is self.trainer.attrs['hooks'] and self.cur is not None and \
                k is self.cur.key:
            return self.cur
        return NotImplemented

    def due(self, h):
        n = self.epoch if self.ts == 'epoch' else self.update
        return h.attrs['timescale'] == self.ts and n % h.attrs[
            'interval'] == 0

    def element(self, m, it):
        v = getattr(it.src, 'view', None)
        if it.src is self.trainer.attrs['hooks']:
            v = 'keys'
        if v is None:
            return O('elem(%s)' % it.tag)
        h, n = O('hook'), O('hook name')
        h.attrs['timescale'] = ('epoch', 'update')[m.choose()]
        h.attrs['interval'] = (1, 2, 3)[m.choose(3)]
        h.none, h.truth = False, True
        h.key = n
        h.attrs['__name__'] = n
        self.trainer.attrs['hooks'].items.clear()
        it.hook = h
        return {'items': (n, h), 'values': h, 'keys': n}[v]

    def left(self, node):
        h = self.cur
        if h is None:
            return
        if self.due(h) and not self.called:
            raise Violation(
                'a hook of timescale %s and interval %d is not called after '
                'epoch %d, update %d' % (
                    h.attrs['timescale'], h.attrs['interval'], self.epoch,
                    self.update), node)
        if self.called and not self.logged and self.result.none is not True \
                and hasattr(self.result, 'isresult'):
            raise Violation('the result of a hook is not logged', node)

    def next(self, m, it, elem, node):
        h = getattr(it, 'hook', None)
        if h is None:
            return
        self.left(node)
        self.cur, self.called, self.logged = h, False, False
        self.result = None
        self.seen = min(self.seen + 1, 2)

    def exhausted(self, m, it, node):
        if hasattr(it.src, 'view') or it.src is self.trainer.attrs['hooks']:
            self.left(node)
            self.cur = None
            self.ended = True

    def log(self, args, kw, node):
        n = arg(args, kw, 0, 'name')
        v = arg(args, kw, 1, 'val')
        if self.cur is None or not self.called:
            raise Violation('something is logged that is not the result of '
                            'a hook', node)
        if n is not self.cur.key:
            raise Violation('the result of a hook is not logged under its '
                            'name', node)
        if v is not self.result and not (
                self.result.none and v is None or v is None and not hasattr(
                    self.result, 'isresult')):
            raise Violation('what is logged is not the result of the hook',
                            node)
        g = arg(args, kw, 3, 'logs')
        if g is not self.logs and not (
                self.logs is None and g is self.trainer.attrs['logs']):
            raise Violation('the result of a hook goes into the wrong logs',
                            node)
        self.logged = True
        return None

    def end(self, m, how, val):
        if how == 'raise':
            if val.name == 'StopIteration':
                raise Violation('a stop request escapes as exception')
            if self.error is None and val.name not in (
                    'AssertionError', 'TypeError'):
                raise Violation('calling the hooks raises %s' % val.name)
            return
        if self.error is not None:
            raise Violation('an error in a hook is swallowed')
        if not self.ended:
            raise Violation('a stop request keeps the remaining hooks from '
                            'being called' if self.stop else 'not all hooks '
                            'are looked at')
        if not isinstance(val, bool):
            if isinstance(val, (int, type(None))):
                val = bool(val)
            else:
                raise Unsupported('result %s' % tag(val))
        if val != self.stop:
            raise Violation('a stop request of a hook is lost' if self.stop
                            else 'a stop is reported that no hook asked for')


POINTS = [(0, 0), (1, 2), (2, 3), (3, 4), (4, 9), (6, 5)]


def emit(repo, rep, rule):
    c = find_cls(repo, 'Trainer')
    ow, fn = repo.lookup(c, EMIT)
    if not isinstance(fn, Fn):
        rep.skip(rule, 'Trainer', 'no method ' + EMIT)
        return
    for ts in ('epoch', 'update'):
        for e, u in POINTS:
            for own in (False, True):
                def make(ts=ts, e=e, u=u, own=own):
                    return EmitMonitor(ts, e, u, O('results', kind='dict')
                                       if own else None)

                def setup(m, ts=ts, e=e, u=u, own=own):
                    t = trainer(c)
                    t.attrs['current_epoch_nr'] = e
                    t.attrs['current_update_nr'] = u
                    m.mon.trainer = t
                    kw = {'logs': m.mon.logs} if own else {}
                    return [m.mon.net, ts], kw, t
                r = explore(repo, rep, rule, '%s(%s) at epoch %d, update %d%s'
                            % (EMIT, ts, e, u, ', own logs' if own else ''),
                            fn, make, setup)
                if r is None:
                    return


def trainer(c):
    t = O('trainer', c)
    for a in ('stepper', 'hooks', 'logs', 'results', 'train_scorers'):
        o = O('trainer.' + a, kind='obj' if a == 'stepper' else 'dict')
        o.none = False
        t.attrs[a] = o
    t.attrs['verbose'] = True
    return t


# ------------------------------------------------------------ evaluate ------
class EvalMonitor(Monitor):
    def __init__(self):
        self.net = O('net')
        self.net.none, self.net.truth = False, True
        self.started = False
        self.done = ()

    def key(self, val):
        return self.started, self.done

    def opaque(self, fn):
        return fn.name in (EMIT, START, LOG)

    def call(self, m, f, args, kw, node):
        if isinstance(f, Meth) and f.obj is self.trainer:
            if f.name == START:
                if arg(args, kw, 0, 'net') is not self.net:
                    raise Violation('hooks are not started with the network',
                                    node)
                self.started = True
                return None
            if f.name == EMIT:
                ts = arg(args, kw, 1, 'timescale')
                if not self.started:
                    raise Violation('hooks are called before they are '
                                    'started', node)
                if arg(args, kw, 2, 'logs') is not self.trainer.attrs[
                        'results']:
                    raise Violation('the results of an evaluation go into '
                                    'the training logs', node)
                if ts in self.done:
                    raise Violation('hooks are called twice', node)
                self.done = tuple(sorted(self.done + (ts,)))
                return bool(m.choose())
        return NotImplemented

    def setattr(self, m, obj, name, old, val, node):
        if obj is self.trainer and name in ('current_epoch_nr',
                                            'current_update_nr', 'logs'):
            raise Violation('evaluate changes %s' % name, node)

    def end(self, m, how, val):
        if how != 'return':
            return
        if self.done != ('epoch', 'update'):
            raise Violation('evaluate does not call the hooks of both '
                            'timescales')
        if val is not self.trainer.attrs['results']:
            raise Violation('evaluate does not return the results')


def evaluating(repo, rep, rule):
    c = find_cls(repo, 'Trainer')
    ow, fn = repo.lookup(c, 'evaluate')
    if not isinstance(fn, Fn):
        raise AnalysisBroken('Trainer.evaluate')

    def setup(m):
        t = trainer(c)
        t.attrs['current_epoch_nr'] = t.attrs['current_update_nr'] = 4
        m.mon.trainer = t
        return [m.mon.net], {'other': O('it')}, t
    explore(repo, rep, rule, 'Trainer.evaluate', fn, EvalMonitor, setup)


class StartMonitor(Monitor):
    """every hook is started once"""

    def __init__(self):
        self.net, self.its = O('net'), O('iters', kind='dict')
        self.cur, self.started, self.ended, self.err = None, False, False, 0

    def key(self, val):
        return val(self.cur), self.started, self.ended, self.err

    item = EmitMonitor.item

    def call(self, m, f, args, kw, node):
        hooks = self.trainer.attrs['hooks']
        if isinstance(f, Meth) and f.obj is hooks and f.name in (
                'items', 'values', 'keys'):
            o = O('hooks.' + f.name)
            o.view = f.name
            return o
        if isinstance(f, Ext) and f.name in ('list', 'tuple', 'iter',
                                             'sorted') and args and hasattr(
                                                 args[0], 'view'):
            return args[0]
        if isinstance(f, Ext) and f.name == 'hasattr':
            return True
        if isinstance(f, Meth) and f.obj is self.cur and f.name == 'start':
            if self.started:
                raise Violation('a hook is started twice', node)
            got = [arg(args, kw, i, k) for i, k in enumerate(
                ('net', 'stepper', 'verbose', 'named_data_iters'))]
            want = [self.net, self.trainer.attrs['stepper'],
                    self.trainer.attrs['verbose'], self.its]
            for g, w, k in zip(got, want, ('network', 'stepper', 'verbosity',
                                           'data iterators')):
                if g is not w:
                    raise Violation('a hook is not started with the %s' % k,
                                    node)
            self.started = True
            if m.choose():
                self.err = 1
                raise PyExc('HookError', O('HookError'))
            return None
        return NotImplemented

    def element(self, m, it):
        v = getattr(it.src, 'view', None)
        if it.src is self.trainer.attrs['hooks']:
            v = 'keys'
        if v is None:
            return O('elem(%s)' % it.tag)
        h, n = O('hook'), O('hook name')
        h.none, h.truth, h.key = False, True, n
        it.hook = h
        self.trainer.attrs['hooks'].items.clear()
        return {'items': (n, h), 'values': h, 'keys': n}[v]

    def left(self, node):
        if self.cur is not None and not self.started:
            raise Violation('a hook is not started', node)

    def next(self, m, it, elem, node):
        h = getattr(it, 'hook', None)
        if h is not None:
            self.left(node)
            self.cur, self.started = h, False

    def exhausted(self, m, it, node):
        if hasattr(it.src, 'view') or it.src is self.trainer.attrs['hooks']:
            self.left(node)
            self.cur, self.ended = None, True

    def end(self, m, how, val):
        if how == 'raise':
            return
        if self.err:
            raise Violation('an error while starting a hook is swallowed')
        if not self.ended:
            raise Violation('not all hooks are started')


def starting(repo, rep, rule):
    c = find_cls(repo, 'Trainer')
    ow, fn = repo.lookup(c, START)
    if not isinstance(fn, Fn):
        rep.skip(rule, 'Trainer', 'no method ' + START)
        return

    def setup(m):
        t = trainer(c)
        m.mon.trainer = t
        return [m.mon.net, m.mon.its], {}, t
    explore(repo, rep, rule, 'Trainer.' + START, fn, StartMonitor, setup)


# ------------------------------------------------- constant propagation -----
class Fold(Monitor):
    """constant propagation; funcs models calls by name, keep -> opaque"""

    def __init__(self, funcs=None, keep=(), out=None):
        self.funcs, self.keep = funcs or {}, keep
        self.out = out
        self.tests = 0

    def opaque(self, fn):
        return fn.name in self.keep

    def call(self, m, f, args, kw, node):
        n = tag(f)
        for k in (n, n.split('.')[-1] if isinstance(f, (Meth, Ext)) else n):
            if k in self.funcs:
                return self.funcs[k](m, f, args, kw)
        return NotImplemented

    def end(self, m, how, val):
        self.out(m, how, val)


def fold(repo, fn, setup, funcs=None, keep=(), observe=None):
    """-> set of outcomes; observe(m, how, val) -> hashable"""
    outs = []

    def out(m, how, val):
        outs.append(observe(m, how, val))
    m = Machine(repo, None, lambda: Fold(funcs, keep, out), 2000, True)
    m.explore(fn, setup)
    return outs


def plain(v, d=0):
    """a known value as python value, for comparison"""
    if isinstance(v, L):
        return [plain(x, d + 1) for x in v.seq]
    if isinstance(v, D):
        return {k if hashable_(k) else tag(k): plain(x, d + 1)
                for k, x in v.items.items()}
    if isinstance(v, tuple):
        return tuple(plain(x, d + 1) for x in v)
    if isinstance(v, O):
        return '<%s>' % v.tag
    return v


def hashable_(k):
    return isinstance(k, (str, int, float, bool, type(None), tuple))


def nest(v):
    if isinstance(v, dict):
        return D({k: nest(x) for k, x in v.items()})
    if isinstance(v, list):
        return L([nest(x) for x in v])
    return v


def nums(v):
    if isinstance(v, L):
        v = v.seq
    if isinstance(v, (list, tuple)) and all(
            isinstance(x, (int, float)) for x in v):
        return list(v)
    if isinstance(v, (int, float)):
        return [v]
    raise Unsupported('numbers %s' % tag(v))


def np_funcs():
    def first(pick):
        def f(m, f, args, kw):
            q = nums(args[0])
            if not q:
                raise PyExc('ValueError')
            return q.index(pick(q))
        return f

    def fin(m, f, args, kw):
        r = [math.isfinite(x) for x in nums(args[0])]
        return L(r) if isinstance(args[0], (L, tuple)) else r[0]

    def isnan(m, f, args, kw):
        r = [math.isnan(x) for x in nums(args[0])]
        return L(r) if isinstance(args[0], (L, tuple)) else r[0]

    def isinf(m, f, args, kw):
        r = [math.isinf(x) for x in nums(args[0])]
        return L(r) if isinstance(args[0], (L, tuple)) else r[0]

    def quant(q):
        def f(m, f, args, kw):
            return q(m.truth(x) for x in m.seq(args[0])) if not isinstance(
                args[0], bool) else args[0]
        return f

    def arr(m, f, args, kw):
        return args[0]
    return {'numpy.argmin': first(min), 'numpy.argmax': first(max),
            'numpy.isfinite': fin, 'numpy.isnan': isnan,
            'numpy.isinf': isinf, 'numpy.all': quant(all),
            'numpy.any': quant(any), 'numpy.array': arr,
            'numpy.asarray': arr,
            'numpy.min': lambda m, f, a, k: min(nums(a[0])),
            'numpy.max': lambda m, f, a, k: max(nums(a[0])),
            'numpy.amin': lambda m, f, a, k: min(nums(a[0])),
            'numpy.amax': lambda m, f, a, k: max(nums(a[0])),
            'print': lambda m, f, a, k: None}


def verdict(rep, rule, what, outs, want, where):
    """outs: the outcomes of all choices"""
    s = set(map(repr, outs))
    if s == {repr(want)}:
        rep.ok(rule, what, where)
    elif repr(want) in s or not s:
        rep.skip(rule, what, 'several outcomes: %s' % ', '.join(sorted(s)))
    else:
        rep.bad(rule, what, '%s: %s instead of %s' % (
            what, ' or '.join(sorted(s)), want), where)


def guarded(rep, rule, what, f):
    try:
        return f()
    except (Unsupported, AttributeError, KeyError, TypeError, IndexError,
            RecursionError, ValueError) as e:
        rep.skip(rule, what, 'not evaluated: %s %s' % (
            type(e).__name__, e))
        return None


def add_log(repo, rep, rule):
    c = find_cls(repo, 'Trainer')
    ow, fn = repo.lookup(c, LOG)
    if not isinstance(fn, Fn):
        rep.skip(rule, 'Trainer', 'no method ' + LOG)
        return
    cases = [
        ('a value', {}, 'n', 3, {'n': [3]}),
        ('a second value', {'n': [3]}, 'n', 4, {'n': [3, 4]}),
        ('nothing', {'m': [1]}, 'n', None, {'m': [1]}),
        ('zero', {}, 'n', 0, {'n': [0]}),
        ('a dictionary', {}, 'n', {'a': 1, 'b': 2},
         {'n': {'a': [1], 'b': [2]}}),
        ('a second dictionary', {'n': {'a': [1], 'b': [2]}}, 'n',
         {'a': 5, 'b': 6}, {'n': {'a': [1, 5], 'b': [2, 6]}}),
        ('a nested dictionary', {'n': {'p': {'x': [1]}}}, 'n',
         {'p': {'x': 2, 'y': 3}, 'q': 4},
         {'n': {'p': {'x': [1, 2], 'y': [3]}, 'q': [4]}}),
    ]
    for verbose in (True, False):
        for own in (False, True):
            for what, before, name, val, after in cases:
                def setup(m, before=before, name=name, val=val):
                    t = trainer(c)
                    t.attrs['verbose'] = verbose
                    m.logs = nest(before)
                    m.rest = nest({'other': [7]})
                    t.attrs['logs'] = m.rest if own else m.logs
                    kw = {'logs': m.logs} if own else {}
                    return [name, nest(val)], kw, t

                def observe(m, how, v):
                    return how, plain(m.logs), plain(m.rest)
                w = '%s of %s%s, %s' % (LOG, what, ' into own logs' if own
                                        else '', 'verbose' if verbose
                                        else 'quiet')
                outs = guarded(rep, rule, w, lambda: fold(
                    repo, fn, setup, np_funcs(), observe=observe))
                if outs is None:
                    return
                verdict(rep, rule, w, outs,
                        ('return', after, {'other': [7]}), loc(fn))


def add_hook(repo, rep, rule):
    c = find_cls(repo, 'Trainer')
    hc = find_cls(repo, 'Hook')
    ow, fn = repo.lookup(c, 'add_hook')
    if not isinstance(fn, Fn):
        raise AnalysisBroken('Trainer.add_hook')
    for old in ([], [1], [1, 2], [5, 9], [4, 2]):
        for mine in (0, 3, 9):
            def setup(m, old=old, mine=mine):
                t = trainer(c)
                hs = D()
                m.hs, m.olds = hs, []
                for i, p in enumerate(old):
                    h = O('hook%d' % i, hc)
                    h.attrs.update(__name__='h%d' % i, priority=p)
                    hs.items['h%d' % i] = h
                    m.olds.append(h)
                t.attrs['hooks'] = hs
                m.h = O('new', hc)
                m.h.attrs.update(__name__='new', priority=mine)
                m.t = t
                return [m.h], {}, t

            def observe(m, how, v, old=old):
                hs = m.t.attrs['hooks']
                p = m.h.attrs['priority']
                return (how, plain(hs), isinstance(p, int) and all(
                    p > q for q in old), [h.attrs['priority']
                                          for h in m.olds])
            w = 'add_hook after priorities %s, own %d' % (old, mine)
            outs = guarded(rep, rule, w, lambda: fold(
                repo, fn, setup, np_funcs(), observe=observe))
            if outs is None:
                return
            d = {'h%d' % i: '<hook%d>' % i for i in range(len(old))}
            d['new'] = '<new>'
            verdict(rep, rule, w, outs, ('return', d, True, old), loc(fn))
    def setup(m):
        t = trainer(c)
        h, g = O('old', hc), O('new', hc)
        h.attrs.update(__name__='same', priority=1)
        g.attrs.update(__name__='same', priority=0)
        t.attrs['hooks'] = m.hs = D({'same': h})
        return [g], {}, t
    w = 'add_hook with a name that exists'
    outs = guarded(rep, rule, w, lambda: fold(
        repo, fn, setup, np_funcs(), observe=lambda m, how, v: (
            how, plain(m.hs))))
    if outs is not None:
        verdict(rep, rule, w, outs, ('raise', {'same': '<old>'}), loc(fn))
    ow, fn = repo.lookup(c, '__init_from_description__')
    if not isinstance(fn, Fn):
        rep.skip(rule, 'Trainer', 'no __init_from_description__')
        return
    for pr in ([1, 2, 3], [3, 1, 2], [10, 9, 2], [2, 1]):
        def setup(m, pr=pr):
            t = trainer(c)
            hs = D()
            for i, p in enumerate(pr):
                h = O('h%d' % i, hc)
                h.attrs.update(__name__='Hook', priority=p)
                hs.items['h%d' % i] = h
            t.attrs['hooks'] = hs
            m.t = t
            return [D()], {}, t

        def observe(m, how, v):
            hs = m.t.attrs['hooks']
            return how, [(k, x.tag, x.attrs['__name__'])
                         for k, x in hs.items.items()]
        w = 'order recovered from priorities %s' % pr
        outs = guarded(rep, rule, w, lambda: fold(
            repo, fn, setup, np_funcs(), observe=observe))
        if outs is None:
            return
        ix = sorted(range(len(pr)), key=lambda i: pr[i])
        verdict(rep, rule, w, outs, ('return', [
            ('h%d' % i,) * 3 for i in ix]), loc(fn))


NAN, INF = float('nan'), float('inf')


def early(log, patience, crit):
    best = log.index(min(log) if crit == 'min' else max(log))
    return len(log) > best + patience


LOGS = [[1.0], [1.0, 2.0], [2.0, 1.0], [2.0, 1.0, 1.0], [3.0, 1.0, 2.0],
        [3.0, 1.0, 2.0, 4.0], [1.0, 3.0, 2.0, 2.5], [1.0, 2.0, 3.0, 4.0],
        [4.0, 3.0, 2.0, 1.0], [2.0, 2.0, 2.0], [0.0, -1.0, 5.0, -2.0],
        [0.0], [0.5, 0.25, 0.125]]
BAD = [NAN, INF, -INF]


def conditions():
    """(class, constructor arguments, attributes later, epoch, update, logs,
    parameters finite, stops)"""
    for crit in ('min', 'max'):
        for pat in (1, 2, 3):
            for log in LOGS:
                for e in (0, 3):
                    yield ('EarlyStopper', ['m.v', pat, crit], {}, e,
                           {'m': {'v': log}}, True, early(log, pat, crit))
            yield ('EarlyStopper', ['m.v', pat, crit], {}, 0, {}, True, False)
            yield ('EarlyStopper', ['m.v', pat, crit], {}, 0, {'m': {}},
                   True, False)
            yield ('EarlyStopper', ['m.v', pat, crit], {}, 3, {}, True,
                   'KeyError')
        for thr in (1.0, 2.0, 0.0, -1.5, 3.5):
            for log in LOGS:
                yield ('StopAfterThresholdReached', ['m.v', thr, crit], {}, 3,
                       {'m': {'v': log}}, True,
                       min(log) <= thr if crit == 'min' else max(log) >= thr)
            yield ('StopAfterThresholdReached', ['m.v', thr, crit], {}, 0, {},
                   True, False)
            yield ('StopAfterThresholdReached', ['m.v', thr, crit], {}, 2, {},
                   True, 'KeyError')
    for mx in (0, 1, 2, 5, 10):
        for e in range(0, 12):
            yield 'StopAfterEpoch', [mx], {}, e, {}, True, e >= mx
    for q in (True, False):
        for e in (0, 3):
            yield 'StopOnSigQuit', [], {'quit': q}, e, {}, True, q
    good = {'rolling_training': {'total_loss': [1.0, 2.0]},
            'm': {'v': [1.0, 2.0]}, 'k': [3.0]}
    for cp in (True, False):
        for ct in (True, False):
            for names in ([], ['m.v'], ['k', 'm.v']):
                for fin in (True, False):
                    yield ('StopOnNan', [L(names), cp, ct], {}, 3, good, fin,
                           cp and not fin)
                for b in BAD:
                    for pos in (0, 1):
                        v = [1.0, 2.0]
                        v[pos] = b
                        d = dict(good, rolling_training={'total_loss': v})
                        yield ('StopOnNan', [L(names), cp, ct], {}, 3, d,
                               True, ct)
                        d = dict(good, m={'v': v})
                        yield ('StopOnNan', [L(names), cp, ct], {}, 3, d,
                               True, 'm.v' in names)
                yield ('StopOnNan', [L(names), cp, ct], {}, 0, {}, True,
                       False)
                yield ('StopOnNan', [L(names), cp, ct], {}, 0, {}, False, cp)
            yield ('StopOnNan', ['m.v', cp, ct], {}, 3,
                   dict(good, m={'v': [NAN]}), True, True)


def stopping(repo, rep, rule):
    n = 0
    done = {}
    for name, init, later, e, logs, fin, want in conditions():
        c = find_cls(repo, name)
        ow, call = repo.lookup(c, '__call__')
        ow, ctor = repo.lookup(c, '__init__')
        if not isinstance(call, Fn) or not isinstance(ctor, Fn):
            raise AnalysisBroken('%s.__call__' % name)
        if done.get(name) == 'broken':
            continue
        seen = []

        def setup(m):
            h = O('hook', c)
            m.call_fn(ctor, list(init), {}, h, ctor.node)
            h.attrs.update(later)
            net = O('net')
            h.attrs['run_verbosity'] = False
            return [e, 3 * e, net, O('stepper'), nest(logs)], {}, h

        def observe(m, how, v):
            if how == 'raise':
                return True if v.name == 'StopIteration' else v.name
            return False
        fs = np_funcs()
        fs['is_fully_finite'] = lambda m, f, a, k: fin
        w = '%s%s at epoch %d with logs %s%s' % (name, plain(tuple(init)), e,
                                                 logs, '' if fin else
                                                 ', parameters not finite')
        outs = guarded(rep, rule, name, lambda: fold(
            repo, call, setup, fs, observe=observe))
        if outs is None:
            done[name] = 'broken'
            continue
        n += 1
        verdict(rep, rule, w, outs, want, loc(call))


def signals(repo, rep, rule):
    """SIGQUIT: the handler installed by start sets the flag"""
    c = find_cls(repo, 'StopOnSigQuit')
    ow, start = repo.lookup(c, 'start')
    if not isinstance(start, Fn):
        raise AnalysisBroken('StopOnSigQuit.start')
    got = []

    def setup(m):
        h = O('hook', c)
        h.attrs.update(quit=True, verbose=None, __name__='h')
        m.h = h
        return [O('net'), O('stepper'), True, D()], {}, h

    def sig(m, f, args, kw):
        m.handler = args
        return O('old')

    def observe(m, how, v):
        h = getattr(m, 'handler', None)
        if how != 'return' or not h:
            return 'no handler'
        q = m.h.attrs.get('quit')
        r = []
        for _ in range(2):
            m.call(h[1], [O('signum'), O('stack')], {}, start.node, None)
            r.append(m.h.attrs.get('quit'))
        return (tag(h[0]), q) + tuple(r)
    outs = guarded(rep, rule, 'StopOnSigQuit.start', lambda: fold(
        repo, start, setup, dict(np_funcs(), **{'signal.signal': sig}),
        observe=observe))
    if outs is not None:
        verdict(rep, rule, 'StopOnSigQuit: a new run starts without the '
                'flag, the signal sets it', outs,
                ('signal.SIGQUIT', False, True, True), loc(start))


def p62(repo, rep, tier):
    em, st, lg, pr, cond = ('emission', 'start', 'logs', 'order',
                            'stopping conditions')
    rep.rule(em, 'for every sequence of hooks (timescale, interval, result, '
             'stop request or error of each chosen freely) exactly the hooks '
             'that are due are called, once, in order, with the current '
             'counts; results are logged under the name of the hook; errors '
             'escape; the result is true exactly if a hook asked to stop')
    rep.rule(st, 'every hook is started with network, stepper, verbosity and '
             'iterators, and an error escapes')
    rep.rule(lg, 'logs grow by exactly the values of each (nested) result')
    rep.rule(pr, 'an added hook gets the highest priority, a second hook of '
             'the same name is refused, and the order is recovered from a '
             'description')
    rep.rule(cond, 'each stopping condition raises StopIteration exactly '
             'when its documented condition holds, for a table of settings '
             'and logs propagated as constants')
    emit(repo, rep, em)
    evaluating(repo, rep, em)
    starting(repo, rep, st)
    add_log(repo, rep, lg)
    add_hook(repo, rep, pr)
    stopping(repo, rep, cond)
    signals(repo, rep, cond)
