"""Hooks that record or save something, evaluated by the abstract machine.

Stand-ins take the place of network, files and logs; what a hook keeps, logs
or writes is compared with what it was shown.  Decides P65."""
import math
import re

from .arr import Arr, make
from .hooks import guarded, nest, plain
from .machine import (D, ClsV, Ext, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported)
from .prog import find_cls
from .repo import Fn
from .valid import loc


class Watch(Monitor):
    """network, handler and files"""

    def __init__(self):
        self.saved, self.loaded, self.evals = [], [], []
        self.files, self.said = [], []
        self.params = None

    def opaque(self, fn):
        return fn.name in ('evaluate', 'get_brainstorm_info', 'from_hdf5',
                           'save_as_hdf5')

    def call(self, m, f, args, kw, node):
        n = f.name if isinstance(f, (Meth, Ext)) else None
        o = f.obj if isinstance(f, Meth) else None
        k = getattr(o, 'role', None)
        if n is not None and n.split('.')[-1] == 'from_hdf5':
            self.loaded.append(args[0] if args else kw.get('filename'))
            return O('loaded network')
        if n == 'print' and o is None:
            self.said.append(tuple(args))
            return None
        if n == 'evaluate' and o is None:
            a = dict(zip(('network', 'iter', 'scorers'), args))
            a.update(kw)
            self.evals.append(a)
            return O('scores')
        if n == 'get_brainstorm_info':
            return 'info'
        if k == 'net':
            if n == 'save_as_hdf5':
                self.saved.append((args[0] if args else kw.get('filename'),
                                   self.params.flat()))
                return None
            if n == 'get' and args and args[0] == 'parameters':
                return self.params.copy()
            raise Unsupported('network.%s' % n)
        if k == 'handler':
            if n == 'get_numpy_copy' and isinstance(args[0], Arr):
                return args[0].copy()
            raise Unsupported('handler.%s' % n)
        if k == 'group':
            if n in ('create_group', 'require_group'):
                g = group()
                o.content[args[0]] = g
                return g
            if n in ('create_dataset', 'require_dataset'):
                d = kw.get('data', args[3] if len(args) > 3 else None)
                if d is None:
                    raise Unsupported('a data set without data')
                o.content[args[0]] = d
                return O('dataset')
            if n == 'close':
                return None
        if k == 'attrs' and n in ('create', '__setitem__', 'update'):
            return None
        if n is not None and n.split('.')[-1] == 'File' and o is None:
            g = group()
            self.files.append((args, kw, g))
            return g
        if n in ('numpy.array', 'numpy.asarray') and len(args) == 1 and \
                isinstance(args[0], L) and not all(isinstance(
                    x, (int, float)) for x in args[0].seq):
            return args[0]
        return NotImplemented

    def setattr(self, m, obj, name, old, val, node):
        if getattr(obj, 'role', None) == 'group' and isinstance(name, tuple):
            obj.content[name[1]] = val


def group():
    g = O('group', kind='dict')
    g.role, g.content = 'group', {}
    g.none, g.truth = False, True
    a = O('attrs', kind='dict')
    a.role = 'attrs'
    g.attrs['attrs'] = a
    return g


def written(g):
    if getattr(g, 'role', None) == 'group':
        return {k: written(v) for k, v in g.content.items()}
    if isinstance(g, Arr):
        return g.nested()
    return plain(g)


def network():
    net, h = O('net'), O('handler')
    net.role, h.role = 'net', 'handler'
    net.none = h.none = False
    net.attrs['handler'] = h
    return net


class Run(object):
    """one case on a fresh machine"""

    def __init__(self, repo, cname):
        self.repo, self.c = repo, find_cls(repo, cname)

    def go(self, body):
        m = Machine(self.repo, None, Watch, 50, concrete=True)
        out = []

        def b(m):
            self.m = m
            out.append(body(self))
        m.each(b)
        return out

    def new(self, *args, **kw):
        h = self.m.call(ClsV(self.c), list(args), kw, None, None)
        if not isinstance(h, O):
            raise Unsupported('an object of %s' % self.c.name)
        return h

    def meth(self, h, name, *args, **kw):
        ow, fn = self.repo.lookup(self.c, name)
        if not isinstance(fn, Fn):
            raise Unsupported('%s.%s' % (self.c.name, name))
        return self.m.call_fn(fn, list(args), kw, h, fn.node)


def judge(rep, rule, what, outs, where):
    """outs: '' or what is wrong, per alternative"""
    if outs is None:
        return
    bad = sorted({o for o in outs if o})
    if not outs:
        rep.skip(rule, what, 'not evaluated')
    elif not bad:
        rep.ok(rule, what, where)
    elif len(set(outs)) > 1:
        rep.skip(rule, what, 'several outcomes: %s' % bad[0])
    elif re.search(r"<[^<>]*(\(\)|text|global:|elem\(|num)[^<>]*>", bad[0]):
        rep.skip(rule, what, 'unknown value: %s' % bad[0])
    else:
        rep.bad(rule, what, '%s: %s' % (what, bad[0]), where)


def attempt(f):
    """-> what f says, or the exception that leaves it"""
    try:
        return f()
    except PyExc as e:
        if e.name in ('KeyError', 'ValueError', 'AssertionError',
                      'StopIteration', 'IndexError', 'ZeroDivisionError'):
            return 'raises %s' % e.name
        raise Unsupported('raises %s' % e.name)


# -------------------------------------------------------------------- best --
SERIES = [[3.0, 1.0, 2.0, 0.5], [1.0, 2.0, 3.0], [3.0, 2.0, 1.0],
          [-1.0, -3.0, -2.0, -0.5], [0.0, 5.0, -5.0],
          [2.0, float('nan'), 3.0, 1.0], [float('inf'), 4.0, 5.0],
          [7.0]]


def best(repo, rep, rule):
    r = Run(repo, 'SaveBestNetwork')
    where = loc(repo.lookup(r.c, '__call__')[1])
    for crit in ('min', 'max'):
        for fname in (None, 'best.hdf5'):
            for scale in ('epoch', 'update'):
                for late in (False, True):
                    for vs in SERIES:
                        def body(r):
                            return attempt(lambda: one_best(
                                r, crit, fname, scale, late, vs))
                        what = 'SaveBestNetwork(criterion %s, %s) shown ' \
                            '%s per %s%s' % (
                                crit, 'in a file' if fname else 'in memory',
                                vs, scale, ', first log late' if late
                                else '')
                        outs = guarded(rep, rule, what, lambda: r.go(body))
                        if outs is None:
                            return
                        judge(rep, rule, what, outs, where)


def one_best(r, crit, fname, scale, late, vs):
    m = r.m
    w = m.mon
    h = r.new('mon.sub.v', criterion=crit, filename=fname, timescale=scale)
    net = network()
    stepper = O('stepper')
    r.meth(h, 'start', net, stepper, False, D())
    log = L()
    logs = D({'mon': D({'sub': D({'v': log})})})
    at, kept = None, None
    if late:
        w.params = make([9.0, 9.0])
        r.meth(h, '__call__', 0, 0, net, stepper, D())
        if w.saved:
            return 'saves a network although nothing is logged'
    w.params = make([0.0, 0.0])
    for i, v in enumerate(vs):
        w.params.put(0, 10.0 * i + 1)
        w.params.put(1, -float(i))
        log.seq.append(v)
        e = i + (1 if late else 0)
        # what is best may not improve on infinity
        worst = float('inf') if crit == 'min' else -float('inf')
        if not math.isnan(v) and (
                at is None and v != worst or at is not None and (
                    v < at if crit == 'min' else v > at)):
            at, kept = v, w.params.flat()
        seen = len(w.saved)
        r.meth(h, '__call__', e, 3 * e, net, stepper, logs)
        if at is None:
            if math.isnan(v) and w.saved:
                return 'saves a network that is not a number good'
            continue
        if fname:
            if len(w.saved) > seen + 1:
                return 'saves twice'
            if not w.saved or w.saved[-1] != (fname, kept):
                return 'after %s the file holds the network of another ' \
                    'moment' % vs[:i + 1]
        else:
            if w.saved:
                return 'writes a file although none is wanted'
        x = r.meth(h, 'load_best_network')
        if fname:
            if w.loaded[-1:] != [fname]:
                return 'loads another file'
        elif not isinstance(x, Arr) or x.flat() != kept:
            return 'after %s the parameters kept are not those of the best ' \
                'moment' % vs[:i + 1]
    return ''


# ------------------------------------------------------------------- stats --
MONITORS = {
    'MonitorLayerDeltas': {None: 'internals', 'output_deltas':
                           'output_deltas', 'input_deltas': 'input_deltas'},
    'MonitorLayerGradients': {None: 'gradients'},
    'MonitorLayerInOuts': {'inputs': 'inputs', 'outputs': 'outputs'},
    'MonitorLayerParameters': {None: 'parameters'},
}
CATS = ('inputs', 'outputs', 'parameters', 'internals', 'input_deltas',
        'output_deltas', 'gradients')


def view(seed, empty=()):
    """a layer with buffers of different values in each category"""
    o = O('layer view')
    o.none = False
    out = {}
    for i, c in enumerate(CATS):
        d = D()
        for j, sh in enumerate([(2, 2), (3,), (2, 1, 3)]):
            if c in empty or c in ('inputs', 'outputs') and j == 1:
                continue
            n = 1
            for s in sh:
                n *= s
            vals = [float((x * 7 + i * 5 + j * 3 + seed) % 11 - 5)
                    for x in range(n)]
            d.items['bcd'[j] + c[:2]] = Arr(vals, sh)
        o.attrs[c] = d
        out[c] = {k: (a.flat(), a.shape) for k, a in d.items.items()}
    return o, out


def stats(repo, rep, rule):
    for cname, cats in sorted(MONITORS.items()):
        r = Run(repo, cname)
        where = loc(repo.lookup(r.c, '__call__')[1])
        for layer in ('La', 'Lb'):
            for empty in ((), ('internals', 'parameters', 'gradients',
                               'input_deltas')):
                def body(r):
                    return attempt(lambda: one_stat(r, cats, layer, empty))
                what = '%s of layer %s%s' % (
                    cname, layer, ', no internals or parameters' if empty
                    else '')
                outs = guarded(rep, rule, what, lambda: r.go(body))
                judge(rep, rule, what, outs, where)

        def refuse(r):
            h = r.new('Nowhere')
            net = network()
            net.attrs['layers'] = D({'La': O('l'), 'Lb': O('l')})
            try:
                r.meth(h, 'start', net, O('stepper'), False, D())
            except PyExc:
                return ''
            return 'is accepted'
        what = '%s of a layer that does not exist' % cname
        outs = guarded(rep, rule, what, lambda: r.go(refuse))
        judge(rep, rule, what, outs, where)


def one_stat(r, cats, layer, empty):
    h = r.new(layer)
    net = network()
    net.attrs['layers'] = D({'La': O('l'), 'Lb': O('l')})
    va, xa = view(0, empty)
    vb, xb = view(4, empty)
    net.attrs['buffer'] = D({'La': va, 'Lb': vb})
    r.meth(h, 'start', net, O('stepper'), False, D())
    got = r.meth(h, '__call__', 1, 1, net, O('stepper'), D())
    if not isinstance(got, D):
        return 'logs nothing'
    got = plain(got)
    x = xa if layer == 'La' else xb
    for key, cat in cats.items():
        g = got if key is None else got.get(key)
        if not isinstance(g, dict):
            return '%s are not logged' % key
        if key is not None:
            more = sorted(set(g) - set(x[cat]))
            if more:
                return 'logs %s under %s' % (more[0], key)
        for n, (vs, sh) in x[cat].items():
            s = g.get(n)
            if not isinstance(s, dict):
                return '%s of the %s is not logged' % (n, cat)
            want = {'min': min(vs), 'max': max(vs),
                    'avg': sum(vs) / len(vs)}
            if cat == 'parameters' and len(sh) == 2:
                ns = [math.sqrt(sum(v * v for v in vs[i * sh[1]:
                                                      (i + 1) * sh[1]]))
                      for i in range(sh[0])]
                want.update(min_L2_norm=min(ns), max_L2_norm=max(ns),
                            avg_L2_norm=sum(ns) / len(ns))
            for k, y in want.items():
                if not isinstance(s.get(k), (int, float)) or abs(
                        s[k] - y) > 1e-9:
                    return '%s of %s is %s instead of %s' % (
                        k, n, s.get(k), y)
    for o, x in ((va, xa), (vb, xb)):
        for c in CATS:
            for n, a in o.attrs[c].items.items():
                if (a.flat(), a.shape) != x[c][n]:
                    return 'changes %s of the %s' % (n, c)
    return ''


# -------------------------------------------------------------- evaluation --
def evaluation(repo, rep, rule):
    sc = L([O('scorer1'), O('scorer2')])
    for cname in ('MonitorLoss', 'MonitorScores'):
        r = Run(repo, cname)
        where = loc(repo.lookup(r.c, '__call__')[1])
        args = ['valid'] + ([sc] if cname == 'MonitorScores' else [])

        def body(r):
            h = r.new(*args)
            its = D({k: O('iterator ' + k) for k in (
                'training_data_iter', 'test', 'valid', 'zz')})
            net = network()
            r.meth(h, 'start', net, O('stepper'), False, its)
            for i in range(2):
                v = r.meth(h, '__call__', i, i, net, O('stepper'), D())
                ev = r.m.mon.evals
                if len(ev) != i + 1:
                    return 'evaluates %d times' % len(ev)
                a = ev[-1]
                if a.get('network') is not net:
                    return 'evaluates another network'
                if a.get('iter') is not its.items['valid']:
                    return 'evaluates other data'
                s = a.get('scorers', ())
                if cname == 'MonitorScores' and (not isinstance(
                        s, (L, tuple)) or r.m.seq(s) != sc.seq):
                    return 'uses other scorers'
                if not isinstance(v, O) or v.tag != 'scores':
                    return 'does not log the result'
            return ''

        def absent(r):
            h = r.new(*args)
            try:
                r.meth(h, 'start', network(), O('stepper'), False,
                       D({'test': O('iterator')}))
            except PyExc:
                return ''
            return 'is accepted'
        for what, b in ((cname + ' of one of several iterators', body),
                        (cname + ' of an iterator that is not given',
                         absent)):
            outs = guarded(rep, rule, what, lambda: r.go(
                lambda r: attempt(lambda: b(r))))
            judge(rep, rule, what, outs, where)


# ------------------------------------------------------------------- files --
def files(repo, rep, rule):
    logs = {'rolling_training': {'total_loss': [3.0, 2.0, 1.0],
                                 'out': {'a': [1.0], 'b': [2.0, 5.0]}},
            'validation': {'Accuracy': [0.5, 0.25]}, 'lr': [0.1, 0.2]}
    r = Run(repo, 'SaveLogs')
    where = loc(repo.lookup(r.c, '__call__')[1])

    def body(r):
        h = r.new('logs.hdf5')
        r.meth(h, 'start', network(), O('stepper'), False, D())
        for i in range(2):
            r.meth(h, '__call__', i, i, network(), O('stepper'), nest(logs))
            fs = r.m.mon.files
            if len(fs) != i + 1:
                return 'opens %d files' % (len(fs) - i)
            a, kw, g = fs[-1]
            if (a or [kw.get('name')])[0] != 'logs.hdf5':
                return 'writes another file'
            if (a[1] if len(a) > 1 else kw.get('mode')) != 'w':
                return 'does not write a new file'
            got = written(g)
            if got != logs:
                return 'writes %s for the logs %s' % (got, logs)
        return ''
    what = 'SaveLogs of nested logs'
    judge(rep, rule, what, guarded(rep, rule, what, lambda: r.go(
        lambda r: attempt(lambda: body(r)))), where)
    r2 = Run(repo, 'SaveNetwork')

    def save(r):
        h = r.new('net.hdf5')
        net, w = network(), r.m.mon
        w.params = make([1.0, 2.0])
        r.meth(h, 'start', net, O('stepper'), False, D())
        if w.saved:
            return 'saves before training'
        for i in range(3):
            w.params.put(0, 5.0 + i)
            r.meth(h, '__call__', i, i, net, O('stepper'), D())
            if len(w.saved) != i + 1 or w.saved[-1] != (
                    'net.hdf5', [5.0 + i, 2.0]):
                return 'the file does not hold the current network'
        r.meth(h, 'load_network')
        return '' if w.loaded == ['net.hdf5'] else 'loads another file'
    what = 'SaveNetwork called three times'
    judge(rep, rule, what, guarded(rep, rule, what, lambda: r2.go(
        lambda r: attempt(lambda: save(r)))),
        loc(repo.lookup(r2.c, '__call__')[1]))
    r3 = Run(repo, 'InfoUpdater')

    def info(r):
        run = O('run')
        run.attrs['info'] = D()
        h = r.new(run)
        net = network()
        net.attrs['buffer'] = O('buffer')
        net.attrs['buffer'].attrs['parameters'] = make([1.0] * 7)
        r.meth(h, 'start', net, O('stepper'), False, D())
        for e, u in ((0, 0), (1, 4), (2, 8)):
            logs = D({'x': L([e])})
            r.meth(h, '__call__', e, u, net, O('stepper'), logs)
            got = run.attrs['info'].items
            if (got.get('epoch_nr'), got.get('update_nr')) != (e, u):
                return 'shows epoch %s and update %s at %s and %s' % (
                    got.get('epoch_nr'), got.get('update_nr'), e, u)
            if got.get('logs') is None or plain(got['logs']) != {'x': [e]}:
                return 'does not show the logs'
            if got.get('nr_parameters') != 7:
                return 'shows %s parameters' % got.get('nr_parameters')
        return ''
    what = 'InfoUpdater'
    judge(rep, rule, what, guarded(rep, rule, what, lambda: r3.go(
        lambda r: attempt(lambda: info(r)))),
        loc(repo.lookup(r3.c, '__call__')[1]))


def verbosity(repo, rep, rule):
    r = Run(repo, 'Hook')
    fn = repo.lookup(r.c, 'message')[1]
    for own in (None, True, False):
        for run in (True, False):
            def body(r):
                h = r.new('watcher', verbose=own)
                for _ in range(2):
                    r.meth(h, 'start', network(), O('stepper'), run, D())
                    del r.m.mon.said[:]
                    r.meth(h, 'message', 'something')
                    said = bool(r.m.mon.said)
                    want = run if own is None else own
                    if said != want:
                        return 'prints %s' % ('nothing' if want else
                                              'a message')
                return ''
            what = 'a hook with verbose=%s in training with verbose=%s' % (
                own, run)
            outs = guarded(rep, rule, what, lambda: r.go(
                lambda r: attempt(lambda: body(r))))
            judge(rep, rule, what, outs, loc(fn))


def p65(repo, rep, tier):
    b, s, e, f, v = 'best', 'statistics', 'evaluation', 'files', 'verbosity'
    rep.rule(b, 'SaveBestNetwork keeps the parameters of the moment with the '
             'best value so far, in memory or in the file, and gives them '
             'back')
    rep.rule(s, 'minimum, mean and maximum (and row norms of matrices) of '
             'every buffer of the named layer are logged under its name')
    rep.rule(e, 'MonitorLoss and MonitorScores evaluate the named iterator '
             'and log the result')
    rep.rule(f, 'files and info hold the current logs and network')
    rep.rule(v, 'a hook prints if its own setting or else that of the '
             'training says so')
    for c in ('SaveBestNetwork', 'SaveLogs', 'SaveNetwork', 'MonitorLoss',
              'MonitorScores', 'InfoUpdater', 'Hook') + tuple(MONITORS):
        rep.saw(*[x.qual for x in find_cls(repo, c).members.values()
                  if isinstance(x, Fn)])
    for fn, rule in ((best, b), (stats, s), (evaluation, e), (files, f),
                     (verbosity, v)):
        guarded(rep, rule, rule, lambda: fn(repo, rep, rule) or True)
