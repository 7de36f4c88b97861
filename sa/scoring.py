"""P80: losses and scores over a data set.  P81: extracted features."""
import itertools

from .arr import Arr
from .hooks import Fold, fold, guarded, np_funcs, plain, verdict
from .machine import (D, Ext, It, L, Machine, Meth, Monitor, O, PyExc,
                      Unsupported, Violation, model, down, tag)
from .prog import find_cls
from .arch import fn_of
from .repo import AnalysisBroken, Fn
from .training import AGGR, GATHER, arg, explore
from .valid import loc


class PassMonitor(Monitor):
    """one evaluation pass: provide, forward, gather for every batch"""

    def __init__(self, hook=None):
        self.hook = hook
        self.net, self.data = O('network'), O('the_iter')
        for x in (self.net, self.data):
            x.none, x.truth = False, True
        self.scorers = O('scorers')
        self.names = {k: O(k) for k in ('out_name', 'targets_name',
                                        'mask_name')}
        if hook:
            self.names = {'out_name': '', 'targets_name': 'targets',
                          'mask_name': ''}
        self.did = ()
        self.batch, self.scores, self.ended = None, None, False
        self.passes = 0

    def key(self, val):
        return (self.did, val(self.batch), val(self.scores), self.ended,
                self.passes)

    def opaque(self, fn):
        return fn.name in (GATHER, AGGR)

    def element(self, m, it):
        return O('batch' if it.batch else 'elem(%s)' % it.tag)

    def next(self, m, it, elem, node):
        if it.batch:
            if self.ended:
                raise Violation('the data is gone through twice', node)
            self.left(node)
            self.batch, self.did = elem, ()

    def left(self, node):
        if self.batch is not None and 'gathered' not in self.did:
            raise Violation('there is a batch whose losses and scores are '
                            'not gathered', node)

    def exhausted(self, m, it, node):
        if it.batch:
            self.left(node)
            self.ended = True

    def call(self, m, f, args, kw, node):
        if f is self.data:
            h = arg(args, kw, 0, 'handler')
            if not (isinstance(h, O) and h.parent is self.net
                    and h.name == 'handler'):
                raise Violation('the data is not iterated with the handler '
                                'of the network', node)
            it = It('any', self.data, 'batches')
            it.batch = True
            self.passes += 1
            return it
        if isinstance(f, Meth) and f.obj is self.net:
            if f.name == 'provide_external_data':
                if arg(args, kw, 0, 'data') is not self.batch:
                    raise Violation('data other than the current batch is '
                                    'provided', node)
                self.did = ('provided',)
                return None
            if f.name == 'forward_pass':
                if 'provided' not in self.did:
                    raise Violation('the forward pass runs before the batch '
                                    'is provided', node)
                self.did = ('forward', 'provided')
                return None
        if isinstance(f, Ext) and f.name == GATHER:
            if 'forward' not in self.did:
                raise Violation('scores are gathered before the forward '
                                'pass of the batch', node)
            if 'gathered' in self.did:
                raise Violation('scores of a batch are gathered twice', node)
            if arg(args, kw, 0, 'net') is not self.net or not self.given(
                    arg(args, kw, 1, 'scorers')):
                raise Violation('scores are gathered for something else than '
                                'the network and the scorers given', node)
            s = arg(args, kw, 2, 'scores')
            if self.scores is not None and s is not self.scores:
                raise Violation('scores are spread over several records',
                                node)
            self.scores = s
            for i, k in enumerate(('out_name', 'targets_name', 'mask_name')):
                a = arg(args, kw, 3 + i, k)
                if a is not self.names[k] and (
                        not self.hook or (a or self.names[k]) !=
                        self.names[k]):
                    raise Violation('%s is not passed on' % k, node)
            self.did = tuple(sorted(self.did + ('gathered',)))
            return None
        if isinstance(f, Ext) and f.name == AGGR:
            if not self.ended:
                raise Violation('scores are aggregated before the data is '
                                'at its end', node)
            if arg(args, kw, 1, 'net') is not self.net or not self.given(
                    arg(args, kw, 2, 'scorers')):
                raise Violation('scores are aggregated for something else '
                                'than the network and the scorers', node)
            r = O('aggregate')
            r.items['scores'] = arg(args, kw, 0, 'scores')
            return r
        return NotImplemented

    def given(self, x):
        if self.hook == 'MonitorLoss':
            return x in ((), None) or isinstance(x, L) and not x.items
        return x is self.scorers

    def end(self, m, how, val):
        if how == 'raise':
            return
        if not self.ended:
            raise Violation('the evaluation ends before the data does')
        if not (isinstance(val, O) and val.tag == 'aggregate' and (
                self.scores is None or val.items['scores'] is self.scores)):
            raise Violation('the result is not the aggregate of what was '
                            'gathered')


def evaluation(repo, rep, rule):
    fn = fn_of(repo, 'evaluate')

    def setup(m):
        mon = m.mon
        return [mon.net, mon.data], dict(mon.names, scorers=mon.scorers), None
    explore(repo, rep, rule, 'tools.evaluate', fn, PassMonitor, setup)
    for h in ('MonitorLoss', 'MonitorScores'):
        c = find_cls(repo, h)
        f = c and c.members.get('__call__')
        if not isinstance(f, Fn):
            rep.skip(rule, h, 'no __call__')
            continue

        def setup(m):
            hook = O('hook', c)
            hook.none, hook.truth = False, True
            hook.attrs['iter'] = m.mon.data
            if h == 'MonitorScores':
                hook.attrs['scorers'] = m.mon.scorers
            return [O('epoch_nr'), O('update_nr'), m.mon.net, O('stepper'),
                    O('logs')], {}, hook
        explore(repo, rep, rule, 'hooks.' + h, f, lambda: PassMonitor(h),
                setup)


# --------------------------------------------------------------- gather -----
def seq_arr(name, shape):
    n = 1
    for s in shape:
        n *= s
    return Arr(['%s%d' % (name, i) for i in range(n)], shape, tag=name)


def gathering(repo, rep, rule):
    fn = fn_of(repo, GATHER)
    T, B, F = 4, 3, 5
    cases = []
    for so, o, st, t, sm, mk in itertools.product(
            ('', 'so'), ('', 'o'), ('targets', 'st', ''), ('targets', 't'),
            ('', 'sm'), ('', None, 'mk')):
        cases.append((so, o, st, t, sm, mk))
    bad = 0
    for so, o, st, t, sm, mk in cases:
        def setup(m):
            net = O('net')
            bm = O('buffer_manager')
            bm.attrs['batch_size'] = B
            net.attrs['_buffer_manager'] = bm
            net.attrs['output_name'] = 'out'
            m.scores = D({'total_loss': L([(9, 'old')]), 'loss2': L(),
                          's1': L(), 's2': L()})
            ss = []
            for n in ('s1', 's2'):
                s = O('scorer')
                s.attrs.update(__name__=n, out_name=so, targets_name=st,
                               mask_name=sm)
                s.scorer = n
                s.truth, s.none = True, False
                ss.append(s)
            return [net, L(ss), m.scores], {
                'out_name': o, 'targets_name': t, 'mask_name': mk}, None

        def losses(m, f, a, k):
            return D({'total_loss': 'L1', 'loss2': 'L2'})

        def get(m, f, a, k):
            if tag(f.obj) == 'net':
                return seq_arr('out:%s;' % a[0], (T, B, F))
            return NotImplemented

        def get_in(m, f, a, k):
            n = 1 if a[0] in ('sm', 'mk') else F
            return seq_arr('in:%s;' % a[0], (T, B, n))

        def summed(m, f, a, k):
            x = f.obj if isinstance(f, Meth) else a[0]
            if isinstance(x, Arr) and x.tag and not (
                    a[1:] if isinstance(f, Ext) else a):
                return O('sum of %s' % x.tag)
            return NotImplemented

        def same(m, f, a, k):
            return a[0] if a and isinstance(a[0], O) else NotImplemented

        def score(m, f, a, k):
            x = [arg(a, k, i, n) for i, n in enumerate((
                'true_labels', 'predicted', 'mask'))]
            return O('score(%s)' % ', '.join(
                '%s%s' % (y.tag, list(y.shape)) if isinstance(y, Arr)
                else str(y) for y in x))

        def observe(m, how, v):
            return how, plain(m.scores)
        fs = dict(np_funcs(), get_loss_values=losses, get=get,
                  get_input=get_in, sum=summed, scorer=score,
                  **{'numpy.sum': summed, 'float': same, 'int': same})
        p, tl = so or o or 'out', st or t
        ml = sm or mk or None
        w = 'out %r/%r targets %r/%r mask %r/%r' % (so, o, st, t, sm, mk)
        e = 'score(in:%s;[12, 5], out:%s;[12, 5], %s)' % (
            tl, p, 'in:%s;[12, 1]' % ml if ml else None)
        wt = '<sum of in:%s;>' % ml if ml else 12
        want = ('return', {'total_loss': [(9, 'old'), (3, 'L1')],
                           'loss2': [(3, 'L2')],
                           's1': [(wt, '<%s>' % e)],
                           's2': [(wt, '<%s>' % e)]})
        outs = guarded(rep, rule, 'gather', lambda: fold(
            repo, fn, setup, fs, observe=observe))
        if outs is None:
            return
        outs = [(h, norm(d)) for h, d in outs]
        verdict(rep, rule, 'gather with ' + w, outs, want, loc(fn))


def norm(d):
    return {k: [tuple(x) if isinstance(x, list) else x for x in v]
            for k, v in d.items()}


SETS = [[(2, 1.0)], [(2, 1.0), (2, 3.0)], [(4, 1.0), (1, 3.5)],
        [(3, 0.0), (3, 0.0), (1, 7.0)], [(5, 2.0), (5, 1.0), (2, 4.0)]]


def close(a, b):
    return isinstance(a, (int, float)) and abs(a - b) < 1e-9


def aggregating(repo, rep, rule):
    fn = fn_of(repo, AGGR)
    base = find_cls(repo, 'Scorer')
    classes = [base] + list(repo.subclasses(base))
    for c in classes:
        for es in SETS:
            def setup(m):
                s = O('scorer', c)
                s.attrs['__name__'] = 's'
                net = O('net')
                sc = D({'total_loss': L(es), 'other': L(es[::-1]),
                        's': L(es)})
                return [sc, net, L([s])], {}, None

            def observe(m, how, v):
                if not isinstance(v, D):
                    return how, tag(v)
                wl = sum(w * x for w, x in es) / sum(w for w, x in es)
                ws = sum(x for w, x in es) / sum(w for w, x in es)
                want = {'total_loss': wl, 'other': wl, 's': ws}
                got = v.items
                return how, [k for k in sorted(set(got) | set(want)) if
                             k not in got or k not in want or not close(
                                 got[k], want[k])]
            fs = dict(np_funcs(), get_loss_values=lambda m, f, a, k: D(
                {'total_loss': 1.0, 'other': 2.0}))
            for k in list(fs):
                if k.startswith('numpy.'):
                    del fs[k]
            w = 'aggregate of %s with %s' % (es, c.name)
            outs = guarded(rep, rule, w, lambda: fold(
                repo, fn, setup, fs, observe=observe))
            if outs is None:
                return
            verdict(rep, rule, w, outs, ('return', []), loc(fn))


def ref_acc(t, p, m, thr):
    r = 0.0
    for i, row in enumerate(p):
        v = row.index(max(row)) if len(row) > 1 else row[0]
        r += (v == t[i][0]) * (m[i][0] if m else 1)
    return r


def ref_ham(t, p, m, thr):
    return sum(((p[i][j] >= thr) == bool(t[i][j])) * (m[i][0] if m else 1)
               for i in range(len(p)) for j in range(len(p[0]))) / len(t[0])


def ref_mse(t, p, m, thr):
    return 0.5 * sum((t[i][j] - p[i][j]) ** 2 * (m[i][0] if m else 1)
                     for i in range(len(p)) for j in range(len(p[0])))


SCORERS = {'Accuracy': ref_acc, 'Hamming': ref_ham,
           'MeanSquaredError': ref_mse}


def inputs(name):
    masks = [None, [[1.0], [1.0], [1.0]], [[1.0], [0.0], [1.0]],
             [[0.0], [0.0], [1.0]], [[0.5], [1.0], [0.25]]]
    if name == 'Accuracy':
        ps = [[[.1, .7, .2], [.5, .3, .2], [.1, .2, .7]],
              [[.1, .9], [.8, .2], [.4, .6]],
              [[1.0], [0.0], [2.0]]]
        ts = [[[1.0], [0.0], [2.0]], [[0.0], [0.0], [1.0]],
              [[2.0], [1.0], [0.0]]]
    elif name == 'Hamming':
        ps = [[[.1, .7], [.5, .3], [.9, .2]], [[.4], [.6], [.5]],
              [[.2, .49, .8], [.3, .51, .1], [.0, 1., .25]]]
        ts = [[[1., 0.], [0., 0.], [1., 1.]], [[0.], [1.], [1.]],
              [[0., 1., 1.], [1., 1., 0.], [0., 0., 1.]]]
        for p, t in zip(ps, ts):
            for m in masks:
                yield t, p, m
        return
    else:
        ps = [[[.1, .7], [.5, .3], [.9, -.2]], [[4.], [-6.], [5.]]]
        ts = [[[1., 0.], [0., 3.], [1., 1.]], [[0.], [1.], [5.]]]
        for p, t in zip(ps, ts):
            for m in masks:
                yield t, p, m
        return
    for p in ps:
        for t in ts:
            for m in masks:
                yield t, p, m


def scorers(repo, rep, rule):
    from .arr import make
    base = find_cls(repo, 'Scorer')
    for c in repo.subclasses(base):
        ref = SCORERS.get(c.name)
        f = c.members.get('__call__')
        if ref is None or not isinstance(f, Fn):
            rep.skip(rule, c.name, 'no reference for this scorer')
            continue
        for thr in ((0.5, 0.25) if c.name == 'Hamming' else (None,)):
            for t, p, m_ in inputs(c.name):
                def setup(m):
                    s = O('scorer', c)
                    if thr is not None:
                        s.attrs['threshold'] = thr
                    m.args = [make(t), make(p), make(m_) if m_ else None]
                    return list(m.args), {}, s

                def observe(m, how, v):
                    return how, close(v, ref(t, p, m_, thr)) or plain(v), [
                        x.nested() for x in m.args if x is not None] == [
                            x for x in (t, p, m_) if x is not None]
                fs = {}
                w = '%s%s of targets %s, outputs %s, mask %s' % (
                    c.name, '(%s)' % thr if thr else '', t, p, m_)
                outs = guarded(rep, rule, c.name, lambda: fold(
                    repo, f, setup, fs, observe=observe))
                if outs is None:
                    break
                verdict(rep, rule, w, outs, ('return', True, True), loc(f))


def p80(repo, rep, tier):
    ev, ga, ag, sc = 'evaluation', 'gather', 'aggregate', 'scorers'
    rep.rule(ev, 'every history of evaluate(): each batch is provided, run '
             'forward and gathered exactly once into one record, and the '
             'aggregate of that record is returned')
    rep.rule(ga, 'every batch adds, for every loss, (batch size, loss) and, '
             'for every scorer, (number of samples or sum of the mask, score '
             'of the flattened targets, outputs and mask) under its name')
    rep.rule(ag, 'losses aggregate to sum(weight * loss) / sum(weight), '
             'scores to sum(score) / sum(weight)')
    rep.rule(sc, 'a scorer gives the sum of its documented per-sample value '
             'times the mask')
    evaluation(repo, rep, ev)
    gathering(repo, rep, ga)
    aggregating(repo, rep, ag)
    scorers(repo, rep, sc)


# -------------------------------------------------------------- extract -----
class Dataset(O):
    pass


class ExtractMonitor(Fold):
    def __init__(self, sizes, T, out):
        Fold.__init__(self, {}, (), out)
        self.sizes, self.T = sizes, T
        self.cur, self.ran = None, None
        self.files = {}

    def setattr(self, m, obj, name, old, val, node):
        if isinstance(obj, Dataset) and isinstance(name, tuple):
            model(obj.arr.put, down(name[1]), down(val))

    def call(self, m, f, args, kw, node):
        if isinstance(f, O) and f.tag == 'the_iter':
            return It('seq', tuple(O('batch%d' % i) for i in range(
                len(self.sizes))))
        if isinstance(f, Meth) and tag(f.obj) == 'network':
            if f.name == 'provide_external_data':
                self.cur = int(tag(arg(args, kw, 0, 'data'))[5:])
                self.ran = None
                return None
            if f.name == 'forward_pass':
                self.ran = self.cur
                return None
            if f.name == 'get':
                return self.value(args[0])
        if isinstance(f, Ext) and f.name == 'h5py.File':
            return O('file', kind='dict')
        if isinstance(f, Meth) and tag(f.obj) == 'file' and f.name in (
                'create_dataset', 'require_dataset'):
            n = arg(args, kw, 0, 'name')
            d = Dataset('dataset', kind='dict')
            sh = arg(args, kw, 1, 'shape')
            dat = kw.get('data')
            if isinstance(dat, Arr):
                d.arr = dat.copy()
            else:
                d.arr = Arr([0.0] * size(sh), sh)
            d.attrs['shape'] = d.arr.shape
            if n in self.files:
                raise PyExc('RuntimeError')
            self.files[n] = d
            return d
        if isinstance(f, Meth) and isinstance(f.obj, Dataset) and \
                f.name == 'resize':
            d = f.obj
            a = arg(args, kw, 1, 'axis')
            s = arg(args, kw, 0, 'size')
            sh = list(d.arr.shape)
            if a is None:
                sh = list(s)
            else:
                sh[a] = s
            new = Arr([0.0] * size(sh), sh)
            k = tuple(slice(0, min(x, y)) for x, y in zip(sh, d.arr.shape))
            new.put(k, d.arr.get(k))
            d.arr = new
            d.attrs['shape'] = new.shape
            return None
        return NotImplemented

    def value(self, name):
        B = self.sizes[self.cur] if self.ran is not None else 1
        T = self.T[self.cur] if self.ran is not None else 1
        return Arr(['%s:%s:%d,%d,%d' % (
            name, 'batch%d' % self.ran if self.ran is not None else 'stale',
            t, b, k) for t in range(T) for b in range(B)
            for k in range(2)], (T, B, 2))


def size(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def whole(name, sizes, T):
    """every sample in order; zero after the end of its batch"""
    return [[['%s:batch%d:%d,%d,%d' % (name, i, t, b, k) if t < T[i] else 0
              for k in range(2)]
             for i, B in enumerate(sizes) for b in range(B)]
            for t in range(max(T))]


def complete(got, want):
    """equal up to further time steps that hold nothing"""
    return set(got) == set(want) and all(
        got[k][:len(want[k])] == want[k] and all(
            x == 0 for row in got[k][len(want[k]):] for c in row for x in c)
        for k in want)


def extraction(repo, rep, rule, fname_):
    fn = fn_of(repo, fname_)
    for sizes in ([3], [2, 2], [2, 2, 1], [1, 3, 2], [1, 1, 1, 1]):
        n = len(sizes)
        for T in {(1,) * n, (3,) * n, tuple(range(2, 2 + n)),
                  tuple(range(n, 0, -1)), (3, 1, 4, 2)[:n]}:
            for names in ('a', ['a'], ['a', 'b'], ['b', 'a', 'c']):
                outs = []

                def out(m, how, v):
                    want = {n: whole(n, sizes, T) for n in (
                        [names] if isinstance(names, str) else names)}
                    if how == 'raise':
                        outs.append('raises ' + v.name)
                        return
                    if fname_ == 'extract':
                        if not isinstance(v, D) or not all(
                                isinstance(x, Arr)
                                for x in v.items.values()):
                            raise Unsupported('result %s' % tag(v))
                        got = {k: x.nested() for k, x in v.items.items()}
                    else:
                        got = {k: x.arr.nested()
                               for k, x in m.mon.files.items()}
                    outs.append('complete' if complete(got, want) else 'differs in '
                                + ', '.join(k for k in sorted(
                                    set(got) | set(want)) if got.get(k) !=
                                    want.get(k)))

                def setup(m):
                    net, it = O('network'), O('the_iter')
                    net.none, it.none = False, False
                    it.attrs['data_shapes'] = D({
                        'default': (max(T) + 1, sum(sizes), 7)})
                    a = [net, it, L(names) if isinstance(names, list)
                         else names]
                    return a + (['file.hdf5'] if fname_ != 'extract'
                                else []), {}, None
                w = '%s of %s in batches of %s, %s steps' % (
                    fname_, names, sizes, T)
                m = Machine(repo, None, lambda: ExtractMonitor(
                    sizes, T, out), 500, True)
                if guarded(rep, rule, fname_, lambda: m.explore(
                        fn, setup)) is None:
                    return
                verdict(rep, rule, w, outs, 'complete', loc(fn))


def p81(repo, rep, tier):
    for n in ('extract', 'extract_and_save'):
        rep.rule(n, 'the provenance of every element of the result is the '
                 'requested buffer after the forward pass of the batch the '
                 'sample is in, samples in the order of the data, for a '
                 'table of batch sizes, sequence lengths and buffers')
        extraction(repo, rep, n, n)
