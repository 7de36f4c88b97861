"""P61: the protocol of the training loop."""
from .evalt import Eval
from .interp import Interp
from .machine import (Cnt, Ext, It, Machine, Meth, Monitor, O, Unsupported,
                      Violation)
from .prog import find_cls, flat, fname, live, nouid, run, source, Unknown
from .repo import AnalysisBroken, Fn
from .terms import V, const, subterms
from .valid import loc

EMIT, START, LOG = '_emit_hooks', '_start_hooks', '_add_log'
GATHER, AGGR = 'gather_losses_and_scores', 'aggregate_losses_and_scores'


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


class TrainMonitor(Monitor):
    """the protocol automaton of Trainer.train"""

    def __init__(self, net, data, data_iters=None):
        self.net, self.data = net, data
        self.E = self.U = 0
        self.started = self.hooks = False
        self.pre = {'update': None, 'epoch': None}
        self.mode = 'pre'
        self.stop = False
        self.batch = None
        self.did = ()
        self.scores = self.prev = None
        self.logged = False
        self.trainer = None
        self.it = None
        self.counts = {}

    def bump(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def inc(self, kind):
        return {'E': self.E, 'U': self.U}[kind]

    def key(self, val):
        return (self.started, self.hooks, tuple(sorted(self.pre.items())),
                self.mode, self.stop, val(self.batch), self.did,
                val(self.scores), val(self.prev), self.logged, val(self.it))

    def opaque(self, fn):
        return fn.name in (EMIT, START, LOG, GATHER, AGGR)

    def counters(self, node):
        for a, k, n, what in (('current_epoch_nr', 'E', self.E, 'epochs'),
                              ('current_update_nr', 'U', self.U, 'updates')):
            v = self.trainer.attrs.get(a)
            if not isinstance(v, Cnt) or v.kind != k:
                raise Violation('%s is replaced while training' % a, node)
            if v.n != n:
                raise Violation(
                    '%s is %+d off the number of %s done when the hooks are '
                    'called' % (a, v.n - n, what), node)

    # ------------------------------------------------------------- events --
    def call(self, m, f, args, kw, node):
        if isinstance(f, Meth):
            if f.obj is self.trainer:
                if f.name == EMIT:
                    return self.emit(m, args, kw, node)
                if f.name == START:
                    return self.start_hooks(m, args, kw, node)
                if f.name == LOG:
                    return self.log(m, args, kw, node)
            if f.obj is self.trainer.attrs.get('stepper'):
                if f.name == 'start':
                    if self.mode != 'pre':
                        raise Violation('the stepper is started again while '
                                        'training goes on', node)
                    if arg(args, kw, 0, 'net') is not self.net:
                        raise Violation('the stepper is not started with '
                                        'the network', node)
                    self.started = True
                    return None
                if f.name == 'run':
                    self.bump('step')
                    self.need('provided', 'a step is made before the batch '
                              'is provided to the network', node)
                    self.once('run', 'more than one step is made per batch',
                              node)
                    if not self.started:
                        raise Violation('the stepper is used before it is '
                                        'started', node)
                    return None
            if f.obj is self.net:
                if f.name == 'provide_external_data':
                    return self.provide(args, kw, node)
                if f.name == 'apply_weight_modifiers':
                    if self.mode == 'pass':
                        self.need('run', 'weight modifiers are applied '
                                  'before the update', node)
                        self.once('applied', '', node, False)
                    return None
            if f.obj is self.trainer and f.name == self.data.tag:
                pass
        if f is self.data:
            h = arg(args, kw, 0, 'handler')
            if not (isinstance(h, O) and h.parent is self.net
                    and h.name == 'handler'):
                raise Violation('the data is not iterated with the handler '
                                'of the network', node)
            it = It('any', self.data, 'batches')
            it.batch = True
            return it
        if isinstance(f, Ext) and f.name == GATHER:
            return self.gather(args, kw, node)
        if isinstance(f, Ext) and f.name == AGGR:
            r = O('aggregate')
            r.items['scores'] = arg(args, kw, 0, 'scores')
            if arg(args, kw, 1, 'net') is not self.net:
                raise Violation('aggregates for another network', node)
            return r
        return NotImplemented

    def need(self, what, msg, node):
        if self.mode != 'pass' or self.batch is None or \
                what not in self.did:
            raise Violation(msg, node)

    def once(self, what, msg, node, strict=True):
        if what in self.did and strict:
            raise Violation(msg, node)
        self.did = tuple(sorted(set(self.did) | {what}))

    def element(self, m, it):
        return O('batch' if it.batch else 'elem(%s)' % it.tag)

    def complete(self):
        return set(('provided', 'run', 'gathered', 'applied', 'emitted')
                   ) <= set(self.did)

    def next(self, m, it, elem, node):
        if not it.batch:
            return
        self.begin(it, node)
        if self.mode == 'pass' and self.batch is not None:
            if self.stop:
                raise Violation('training goes on with another batch after '
                                'a hook asked to stop', node)
            self.left(node)
        if self.mode != 'pass':
            raise Violation('batches are fetched after the end of the epoch',
                            node)
        self.U += 1
        self.batch, self.did = elem, ()
        self.bump('batch')

    def left(self, node):
        if not self.complete():
            d = [w for k, w in (
                ('provided', 'provided to the network'), ('run', 'used for '
                 'an update'), ('gathered', 'recorded in the scores'),
                ('applied', 'followed by the weight modifiers'),
                ('emitted', 'followed by the hooks of the update'))
                if k not in self.did]
            raise Violation('there is a batch that is not %s' % ', not '
                            .join(d), node)

    def begin(self, it, node):
        """a pass over the data begins with the first use of its iterator"""
        if it is self.it:
            return
        if self.mode == 'pre':
            if self.pre['update'] is None or (
                    self.pre['epoch'] is None):
                raise Violation('training starts without the monitoring '
                                'call before the first update', node)
            if any(self.pre.values()):
                raise Violation('training starts although a hook asked to '
                                'stop before the first update', node)
        elif self.mode == 'after':
            if self.stop:
                raise Violation('another epoch begins after a hook asked to '
                                'stop', node)
        else:
            raise Violation('an epoch begins before the last one was '
                            'finished', node)
        self.it = it
        self.mode, self.batch, self.did = 'pass', None, ()
        self.prev, self.scores = self.scores, None
        self.logged = False
        self.E += 1
        self.bump('epoch')

    def exhausted(self, m, it, node):
        if not it.batch:
            return
        self.begin(it, node)
        if self.batch is not None:
            self.left(node)
        self.mode = 'post'

    def finish(self):
        """the loop was left because of a stop request"""
        if self.mode == 'pass' and self.stop and self.complete():
            self.mode = 'post'

    def provide(self, args, kw, node):
        b = arg(args, kw, 0, 'data')
        if self.mode != 'pass' or b is not self.batch:
            raise Violation('data other than the current batch is provided',
                            node)
        if 'run' in self.did:
            raise Violation('the batch is provided after the update', node)
        a = arg(args, kw, 1, 'all_inputs', True)
        if a is not True:
            raise Violation('training does not insist on all inputs', node)
        self.once('provided', '', node, False)

    def gather(self, args, kw, node):
        self.need('run', 'losses and scores are gathered before the update '
                  'of the batch', node)
        self.once('gathered', 'the scores of a batch are gathered twice',
                  node)
        s = arg(args, kw, 2, 'scores')
        if arg(args, kw, 0, 'net') is not self.net or arg(
                args, kw, 1, 'scorers') is not self.trainer.attrs.get(
                    'train_scorers'):
            raise Violation('scores are not gathered for the network and '
                            'the training scorers', node)
        if self.scores is None:
            if s is self.prev:
                raise Violation('the scores of an epoch are mixed with '
                                'those of the one before', node)
            self.scores = s
        elif s is not self.scores:
            raise Violation('the scores of an epoch are spread over several '
                            'records', node)

    def emit(self, m, args, kw, node):
        ts = arg(args, kw, 1, 'timescale')
        if arg(args, kw, 0, 'net') is not self.net:
            raise Violation('hooks are not given the network', node)
        if ts not in ('epoch', 'update'):
            raise Unsupported('timescale %r' % (ts,))
        if arg(args, kw, 2, 'logs') not in (None, ):
            v = arg(args, kw, 2, 'logs')
            if v is not self.trainer.attrs.get('logs'):
                raise Violation('hook results are not logged in trainer.logs',
                                node)
        if not self.hooks:
            raise Violation('hooks are called before they are started', node)
        self.bump('emit ' + ts)
        if self.mode == 'pre':
            self.counters(node)
            if self.pre[ts] is not None:
                raise Violation('hooks are called twice before training',
                                node)
            r = bool(m.choose())
            self.pre[ts] = r
            return r
        if ts == 'update':
            if self.mode != 'pass' or self.batch is None:
                raise Violation('update hooks are called without an update',
                                node)
            if 'emitted' in self.did:
                raise Violation('update hooks are called twice per update',
                                node)
            self.did = tuple(sorted(set(self.did) | {'emitted'}))
            self.left(node)
            self.counters(node)
            r = bool(m.choose())
            if r:
                self.stop = True
            return r
        self.finish()
        if self.mode != 'post':
            raise Violation('epoch hooks are called although the epoch is '
                            'not finished', node)
        if not self.logged:
            raise Violation('epoch hooks are called before the losses of '
                            'the epoch are logged', node)
        self.counters(node)
        self.mode = 'after'
        r = bool(m.choose())
        if r:
            self.stop = True
        return r

    def start_hooks(self, m, args, kw, node):
        if self.mode != 'pre':
            raise Violation('hooks are started again while training', node)
        d = arg(args, kw, 1, 'named_data_iters')
        if arg(args, kw, 0, 'net') is not self.net:
            raise Violation('hooks are not started with the network', node)
        if not (isinstance(d, O) and d.items.get('training_data_iter')
                is self.data):
            raise Violation('hooks do not get the training data iterator',
                            node)
        self.hooks = True
        return None

    def log(self, m, args, kw, node):
        n = arg(args, kw, 0, 'name')
        v = arg(args, kw, 1, 'val')
        if n != 'rolling_training':
            return None
        self.finish()
        if self.mode != 'post':
            raise Violation('the losses of an epoch are logged before it is '
                            'finished or after its hooks', node)
        if self.logged:
            raise Violation('the losses of an epoch are logged twice', node)
        s = v.items.get('scores') if isinstance(v, O) and v.tag == \
            'aggregate' else None
        if s is None:
            raise Violation('what is logged is not the aggregate of the '
                            'epoch', node)
        if self.scores is not None and s is not self.scores or \
                s is self.prev and s is not None and self.prev is not None:
            raise Violation('the aggregate logged is not that of this epoch',
                            node)
        self.logged = True
        return None

    def end(self, m, how, val):
        node = None
        if how == 'raise':
            if val.name == 'StopIteration':
                raise Violation('a StopIteration escapes')
            return
        if self.mode == 'pre':
            if not any(self.pre.values()):
                raise Violation('training ends before it began although no '
                                'hook asked for it', node)
            return
        if not self.stop:
            raise Violation('training ends although no hook asked for it',
                            node)
        if self.mode != 'after':
            raise Violation('training ends without finishing the epoch: its '
                            'losses are not logged or its hooks not called',
                            node)


def explore(repo, rep, rule, what, fn, make, setup, limit=40000):
    I = Interp(repo, opaque=lambda f: True, raw=True)
    mons = []

    def mk():
        mons[:] = [make()]
        return mons[0]
    m = Machine(repo, I, mk, limit)
    try:
        bad = m.explore(fn, setup)
    except (Unsupported, RecursionError, AttributeError, KeyError, TypeError,
            IndexError) as e:
        rep.skip(rule, what, 'not explored: %s %s' % (type(e).__name__, e))
        return None
    msgs = {}
    for e in bad:
        msgs.setdefault(str(e), e)
    for s, e in sorted(msgs.items()):
        rep.bad(rule, '%s: %s' % (what, s), s, '%s:%s' % (
            fn.mod.path, getattr(e.node, 'lineno', fn.node.lineno)))
    if not bad:
        rep.ok(rule, '%s: %d states at loop heads, %d histories' % (
            what, m.states, m.runs), loc(fn))
    return m


def p61(repo, rep, tier):
    proto, prov = 'protocol', 'all inputs'
    rep.rule(proto, 'every history of train() - any number of epochs and '
             'batches, any stop request - is accepted by the protocol: '
             'stepper and hooks started, one monitoring call before the '
             'first update; per batch provide, step, scores, weight '
             'modifiers, update hooks; per epoch a fresh record, its '
             'aggregate logged, epoch hooks; counters exact at every hook '
             'call; ends exactly on a stop request')
    rep.rule(prov, 'provide_external_data sizes the network for the batch '
             'and copies every input; only with all_inputs=False may a '
             'missing one be left out')
    c = find_cls(repo, 'Trainer')
    ow, fn = repo.lookup(c, 'train')
    if not isinstance(fn, Fn):
        raise AnalysisBroken('Trainer.train not found')
    need = [EMIT, START, LOG]
    missing = [n for n in need if not isinstance(repo.lookup(c, n)[1], Fn)]
    if missing:
        rep.skip(proto, 'Trainer.train', 'no method %s' % ', '.join(missing))
    else:
        for verbose in (True, False):
            def setup(m, verbose=verbose):
                mon = m.mon
                t = O('trainer', c)
                t.attrs['verbose'] = verbose
                t.attrs['current_epoch_nr'] = Cnt('E', 0)
                t.attrs['current_update_nr'] = Cnt('U', 0)
                for a in ('stepper', 'hooks', 'train_scorers', 'logs',
                          'results'):
                    o = O('trainer.' + a, kind='dict' if a in (
                        'logs', 'results', 'hooks') else 'obj')
                    o.none, o.truth = False, (True if a == 'stepper'
                                              else None)
                    t.attrs[a] = o
                mon.trainer = t
                return [mon.net, mon.data], {'other': O('other_iter')}, t

            def make():
                n, d = O('net'), O('training_data_iter')
                for x in (n, d):
                    x.none, x.truth = False, True
                return TrainMonitor(n, d)
            explore(repo, rep, proto, 'Trainer.train(verbose=%s)' % verbose,
                    fn, make, setup)
    provided(repo, rep, prov)


def provided(repo, rep, rule):
    c = find_cls(repo, 'Network')
    ow, fn = repo.lookup(c, 'provide_external_data')
    if not isinstance(fn, Fn):
        raise AnalysisBroken('Network.provide_external_data not found')
    n = 0
    for every in (True, False):
        I, st, ps, s = run(repo, c, 'provide_external_data', raw=True,
                           opaque=lambda f: f.name in ('resize',),
                           args=[V('sym', 'data'), const(every)])
        for p in live(ps):
            n += sized(I, st, rep, rule, fn, p)
            for li in [x for x in p.items if hasattr(x, 'paths')]:
                if not inputs(source(I, st, li.node.it).base):
                    continue
                for q in li.paths:
                    n += copied(I, st, rep, rule, fn, q, every)
    if not n:
        rep.skip(rule, 'provide_external_data', 'no copy found')


def inputs(v):
    """a term that names the outputs of the Input layer"""
    return any(t.op == 'attr' and t.a[1] == 'outputs' and (
        t.a[0].op == 'attr' and t.a[0].a[1] == 'Input' or
        t.a[0].op == 'idx' and t.a[0].a[1] == const('Input'))
        for t in subterms(v))


def sized(I, st, rep, rule, fn, p):
    n = 0
    for i, e, ls in flat(p):
        if e.kind == 'call' and fname(e.f) == 'resize':
            env = {t: (7, 5, 3) for a in e.args for t in subterms(a)
                   if t.op == 'attr' and t.a[1] == 'shape'}
            env.update({t: k for a in e.args for t in subterms(a)
                        for k, f in ((7, 'time'), (5, 'batch'))
                        if t.op == 'sym' and f in str(t)})
            try:
                E = Eval(I, st, env)
                got = [E(a) for a in list(e.args) + [
                    e.kw[k] for k in ('time_size', 'batch_size')
                    if k in e.kw]]
            except Unknown:
                rep.skip(rule, 'provide_external_data:resize', str(e.args))
                continue
            n += 1
            rep.check(got == [7, 5], rule, 'provide_external_data:resize',
                      'the network is sized %s for data of shape (7, 5, ...)'
                      % (got,), e.where())
    if not n:
        rep.skip(rule, 'provide_external_data:resize', 'no resize found')
    return 0


def copied(I, st, rep, rule, fn, q, every):
    evs = [e for i, e, ls in flat(q) if e.kind == 'call'
           and fname(e.f) in ('copy_to', 'set_from_numpy')]
    if q.end == 'raise':
        return 0
    what = 'provide_external_data(all_inputs=%s)' % every
    if len(evs) == 1:
        e = evs[0]
        a = [e.kw.get(k) or (e.args[i] if i < len(e.args) else None)
             for i, k in enumerate(('src', 'dest') if fname(
                 e.f) == 'copy_to' else ('mem', 'arr'))]
        if None in a:
            rep.skip(rule, what, 'arguments of %s' % fname(e.f))
            return 1
        src, dst = a if fname(e.f) == 'copy_to' else a[::-1]
        ks = nouid(src), nouid(dst)
        good = all(k.op == 'idx' for k in ks) and ks[0].a[1] == ks[1].a[1] \
            and ks[0].a[0] == V('sym', 'data') and inputs(dst)
        if not good and not (inputs(dst) and inputs(src)) and not (
                ks[0].op == ks[1].op == 'idx'):
            rep.skip(rule, what, 'copies %s into %s' % (src, dst))
            return 1
        rep.check(good, rule, '%s:%s' % (what, fname(e.f)),
                  'copies %s into %s' % (src, dst), e.where())
        return 1
    if not evs:
        rep.check(not every, rule, what + ':skip', 'an input is not copied '
                  'although all inputs are asked for', loc(fn))
        return 1
    rep.skip(rule, what, 'several copies per input')
    return 1
