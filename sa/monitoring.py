"""P63: monitoring does not influence training."""
from .effects import Alias, changes
from .prog import find_cls, fname, run, run_fn
from .repo import AnalysisBroken, Fn
from .terms import is_const
from .valid import loc

NET = {'net', 'network'}
GUARDED = NET | {'stepper', 'logs', 'named_data_iters', 'monitor_kwargs',
                 'true_labels', 'predicted', 'mask', 'iter', 'scorers',
                 'errors'}
READS = {'get', 'get_input', 'get_loss_values', 'get_context', 'save_as_hdf5',
         'forward_pass', 'provide_external_data', '__repr__'}
PURE = {'get_numpy_copy', 'is_fully_finite', 'allocate', 'zeros', 'ones',
        'create_from_numpy'}
WRITTEN = {'fill': 0, 'set_from_numpy': 0, 'copy_to': 1, 'fill_gaussian': 2,
           'generate_probability_mask': 0, 'fill_if': 0, 'init': 0}


def subjects(repo):
    """(name, class or None, function)"""
    hook = find_cls(repo, 'Hook')
    for c in [hook] + list(repo.subclasses(hook)):
        for m in ('start', '__call__'):
            f = c.members.get(m)
            if isinstance(f, Fn):
                yield '%s.%s' % (c.name, m), c, f
    sc = find_cls(repo, 'Scorer')
    for c in [sc] + list(repo.subclasses(sc)):
        for m in ('__call__', 'aggregate'):
            f = c.members.get(m)
            if isinstance(f, Fn):
                yield '%s.%s' % (c.name, m), c, f
    for f in repo.functions():
        if f.cls is None and f.mod.name in (
                'brainstorm.tools', 'brainstorm.scorers') and '.' not in \
                f.qual[len(f.mod.name) + 1:] and not f.name.startswith('_') \
                and set(f.params()) & NET:
            yield f.name, None, f


def p63(repo, rep, tier):
    wr, md, st_ = 'no writes', 'evaluation mode', 'read only calls'
    rep.rule(wr, 'no path of a hook, scorer or evaluation helper changes the '
             'network, its buffers, the stepper, the logs or the arrays it '
             'is given in place')
    rep.rule(md, 'forward_pass is called without training_pass')
    rep.rule(st_, 'of the network only methods that leave parameters, '
             'gradients and modifiers alone are called, of the stepper none')
    net = find_cls(repo, 'Network')
    methods = {m for c in repo.mro(net) for m, f in c.members.items()
               if isinstance(f, Fn)}
    nfw = 0
    for name, c, fn in subjects(repo):
        rep.saw(name)
        try:
            if c is not None and fn.kind != 'staticmethod':
                I, st, ps, s = run(repo, c, fn.name, raw=True, opaque=opq)
            else:
                I, st, ps = run_fn(repo, fn, raw=True, opaque=opq)
        except AnalysisBroken:
            raise
        except Exception as e:
            rep.skip(wr, name, 'not analysable: %s' % e)
            continue
        ok_stepper = name.startswith('ModifyStepperAttribute')
        A = Alias(I, st)
        bad, calls_, modes = {}, {}, {}
        for p in ps:
            for t, e in changes(p):
                for r, names in A.own(p.s(t)):
                    if r.op != 'sym' or r.a[0] not in GUARDED:
                        continue
                    if r.a[0] == 'stepper' and ok_stepper:
                        continue
                    if r.a[0] in NET and not names and e.kind not in (
                            'setattr', 'delattr'):
                        continue       # the result of a getter is a copy
                    if 'copy()' in names:
                        continue
                    bad.setdefault(r.a[0], e)
            for e in p.events():
                if e.kind != 'call' or e.f.op != 'attr':
                    continue
                n = fname(e.f)
                roots = A.own(p.s(e.f.a[0]))
                rn = {r.a[0] for r, names in roots if r.op == 'sym'
                      and r.a[0] in NET and not names}
                if rn and p.s(e.f.a[0]).op == 'sym':
                    if n == 'forward_pass':
                        nfw += 1
                        a = e.args[0] if e.args else e.kw.get('training_pass')
                        if a is not None and not is_const(a, False):
                            modes.setdefault(n, e)
                        else:
                            rep.ok(md, name, e.where())
                    elif n in methods and n not in READS:
                        calls_.setdefault('net.' + n, e)
                if any(r.op == 'sym' and r.a[0] == 'stepper' and not names
                       for r, names in roots) and n in (
                           'run', 'start') and p.s(e.f.a[0]).op == 'sym':
                    calls_.setdefault('stepper.' + n, e)
                if any(r.op == 'sym' and r.a[0] in NET and names and
                       names[-1] == 'handler' for r, names in roots) and \
                        n not in PURE and e.args:
                    i = WRITTEN.get(n, len(e.args) - 1)
                    w = e.args[i] if i < len(e.args) else None
                    for r, names in (A.own(p.s(w)) if w is not None else ()):
                        if r.op == 'sym' and r.a[0] in NET and names:
                            bad.setdefault(r.a[0], e)
        for a in sorted(set(fn.params()) & GUARDED):
            e = bad.get(a)
            rep.check(e is None, wr, '%s(%s)' % (name, a),
                      'monitoring changes %s' % a,
                      e.where() if e else loc(fn))
        for k, e in sorted(modes.items()):
            rep.bad(md, name, 'runs the network in training mode', e.where())
        for k, e in sorted(calls_.items()):
            rep.bad(st_, '%s:%s' % (name, k), 'monitoring calls %s' % k,
                    e.where())
        rep.ok(st_, name, loc(fn))
    if not nfw:
        rep.skip(md, 'evaluation helpers', 'no forward pass found')


def opq(f):
    return f.cls is not None and f.cls.name in ('Network',) or f.name in (
        'get_brainstorm_info', 'progress_bar', 'create_net_from_spec')
