"""Values handed out are copies, values handed in stay as they are (P27)."""
from .effects import Alias, changes
from .handlers import backends
from .prog import find_cls, live, run, run_fn
from .repo import AnalysisBroken, Fn
from .terms import V, is_const
from .valid import loc

NETS = {'net', 'network', 'self'}
MEMORY = {'buffer', '_buffer_manager', 'buffers', 'views', 'full_buffer'}


def memory(A, v, depth=3):
    """why v is, or contains, memory of a network (or None), and unknowns"""
    odd = set()
    for el in range(depth + 1):
        for r, names in A.own(v, el):
            if set(names) & {'batch_size', 'time_size'}:
                continue
            if names and set(names) & MEMORY:
                return '%s.%s' % (r, '.'.join(reversed(names))), odd
            if '?' in names:
                odd.add(r)
    return None, odd


def getters(repo, rep):
    net = find_cls(repo, 'Network')
    for name in ('get', 'get_input', 'get_loss_values'):
        if repo.lookup(net, name) is None:
            continue
        ow, fn = repo.lookup(net, name)
        rep.saw('Network.' + name)
        I, st, ps, s = run(repo, net, name, raw=True)
        A = Alias(I, st)
        n = 0
        for p in live(ps):
            v = p.s(p.val)
            bad, odd = memory(A, v)
            if bad is None and odd:
                rep.skip('copy-out', 'result of Network.' + name,
                         str(list(odd)[0])[:80])
                continue
            n += 1
            rep.check(bad is None, 'copy-out', 'result of Network.' + name,
                      'is memory of the network itself: %s' % bad, loc(fn))
    rep.need('copy-out', 3, 'getter results')
    base, classes = backends(repo)
    for c in classes:
        got = repo.lookup(c, 'get_numpy_copy')
        if got is None or not isinstance(got[1], Fn):
            raise AnalysisBroken('%s has no get_numpy_copy' % c.name)
        fn = got[1]
        gpu = 'cuda' in c.name.lower()
        I, st, ps, s = run(repo, c, 'get_numpy_copy', raw=True)
        A = Alias(I, st, fresh=('get',) if gpu else ())
        mem = fn.params()[1]
        rep.saw('%s.get_numpy_copy' % c.name)
        for p in live(ps):
            v = p.s(p.val)
            own = A.own(v)
            mine = [r for r, n in own if r is V('sym', mem)]
            if not mine and own:
                rep.skip('copy-out', '%s.get_numpy_copy' % c.name, str(v))
                continue
            rep.check(not mine and v.op != 'const', 'copy-out',
                      'result of %s.get_numpy_copy' % c.name,
                      'is %s, not a copy' % v, loc(fn))
    mgr = find_cls(repo, 'BufferManager')
    ow, fn = repo.lookup(mgr, 'get_context')
    rep.saw('BufferManager.get_context')
    I, st, ps, s = run(repo, mgr, 'get_context', raw=True)
    A = Alias(I, st)
    for p in live(ps):
        bad, odd = memory(A, p.s(p.val))
        rep.check(bad is None, 'copy-out', 'context handed out',
                  'is memory of the network itself: %s' % bad, loc(fn))


def kept(repo, rep):
    """what hooks, scorers and tools keep or return"""
    base = find_cls(repo, 'Hook')
    todo = []
    for c in repo.subclasses(base):
        for m in ('start', '__call__'):
            got = repo.lookup(c, m)
            if got and isinstance(got[1], Fn):
                todo.append((c, m, got[1]))
    for c in repo.subclasses(find_cls(repo, 'Scorer')):
        got = repo.lookup(c, '__call__')
        if got and isinstance(got[1], Fn):
            todo.append((c, '__call__', got[1]))
    for fn in repo.functions():
        if fn.cls is None and fn.mod.name.endswith(
                ('.tools', '.scorers')) and {'net', 'network'} & set(
                    fn.params()):
            todo.append((None, fn.name, fn))
    n = 0
    for c, m, fn in todo:
        name = (c.name + '.' if c else '') + m
        try:
            if c:
                I, st, ps, s = run(repo, c, m, raw=True)
            else:
                I, st, ps = run_fn(repo, fn, raw=True)
                s = None
        except Exception as e:
            if isinstance(e, AnalysisBroken):
                raise
            rep.skip('kept', name, 'not analysable: %s' % e)
            continue
        rep.saw(name)
        A = Alias(I, st)
        for p in ps:
            vals = []
            if p.end == 'ret':
                vals.append(('what %s returns' % name, p.val, loc(fn)))
            for e in p.events():
                if e.kind == 'setattr' and s is not None and e.obj is s:
                    vals.append(('%s.%s' % (c.name, e.name), e.val,
                                 e.where()))
                elif e.kind == 'setitem':
                    vals.append(('entry stored by %s' % name, e.val,
                                 e.where()))
                elif e.kind in ('call', 'mut') and e.f.op == 'attr' and \
                        e.f.a[1] in ('append', 'insert', 'extend', 'update',
                                     'setdefault', 'add'):
                    for x in e.args:
                        vals.append(('entry stored by %s' % name, x,
                                     e.where()))
                elif e.kind == 'yield':
                    vals.append(('what %s yields' % name, e.val, e.where()))
            for what, v, where in vals:
                v = p.s(v)
                bad, odd = memory(A, v)
                n += 1
                rep.check(bad is None, 'kept', what, 'is memory of the '
                          'network itself: %s' % bad, where)
    rep.need('kept', 20, 'values kept by hooks and tools')


ENTRY = [('Network', 'initialize', ('default_or_init_dict',)),
         ('Network', 'set_weight_modifiers', ('default_or_mod_dict',)),
         ('Network', 'set_gradient_modifiers', ('default_or_mod_dict',)),
         ('Network', 'from_architecture', ('architecture',)),
         ('Network', 'provide_external_data', ('data',)),
         ('Network', 'forward_pass', ('context',)),
         ('BufferManager', 'apply_context', ('context',)),
         ('Trainer', 'train', ('training_data_iter',)),
         ('Describable', '__new_from_description__', ('description',)),
         ('Network', '__new_from_description__', ('description',)),
         (None, 'instantiate_layers_from_architecture', ('architecture',)),
         (None, 'generate_architecture', ('some_layer',)),
         (None, 'validate_architecture', ('architecture',)),
         (None, 'create_from_description', ('description',)),
         (None, 'get_description', ('this',)),
         (None, 'evaluate', ('scorers',)),
         (None, 'extract', ('buffer_names',)),
         (None, 'extract_and_save', ('buffer_names',)),
         (None, 'resolve_references', ('structure', 'references')),
         (None, 'order_and_copy_modifiers', ('view_refs',)),
         (None, 'evaluate_initializer', ('shape',))]


def arguments(repo, rep):
    todo = []
    for c, m, ps in ENTRY:
        if c:
            cls = find_cls(repo, c)
            got = repo.lookup(cls, m)
            fn = got and got[1]
        else:
            cls = None
            fs = [f for f in repo.functions() if f.name == m and
                  f.cls is None]
            fn = fs[0] if fs else None
        if fn is None:
            rep.skip('arguments', m, 'not found')
            continue
        todo.append((cls, m, fn, set(ps)))
    for c in repo.subclasses(find_cls(repo, 'Describable')):
        m = c.members.get('__init__')
        if isinstance(m, Fn) and c.name != 'Network':
            todo.append((c, '__init__', m, set(m.params()[1:])))
        for n in ('__init_from_description__', '__new_from_description__'):
            m = c.members.get(n)
            if isinstance(m, Fn) and c.name != 'Network':
                todo.append((c, n, m, set(m.params()[1:])))
    for cls, m, fn, params in todo:
        name = (cls.name + '.' if cls else '') + m
        try:
            if cls:
                # what a recreated object calls is judged on its own
                I, st, ps, s = run(repo, cls, m, raw=True, opaque=(
                    lambda f: f.cls is not None or f.name ==
                    'create_from_description') if 'description' in m
                    else None)
            else:
                I, st, ps = run_fn(repo, fn, raw=True)
        except AnalysisBroken:
            raise
        except Exception as e:
            rep.skip('arguments', name, 'not analysable: %s' % e)
            continue
        if not params & set(fn.params()):
            if m != '__init__':
                rep.skip('arguments', name, 'parameters renamed')
            params = set(fn.params()[1:]) - {'handler', 'net', 'network'}
        rep.saw(name)
        A = Alias(I, st)
        bad = {}
        for p in ps:
            for t, e in changes(p):
                if e.kind == 'aug' and not e.val.op == 'ref':
                    # rebinding a number; arrays are covered by P72
                    continue
                for r, names in A.own(p.s(t)):
                    if r.op == 'sym' and r.a[0] in params and \
                            'rnd' not in names and 'copy()' not in names:
                        bad.setdefault(r.a[0], e)
        for a in sorted(params & set(fn.params())):
            e = bad.get(a)
            rep.check(e is None, 'arguments', '%s(%s)' % (name, a),
                      'changes what the caller passed in', e.where() if e
                      else loc(fn))


def modifiers(repo, rep):
    fs = [f for f in repo.functions() if f.name == 'order_and_copy_modifiers']
    if not fs:
        raise AnalysisBroken('order_and_copy_modifiers not found')
    fn = fs[0]
    rep.saw(fn.qual)
    I, st, ps = run_fn(repo, fn, raw=True)
    A = Alias(I, st)
    src = V('sym', fn.params()[0])
    for p in live(ps):
        v = p.s(p.val)
        shared = None
        for el in range(1, 5):
            for r, n in A.own(v, el):
                if r is src:
                    shared = n
        rep.check(shared is None, 'modifiers', 'installed modifiers',
                  'are, or share state with, the objects of the caller',
                  loc(fn))
    net = find_cls(repo, 'Network')
    for m in ('set_weight_modifiers', 'set_gradient_modifiers'):
        ow, f = repo.lookup(net, m)
        I, st, ps, s = run(repo, net, m, raw=True)
        A = Alias(I, st)
        rep.saw('Network.' + m)
        arg = V('sym', f.params()[1])
        n = 0
        for p in live(ps):
            for e in p.events():
                if e.kind == 'setattr' and e.obj is s and e.name.endswith(
                        '_modifiers'):
                    n += 1
                    sh = any(r is arg for el in range(0, 5) for r, _ in
                             A.own(p.s(e.val), el))
                    rep.check(not sh, 'modifiers', 'Network.%s set by %s' % (
                        e.name, m), 'shares objects with the caller',
                        e.where())
    rep.need('modifiers', 3, 'installed modifiers')


def p27(repo, rep, tier):
    rep.rule('copy-out', 'what Network and handlers hand out is freshly '
             'allocated, never the memory of the network')
    rep.rule('kept', 'hooks, scorers and tools keep and return copies or '
             'numbers, never memory of the network')
    rep.rule('arguments', 'no set-up or run call changes the containers or '
             'objects the caller passed in')
    rep.rule('modifiers', 'installed modifiers are deep copies')
    getters(repo, rep)
    kept(repo, rep)
    arguments(repo, rep)
    modifiers(repo, rep)
