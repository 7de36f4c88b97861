"""Static model of the layer implementations.

Every subclass of Layer is analysed through its own source: ``__init__`` (and
through it ``setup``) is interpreted abstractly to learn which buffers the
layer declares, then ``forward_pass`` and ``backward_pass`` are interpreted on
abstract buffers; every handler operation becomes an event whose arguments
are resolved to (buffer, time region).
"""
from .interp import (Block, Ev, If, Inl, Interp, Loop, State, Try, With,
                     norm_cond, oneof, walk)
from .lin import K, Lin, T
from .opspec import ACTS, OPS
from .repo import AnalysisBroken, Fn
from .terms import (ABSENT, FALSE, NONE, TRUE, V, const, cval, fresh,
                    is_const, show, subterms)

CATS = ('parameters', 'inputs', 'outputs', 'internals', 'gradients',
        'input_deltas', 'output_deltas')
VIEW_METHODS = ('reshape', 'ravel', 'squeeze', 'view', 'transpose',
                'swapaxes')


class BufInfo(object):
    def __init__(self, cat, name, ctx=0, time=None, backward_only=False,
                 optional=None, struct=None):
        self.cat, self.name, self.ctx, self.time = cat, name, ctx, time
        self.backward_only, self.optional = backward_only, optional
        self.struct = struct


class LayerInterp(Interp):
    """Interp with abstract buffer views and handler operations."""

    def __init__(self, repo, model=None, act=None):
        Interp.__init__(self, repo)
        self.model = model
        self.act = act
        self.hop_unknown = []
        self.hbase = repo.find_class('Handler')
        self.tables = {}

    # buffer views ---------------------------------------------------------
    def getattr(self, b, name, fr, cont, node):
        if b is BUFFERS:
            if name in CATS:
                return V('bview', name)
            return V('attr', b, name)
        if b.op == 'bview':
            if name in self.model.bufs[b.a[0]]:
                return V('buf', b.a[0], name)
            if name in ('items', 'keys', 'values'):
                return V('attr', b, name)
            if name == '_asdict':
                return V('attr', b, name)
            return V('badbuf', b.a[0], name)
        return Interp.getattr(self, b, name, fr, cont, node)

    def index(self, b, i, fr, cont, node):
        if b is BUFFERS and is_const(i):
            return self.getattr(b, cval(i), fr, cont, node)
        if b.op == 'bview' and is_const(i):
            k = cval(i)
            names = list(self.model.bufs[b.a[0]])
            if isinstance(k, int) and -len(names) <= k < len(names):
                return V('buf', b.a[0], names[k])
            if k in names:
                return V('buf', b.a[0], k)
            return V('badbuf', b.a[0], k)
        # handler activation tables with a configured (symbolic) key
        if self.act is not None and b.op == 'ref' and not is_const(i):
            o = self.obj(cont.st, b)
            if o is not None and o.kind == 'dict' and \
                    const(self.act) in o.items and b in self.tables:
                return o.items[const(self.act)]
        return Interp.index(self, b, i, fr, cont, node)

    def concrete_seq(self, v, st, dict_keys=True):
        if v.op == 'bview':
            return [V('buf', v.a[0], n) for n in self.model.bufs[v.a[0]]]
        if v.op == 'call' and v.a[0].op == 'attr' and \
                v.a[0].a[0].op == 'bview':
            cat = v.a[0].a[0].a[0]
            names = list(self.model.bufs[cat])
            m = v.a[0].a[1]
            if m == 'items':
                return [V('tuple', (const(n), V('buf', cat, n)))
                        for n in names]
            if m == 'keys':
                return [const(n) for n in names]
            if m == 'values':
                return [V('buf', cat, n) for n in names]
        return Interp.concrete_seq(self, v, st, dict_keys)

    def compare(self, op, a, b, st):
        if op in ('in', 'not in') and b.op == 'bview' and is_const(a):
            return const((cval(a) in self.model.bufs[b.a[0]]) ==
                         (op == 'in'))
        return Interp.compare(self, op, a, b, st)

    # handler operations -----------------------------------------------------
    def call_fn(self, fn, args, kwargs, self_v, fr, cont, node, force=False):
        if self.model is not None and self_v is self.model.handler and \
                fn.cls is not None and fn.name not in ('__init__',) and \
                self.repo.issub(fn.cls, self.hbase):
            return self.hop(fn, args, kwargs, fr, cont, node)
        return Interp.call_fn(self, fn, args, kwargs, self_v, fr, cont, node,
                              force)

    def opaque_call(self, f, args, kwargs, fr, cont, node, pure=None):
        if self.model is not None and f.op == 'attr' and \
                f.a[0] is self.model.handler:
            return self.hop(f.a[1], args, kwargs, fr, cont, node)
        return Interp.opaque_call(self, f, args, kwargs, fr, cont, node,
                                  pure)

    def hop(self, fn, args, kwargs, fr, cont, node):
        name = fn if not isinstance(fn, Fn) else fn.name
        sig = self.model.signature(name)
        bound = {}
        problem = None
        if sig is None:
            problem = 'unknown'
            bound = {'#%d' % i: a for i, a in enumerate(args)}
            bound.update(kwargs)
        else:
            params, nreq = sig
            for i, a in enumerate(args):
                if i < len(params):
                    bound[params[i]] = a
                else:
                    problem = 'too many arguments'
            for k, v in kwargs.items():
                if k == '**':
                    problem = 'starred'
                elif k not in params:
                    problem = 'unexpected keyword %s' % k
                elif k in bound:
                    problem = 'duplicate argument %s' % k
                else:
                    bound[k] = v
            for p in params[:nreq]:
                if p not in bound:
                    problem = 'missing argument %s' % p
        spec = OPS.get(name)
        res = NONE
        if spec is not None and 'alloc' in spec[2]:
            res = V('tmp', fresh(), name,
                    bound.get('shape', bound.get('arr', NONE)))
        elif name == 'is_fully_finite':
            res = V('sym', 'finite%d' % fresh())
        self.emit(fr, cont, 'hop', node, op=name, b=bound, res=res,
                  problem=problem)
        return res


BUFFERS = V('sym', 'buffers')


def const_attr(interp, st, ref, name):
    o = interp.obj(st, ref)
    return o.attrs.get(name) if o is not None else None


class LayerModel(object):
    """Static facts of one layer class."""

    def __init__(self, repo, cls):
        self.repo, self.cls = repo, cls
        self.handler = None
        self.sigs = {}
        self.hcls = repo.find_class('Handler')
        self._np = repo.find_class('NumpyHandler', required=False)
        self.setup()
        self._runs = {}

    # -- handler signatures: base interface, else the numpy backend ---------
    def signature(self, name):
        if name not in self.sigs:
            o, m = self.repo.lookup(self.hcls, name)
            if not isinstance(m, Fn) and self._np is not None:
                o, m = self.repo.lookup(self._np, name)
            if not isinstance(m, Fn):
                self.sigs[name] = None
            else:
                ps = m.params()[1:]
                self.sigs[name] = (ps, len(ps) - len(m.node.args.defaults))
        return self.sigs[name]

    def make_handler(self, I, st):
        h = I.new(st, 'obj', self.hcls)
        self.handler = None
        own, init = self.repo.lookup(self.hcls, '__init__')
        if isinstance(init, Fn):
            v, st, _ = I.run(init, [], st, h)
        self.handler = h
        for k, v in I.obj(st, h).attrs.items():
            o = I.obj(st, v)
            if o is not None and o.kind == 'dict':
                I.tables[v] = k
        return st

    def setup(self):
        repo, cls = self.repo, self.cls
        I = LayerInterp(repo, None)
        st = State()
        I.model = None
        # inputs declared by the class
        own, exp = repo.lookup(cls, 'expected_inputs')
        self.input_names = []
        bs = repo.find_class('BufferStructure')
        ins = I.new(st, 'dict')
        if exp is not None:
            ev = I.classattr(own, 'expected_inputs', exp)
            o = I.obj(st, ev)
            if o is not None and o.kind == 'dict':
                for k in o.items:
                    if is_const(k):
                        self.input_names.append(cval(k))
        self.input_names.sort()
        self.in_struct = {}
        for n in self.input_names:
            s = I.instance(st, bs, shape=V('sym', 'inshape_' + n),
                           context_size=const(0),
                           is_backward_only=FALSE,
                           buffer_type=V('sym', 'btype_' + n),
                           first_feature_dim=V('sym', 'ffd_' + n))
            self.in_struct[n] = s
            I.obj(st, ins).items[const(n)] = s
        self_v = I.instance(st, cls)
        init = I.method(cls, '__init__')
        v, st, blk = I.run(init, [V('sym', 'layer_name'), ins,
                                  V('sym', 'incoming'), V('sym', 'outgoing')],
                           st, self_v, {'**': V('sym', 'kwargs')})
        self.init_blk = blk
        self.state, self.self_v, self.setup_interp = st, self_v, I
        obj = I.obj(st, self_v)
        self.bufs = {c: {} for c in CATS}
        self.attrs = dict(obj.attrs)
        for cat, attr in (('inputs', 'in_shapes'), ('outputs', 'out_shapes'),
                          ('parameters', 'parameter_shapes'),
                          ('internals', 'internal_shapes')):
            d = obj.attrs.get(attr)
            if d is None:
                raise AnalysisBroken('%s: %s not set by __init__' %
                                     (cls.qual, attr))
            self.read_structs(I, st, cat, d)
        for n, b in self.bufs['parameters'].items():
            self.bufs['gradients'][n] = BufInfo('gradients', n, b.ctx, b.time)
        for n, b in self.bufs['inputs'].items():
            self.bufs['input_deltas'][n] = BufInfo('input_deltas', n, 0,
                                                   b.time)
        for n, b in self.bufs['outputs'].items():
            self.bufs['output_deltas'][n] = BufInfo('output_deltas', n,
                                                    b.ctx, b.time)
        for attr in ('computes_no_input_deltas_for',
                     'computes_no_gradients_for',
                     'takes_no_output_deltas_from'):
            own, m = repo.lookup(cls, attr)
            vals = set()
            v = obj.attrs.get(attr)
            if v is None and m is not None:
                v = I.classattr(own, attr, m)
            if v is not None:
                seq = I.concrete_seq(v, st)
                if seq is not None:
                    vals = {cval(x) for x in seq if is_const(x)}
                elif v.op == 'const' and isinstance(cval(v), str):
                    vals = set(cval(v))
            setattr(self, attr, vals)

    def read_structs(self, I, st, cat, d):
        o = I.obj(st, d)
        self.open_cats = getattr(self, 'open_cats', set())
        if o is None or o.kind != 'dict':
            self.open_cats.add(cat)
            return
        if o.more is not None or any(not is_const(k) for k in o.items):
            self.open_cats.add(cat)
        for k, v in o.items.items():
            if not is_const(k) or v is ABSENT:
                continue
            alts = [v]
            opt = None
            if v.op == 'phi':
                opt = v.a[0]
                alts = [x for x in v.a[1:] if x is not ABSENT]
                if v.a[1] is ABSENT:
                    opt = V('not', opt)
            elif v.op == 'oneof':
                alts = [x for x in v.a[0] if x is not ABSENT]
                opt = V('sym', 'maybe')
            b = BufInfo(cat, cval(k), optional=opt, struct=alts[0])
            so = I.obj(st, alts[0])
            if so is not None and so.kind == 'obj':
                c = so.attrs.get('context_size')
                b.ctx = cval(c) if is_const(c) and isinstance(
                    cval(c), int) else None
                bo = so.attrs.get('is_backward_only')
                b.backward_only = is_const(bo, True)
                sh = so.attrs.get('shape')
                if sh is not None and sh.op == 'tuple':
                    b.time = const('T') in sh.a[0][:1]
                elif alts[0] in self.in_struct.values():
                    b.time = 'in'
                    for n, s in self.in_struct.items():
                        if s is alts[0]:
                            b.time = 'in:' + n
                elif sh is not None and sh.op in ('bin', 'call'):
                    b.time = None
            self.bufs[cat][cval(k)] = b

    # -- passes ------------------------------------------------------------
    def run(self, meth, act=None, training=None):
        key = (meth, act, training)
        if key in self._runs:
            return self._runs[key]
        I = LayerInterp(self.repo, self, act)
        st = self.state.copy()
        I.hid = self.setup_interp.hid
        I.modst = self.setup_interp.modst
        I.modcache = self.setup_interp.modcache
        I.fid = self.setup_interp.fid
        I.captured = set(self.setup_interp.captured)
        I.frame_parent = dict(self.setup_interp.frame_parent)
        st = self.make_handler(I, st)
        sv = self.self_v
        # the handler is installed by set_handler
        fn = I.method(self.cls, 'set_handler')
        v, st, hb = I.run(fn, [self.handler], st, sv)
        fn = I.method(self.cls, meth)
        args = [BUFFERS]
        if meth == 'forward_pass' and training is not None:
            args.append(const(training))
        elif meth == 'forward_pass':
            args.append(V('sym', 'training_pass'))
        v, st2, blk = I.run(fn, args, st, sv)
        r = Pass(self, meth, I, st2, blk, fn)
        r.handler = self.handler
        r.tables = {n: I.obj(st, ref) for ref, n in I.tables.items()}
        self._runs[key] = r
        return r

    def uses_act(self):
        """Does any pass index the activation tables with a configured
        key?"""
        for m in ('forward_pass', 'backward_pass'):
            r = self.run(m)
            for e, g, i in walk(r.blk):
                if e.kind == 'hop':
                    for gg in g:
                        if gg[0] == 'if' and gg[1].op == 'choice':
                            return True
        return False

    def acts(self):
        if not hasattr(self, '_acts'):
            self._acts = list(ACTS) if self.uses_act() else [None]
        return self._acts


class Pass(object):
    def __init__(self, model, meth, interp, st, blk, fn):
        self.m, self.meth, self.I, self.st, self.blk, self.fn = (
            model, meth, interp, st, blk, fn)
        self.loops = {}
        self._collect(blk)

    def _collect(self, blk):
        for n in blk:
            if isinstance(n, Loop):
                self.loops[n.uid] = n
                self._collect(n.body)
                if n.orelse:
                    self._collect(n.orelse)
            elif isinstance(n, If):
                self._collect(n.a)
                self._collect(n.b)
            elif isinstance(n, Inl):
                self._collect(n.body)
            elif isinstance(n, With):
                self._collect(n.body)
            elif isinstance(n, Try):
                self._collect(n.body)
                for t, b in n.handlers:
                    self._collect(b)
                self._collect(n.final)

    # -- regions ------------------------------------------------------------
    def info(self, root):
        if root.op == 'buf':
            return self.m.bufs[root.a[0]].get(root.a[1])
        return None

    def length(self, root):
        """time length (Lin) of a root or None when not time scaled /
        unknown"""
        if root.op == 'buf':
            i = self.info(root)
            if i is None or i.ctx is None:
                return None
            if i.time is False:
                return None
            return T + i.ctx
        if root.op == 'tmp':
            sh = root.a[2]
            if sh.op == 'attr' and sh.a[1] == 'shape':
                r = self.region(sh.a[0])
                if r is not None and r.kind in ('all', 'r'):
                    return self.rlen(r)
        return None

    def flat_tmp(self, root):
        if root.op != 'tmp':
            return False
        sh = root.a[2]
        if sh.op == 'attr' and sh.a[1] == 'shape':
            r = self.region(sh.a[0])
            return r is not None and r.flat
        return False

    def rlen(self, r):
        if r.kind == 'all':
            return self.length(r.root)
        if r.kind == 'r':
            return r.hi - r.lo
        return None

    def region(self, v):
        """-> Region or None when v is not an array of the pass."""
        op = v.op
        if op in ('buf', 'tmp'):
            return Region(v, 'all')
        if op == 'badbuf':
            return Region(v, 'all')
        if op == 'idx':
            base = self.region(v.a[0])
            if base is None:
                return None
            return self.sub(base, v.a[1])
        if op == 'call' and v.a[0].op == 'attr' and \
                v.a[0].a[1] in VIEW_METHODS:
            base = self.region(v.a[0].a[0])
            if base is None:
                return None
            return Region(base.root, base.kind, base.lo, base.hi, True)
        if op == 'attr' and v.a[1] == 'T':
            base = self.region(v.a[0])
            if base is None:
                return None
            return Region(base.root, base.kind, base.lo, base.hi, True)
        return None

    def sub(self, base, i):
        if i.op == 'tuple' and i.a[0]:
            r = self.sub(base, i.a[0][0])
            rest = i.a[0][1:]
            if all(x.op == 'slice' and all(is_const(y, None) for y in x.a)
                   for x in rest):
                return r
            return Region(base.root, 'part')
        if i.op == 'slice' and all(is_const(x, None) for x in i.a):
            return base
        if base.flat or base.kind in ('t', 'part') or \
                self.flat_tmp(base.root):
            return Region(base.root, 'part')
        L = self.rlen(base)
        if L is None:
            return Region(base.root, 'part')
        off = base.lo if base.kind == 'r' else K(0)
        if i.op == 'slice':
            if not is_const(i.a[2], None, 1):
                return Region(base.root, 'part')
            lo = K(0) if is_const(i.a[0], None) else self.lin(i.a[0])
            hi = L if is_const(i.a[1], None) else self.lin(i.a[1])
            if lo is None or hi is None:
                return Region(base.root, 'part')
            if lo.const() is not None and lo.k < 0:
                lo = L + lo
            if hi.const() is not None and hi.k < 0:
                hi = L + hi
            return Region(base.root, 'r', off + lo, off + hi)
        n = self.lin(i)
        if n is None:
            return Region(base.root, 'part')
        if n.const() is not None and n.k < 0:
            n = L + n
        return Region(base.root, 't', off + n)

    def lin(self, v):
        op = v.op
        if op == 'const':
            return K(cval(v)) if type(cval(v)) is int else None
        if op == 'idx' and is_const(v.a[1]):
            # shape[0]
            b, i = v.a[0], cval(v.a[1])
            if b.op == 'idx' and b.a[1].op == 'slice' and is_const(
                    b.a[1].a[0], None, 0):
                b = b.a[0]
            if b.op == 'attr' and b.a[1] == 'shape' and i == 0:
                r = self.region(b.a[0])
                if r is not None and not r.flat:
                    return self.rlen(r)
            return None
        if op == 'call' and v.a[0].op == 'ext':
            if v.a[0].a[0] == 'len' and len(v.a[1]) == 1:
                r = self.region(v.a[1][0])
                if r is not None and not r.flat:
                    return self.rlen(r)
                rg = self.range_of(v.a[1][0])
                return None
            if v.a[0].a[0] == 'int' and len(v.a[1]) == 1:
                return self.lin(v.a[1][0])
            return None
        if op == 'bin':
            o, a, b = v.a
            x, y = self.lin(a), self.lin(b)
            if x is None or y is None:
                return None
            if o == '+':
                return x + y
            if o == '-':
                return x - y
            if o == '*':
                if x.const() is not None:
                    return y.scale(x.k)
                if y.const() is not None:
                    return x.scale(y.k)
            return None
        if op == 'un' and v.a[0] == '-':
            x = self.lin(v.a[1])
            return x.neg() if x is not None else None
        if op == 'elem':
            rg = self.range_args(v.a[0])
            if rg is not None:
                return Lin({('t', v.a[1]): 1})
            return None
        if op == 'loopvar':
            if self.induction(v.a[0]) and self.induction(v.a[0])[0] is v:
                return Lin({('t', v.a[0]): 1})
            return None
        return None

    def range_args(self, it):
        """(start, stop, step) Lin triple for range()-like iterables"""
        if it.op == 'call' and it.a[0].op == 'ext':
            n, args = it.a[0].a[0], it.a[1]
            if n in ('range', 'xrange'):
                if len(args) == 1:
                    a = (const(0), args[0], const(1))
                elif len(args) == 2:
                    a = (args[0], args[1], const(1))
                else:
                    a = args[:3]
                ls = [self.lin(x) for x in a]
                if any(x is None for x in ls) or ls[2].const() in (None, 0):
                    return None
                return ls
            if n == 'reversed' and len(args) == 1:
                r = self.range_args(args[0])
                if r is None:
                    return None
                a, b, s = r
                if s.k == 1:
                    return [b - 1, a - 1, K(-1)]
                if s.k == -1:
                    return [b + 1, a + 1, K(1)]
                return None
            if n in ('list', 'tuple', 'iter') and len(args) == 1:
                return self.range_args(args[0])
        return None

    def induction(self, uid):
        """(loopvar, start, stop, step) of a while loop"""
        n = self.loops.get(uid)
        if n is None or n.kind != 'while' or n.cond is None:
            return None
        if hasattr(n, '_ind'):
            return n._ind
        n._ind = None
        steps = getattr(n, 'steps', {})
        c, pol = norm_cond(n.cond)
        if c.op == 'cmp' and c.a[0] in ('<', '<='):
            op, a, b = c.a
            for lv, end in steps.items():
                st = None
                if end.op == 'bin' and end.a[0] in ('+', '-') and \
                        end.a[1] is lv and is_const(end.a[2]):
                    st = cval(end.a[2]) * (1 if end.a[0] == '+' else -1)
                elif end.op == 'aug' and end.a[0] in ('+', '-') and \
                        end.a[1] is lv and is_const(end.a[2]):
                    st = cval(end.a[2]) * (1 if end.a[0] == '+' else -1)
                if st not in (1, -1):
                    continue
                n._ind = (lv,)      # so that lin() resolves the variable
                start = self.lin(lv.a[2])
                me = Lin({('t', uid): 1})
                x, y = self.lin(a), self.lin(b)
                if start is None or x is None or y is None:
                    n._ind = None
                    continue
                # x < y  (or <=) with polarity
                if op == '<=':
                    y = y + 1
                # cond: x < y if pol else y <= x i.e. x >= y
                diff = (y - x) if pol else (x - y + 1)   # continue: diff > 0
                cf = diff.coef(('t', uid))
                rest = diff.subst(('t', uid), K(0))
                if cf == -st and cf in (1, -1):
                    # st=1: rest - t > 0 -> t < rest ; st=-1: t+rest>0
                    stop = rest if st == 1 else rest.neg()
                    n._ind = (lv, start, stop, K(st))
                    return n._ind
                n._ind = None
        return n._ind

    def loop_range(self, uid):
        n = self.loops.get(uid)
        if n is None:
            return None
        if n.kind == 'while':
            i = self.induction(uid)
            return list(i[1:]) if i else None
        it = n.it
        r = self.range_args(it)
        if r is not None:
            return r
        if it.op == 'call' and it.a[0].op == 'ext' and \
                it.a[0].a[0] in ('enumerate',) and it.a[1]:
            rr = self.region(it.a[1][0])
            if rr is not None and self.rlen(rr) is not None:
                return [K(0), self.rlen(rr), K(1)]
        return None

    # -- path-specialised programs -----------------------------------------
    def programs(self, limit=64):
        """Enumerate (assumptions, straight list) for loop-invariant
        conditions.  The list holds ('op', Ev, conds) and
        ('loop', Loop, list)."""
        conds = []
        for e, g, i in walk(self.blk):
            for x in g:
                if x[0] == 'if' and x[1] not in conds and not any(
                        s.op in ('elem', 'loopvar') for s in
                        subterms(x[1])):
                    conds.append(x[1])
        # what must hold for the method not to raise is no case distinction
        checks = {}
        for n in ifs(self.blk):
            r = [i for i, b in ((True, n.a), (False, n.b or []))
                 if len(b) and isinstance(b[-1], Ev) and b[-1].kind == 'raise']
            checks.setdefault(n.cond, set()).add(
                not r[0] if len(r) == 1 else None)
        fixed = {c: list(v)[0] for c, v in checks.items()
                 if len(v) == 1 and None not in v}
        conds = [c for c in conds if c not in fixed]
        # conditions under which something happens only
        out = []
        if len(conds) > 6:
            conds = conds[:6]
        for mask in range(1 << len(conds)):
            asm = {c: bool(mask >> j & 1) for j, c in enumerate(conds)}
            asm.update(fixed)
            if not consistent(asm):
                continue
            prog, ended = self.flat(self.blk, asm, ())
            if ended == 'raise':
                continue
            out.append((asm, prog))
        # drop duplicates
        seen, res = set(), []
        for asm, prog in out:
            k = progkey(prog)
            if k not in seen:
                seen.add(k)
                res.append((asm, prog))
        return res

    def flat(self, blk, asm, conds):
        out = []
        for n in blk:
            if isinstance(n, Ev):
                if n.kind == 'raise':
                    return out, 'raise'
                if n.kind in ('return', 'break', 'continue'):
                    return out, n.kind
                out.append(('op', n, conds))
            elif isinstance(n, If):
                if n.cond in asm:
                    p, e = self.flat(n.a if asm[n.cond] else n.b, asm, conds)
                    out += p
                    if e:
                        return out, e
                else:
                    pa, ea = self.flat(n.a, asm, conds + ((n.cond, True),))
                    pb, eb = self.flat(n.b, asm, conds + ((n.cond, False),))
                    out += pa + pb
                    if ea and eb:
                        return out, ea
            elif isinstance(n, Inl):
                p, e = self.flat(n.body, asm, conds)
                out += p
                if e == 'raise':
                    return out, e
            elif isinstance(n, With):
                p, e = self.flat(n.body, asm, conds)
                out += p
                if e:
                    return out, e
            elif isinstance(n, Try):
                p, e = self.flat(n.body, asm, conds)
                out += p
                q, e2 = self.flat(n.final, asm, conds)
                out += q
                if e:
                    return out, e
            elif isinstance(n, Loop):
                p, e = self.flat(n.body, asm, conds)
                if n.kind in ('unroll', 'iter'):
                    out += p
                    if e == 'break' and n.kind == 'iter':
                        return out, e
                    if e in ('raise', 'return'):
                        return out, e
                else:
                    out.append(('loop', n, p, conds))
        return out, None


def ifs(blk):
    for n in blk:
        if isinstance(n, If):
            yield n
            for b in (n.a, n.b or []):
                for x in ifs(b):
                    yield x
        elif isinstance(n, (Inl, With, Loop)):
            for x in ifs(n.body):
                yield x
        elif isinstance(n, Try):
            for b in [n.body, n.final] + [h[1] for h in n.handlers or []]:
                for x in ifs(b):
                    yield x


def consistent(asm):
    """Drop assignments that make two different constants equal to one
    term."""
    eq = {}
    for c, b in asm.items():
        if c.op == 'cmp' and c.a[0] == '==' and b:
            x, y = c.a[1], c.a[2]
            if is_const(x):
                x, y = y, x
            if is_const(y):
                if x in eq and eq[x] is not y:
                    return False
                eq[x] = y
    return True


def progkey(prog):
    k = []
    for p in prog:
        if p[0] == 'op':
            k.append((id(p[1]), p[2]))
        else:
            k.append(('loop', id(p[1]), progkey(p[2]), p[3]))
    return tuple(k)


class Region(object):
    __slots__ = ('root', 'kind', 'lo', 'hi', 'flat')

    def __init__(self, root, kind, lo=None, hi=None, flat=False):
        self.root, self.kind, self.lo, self.hi, self.flat = (root, kind, lo,
                                                             hi, flat)

    def key(self):
        return (self.root, self.kind, self.lo, self.hi)

    def name(self):
        r = self.root
        if r.op in ('buf', 'badbuf'):
            return '%s.%s' % (r.a[0], r.a[1])
        return 'tmp(%s)' % r.a[1]

    def __repr__(self):
        s = self.name()
        if self.kind == 't':
            s += '[%r]' % self.lo
        elif self.kind == 'r':
            s += '[%r:%r]' % (self.lo, self.hi)
        elif self.kind == 'part':
            s += '[?]'
        return s


def all_layers(repo):
    base = repo.find_class('Layer')
    out = []
    for c in repo.subclasses(base):
        out.append(c)
    return sorted(out, key=lambda c: c.qual)


def models(repo):
    return [LayerModel(repo, c) for c in all_layers(repo)]
