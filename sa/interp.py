"""Abstract interpreter over the Python AST of the analysed tree.

Values are hash-consed terms (provenance), the heap is abstract, branches on
unknown conditions are analysed on both sides and joined, loops are analysed
once in a state where everything the body may change has been havocked, and
calls to functions of the analysed tree are inlined.  The result of a run is
an *effect tree* (Block of Ev/If/Loop/Inl/Try/With nodes) that the property
clients query.  Nothing of the analysed tree is imported or executed.
"""
import ast

from .repo import AnalysisBroken, Cls, Fn
from .terms import (ABSENT, FALSE, NONE, TRUE, V, const, cval, fresh,
                    is_const)

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
          ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&',
          ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}

BUILTINS = {'len', 'range', 'int', 'float', 'str', 'bool', 'isinstance',
            'issubclass', 'min', 'max', 'sum', 'abs', 'sorted', 'zip',
            'enumerate', 'list', 'tuple', 'dict', 'set', 'frozenset', 'type',
            'reversed', 'iter', 'next', 'map', 'filter', 'any', 'all',
            'print', 'super', 'getattr', 'setattr', 'hasattr', 'delattr',
            'repr', 'round', 'open', 'object', 'property', 'vars', 'id',
            'callable', 'slice', 'hash', 'divmod', 'pow', 'ord', 'chr',
            'isinstance', 'Exception', 'KeyError', 'ValueError', 'TypeError',
            'RuntimeError', 'StopIteration', 'NotImplementedError',
            'AttributeError', 'IndexError', 'AssertionError', 'IOError',
            'OSError', 'ImportError', 'KeyboardInterrupt', 'NotImplemented',
            'classmethod', 'staticmethod', 'ArithmeticError', 'LookupError',
            'ZeroDivisionError', 'BaseException', 'Ellipsis', 'complex',
            'bytes', 'globals', 'locals', 'input', '__import__', 'format',
            'FloatingPointError', 'UserWarning', 'Warning', 'SystemExit',
            'xrange', 'unicode', 'basestring', 'bytearray', 'memoryview',
            'GeneratorExit', 'eval', 'exec'}
PURE_BUILTINS = {'len', 'range', 'int', 'float', 'str', 'bool', 'isinstance',
                 'issubclass', 'min', 'max', 'sum', 'abs', 'sorted', 'zip',
                 'enumerate', 'frozenset', 'type', 'reversed', 'iter', 'any',
                 'all', 'repr', 'round', 'hasattr', 'callable', 'slice',
                 'hash', 'divmod', 'pow', 'map', 'filter', 'vars', 'id',
                 'getattr', 'super', 'object', 'bytes'}
PURE_METHODS = {'items', 'keys', 'values', 'get', 'split', 'format',
                'startswith', 'endswith', 'partition', 'rpartition', 'join',
                'strip', 'lower', 'upper', 'replace', 'reshape', 'ravel',
                'squeeze', 'transpose', 'sum', 'mean', 'std', 'max', 'min',
                'argmax', 'dot', 'difference', 'union', 'intersection',
                'issubset', 'issuperset', 'index', 'count', 'encode',
                'decode', 'match', 'view', 'all', 'any', 'isdigit', 'swapaxes',
                'total_seconds', 'strftime', 'cumsum', 'prod', 'nonzero',
                'iteritems', 'itervalues', 'iterkeys', '__contains__',
                '__len__', 'item', 'tolist'}
IMPURE_EXT = ('numpy.random', 'random.', 'numpy.copyto', 'numpy.put',
              'time.', 'datetime.', 'h5py.', 'copy.', 'sys.', 'os.',
              'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.array',
              'numpy.eye', 'uuid')
FRESH_OK = ('copy', 'astype', 'flatten')


# ------------------------------------------------------------ effect tree --
class Node(object):
    pass


class Ev(Node):
    __slots__ = ('kind', 'd', 'loc', 'fn')

    def __init__(self, kind, loc, fn, **d):
        self.kind, self.d, self.loc, self.fn = kind, d, loc, fn

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def where(self):
        return '%s:%s in %s' % (self.loc[0], self.loc[1],
                                self.fn.qual if self.fn else '?')

    def __repr__(self):
        return 'Ev(%s %s @%s)' % (self.kind, {k: v for k, v in self.d.items()},
                                  self.loc)


class If(Node):
    def __init__(self, cond, a, b, loc):
        self.cond, self.a, self.b, self.loc = cond, a, b, loc


class Loop(Node):
    def __init__(self, kind, it, body, uid, loc):
        self.kind, self.it, self.body, self.uid, self.loc = (kind, it, body,
                                                             uid, loc)
        self.has_break = False
        self.cond = None
        self.orelse = None


class Inl(Node):
    def __init__(self, fn, body, loc, args=None):
        self.fn, self.body, self.loc, self.args = fn, body, loc, args


class Try(Node):
    def __init__(self, body, handlers, final, loc):
        self.body, self.handlers, self.final, self.loc = (body, handlers,
                                                          final, loc)


class With(Node):
    def __init__(self, ctxs, body, loc):
        self.ctxs, self.body, self.loc = ctxs, body, loc


class Block(list):
    pass


def walk(block, guards=(), inl=()):
    """Yield (event, guards, inline-stack) in program order.

    guards: tuple of ('if',cond,bool,node) | ('loop',node) | ('try',node) |
    ('except',node,types) | ('with',node)."""
    for n in block:
        if isinstance(n, Ev):
            yield n, guards, inl
        elif isinstance(n, If):
            for x in walk(n.a, guards + (('if', n.cond, True, n),), inl):
                yield x
            for x in walk(n.b, guards + (('if', n.cond, False, n),), inl):
                yield x
        elif isinstance(n, Loop):
            for x in walk(n.body, guards + (('loop', n),), inl):
                yield x
            if n.orelse:
                for x in walk(n.orelse, guards, inl):
                    yield x
        elif isinstance(n, Inl):
            for x in walk(n.body, guards, inl + (n,)):
                yield x
        elif isinstance(n, Try):
            for x in walk(n.body, guards + (('try', n),), inl):
                yield x
            for types, b in n.handlers:
                for x in walk(b, guards + (('except', n, types),), inl):
                    yield x
            for x in walk(n.final, guards, inl):
                yield x
        elif isinstance(n, With):
            for x in walk(n.body, guards + (('with', n),), inl):
                yield x


# ------------------------------------------------------------------- heap --
class HObj(object):
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'more', 'loc', 'dirty')

    def __init__(self, kind, cls=None, loc=None):
        self.kind = kind          # obj | list | dict | set
        self.cls = cls
        self.attrs = {}
        self.items = [] if kind in ('list', 'set') else {}
        self.more = None          # summary of unknown further content
        self.loc = loc
        self.dirty = False

    def copy(self):
        o = HObj(self.kind, self.cls, self.loc)
        o.attrs = dict(self.attrs)
        o.items = (list(self.items) if isinstance(self.items, list)
                   else dict(self.items))
        o.more = self.more
        o.dirty = self.dirty
        return o

    def same(self, o):
        return (self.attrs == o.attrs and self.items == o.items and
                list(self.items) == list(o.items) and
                self.more is o.more and self.dirty == o.dirty)


class State(object):
    __slots__ = ('frames', 'heap', 'path', 'mods')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.path = {}
        self.mods = {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.path = dict(self.path)
        return s


def oneof(*vals):
    out = []
    for v in vals:
        if v is None:
            continue
        for x in (v.a[0] if v.op == 'oneof' else (v,)):
            if x not in out:
                out.append(x)
    if not out:
        return None
    if len(out) == 1:
        return out[0]
    return V('oneof', tuple(out[:12]))


def norm_cond(c):
    """-> (positive cond, polarity)"""
    pol = True
    while True:
        if c.op == 'not':
            c = c.a[0]
            pol = not pol
        elif c.op == 'cmp' and c.a[0] in ('!=', 'is not', 'not in'):
            c = V('cmp', {'!=': '==', 'is not': 'is',
                          'not in': 'in'}[c.a[0]], c.a[1], c.a[2])
            pol = not pol
        else:
            return c, pol


def mkphi(cond, a, b):
    if a is b:
        return a
    c, pol = norm_cond(cond)
    if not pol:
        a, b = b, a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    # collapse nested phi on the same condition
    if a.op == 'phi' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'phi' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == 'const' and b.op == 'const':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return V('not', c)
    return V('phi', c, a, b)


class Cont(object):
    __slots__ = ('st', 'blk')

    def __init__(self, st, blk):
        self.st, self.blk = st, blk


class Frame(object):
    """Activation of one function."""
    def __init__(self, fid, fn, mod, cls):
        self.fid, self.fn, self.mod, self.cls = fid, fn, mod, cls
        self.returns = []      # (path-list, value, State)
        self.loops = []
        self.yields = []
        self.globals_ = set()
        self.entry_path = ()


def wrapped(e, it, moves):
    """element of a reordered or shortened iterable: same base, but not the
    element at the same position"""
    if moves and e.op in ('elem', 'key') and len(e.a) in (2, 3):
        return V(e.op, e.a[0], e.a[1], it)
    return e


class Interp(object):
    MAX_DEPTH = 14
    MAX_CONTS = 6
    UNROLL = 16

    def __init__(self, repo, opaque=None, hook=None, hints=None,
                 known=None, precise=False, raw=False):
        self.repo = repo
        # precise: elements of known collections are kept as such instead of
        # being replaced by the set of their possible values
        self.precise = precise or raw
        # raw: entries of dictionaries under computed keys are not tracked
        self.raw = raw
        self.opaque = opaque or (lambda fn: False)
        self.hook = hook
        self.hints = hints or {}
        self.known = known or {}
        self.stack = []
        self.gens = {}
        self.modcache = {}
        self.fid = 0
        self.hid = 0
        self.inlined = set()
        self.modst = State()
        self.steps = 0
        self.cur_mod_eval = set()
        self.frame_parent = {}
        self.captured = set()

    # ------------------------------------------------------------ helpers --
    def new(self, st, kind, cls=None, loc=None):
        self.hid += 1
        o = HObj(kind, cls, loc)
        st.heap[self.hid] = o
        return V('ref', self.hid)

    def obj(self, st, v):
        if v.op == 'ref':
            return st.heap.get(v.a[0]) or self.modst.heap.get(v.a[0])
        return None

    def loc(self, fr, node):
        return (fr.mod.path, getattr(node, 'lineno', 0))

    def emit(self, fr, cont, kind, node, **d):
        e = Ev(kind, self.loc(fr, node), fr.fn, **d)
        cont.blk.append(e)
        return e

    # ------------------------------------------------------------ globals --
    def glob(self, mod, name):
        key = (mod.name, name)
        if key in self.modcache:
            return self.modcache[key]
        r = self.repo.resolve(mod, name)
        if r is None:
            if name in ('True', 'False', 'None'):
                v = const({'True': True, 'False': False, 'None': None}[name])
            elif name in BUILTINS:
                v = V('ext', name)
            elif name == '__name__':
                v = const(mod.name)
            else:
                v = V('sym', 'global:%s.%s' % (mod.name, name))
        elif r[0] == 'fn':
            v = V('func', r[1])
        elif r[0] == 'cls':
            v = V('cls', r[1])
        elif r[0] in ('mod', 'ext'):
            v = V(r[0], r[1])
        else:
            m, node, i = r[1], r[2], r[3]
            k2 = (m.name, id(node), i)
            if k2 in self.cur_mod_eval:
                return V('sym', 'global:%s.%s' % (mod.name, name))
            self.cur_mod_eval.add(k2)
            try:
                fr = Frame(self.newfid(), None, m, None)
                self.modst.frames[fr.fid] = {}
                c = Cont(self.modst, Block())
                v = self.ev(node, fr, c)
                if c.st is not self.modst:
                    self.modst = c.st
                if i is not None:
                    v = self.index(v, const(i), fr, c, node)
            except RecursionError:
                v = V('sym', 'global:%s.%s' % (mod.name, name))
            self.cur_mod_eval.discard(k2)
        self.modcache[key] = v
        return v

    def newfid(self):
        self.fid += 1
        return self.fid

    # ------------------------------------------------------------- public --
    def run(self, fn, args, st=None, self_v=None, kwargs=None):
        """Interpret fn (Fn) on V args; -> (value, State, Block)."""
        st = st or State()
        blk = Block()
        cont = Cont(st, blk)
        fr = Frame(self.newfid(), None, fn.mod, None)
        st.frames[fr.fid] = {}
        fv = V('bound', fn, self_v) if self_v is not None else V('func', fn)
        v = self.call(fv, list(args), dict(kwargs or {}), fr, cont,
                      fn.node, force=True)
        return v, cont.st, blk

    def method(self, cls, name):
        o, m = self.repo.lookup(cls, name)
        if not isinstance(m, Fn):
            raise AnalysisBroken('%s has no method %s' % (cls.qual, name))
        return m

    def instance(self, st, cls, **attrs):
        r = self.new(st, 'obj', cls)
        self.obj(st, r).attrs.update(attrs)
        return r

    # --------------------------------------------------------------- calls --
    def bind_args(self, fn, args, kwargs, fr, cont, self_v):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if self_v is not None:
            pos = [self_v] + pos
        # expand stars
        flat = []
        unknown_star = None
        for p in pos:
            if p.op == 'star':
                el = self.concrete_seq(p.a[0], cont.st)
                if el is None:
                    unknown_star = p.a[0]
                else:
                    flat.extend(el)
            else:
                flat.append(p)
        kw = dict(kwargs)
        dstar = kw.pop('**', None)
        if dstar is not None:
            o = self.obj(cont.st, dstar)
            if o is not None and o.kind == 'dict' and o.more is None:
                for k, v in o.items.items():
                    if is_const(k) and v is not ABSENT:
                        kw.setdefault(cval(k), v)
                dstar = None
        for i, n in enumerate(names):
            if i < len(flat):
                env[n] = flat[i]
            elif n in kw:
                env[n] = kw.pop(n)
            elif unknown_star is not None:
                env[n] = V('idx', unknown_star, const(i - len(flat)))
            elif dstar is not None:
                env[n] = V('idx', dstar, const(n))
            else:
                di = i - (len(names) - len(a.defaults))
                if di >= 0:
                    env[n] = self.default(fn, a.defaults[di])
                else:
                    env[n] = V('sym', 'missing:%s' % n)
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif a.kw_defaults[i] is not None:
                env[x.arg] = self.default(fn, a.kw_defaults[i])
        if a.vararg:
            extra = flat[len(names):]
            if unknown_star is not None and not extra:
                env[a.vararg.arg] = unknown_star
            else:
                env[a.vararg.arg] = V('tuple', tuple(extra))
        if a.kwarg:
            if dstar is not None and not kw:
                env[a.kwarg.arg] = dstar
            else:
                r = self.new(cont.st, 'dict')
                o = self.obj(cont.st, r)
                o.attrs['kwargs'] = const(a.kwarg.arg)
                for k, v in kw.items():
                    o.items[const(k)] = v
                if dstar is not None:
                    o.more = dstar
                env[a.kwarg.arg] = r
        return env

    def default(self, fn, node):
        key = ('default', id(node))
        if key not in self.modcache:
            fr = Frame(self.newfid(), None, fn.mod, fn.cls)
            self.modst.frames[fr.fid] = {}
            c = Cont(self.modst, Block())
            self.modcache[key] = self.ev(node, fr, c)
        return self.modcache[key]

    def call(self, f, args, kwargs, fr, cont, node, force=False):
        self.steps += 1
        if self.hook is not None and not force:
            r = self.hook(self, f, args, kwargs, fr, cont, node)
            if r is not None:
                return r
        op = f.op
        if op == 'phi':
            ca, cb = Cont(cont.st.copy(), Block()), Cont(cont.st, Block())
            va = self.call(f.a[1], list(args), dict(kwargs), fr, ca, node)
            vb = self.call(f.a[2], list(args), dict(kwargs), fr, cb, node)
            cont.blk.append(If(f.a[0], ca.blk, cb.blk, self.loc(fr, node)))
            cont.st = self.join(f.a[0], ca.st, cb.st)
            return mkphi(f.a[0], va, vb)
        if op == 'oneof':
            vals = []
            for g in f.a[0]:
                ca = Cont(cont.st.copy(), Block())
                vals.append(self.call(g, list(args), dict(kwargs), fr, ca,
                                      node))
                cc = V('choice', fresh())
                cont.blk.append(If(cc, ca.blk, Block(), self.loc(fr, node)))
                cont.st = self.join(cc, ca.st, cont.st)
            return oneof(*vals)
        if op == 'func':
            return self.call_fn(f.a[0], args, kwargs, None, fr, cont, node,
                                force)
        if op == 'bound':
            return self.call_fn(f.a[0], args, kwargs, f.a[1], fr, cont, node,
                                force)
        if op == 'cls':
            return self.instantiate(f.a[0], args, kwargs, fr, cont, node)
        if op == 'partial':
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call(f.a[0], list(f.a[1]) + list(args), kw, fr, cont,
                             node)
        if op == 'hmeth':
            return self.container_method(f.a[0], f.a[1], args, kwargs, fr,
                                         cont, node)
        if op == 'ext':
            r = self.ext_call(f.a[0], args, kwargs, fr, cont, node)
            if r is not None:
                return r
        if op == 'ref':
            o = self.obj(cont.st, f)
            if o is not None and o.kind == 'obj' and o.cls is not None:
                ow, m = self.repo.lookup(o.cls, '__call__')
                if isinstance(m, Fn):
                    return self.call_fn(m, args, kwargs, f, fr, cont, node)
        return self.opaque_call(f, args, kwargs, fr, cont, node)

    def opaque_call(self, f, args, kwargs, fr, cont, node, pure=None):
        if pure is None:
            pure = self.is_pure(f)
        targs = tuple(args)
        tkw = tuple(sorted(kwargs.items()))
        if pure:
            v = V('call', f, targs, tkw, 0)
        else:
            v = V('call', f, targs, tkw, fresh())
        v = self.simplify_call(v, cont.st)
        self.emit(fr, cont, 'call', node, f=f, args=args, kw=kwargs, res=v)
        # escaping mutable containers / bound closures are left as they are:
        # opaque callees of this tree (numpy, h5py, user callables) do not
        # mutate the repo's python containers except through known methods.
        return v

    def is_pure(self, f):
        if f.op == 'ext':
            n = f.a[0]
            if n in BUILTINS:
                return n in PURE_BUILTINS
            if n.startswith(IMPURE_EXT):
                return False
            return n.startswith(('numpy', 'math', 'operator', 'itertools',
                                 'functools', 're.', 'six'))
        if f.op == 'attr':
            return f.a[1] in PURE_METHODS
        return False

    def simplify_call(self, v, st):
        f, args = v.a[0], v.a[1]
        if f.op == 'ext' and f.a[0] == 'len' and len(args) == 1:
            seq = self.concrete_seq(args[0], st)
            if seq is not None:
                return const(len(seq))
        if f.op == 'ext' and f.a[0] == 'isinstance' and len(args) == 2:
            r = self.isinst(args[0], args[1], st)
            if r is not None:
                return const(r)
        if f.op == 'ext' and f.a[0] in ('int', 'float', 'bool', 'str') and \
                len(args) == 1 and is_const(args[0]):
            try:
                return const({'int': int, 'float': float, 'bool': bool,
                              'str': str}[f.a[0]](cval(args[0])))
            except Exception:
                pass
        return v

    def isinst(self, x, c, st):
        if c.op == 'tuple':
            rs = [self.isinst(x, y, st) for y in c.a[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        o = self.obj(st, x)
        if o is not None:
            if o.kind == 'obj':
                if o.cls is None or o.cls == 'exc':
                    return None
                if c.op == 'cls':
                    return self.repo.issub(o.cls, c.a[0])
                if c.op == 'ext':
                    e = self.repo.ext_bases(o.cls)
                    return True if c.a[0] in e or c.a[0] == 'object' else (
                        False if c.a[0] in ('dict', 'list', 'str', 'int',
                                            'float', 'tuple', 'set',
                                            'numpy.ndarray') else None)
                return None
            py = {'list': 'list', 'dict': 'dict', 'set': 'set'}[o.kind]
            if c.op == 'ext' and c.a[0] in ('list', 'dict', 'set', 'tuple',
                                            'str', 'int', 'float',
                                            'numpy.ndarray'):
                return c.a[0] == py
            if c.op == 'cls':
                return False
            return None
        if x.op == 'tuple' and c.op == 'ext':
            if c.a[0] in ('list', 'dict', 'set', 'tuple', 'str', 'int',
                          'float', 'numpy.ndarray'):
                return c.a[0] == 'tuple'
        if x.op == 'const':
            if c.op == 'ext' and c.a[0] in ('int', 'float', 'str', 'list',
                                            'dict', 'tuple', 'bool', 'set',
                                            'numpy.ndarray'):
                py = {'int': int, 'float': float, 'str': str, 'list': list,
                      'dict': dict, 'tuple': tuple, 'bool': bool,
                      'set': set, 'numpy.ndarray': ()}[c.a[0]]
                return isinstance(cval(x), py)
            if c.op == 'cls':
                return False
            if c.op == 'ext' and c.a[0].endswith('string_types'):
                return isinstance(cval(x), str)
        return None

    def call_fn(self, fn, args, kwargs, self_v, fr, cont, node, force=False):
        if fn.kind == 'staticmethod':
            self_v = None
        depth_ok = len(self.stack) < self.MAX_DEPTH and \
            self.stack.count(fn) < 1
        if not force and (self.opaque(fn) or not depth_ok):
            f = V('bound', fn, self_v) if self_v is not None else \
                V('func', fn)
            return self.opaque_call(f, args, kwargs, fr, cont, node,
                                    pure=False)
        self.inlined.add(fn.qual)
        env = self.bind_args(fn, args, kwargs, fr, cont, self_v)
        nf = Frame(self.newfid(), fn, fn.mod, fn.cls)
        self.frame_parent[nf.fid] = fn.frame
        cont.st.frames[nf.fid] = env
        blk = Block()
        outer = cont.blk
        c2 = Cont(cont.st, blk)
        saved_path = dict(cont.st.path)
        nf.entry_path = tuple(saved_path.items())
        self.stack.append(fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, nf, c2)
                rets = [((), v, c2.st)]
            else:
                conts = self.block(fn.node.body, nf, [c2])
                for c in conts:
                    nf.returns.append((self.path_suffix(c.st, saved_path),
                                       NONE, c.st))
                rets = nf.returns
        finally:
            self.stack.pop()
        outer.append(Inl(fn, blk, self.loc(fr, node) if node else None,
                         args))
        if fn.is_gen:
            uid = fresh()
            vals = [y for y in nf.yields]
            self.gens[uid] = vals
            if rets:
                st = self.join_many([(p, s) for p, v, s in rets])
                cont.st = st
            else:
                cont.st = c2.st
            cont.st.path = saved_path
            return V('gen', fn, uid)
        if not rets:
            # every path raises
            cont.st = c2.st
            cont.st.path = saved_path
            return V('bottom')
        val = self.decide([(p, v) for p, v, s in rets])
        cont.st = self.join_many([(p, s) for p, v, s in rets])
        # inlined helpers may have refined the path: if only one return
        # survives its path facts stay valid (other paths raised)
        if len(rets) == 1:
            cont.st.path = dict(rets[0][2].path)
        else:
            cont.st.path = saved_path
        if nf.fid not in self.captured:
            cont.st.frames.pop(nf.fid, None)
        return val

    def path_suffix(self, st, saved):
        return tuple((c, b) for c, b in st.path.items()
                     if saved.get(c, None) != b)

    def decide(self, pvs):
        """Build a phi from [(path, value)]; path: tuple of (cond,bool)."""
        if len(pvs) == 1:
            return pvs[0][1]
        first = pvs[0][1]
        if all(v is first for p, v in pvs):
            return first
        # find a condition that occurs in every path with both polarities
        for c, b in pvs[0][0]:
            if all(any(c2 is c for c2, _ in p) for p, v in pvs):
                a = [(tuple(x for x in p if x[0] is not c), v)
                     for p, v in pvs if dict(p)[c]]
                d = [(tuple(x for x in p if x[0] is not c), v)
                     for p, v in pvs if not dict(p)[c]]
                if a and d:
                    return mkphi(c, self.decide(a), self.decide(d))
        # fall back: unordered choice
        return oneof(*[v for p, v in pvs])

    def join_many(self, pss):
        if len(pss) == 1:
            return pss[0][1]
        for c, b in pss[0][0]:
            if all(any(c2 is c for c2, _ in p) for p, s in pss):
                a = [(tuple(x for x in p if x[0] is not c), s)
                     for p, s in pss if dict(p)[c]]
                d = [(tuple(x for x in p if x[0] is not c), s)
                     for p, s in pss if not dict(p)[c]]
                if a and d:
                    return self.join(c, self.join_many(a), self.join_many(d))
        st = pss[0][1]
        for p, s in pss[1:]:
            if s is not st:
                st = self.join(V('choice', fresh()), st, s)
        return st

    def join(self, cond, s1, s2):
        if s1 is s2:
            return s1
        st = State()

        def jv(a, b):
            if a is b:
                return a
            if cond.op == 'choice':
                return oneof(a, b)
            return mkphi(cond, a, b)
        for fid in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                st.frames[fid] = dict(f1 if f2 is None else f2)
                continue
            d = {}
            for k in list(f1) + [k for k in f2 if k not in f1]:
                a, b = f1.get(k), f2.get(k)
                if a is None:
                    d[k] = b
                elif b is None:
                    d[k] = a
                else:
                    d[k] = jv(a, b)
            st.frames[fid] = d
        for h in set(s1.heap) | set(s2.heap):
            o1, o2 = s1.heap.get(h), s2.heap.get(h)
            if o1 is None or o2 is None:
                st.heap[h] = (o1 or o2).copy()
                continue
            if o1.same(o2):
                st.heap[h] = o1
                continue
            o = HObj(o1.kind, o1.cls, o1.loc)
            o.dirty = o1.dirty or o2.dirty
            for k in list(o1.attrs) + [k for k in o2.attrs
                                       if k not in o1.attrs]:
                a, b = o1.attrs.get(k), o2.attrs.get(k)
                if a is None or b is None:
                    # attribute set on one side only: other side reads the
                    # pre-existing (unknown) attribute
                    u = V('attr', V('ref', h), k)
                    o.attrs[k] = jv(a if a is not None else u,
                                    b if b is not None else u)
                else:
                    o.attrs[k] = jv(a, b)
            if o1.kind in ('list', 'set'):
                if len(o1.items) == len(o2.items) and o1.more is o2.more:
                    o.items = [jv(a, b) for a, b in zip(o1.items, o2.items)]
                    o.more = o1.more
                else:
                    n = 0
                    m = min(len(o1.items), len(o2.items))
                    while n < m and o1.items[n] is o2.items[n]:
                        n += 1
                    o.items = o1.items[:n]
                    o.more = oneof(o1.more, o2.more,
                                   *(o1.items[n:] + o2.items[n:]))
            elif o1.kind == 'dict':
                for k in list(o1.items) + [k for k in o2.items
                                           if k not in o1.items]:
                    a, b = o1.items.get(k), o2.items.get(k)
                    if a is None:
                        a = ABSENT if o1.more is None else oneof(o1.more,
                                                                 ABSENT)
                    if b is None:
                        b = ABSENT if o2.more is None else oneof(o2.more,
                                                                 ABSENT)
                    o.items[k] = jv(a, b)
                o.more = oneof(o1.more, o2.more)
            st.heap[h] = o
        st.path = {c: b for c, b in s1.path.items()
                   if s2.path.get(c, None) == b}
        return st

    def instantiate(self, cls, args, kwargs, fr, cont, node):
        r = self.new(cont.st, 'obj', cls, self.loc(fr, node))
        ow, m = self.repo.lookup(cls, '__init__')
        if isinstance(m, Fn):
            self.call_fn(m, args, kwargs, r, fr, cont, node)
        else:
            o = self.obj(cont.st, r)
            o.attrs['__args__'] = V('tuple', tuple(args))
        self.emit(fr, cont, 'new', node, cls=cls, args=args, kw=kwargs,
                  res=r)
        return r

    # ------------------------------------------------------ external calls --
    def ext_call(self, name, args, kw, fr, cont, node):
        st = cont.st
        if name in ('list', 'tuple', 'set', 'collections.OrderedDict', 'dict'):
            if name == 'dict' or name.endswith('OrderedDict'):
                r = self.new(st, 'dict', loc=self.loc(fr, node))
                o = self.obj(st, r)
                if args:
                    self.dict_update(o, args[0], st)
                    o.attrs['made'] = args[0]
                for k, v in kw.items():
                    if k == '**':
                        self.dict_update(o, v, st)
                    else:
                        o.items[const(k)] = v
                return r
            if not args:
                if name == 'tuple':
                    return V('tuple', ())
                return self.new(st, name, loc=self.loc(fr, node))
            seq = self.concrete_seq(args[0], st)
            if name == 'tuple':
                if seq is not None:
                    return V('tuple', tuple(seq))
                return V('call', V('ext', 'tuple'), tuple(args), (), 0)
            r = self.new(st, name, loc=self.loc(fr, node))
            o = self.obj(st, r)
            if seq is not None:
                o.items = list(seq)
            else:
                o.more = self.elem(args[0], st, 0)
                o.attrs['from'] = args[0]
            return r
        if name == 'super':
            return V('super', *args) if args else V(
                'super', V('cls', fr.cls) if fr.cls else NONE,
                self.selfv(fr, st))
        if name == 'getattr' and len(args) >= 2 and is_const(args[1]):
            return self.getattr(args[0], cval(args[1]), fr, cont, node)
        if name == 'setattr' and len(args) == 3 and is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], fr, cont, node)
            return NONE
        if name == 'functools.partial' and args:
            return V('partial', args[0], tuple(args[1:]),
                     tuple(sorted(kw.items())))
        if name in ('copy.copy', 'copy.deepcopy') and args:
            o = self.obj(st, args[0])
            if o is not None and o.kind != 'obj' and (
                    name == 'copy.copy'):
                r = self.new(st, o.kind)
                n = o.copy()
                st.heap[r.a[0]] = n
                return r
        if name == 'sorted' and args:
            seq = self.concrete_seq(args[0], st)
            if seq is not None and all(is_const(x) for x in seq) and \
                    'key' not in kw:
                try:
                    s = sorted((cval(x) for x in seq),
                               reverse=bool(cval(kw.get('reverse', FALSE))))
                    r = self.new(st, 'list')
                    self.obj(st, r).items = [const(x) for x in s]
                    return r
                except Exception:
                    pass
        if name == 'reversed' and len(args) == 1:
            seq = self.concrete_seq(args[0], st)
            if seq is not None:
                return V('tuple', tuple(reversed(seq)))
        if name in ('any', 'all') and len(args) == 1:
            seq = self.concrete_seq(args[0], st)
            if seq is not None and all(is_const(x) for x in seq):
                return const({'any': any, 'all': all}[name](
                    cval(x) for x in seq))
        return None

    def selfv(self, fr, st):
        ps = fr.fn.params() if fr.fn else []
        return st.frames[fr.fid].get(ps[0], NONE) if ps else NONE

    def dict_update(self, o, v, st):
        s = self.obj(st, v)
        if s is not None and s.kind == 'dict':
            for k, x in s.items.items():
                o.items[k] = x
            o.more = oneof(o.more, s.more)
            return
        seq = self.concrete_seq(v, st)
        if seq is not None:
            for p in seq:
                if p.op == 'tuple' and len(p.a[0]) == 2:
                    o.items[p.a[0][0]] = p.a[0][1]
            return
        o.more = oneof(o.more, V('valueof', v))
        o.attrs.setdefault('from', v)

    def container_method(self, ref, name, args, kw, fr, cont, node):
        st = cont.st
        o = st.heap.get(ref.a[0])
        if o is None:
            mo = self.obj(st, ref)
            if mo is not None and name in ('append', 'add', 'extend', 'insert', 'update', 'pop', 'popitem', 'remove', 'clear', 'setdefault'):
                o = st.heap[ref.a[0]] = mo.copy()
            else:
                o = mo
        k = o.kind
        mut = keep = False
        res = None
        if k == 'list':
            if name == 'append':
                if o.more is None:
                    o.items.append(args[0])
                else:
                    o.more = oneof(o.more, args[0])
                mut, res = True, NONE
            elif name in ('extend',):
                seq = self.concrete_seq(args[0], st)
                if seq is not None and o.more is None:
                    o.items.extend(seq)
                else:
                    both = None
                    if o.more is None:
                        both = V('tuple', (V('tuple', tuple(o.items)),
                                           args[0]))
                    o.more = oneof(o.more, self.elem(args[0], st, 0))
                    if both is not None:
                        o.attrs = {'concat': both}
                        both = o
                mut, res = True, NONE
                if seq is None and both is o:
                    keep = True
            elif name == 'insert':
                if o.more is None and is_const(args[0]) and \
                        isinstance(cval(args[0]), int):
                    o.items.insert(cval(args[0]), args[1])
                else:
                    o.more = oneof(o.more, args[1])
                mut, res = True, NONE
            elif name == 'pop':
                if o.more is None and o.items and (
                        not args or is_const(args[0])):
                    try:
                        res = o.items.pop(*[cval(x) for x in args])
                    except Exception:
                        res = V('call', V('attr', ref, name), tuple(args),
                                (), fresh())
                else:
                    res = V('call', V('attr', ref, name), tuple(args), (),
                            fresh())
                mut = True
            elif name in ('sort', 'reverse', 'remove', 'clear'):
                o.more = oneof(o.more, *o.items)
                o.items = []
                mut, res = True, NONE
        elif k == 'set':
            if name == 'add':
                if o.more is None and args[0] not in o.items:
                    o.items.append(args[0])
                elif o.more is not None:
                    o.more = oneof(o.more, args[0])
                mut, res = True, NONE
            elif name == 'update':
                seq = self.concrete_seq(args[0], st)
                if seq is not None and o.more is None:
                    o.items.extend(x for x in seq if x not in o.items)
                else:
                    o.more = oneof(o.more, self.elem(args[0], st, 0))
                mut, res = True, NONE
            elif name in ('remove', 'discard', 'clear', 'pop'):
                mut = True
        elif k == 'dict':
            if name in ('get', 'pop', 'setdefault') and args:
                cur = o.items.get(args[0])
                dflt = args[1] if len(args) > 1 else NONE
                if self.raw and not is_const(args[0]):
                    res = V('call', V('attr', ref, name), tuple(args), (), 0)
                    if name == 'setdefault':
                        o.more = oneof(o.more, dflt)
                        mut = True
                elif cur is None and o.more is None and is_const(args[0]):
                    res = dflt
                    if name == 'setdefault':
                        o.items[args[0]] = dflt
                        mut = True
                elif cur is not None and cur is not ABSENT and not (
                        cur.op in ('phi', 'oneof')):
                    res = cur
                else:
                    res = V('call', V('attr', ref, 'get'),
                            (args[0], dflt), (), 0)
                if name == 'pop':
                    o.items.pop(args[0], None)
                    mut = True
            elif name == 'update':
                if args:
                    self.dict_update(o, args[0], st)
                for kk, v in kw.items():
                    o.items[const(kk)] = v
                mut, res = True, NONE
            elif name in ('items', 'keys', 'values', 'iteritems', 'copy',
                          'itervalues', 'iterkeys'):
                if name == 'copy':
                    r = self.new(st, 'dict')
                    st.heap[r.a[0]] = o.copy()
                    return r
                res = V('call', V('attr', ref, name.replace('iter', '')
                                  if name != 'items' else name), (), (), 0)
                return res
        if mut:
            o.dirty = True
            if k in ('list', 'set') and not keep:
                o.attrs = {a: x for a, x in o.attrs.items()
                           if a not in ('from', 'comp_iter', 'concat')}
        if res is None:
            res = self.opaque_call(V('attr', ref, name), args, kw, fr, cont,
                                   node)
        else:
            self.emit(fr, cont, 'mut' if mut else 'call', node,
                      f=V('attr', ref, name), args=args, kw=kw, res=res)
        return res

    # ---------------------------------------------------------- sequences --
    def concrete_seq(self, v, st, dict_keys=True):
        """Known list of element V's, or None."""
        if v.op == 'tuple':
            return None if any(x.op == 'star' for x in v.a[0]) else list(
                v.a[0])
        o = self.obj(st, v)
        if o is not None and o.kind in ('list', 'set') and o.more is None:
            return list(o.items)
        if o is not None and o.kind == 'dict' and o.more is None and \
                dict_keys and not any(x is ABSENT or x.op in ('phi', 'oneof')
                                      and ABSENT in x.a for x in
                                      o.items.values()):
            return list(o.items)
        if v.op == 'const' and isinstance(cval(v), (str, tuple)) and \
                not isinstance(cval(v), str):
            return [const(x) for x in cval(v)]
        if v.op == 'call':
            f, args, kw, u = v.a
            if f.op == 'ext' and f.a[0] in ('range', 'xrange') and \
                    args and all(is_const(a) and isinstance(cval(a), int)
                                 for a in args):
                r = range(*[cval(a) for a in args])
                if len(r) <= self.UNROLL:
                    return [const(i) for i in r]
                return None
            if f.op == 'ext' and f.a[0] == 'enumerate' and args:
                s = self.concrete_seq(args[0], st)
                start = 0
                if len(args) > 1:
                    start = cval(args[1])
                elif dict(kw).get('start') is not None:
                    start = cval(dict(kw)['start'])
                if s is not None and isinstance(start, int):
                    return [V('tuple', (const(i + start), x))
                            for i, x in enumerate(s)]
            if f.op == 'ext' and f.a[0] == 'zip' and args:
                ss = [self.concrete_seq(a, st) for a in args]
                if all(s is not None for s in ss):
                    return [V('tuple', tuple(t)) for t in zip(*ss)]
            if f.op == 'ext' and f.a[0] in ('list', 'tuple', 'iter', 'sorted',
                                            'reversed') and len(args) == 1:
                if f.a[0] in ('list', 'tuple', 'iter'):
                    return self.concrete_seq(args[0], st)
            if f.op == 'attr' and f.a[1] in ('items', 'keys', 'values'):
                o = self.obj(st, f.a[0])
                if o is not None and o.kind == 'dict' and o.more is None:
                    if self.concrete_seq(f.a[0], st) is None:
                        return None
                    if f.a[1] == 'keys':
                        return list(o.items)
                    if f.a[1] == 'values':
                        return list(o.items.values())
                    return [V('tuple', (k, x)) for k, x in o.items.items()]
        return None

    def elem(self, it, st, uid):
        """Abstract element of iterable it at loop uid."""
        o = self.obj(st, it)
        if self.precise and (it.op in ('tuple', 'genexp', 'phi') or
                             o is not None and o.kind in ('list', 'set')):
            return V('elem', it, uid)
        if it.op == 'tuple':
            return oneof(*it.a[0]) or V('elem', it, uid)
        if o is not None:
            if o.kind in ('list', 'set'):
                vals = list(o.items) + ([o.more] if o.more is not None
                                        else [])
                return oneof(*vals) or V('elem', it, uid)
            if o.kind == 'dict':
                return V('key', it, uid)
            if o.kind == 'obj':
                return V('elem', it, uid)
        if it.op in ('listcomp', 'genexp', 'setcomp'):
            return it.a[0]
        if it.op == 'gen':
            return oneof(*self.gens.get(it.a[1], [])) or V('elem', it, uid)
        if it.op == 'phi':
            return mkphi(it.a[0], self.elem(it.a[1], st, uid),
                         self.elem(it.a[2], st, uid))
        if it.op == 'call':
            f, args, kw, u = it.a
            if f.op == 'attr' and not args:
                d, m = f.a
                if m in ('items', 'iteritems'):
                    k = V('key', d, uid)
                    return V('tuple', (k, self.index0(d, k, st)))
                if m in ('keys', 'iterkeys'):
                    return V('key', d, uid)
                if m in ('values', 'itervalues'):
                    return self.index0(d, V('key', d, uid), st)
            if f.op == 'ext':
                n = f.a[0]
                if n in ('list', 'tuple', 'iter', 'reversed', 'sorted',
                         'set') and args:
                    moves = n in ('sorted', 'reversed')
                    if moves and self.precise:
                        return V('elem', it, uid)
                    return wrapped(self.elem(args[0], st, uid), it, moves)
                if n == 'enumerate' and args:
                    i = V('elem', V('call', V('ext', 'range'),
                                    (V('call', V('ext', 'len'), (args[0],),
                                       (), 0),), (), 0), uid)
                    start = args[1] if len(args) > 1 else dict(kw).get(
                        'start')
                    if start is not None and not is_const(start, 0):
                        i = self.binop('+', i, start)
                    return V('tuple', (i, self.elem(args[0], st, uid)))
                if n == 'zip':
                    return V('tuple', tuple(self.elem(a, st, uid)
                                            for a in args))
        if it.op == 'idx' and it.a[1].op == 'slice':
            if self.precise:
                return V('elem', it, uid)
            return wrapped(self.elem(it.a[0], st, uid), it, True)
        return V('elem', it, uid)

    def index0(self, d, k, st):
        o = self.obj(st, d)
        if o is not None and o.kind == 'dict':
            if self.raw and not is_const(k):
                return V('idx', d, k)
            if k in o.items:
                v = o.items[k]
                if v is not ABSENT:
                    return v
            elif o.more is not None or not is_const(k):
                vals = [x for x in o.items.values() if x is not ABSENT]
                if is_const(k):
                    vals = []
                elif self.precise:
                    return V('idx', d, k)
                r = oneof(*(vals + ([o.more] if o.more is not None else [])))
                if r is not None:
                    if r.op == 'valueof' or (o.more is not None and
                                             o.more.op == 'valueof'):
                        return V('idx', d, k)
                    return r
        return V('idx', d, k)

    # --------------------------------------------------------- attributes --
    def getattr(self, b, name, fr, cont, node):
        st = cont.st
        op = b.op
        if op == 'mod':
            full = b.a[0] + '.' + name
            m = self.repo.modules.get(b.a[0])
            if m is not None and (name in m.bindings or m.stars):
                r = self.repo.resolve(m, name)
                if r is not None:
                    return self.glob(m, name)
            if full in self.repo.modules:
                return V('mod', full)
            return V('ext', full)
        if op == 'ext':
            return V('ext', b.a[0] + '.' + name)
        if op == 'cls':
            if name == '__name__':
                return const(b.a[0].name)
            ow, m = self.repo.lookup(b.a[0], name)
            if isinstance(m, Fn):
                if m.kind == 'classmethod':
                    return V('bound', m, b)
                return V('func', m)
            if m is not None:
                return self.classattr(ow, name, m)
            return V('attr', b, name)
        if op == 'super':
            cls, sv = (b.a + (NONE, NONE))[:2]
            c0 = cls.a[0] if cls.op == 'cls' else None
            o = self.obj(st, sv)
            start = o.cls if (o is not None and o.cls) else c0
            if sv.op == 'cls':
                start = sv.a[0]
            if c0 is not None and start is not None:
                if c0 not in self.repo.mro(start):
                    start = c0
                ow, m = self.repo.lookup(start, name, after=c0)
                if isinstance(m, Fn):
                    if m.kind == 'staticmethod':
                        return V('func', m)
                    return V('bound', m, sv)
                if m is not None:
                    return self.classattr(ow, name, m)
            return V('attr', b, name)
        if op == 'phi':
            a = self.getattr(b.a[1], name, fr, cont, node)
            c = self.getattr(b.a[2], name, fr, cont, node)
            return mkphi(b.a[0], a, c)
        if op == 'oneof':
            return oneof(*[self.getattr(x, name, fr, cont, node)
                           for x in b.a[0]])
        o = self.obj(st, b)
        if o is not None:
            if o.kind == 'obj':
                if name in o.attrs:
                    return o.attrs[name]
                if o.cls is not None and o.cls != 'exc':
                    if name == '__class__':
                        return V('cls', o.cls)
                    ow, m = self.repo.lookup(o.cls, name)
                    if isinstance(m, Fn):
                        if m.kind == 'property':
                            if self.opaque(m):
                                return V('attr', b, name)
                            return self.call_fn(m, [], {}, b, fr, cont, node)
                        if m.kind == 'classmethod':
                            return V('bound', m, V('cls', o.cls))
                        if m.kind == 'staticmethod':
                            return V('func', m)
                        return V('bound', m, b)
                    if m is not None:
                        return self.classattr(ow, name, m)
                return V('attr', b, name)
            if name in ('append', 'extend', 'insert', 'pop', 'sort',
                        'reverse', 'remove', 'clear', 'add', 'update',
                        'discard', 'get', 'items', 'keys', 'values',
                        'setdefault', 'copy', 'iteritems', 'itervalues',
                        'iterkeys', 'popitem'):
                return V('hmeth', b, name)
            return V('attr', b, name)
        return V('attr', b, name)

    def classattr(self, ow, name, node):
        key = ('clsattr', ow.qual, name)
        if key not in self.modcache:
            self.modcache[key] = V('sym', 'cyclic')
            fr = Frame(self.newfid(), None, ow.mod, ow)
            env = {}
            self.modst.frames[fr.fid] = env
            for k, m in ow.members.items():
                if isinstance(m, Fn):
                    env[k] = V('func', m)
            c = Cont(self.modst, Block())
            self.modcache[key] = self.ev(node, fr, c)
            if c.st is not self.modst:
                self.modst = c.st
        return self.modcache[key]

    def setattr(self, b, name, v, fr, cont, node, aug=None):
        st = cont.st
        o = self.obj(st, b)
        if o is not None and b.a[0] not in st.heap:
            o = st.heap[b.a[0]] = o.copy()
        if o is not None:
            if o.kind == 'obj' and o.cls is not None and o.cls != 'exc':
                ow, m = self.repo.lookup(o.cls, name + '.setter')
                if isinstance(m, Fn):
                    self.call_fn(m, [v], {}, b, fr, cont, node)
                    return
            old = o.attrs.get(name)
            o.attrs[name] = v
            self.emit(fr, cont, 'setattr', node, obj=b, name=name, val=v,
                      old=old, aug=aug)
        else:
            self.emit(fr, cont, 'setattr', node, obj=b, name=name, val=v,
                      old=None, aug=aug)

    # ----------------------------------------------------------- indexing --
    def index(self, b, i, fr, cont, node):
        st = cont.st
        if b.op == 'phi':
            return mkphi(b.a[0], self.index(b.a[1], i, fr, cont, node),
                         self.index(b.a[2], i, fr, cont, node))
        if b.op == 'oneof':
            return oneof(*[self.index(x, i, fr, cont, node)
                           for x in b.a[0]])
        if i.op == 'phi' and (b.op == 'tuple' or self.obj(st, b) is not None):
            return mkphi(i.a[0], self.index(b, i.a[1], fr, cont, node),
                         self.index(b, i.a[2], fr, cont, node))
        if b.op == 'tuple':
            if is_const(i) and isinstance(cval(i), int):
                try:
                    return b.a[0][cval(i)]
                except IndexError:
                    return V('bottom')
            if i.op == 'slice' and all(is_const(x) for x in i.a):
                try:
                    return V('tuple', b.a[0][slice(*[cval(x)
                                                     for x in i.a])])
                except Exception:
                    pass
        o = self.obj(st, b)
        if o is not None:
            if o.kind == 'list':
                if is_const(i) and isinstance(cval(i), int):
                    k = cval(i)
                    if o.more is None and -len(o.items) <= k < len(o.items):
                        return o.items[k]
                    if o.more is not None:
                        if 0 <= k < len(o.items):
                            return o.items[k]
                        if self.precise:
                            return V('idx', b, i)
                        return oneof(o.more, *o.items)
                elif i.op != 'slice' and self.precise:
                    return V('idx', b, i)
                elif i.op != 'slice':
                    vals = list(o.items) + ([o.more] if o.more is not None
                                            else [])
                    if vals and (o.more is not None):
                        return oneof(*vals)
                    if vals and len(vals) <= 8:
                        return oneof(*vals)
                elif all(is_const(x) for x in i.a) and o.more is None:
                    r = self.new(st, 'list')
                    self.obj(st, r).items = o.items[slice(
                        *[cval(x) for x in i.a])]
                    return r
                elif i.op == 'slice':
                    r = self.new(st, 'list')
                    n = self.obj(st, r)
                    n.more = oneof(o.more, *o.items)
                    n.attrs['from'] = V('idx', b, i)
                    return r
            elif o.kind == 'dict':
                return self.index0(b, i, st)
            elif o.kind == 'obj' and o.cls is not None and o.cls != 'exc':
                ow, m = self.repo.lookup(o.cls, '__getitem__')
                if isinstance(m, Fn) and not self.opaque(m):
                    return self.call_fn(m, [i], {}, b, fr, cont, node)
        if b.op in ('call',) and b.a[0].op == 'ext' and \
                b.a[0].a[0] in ('list', 'tuple') and i.op == 'slice':
            pass
        # x[i] for i in range(len(x))  ==  elem(x)
        if i.op == 'elem' and i.a[0].op == 'call' and \
                i.a[0].a[0] is V('ext', 'range') and len(i.a[0].a[1]) == 1:
            n = i.a[0].a[1][0]
            if n.op == 'call' and n.a[0] is V('ext', 'len') and \
                    n.a[1][0] is b:
                return self.elem(b, st, i.a[1])
        if b.op == 'elem' and False:
            pass
        if b.op == 'const' and is_const(i):
            try:
                return const(cval(b)[cval(i)])
            except Exception:
                pass
        if b.op == 'const' and i.op == 'slice' and all(is_const(x)
                                                       for x in i.a):
            try:
                return const(cval(b)[slice(*[cval(x) for x in i.a])])
            except Exception:
                pass
        return V('idx', b, i)

    # --------------------------------------------------------- statements --
    def block(self, stmts, fr, conts):
        outer = conts[0].blk if conts else None
        for s in stmts:
            if not conts:
                break
            if len(conts) == 1:
                outer = conts[0].blk
            new = []
            for c in conts:
                new.extend(self.stmt(s, fr, c))
            conts = new
            if len(conts) > self.MAX_CONTS:
                # everything since then lies in nodes of that block
                conts = [self.merge(conts, fr, outer)]
        return conts

    def merge(self, conts, fr, outer=None):
        if len(conts) == 1 and outer is None:
            return conts[0]
        st = self.join_many([(tuple(c.st.path.items()), c.st)
                             for c in conts])
        return Cont(st, outer)

    def stmt(self, s, fr, c):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [c]
        return m(s, fr, c)

    def s_Expr(self, s, fr, c):
        if isinstance(s.value, ast.Constant):
            return [c]
        v = self.ev(s.value, fr, c)
        return [] if v.op == 'bottom' else [c]

    def s_Assign(self, s, fr, c):
        v = self.ev(s.value, fr, c)
        if v.op == 'bottom':
            return []
        for t in s.targets:
            self.assign(t, v, fr, c)
        return [c]

    def s_AnnAssign(self, s, fr, c):
        if s.value is not None:
            v = self.ev(s.value, fr, c)
            self.assign(s.target, v, fr, c)
        return [c]

    def s_AugAssign(self, s, fr, c):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr, c)
            v = self.ev(s.value, fr, c)
            o = self.obj(c.st, cur)
            if o is not None and o.kind == 'list' and op == '+':
                self.container_method(cur, 'extend', [v], {}, fr, c, s)
                return [c]
            self.emit(fr, c, 'aug', s, target=cur, aop=op, val=v)
            if is_const(cur) or self.scalarish(cur):
                self.setname(t.id, self.binop(op, cur, v), fr, c)
            else:
                self.setname(t.id, V('aug', op, cur, v), fr, c)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, c)
            cur = self.getattr(b, t.attr, fr, c, s)
            v = self.ev(s.value, fr, c)
            o = self.obj(c.st, cur)
            if o is not None and o.kind == 'list' and op == '+':
                self.container_method(cur, 'extend', [v], {}, fr, c, s)
                return [c]
            self.emit(fr, c, 'aug', s, target=cur, aop=op, val=v)
            self.setattr(b, t.attr, self.binop(op, cur, v), fr, c, s, aug=op)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, c)
            i = self.ev(t.slice, fr, c)
            cur = self.index(b, i, fr, c, s)
            v = self.ev(s.value, fr, c)
            self.setitem(b, i, self.binop(op, cur, v), fr, c, s, aug=op,
                         rhs=v)
        return [c]

    def scalarish(self, v):
        return v.op in ('const', 'bin', 'cmp') and False or (
            v.op in ('loopvar', 'loopout') and v.a[2] is not None and
            is_const(v.a[2])) or v.op == 'bin' and all(
                is_const(x) or self.scalarish(x) for x in v.a[1:])

    def assign(self, t, v, fr, c):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr, c)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, c)
            self.setattr(b, t.attr, v, fr, c, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, c)
            i = self.ev(t.slice, fr, c)
            self.setitem(b, i, v, fr, c, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            seq = self.concrete_seq(v, c.st)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    if seq is not None:
                        tail = n - i - 1
                        part = seq[i:len(seq) - tail]
                        r = self.new(c.st, 'list')
                        self.obj(c.st, r).items = part
                        self.assign(e.value, r, fr, c)
                    else:
                        self.assign(e.value, V('idx', v, V(
                            'slice', const(i), NONE, NONE)), fr, c)
                    continue
                if star and i > star[0]:
                    j = i - n
                else:
                    j = i
                if seq is not None and -len(seq) <= j < len(seq):
                    x = seq[j]
                else:
                    x = self.unpack(v, j, n, fr, c, t)
                self.assign(e, x, fr, c)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, c)

    def unpack(self, v, j, n, fr, c, node):
        return self.index(v, const(j), fr, c, node)

    def setitem(self, b, i, v, fr, c, node, aug=None, rhs=None):
        o = self.obj(c.st, b)
        if o is not None and b.a[0] not in c.st.heap:
            o = c.st.heap[b.a[0]] = o.copy()
        self.emit(fr, c, 'setitem', node, obj=b, idx=i, val=v, aug=aug,
                  rhs=rhs if rhs is not None else v)
        if o is not None:
            o.dirty = True
            if o.kind == 'dict':
                if self.raw and not is_const(i):
                    o.more = oneof(o.more, v)
                elif is_const(i) or i in o.items:
                    o.items[i] = v
                elif i.op in ('key', 'elem', 'loopvar') or True:
                    o.items[i] = v
            elif o.kind == 'list':
                if is_const(i) and isinstance(cval(i), int) and \
                        o.more is None and \
                        -len(o.items) <= cval(i) < len(o.items):
                    o.items[cval(i)] = v
                else:
                    o.more = oneof(o.more, v, *o.items)
                    o.items = []
            elif o.kind == 'obj' and o.cls is not None and o.cls != 'exc':
                ow, m = self.repo.lookup(o.cls, '__setitem__')
                if isinstance(m, Fn):
                    self.call_fn(m, [i, v], {}, b, fr, c, node)

    def s_Delete(self, s, fr, c):
        for t in s.targets:
            if isinstance(t, ast.Name):
                c.st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, c)
                i = self.ev(t.slice, fr, c)
                o = self.obj(c.st, b)
                self.emit(fr, c, 'delitem', s, obj=b, idx=i)
                if o is not None and o.kind == 'dict':
                    if b.a[0] not in c.st.heap:
                        o = c.st.heap[b.a[0]] = o.copy()
                    o.items.pop(i, None)
                    o.dirty = True
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, c)
                self.emit(fr, c, 'delattr', s, obj=b, name=t.attr)
        return [c]

    def s_Return(self, s, fr, c):
        v = self.ev(s.value, fr, c) if s.value is not None else NONE
        if v.op == 'bottom':
            return []
        self.emit(fr, c, 'return', s, val=v)
        ep = dict(fr.entry_path)
        fr.returns.append((self.path_suffix(c.st, ep), v, c.st))
        return []

    def s_Raise(self, s, fr, c):
        v = self.ev(s.exc, fr, c) if s.exc is not None else V('reraise')
        self.emit(fr, c, 'raise', s, exc=v)
        return []

    def s_Assert(self, s, fr, c):
        v = self.ev(s.test, fr, c)
        self.emit(fr, c, 'assert', s, cond=v)
        self.assume(c.st, v, True)
        return [c]

    def s_Pass(self, s, fr, c):
        return [c]

    def s_Break(self, s, fr, c):
        self.emit(fr, c, 'break', s)
        if fr.loops:
            fr.loops[-1]['breaks'].append(c.st)
        return []

    def s_Continue(self, s, fr, c):
        self.emit(fr, c, 'continue', s)
        if fr.loops:
            fr.loops[-1]['conts'].append(c.st)
        return []

    def s_Global(self, s, fr, c):
        fr.globals_.update(s.names)
        return [c]

    def s_Import(self, s, fr, c):
        for al in s.names:
            n = al.asname or al.name.split('.')[0]
            full = al.name if al.asname else al.name.split('.')[0]
            self.setname(n, V('mod' if full in self.repo.modules else 'ext',
                              full), fr, c)
        return [c]

    def s_ImportFrom(self, s, fr, c):
        for al in s.names:
            base = s.module or ''
            m = self.repo.modules.get(base)
            if m is not None and self.repo.resolve(m, al.name):
                v = self.glob(m, al.name)
            elif base + '.' + al.name in self.repo.modules:
                v = V('mod', base + '.' + al.name)
            else:
                v = V('ext', base + '.' + al.name)
            self.setname(al.asname or al.name, v, fr, c)
        return [c]

    def s_FunctionDef(self, s, fr, c):
        f = Fn(s.name, (fr.fn.qual if fr.fn else fr.mod.name) + '.' + s.name,
               s, fr.mod, fr.cls, 'function', fr.fid)
        self.captured.add(fr.fid)
        self.setname(s.name, V('func', f), fr, c)
        return [c]

    def s_ClassDef(self, s, fr, c):
        k = Cls(s.name, (fr.fn.qual if fr.fn else fr.mod.name) + '.' +
                s.name, s, fr.mod)
        self.setname(s.name, V('cls', k), fr, c)
        return [c]

    # truth ---------------------------------------------------------------
    def truth(self, v, st):
        """-> True/False/None"""
        if v.op == 'const':
            return bool(cval(v))
        if v.op == 'tuple':
            return len(v.a[0]) > 0
        if v.op in ('func', 'bound', 'cls', 'mod', 'partial'):
            return True
        if v.op == 'not':
            t = self.truth(v.a[0], st)
            return None if t is None else not t
        if v.op == 'and':
            ts = [self.truth(x, st) for x in v.a[0]]
            if any(t is False for t in ts):
                return False
            if all(t is True for t in ts):
                return True
        if v.op == 'or':
            ts = [self.truth(x, st) for x in v.a[0]]
            if any(t is True for t in ts):
                return True
            if all(t is False for t in ts):
                return False
        o = self.obj(st, v)
        if o is not None:
            if o.kind == 'obj':
                return None if o.cls is None or o.cls == 'exc' else (
                    True if not self.repo.ext_bases(o.cls) & {
                        'list', 'dict'} else None)
            if o.items and not (o.kind == 'dict' and any(
                    x is ABSENT or (x.op in ('phi', 'oneof'))
                    for x in o.items.values())):
                return True
            if not o.items and o.more is None:
                return False
        c, pol = norm_cond(v)
        if c in st.path:
            return st.path[c] == pol
        if c.op == 'const':
            return bool(cval(c)) == pol
        return None

    def assume(self, st, v, val):
        c, pol = norm_cond(v)
        if c.op == 'and' and pol == val:
            for x in c.a[0]:
                self.assume(st, x, True)
        if c.op == 'or' and pol != val:
            for x in c.a[0]:
                self.assume(st, x, False)
        st.path[c] = (pol == val)

    def s_If(self, s, fr, c):
        v = self.ev(s.test, fr, c)
        if v.op == 'bottom':
            return []
        t = self.truth(v, c.st)
        if t is True:
            return self.block(s.body, fr, [c])
        if t is False:
            return self.block(s.orelse, fr, [c])
        cond, pol = norm_cond(v)
        ba, bb = (s.body, s.orelse) if pol else (s.orelse, s.body)
        st2 = c.st.copy()
        A, B = Block(), Block()
        ca, cb = Cont(c.st, A), Cont(st2, B)
        self.assume(ca.st, cond, True)
        self.assume(cb.st, cond, False)
        base_path = dict(c.st.path)
        node = If(cond, A, B, self.loc(fr, s))
        c.blk.append(node)
        outer = c.blk
        ra = self.block(ba, fr, [ca])
        rb = self.block(bb, fr, [cb])
        if not ra and not rb:
            return []
        if not ra:
            return rb
        if not rb:
            return ra
        if len(ra) == 1 and len(rb) == 1 and ra[0].blk is A and \
                rb[0].blk is B:
            st = self.join(cond, ra[0].st, rb[0].st)
            return [Cont(st, outer)]
        if len(ra) + len(rb) > self.MAX_CONTS:
            st = self.join(cond, self.merge(ra, fr, A).st,
                           self.merge(rb, fr, B).st)
            return [Cont(st, outer)]
        return ra + rb

    # loops -----------------------------------------------------------------
    def s_For(self, s, fr, c):
        it = self.ev(s.iter, fr, c)
        if it.op == 'bottom':
            return []
        seq = self.concrete_seq(it, c.st)
        if seq is not None and len(seq) <= self.UNROLL and not (
                it.op == 'ref' and self.obj(c.st, it).kind == 'set' and
                False):
            return self.unrolled(seq, s, fr, c)
        return self.abstract_loop(s, fr, c, 'for', it)

    def unrolled(self, seq, s, fr, c):
        """A loop over a known sequence: one 'iter' node per element inside
        an 'unroll' node, so that break/continue keep their meaning."""
        outer = c.blk
        node = Loop('unroll', None, Block(), 0, self.loc(fr, s))
        outer.append(node)
        st = c.st
        exits = []
        for e in seq:
            ib = Block()
            node.body.append(Loop('iter', None, ib, 0, self.loc(fr, s)))
            k = Cont(st, ib)
            fr.loops.append({'breaks': [], 'conts': []})
            self.assign(s.target, e, fr, k)
            ks = self.block(s.body, fr, [k])
            L = fr.loops.pop()
            exits.extend(L['breaks'])
            ends = [x.st for x in ks] + L['conts']
            if not ends:
                st = None
                break
            st = self.join_states(ends)
        if st is not None and s.orelse:
            ob = Block()
            node.orelse = ob
            ks = self.block(s.orelse, fr, [Cont(st, ob)])
            st = self.join_states([x.st for x in ks]) if ks else None
        outs = ([st] if st is not None else []) + exits
        if not outs:
            return []
        return [Cont(self.join_states(outs), outer)]

    def join_states(self, sts):
        if len(sts) == 1:
            return sts[0]
        return self.join_many([(tuple(x.path.items()), x) for x in sts])

    def havoc(self, st0, st1, uid, depth_frames=None):
        """Return a copy of st0 where all that differs in st1 is havocked."""
        st = st0.copy()
        changed = False
        for fid, f1 in st1.frames.items():
            f0 = st0.frames.get(fid)
            if f0 is None:
                continue
            for k, v in f1.items():
                if k not in f0:
                    continue
                if f0[k] is not v:
                    st.frames[fid][k] = V('loopvar', uid, k, f0[k])
                    changed = True
        for h, o1 in st1.heap.items():
            o0 = st0.heap.get(h)
            if o0 is None or o0.same(o1):
                continue
            changed = True
            n = st.heap[h]
            for k, v in o1.attrs.items():
                if o0.attrs.get(k) is not v:
                    n.attrs[k] = V('loopvar', uid, '#%s.%s' % (h, k),
                                   o0.attrs.get(k, NONE))
            if o1.items != o0.items or o1.more is not o0.more:
                if o1.kind in ('list', 'set'):
                    m = 0
                    # append-only prefix is kept
                    new = o1.items[len(o0.items):] if \
                        o1.items[:len(o0.items)] == o0.items else \
                        list(o1.items) + list(o0.items)
                    if o1.items[:len(o0.items)] != o0.items:
                        n.items = []
                    n.more = oneof(o0.more, o1.more, *new)
                else:
                    for k, v in o1.items.items():
                        if o0.items.get(k) is not v:
                            if k in o0.items:
                                n.items[k] = oneof(o0.items[k], v)
                            else:
                                n.items[k] = oneof(v, ABSENT)
                    if o1.more is not o0.more:
                        n.more = oneof(o0.more, o1.more)
            n.dirty = o1.dirty
        st.path = {}
        for cnd, b in st0.path.items():
            st.path[cnd] = b
        return st, changed

    def abstract_loop(self, s, fr, c, kind, it):
        # uid keyed by site so that both discovery passes agree
        uid = fresh()
        st0 = c.st
        # discovery run
        probe = st0.copy()
        for _ in range(2):
            pc = Cont(probe, Block())
            ends = self.loop_body(s, fr, pc, kind, it, uid)[0]
            if not ends:
                merged = pc.st
                break
            merged = self.join_many([(tuple(k.path.items()), k)
                                     for k in ends])
            hv, ch = self.havoc(st0, merged, uid)
            probe = hv
            if not ch:
                break
        base, ch = self.havoc(st0, merged, uid)
        body = Block()
        bc = Cont(base.copy(), body)
        node = Loop(kind, it, body, uid, self.loc(fr, s))
        c.blk.append(node)
        nret = len(fr.returns)
        ends, breaks, cond = self.loop_body(s, fr, bc, kind, it, uid)
        node.cond = cond
        node.has_break = bool(breaks)
        node.infinite = kind == 'while' and cond is not None and \
            self.truth(cond, base) is True
        node.steps = {}
        if ends:
            em = self.join_many([(tuple(k.path.items()), k) for k in ends])
            for fid, f in base.frames.items():
                for k, v in f.items():
                    if v.op == 'loopvar' and v.a[0] == uid:
                        node.steps[v] = em.frames.get(fid, {}).get(k, v)
        # exit state
        outs = list(breaks)
        if not node.infinite:
            outs += list(ends)
            outs.append(base)
        if not outs:
            return []
        out, _ = self.havoc(st0, merged, uid)
        endm = self.join_many([(tuple(k.path.items()), k)
                               for k in (list(ends) + list(breaks)) or
                               [base]])
        for fid, f in out.frames.items():
            for k, v in f.items():
                if v.op == 'loopvar' and v.a[0] == uid:
                    f[k] = V('loopout', uid, k, v.a[2],
                             endm.frames.get(fid, {}).get(k, v))
        # names first bound inside the loop
        for fid, f1 in endm.frames.items():
            f0 = out.frames.get(fid)
            if f0 is None:
                out.frames[fid] = dict(f1)
                continue
            for k, v in f1.items():
                if k not in f0:
                    f0[k] = v
        for h, o in out.heap.items():
            for k, v in o.attrs.items():
                if isinstance(v, V) and v.op == 'loopvar' and v.a[0] == uid:
                    eo = endm.heap.get(h)
                    o.attrs[k] = V('loopout', uid, v.a[1], v.a[2],
                                   eo.attrs.get(k, v) if eo else v)
        for h, o in endm.heap.items():
            if h not in out.heap:
                out.heap[h] = o.copy()
        for h, o in out.heap.items():
            eo = endm.heap.get(h)
            if eo is None or eo.more is o.more or o.more is None:
                continue
            # the objects of the discovery passes are gone
            m = [x for y in (o.more, eo.more) if y is not None
                 for x in (y.a[0] if y.op == 'oneof' else (y,))
                 if x.op != 'ref' or x.a[0] in out.heap or
                 x.a[0] in self.modst.heap]
            o.more = oneof(*m) or o.more
        out.path = dict(st0.path)
        if kind == 'while' and cond is not None and not breaks:
            self.assume(out, cond, False)
        k = Cont(out, c.blk)
        if s.orelse:
            ob = Block()
            node.orelse = ob
            self.block(s.orelse, fr, [Cont(out.copy(), ob)])
        return [k]

    def loop_body(self, s, fr, bc, kind, it, uid):
        """-> (end states, break states, cond)"""
        fr.loops.append({'breaks': [], 'conts': []})
        cond = None
        if kind == 'for':
            self.assign(s.target, self.elem(it, bc.st, uid), fr, bc)
        else:
            cond = self.ev(s.test, fr, bc)
            if self.truth(cond, bc.st) is None:
                self.assume(bc.st, cond, True)
        conts = self.block(s.body, fr, [bc])
        L = fr.loops.pop()
        ends = [k.st for k in conts] + L['conts']
        return ends, L['breaks'], cond

    def s_While(self, s, fr, c):
        return self.abstract_loop(s, fr, c, 'while', None)

    def s_With(self, s, fr, c):
        ctxs = []
        for it in s.items:
            v = self.ev(it.context_expr, fr, c)
            ctxs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, c)
        b = Block()
        c.blk.append(With(ctxs, b, self.loc(fr, s)))
        outer = c.blk
        ks = self.block(s.body, fr, [Cont(c.st, b)])
        if len(ks) == 1 and ks[0].blk is b:
            return [Cont(ks[0].st, outer)]
        return ks

    def s_Try(self, s, fr, c):
        outer = c.blk
        st0 = c.st.copy()
        b, f = Block(), Block()
        node = Try(b, [], f, self.loc(fr, s))
        outer.append(node)
        ks = self.block(s.body, fr, [Cont(c.st, b)])
        if s.orelse and ks:
            ks = self.block(s.orelse, fr, ks)
        outs = [k.st for k in ks]
        uid = fresh()
        # handler entry: something between entry and the end of the body
        for i, h in enumerate(s.handlers):
            hb = Block()
            types = self.ev(h.type, fr, Cont(st0, Block())) if h.type else None
            hs = st0.copy()
            if outs:
                hs = self.join(V('choice', fresh()), outs[0].copy(), hs)
            hc = Cont(hs, hb)
            if h.name:
                hc.st.frames[fr.fid][h.name] = V('sym', 'exc:%d' % uid)
            node.handlers.append((types, hb))
            hk = self.block(h.body, fr, [hc])
            outs.extend(k.st for k in hk)
        if s.finalbody:
            fs = outs[0].copy() if outs else st0.copy()
            for o in outs[1:]:
                fs = self.join(V('choice', fresh()), fs, o)
            fk = self.block(s.finalbody, fr, [Cont(fs, f)])
            if not outs or not fk:
                return []
            return [Cont(fk[0].st, outer)]
        if not outs:
            return []
        if len(ks) == 1 and len(outs) == 1:
            return ks if ks[0].blk is not b else [Cont(ks[0].st, outer)]
        st = outs[0]
        for o in outs[1:]:
            st = self.join(V('choice', fresh()), st, o)
        return [Cont(st, outer)]

    # -------------------------------------------------------------- names --
    def name(self, n, fr, c):
        st = c.st
        f = st.frames.get(fr.fid)
        if f is None:
            f = self.modst.frames.get(fr.fid, {})
        if n in f and n not in fr.globals_:
            return f[n]
        fid = fr.fn.frame if fr.fn is not None else None
        seen = set()
        while fid is not None and fid not in seen:
            seen.add(fid)
            g = st.frames.get(fid) or self.modst.frames.get(fid) or {}
            if n in g:
                return g[n]
            fid = self.frame_parent.get(fid)
        return self.glob(fr.mod, n)

    def setname(self, n, v, fr, c):
        if n in fr.globals_:
            self.emit(fr, c, 'setglobal', None, name=n, val=v)
            return
        c.st.frames.setdefault(fr.fid, {})[n] = v

    # -------------------------------------------------------- expressions --
    def ev(self, e, fr, c):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return V('sym', 'expr:%s' % type(e).__name__)
        return m(e, fr, c)

    def e_Constant(self, e, fr, c):
        v = e.value
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            return V('sym', repr(v))
        return const(v)

    def e_Name(self, e, fr, c):
        return self.name(e.id, fr, c)

    def e_Attribute(self, e, fr, c):
        b = self.ev(e.value, fr, c)
        return self.getattr(b, e.attr, fr, c, e)

    def e_Subscript(self, e, fr, c):
        b = self.ev(e.value, fr, c)
        i = self.ev(e.slice, fr, c)
        return self.index(b, i, fr, c, e)

    def e_Slice(self, e, fr, c):
        f = lambda x: self.ev(x, fr, c) if x is not None else NONE
        return V('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, fr, c):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr, c)
                s = self.concrete_seq(v, c.st)
                if s is None:
                    out.append(V('star', v))
                else:
                    out.extend(s)
            else:
                out.append(self.ev(x, fr, c))
        return V('tuple', tuple(out))

    def e_List(self, e, fr, c):
        t = self.e_Tuple(e, fr, c)
        r = self.new(c.st, 'list', loc=self.loc(fr, e))
        o = self.obj(c.st, r)
        for x in t.a[0]:
            if x.op == 'star':
                o.more = oneof(o.more, self.elem(x.a[0], c.st, 0))
            else:
                o.items.append(x)
        return r

    def e_Set(self, e, fr, c):
        r = self.new(c.st, 'set', loc=self.loc(fr, e))
        items = []
        for x in e.elts:
            v = self.ev(x, fr, c)
            if v not in items:
                items.append(v)
        self.obj(c.st, r).items = items
        return r

    def e_Dict(self, e, fr, c):
        r = self.new(c.st, 'dict', loc=self.loc(fr, e))
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, fr, c)
            o = self.obj(c.st, r)
            if k is None:
                self.dict_update(o, vv, c.st)
            else:
                kk = self.ev(k, fr, c)
                self.obj(c.st, r).items[kk] = vv
        return r

    def e_Starred(self, e, fr, c):
        return V('star', self.ev(e.value, fr, c))

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == '+':
                    return const(x + y)
                if op == '-':
                    return const(x - y)
                if op == '*' and not (isinstance(x, str) or
                                      isinstance(y, str)):
                    return const(x * y)
                if op == '/':
                    return const(x / y)
                if op == '//':
                    return const(x // y)
                if op == '**' and abs(y) < 20:
                    return const(x ** y)
                if op == '%' and not isinstance(x, str):
                    return const(x % y)
            except Exception:
                pass
        if op == '+' and a.op == 'tuple' and b.op == 'tuple':
            return V('tuple', a.a[0] + b.a[0])
        return V('bin', op, a, b)

    def e_BinOp(self, e, fr, c):
        a = self.ev(e.left, fr, c)
        b = self.ev(e.right, fr, c)
        op = BINOPS[type(e.op)]
        oa, ob = self.obj(c.st, a), self.obj(c.st, b)
        if oa is not None and oa.kind == 'obj' and oa.cls is not None and \
                oa.cls != 'exc':
            nm = {'+': '__add__', '-': '__sub__', '>>': '__rshift__',
                  '*': '__mul__'}.get(op)
            if nm:
                ow, m = self.repo.lookup(oa.cls, nm)
                if isinstance(m, Fn) and not self.opaque(m):
                    return self.call_fn(m, [b], {}, a, fr, c, e)
        if op == '+' and oa is not None and oa.kind == 'list':
            r = self.new(c.st, 'list', loc=self.loc(fr, e))
            o = self.obj(c.st, r)
            o.items = list(oa.items)
            o.more = oa.more
            seq = self.concrete_seq(b, c.st)
            if seq is not None and o.more is None:
                o.items += seq
            else:
                o.more = oneof(o.more, self.elem(b, c.st, 0))
                o.attrs['concat'] = V('tuple', (a, b))
            return r
        if op in '|&-' and oa is not None and oa.kind == 'set' and \
                ob is not None and ob.kind == 'set' and \
                oa.more is None and ob.more is None:
            r = self.new(c.st, 'set', loc=self.loc(fr, e))
            o = self.obj(c.st, r)
            if op == '|':
                o.items = oa.items + [x for x in ob.items
                                      if x not in oa.items]
            elif op == '&':
                o.items = [x for x in oa.items if x in ob.items]
            else:
                o.items = [x for x in oa.items if x not in ob.items]
            return r
        return self.binop(op, a, b)

    def e_UnaryOp(self, e, fr, c):
        v = self.ev(e.operand, fr, c)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, c.st)
            if t is not None:
                return const(not t)
            return V('not', v) if v.op != 'not' else v.a[0]
        if isinstance(e.op, ast.USub):
            if is_const(v) and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return V('un', '-', v)
        if isinstance(e.op, ast.UAdd):
            return v
        return V('un', '~', v)

    def e_BoolOp(self, e, fr, c):
        isand = isinstance(e.op, ast.And)
        vals = []
        for i, x in enumerate(e.values):
            if not vals:
                v = self.ev(x, fr, c)
            else:
                b = Block()
                st = c.st.copy()
                prev = V('and', tuple(vals)) if len(vals) > 1 else vals[0]
                self.assume(st, prev, isand)
                c2 = Cont(st, b)
                v = self.ev(x, fr, c2)
                if len(b):
                    g = vals[0] if len(vals) == 1 else V(
                        'and' if isand else 'or', tuple(vals))
                    gc, pol = norm_cond(g)
                    A, B = (b, Block()) if (pol == isand) else (Block(), b)
                    c.blk.append(If(gc, A, B, self.loc(fr, e)))
                    path = dict(c.st.path)
                    c.st = self.join(V('choice', fresh()), c2.st, c.st)
                    c.st.path = path
                else:
                    for h, o in c2.st.heap.items():
                        if h not in c.st.heap:
                            c.st.heap[h] = o
            t = self.truth(v, c.st)
            if t is not None:
                if isand and not t:
                    if not vals:
                        return v
                    return FALSE
                if not isand and t:
                    if not vals:
                        return v
                    vals.append(v)
                    break
                if isand and t and i < len(e.values) - 1:
                    continue
                if not isand and not t and i < len(e.values) - 1:
                    continue
            vals.append(v)
        flat = []
        for v in vals:
            if v.op == ('and' if isand else 'or'):
                flat.extend(v.a[0])
            else:
                flat.append(v)
        if len(flat) == 1:
            return flat[0]
        # x or default  /  x and y as values
        return V('and' if isand else 'or', tuple(flat))

    def e_Compare(self, e, fr, c):
        left = self.ev(e.left, fr, c)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr, c)
            res.append(self.compare(CMPOPS[type(op)], left, right, c.st))
            left = right
        if len(res) == 1:
            return res[0]
        if any(is_const(x, False) for x in res):
            return FALSE
        res = [x for x in res if not is_const(x, True)]
        if not res:
            return TRUE
        return res[0] if len(res) == 1 else V('and', tuple(res))

    def compare(self, op, a, b, st):
        if op == '>':
            op, a, b = '<', b, a
        elif op == '>=':
            op, a, b = '<=', b, a
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                r = {'==': lambda: x == y, '!=': lambda: x != y,
                     '<': lambda: x < y, '<=': lambda: x <= y,
                     'is': lambda: x is y or (x == y and type(x) is type(y)),
                     'is not': lambda: not (x is y or (x == y and
                                                       type(x) is type(y))),
                     'in': lambda: x in y, 'not in': lambda: x not in y}[op]()
                return const(r)
            except Exception:
                pass
        if op in ('is', 'is not', '==', '!='):
            if is_const(a) and not is_const(b):
                a, b = b, a
            if a is b and op in ('is', 'is not'):
                return const(op == 'is')
            if is_const(b, None):
                nn = a.op in ('tuple', 'func', 'bound', 'cls', 'mod', 'ext',
                              'ref', 'bin', 'cmp', 'partial', 'hmeth',
                              'listcomp', 'genexp')
                if nn:
                    return const(op in ('is not', '!='))
            if a.op == 'cls' and b.op == 'cls' and a is not b:
                return const(op in ('is not', '!='))
            if a.op == 'phi' and (is_const(b)):
                x = self.compare(op, a.a[1], b, st)
                y = self.compare(op, a.a[2], b, st)
                if is_const(x) and is_const(y):
                    return mkphi(a.a[0], x, y)
        if op in ('==', '!=') and a.op == 'tuple' and b.op == 'tuple' and \
                not any(x.op == 'star' for x in a.a[0] + b.a[0]):
            if len(a.a[0]) != len(b.a[0]):
                return const(op == '!=')
            parts = [self.compare('==', x, y, st)
                     for x, y in zip(a.a[0], b.a[0])]
            if any(is_const(x, False) for x in parts):
                return const(op == '!=')
            parts = [x for x in parts if not is_const(x, True)]
            r = TRUE if not parts else parts[0] if len(parts) == 1 else \
                V('and', tuple(parts))
            if op == '==':
                return r
            return FALSE if r is TRUE else V('not', r)
        if op in ('in', 'not in'):
            seq = self.concrete_seq(b, st)
            if seq is not None and is_const(a) and all(is_const(x)
                                                       for x in seq):
                return const((a in seq) == (op == 'in'))
            o = self.obj(st, b)
            if o is not None and o.kind == 'dict' and a in o.items and \
                    o.items[a] is not ABSENT and o.items[a].op not in (
                        'phi', 'oneof'):
                return const(op == 'in')
            # membership in d.keys() is membership in d
            if b.op == 'call' and b.a[0].op == 'attr' and \
                    b.a[0].a[1] == 'keys':
                b = b.a[0].a[0]
        return V('cmp', op, a, b)

    def e_IfExp(self, e, fr, c):
        t = self.ev(e.test, fr, c)
        k = self.truth(t, c.st)
        if k is True:
            return self.ev(e.body, fr, c)
        if k is False:
            return self.ev(e.orelse, fr, c)
        cond, pol = norm_cond(t)
        A, B = Block(), Block()
        ca, cb = Cont(c.st.copy(), A), Cont(c.st, B)
        path = dict(c.st.path)
        self.assume(ca.st, t, True)
        self.assume(cb.st, t, False)
        x = self.ev(e.body, fr, ca)
        y = self.ev(e.orelse, fr, cb)
        if A or B:
            if not pol:
                A, B = B, A
            c.blk.append(If(cond, A, B, self.loc(fr, e)))
        c.st = self.join(t, ca.st, cb.st)
        c.st.path = path
        return mkphi(t, x, y)

    def e_Lambda(self, e, fr, c):
        f = Fn('<lambda>', (fr.fn.qual if fr.fn else fr.mod.name) +
               '.<lambda>', e, fr.mod, fr.cls, 'function', fr.fid)
        self.captured.add(fr.fid)
        # keep the closure frame alive in every state derived from here
        return V('func', f)

    def e_Call(self, e, fr, c):
        f = self.ev(e.func, fr, c)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, c)
                s = self.concrete_seq(v, c.st)
                if s is None:
                    args.append(V('star', v))
                else:
                    args.extend(s)
            else:
                args.append(self.ev(a, fr, c))
        for k in e.keywords:
            v = self.ev(k.value, fr, c)
            if k.arg is None:
                o = self.obj(c.st, v)
                if o is not None and o.kind == 'dict' and o.more is None and \
                        all(is_const(x) for x in o.items):
                    for x, y in o.items.items():
                        kw[cval(x)] = y
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if any(a.op == 'bottom' for a in args):
            return V('bottom')
        return self.call(f, args, kw, fr, c, e)

    def e_JoinedStr(self, e, fr, c):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                parts.append(self.ev(x.value, fr, c))
        if all(is_const(p) for p in parts):
            return const(''.join(str(cval(p)) for p in parts))
        return V('fmt', tuple(parts))

    def e_Yield(self, e, fr, c):
        v = self.ev(e.value, fr, c) if e.value is not None else NONE
        fr.yields.append(v)
        self.emit(fr, c, 'yield', e, val=v)
        return V('sent', fresh())

    def e_YieldFrom(self, e, fr, c):
        v = self.ev(e.value, fr, c)
        fr.yields.append(self.elem(v, c.st, fresh()))
        self.emit(fr, c, 'yield', e, val=self.elem(v, c.st, fresh()))
        return V('sent', fresh())

    def e_NamedExpr(self, e, fr, c):
        v = self.ev(e.value, fr, c)
        self.assign(e.target, v, fr, c)
        return v

    # comprehensions ------------------------------------------------------
    def comp(self, e, fr, c, kind):
        gens = e.generators
        # fully concrete single generator: unroll
        saved = dict(c.st.frames.get(fr.fid, {}))
        it = self.ev(gens[0].iter, fr, c)
        seq = self.concrete_seq(it, c.st)
        if len(gens) == 1 and seq is not None and len(seq) <= 64:
            out = []
            ok = True
            for x in seq:
                self.assign(gens[0].target, x, fr, c)
                keep = True
                cond = []
                for t in gens[0].ifs:
                    v = self.ev(t, fr, c)
                    k = self.truth(v, c.st)
                    if k is False:
                        keep = False
                        break
                    if k is None:
                        cond.append(v)
                if not keep:
                    continue
                if kind == 'dict':
                    out.append((self.ev(e.key, fr, c),
                                self.ev(e.value, fr, c), cond))
                else:
                    out.append((self.ev(e.elt, fr, c), None, cond))
            self.restore(saved, gens, fr, c)
            if not any(cd for _, _, cd in out):
                if kind == 'dict':
                    r = self.new(c.st, 'dict', loc=self.loc(fr, e))
                    for k, v, _ in out:
                        self.obj(c.st, r).items[k] = v
                    return r
                if kind == 'gen':
                    return V('tuple', tuple(k for k, _, _ in out))
                r = self.new(c.st, kind, loc=self.loc(fr, e))
                o = self.obj(c.st, r)
                for k, _, _ in out:
                    if kind == 'list' or k not in o.items:
                        o.items.append(k)
                return r
            if kind == 'dict':
                r = self.new(c.st, 'dict', loc=self.loc(fr, e))
                for k, v, cd in out:
                    if cd:
                        v = mkphi(cd[0] if len(cd) == 1 else
                                  V('and', tuple(cd)), v, ABSENT)
                    self.obj(c.st, r).items[k] = v
                return r
            r = self.new(c.st, 'list' if kind == 'gen' else kind,
                         loc=self.loc(fr, e))
            self.obj(c.st, r).more = oneof(*[k for k, _, _ in out])
            return r
        # abstract
        body = Block()
        uid = fresh()
        outer = c.blk
        node = Loop('comp', it, body, uid, self.loc(fr, e))
        outer.append(node)
        cc = Cont(c.st, body)
        conds = []
        first = True
        its = []
        for g in gens:
            if first:
                v = it
                first = False
                self.assign(g.target, self.elem(v, cc.st, uid), fr, cc)
            else:
                v = self.ev(g.iter, fr, cc)
                u2 = fresh()
                nb = Block()
                cc.blk.append(Loop('comp', v, nb, u2, self.loc(fr, e)))
                cc = Cont(cc.st, nb)
                self.assign(g.target, self.elem(v, cc.st, u2), fr, cc)
            its.append(v)
            for t in g.ifs:
                tv = self.ev(t, fr, cc)
                conds.append(tv)
                cn, pol = norm_cond(tv)
                A, B = Block(), Block()
                cc.blk.append(If(cn, A, B, self.loc(fr, e)))
                self.assume(cc.st, tv, True)
                cc = Cont(cc.st, A if pol else B)
        if kind == 'dict':
            k = self.ev(e.key, fr, cc)
            v = self.ev(e.value, fr, cc)
        else:
            k = self.ev(e.elt, fr, cc)
            v = None
        c.st = cc.st
        for cn in conds:
            c.st.path.pop(norm_cond(cn)[0], None)
        self.restore(saved, gens, fr, c)
        if kind == 'dict':
            r = self.new(c.st, 'dict', loc=self.loc(fr, e))
            o = self.obj(c.st, r)
            o.items[k] = v
            o.more = v
            o.attrs['comp_iter'] = its[0]
            o.attrs['comp_cond'] = V('tuple', tuple(conds))
            o.attrs['comp_key'] = k
            return r
        if kind == 'gen':
            return V('genexp', k, tuple(its), tuple(conds))
        r = self.new(c.st, kind, loc=self.loc(fr, e))
        o = self.obj(c.st, r)
        o.more = k
        o.attrs['comp_iter'] = its[0]
        o.attrs['comp_cond'] = V('tuple', tuple(conds))
        return r

    def restore(self, saved, gens, fr, c):
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        f = c.st.frames.setdefault(fr.fid, {})
        for n in names:
            if n in saved:
                f[n] = saved[n]
            else:
                f.pop(n, None)

    def e_ListComp(self, e, fr, c):
        return self.comp(e, fr, c, 'list')

    def e_SetComp(self, e, fr, c):
        return self.comp(e, fr, c, 'set')

    def e_DictComp(self, e, fr, c):
        return self.comp(e, fr, c, 'dict')

    def e_GeneratorExp(self, e, fr, c):
        return self.comp(e, fr, c, 'gen')
