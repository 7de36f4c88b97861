"""Exhaustive typestate exploration of a function.

The function (with the helpers it calls inlined) is explored as a finite
transition system: values are constants or opaque objects, the result of an
unknown test is chosen both ways, an opaque iterable may end or go on at every
step, counters are kept relative to what the protocol expects.  A state (all
frames, the objects reachable from them, the state of the protocol automaton)
that was seen at a loop head before is not explored again, so every history
of any length is covered.  The protocol automaton (monitor) is told every
event and raises Violation."""
import ast
import math
import collections

from . import arr as A_
from .arr import Arr, ArrErr, Lin, NoModel
from .symx import E


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, node=None):
        Exception.__init__(self, msg)
        self.node = node


class Pruned(Exception):
    pass


class PyExc(Exception):
    def __init__(self, name, val=None):
        Exception.__init__(self, name)
        self.name, self.val = name, val


class O(object):
    """an object nothing is known about except what was stored in it"""

    def __init__(self, tag, cls=None, kind='obj'):
        self.tag, self.cls, self.kind = tag, cls, kind
        self.attrs, self.truth, self.none = {}, None, None
        self.items, self.parent, self.name = {}, None, None

    def __repr__(self):
        return '<%s>' % self.tag


class L(O):
    """a list whose elements are known"""

    def __init__(self, seq=(), tag='list'):
        O.__init__(self, tag, kind='list')
        self.seq = list(seq)


class D(O):
    """a dictionary whose entries are known"""

    def __init__(self, pairs=(), tag='dict'):
        O.__init__(self, tag, kind='dict')
        self.items = dict(pairs)
        self.factory = None


def hashable(k):
    return isinstance(k, (type(None), bool, int, float, str)) or isinstance(
        k, tuple) and all(hashable(x) for x in k) or isinstance(k, O) \
        and not isinstance(k, (L, D)) or isinstance(k, ClsV)


def known(k):
    return isinstance(k, (type(None), bool, int, float, str)) or isinstance(
        k, tuple) and all(known(x) for x in k)


class Cnt(object):
    """base + n of one of the counters of the protocol"""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def __repr__(self):
        return '%s+%d' % (self.kind, self.n)


class Func(object):
    def __init__(self, fn, self_v=None, closure=None):
        self.fn, self.self_v, self.closure = fn, self_v, closure


class Ext(object):
    def __init__(self, name):
        self.name = name


class Mod(object):
    def __init__(self, mod):
        self.mod = mod


class Sl(object):
    """a slice that is not applied to a known sequence"""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return '%s:%s:%s' % (self.lo, self.hi, self.step)


def down(v):
    """machine value -> value of the array model"""
    if isinstance(v, L):
        return [down(x) for x in v.seq]
    if isinstance(v, tuple):
        return tuple(down(x) for x in v)
    if isinstance(v, Sl):
        return slice(v.lo, v.hi, v.step)
    if isinstance(v, Ext):
        return v.name
    return v


def up(v):
    if isinstance(v, list):
        return L([up(x) for x in v])
    if isinstance(v, tuple):
        return tuple(up(x) for x in v)
    return v


def model(f, *args):
    """call the array model"""
    try:
        return up(f(*args))
    except ArrErr as e:
        raise PyExc(e.name)
    except (NoModel, TypeError, ValueError, AttributeError, IndexError,
            OverflowError, ZeroDivisionError) as e:
        raise Unsupported('array: %s %s' % (type(e).__name__, e))


def numeric(v):
    if isinstance(v, Arr):
        return True
    if isinstance(v, L):
        return all(numeric(x) or isinstance(x, (int, float))
                   for x in v.seq)
    if isinstance(v, tuple):
        return all(numeric(x) or isinstance(x, (int, float)) for x in v)
    return False


def isset(v):
    return isinstance(v, L) and v.tag == 'set' and all(
        hashable(x) for x in v.seq)


def clone(x, deep):
    if known(x):
        return x
    if isinstance(x, (L, D)) and x.cls is None and not x.attrs or \
            isinstance(x, tuple):
        q = list(x.items.items()) if isinstance(x, D) else list(
            x.seq if isinstance(x, L) else x)
        if deep:
            q = [clone(y, True) for y in q]
            if NotImplemented in q:
                return NotImplemented
        if isinstance(x, tuple):
            return tuple(q) if deep else x
        return D(q) if isinstance(x, D) else L(q, x.tag)
    if isinstance(x, Arr):
        return x.copy()
    return NotImplemented


class Super(object):
    def __init__(self, cls, self_v):
        self.cls, self.self_v = cls, self_v


class ClsV(object):
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.cls is self.cls

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(id(self.cls))


class Meth(object):
    """method of an opaque object"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class It(object):
    """an iterator: kind seq (of given values), any (0..n unknown elements),
    gen (interpreted generator), enum"""

    def __init__(self, kind, src=None, tag=''):
        self.kind, self.src, self.tag = kind, src, tag
        self.pos, self.done = 0, False
        self.frame = None
        self.batch = False


class Frame(object):
    def __init__(self, fn, mod, cls):
        self.fn, self.mod, self.cls = fn, mod, cls
        self.vars, self.cur, self.iters = {}, None, {}
        self.closure = None


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Monitor(object):
    counters = {}

    def call(self, m, f, args, kw, node):
        """an opaque call -> value or NotImplemented"""
        return NotImplemented

    def setattr(self, m, obj, name, old, val, node):
        pass

    def next(self, m, it, elem, node):
        pass

    def exhausted(self, m, it, node):
        pass

    def end(self, m, how, val):
        pass

    def key(self, ref):
        return ()

    def opaque(self, fn):
        return False

    def constant(self, e):
        """may the value of a global be evaluated"""
        return False

    def element(self, m, it):
        return O('elem(%s)' % it.tag)

    def binop(self, m, op, a, b):
        return NotImplemented

    def compare(self, m, op, a, b):
        return NotImplemented

    def item(self, m, b, k):
        return NotImplemented

    def inc(self, kind):
        return 0


OPER = {'mul': 'Mult', 'add': 'Add', 'sub': 'Sub', 'floordiv': 'FloorDiv',
        'truediv': 'Div', 'mod': 'Mod'}


def static(e):
    """an expression with a value that is known when it is read"""
    return isinstance(e, ast.Lambda) or all(isinstance(x, (
        ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Set, ast.UnaryOp,
        ast.BinOp, ast.operator, ast.unaryop, ast.expr_context)) for x in ast.walk(e))


def writes(mod, name):
    return sum(isinstance(x, ast.Name) and x.id == name and isinstance(
        x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Global) and name in
        x.names for x in ast.walk(mod.tree))


def earlier(mod, e):
    """the value a module level name has where e is, if it is written more
    than once, always by assignments of the module itself"""
    at = [s for s in mod.tree.body if isinstance(s, ast.Assign) and len(
        s.targets) == 1 and isinstance(s.targets[0], ast.Name) and
        s.targets[0].id == e.id]
    if len(at) < 2 or writes(mod, e.id) != len(at) or not any(
            x is e for s in mod.tree.body for x in ast.walk(s)):
        return None
    at = [s for s in at if s.lineno < e.lineno]
    return at[-1].value if at else None


TYPES = ('int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'ndarray')


class Machine(object):
    def __init__(self, repo, interp, make_monitor, limit=40000,
                 concrete=False):
        self.repo, self.I = repo, interp
        self.concrete = concrete
        self.make = make_monitor
        self.limit = limit
        self.runs = self.states = 0
        self.strict = False     # unknown conditions end the analysis
        self.cstate = {}        # attributes set on classes
        self.records = {}       # classes of named tuples
        self.flip = False       # sets in the opposite order

    # ------------------------------------------------------------ explore --
    def explore(self, fn, setup):
        """setup(m) -> (args, kwargs, self_v); -> [] or [Violation]"""
        todo = [[]]
        seen = set()
        out = []
        while todo:
            self.prefix = todo.pop()
            self.taken, self.alts = [], []
            self.stack = []
            self.seen = seen
            self.steps = 0
            self.mon = self.make()
            self.runs += 1
            if self.runs > self.limit:
                raise Unsupported('more than %d histories' % self.limit)
            try:
                args, kw, self_v = setup(self)
                try:
                    v = self.call_fn(fn, args, kw, self_v, fn.node)
                    self.mon.end(self, 'return', v)
                except PyExc as e:
                    self.mon.end(self, 'raise', e)
            except Pruned:
                pass
            except Violation as e:
                e.trail = list(self.taken)
                out.append(e)
            for i, n in self.alts:
                for k in range(1, n):
                    todo.append(self.taken[:i] + [k])
            if len(out) > 50:
                break
        self.states = len(seen)
        return out

    def each(self, body):
        """body(m) for every sequence of choices; -> [Violation]"""
        todo, out = [[]], []
        self.strict = True
        while todo:
            self.prefix = todo.pop()
            self.taken, self.alts, self.stack = [], [], []
            self.seen, self.steps = set(), 0
            self.cstate = {}
            self.mon = self.make()
            self.runs += 1
            if self.runs > self.limit:
                raise Unsupported('more than %d histories' % self.limit)
            try:
                body(self)
            except Violation as e:
                e.trail = list(self.taken)
                out.append(e)
                if len(out) > 5:
                    break
            for i, n in self.alts:
                for k in range(1, n):
                    todo.append(self.taken[:i] + [k])
        return out

    def choose(self, n=2, known=False):
        if self.strict and not known:
            raise Unsupported('a condition that is not known')
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            self.alts.append((i, n))
        self.taken.append(c)
        return c

    def head(self):
        self.steps += 1
        if self.concrete:
            if self.steps > 20000:
                raise Unsupported('too many steps')
            return
        if self.steps > 2000:
            raise Unsupported('history without repeating state')
        if len(self.taken) < len(self.prefix):
            return
        k = self.key()
        if k in self.seen:
            raise Pruned()
        self.seen.add(k)

    def key(self):
        ids = {}

        def val(v, d=0):
            if d > 40:
                return '...'
            if isinstance(v, (type(None), bool, int, float, str, bytes)):
                return repr(v)
            if isinstance(v, Cnt):
                return ('cnt', v.kind, v.n - self.mon.inc(v.kind))
            if isinstance(v, (tuple, list)):
                return tuple(val(x, d + 1) for x in v)
            if isinstance(v, Func):
                return ('fn', v.fn.qual, val(v.self_v, d + 1))
            if isinstance(v, Ext):
                return v.name
            if isinstance(v, (Mod,)):
                return v.mod.name
            if isinstance(v, (Sl, Arr)):
                return repr(v)
            if isinstance(v, ClsV):
                return v.cls.qual
            if isinstance(v, Super):
                return 'super'
            if id(v) in ids:
                return ids[id(v)]
            ids[id(v)] = len(ids)
            me = ids[id(v)]
            if isinstance(v, Meth):
                return (me, v.name, val(v.obj, d + 1))
            if isinstance(v, L):
                return (me, tuple(val(x, d + 1) for x in v.seq))
            if isinstance(v, O):
                return (me, v.tag, v.truth, v.none, v.kind, tuple(
                    (k, val(x, d + 1)) for k, x in sorted(v.attrs.items())
                ), tuple((repr(k), val(x, d + 1))
                         for k, x in sorted(v.items.items(),
                                            key=lambda t: repr(t[0]))))
            if isinstance(v, It):
                return (me, v.kind, v.tag, v.pos if v.kind == 'seq' else 0,
                        v.done, val(v.src, d + 1),
                        frame(v.frame) if v.frame is not None else None)
            return repr(type(v))

        def frame(f):
            if id(f) in ids:
                return ids[id(f)]
            ids[id(f)] = len(ids)
            return (f.fn.qual if f.fn else '', f.cur, tuple(
                (k, val(x)) for k, x in sorted(f.vars.items())), tuple(
                    (k, val(x)) for k, x in sorted(f.iters.items())))
        fs = tuple(frame(f) for f in self.stack)
        return fs, self.mon.key(val)

    # -------------------------------------------------------------- calls --
    def bind(self, fn, args, kw, self_v, fr):
        a = fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if self_v is not None and fn.kind != 'staticmethod':
            args = [self_v] + list(args)
        kw = dict(kw)
        for i, p in enumerate(ps):
            if i < len(args):
                fr.vars[p] = args[i]
            elif p in kw:
                fr.vars[p] = kw.pop(p)
            else:
                j = i - (len(ps) - len(a.defaults))
                if j < 0:
                    raise PyExc('TypeError')
                fr.vars[p] = self.ev(a.defaults[j], fr)
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(ps):])
        elif len(args) > len(ps):
            raise PyExc('TypeError')
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            fr.vars[x.arg] = kw.pop(x.arg) if x.arg in kw else (
                self.ev(dflt, fr) if dflt is not None else None)
        if a.kwarg:
            d = D() if self.concrete else O('kwargs', kind='dict')
            d.items.update(kw)
            fr.vars[a.kwarg.arg] = d
        elif kw:
            raise PyExc('TypeError')

    def call_fn(self, fn, args, kw, self_v, node, closure=None):
        if len(self.stack) > 40:
            raise Unsupported('recursion')
        fr = Frame(fn, fn.mod, fn.cls)
        fr.closure = closure
        self.bind(fn, args, kw, self_v, fr)
        if isinstance(fn.node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.ev(fn.node.body, fr)
            finally:
                self.stack.pop()
        if fn.is_gen:
            it = It('gen', tag=fn.name)
            it.frame = fr
            it.gen = self.gen_body(fn, fr)
            return it
        self.stack.append(fr)
        try:
            for _ in self.block(fn.node.body, fr):
                raise Unsupported('yield')
        except Return as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def gen_body(self, fn, fr):
        try:
            for v in self.block(fn.node.body, fr):
                yield v
        except Return:
            pass

    def call(self, f, args, kw, node, fr):
        if isinstance(f, type):
            try:
                return f(*args, **kw)
            except TypeError:
                raise PyExc('TypeError')
        if isinstance(f, Func):
            if not self.mon.opaque(f.fn):
                return self.call_fn(f.fn, args, kw, f.self_v, node, f.closure)
            if f.self_v is not None:
                f = Meth(f.self_v, f.fn.name)
            else:
                f = Ext(f.fn.name)
        if isinstance(f, ClsV):
            o = O(f.cls.name, f.cls)
            if self.concrete:
                o.none = False
                if self.listlike(f.cls):
                    o = L(tag=f.cls.name)
                    o.cls = f.cls
            try:
                ow, init = self.repo.lookup(f.cls, '__init__')
            except Exception:
                init = None
            r = self.mon.call(self, f, args, kw, node)
            if r is not NotImplemented:
                return r
            if init is not None and hasattr(init, 'node'):
                self.call_fn(init, args, kw, o, node)
            return o
        r = self.mon.call(self, f, args, kw, node)
        if r is not NotImplemented:
            return r
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw, node, fr)
        if isinstance(f, O) and f.cls is not None and self.concrete:
            ow, fn = self.repo.lookup(f.cls, '__call__')
            if hasattr(fn, 'node') and not self.mon.opaque(fn):
                return self.call_fn(fn, args, kw, f, node)
        if isinstance(f, Meth) and isinstance(f.obj, ClsV):
            c = f.obj.cls
            if f.name == 'mro' and not args:
                return L(ClsV(k) for k in self.repo.mro(c))
            if f.name == '__subclasses__' and not args:
                return L(ClsV(k) for k in self.repo.subclasses(c)
                         if ('cls', c) in [
                             (r[0], r[1]) for r in self.repo.bases(k)
                             if r and len(r) > 1])
            if len(args) == 1 and args[0] == f.obj and not self.listlike(c):
                o = O(c.name, c)
                o.none = False
                return o
            raise Unsupported(f.name)
        if isinstance(f, Meth):
            if isinstance(f.obj, Super):
                o = f.obj.self_v
                if f.name == '__init__':
                    o.seq[:] = self.seq(args[0]) if args else []
                    return None
                if f.name == '__getitem__' and isinstance(args[0], int):
                    if not -len(o.seq) <= args[0] < len(o.seq):
                        raise PyExc('IndexError')
                    return o.seq[args[0]]
                if f.name == '__setitem__' and isinstance(args[0], int):
                    o.seq[args[0]] = args[1]
                    return None
                if f.name == '__len__':
                    return len(o.seq)
                return self.container(o, f.name, args, kw, node)
            if isinstance(f.obj, (L, D)):
                r = self.container(f.obj, f.name, args, kw, node)
                if r is not NotImplemented:
                    return r
            if isinstance(f.obj, Arr):
                r = model(A_.method, f.obj, f.name, down(tuple(args)),
                          {k: down(x) for k, x in kw.items()})
                if r is not NotImplemented:
                    return r
                raise Unsupported('array method %s' % f.name)
            if isinstance(f.obj, str):
                r = self.text(f.obj, f.name, args, kw)
                if r is not NotImplemented:
                    return r
            if f.name in ('items', 'values', 'keys') and isinstance(
                    f.obj, O):
                return O('%s.%s()' % (f.obj.tag, f.name))
            if isinstance(f.obj, O) and f.obj.kind == 'list' and \
                    f.name == 'append':
                return None
            return O(short('%s.%s()' % (tag(f.obj), f.name)))
        return O(short('%s()' % tag(f)))

    def listlike(self, cls):
        return any(isinstance(b, ast.Name) and b.id == 'list'
                   for c in self.repo.mro(cls) for b in c.node.bases)

    def special(self, v, name):
        """a special method defined by the class of a container"""
        if isinstance(v, L) and v.cls is not None:
            ow, fn = self.repo.lookup(v.cls, name)
            if hasattr(fn, 'node'):
                return Func(fn, v)
        return None

    def container(self, o, n, args, kw, node):
        if isset(o):
            if n == 'add':
                if args[0] not in o.seq:
                    o.seq.append(args[0])
                return None
            if n in ('discard', 'remove'):
                if args[0] in o.seq:
                    o.seq.remove(args[0])
                elif n == 'remove':
                    raise PyExc('KeyError')
                return None
            if n == 'update':
                for a in args:
                    for x in self.seq(a):
                        if x not in o.seq:
                            o.seq.append(x)
                return None
            if n in ('union', 'difference', 'intersection', 'issubset',
                     'issuperset', 'isdisjoint') and len(args) == 1:
                q = self.seq(args[0])
                if n == 'union':
                    return L(dict.fromkeys(o.seq + q), 'set')
                if n == 'issubset':
                    return all(x in q for x in o.seq)
                if n == 'issuperset':
                    return all(x in o.seq for x in q)
                if n == 'isdisjoint':
                    return not any(x in o.seq for x in q)
                return L([x for x in o.seq if (x in q) == (
                    n == 'intersection')], 'set')
        if isinstance(o, D):
            if n == 'items':
                return tuple(o.items.items())
            if n == 'keys':
                return tuple(o.items)
            if n == 'values':
                return tuple(o.items.values())
            if n == 'copy':
                return D(o.items)
            if n in ('get', 'setdefault', 'pop') and args and hashable(
                    args[0]):
                if args[0] in o.items:
                    return o.items.pop(args[0]) if n == 'pop' else \
                        o.items[args[0]]
                if n == 'pop' and len(args) < 2:
                    raise PyExc('KeyError')
                d = args[1] if len(args) > 1 else None
                if n == 'setdefault':
                    o.items[args[0]] = d
                return d
            if n == 'update':
                for a in args:
                    o.items.update(self.pairs(a))
                o.items.update(kw)
                return None
            if n == 'clear':
                o.items.clear()
                return None
        else:
            if n == 'append':
                o.seq.append(args[0])
                return None
            if n == 'extend':
                o.seq.extend(self.seq(args[0]))
                return None
            if n == 'insert':
                o.seq.insert(args[0], args[1])
                return None
            if n == 'remove' and all(hashable(x) for x in o.seq):
                if args[0] not in o.seq:
                    raise PyExc('ValueError')
                o.seq.remove(args[0])
                return None
            if n == 'count' and all(hashable(x) for x in o.seq):
                return o.seq.count(args[0])
            if n == 'pop':
                if not o.seq:
                    raise PyExc('IndexError')
                return o.seq.pop(*args)
            if n == 'copy':
                return L(o.seq)
            if n == 'index' and all(hashable(x) for x in o.seq):
                if args[0] not in o.seq:
                    raise PyExc('ValueError')
                return o.seq.index(args[0])
            if n == 'sort':
                o.seq[:] = self.sort(o.seq, kw, node)
                return None
            if n == 'reverse':
                o.seq.reverse()
                return None
        return NotImplemented

    def text(self, s, n, args, kw):
        if all(isinstance(a, (str, int)) for a in args) and not kw and n in (
                'split', 'startswith', 'endswith', 'strip', 'lower', 'upper',
                'rsplit', 'replace', 'isdigit', 'partition', 'rpartition',
                'title', 'find', 'index', 'count', 'rstrip', 'lstrip',
                'isalnum', 'isalpha', 'isidentifier'):
            try:
                r = getattr(s, n)(*args)
            except ValueError:
                raise PyExc('ValueError')
            return L(r) if isinstance(r, list) else r
        if n == 'format' and self.concrete and all(
                isinstance(a, (str, int, float)) for a in list(args) + list(
                    kw.values())):
            try:
                return s.format(*args, **kw)
            except (ValueError, IndexError, KeyError):
                return NotImplemented
        if n == 'join' and args:
            q = self.seq(args[0], False)
            if q is not None and all(isinstance(x, str) for x in q):
                return s.join(q)
        return NotImplemented

    def seq(self, v, strict=True):
        """the known elements of a sequence"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, L):
            return list(v.seq[::-1] if self.flip and isset(v) else v.seq)
        if isinstance(v, D):
            return list(v.items)
        if isinstance(v, Arr):
            return [model(v.get, i) for i in range(v.shape[0])]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, It) and self.concrete:
            return list(self.drain(v, None))
        if strict:
            raise Unsupported('elements of %s' % tag(v))
        return None

    def lazy(self, it, name, fr):
        r = It('gen', tag=name)
        r.gen, r.frame = it, fr
        return r

    def pairs(self, v):
        if isinstance(v, D):
            return dict(v.items)
        return dict((tuple(self.seq(x)) for x in self.seq(v)))

    def sort(self, seq, kw, node):
        k = kw.get('key')
        keys = [self.call(k, [x], {}, node, None) if k is not None else x
                for x in seq]
        keys = [tuple(self.seq(x)) if isinstance(x, (L, tuple)) else x
                for x in keys]
        if not all(isinstance(x, (bool, int, float, str, tuple))
                   for x in keys):
            raise Unsupported('order of unknown values')
        try:
            ix = sorted(range(len(seq)), key=lambda i: keys[i],
                        reverse=bool(kw.get('reverse', False)))
        except TypeError:
            raise Unsupported('order')
        return [seq[i] for i in ix]

    def known(self, n, args, kw, node, fr):
        """builtins on known values"""
        if n in ('list', 'tuple', 'iter', 'set', 'frozenset', 'reversed',
                 'sorted', 'min', 'max', 'sum', 'any', 'all', 'len', 'dict',
                 'enumerate', 'zip', 'collections.OrderedDict', 'map',
                 'filter', 'six.moves.zip', 'six.moves.range'):
            pass
        elif n in ('functools.reduce', 'reduce', 'six.moves.reduce') and \
                len(args) in (2, 3):
            q = self.seq(args[1], False)
            if q is None:
                return NotImplemented
            q = list(args[2:]) + list(q)
            if not q:
                raise PyExc('TypeError')
            r = q[0]
            for x in q[1:]:
                r = self.call(args[0], [r, x], {}, node, fr)
            return r
        elif n in ('itertools.permutations', 'itertools.chain',
                   'itertools.product', 'itertools.chain.from_iterable') \
                and not kw:
            import itertools
            if n.endswith('from_iterable'):
                qs = [self.seq(x, False) for x in self.seq(args[0])]
                n = 'itertools.chain'
            else:
                qs = [self.seq(x, False) for x in args]
            if any(q is None for q in qs) or n.endswith(
                    'permutations') and len(qs) != 1:
                return NotImplemented
            r = getattr(itertools, n[10:])(*qs)
            # lazily, as the library does
            return self.lazy(r, n, fr)
        elif n.startswith('operator.') and len(args) == 2 and n[9:] in OPER:
            return self.binop(OPER[n[9:]], *args)
        elif n in ('abs', 'float', 'int', 'str', 'round', 'divmod', 'pow',
                   'bool', 'math.ceil', 'math.floor') and args and all(
                       isinstance(a, (bool, int, float, str)) for a in args):
            import math
            f = {'math.ceil': math.ceil, 'math.floor': math.floor,
                 'abs': abs, 'float': float, 'int': int, 'str': str,
                 'round': round, 'divmod': divmod, 'pow': pow,
                 'bool': bool}[n]
            try:
                return f(*args)
            except (ValueError, TypeError, ZeroDivisionError) as e:
                raise PyExc(type(e).__name__)
        else:
            return NotImplemented
        if n in ('dict', 'collections.OrderedDict'):
            try:
                d = D(self.pairs(args[0]) if args else ())
            except (TypeError, ValueError):
                return NotImplemented
            d.items.update(kw)
            return d
        if n == 'list' and not args:
            return L()
        if n == 'tuple' and not args:
            return ()
        if n in ('set', 'frozenset') and not args:
            return L(tag='set')
        if n == 'len' and isinstance(args[0], (tuple, list, L, D, str)):
            return len(self.seq(args[0]))
        if n in ('min', 'max') and len(args) > 1:
            q = list(args)
        elif n == 'zip':
            qs = [self.seq(a, False) for a in args]
            if any(q is None for q in qs):
                return NotImplemented
            return L(zip(*qs))
        elif n in ('map', 'filter'):
            q = self.seq(args[1], False)
            if q is None or len(args) != 2:
                return NotImplemented
            r = [self.call(args[0], [x], {}, node, fr) if args[0] is not None
                 else x for x in q]
            return L(r) if n == 'map' else L(
                x for x, y in zip(q, r) if self.truth(y))
        else:
            if isinstance(args[0], It) and n in ('enumerate', 'iter'):
                return NotImplemented
            q = self.seq(args[0], False)
        if q is None:
            return NotImplemented
        if n == 'enumerate':
            i0 = args[1] if len(args) > 1 else kw.get('start', 0)
            return It('seq', tuple((i0 + i, x) for i, x in enumerate(q)))
        if n == 'iter':
            return It('seq', tuple(q), 'seq')
        if n == 'reversed':
            return L(q[::-1])
        if n == 'sorted':
            return L(self.sort(q, kw, node))
        if n == 'tuple':
            return tuple(q)
        if n in ('list',):
            return L(q)
        if n in ('set', 'frozenset'):
            if not all(hashable(x) for x in q):
                return NotImplemented
            return L(dict.fromkeys(q), 'set')
        if n in ('any', 'all'):
            t = [self.truth(x) for x in q]
            return any(t) if n == 'any' else all(t)
        if n in ('min', 'max') and kw.get('key') is not None:
            r = self.sort(q, {'key': kw['key']}, node)
            return r[0] if n == 'min' else r[-1]
        if not all(isinstance(x, (bool, int, float, str)) for x in q):
            return NotImplemented
        if n in ('min', 'max') and not q:
            if 'default' in kw:
                return kw['default']
            raise PyExc('ValueError')
        try:
            return {'min': min, 'max': max, 'sum': sum}[n](q)
        except TypeError:
            return NotImplemented

    def ext(self, n, args, kw, node, fr):
        if self.concrete:
            if n.startswith('numpy.') and (any(numeric(a) for a in args) or (
                    n.split('.')[-1] in ('zeros', 'ones', 'arange', 'empty',
                                         'full', 'ceil', 'floor', 'abs',
                                         'isscalar', 'maximum', 'minimum', 'eye',
                                         'identity', 'prod',
                                         'sum', 'float64', 'float32',
                                         'cumsum', 'diff', 'atleast_2d',
                                         'argmax', 'concatenate')
                    and all(isinstance(a, (int, float, tuple, L, Ext))
                            for a in args))):
                r = model(A_.call, n[6:], down(tuple(args)),
                          {k: down(x) for k, x in kw.items()})
                if r is not NotImplemented:
                    return r
                if any(isinstance(a, Arr) for a in args):
                    raise Unsupported(n)
            if n.startswith(('numpy.', 'math.')) and len(
                    args) == 1 and not kw and type(args[0]) in (
                    int, float) and n.split('.')[-1] in (
                    'sqrt', 'exp', 'log', 'absolute', 'sign', 'square'):
                return model(A_.call, n.split('.')[-1], args, {})
            if n == 'len' and isinstance(args[0], Arr):
                return model(len, args[0])
            if n in ('float', 'int', 'bool') and args and isinstance(
                    args[0], Arr) and args[0].size == 1:
                return self.ext(n, [args[0].flat()[0]], kw, node, fr)
            if n == 'abs' and isinstance(args[0], Arr):
                return model(A_.call, 'abs', args, {})
            if n in ('sum', 'min', 'max') and len(args) == 1 and isinstance(
                    args[0], Arr) and args[0].ndim == 1:
                return model(A_.method, args[0], n, (), {})
            r = self.known(n, args, kw, node, fr)
            if r is not NotImplemented:
                return r
        if n == 'enumerate':
            it = It('enum', self.iter(args[0], node), 'enumerate')
            return it
        if n == 'iter' and len(args) == 1:
            return self.iter(args[0], node)
        if n == 'next':
            ok, v = self.step(args[0], node)
            if ok:
                return v
            if len(args) > 1:
                return args[1]
            raise PyExc('StopIteration')
        if n == 'range':
            if args and all(isinstance(a, int) for a in args) and (
                    self.concrete or len(range(*args)) < 6):
                return tuple(range(*args))
            return O('range')
        if n in ('list', 'tuple') and args and isinstance(args[0], It):
            for _ in self.drain(args[0], node):
                pass
            return O(n, kind='list')
        if n in ('list', 'tuple', 'sorted', 'reversed') and args:
            return O(short('%s(%s)' % (n, tag(args[0]))))
        if n in ('any', 'all') and args and isinstance(args[0], (It,)):
            raise Unsupported(n)
        if n in ('any', 'all', 'sum', 'max', 'min') and args and \
                isinstance(args[0], (tuple, list)) and all(
                    isinstance(x, (bool, int)) for x in args[0]):
            return getattr(__builtins__, n, None)(args[0]) if not isinstance(
                __builtins__, dict) else __builtins__[n](args[0])
        if n == 'bool':
            return self.truth(args[0])
        if n == 'vars' and len(args) == 1 and self.concrete and isinstance(
                args[0], O) and args[0].cls is not None:
            return self.getattr(args[0], '__dict__', node)
        if n == 'issubclass' and len(args) == 2 and all(
                isinstance(a, ClsV) for a in args):
            return self.repo.issub(args[0].cls, args[1].cls)
        if n == 'slice' and 1 <= len(args) <= 3:
            a = list(args) if len(args) > 1 else [None] + list(args)
            return Sl(a[0], a[1], a[2] if len(a) > 2 else None)
        if n == 'type' and len(args) == 1:
            for t in (bool, int, float, str, tuple, type(None)):
                if type(args[0]) is t:
                    return Ext(t.__name__)
            for t, k in ((L, 'list'), (D, 'dict'), (Arr, 'ndarray')):
                if isinstance(args[0], t):
                    return Ext(k)
            if isinstance(args[0], O) and args[0].cls is not None:
                return ClsV(args[0].cls)
        if n == 'collections.defaultdict' and self.concrete and len(
                args) < 3 and isinstance(args[0] if args else None, (
                    type(None), Ext, Func)):
            d = D(self.pairs(args[1]) if len(args) > 1 else ())
            d.items.update(kw)
            d.factory = args[0] if args else None
            return d
        if n in ('dict', 'set', 'collections.OrderedDict', 'OrderedDict',
                 'collections.defaultdict'):
            return O(n, kind='dict')
        if n == 'isinstance':
            r = self.isinst(args[0], args[1])
            return r if r is not None else bool(1 - self.choose())
        if n == 'hasattr' and isinstance(args[0], O) and isinstance(
                args[1], str):
            if args[1] in args[0].attrs:
                return True
            if args[0].cls is not None and hasattr(self.repo.lookup(
                    args[0].cls, args[1])[1], 'node'):
                return True
        if n == 'hasattr' and self.concrete and isinstance(
                args[1], str) and isinstance(args[0], ClsV):
            return self.member(args[0].cls, args[1]) or hasattr(
                object, args[1])
        if n == 'getattr' and len(args) > 2 and self.concrete and isinstance(
                args[0], ClsV) and isinstance(args[1], str) and \
                not self.member(args[0].cls, args[1]) and not hasattr(
                    object, args[1]):
            return args[2]
        if n == 'hasattr' and self.concrete and isinstance(args[1], str):
            if isinstance(args[0], Arr):
                return args[1] in dir(args[0]) or args[1] in ('dtype', 'T')
            if isinstance(args[0], (L, D, str, int, float, tuple, type(
                    None))):
                return False if args[1] in (
                    'shape', 'ndim', 'dtype', 'size') else hasattr(
                        [] if isinstance(args[0], L) else {} if isinstance(
                            args[0], D) else args[0], args[1])
        if n in ('hasattr', 'callable'):
            return bool(1 - self.choose())
        if n == 'getattr' and len(args) > 2 and self.concrete and isinstance(
                args[0], O) and args[0].cls is not None and args[1] not in \
                args[0].attrs and not self.member(args[0].cls, args[1]):
            return args[2]
        if n == 'getattr' and len(args) > 1 and isinstance(args[1], str):
            return self.getattr(args[0], args[1], node)
        if n == 'setattr' and len(args) == 3 and isinstance(
                args[1], str) and isinstance(args[0], O):
            self.mon.setattr(self, args[0], args[1], args[0].attrs.get(
                args[1]), args[2], node)
            args[0].attrs[args[1]] = args[2]
            return None
        if n in ('copy.copy', 'copy.deepcopy') and self.concrete and \
                len(args) == 1 and not kw:
            r = clone(args[0], n == 'copy.deepcopy')
            if r is not NotImplemented:
                return r
        if n in ('zip', 'map', 'filter', 'itertools.islice',
                 'itertools.chain') and any(isinstance(a, It) for a in args):
            raise Unsupported(n)
        if n == 'print':
            return None
        return O(short('%s()' % n))

    def member(self, cls, name):
        return any(name in k.members for k in self.repo.mro(cls))

    def isinst(self, x, c):
        cs = c if isinstance(c, tuple) else [c]
        out = False
        for k in cs:
            if isinstance(k, ClsV):
                if isinstance(x, O) and x.cls is not None:
                    if self.repo.issub(x.cls, k.cls):
                        return True
                    continue
                if isinstance(x, (str, int, float, tuple, type(None), L, D,
                                  Arr)):
                    continue
                out = None
                continue
            n = k.name.split('.')[-1] if isinstance(k, Ext) else None
            if isinstance(x, Arr):
                if n == 'ndarray':
                    return True
                if n in ('list', 'tuple', 'dict', 'str', 'int', 'float',
                         'string_types'):
                    continue
            kinds = {'NoneType': type(None), 'dict': D, 'OrderedDict': D, 'Mapping': D, 'list': L,
                     'tuple': tuple, 'str': str, 'string_types': str,
                     'text_type': str, 'unicode': str, 'basestring': str,
                     'int': int, 'float': float, 'bool': bool,
                     'integer_types': int, 'Number': (int, float),
                     'Integral': int, 'Sequence': (L, tuple, str),
                     'ndarray': ()}
            if n in kinds and (isinstance(x, (
                    str, int, float, tuple, type(None), L, D))):
                if isinstance(x, kinds[n]) and not (n in (
                        'list', 'Sequence') and isinstance(x, L) and
                        x.tag == 'set'):
                    return True
                continue
            if n in ('set', 'frozenset', 'Set') and self.concrete and \
                    isinstance(x, (str, int, float, tuple, type(None), L,
                                   D)):
                if isinstance(x, L) and x.tag == 'set':
                    return True
                continue
            if n in kinds and self.concrete and isinstance(
                    x, O) and x.cls is not None and all(
                    isinstance(b, ast.Name) and (
                        b.id == 'object' or (self.repo.resolve(
                            c.mod, b.id) or ' ')[0] == 'cls')
                    for c in self.repo.mro(x.cls) for b in c.node.bases):
                continue
            out = None
        return out

    # ---------------------------------------------------------- iteration --
    def iter(self, v, node):
        if isinstance(v, It):
            return v
        if isinstance(v, (tuple, list)):
            return It('seq', tuple(v), 'seq')
        if isinstance(v, (L, D, Arr)):
            return It('seq', tuple(self.seq(v)), 'seq')
        if isinstance(v, O):
            return It('any', v, v.tag)
        raise Unsupported('iteration over %r' % (v,))

    def step(self, it, node):
        """-> (True, elem) or (False, None)"""
        if not isinstance(it, It):
            raise Unsupported('next(%r)' % (it,))
        if it.done:
            return False, None
        if it.kind == 'seq':
            if it.pos < len(it.src):
                it.pos += 1
                return True, it.src[it.pos - 1]
            it.done = True
            return False, None
        if it.kind == 'enum':
            ok, v = self.step(it.src, node)
            if not ok:
                it.done = True
                return False, None
            return True, (O('index'), v)
        if it.kind == 'gen':
            self.stack.append(it.frame)
            try:
                v = next(it.gen)
            except StopIteration:
                it.done = True
                return False, None
            finally:
                self.stack.pop()
            return True, v
        if self.choose() == 1:
            it.done = True
            self.mon.exhausted(self, it, node)
            return False, None
        v = self.mon.element(self, it)
        self.mon.next(self, it, v, node)
        return True, v

    def drain(self, it, node):
        while True:
            self.head()
            ok, v = self.step(it, node)
            if not ok:
                return
            yield v

    # --------------------------------------------------------- statements --
    def block(self, stmts, fr):
        for s in stmts:
            fr.cur = id(s)
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported(type(s).__name__)
            try:
                g = m(s, fr)
                if g is not None:
                    for v in g:
                        yield v
                        fr.cur = id(s)
            except Unsupported as e:
                if not getattr(e, 'line', None):
                    e.line = getattr(s, 'lineno', 0)
                    e.args = ('%s [line %d]' % (e, e.line),)
                raise

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self.yielding(s.value, None, fr)
        if isinstance(s.value, ast.YieldFrom):
            return self.yfrom(s.value, fr)
        self.ev(s.value, fr)

    def yielding(self, y, target, fr):
        yield self.ev(y.value, fr) if y.value is not None else None
        if target is not None:
            self.assign(target, O('sent'), fr)

    def yfrom(self, y, fr):
        it = self.iter(self.ev(y.value, fr), y)
        fr.iters['yf%d' % id(y)] = it
        for v in self.drain(it, y):
            yield v
        fr.iters.pop('yf%d' % id(y), None)

    def s_Assign(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self.yielding(s.value, s.targets[0], fr)
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        old = self.ev(s.target, fr)
        v = self.ev(s.value, fr)
        if isinstance(old, L) and self.concrete and isinstance(
                s.op, ast.Add) and not isset(old):
            old.seq.extend(self.seq(v))
            return
        if isset(old) and self.concrete:
            r = self.binop(type(s.op).__name__, old, v)
            if isset(r):
                old.seq[:] = r.seq
                return
        if isinstance(old, Arr):
            r = model(old.inplace, type(s.op).__name__, down(v))
            if isinstance(s.target, ast.Subscript):
                self.assign(s.target, r, fr)
            return
        self.assign(s.target, self.binop(type(s.op).__name__, old, v), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            if isinstance(b, O):
                old = self.getattr(b, t.attr, t, quiet=True)
                self.mon.setattr(self, b, t.attr, old, v, t)
                b.attrs[t.attr] = v
            elif isinstance(b, ClsV) and self.concrete:
                ow, x = self.repo.lookup(b.cls, t.attr)
                if ow is not b.cls or not isinstance(x, ast.AST) or not \
                        static(x):
                    raise Unsupported('attribute of %r' % (b,))
                self.cstate[b.cls.qual, t.attr] = v
            else:
                raise Unsupported('attribute of %r' % (b,))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.mon.setattr(self, b, ('item', k), None, v, t)
            if isinstance(b, Arr):
                model(b.put, down(k), down(v))
                return
            if isinstance(b, L):
                if not isinstance(k, int):
                    raise Unsupported('index')
                if not -len(b.seq) <= k < len(b.seq):
                    raise PyExc('IndexError')
                b.seq[k] = v
            elif isinstance(b, D):
                if not hashable(k):
                    raise Unsupported('key')
                b.items[k] = v
            elif isinstance(b, O) and isinstance(k, (str, int)):
                b.items[k] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(v, L):
                    v = tuple(v.seq)
                if isinstance(v, (tuple, list)):
                    if len(v) != len(t.elts):
                        raise Unsupported('unpacking')
                    self.assign(x, v[i], fr)
                else:
                    self.assign(x, O('%s[%d]' % (tag(v), i)), fr)
        else:
            raise Unsupported(type(t).__name__)

    def s_If(self, s, fr):
        return self.block(s.body if self.truth(self.ev(s.test, fr))
                          else s.orelse, fr)

    def s_For(self, s, fr):
        it = self.iter(self.ev(s.iter, fr), s)
        fr.iters[str(id(s))] = it
        broke = False
        while True:
            fr.cur = id(s)
            self.head()
            ok, v = self.step(it, s)
            if not ok:
                break
            self.assign(s.target, v, fr)
            try:
                for y in self.block(s.body, fr):
                    yield y
            except Break:
                broke = True
                break
            except Continue:
                pass
        fr.iters.pop(str(id(s)), None)
        if not broke:
            for y in self.block(s.orelse, fr):
                yield y

    def s_While(self, s, fr):
        while True:
            fr.cur = id(s)
            self.head()
            if not self.truth(self.ev(s.test, fr)):
                for y in self.block(s.orelse, fr):
                    yield y
                return
            try:
                for y in self.block(s.body, fr):
                    yield y
            except Break:
                return
            except Continue:
                pass

    def s_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_Pass(self, s, fr):
        pass

    def s_Assert(self, s, fr):
        n = len(self.taken)
        v = self.ev(s.test, fr)
        if isinstance(v, (bool, int, str, type(None))) and not v:
            raise PyExc('AssertionError')

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyExc(getattr(fr, 'handling', None) or 'Exception')
        v = self.ev(s.exc, fr)
        n = v.name.split('.')[-1] if isinstance(v, Ext) else (
            v.cls.name if isinstance(v, ClsV) or getattr(v, 'cls', None)
            else tag(v).split('(')[0].split('.')[-1])
        raise PyExc(n, v)

    def s_Try(self, s, fr):
        try:
            try:
                for y in self.block(s.body, fr):
                    yield y
            except PyExc as e:
                for h in s.handlers:
                    if self.catches(h, e, fr):
                        if h.name:
                            o = O(e.name)
                            if isinstance(e.val, O):
                                o = e.val
                            fr.vars[h.name] = o
                        old = getattr(fr, 'handling', None)
                        fr.handling = e.name
                        for y in self.block(h.body, fr):
                            yield y
                        fr.handling = old
                        break
                else:
                    raise
            else:
                for y in self.block(s.orelse, fr):
                    yield y
        finally:
            for y in self.block(s.finalbody, fr):
                yield y

    def catches(self, h, e, fr):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = ast.unparse(t).split('.')[-1]
            if n == e.name or n in ('Exception', 'BaseException'):
                return True
            if n == 'LookupError' and e.name in ('KeyError', 'IndexError'):
                return True
        return False

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        return self.block(s.body, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)

    def s_Import(self, s, fr):
        for a in s.names:
            fr.vars[(a.asname or a.name).split('.')[0]] = Ext(
                a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            fr.vars[a.asname or a.name] = Ext('%s.%s' % (s.module, a.name))

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, fr):
        from .repo import Fn
        fr.vars[s.name] = Func(Fn(s.name, fr.fn.qual + '.' + s.name, s,
                                  fr.mod, fr.cls), None, fr)

    # -------------------------------------------------------- expressions --
    def truth(self, v):
        if isinstance(v, (type(None), bool, int, float, str, tuple, list)):
            return bool(v)
        if isinstance(v, (Func, ClsV, Ext, Mod, It, Super, Meth)):
            return True
        if isinstance(v, Cnt):
            return self.choose() == 0
        if isinstance(v, Arr):
            if v.size != 1:
                raise PyExc('ValueError')
            return self.truth(v.flat()[0])
        if isinstance(v, Sl) or v is Ellipsis:
            return True
        if isinstance(v, L):
            return bool(v.seq)
        if isinstance(v, D):
            return bool(v.items)
        if v.truth is None:
            v.truth = self.choose() == 0
        return v.truth

    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.vars:
                return f.vars[e.id]
            f = f.closure
        if self.concrete and fr.fn is None and fr.closure is None:
            v = earlier(fr.mod, e)
            if v is not None and (static(v) or self.mon.constant(v)):
                return self.ev(v, Frame(None, fr.mod, None))
        return self.glob(fr.mod, e.id)

    def glob(self, mod, name):
        r = self.repo.resolve(mod, name)
        if r is None:
            return Ext(name)
        if r[0] == 'fn':
            return Func(r[1])
        if r[0] == 'cls':
            return ClsV(r[1])
        if r[0] == 'ext':
            return Ext(r[1])
        if r[0] == 'mod':
            return Ext(r[1] if isinstance(r[1], str) else r[1].name)
        if self.concrete and r[0] == 'assign' and r[3] is None and \
                isinstance(r[2], ast.Call) and writes(r[1], name) == 1:
            t = self.record(r[2], r[1])
            if t is not None:
                return t
        if self.concrete and r[0] == 'assign' and r[3] is None and \
                (static(r[2]) or self.mon.constant(r[2])) and \
                writes(r[1], name) == 1:
            return self.ev(r[2], Frame(None, r[1], None))
        return O('global:' + name)

    def record(self, e, mod):
        """namedtuple('Name', fields)"""
        f = self.ev(e.func, Frame(None, mod, None))
        if not isinstance(f, Ext) or f.name != 'collections.namedtuple' or \
                e.keywords or len(e.args) != 2 or not static(e.args[0]) or \
                not static(e.args[1]):
            return None
        k = mod.name, e.lineno, e.col_offset
        if k not in self.records:
            n, fs = [ast.literal_eval(x) for x in e.args]
            self.records[k] = collections.namedtuple(n, fs)
        return self.records[k]

    def clsattr(self, cls, node, name):
        k = cls.qual, name
        if k not in self.cstate:
            self.cstate[k] = self.ev(node, Frame(None, cls.mod, None))
        return self.cstate[k]

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, e)

    def getattr(self, b, name, node, quiet=False):
        if isinstance(b, tuple) and name in getattr(b, '_fields', ()):
            return b[b._fields.index(name)]
        if isinstance(b, Sl) and name in ('start', 'stop', 'step'):
            return {'start': b.lo, 'stop': b.hi, 'step': b.step}[name]
        if isinstance(b, Ext):
            if self.concrete and name in ('inf', 'Inf', 'nan', 'NaN') and \
                    b.name in ('numpy', 'math'):
                return float(name.lower())
            if self.concrete and name in ('pi', 'e') and \
                    b.name in ('numpy', 'math'):
                return {'pi': math.pi, 'e': math.e}[name]
            if name == 'newaxis' and b.name == 'numpy':
                return None
            for m in (self.repo.modules.values() if isinstance(
                    self.repo.modules, dict) else self.repo.modules):
                if m.name == b.name:
                    return self.glob(m, name)
            return Ext(b.name + '.' + name)
        if isinstance(b, Super):
            o, m = self.repo.lookup(b.self_v.cls, name, after=b.cls)
            if hasattr(m, 'node'):
                return Func(m, b.self_v)
            if isinstance(b.self_v, L):
                return Meth(b, name)
            return Ext('super.' + name)
        if isinstance(b, ClsV):
            if name == '__name__' and self.concrete:
                return b.cls.name
            if name == '__mro__' and self.concrete:
                return tuple(ClsV(c) for c in self.repo.mro(b.cls))
            o, m = self.repo.lookup(b.cls, name)
            if m is None and name in ('__new__', '__subclasses__', 'mro') \
                    and self.concrete:
                return Meth(b, name)
            if hasattr(m, 'node'):
                return Func(m, b if m.kind == 'classmethod' else None)
            if self.concrete and isinstance(m, ast.AST) and (
                    static(m) or self.mon.constant(m)):
                return self.clsattr(o, m, name)
            return O(b.cls.name + '.' + name)
        if isinstance(b, O):
            if name in b.attrs:
                return b.attrs[name]
            if name == '__class__' and self.concrete and b.cls is not None:
                return ClsV(b.cls)
            if name == '__dict__' and self.concrete and b.cls is not None:
                d = D()
                d.items = b.attrs
                return d
            if isinstance(b, (L, D)) and b.cls is not None:
                o, m = self.repo.lookup(b.cls, name)
                if hasattr(m, 'node') and hasattr(m, 'params'):
                    if m.kind == 'property':
                        return self.call_fn(m, [], {}, b, node)
                    return Func(m, b)
            if isinstance(b, (L, D)):
                return Meth(b, name)
            if b.cls is not None and b.kind == 'obj':
                o, m = self.repo.lookup(b.cls, name)
                if hasattr(m, 'node') and hasattr(m, 'params'):
                    if m.kind == 'property':
                        return self.call_fn(m, [], {}, b, node)
                    return Func(m, ClsV(b.cls) if self.concrete and m.kind ==
                                'classmethod' else b)
                if self.concrete and isinstance(m, ast.AST) and (
                        static(m) or self.mon.constant(m)):
                    return self.clsattr(o, m, name)
            c = O(short(b.tag + '.' + name))
            c.parent, c.name = b, name
            b.attrs[name] = c
            return c
        if isinstance(b, str):
            return Meth(b, name)
        if isinstance(b, Arr) and name == 'gpudata':
            return b
        if isinstance(b, Arr):
            if name in ('shape', 'ndim', 'size'):
                return getattr(b, name)
            if name == 'T':
                return b.transpose()
            if name == 'dtype':
                return Ext(b.dt or 'dtype')
            if name in ('real', 'imag'):
                vs = b.flat()
                if not any(isinstance(v, complex) for v in vs):
                    if name == 'real':
                        return b
                    raise Unsupported('imag')
                return b.fresh([getattr(v, name) for v in vs])
            return Meth(b, name)
        return O(short('%s.%s' % (tag(b), name)))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            sv = fr.vars.get(fr.fn.params()[0]) if fr.fn.params() else None
            if isinstance(sv, O) and sv.cls is not None:
                return Super(fr.cls, sv)
            return Ext('super')
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, L) and v.seq is not None:
                    v = list(v.seq)
                if not isinstance(v, (tuple, list)):
                    args.append(O('*' + tag(v)))
                else:
                    args.extend(v)
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, O):
                    kw.update({a: b for a, b in v.items.items()
                               if isinstance(a, str)})
            else:
                kw[k.arg] = v
        if isinstance(f, O) and f.parent is not None:
            f = Meth(f.parent, f.name)
        return self.call(f, args, kw, e, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
            return -v
        if isinstance(e.op, ast.USub) and isinstance(v, Arr):
            return model(A_.binop, 'Mult', v, -1)
        if isinstance(e.op, ast.Invert) and isinstance(v, Arr):
            return model(A_.binop, 'Eq', v, False)
        return O('unary')

    def dunder(self, op, a, b):
        """operators that classes define"""
        n = {'Sub': 'sub', 'Add': 'add', 'Mult': 'mul', 'RShift': 'rshift',
             'LShift': 'lshift', 'BitOr': 'or', 'BitAnd': 'and'}.get(op)
        for x, y, k in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if n and isinstance(x, O) and x.cls is not None:
                ow, fn = self.repo.lookup(x.cls, k % n)
                if hasattr(fn, 'node') and not self.mon.opaque(fn):
                    r = self.call_fn(fn, [y], {}, x, fn.node)
                    if not (isinstance(r, Ext) and
                            r.name == 'NotImplemented'):
                        return r
        return NotImplemented

    def binop(self, op, a, b):
        r = self.mon.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return model(A_.binop, op, down(a), down(b))
        if self.concrete:
            r = self.dunder(op, a, b)
            if r is not NotImplemented:
                return r
        if isset(a) and isset(b) and op in ('Sub', 'BitOr', 'BitAnd',
                                             'BitXor'):
            p, q = set(a.seq), set(b.seq)
            k = {'Sub': p - q, 'BitOr': p | q, 'BitAnd': p & q,
                 'BitXor': p ^ q}[op]
            return L([x for x in dict.fromkeys(a.seq + b.seq) if x in k],
                     'set')
        if isinstance(a, (Lin, E)) and isinstance(
                b, (int, float, Lin, E)) or isinstance(
                b, (Lin, E)) and isinstance(a, (int, float)):
            return model(A_.binop, op, a, b)
        if isinstance(a, L) and isinstance(b, L) and op == 'Add':
            return L(a.seq + b.seq)
        if isinstance(a, L) and isinstance(b, int) and op == 'Mult':
            return L(a.seq * b)
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, Cnt) and isinstance(b, int) and op in (
                'Add', 'Sub'):
            return Cnt(a.kind, a.n + (b if op == 'Add' else -b))
        if isinstance(b, Cnt) and isinstance(a, int) and op == 'Add':
            return Cnt(b.kind, b.n + a)
        num = (bool, int, float)
        if op in ('BitOr', 'BitAnd') and (isinstance(a, bool) or isinstance(
                b, bool)) and isinstance(a, (bool, O)) and isinstance(
                    b, (bool, O)):
            ta, tb = self.truth(a), self.truth(b)
            return (ta or tb) if op == 'BitOr' else (ta and tb)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b,
                        'Mult': lambda: a * b, 'BitOr': lambda: a | b,
                        'BitAnd': lambda: a & b, 'Mod': lambda: a % b,
                        'BitXor': lambda: a ^ b, 'FloorDiv': lambda: a // b,
                        'Pow': lambda: a ** b,
                        'Div': lambda: a / b}[op]()
            except ZeroDivisionError:
                raise PyExc('ZeroDivisionError')
            except (KeyError, TypeError):
                return O('num')
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) \
                and op == 'Add':
            return tuple(a) + tuple(b)
        return O(short('(%s %s %s)' % (tag(a), op, tag(b))))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        if isinstance(e.op, ast.Mod) and isinstance(a, str):
            if self.concrete and (known(b) or isinstance(b, D) and all(
                    known(x) for x in b.items.values())):
                try:
                    return a % (b.items if isinstance(b, D) else b)
                except (TypeError, ValueError, KeyError):
                    pass
            return O('text')
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        vs = [self.ev(e.left, fr)] + [self.ev(c, fr) for c in e.comparators]
        if len(vs) == 2 and any(isinstance(v, Arr) for v in vs) and type(
                e.ops[0]).__name__ in A_.OP and not any(
                    v is None for v in vs):
            return model(A_.binop, type(e.ops[0]).__name__, down(vs[0]),
                         down(vs[1]))
        for (a, b), op in zip(zip(vs, vs[1:]), e.ops):
            if not self.cmp(type(op).__name__, a, b):
                return False
        return True

    def cmp(self, op, a, b):
        r = self.mon.compare(self, op, a, b)
        if r is not NotImplemented:
            return r
        if op in ('Eq', 'NotEq', 'Is', 'IsNot') and self.concrete and all(
                isinstance(v, Ext) and v.name in TYPES or isinstance(v, ClsV)
                for v in (a, b)):
            r = type(a) is type(b) and (
                a.name == b.name if isinstance(a, Ext) else a.cls is b.cls)
            return r == (op in ('Eq', 'Is'))
        if op in ('In', 'NotIn') and self.concrete and isinstance(
                a, Ext) and isinstance(b, (tuple, L)) and all(
                    isinstance(x, Ext) and x.name in TYPES
                    for x in self.seq(b)):
            return (a.name in [x.name for x in self.seq(b)]) == (op == 'In')
        if op in ('Eq', 'NotEq') and self.concrete:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, O) and x.cls is not None:
                    ow, fn = self.repo.lookup(x.cls, '__ne__' if op == 'NotEq'
                                              else '__eq__')
                    r = None
                    if hasattr(fn, 'node') and not self.mon.opaque(fn):
                        return self.truth(self.call_fn(fn, [y], {}, x, None))
                    ow, fn = self.repo.lookup(x.cls, '__eq__')
                    if hasattr(fn, 'node') and not self.mon.opaque(fn):
                        r = self.truth(self.call_fn(fn, [y], {}, x, None))
                        return r == (op == 'Eq')
        if op in ('In', 'NotIn'):
            f = self.special(b, '__contains__')
            if f is not None:
                return self.truth(self.call(f, [a], {}, None, None)) == (
                    op == 'In')
        if op in ('In', 'NotIn') and self.concrete and isinstance(
                b, tuple) and known(a) and known(b):
            return (a in b) == (op == 'In')
        if op in ('In', 'NotIn') and isinstance(b, (L, D)) and hashable(a) \
                and all(hashable(x) for x in self.seq(b)):
            return (a in self.seq(b)) == (op == 'In')
        if op in ('Eq', 'NotEq') and isinstance(a, (L, tuple)) and \
                isinstance(b, (L, tuple)):
            p, q = self.seq(a), self.seq(b)
            if all(hashable(x) for x in p + q):
                if getattr(a, 'tag', '') == 'set':
                    return (set(p) == set(q)) == (op == 'Eq')
                return (p == q and isinstance(a, L) == isinstance(b, L)) == (
                    op == 'Eq')
        if op in ('Lt', 'LtE', 'Gt', 'GtE') and isset(a) and isset(b):
            p, q = set(a.seq), set(b.seq)
            return {'Lt': p < q, 'LtE': p <= q, 'Gt': p > q,
                    'GtE': p >= q}[op]
        prim = (type(None), bool, int, float, str)
        if isinstance(a, prim) and isinstance(b, prim):
            try:
                return {'Eq': lambda: a == b, 'NotEq': lambda: a != b,
                        'Is': lambda: a is b or a == b and type(a) == type(b),
                        'IsNot': lambda: not (
                            a is b or a == b and type(a) == type(b)),
                        'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                        'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
            except (KeyError, TypeError):
                pass
        if op in ('Is', 'IsNot') and (a is None or b is None):
            o = b if a is None else a
            if isinstance(o, O):
                if o.kind != 'obj':
                    r = False
                else:
                    if o.none is None:
                        o.none = self.choose() == 1
                        if o.none:
                            o.truth = False
                    r = o.none
            else:
                r = False
            return r if op == 'Is' else not r
        if op in ('Is', 'IsNot') and isinstance(a, O) and isinstance(
                b, bool):
            return (self.truth(a) == b) == (op == 'Is')
        if op in ('Eq', 'NotEq', 'Is', 'IsNot') and a is b:
            return op in ('Eq', 'Is')
        if op in ('Is', 'IsNot') and self.concrete and isinstance(
                a, (tuple, L, D, Arr)) and isinstance(b, (tuple, L, D, Arr)):
            return op == 'IsNot'
        if op in ('Eq', 'NotEq') and isinstance(a, bool) != isinstance(
                b, bool) and (isinstance(a, O) or isinstance(b, O)):
            o, c = (a, b) if isinstance(a, O) else (b, a)
            return (self.truth(o) == c) == (op == 'Eq')
        if op in ('In', 'NotIn') and isinstance(a, str) and isinstance(
                b, str):
            return (a in b) == (op == 'In')
        if op in ('In', 'NotIn') and isinstance(b, (tuple, list)) and \
                isinstance(a, prim) and all(isinstance(x, prim) for x in b):
            return (a in b) == (op == 'In')
        return self.choose() == 0

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr))
                       else e.orelse, fr)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.seq(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        if self.concrete:
            return L(self.elts(e.elts, fr))
        for x in e.elts:
            self.ev(x, fr)
        if e.elts:
            return tuple(self.ev(x, fr) for x in e.elts) if all(
                isinstance(x, (ast.Constant, ast.Name)) for x in e.elts) \
                else O('list', kind='list')
        return O('list', kind='list')

    def e_Set(self, e, fr):
        if self.concrete:
            return L(dict.fromkeys(self.ev(x, fr) for x in e.elts), 'set')
        for x in e.elts:
            self.ev(x, fr)
        return O('set', kind='dict')

    def e_Dict(self, e, fr):
        d = D() if self.concrete else O('dict', kind='dict')
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k, fr) if k is not None else None
            vv = self.ev(v, fr)
            if self.concrete and k is None:
                d.items.update(self.pairs(vv))
            elif isinstance(kk, str) or self.concrete and hashable(kk):
                d.items[kk] = vv
        return d

    def e_Subscript(self, e, fr):
        b = self.ev(e.value, fr)
        if self.concrete and isinstance(e.slice, ast.Slice) and isinstance(
                b, (tuple, L, str)):
            p = [self.ev(x, fr) if x is not None else None
                 for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if all(isinstance(x, (type(None), int)) for x in p):
                r = (b.seq if isinstance(b, L) else b)[slice(*p)]
                return L(r) if isinstance(b, L) else r
        k = self.ev(e.slice, fr)
        if isinstance(b, Arr):
            return model(b.get, down(k))
        f = self.special(b, '__getitem__')
        if f is not None:
            return self.call(f, [k], {}, e, fr)
        r = self.mon.item(self, b, k)
        if r is not NotImplemented:
            return r
        if isinstance(b, L):
            if isinstance(k, int):
                if not -len(b.seq) <= k < len(b.seq):
                    raise PyExc('IndexError')
                return b.seq[k]
            raise Unsupported('index')
        if isinstance(b, D):
            if not hashable(k):
                raise Unsupported('key')
            if k not in b.items:
                if b.factory is None:
                    raise PyExc('KeyError')
                b.items[k] = self.call(b.factory, [], {}, e, fr)
            return b.items[k]
        if isinstance(b, (tuple, list, str)) and isinstance(k, int):
            if not -len(b) <= k < len(b):
                raise PyExc('IndexError')
            return b[k]
        if isinstance(b, O) and isinstance(k, (str, int)) and not isinstance(
                k, bool):
            if k not in b.items:
                b.items[k] = O(short('%s[%r]' % (b.tag, k)))
            return b.items[k]
        return O(short('%s[%s]' % (tag(b), tag(k))))

    def e_Slice(self, e, fr):
        return Sl(*[self.ev(x, fr) if x is not None else None
                    for x in (e.lower, e.upper, e.step)])

    def e_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
                continue
            v = self.ev(x.value, fr)
            f = ''
            if x.format_spec is not None:
                f = self.ev(x.format_spec, fr)
            if not self.concrete or not known(v) or not isinstance(f, str):
                return O('text')
            if x.conversion != -1:
                v = {'r': repr, 's': str, 'a': ascii}[chr(x.conversion)](v)
            try:
                out.append(format(v, f))
            except (ValueError, TypeError):
                return O('text')
        return ''.join(out)

    def e_Lambda(self, e, fr):
        from .repo import Fn
        return Func(Fn('<lambda>', (fr.fn.qual if fr.fn else fr.mod.name) +
                       '.<lambda>', e, fr.mod,
                       fr.cls), None, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.vars[e.target.id] = v
        return v

    def comp(self, e, elts, fr, kind):
        saved = dict(fr.vars)
        out = []

        def go(gens):
            if not gens:
                out.append(tuple([self.ev(x, fr) for x in elts]))
                return
            g = gens[0]
            it = self.iter(self.ev(g.iter, fr), e)
            k = 'c%d' % id(g)
            fr.iters[k] = it
            for v in self.drain(it, e):
                self.assign(g.target, v, fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    go(gens[1:])
            fr.iters.pop(k, None)
        go(e.generators)
        for k in list(fr.vars):
            if k not in saved:
                del fr.vars[k]
        fr.vars.update(saved)
        if self.concrete:
            if len(elts) == 2:
                if not all(hashable(k) for k, v in out):
                    raise Unsupported('key')
                return D(out)
            return L([x[0] for x in out]) if kind == 'list' else L(
                dict.fromkeys(x[0] for x in out), 'set')
        return O(kind, kind=kind)

    def e_ListComp(self, e, fr):
        return self.comp(e, [e.elt], fr, 'list')

    def e_SetComp(self, e, fr):
        return self.comp(e, [e.elt], fr, 'dict')

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, [e.elt], fr, 'list')

    def e_DictComp(self, e, fr):
        return self.comp(e, [e.key, e.value], fr, 'dict')

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)


def tag(v):
    if isinstance(v, O):
        return v.tag
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, Meth):
        return tag(v.obj) + '.' + v.name
    if isinstance(v, Func):
        return v.fn.name
    return repr(v) if isinstance(v, (int, str, bool, type(None))) else \
        type(v).__name__


def short(s):
    return s if len(s) < 120 else s[:60] + '..' + s[-50:]
