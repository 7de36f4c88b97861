"""Helpers for clients that judge the paths of a function."""
from .interp import Ev, Inl, Interp, State
from .paths import LoopItem, Path, TooMany, paths, decide, simp
from .repo import AnalysisBroken, Fn
from .terms import V, const, is_const, cval, subterms, NONE


class Unknown(Exception):
    pass


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '//': lambda a, b: a // b, '%': lambda a, b: a % b,
       '**': lambda a, b: a ** b,
       '&': lambda a, b: a & b, '|': lambda a, b: a | b,
       '^': lambda a, b: a ^ b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       'is': lambda a, b: a is b if (a is None or b is None or
                                     isinstance(a, bool) or
                                     isinstance(b, bool)) else a == b,
       'is not': lambda a, b: not OPS['is'](a, b),
       'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}
FUNCS = {'max': max, 'min': min, 'abs': abs, 'len': len, 'int': int,
         'float': float, 'bool': bool, 'sum': sum,
         'math.ceil': lambda x: -int(-x // 1),
         'math.floor': lambda x: int(x // 1)}


def arith(v, env):
    """value of a term at a sample point, or Unknown"""
    if v in env:
        return env[v]
    if v.op == 'const':
        return v.a[0]
    try:
        if v.op == 'bin' or v.op == 'cmp':
            if v.a[0] in OPS:
                return OPS[v.a[0]](arith(v.a[1], env), arith(v.a[2], env))
        elif v.op == 'un':
            x = arith(v.a[1], env)
            return {'-': lambda: -x, '+': lambda: x,
                    'not': lambda: not x}[v.a[0]]()
        elif v.op == 'not':
            return not arith(v.a[0], env)
        elif v.op in ('and', 'or'):
            r, unk = None, None
            for x in v.a[0]:
                try:
                    r = arith(x, env)
                except Unknown as e:
                    unk = e
                    continue
                if (v.op == 'and') != bool(r):
                    return r
            if unk:
                raise unk
            return r
        elif v.op == 'phi':
            return arith(v.a[1] if arith(v.a[0], env) else v.a[2], env)
        elif v.op == 'tuple':
            return tuple(arith(x, env) for x in v.a[0])
        elif v.op == 'call' and v.a[0].op == 'ext' and \
                v.a[0].a[0] in FUNCS and not v.a[2]:
            return FUNCS[v.a[0].a[0]](*[arith(x, env) for x in v.a[1]])
        elif v.op == 'idx':
            return arith(v.a[0], env)[arith(v.a[1], env)]
    except (TypeError, ValueError, ZeroDivisionError, IndexError, KeyError):
        pass
    raise Unknown(v)


def consistent(p, env):
    for c, val in p.conds.items():
        try:
            if bool(arith(c, env)) != val:
                return False
        except Unknown:
            pass
    return True


def run(repo, cls, meth, args=None, attrs=None, opaque=None, hook=None,
        kwargs=None, setup=None, precise=False, raw=False):
    """Interpret a method on an instance of cls; -> (I, state, paths, self)

    args: None -> every parameter is a symbol of its own name."""
    I = Interp(repo, opaque=opaque or (lambda fn: False), hook=hook,
               precise=precise, raw=raw)
    st = State()
    fn = I.method(cls, meth)
    s = I.instance(st, cls, **(attrs or {}))
    if setup:
        setup(I, st, s)
    if args is None:
        args = [V('sym', a) for a in fn.params()[1:]]
        kw = {a.arg: V('sym', a.arg) for a in fn.node.args.kwonlyargs}
        kwargs = dict(kw, **(kwargs or {}))
    v, st2, blk = I.run(fn, args, st, self_v=s, kwargs=kwargs)
    return I, st2, top(blk), s


def run_fn(repo, fn, args=None, opaque=None, hook=None, kwargs=None,
           setup=None, precise=False, raw=False):
    I = Interp(repo, opaque=opaque or (lambda f: False), hook=hook,
               precise=precise, raw=raw)
    st = State()
    if setup:
        setup(I, st)
    if args is None:
        args = [V('sym', a) for a in fn.params()]
    v, st2, blk = I.run(fn, args, st, kwargs=kwargs)
    return I, st2, top(blk)


def top(blk, limit=600):
    """paths of the outermost call; end/val are kept"""
    if len(blk) == 1 and isinstance(blk[0], Inl):
        return paths(blk[0].body, limit)
    return paths(blk, limit)


def live(ps):
    return [p for p in ps if p.end != 'raise']


def calls(p, name=None, loops=True):
    """call events, in order, of a path"""
    for i, e in enumerate(p.events(loops)):
        if e.kind in ('call', 'mut') and (name is None or
                                          fname(e.f) == name):
            yield e


def fname(f):
    if f.op == 'attr':
        return f.a[1]
    if f.op in ('bound', 'func'):
        return f.a[0].name
    if f.op == 'ext':
        return f.a[0]
    return None


def recv(f):
    if f.op == 'attr':
        return f.a[0]
    if f.op == 'bound':
        return f.a[1]
    return None


def arg(e, i, name=None):
    if i is not None and len(e.args) > i:
        return e.args[i]
    if name is not None:
        return e.kw.get(name)
    return None


def flat(p):
    """(index, event, loops) in order"""
    out = []

    def go(p, loops):
        for x in p.items:
            if isinstance(x, LoopItem):
                for q in x.paths:
                    go(q, loops + [(x, q)])
            else:
                out.append((len(out), x, loops))
    go(p, [])
    return out


class Src(object):
    """what a loop runs over"""

    def __init__(self, base, rev=False, skip=0, sort=False, unordered=False,
                 other=(), items=None):
        self.base, self.rev, self.skip = base, rev, skip
        self.sort, self.unordered, self.other = sort, unordered, other
        self.zips = None
        self.cond = ()

    def full(self):
        return not self.skip and not self.other and not self.cond


def source(I, st, it, depth=0):
    """normal form of an iterable"""
    if depth > 12:
        return Src(it)
    o = I.obj(st, it)
    if o is not None and o.kind in ('list', 'set'):
        if 'from' in o.attrs:
            s = source(I, st, o.attrs['from'], depth + 1)
            if o.kind == 'set':
                s.unordered = True
            return s
        if 'comp_iter' in o.attrs:
            s = source(I, st, o.attrs['comp_iter'], depth + 1)
            s.cond = s.cond + o.attrs['comp_cond'].a[0]
            if o.kind == 'set':
                s.unordered = True
            return s
        return Src(it)
    if it.op == 'genexp':
        s = source(I, st, it.a[1][0], depth + 1)
        s.cond = s.cond + it.a[2]
        return s
    if it.op == 'idx' and it.a[1].op == 'slice':
        s = source(I, st, it.a[0], depth + 1)
        lo, hi, step = it.a[1].a
        lo, hi, step = (cval(x, '?') for x in (lo, hi, step))
        if step == -1 and lo is None and hi is None:
            s.rev = not s.rev
            return s
        if step == -1 and lo is None and isinstance(hi, int) and \
                hi >= 0 and not s.rev and not s.other:
            s.rev = True
            s.skip += hi + 1
            return s
        if step in (None, 1) and hi is None and isinstance(
                lo, int) and lo >= 0 and not s.rev:
            s.skip += lo
            return s
        if step in (None, 1) and lo in (None, 0) and hi is None:
            return s
        s.other = s.other + (it.a[1],)
        return s
    if it.op == 'call':
        f, args, kw, u = it.a
        if f.op == 'attr' and not args and f.a[1] in (
                'items', 'keys', 'values', 'iteritems', 'itervalues',
                'iterkeys', 'copy'):
            return source(I, st, f.a[0], depth + 1)
        if f.op == 'ext' and args:
            n = f.a[0]
            if n in ('list', 'tuple', 'iter', 'enumerate'):
                return source(I, st, args[0], depth + 1)
            if n == 'reversed':
                s = source(I, st, args[0], depth + 1)
                s.rev = not s.rev
                return s
            if n == 'sorted':
                s = source(I, st, args[0], depth + 1)
                s.sort = True
                s.rev = is_const(dict(kw).get('reverse', NONE), True)
                s.unordered = False
                return s
            if n in ('set', 'frozenset'):
                s = source(I, st, args[0], depth + 1)
                s.unordered = True
                return s
            if n == 'zip':
                ss = [source(I, st, a, depth + 1) for a in args]
                s = Src(ss[0].base)
                s.zips = ss
                for x in ss:
                    if not x.full() or x.rev:
                        s.other = s.other + (x.base,)
                return s
            if n in ('range', 'xrange'):
                if len(args) == 1 and args[0].op == 'call' and \
                        args[0].a[0] is V('ext', 'len'):
                    return source(I, st, args[0].a[1][0], depth + 1)
                if len(args) == 2 and args[1].op == 'call' and \
                        args[1].a[0] is V('ext', 'len') and \
                        isinstance(cval(args[0]), int):
                    s = source(I, st, args[1].a[1][0], depth + 1)
                    s.skip += cval(args[0])
                    return s
            if n == 'itertools.islice' and len(args) == 3 and \
                    isinstance(cval(args[1]), int) and is_const(args[2],
                                                                None):
                s = source(I, st, args[0], depth + 1)
                s.skip += cval(args[1])
                return s
    return Src(it)


def escapes(li):
    """a loop that can end before its iterable does"""
    return any(q.end in ('break', 'ret') for q in li.paths)


def elem_of(v, base):
    """v is the element of base at the current iteration: elem(base),
    base[key(base)] or base[i] with i from range(len(..))"""
    if v.op == 'elem' and v.a[0] is base:
        return True
    if v.op == 'idx' and v.a[0] is base:
        k = v.a[1]
        if k.op in ('key', 'elem') and k.a[0] is base:
            return True
        if k.op == 'elem' and k.a[0].op == 'call' and \
                k.a[0].a[0] is V('ext', 'range'):
            return True
    return False


def find_cls(repo, name):
    c = repo.find_class(name)
    if c is None:
        raise AnalysisBroken('class %s not found' % name)
    return c


def slice_range(sl, n, env):
    """index set selected by a subscript in an axis of length n"""
    if sl.op == 'slice':
        lo, hi, step = [arith(x, env) for x in sl.a]
        return list(range(n))[slice(lo, hi, step)]
    if sl.op == 'call' and sl.a[0] is V('ext', 'slice'):
        a = [arith(x, env) for x in sl.a[1]]
        return list(range(n))[slice(*a)]
    if sl.op == 'tuple' and sl.a[0]:
        return slice_range(sl.a[0][0], n, env)
    i = arith(sl, env)
    return [list(range(n))[i]]


def nouid(v, memo=None):
    """the term with the identities of calls (not of loops) dropped"""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(nouid(x, memo) for x in v)
    if not isinstance(v, V):
        return v
    if v in memo:
        return memo[v]
    a = tuple(nouid(x, memo) for x in v.a)
    if v.op == 'call':
        a = a[:3] + (0,)
    memo[v] = r = V(v.op, *a)
    return r
