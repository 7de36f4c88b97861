"""Evaluation of extracted terms at sample points (strings, lists, ranges)."""
import re
from collections import namedtuple

from .prog import OPS, Unknown
from .terms import V, cval


Con = namedtuple('Con', ['start_layer', 'output_name', 'end_layer',
                         'input_name'])


class Raised(Unknown):
    """the evaluation itself raises an error"""


class Matrix(list):
    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            r = list.__getitem__(self, i[0])
            if isinstance(i[0], slice):
                return [row[i[1]] for row in r]
            return r[i[1]]
        return list.__getitem__(self, i)

    @property
    def shape(self):
        return (len(self), len(list.__getitem__(self, 0)))


class Rec(object):
    """record with given attributes"""

    def __init__(self, **k):
        self.__dict__.update(k)


def cumsum(x):
    out, s = [], 0
    for v in x:
        s += v
        out.append(s)
    return out


def prod(x):
    p = 1
    for v in x:
        p *= v
    return p


def npath(*args):
    parts = []
    for a in args:
        parts.extend(a.replace('..', '@').split('.'))
    out = []
    for p in parts:
        while p.startswith('@'):
            out.pop()
            p = p[1:]
        out.append(p)
    return '.'.join(out)


EXT = {'max': max, 'min': min, 'abs': abs, 'len': len, 'int': int,
       'float': float, 'bool': bool, 'sum': sum, 'str': str, 'slice': slice,
       'range': lambda *a: list(range(*a)), 'list': list, 'tuple': tuple,
       'set': set, 'frozenset': frozenset, 'sorted': sorted,
       'reversed': lambda x: list(reversed(x)),
       'zip': lambda *a: list(zip(*a)),
       'enumerate': lambda x, start=0: list(enumerate(x, start)),
       'all': all, 'any': any, 'round': round,
       'numpy.cumsum': cumsum, 'numpy.prod': prod, 'numpy.product': prod,
       'itertools.accumulate': cumsum,
       'numpy.argmax': lambda x: list(x).index(max(x)),
       'numpy.array': list, 'numpy.asarray': list,
       'numpy.ceil': lambda x: -(-x // 1), 'numpy.floor': lambda x: x // 1,
       'math.ceil': lambda x: int(-(-x // 1)),
       'math.floor': lambda x: int(x // 1),
       'numpy.atleast_2d': lambda x: x,
       'numpy.minimum': min, 'numpy.maximum': max,
       'operator.itemgetter': lambda *a: None,
       'copy.copy': lambda x: x, 'copy.deepcopy': lambda x: x,
       're.compile': re.compile, 're.match': re.match,
       're.search': re.search, 're.fullmatch': re.fullmatch,
       're.ASCII': re.ASCII, 're.A': re.A}
REM = ('match', 'search', 'fullmatch')
STRM = ('split', 'rsplit', 'join', 'partition', 'rpartition', 'format',
        'startswith', 'endswith', 'replace', 'lower', 'upper', 'strip')
LISTM = ('index', 'count', 'keys', 'values', 'items', 'get', 'union',
         'difference', 'intersection', 'issubset', 'copy', 'issuperset',
         'isdisjoint', 'symmetric_difference')


TYPES = {'list': list, 'tuple': tuple, 'dict': (dict,), 'set': set,
         'str': str, 'int': int, 'float': float, 'bool': bool,
         'six.string_types': str, 'frozenset': frozenset,
         'collections.OrderedDict': dict, 'numbers.Number': (int, float),
         'six.integer_types': int, 'collections.abc.Iterable':
         (list, tuple, set, dict, str)}


class Eval(object):
    classes = {'BufferStructure': Rec}

    def __init__(self, I=None, st=None, env=None, index=None, funcs=None):
        self.I, self.st = I, st
        self.env = env or {}
        # position of elements in their sequence: for all loops, or by loop
        self.index = index if not isinstance(index, dict) else None
        self.by = dict(index) if isinstance(index, dict) else {}
        self.funcs = dict({'get_normalized_path': npath}, **(funcs or {}))
        self.memo = {}
        self.leaf = None

    def __call__(self, v):
        if not isinstance(v, V):
            raise Unknown(v)
        if v in self.memo:
            return self.memo[v]
        r = self.ev(v)
        self.memo[v] = r
        return r

    def ev(self, v):
        if v in self.env:
            return self.env[v]
        if self.leaf is not None:
            r = self.leaf(v, self) if self.leaf.__code__.co_argcount > 1 \
                else self.leaf(v)
            if r is not None:
                return r[0]
        op, a = v.op, v.a
        if op == 'const':
            return a[0]
        try:
            return self.ev2(v, op, a)
        except (TypeError, ValueError, ZeroDivisionError, IndexError,
                KeyError, AttributeError, StopIteration):
            raise Unknown(v)

    def ev2(self, v, op, a):
        if op in ('bin', 'cmp') and a[0] in OPS:
            return OPS[a[0]](self(a[1]), self(a[2]))
        if op == 'un':
            x = self(a[1])
            return {'-': lambda: -x, '+': lambda: x,
                    'not': lambda: not x}[a[0]]()
        if op == 'not':
            return not self(a[0])
        if op in ('and', 'or'):
            r, unk = None, None
            for x in a[0]:
                try:
                    r = self(x)
                except Unknown as e:
                    unk = e
                    continue
                if (op == 'and') != bool(r):
                    return r
            if unk:
                raise unk
            return r
        if op == 'phi':
            return self(a[1] if self(a[0]) else a[2])
        if op == 'tuple':
            out = []
            for x in a[0]:
                if x.op == 'star':
                    out.extend(self(x.a[0]))
                else:
                    out.append(self(x))
            return tuple(out)
        if op == 'func' and a[0].name in self.funcs:
            return self.funcs[a[0].name]
        if op == 'cls':
            return v
        if op == 'ext' and a[0] in ('str', 'len', 'int', 'float', 'abs',
                                    'bool'):
            return EXT[a[0]]
        if op == 'slice':
            return slice(self(a[0]), self(a[1]), self(a[2]))
        if op == 'idx':
            b, i = self(a[0]), self(a[1])
            if isinstance(b, dict) and i not in b:
                raise Raised(v)
            return b[i]
        if op == 'attr':
            b = self(a[0])
            return getattr(b, a[1]) if not isinstance(b, dict) or \
                a[1] not in b else b[a[1]]
        if op in ('elem', 'key'):
            i = self.by.get(a[1], self.index)
            if i is not None:
                return list(self(a[2] if len(a) > 2 else a[0]))[i]
        if op == 'ref' and self.I is not None:
            o = self.I.obj(self.st, v)
            if o.kind == 'list' and o.more is None:
                return [self(x) for x in o.items]
            if o.kind == 'list' and 'concat' in o.attrs:
                a, b = [self(x) for x in o.attrs['concat'].a[0]]
                return list(a) + list(b)
            if o.kind in ('list', 'set') and 'from' in o.attrs:
                return (list if o.kind == 'list' else set)(
                    self(o.attrs['from']))
            if o.kind in ('list', 'set') and 'comp_iter' in o.attrs and \
                    o.more is not None:
                r = self.comp(o.attrs['comp_iter'], o.more,
                              o.attrs['comp_cond'].a[0])
                return r if o.kind == 'list' else set(r)
            if o.kind == 'dict' and 'comp_iter' in o.attrs and o.items:
                ks = list(o.items)
                k0 = o.attrs.get('comp_key', ks[0])
                d = dict(self.comp(o.attrs['comp_iter'],
                                   V('tuple', (k0, o.items[k0])),
                                   o.attrs['comp_cond'].a[0]))
                d.update({self(k): self(o.items[k]) for k in ks
                          if k is not k0})
                return d
            if o.kind == 'set' and o.more is None:
                return {self(x) for x in o.items}
            if o.kind == 'dict' and o.more is None:
                return {self(k): self(x) for k, x in o.items.items()
                        if x.op != 'absent'}
        if op == 'genexp' and len(a[1]) == 1:
            return self.comp(a[1][0], a[0], a[2])
        if op == 'call':
            f, args, kw, u = a
            args = list(args)
            if f is V('ext', 'isinstance') and len(args) == 2:
                return isinstance(self(args[0]), self.types(args[1]))
            if f.op == 'ext':
                n = f.a[0]
                if n in EXT:
                    xs = []
                    for x in args:
                        if x.op == 'star':
                            xs.extend(self(x.a[0]))
                        else:
                            xs.append(self(x))
                    kws = {k: self(x) for k, x in kw}
                    if n == 'numpy.sum' or n == 'sum':
                        kws.pop('axis', None)
                    return EXT[n](*xs, **kws)
            if f.op in ('func', 'bound') and f.a[0].name in self.funcs:
                return self.funcs[f.a[0].name](
                    *[self(x) for x in args],
                    **{k: self(x) for k, x in kw})
            if f.op == 'call' and f.a[0] is V(
                    'ext', 'collections.namedtuple') and f.a[1][0].op == \
                    'const' and cval(f.a[1][0]) == 'Connection':
                return Con(*[self(x) for x in args],
                           **{k: self(x) for k, x in kw})
            if f.op == 'attr':
                b = self(f.a[0])
                m = f.a[1]
                if isinstance(b, str) and m in STRM or \
                        isinstance(b, (list, dict, set, tuple,
                                       frozenset)) and m in LISTM:
                    return getattr(b, m)(*[self(x) for x in args],
                                         **{k: self(x) for k, x in kw})
                if isinstance(b, re.Pattern) and m in REM:
                    return getattr(b, m)(*[self(x) for x in args])
                if m in self.funcs:
                    return self.funcs[m](b, *[self(x) for x in args],
                                         **{k: self(x) for k, x in kw})
        if op == 'fmt':
            return ''.join(str(self(x)) for x in a[0])
        raise Unknown(v)

    def types(self, v):
        if v.op == 'tuple':
            return tuple(self.types(x) for x in v.a[0])
        if v.op == 'ext' and v.a[0] in TYPES:
            return TYPES[v.a[0]]
        if v.op == 'cls' and v.a[0].name in self.classes:
            return self.classes[v.a[0].name]
        raise Unknown(v)

    def comp(self, it, body, conds=()):
        xs = list(self(it))
        out = []
        for i in range(len(xs)):
            e = Eval(self.I, self.st, self.env, i, self.funcs)
            e.leaf, e.by = self.leaf, self.by
            if all(e(c) for c in conds):
                out.append(e(body))
        return out

    def known(self, v):
        try:
            self(v)
            return True
        except Unknown:
            return False

    def holds(self, conds):
        """False if some condition of a path is known not to hold"""
        for c, val in conds.items():
            try:
                if bool(self(c)) != val:
                    return False
            except Unknown:
                pass
        return True


class Facts(object):
    """what a function does at a sample point: facts on every consistent
    path (must), on some (may)"""

    def __init__(self):
        self.must, self.may, self.ends, self.und = None, [], set(), []
        self.loose = []     # conditions that could not be evaluated
        self.ret = None     # iteration that returned (None: none did)

    def join(self, other):
        """alternative"""
        self.must = other.must if self.must is None else \
            [f for f in self.must if f in other.must]
        self.may += [f for f in other.may if f not in self.may]
        self.ends |= other.ends
        self.und += other.und
        self.loose += other.loose

    def then(self, other):
        self.must = (self.must or []) + (other.must or [])
        self.may += [f for f in other.may if f not in self.may]
        self.und += other.und
        self.loose += other.loose


def replay(I, st, ps, env, extract, funcs=None, leaf=None, index=None):
    """Follow the effects of a function at a sample point.

    extract(event, E) -> list of facts; Unknown -> noted in .und"""
    def go(p, idx):
        E = Eval(I, st, env, idx, funcs)
        E.leaf = leaf
        if not E.holds(p.conds):
            return None
        F = Facts()
        F.must = []
        for x in p.items:
            if hasattr(x, 'paths'):
                L = loop(x, idx, E)
                F.then(L)
                if L.ends == {'raise'}:
                    F.ends = {'raise'}
                    F.loose = []
                    return F
                rets = [q for q in x.paths if q.end == 'ret']
                if rets:
                    # a copy of this path for each return in the loop
                    copy = any(all(p.conds.get(c) == b for c, b in
                                   q.conds.items()) for q in rets)
                    plain = any(all(p.conds.get(c) == b for c, b in
                                    q.conds.items()) for q in x.paths
                                if q.end != 'ret') or not copy
                    if isinstance(L.ret, int) and not copy or \
                            L.ret is None and not plain:
                        return None
                    # what follows belongs to the iteration that returned
                    E.by = merged(E.by, x.node.uid, L.ret if isinstance(
                        L.ret, int) else 0)
                    E.memo = {}
                continue
            try:
                fs = extract(x, E) or []
            except Unknown as e:
                F.und.append((x, e.args[0] if e.args else None))
                continue
            F.must += fs
            F.may += [f for f in fs if f not in F.may]
        F.ends = {p.end}
        if E.by and not E.holds(p.conds):
            return None
        for c in p.conds:
            try:
                E(c)
            except Raised:
                F.ends = {'raise'}
            except Unknown:
                pass
        if F.ends != {'raise'}:
            F.loose += [c for c in p.conds if not E.known(c)]
        if p.end == 'ret' or p.end is None or p.end == 'raise':
            try:
                fs = extract(('end', p), E) or []
            except Unknown as e:
                F.und.append((p, e.args[0] if e.args else None))
                fs = []
            F.must += fs
            F.may += [f for f in fs if f not in F.may]
        return F

    def loop(li, idx, E):
        F = Facts()
        F.must = []
        try:
            n = len(list(E(li.node.it)))
        except (Unknown, TypeError, AttributeError):
            n = None
        for i in range(n if n is not None else 1):
            alts = Facts()
            for q in li.paths:
                r = go(q, merged(idx, li.node.uid, i)
                       if n is not None else idx)
                if r is not None:
                    alts.join(r)
            if 'ret' in alts.ends:
                F.ret = i if alts.ends == {'ret'} and n is not None and \
                    F.ret is None else 'maybe'
            if n is None:
                if alts.may:
                    F.und.append((li, li.node.it))
                F.loose.append(li.node.it)
                F.may += alts.may
                F.und += alts.und
            else:
                alts.must = alts.must or []
                F.then(alts)
                if alts.ends == {'raise'}:
                    F.ends = {'raise'}
                    return F
                if alts.ends in ({'break'}, {'ret'}):
                    return F
        return F

    out = Facts()
    for p in ps:
        r = go(p, dict(index or {}))
        if r is not None:
            out.join(r)
    out.must = out.must or []
    return out


def merged(d, k, v):
    d = dict(d)
    d[k] = v
    return d
