"""Aliasing of values and in-place changes on effect paths."""
from .interp import walk
from .prog import fname, recv
from .terms import V, cval, is_const, subterms

FRESH_ATTRS = {'shape', 'dtype', 'size', 'ndim', '__name__', 'nbytes',
               '__class__', 'itemsize'}
VIEW_FUNCS = {'asarray', 'asanyarray', 'ascontiguousarray', 'reshape',
              'ravel', 'squeeze', 'transpose', 'atleast_1d', 'atleast_2d',
              'atleast_3d', 'broadcast_to', 'swapaxes', 'rollaxis',
              'moveaxis', 'expand_dims', 'split', 'array_split', 'vsplit',
              'hsplit', 'flip', 'fliplr', 'flipud', 'diagonal',
              'asfortranarray', 'require', 'nan_to_num'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes',
                'view', 'diagonal', '__getitem__'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed',
           'enumerate', 'zip', 'iter', 'copy.copy', 'filter',
           'collections.OrderedDict', 'collections.deque', 'map',
           'itertools.chain', 'itertools.islice', 'iteritems', 'six.iteritems',
           'itertools.product', 'itertools.cycle', 'itertools.izip'}
SCALAR = {'float', 'int', 'str', 'len', 'bool', 'repr', 'round', 'abs',
          'min', 'max', 'sum', 'isinstance', 'range', 'hash', 'id', 'type',
          'callable', 'hasattr', 'any', 'all', 'format', 'print', 'bytes'}
FRESH_METHODS = {'copy', 'astype', 'flatten', 'min', 'max', 'mean', 'sum',
                 'std', 'var', 'argmin', 'argmax', 'tolist', 'item', 'dot',
                 'all', 'any', 'prod', 'cumsum', 'repeat', 'round', 'clip',
                 'get_numpy_copy', 'format', 'join', 'split', 'encode',
                 'decode', 'startswith', 'endswith', 'replace', 'tobytes',
                 'keys', 'nonzero', 'argsort', 'conj', 'take', 'partition',
                 'lower', 'upper', 'strip', 'rpartition', 'trace', 'ptp',
                 'zeros', 'allocate', 'ones', 'create_from_numpy', 'randint',
                 'generate_seed', 'create_random_state', 'shuffle'}
PARTS = {'items', 'values', 'itervalues', 'iteritems', 'get', 'pop',
         'setdefault', 'popitem'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
            'setdefault', 'popitem', 'sort', 'reverse', 'add', 'discard',
            'fill', 'put', 'itemset', 'resize', 'setflags',
            'difference_update', 'intersection_update',
            'symmetric_difference_update', 'byteswap', '__setitem__',
            '__delitem__', '__setattr__', 'move_to_end', 'appendleft',
            'popleft', 'rotate', 'fill', 'setfield'}
ARG_MUT = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0,
           'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'setattr': 0,
           'delattr': 0, 'numpy.random.shuffle': 0, 'random.shuffle': 0,
           'numpy.put_along_axis': 0}
MAXDEPTH = 60


class Alias(object):
    """which storage does a value belong to"""

    def __init__(self, I, st, fresh=()):
        self.I, self.st = I, st
        self.fresh = FRESH_METHODS | set(fresh)
        self.memo = {}

    def own(self, v, el=0):
        """{(root, attribute names on the way)}; el: element accesses that
        are still to be applied to v"""
        k = (v, el)
        if k not in self.memo:
            self.memo[k] = frozenset()
            self.memo[k] = frozenset(self._own(v, el))
        return self.memo[k]

    def many(self, vs, el):
        out = set()
        for v in vs:
            if isinstance(v, V):
                out |= self.own(v, el)
        return out

    def _own(self, v, el):
        o, a = v.op, v.a
        el = min(el, 4)
        if o in ('const', 'func', 'cls', 'mod', 'bound', 'absent', 'lambda',
                 'fstr', 'cmp', 'not', 'un', 'slice', 'ext'):
            return ()
        if o == 'sym':
            return {(v, ())}
        if o == 'attr':
            if a[1] in FRESH_ATTRS:
                return ()
            if a[0].op == 'ref':
                return {(a[0], (a[1],))}
            return {(r, n + (a[1],)) for r, n in self.own(a[0], el + 1)}
        if o == 'idx':
            return self.own(a[0], el + 1)
        if o == 'elem':
            return self.own(a[0], el + 1)
        if o == 'key':
            return ()
        if o in ('loopvar', 'loopout'):
            return self.many(a[2:], el)
        if o in ('phi', 'oneof', 'aug', 'and', 'or', 'star'):
            xs = a[1:] if o in ('phi', 'aug') else a
            flat = []
            for x in xs:
                flat += list(x) if isinstance(x, tuple) else [x]
            if o == 'aug':
                flat = flat[:1] if not el else flat
            return self.many(flat, el)
        if o == 'tuple':
            return self.many(a[0], el - 1) if el else ()
        if o == 'bin':
            return self.many(a[1:], el) if el and a[0] == '+' else ()
        if o == 'ref':
            ob = self.I.obj(self.st, v)
            if ob is None or not el:
                return ()
            out = set()
            its = ob.items
            its = its.values() if isinstance(its, dict) else (its or ())
            out |= self.many([x for x in its if isinstance(x, V)], el - 1)
            if isinstance(ob.more, V):
                out |= self.own(ob.more, el - 1)
            if 'from' in ob.attrs:
                out |= self.own(ob.attrs['from'], el)
            return out
        if o == 'genexp':
            return self.own(a[0], el - 1) if el and isinstance(
                a[0], V) else ()
        if o == 'call':
            f, args, kw, u = a
            n = fname(f)
            if f.op == 'attr':
                if n in self.fresh:
                    if n == 'copy' and el:
                        # a shallow copy of a container, or of an array
                        return {(r, x + ('copy()',)) for r, x in
                                self.own(f.a[0], el)}
                    return ()
                if n in PARTS:
                    out = set(self.own(f.a[0], el if n in (
                        'items', 'values', 'itervalues', 'iteritems') else
                        el + 1)) if el or n in ('get', 'pop', 'setdefault',
                                                'popitem') else set()
                    return out | self.many(args[1:], el)
                if n in VIEW_METHODS:
                    return self.own(f.a[0], el)
            if f.op == 'ext':
                short = n.rpartition('.')[2]
                if n in SHALLOW:
                    return self.many(args, el) if el else ()
                if n in SCALAR and not (n in ('min', 'max', 'sum') and el):
                    return ()
                if n in ('next', 'getattr', 'min', 'max'):
                    return self.many(args[:1], el + 1)
                if n in ('copy.deepcopy', 'deepcopy'):
                    return ()
                if n.startswith('numpy.'):
                    if short in VIEW_FUNCS or short == 'array' and is_const(
                            dict(kw).get('copy', V('const', True)), False):
                        return self.many(args[:1], el)
                    return ()
                if n.split('.')[0] in ('math', 'os', 'sys', 'time', 'json',
                                       'h5py', 're', 'string', 'six'):
                    return ()
            if f.op == 'cls' or f.op == 'func':
                return {(v, ())}
            return {(v, ('?',))}
        return {(v, ('?',))}


def changes(p):
    """(what is changed in place, event) along a path"""
    for e in p.events():
        k = e.kind
        if k in ('setattr', 'setitem', 'delitem', 'delattr'):
            yield e.obj, e
        elif k == 'aug':
            if e.target.op not in ('const', 'bin'):
                yield e.target, e
        elif k in ('call', 'mut'):
            n = fname(e.f)
            if e.f.op == 'attr' and (n in MUTATORS or k == 'mut'):
                yield e.f.a[0], e
            elif e.f.op == 'attr' and n == 'shuffle' and e.args:
                yield e.args[0], e
            elif e.f.op == 'ext' and n in ARG_MUT and e.args:
                yield e.args[0], e
            out = e.kw.get('out') if isinstance(e.kw, dict) else None
            if out is not None and e.f.op == 'ext' and \
                    n.startswith('numpy.'):
                for x in (out.a[0] if out.op == 'tuple' else (out,)):
                    yield x, e
