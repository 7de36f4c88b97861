"""Hash-consed value terms: the value domain of the abstract interpreter."""


class V(object):
    __slots__ = ('op', 'a', 'h', 'depth')
    _table = {}

    def __new__(cls, op, *a):
        key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, (V, tuple)) else x for x in a)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.h = hash(key)
            d = 0
            for x in a:
                if isinstance(x, V):
                    d = max(d, x.depth)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, V):
                            d = max(d, y.depth)
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, V):
                                    d = max(d, z.depth)
            t.depth = d + 1
            cls._table[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)


def const(v):
    return V('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ABSENT = V('absent')


def is_const(v, *vals):
    if not isinstance(v, V) or v.op != 'const':
        return False
    if not vals:
        return True
    return any(v is const(x) for x in vals)


def cval(v, default=None):
    return v.a[0] if isinstance(v, V) and v.op == 'const' else default


_uid = [0]


def fresh():
    _uid[0] += 1
    return _uid[0]


def subterms(v, seen=None):
    """All V nodes reachable structurally (not through the heap)."""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x, d) for x in v) + ')'
        return str(v)
    if d > 6:
        return '..'
    o, a = v.op, v.a
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        f = lambda x: '' if is_const(x, None) else s(x)
        r = '%s:%s' % (f(a[0]), f(a[1]))
        return r if is_const(a[2], None) else r + ':' + f(a[2])
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(x)) for k, x in a[2]]))
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'un':
        return '%s%s' % (a[0], s(a[1]))
    if o == 'not':
        return 'not %s' % s(a[0])
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(s(x) for x in a[0]) + ')'
    if o == 'phi':
        return '{%s ? %s : %s}' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a[0]) + ')'
    if o == 'func':
        return 'fn:%s' % a[0].qual
    if o == 'bound':
        return '%s.%s' % (s(a[1]), a[0].name)
    if o == 'cls':
        return a[0].name
    if o == 'mod':
        return a[0]
    if o == 'ext':
        return a[0]
    if o == 'ref':
        return '#%s' % a[0]
    if o == 'elem':
        return 'elem(%s)' % s(a[0])
    if o == 'key':
        return 'key(%s)' % s(a[0])
    if o == 'loopvar':
        return 'lv:%s' % (a[1],)
    if o == 'loopout':
        return 'lo:%s' % (a[1],)
    return '%s%s' % (o, show(a, d + 1) if a else '')
