"""Small graphs of layers, wired, described and instantiated by the abstract
machine.

The construction code is evaluated on graphs with equal and clashing names,
parallel connections and named ports, wired in different orders; what comes
out is compared with the graph itself.  Sets are gone through in two opposite
orders.  Parts of P23, P25 and P26."""
import ast
import itertools

from .arch import fn_of
from .hooks import guarded
from .machine import ClsV, D, Ext, L, Machine, Meth, Monitor, O, PyExc, \
    Unsupported
from .prog import find_cls
from .specnet import Match, Pattern, regex
from .valid import loc
from .watch import attempt, judge


class Graph(object):
    """layers: [(type, name or None, options)] in order of creation;
    wires: [(i, output, j, input)]"""

    def __init__(self, what, layers, wires):
        self.what, self.layers, self.wires = what, layers, wires

    def names(self):
        base = [n or t for t, n, o in self.layers]
        count = {b: base.count(b) for b in base}
        out, at = [], {}
        for b in base:
            if count[b] == 1:
                out.append(b)
                continue
            i = at.get(b, 1)
            while count.get('%s_%d' % (b, i)) == 1:
                i += 1
            out.append('%s_%d' % (b, i))
            at[b] = i + 1
        return out

    def arch(self):
        ns = self.names()
        r = {}
        for n, (t, x, o) in zip(ns, self.layers):
            r[n] = dict(o)
            r[n]['@type'] = t
            r[n]['@outgoing_connections'] = {}
        for i, o, j, k in self.wires:
            r[ns[i]]['@outgoing_connections'].setdefault(o, []).append(
                '%s.%s' % (ns[j], k))
        return r

    def connections(self):
        ns = self.names()
        return {(ns[i], o, ns[j], k) for i, o, j, k in self.wires}


d = 'default'
GRAPHS = [
    Graph('a chain', [('Input', None, {'out_shapes': 'S'}),
                      ('Rnn', None, {'size': 4}),
                      ('Loss', None, {})],
          [(0, d, 1, d), (1, d, 2, d)]),
    Graph('a chain of equal layers', [
        ('Input', None, {}), ('FC', None, {'size': 1}),
        ('FC', None, {'size': 2}), ('FC', None, {'size': 3, 'act': 'rel'})],
        [(0, d, 1, d), (1, d, 2, d), (2, d, 3, d)]),
    Graph('layers created in another order than wired', [
        ('FC', None, {'size': 1}), ('Input', None, {}),
        ('FC', None, {'size': 2}), ('FC', None, {'size': 3})],
        [(1, d, 3, d), (3, d, 0, d), (0, d, 2, d)]),
    Graph('a name that is also a number of others', [
        ('Input', None, {}), ('FC', None, {'n': 0}), ('FC', None, {'n': 1}),
        ('FC', 'FC_1', {'n': 2})],
        [(0, d, 1, d), (1, d, 2, d), (2, d, 3, d)]),
    Graph('taken numbers', [
        ('FC', 'FC_2', {'n': 2}), ('FC', 'FC_3', {'n': 7}),
        ('Input', None, {}), ('FC', None, {'n': 0}), ('FC', None, {'n': 1})],
        [(2, d, 3, d), (3, d, 4, d), (2, d, 0, d), (0, d, 1, d)]),
    Graph('equal names given', [
        ('Input', None, {}), ('FC', 'hid', {'n': 0}), ('Rnn', 'hid',
                                                       {'n': 1})],
        [(0, d, 1, d), (1, d, 2, d)]),
    Graph('layers that share a name with a type', [
        ('Input', None, {}), ('FC', 'Rnn', {'n': 0}), ('Rnn', None,
                                                       {'n': 1})],
        [(0, d, 1, d), (1, d, 2, d)]),
    Graph('named ports', [
        ('Input', None, {}), ('Soft', 'Output', {}), ('Mask', None, {}),
        ('Loss', None, {'importance': 2})],
        [(0, d, 1, d), (0, 'targets', 1, 'targets'), (1, 'loss', 2, d),
         (0, 'mask', 2, 'mask'), (2, d, 3, d)]),
    Graph('parallel connections', [
        ('Input', None, {}), ('A', None, {}), ('B', None, {}),
        ('C', None, {})],
        [(0, d, 1, d), (0, d, 2, d), (1, d, 3, d), (2, d, 3, d),
         (1, 'h', 3, 'x'), (1, d, 3, 'x'), (1, '..internals.H', 3, d)]),
    Graph('connected by named ports only', [
        ('Input', None, {}), ('A', None, {'n': 0}), ('A', None, {'n': 1}),
        ('B', None, {})],
        [(0, 'a', 1, 'x'), (1, 'y', 2, 'z'), (2, 'u', 3, 'v'),
         (0, 'b', 3, 'w')]),
    Graph('many feed one', [
        ('Input', None, {}), ('A', None, {'n': 0}), ('A', None, {'n': 1}),
        ('A', None, {'n': 2}), ('A', None, {'n': 3}), ('B', None, {})],
        [(0, d, i, d) for i in (4, 3, 2, 1)] + [
            (i, d, 5, d) for i in (4, 3, 2, 1)] + [(0, d, 5, d)]),
    Graph('two branches joined late', [
        ('FC', None, {'n': 0}), ('FC', None, {'n': 1}), ('Input', None, {}),
        ('FC', None, {'n': 2}), ('FC', None, {'n': 3})],
        [(2, d, 1, d), (1, d, 4, d), (2, d, 0, d), (0, d, 3, d)]),
]


def orders(ws, n=24):
    if len(ws) <= 4:
        return list(itertools.permutations(ws))
    k = list(ws)
    return [tuple(k), tuple(k[::-1])] + [
        tuple(k[i:] + k[:i]) for i in range(1, len(k))] + [
        tuple(k[::2] + k[1::2])]


class Wire(Monitor):
    def __init__(self):
        self.made = []

    def constant(self, e):
        return all(not isinstance(x, ast.Call) or ast.unparse(
            x.func) in ('re.compile', 'frozenset', 'set', 'tuple', 'dict')
            for x in ast.walk(e))

    def opaque(self, fn):
        return fn.name in ('get_layer_class_from_typename',
                           'combine_buffer_structures')

    def compare(self, m, op, a, b):
        made = [isinstance(x, O) and x.cls is not None and x.kind == 'obj'
                for x in (a, b)]
        if all(made) and op in ('Is', 'IsNot'):
            return (a is b) == (op == 'Is')
        return NotImplemented

    def call(self, m, f, args, kw, node):
        n = f.name.split('.')[-1] if isinstance(f, (Meth, Ext)) else None
        if isinstance(f, Ext) and f.name.split('.')[0] == 're' or \
                isinstance(f, Meth) and isinstance(f.obj, Pattern):
            return regex(f, n, args, kw)
        if isinstance(f, Meth) and isinstance(f.obj, Match):
            return getattr(f.obj.m, n)(*args)
        if n == 'get_layer_class_from_typename':
            return Ext('LayerClass ' + args[0])
        if n == 'combine_buffer_structures':
            return ('joined', tuple(m.seq(args[0])))
        if isinstance(f, Ext) and f.name.startswith('LayerClass '):
            o = O('layer')
            o.none, o.truth = False, True
            names = ('name', 'in_shapes', 'incoming_connections',
                     'outgoing_connections')
            a = dict(zip(names, args))
            o.kw = {k: v for k, v in kw.items() if k not in names}
            a.update({k: v for k, v in kw.items() if k in names})
            o.kind_, o.a = f.name.split(' ')[1], a
            self.made.append(o)
            return o
        if isinstance(f, Meth) and f.name == 'get_shape' and hasattr(
                f.obj, 'a'):
            return ('shape', f.obj.a.get('name'), args[0])
        return NotImplemented


def build(m, repo, g, wires):
    """-> the wrappers of the layers"""
    c = find_cls(repo, 'ConstructionWrapper')
    create = repo.lookup(c, 'create')[1]
    ls = []
    for t, n, o in g.layers:
        w = m.call(m.getattr(ClsV(c), 'create', create.node),
                   [t + 'LayerImpl'], dict(o, name=n), None, None)
        if not isinstance(w, O) or w.cls is None:
            raise Unsupported('a layer')
        ls.append(w)
    for i, o, j, k in wires:
        a = ls[i] if o == 'default' else m.binop('Sub', ls[i], o)
        b = ls[j] if k == 'default' else m.binop('Sub', k, ls[j])
        r = m.binop('RShift', a, b)
        if not isinstance(r, O) or r.cls is not c:
            raise Unsupported('the result of >>')
    return ls


def solid(v):
    """the value of v, if all of it is known"""
    if isinstance(v, D) and v.cls is None:
        return {solid(k): solid(x) for k, x in v.items.items()}
    if isinstance(v, L) and v.cls is None:
        return [solid(x) for x in v.seq]
    if isinstance(v, (tuple, list)):
        return tuple(solid(x) for x in v)
    if isinstance(v, dict):
        return {k: solid(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Unsupported('the value %s' % (v,))


def described(a):
    a = solid(a)
    for n, x in a.items():
        o = x.get('@outgoing_connections')
        if isinstance(o, (list, tuple)):
            x['@outgoing_connections'] = {'default': sorted(o)} if o else {}
        elif isinstance(o, dict):
            x['@outgoing_connections'] = {k: sorted(v) for k, v in
                                          o.items() if v}
    return a


def difference(a, g):
    b = described(D({k: dd(v) for k, v in g.arch().items()}))
    if sorted(a) != sorted(b):
        return 'describes the layers %s instead of %s' % (
            ', '.join(sorted(a)), ', '.join(sorted(b)))
    for n in b:
        if a[n] != b[n]:
            k = sorted(k for k in set(a[n]) | set(b[n])
                       if a[n].get(k) != b[n].get(k))[0]
            return '%s of %s is %s instead of %s' % (
                k, n, a[n].get(k), b[n].get(k))
    return ''


def dd(x):
    if isinstance(x, dict):
        return D({k: dd(v) for k, v in x.items()})
    if isinstance(x, list):
        return L([dd(v) for v in x])
    return x


def go(repo, body, flip):
    m = Machine(repo, None, Wire, 50, concrete=True)
    m.flip = flip
    out = []
    m.each(lambda m: out.append(attempt(lambda: body(m))))
    return out


def wired(repo, rep, rule):
    """wiring and describing"""
    fn = fn_of(repo, 'generate_architecture')
    for g in GRAPHS:
        for w in orders(g.wires):
            def body(m):
                ls = build(m, repo, g, w)
                r = ''
                for i in range(len(ls)):
                    a = m.call_fn(fn, [ls[i]], {}, None, fn.node)
                    r = r or difference(described(a), g)
                return r
            what = '%s, connected in the order %s' % (g.what, ' '.join(
                '%d-%d' % (i, j) for i, o, j, k in w))
            for flip in (False, True):
                judge(rep, rule, what, guarded(
                    rep, rule, what, lambda: go(repo, body, flip)), loc(fn))


# --------------------------------------------------------------- reading --
def hand(g, style):
    """the architecture of a graph as written by hand"""
    a = g.arch()
    for x in a.values():
        o = x['@outgoing_connections']
        if style in ('short', 'bare'):
            o = {k: [s[:-8] if s.endswith('.default') else s for s in v]
                 for k, v in o.items()}
        if style in ('list', 'bare') and set(o) <= {'default'}:
            o = o.get('default', [])
        x['@outgoing_connections'] = o
    if style == 'reverse':
        a = dict(reversed(list(a.items())))
    return a


def con(c):
    return tuple(c) if isinstance(c, tuple) and len(c) == 4 and all(
        isinstance(x, str) for x in c) else None


def read(repo, rep, rule, only_order=False):
    fn = fn_of(repo, 'instantiate_layers_from_architecture')
    for g in GRAPHS:
        for style in ('full', 'short', 'list', 'bare', 'reverse'):
            def body(m):
                a = dd(hand(g, style))
                before = solid(a)
                ls = m.call_fn(fn, [a], {}, None, fn.node)
                if solid(a) != before:
                    return 'changes the architecture'
                if not isinstance(ls, D):
                    raise Unsupported('layers')
                return instantiated(ls, g, m.mon, only_order)
            what = '%s, written by hand (%s)' % (g.what, style)
            for flip in (False, True):
                judge(rep, rule, what, guarded(
                    rep, rule, what, lambda: go(repo, body, flip)), loc(fn))


def instantiated(ls, g, mon, only_order=False):
    ns, cs = g.names(), g.connections()
    if not all(isinstance(n, str) for n in ls.items):
        raise Unsupported('names of layers')
    if only_order and not set(ns) <= set(ls.items):
        raise Unsupported('layers')
    if not only_order and sorted(ls.items) != sorted(ns) or not only_order \
            and len(mon.made) != len(ns):
        return 'makes the layers %s' % ', '.join(sorted(ls.items))
    at = list(ls.items)
    for a, o, b, i in cs:
        if at.index(a) > at.index(b):
            return '%s comes before %s, which feeds it' % (b, a)
    if only_order:
        return ''
    for n, (t, x, opts) in zip(ns, g.layers):
        l = ls.items[n]
        if getattr(l, 'kind_', None) != t + 'LayerImpl':
            return '%s is a %s' % (n, getattr(l, 'kind_', None))
        if solid(l.a.get('name')) != n:
            return '%s is called %s' % (n, l.a.get('name'))
        if solid(D(l.kw)) != opts:
            return '%s gets the options %s' % (n, solid(D(l.kw)))
        for k, want in (('incoming_connections', {c for c in cs
                                                  if c[2] == n}),
                        ('outgoing_connections', {c for c in cs
                                                  if c[0] == n})):
            got = l.a.get(k)
            got = [con(c) for c in (got.seq if isinstance(got, L) else
                                    got if isinstance(got, tuple) else
                                    [None])]
            if None in got:
                raise Unsupported(k)
            if set(got) != want:
                return '%s has the %s %s' % (n, k.replace('_', ' '),
                                             sorted(set(got) ^ want))
        sh = l.a.get('in_shapes')
        if not isinstance(sh, D):
            raise Unsupported('shapes')
        want = {}
        for a, o, b, i in cs:
            if b == n:
                want.setdefault(i, []).append(
                    ('shape', a, o[2:] if o.startswith('..') else
                     'outputs.' + o))
        got = {solid(k): sorted(solid(v[1])) if isinstance(v, tuple) and v
               and v[0] == 'joined' else solid(v)
               for k, v in sh.items.items()}
        if got != {k: sorted(v) for k, v in want.items()}:
            return '%s is told other input shapes than those of the ' \
                'layers that feed it' % n
    return ''



# --------------------------------------------------------------- refusing --
BAD_NAMES = ('default', 'fallback', 'parameters', 'gradients', '', '1st',
             'a b', 'a.b', 'a-b', 'a\n', 'H\u00e4', '@type', '..a')
GONE = ('X', 'Output', 'Loss', 'default', 'Input_2', 'input', '')


def malformed():
    """(what, architecture) of every kind of ill-formed architecture"""
    base = {g.what: g for g in GRAPHS}
    for w in ('a chain', 'named ports', 'equal names given'):
        g = base[w]
        ns = g.names()

        def arch():
            return g.arch()
        for x in [x for x in GONE if x not in ns]:
            for n in ns:
                a = arch()
                o = a[n]['@outgoing_connections']
                if o:
                    k = sorted(o)[0]
                    o[k][0] = x + '.default'
                    if x:
                        yield 'a connection of %s to the missing %s' % (
                            n, x), a
                a = arch()
                a[n]['@outgoing_connections'].setdefault('default', [])
                a[n]['@outgoing_connections']['default'].append(x)
                yield 'an additional connection of %s to the missing "%s"' \
                    % (n, x), a
            a = arch()
            a[ns[-1]]['@outgoing_connections'] = [x]
            yield 'a list with a connection to the missing "%s"' % x, a
        for n in ns[1:]:
            for t in ('Input', 'Input.default', 'Input.x'):
                a = arch()
                a[n]['@outgoing_connections']['extra'] = [t]
                yield 'a connection of %s to %s' % (n, t), a
        a = arch()
        a.pop('Input')
        yield 'no data source', a
        for t in ('FC', 'input', 'Inputs', 'InputLayerImpl', 'Mask'):
            a = arch()
            a['Input']['@type'] = t
            yield 'a data source of type %s' % t, a
        a = arch()
        a['input'] = a.pop('Input')
        yield 'a data source with another name', a
        for x in BAD_NAMES:
            a = arch()
            a[x] = {'@type': 'FC', '@outgoing_connections': {}}
            yield 'a layer called %r' % x, a
        for x in (5, None, ('a',)):
            a = arch()
            a[x] = {'@type': 'FC', '@outgoing_connections': {}}
            yield 'a layer with the name %r' % (x,), a
        for n in ns:
            a = arch()
            a[n].pop('@type')
            yield '%s without type' % n, a
            for t in (None, 5, ['FC']):
                a = arch()
                a[n]['@type'] = t
                yield '%s with the type %s' % (n, t), a
            for t in ('X', 5, None):
                a = arch()
                a[n]['@outgoing_connections'] = t
                yield '%s with the connections %r' % (n, t), a
    for cyc in ([(1, 1)], [(1, 2), (2, 1)], [(1, 2), (2, 3), (3, 1)],
                [(0, 1), (1, 2), (2, 3), (3, 2)]):
        a = {n: {'@type': t, '@outgoing_connections': {}} for n, t in (
            ('Input', 'Input'), ('a', 'FC'), ('b', 'FC'), ('c', 'FC'))}
        ns = list(a)
        for i, j in cyc:
            a[ns[i]]['@outgoing_connections'].setdefault(
                'default', []).append(ns[j])
        yield 'a cycle %s' % cyc, a


def refused(repo, rep, rule):
    fn = fn_of(repo, 'instantiate_layers_from_architecture')

    def body(m, a, what):
        try:
            m.call_fn(fn, [dd(a)], {}, None, fn.node)
        except PyExc as e:
            if e.name in ('KeyError', 'AssertionError', 'IndexError') and \
                    not what.startswith('a cycle'):
                return 'is not rejected, but ends in ' + e.name
            if m.mon.made and e.name != 'AssertionError':
                return 'is only rejected (%s) after layers were made' % e.name
            return ''
        return 'is accepted'
    for what, a in malformed():
        for flip in (False, True):
            judge(rep, rule, what, guarded(rep, rule, what, lambda: go(
                repo, lambda m: body(m, a, what), flip)), loc(fn))


def g26(repo, rep, tier):
    rep.rule('graph', 'every small graph is described exactly as it was '
             'wired, whatever the order, and instantiated exactly as '
             'described')
    wired(repo, rep, 'graph')
    read(repo, rep, 'graph')


def g25(repo, rep, tier):
    rep.rule('refused', 'no layer is made from an ill-formed architecture')
    refused(repo, rep, 'refused')


def g23(repo, rep, tier):
    rep.rule('graph', 'in every small graph each layer comes after those '
             'that feed it')
    read(repo, rep, 'graph', True)
