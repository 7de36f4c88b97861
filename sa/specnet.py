"""Networks built from a line of text, evaluated by the abstract machine.

Layers are stand-ins that record the options they are created with and what
they are connected to.  Decides P28."""
import ast
import re

from .arr import Arr
from .datatools import fn_of
from .hooks import guarded, plain
from .machine import (ClsV, D, Ext, Func, It, L, Machine, Meth, Monitor, O,
                      PyExc, Unsupported, tag)
from .repo import Fn
from .valid import loc
from .watch import attempt, judge

class Build(Monitor):
    def __init__(self):
        self.layers, self.wires, self.inits = [], [], []
        self.nets = []
        self.root = None

    def opaque(self, fn):
        return fn.mod.name.split('.')[-2:-1] == ['layers'] and fn.cls is \
            None or fn.name in ('from_layer', 'initialize') or \
            fn.mod.name.split('.')[-1] == 'initializers'

    def call(self, m, f, args, kw, node):
        n = f.name.split('.')[-1] if isinstance(f, (Meth, Ext)) else None
        if isinstance(f, ClsV) and f.cls.mod.name.split('.')[-1] == \
                'initializers':
            return init(f.cls.name, args)
        if isinstance(f, Ext) and f.name.split('.')[0] == 're' or \
                isinstance(f, Meth) and isinstance(f.obj, Pattern):
            return regex(f, n, args, kw)
        if isinstance(f, Meth) and isinstance(f.obj, Match):
            v = getattr(f.obj.m, n)(*args)
            return v
        if isinstance(f, Meth) and isinstance(f.obj, O) and \
                f.obj.tag == 'net' and n == 'initialize':
            self.inits.append((args, kw))
            return None
        if n == 'from_layer':
            net = O('net')
            net.none = False
            net.ends = args[0]
            net.attrs['layers'] = D()
            for l in self.layers:
                o = O('built ' + l.kind_)
                if 'activation' in l.options:
                    o.attrs['activation'] = l.options['activation']
                o.closed = True
                net.attrs['layers'].items[l.uid] = o
            self.nets.append(net)
            return net
        if n == 'hasattr' and len(args) == 2 and getattr(
                args[0], 'closed', False):
            return args[1] in args[0].attrs
        if isinstance(f, Ext) and n in self.kinds(m):
            return self.layer(m, n, args, kw)
        if n in ('int', 'float') and isinstance(f, Ext) and len(args) == 1 \
                and isinstance(args[0], str):
            try:
                return (int if n == 'int' else float)(args[0])
            except ValueError:
                raise PyExc('ValueError')
        return NotImplemented

    def kinds(self, m):
        if not hasattr(m, 'layer_functions'):
            fs = {}
            mods = m.repo.modules
            for x in (mods.values() if isinstance(mods, dict) else mods):
                if x.name.split('.')[-2:-1] == ['layers']:
                    for k, v in x.bindings.items():
                        if v[0] == 'fn':
                            fs[k] = v[1]
            m.layer_functions = fs
        return m.layer_functions

    def layer(self, m, n, args, kw):
        fn = m.layer_functions[n]
        a = dict(zip(fn.params(), args))
        a.update(kw)
        o = O('layer ' + n)
        o.none, o.truth = False, True
        o.kind_, o.options = n, {k: v for k, v in a.items()}
        d = fn.node.args.defaults
        o.default = {}
        for p, x in zip(fn.params()[-len(d):] if d else (), d):
            try:
                o.default[p] = ast.literal_eval(x)
            except ValueError:
                raise Unsupported('the default of %s' % p)
        name = o.options.pop('name', None)
        o.uid = name or '%s#%d' % (n, len(self.layers))
        o.layer, o.inp, o.out = o, 'default', 'default'
        self.layers.append(o)
        return o

    def binop(self, m, op, a, b):
        la, lb = getattr(a, 'layer', None), getattr(b, 'layer', None)
        if op == 'Sub' and la is not None and isinstance(b, str):
            return port(la, a.inp, b)
        if op == 'Sub' and lb is not None and isinstance(a, str):
            return port(lb, a, b.out)
        if op == 'RShift' and la is not None and lb is not None:
            self.wires.append((la.uid, a.out, lb.uid, b.inp))
            return port(lb, 'default', b.out)
        if la is not None or lb is not None:
            raise Unsupported('an operation on layers')
        return NotImplemented


def regex(f, n, args, kw):
    if kw or not all(isinstance(a, (str, int, Pattern)) for a in args):
        raise Unsupported('re.%s' % n)
    xs = [a.p if isinstance(a, Pattern) else a for a in args]
    if isinstance(f, Meth):
        r = getattr(f.obj.p, n)(*xs)
    else:
        r = getattr(re, n)(*xs)
    if n == 'finditer':
        return L([match(x) for x in r])
    if isinstance(r, list):
        return L([tuple(x) if isinstance(x, tuple) else x for x in r])
    if n == 'compile':
        p = Pattern('pattern')
        p.p, p.none, p.truth = r, False, True
        return p
    if r is None or isinstance(r, str):
        return r
    if n in ('match', 'search', 'fullmatch'):
        return match(r)
    raise Unsupported('re.%s' % n)


class Pattern(O):
    pass


class Match(O):
    pass


def match(x):
    o = Match('match')
    o.m, o.none, o.truth = x, False, True
    return o


def port(l, inp, out):
    o = O('port of ' + l.tag)
    o.none, o.truth = False, True
    o.layer, o.inp, o.out = l, inp, out
    return o


def init(name, args):
    o = O('init ' + name)
    o.init = (name, tuple(args))
    return o


def run(repo, fn, args, kw, look):
    m = Machine(repo, None, Build, 100, concrete=True)
    out = []

    def body(m):
        def f():
            v = m.call_fn(fn, list(args), dict(kw), None, fn.node)
            return look(m, v)
        out.append(attempt(f))
    m.each(body)
    return out


def options(l):
    o = dict(l.default)
    o.pop('name', None)
    o.update({k: tuple(v.seq) if isinstance(v, L) else v
              for k, v in l.options.items()})
    return o


def fc(n, a='rel'):
    return 'FullyConnected', {'size': n, 'activation': a}


def conv(n, k, a='rel', p=0, s=1):
    return 'Convolution2D', {'num_filters': n, 'kernel_size': (k, k),
                             'activation': a, 'padding': p,
                             'stride': (s, s)}


def pool(k, t='max', p=0, s=1):
    return 'Pooling2D', {'kernel_size': (k, k), 'type': t, 'padding': p,
                         'stride': (s, s)}


def rec(n, a='tanh'):
    return 'Recurrent', {'size': n, 'activation': a}


def lstm(n, a='tanh'):
    return 'Lstm', {'size': n, 'activation': a}


def drop(p=0.5):
    return 'Dropout', {'drop_prob': p}


BN = ('BatchNorm', None)
ACT = {'s': 'sigmoid', 't': 'tanh', 'r': 'rel', 'l': 'linear'}

SPECS = [
    ('', []), ('F50', [fc(50)]), ('F50 F20 F30', [fc(50), fc(20), fc(30)]),
    ('D.2 F1200 D F1200 D', [drop(.2), fc(1200), drop(), fc(1200), drop()]),
    ('C32:5p2 P3s2 C32:5p2 P3s2 C64:5p2 P3s2 F64', [
        conv(32, 5, p=2), pool(3, s=2), conv(32, 5, p=2), pool(3, s=2),
        conv(64, 5, p=2), pool(3, s=2), fc(64)]),
    ('C8:3s2p1', [conv(8, 3, p=1, s=2)]),
    ('C8:3 p1 s2', [conv(8, 3, p=1, s=2)]),
    ('C8/3', [conv(8, 3)]), ('C 8 : 3', [conv(8, 3)]),
    ('P2', [pool(2)]), ('Pm3:s2', [pool(3, s=2)]),
    ('Pa3p1', [pool(3, 'avg', p=1)]),
    ('Pa2 s3 p1', [pool(2, 'avg', p=1, s=3)]), ('Pa4', [pool(4, 'avg')]),
    ('B', [BN]), ('F3 B F4', [fc(3), BN, fc(4)]), ('D0.25', [drop(.25)]), ('D 0.75 R4', [drop(.75), rec(4)]),
    ('R7 L9', [rec(7), lstm(9)]), ('  F7  ', [fc(7)]),
] + [('F%s20' % k, [fc(20, v)]) for k, v in ACT.items()] + [
    ('R%s8' % k, [rec(8, v)]) for k, v in ACT.items()] + [
    ('L%s8' % k, [lstm(8, v)]) for k, v in ACT.items()] + [
    ('C%s32:3' % k, [conv(32, 3, v)]) for k, v in ACT.items()] + [
    ('C%s4:3p2s3' % k, [conv(4, 3, v, 2, 3)]) for k, v in ACT.items()]

TASKS = {'classification': 'SoftmaxCE', 'multi-label': 'SigmoidCE',
         'regression': 'SquaredError'}


def graph(mon):
    ls = {l.uid: (l.kind_, options(l)) for l in mon.layers}
    return ls, sorted(mon.wires)


def ends(task, ish, osh, names, mask, cv):
    """layers and wires around the hidden layers"""
    ish = (ish,) if isinstance(ish, int) else tuple(ish)
    osh = (osh,) if isinstance(osh, int) else tuple(osh)
    data, targets = names
    t = osh[:-1] + (1,) if task == 'classification' else osh
    shapes = {data: ('T', 'B') + ish, targets: ('T', 'B') + t}
    if mask:
        shapes[mask] = ('T', 'B', 1)
    return shapes, osh, t


def check(mon, task, ish, osh, names, mask, cv, hidden, outname='Output',
          pname=None):
    """'' or what is wrong with the network"""
    shapes, osh, t = ends(task, ish, osh, names, mask, cv)
    ls, wires = graph(mon)
    inp = [k for k, (kind, o) in ls.items() if kind == 'Input']
    loss = [k for k, (kind, o) in ls.items() if kind == 'Loss']
    masks = [k for k, (kind, o) in ls.items() if kind == 'Mask']
    if len(inp) != 1 or len(loss) != 1 or len(masks) != (1 if mask else 0):
        return 'has the layers %s' % sorted(ls)
    inp, loss = inp[0], loss[0]
    pname = pname or outname + '_projection'
    got = plain(D({'x': ls[inp][1].get('out_shapes')}))['x']
    if not isinstance(got, dict):
        return 'Input has no shapes'
    got = {k: tuple(v) if isinstance(v, (list, tuple)) else v
           for k, v in got.items()}
    if got != shapes:
        return 'Input provides %s instead of %s' % (got, shapes)
    if ls.get(outname, (None,))[0] != TASKS[task]:
        return 'the output layer is %s' % (ls.get(outname),)
    p = ls.get(pname)
    if p is None:
        return 'there is no projection layer'
    if len(osh) == 3 and cv is not False:
        if p[0] != 'Convolution2D' or (
                p[1].get('num_filters'), p[1].get('kernel_size'),
                p[1].get('activation'), p[1].get('padding'),
                p[1].get('stride')) != (osh[-1], (1, 1), 'linear', 0,
                                        (1, 1)):
            return 'the projection is %s' % (p,)
    else:
        s = p[1].get('size')
        if p[0] != 'FullyConnected' or (s if isinstance(s, tuple) else (
                s,)) != osh or p[1].get('activation') != 'linear':
            return 'the projection is %s' % (p,)
    # the chain of hidden layers
    nxt = {}
    rest = []
    for a, o, b, i in wires:
        if (o == 'default' or (a == inp and o == names[0])) and \
                i == 'default' and b not in masks + [loss]:
            if a in nxt:
                return '%s feeds two layers' % a
            nxt[a] = (b, o)
        else:
            rest.append((a, o, b, i))
    at, chain = inp, []
    while at in nxt and len(chain) < 100:
        at = nxt[at][0]
        chain.append(at)
    if chain[-2:] != [pname, outname]:
        return 'the layers are connected %s' % ' >> '.join(chain)
    hid = [ls[k] for k in chain[:-2]]
    if len(hid) != len(hidden) or any(
            a[0] != b[0] or b[1] is not None and a[1] != b[1]
            for a, b in zip(hid, hidden)):
        return 'the layers are %s instead of %s' % (hid, hidden)
    if len(ls) != len(hid) + 4 + len(masks):
        return 'has layers that are not connected'
    want = [(inp, names[1], outname, 'targets')]
    if mask:
        want += [(outname, 'loss', masks[0], 'default'),
                 (inp, mask, masks[0], 'mask'),
                 (masks[0], 'default', loss, 'default')]
    else:
        want += [(outname, 'loss', loss, 'default')]
    if nxt[inp][1] != names[0]:
        return 'the first layer reads %s' % nxt[inp][1]
    if sorted(rest) != sorted(want):
        return 'besides the chain are connected %s' % rest
    return ''


def rng(mon):
    """the initialisation"""
    if len(mon.inits) != 1:
        return 'is initialised %d times' % len(mon.inits)
    (args, kw) = mon.inits[0]
    d = args[0] if args else D(kw)
    if not isinstance(d, D):
        raise Unsupported('initialisation')
    for l in mon.layers:
        g = d.items.get(l.uid)
        if 'activation' in l.options:
            if getattr(g, 'init', None) != (
                    'DenseSqrtFanInOut', (l.options['activation'],)):
                return '%s with activation %s is initialised with %s' % (
                    l.uid, l.options['activation'],
                    getattr(g, 'init', None))
    for k in ('default', 'fallback'):
        g = d.items.get(k)
        if getattr(g, 'init', (None,))[0] != 'Gaussian':
            return 'the %s initializer is %s' % (k, getattr(
                g, 'init', None))
    return ''


def specs(repo, rep, rule):
    fn = fn_of(repo, 'create_net_from_spec')
    for spec, hidden in SPECS:
        def look(m, v):
            mon = m.mon
            if len(mon.nets) != 1 or v is not mon.nets[0]:
                return 'does not give the network'
            out = v.attrs.get('output_name')
            if out != 'Output.outputs.predictions':
                return 'the output of the network is called %s' % tag(out)
            return check(mon, 'classification', 7, 5, (
                'default', 'targets'), None, None, hidden) or rng(mon)
        what = 'the network %r' % spec
        outs = guarded(rep, rule, what, lambda: run(
            repo, fn, ['classification', 7, 5, spec], {}, look))
        judge(rep, rule, what, outs, loc(fn))
    for spec in ('X3', 'Fx3', 'F', 'C8', 'P', 'B3', 'D2', 'F.5', 'P2x3',
                 'C8:3q2'):
        def look(m, v):
            return 'is accepted'
        what = 'the network %r' % spec
        outs = guarded(rep, rule, what, lambda: run(
            repo, fn, ['classification', 7, 5, spec], {}, look))
        if outs and all(o.startswith('raises') for o in outs):
            outs = ['']
        judge(rep, rule, what, outs, loc(fn))


def inouts(repo, rep, rule):
    io = fn_of(repo, 'get_in_out_layers')
    cn = fn_of(repo, 'create_net_from_spec')
    for task in sorted(TASKS):
        for ish, osh in ((4, 3), ((4,), (3,)), ((5, 6, 2), 3),
                         ((5, 6, 2), (5, 6, 4))):
            for names in (('default', 'targets'), ('data', 'labels')):
                for mask in (None, 'mask', 'weights'):
                    for cv in (None, False):
                        one(repo, rep, rule, io, cn, task, ish, osh, names,
                            mask, cv)
    for f, args in ((io, ['sorting', 4, 3]),
                    (io, ['regression', 4, (2, 3)]),
                    (cn, ['sorting', 4, 3, 'F5'])):
        what = '%s%s' % (f.name, tuple(args))
        outs = guarded(rep, rule, what, lambda: run(
            repo, f, args, {}, lambda m, v: 'is accepted'))
        if outs and all(o.startswith('raises') for o in outs):
            outs = ['']
        judge(rep, rule, what, outs, loc(f))


def one(repo, rep, rule, io, cn, task, ish, osh, names, mask, cv):
    kw = {'data_name': names[0], 'targets_name': names[1],
          'mask_name': mask, 'use_conv': cv}

    def full(m, v):
        return check(m.mon, task, ish, osh, names, mask, cv, [
            ('FullyConnected', {'size': 9, 'activation': 'rel'})])

    def pair(m, v):
        x = m.seq(v, False)
        mon = m.mon
        if x is None or len(x) != 2 or any(
                getattr(y, 'layer', None) is None for y in x):
            return 'does not give two layers'
        if x[0].out != 'default' or x[0].layer.kind_ != 'Input':
            return 'does not give the Input layer first'
        mon.wires.append((x[0].layer.uid, names[0], x[1].layer.uid,
                          x[1].inp))
        return check(mon, task, ish, osh, names, mask, cv, [])

    def named(m, v):
        x = m.seq(v, False)
        m.mon.wires.append((x[0].layer.uid, names[0], x[1].layer.uid,
                            x[1].inp))
        return check(m.mon, task, ish, osh, names, mask, cv, [], 'Top',
                     'Last')
    w = '%s from %s to %s, data %s, mask %s, use_conv %s' % (
        task, ish, osh, names, mask, cv)
    if names[0] == 'default':
        what = 'network for ' + w
        judge(rep, rule, what, guarded(rep, rule, what, lambda: run(
            repo, cn, [task, ish, osh, 'F9'], kw, full)), loc(cn))
    what = 'in and out layers for ' + w
    judge(rep, rule, what, guarded(rep, rule, what, lambda: run(
        repo, io, [task, ish, osh], kw, pair)), loc(io))
    what = 'named in and out layers for ' + w
    judge(rep, rule, what, guarded(rep, rule, what, lambda: run(
        repo, io, [task, ish, osh], dict(
            kw, outlayer_name='Top', projection_name='Last'), named)),
        loc(io))


def p28(repo, rep, tier):
    s, i = 'spec', 'ends'
    rep.rule(s, 'the layers, options, order and initialisation that a spec '
             'line stands for; lines that are not understood are errors')
    rep.rule(i, 'projection, output, mask and loss layers fit the task, '
             'with the given shapes and names')
    rep.saw(*[fn_of(repo, n).qual for n in (
        'create_net_from_spec', 'get_in_out_layers')])
    specs(repo, rep, s)
    inouts(repo, rep, i)
