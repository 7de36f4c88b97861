"""Flow of arbitrary iteration order (hash or identity order) through the
package.

Kinds of values: 'set' (arbitrary iteration order), 'list' / 'dict' (a
sequence / mapping filled in such an order).  The order becomes visible when
such a value is indexed, joined, popped, enumerated, or when a loop over it
draws random numbers, numbers things, leaves with a result or calls something
with effects."""
import ast

from .repo import Cls, Fn

FREE = {'sorted', 'set', 'frozenset', 'len', 'any', 'all', 'min', 'max',
        'sum', 'bool', 'isinstance', 'type', 'id', 'repr', 'str', 'hasattr',
        'getattr', 'print', 'iter', 'fsum'}
SETM = {'union', 'difference', 'intersection', 'symmetric_difference',
        'copy'}
DRAWS = {'rand', 'randn', 'randint', 'random_sample', 'random', 'uniform',
         'normal', 'standard_normal', 'shuffle', 'permutation', 'choice',
         'binomial', 'random_integers', 'generate_seed',
         'create_random_state', 'fill_normal', 'fill_uniform', 'set_seed',
         'exponential', 'laplace', 'poisson', 'beta', 'gamma'}
# functions whose result does not depend on the order of what they are given:
# they compare, count or add up
SYMMETRIC = {'combine_buffer_structures', 'update', 'issubset', 'issuperset',
             'isdisjoint', 'union', 'difference', 'intersection',
             'symmetric_difference', 'difference_update',
             'intersection_update', 'get', 'count', 'extend', 'append', 'add',
             'discard', 'remove', 'insert'}


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class Scope(object):
    def __init__(self, fn):
        self.fn = fn
        self.kind = {}
        self.ret = None


class Unordered(object):
    def __init__(self, repo, modules=None):
        self.repo = repo
        self.fns = [f for f in repo.functions() if '.tests' not in f.mod.name
                    and not isinstance(f.node, ast.Lambda)]
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)
        self.params = {}        # (Fn, name) -> kind
        self.rets = {}          # Fn -> kind
        self.attrs = {}         # (class name, attr) -> kind
        self.owners = {}        # attr -> class names assigning self.attr
        self.class_attrs = {}
        for f in self.fns:
            if f.cls is None or not f.params():
                continue
            me = f.params()[0]
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.value, ast.Name) and x.value.id == me:
                    self.class_attrs.setdefault(f.cls.name, set()).add(x.attr)
                    if isinstance(x.ctx, ast.Store):
                        self.owners.setdefault(x.attr, set()).add(f.cls.name)
            self.class_attrs.setdefault(f.cls.name, set()).add(f.name)
        self.found = []
        self.sites = set()
        self.changed = True
        n = 0
        while self.changed and n < 12:
            self.changed = False
            self.found = []
            self.sites = set()
            n += 1
            for f in self.fns:
                Walk(self, f).run()

    def put(self, table, key, kind):
        if kind and table.get(key) != kind and not (
                table.get(key) in ('set', 'list') and kind == 'dict'):
            if key in table and table[key] is not None:
                return
            table[key] = kind
            self.changed = True


class Walk(object):
    def __init__(self, U, fn):
        self.U, self.fn = U, fn
        self.mod = fn.mod
        self.kinds = {}
        for p in fn.params():
            k = U.params.get((fn, p))
            if k:
                self.kinds[p] = k
        self.quiet = set()
        for x in ast.walk(fn.node):
            if isinstance(x, (ast.Raise, ast.Assert)):
                sub = x if isinstance(x, ast.Raise) else x.msg
                if sub is not None:
                    for y in ast.walk(sub):
                        self.quiet.add(y)
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and (
                        x.func.id.endswith(('Error', 'Exception',
                                            'Warning')) or
                        x.func.id == 'print'):
                for y in ast.walk(x):
                    self.quiet.add(y)
        self.guards = {self.text(x.args[0]) for x in ast.walk(fn.node)
                       if isinstance(x, ast.Call) and isinstance(
                           x.func, ast.Name) and x.func.id == 'len' and
                       x.args}

    @staticmethod
    def text(n):
        return ast.dump(n)

    def flag(self, n, why):
        if n not in self.quiet:
            self.U.found.append((self.fn, n, why))

    def run(self):
        # two passes so that loops see what is assigned later
        found = self.U.found
        self.U.found = []
        self.stmts(self.fn.node.body, None)
        self.U.found = found
        self.stmts(self.fn.node.body, None)

    # ------------------------------------------------------- expressions --
    def owner(self, x):
        """class of the receiver of an attribute"""
        v = x.value
        if isinstance(v, ast.Name):
            if self.fn.cls is not None and self.fn.params() and \
                    v.id == self.fn.params()[0]:
                mro = [c.name for c in self.U.repo.mro(self.fn.cls)]
                for c in mro:
                    if (c, x.attr) in self.U.attrs:
                        return c
                return self.fn.cls.name
            used = {y.attr for y in ast.walk(self.fn.node) if isinstance(
                y, ast.Attribute) and isinstance(y.value, ast.Name) and
                y.value.id == v.id}
            cand = [c for c in self.U.owners.get(x.attr, ())
                    if used <= self.U.class_attrs.get(c, set())]
            cand = cand or sorted(self.U.owners.get(x.attr, ()))
            if len(cand) == 1:
                return cand[0]
            for c in cand:
                if (c, x.attr) in self.U.attrs:
                    return c
        return None

    def kind(self, e):
        """order kind of an expression"""
        if e is None:
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            if isinstance(e, ast.Set) and len(e.elts) <= 1:
                return 'set'
            if isinstance(e, ast.Set) and all(isinstance(
                    x, ast.Constant) and isinstance(x.value, (int, float))
                    for x in e.elts):
                return None
            return 'set'
        if isinstance(e, ast.Name):
            return self.kinds.get(e.id)
        if isinstance(e, ast.Attribute):
            o = self.owner(e)
            return self.U.attrs.get((o, e.attr)) if o else None
        if isinstance(e, ast.BinOp) and isinstance(
                e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            a, b = self.kind(e.left), self.kind(e.right)
            return 'set' if 'set' in (a, b) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.kind(e.left), self.kind(e.right)
            return 'list' if 'list' in (a, b) else None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return 'list' if any(self.kind(g.iter) for g in e.generators) \
                else None
        if isinstance(e, ast.DictComp):
            return 'dict' if any(self.kind(g.iter) for g in e.generators) \
                else None
        if isinstance(e, ast.IfExp):
            return self.kind(e.body) or self.kind(e.orelse)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                if self.kind(v):
                    return self.kind(v)
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                if f.id in ('set', 'frozenset'):
                    return 'set'
                if f.id in ('list', 'tuple', 'reversed', 'iter', 'filter',
                            'map', 'zip', 'enumerate', 'dict',
                            'OrderedDict', 'deque', 'copy', 'deepcopy'):
                    ks = [self.kind(a) for a in e.args]
                    if f.id in ('copy', 'deepcopy', 'dict', 'OrderedDict'):
                        k = next((k for k in ks if k), None)
                        return 'dict' if k and f.id in (
                            'dict', 'OrderedDict') else k
                    return 'list' if any(ks) else None
                for g in self.callees(f):
                    if self.U.rets.get(g):
                        return self.U.rets[g]
                return None
            if isinstance(f, ast.Attribute):
                if f.attr in ('vars', 'listdir', 'glob', 'iglob',
                              'scandir', '__subclasses__'):
                    return 'list' if f.attr not in (
                        'vars', '__subclasses__') else None
                k = self.kind(f.value)
                if k == 'set' and f.attr in SETM:
                    return 'set'
                if k == 'dict' and f.attr in ('keys', 'values', 'items'):
                    return 'list'
                if k and f.attr == 'copy':
                    return k
                if f.attr == 'chain':
                    return 'list' if any(self.kind(a) for a in e.args) \
                        else None
                for g in self.callees(f):
                    if self.U.rets.get(g):
                        return self.U.rets[g]
            return None
        if isinstance(e, ast.Starred):
            return self.kind(e.value)
        return None

    def callees(self, f):
        if isinstance(f, ast.Name):
            r = self.U.repo.resolve(self.mod, f.id)
            if r and r[0] == 'fn':
                return [r[1]]
            if r and r[0] == 'cls':
                m = self.U.repo.lookup(r[1], '__init__')[1]
                return [m] if isinstance(m, Fn) else []
            return [g for g in self.U.by_name.get(f.id, ())
                    if g.frame is not None][:1]
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and self.fn.cls is not None and \
                    self.fn.params() and v.id == self.fn.params()[0]:
                m = self.U.repo.lookup(self.fn.cls, f.attr)[1]
                return [m] if isinstance(m, Fn) else []
            if isinstance(v, ast.Name):
                r = self.U.repo.resolve(self.mod, v.id)
                if r and r[0] == 'cls':
                    m = self.U.repo.lookup(r[1], f.attr)[1]
                    return [m] if isinstance(m, Fn) else []
            c = self.U.by_name.get(f.attr, [])
            return c if len(c) == 1 else []
        return []

    def expr(self, e, loop=None):
        """look for places where the order becomes visible"""
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                self.call(x)
            elif isinstance(x, ast.Subscript) and isinstance(
                    x.ctx, ast.Load):
                k = self.kind(x.value)
                if k == 'list' and not isinstance(x.slice, ast.Slice):
                    self.flag(x, 'takes one element of a sequence in '
                              'arbitrary order')
                elif k == 'list' and not (
                        x.slice.lower is None and x.slice.upper is None):
                    self.flag(x, 'takes a part of a sequence in arbitrary '
                              'order')
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp,
                                ast.DictComp, ast.SetComp)):
                for g in x.generators:
                    if self.kind(g.iter):
                        self.U.sites.add((self.fn.qual, g.iter.lineno))
                        for y in ast.walk(x):
                            if isinstance(y, ast.Call) and isinstance(
                                    y.func, ast.Attribute) and \
                                    y.func.attr in DRAWS:
                                self.flag(y, 'draws random numbers in '
                                          'arbitrary order')

    def call(self, c):
        f = c.func
        if isinstance(f, ast.Name):
            ks = [self.kind(a) for a in c.args]
            if f.id in ('zip', 'enumerate') and any(ks):
                src = {self.root(a) for a in c.args}
                if f.id == 'enumerate' or not (
                        all(ks) and len(src) == 1):
                    self.flag(c, 'numbers or pairs elements in arbitrary '
                              'order')
            if f.id == 'next' and c.args:
                a = c.args[0]
                if isinstance(a, ast.Call) and a.args and self.kind(
                        a.args[0]) and self.text(
                            a.args[0]) not in self.guards:
                    self.flag(c, 'takes an arbitrary element')
        elif isinstance(f, ast.Attribute):
            k = self.kind(f.value)
            if f.attr == 'pop' and k in ('set', 'list') and \
                    self.text(f.value) not in self.guards:
                self.flag(c, 'takes an arbitrary element')
            if f.attr == 'join' and any(self.kind(a) for a in c.args):
                self.flag(c, 'joins in arbitrary order')
            if f.attr in ('array', 'asarray', 'concatenate', 'hstack',
                          'vstack', 'stack', 'fromiter') and any(
                              self.kind(a) for a in c.args):
                self.flag(c, 'makes an array in arbitrary order')
        if isinstance(f, (ast.Name, ast.Attribute)):
            for g in self.callees(f):
                ps = g.params()
                if g.cls is not None and g.kind != 'staticmethod':
                    ps = ps[1:]
                for a, p in zip(c.args, ps):
                    self.U.put(self.U.params, (g, p), self.kind(a))
                for kw in c.keywords:
                    if kw.arg in ps:
                        self.U.put(self.U.params, (g, kw.arg),
                                   self.kind(kw.value))
            n = f.id if isinstance(f, ast.Name) else f.attr
            if n[:1].isupper() and not self.callees(f):
                # a class held in a variable: a layer being instantiated
                for p in self.U.by_name.get('__init__', ()):
                    ps = p.params()[1:]
                    if p.cls is not None and p.cls.name in ('Layer',):
                        for a, q in zip(c.args, ps):
                            self.U.put(self.U.params, (p, q), self.kind(a))

    def root(self, e):
        while isinstance(e, (ast.Call, ast.Attribute)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return ast.dump(e)

    # -------------------------------------------------------- statements --
    def mark(self, t, kind):
        if isinstance(t, ast.Name):
            if self.kinds.get(t.id) != 'set' or kind is None:
                self.kinds[t.id] = kind
        elif isinstance(t, ast.Attribute) and kind:
            if isinstance(t.value, ast.Name) and self.fn.cls is not None \
                    and self.fn.params() and t.value.id == \
                    self.fn.params()[0]:
                self.U.put(self.U.attrs, (self.fn.cls.name, t.attr), kind)
        elif isinstance(t, ast.Subscript):
            self.mark(t.value, kind)

    def stmts(self, body, loop):
        for s in body:
            self.stmt(s, loop)

    def stmt(self, s, loop):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if loop is not None and isinstance(s, (
                ast.Assign, ast.AugAssign, ast.Return, ast.Expr)):
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in DRAWS:
                    self.flag(x, 'draws random numbers in arbitrary order')
        if isinstance(s, ast.Assign):
            self.expr(s.value)
            t0 = s.targets[0]
            if isinstance(t0, ast.Tuple) and isinstance(s.value, ast.Call):
                for g in self.callees(s.value.func):
                    for i, t in enumerate(t0.elts):
                        self.mark(t, self.U.rets.get((g, i)))
            k = self.kind(s.value)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        s.value, (ast.Tuple, ast.List)) and len(
                            t.elts) == len(s.value.elts):
                    for a, b in zip(t.elts, s.value.elts):
                        self.mark(a, self.kind(b))
                elif isinstance(t, ast.Name):
                    # a name that is a set on one way stays one
                    if k or loop is None and t.id not in self.kinds:
                        self.kinds[t.id] = k
                    elif loop is None:
                        self.kinds[t.id] = k
                elif isinstance(t, ast.Attribute):
                    self.mark(t, k)
                    if loop is not None and names_in(s.value) & loop[1]:
                        self.flag(s, 'keeps the last of several values in '
                                  'arbitrary order')
                elif isinstance(t, ast.Subscript):
                    self.expr(t.slice)
                    if loop is not None and self.fresh(t.value):
                        self.mark(t.value, 'dict')
            return
        if isinstance(s, ast.AugAssign):
            self.expr(s.value)
            if loop is not None and isinstance(s.op, ast.Add) and \
                    isinstance(s.target, ast.Name):
                if isinstance(s.value, ast.Constant):
                    # a counter: visible if it is used inside the loop
                    if any(isinstance(y, ast.Name) and
                           y.id == s.target.id and isinstance(
                               y.ctx, ast.Load)
                           for x in loop[0].body for y in ast.walk(x)):
                        self.flag(s, 'numbers things in arbitrary order')
                else:
                    self.mark(s.target, 'list' if isinstance(
                        s.value, (ast.List, ast.ListComp)) else
                        self.kinds.get(s.target.id))
            elif loop is not None and isinstance(s.target, (
                    ast.Subscript, ast.Attribute)) and isinstance(
                        s.value, ast.Constant) and isinstance(s.op, ast.Add):
                # a shared counter that is handed out inside the loop
                t = ast.unparse(s.target)
                if any(isinstance(y, (ast.Subscript, ast.Attribute)) and
                       isinstance(y.ctx, ast.Load) and
                       ast.unparse(y) == t
                       for x in loop[0].body for y in ast.walk(x)):
                    self.flag(s, 'numbers things in arbitrary order')
            elif self.kind(s.value) == 'list' and isinstance(
                    s.op, ast.Add):
                self.mark(s.target, 'list')
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter)
            k = self.kind(s.iter)
            if k:
                self.U.sites.add((self.fn.qual, s.lineno))
                loop = (s, names_in(s.target) | (loop[1] if loop else
                                                 set()))
            elif loop is not None:
                loop = (loop[0], loop[1] | names_in(s.target))
            self.stmts(s.body, loop)
            self.stmts(s.orelse, loop)
            return
        if isinstance(s, ast.While):
            self.expr(s.test)
            inner = loop
            if isinstance(s.test, ast.Name) and self.kind(
                    s.test) == 'set':
                self.U.sites.add((self.fn.qual, s.lineno))
                self.guards.add(self.text(s.test).replace('Load', 'Load'))
                inner = (s, {x.id for b in s.body for x in ast.walk(b)
                             if isinstance(x, ast.Name) and isinstance(
                                 x.ctx, ast.Store)})
            self.stmts(s.body, inner)
            return
        if isinstance(s, ast.If):
            self.expr(s.test)
            self.stmts(s.body, loop)
            self.stmts(s.orelse, loop)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            self.stmts(s.body, loop)
            return
        if isinstance(s, ast.Try):
            for b in (s.body, s.orelse, s.finalbody):
                self.stmts(b, loop)
            for h in s.handlers:
                self.stmts(h.body, loop)
            return
        if isinstance(s, ast.Return):
            self.expr(s.value)
            self.U.put(self.U.rets, self.fn, self.kind(s.value))
            if isinstance(s.value, ast.Tuple):
                for i, v in enumerate(s.value.elts):
                    self.U.put(self.U.rets, (self.fn, i), self.kind(v))
            if loop is not None and s.value is not None and names_in(
                    s.value) & loop[1] and not self.by_name(loop, s):
                self.flag(s, 'leaves with the first match in arbitrary '
                          'order')
            return
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                self.expr(v.value)
                if loop is not None or isinstance(
                        v, ast.YieldFrom) and self.kind(v.value):
                    self.U.put(self.U.rets, self.fn, 'list')
                return
            self.expr(v)
            if loop is not None and isinstance(v, ast.Call):
                f = v.func
                if isinstance(f, ast.Attribute) and f.attr in (
                        'append', 'extend', 'insert', 'appendleft'):
                    self.mark_deep(f.value, 'list')
                elif isinstance(f, ast.Attribute) and f.attr in (
                        'setdefault', 'update'):
                    self.mark_deep(f.value, 'dict')
                elif v not in self.quiet:
                    self.effects(v)
        return

    def mark_deep(self, t, kind):
        if isinstance(t, ast.Name) and self.kinds.get(t.id) != 'set':
            self.kinds[t.id] = kind
        elif isinstance(t, ast.Attribute):
            self.mark(t, kind)
        elif isinstance(t, ast.Subscript):
            # entries of a table: each may be in arbitrary order
            self.mark(t.value, 'dict')

    def fresh(self, t):
        return isinstance(t, ast.Name)

    def by_name(self, loop, ret):
        """the match is found by the unique name of a class"""
        for x in ast.walk(loop[0]):
            if isinstance(x, ast.If) and any(y is ret for b in x.body
                                             for y in ast.walk(b)):
                t = x.test
                if isinstance(t, ast.Compare) and isinstance(
                        t.ops[0], ast.Eq) and any(
                            isinstance(y, ast.Attribute) and y.attr ==
                            '__name__' for y in ast.walk(t)):
                    return True
        return False

    def effects(self, c):
        """a call for its effects, for each element in arbitrary order"""
        for g in self.callees(c.func):
            if self.draws(g, set()):
                self.flag(c, 'draws random numbers in arbitrary order')

    def draws(self, g, seen):
        if g in seen:
            return False
        seen.add(g)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in \
                        DRAWS:
                    return True
                for h in Walk(self.U, g).callees(x.func):
                    if self.draws(h, seen):
                        return True
        return False
