"""Loading and name resolution of the analysed source tree."""
import ast
import os
import warnings

from .terms import V


class AnalysisBroken(Exception):
    """An anchor vanished or the tree cannot be analysed: no verdict."""


class Fn(object):
    def __init__(self, name, qual, node, mod, cls=None, kind='function',
                 frame=None):
        self.name, self.qual, self.node, self.mod = name, qual, node, mod
        self.cls, self.kind, self.frame = cls, kind, frame
        self._gen = None

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = False
            if not isinstance(self.node, ast.Lambda):
                stack = list(self.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.FunctionDef, ast.Lambda,
                                      ast.ClassDef)):
                        continue
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
                        break
                    stack.extend(ast.iter_child_nodes(n))
        return self._gen

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Fn %s>' % self.qual


class Cls(object):
    def __init__(self, name, qual, node, mod):
        self.name, self.qual, self.node, self.mod = name, qual, node, mod
        self.members = {}
        self._mro = None
        for st in node.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, ast.FunctionDef):
            kind = 'function'
            for d in st.decorator_list:
                dn = d.id if isinstance(d, ast.Name) else (
                    d.attr if isinstance(d, ast.Attribute) else '')
                if dn in ('classmethod', 'staticmethod', 'property'):
                    kind = dn
                elif dn == 'setter':
                    kind = 'setter'
            if kind == 'setter':
                self.members[st.name + '.setter'] = Fn(
                    st.name, self.qual + '.' + st.name, st, self.mod, self)
            else:
                self.members[st.name] = Fn(
                    st.name, self.qual + '.' + st.name, st, self.mod, self,
                    kind)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.members[t.id] = st.value
                elif isinstance(t, ast.Tuple) and isinstance(
                        st.value, ast.Tuple):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name):
                            self.members[a.id] = b
        elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                isinstance(st.target, ast.Name):
            self.members[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._collect(s)

    def __repr__(self):
        return '<Cls %s>' % self.qual


class Mod(object):
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = ast.parse(src)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        self.bindings = {}
        self.stars = []
        self.toplevel = []
        for st in self.tree.body:
            self._collect(st)

    def _collect(self, st):
        b = self.bindings
        self.toplevel.append(st)
        if isinstance(st, ast.FunctionDef):
            b[st.name] = ('fn', Fn(st.name, self.name + '.' + st.name, st,
                                   self))
        elif isinstance(st, ast.ClassDef):
            b[st.name] = ('cls', Cls(st.name, self.name + '.' + st.name, st,
                                     self))
        elif isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    b[al.asname] = ('import', al.name)
                else:
                    b[al.name.split('.')[0]] = ('import',
                                                al.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ''
            if st.level:
                parts = self.name.split('.')
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                base = '.'.join(parts + ([base] if base else []))
            for al in st.names:
                if al.name == '*':
                    self.stars.append(base)
                else:
                    b[al.asname or al.name] = ('from', base, al.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    b.setdefault(t.id, ('assign', st.value, None))
                    if b[t.id][0] == 'assign' and b[t.id][1] is not st.value:
                        b[t.id] = ('assign', st.value, None)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            b[e.id] = ('assign', st.value, i)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._collect(s)
        elif isinstance(st, ast.Try):
            for h in st.handlers:
                for s in h.body:
                    self._collect(s)
            for s in st.body + st.orelse + st.finalbody:
                self._collect(s)
        elif isinstance(st, (ast.With, ast.For, ast.While)):
            for s in st.body:
                self._collect(s)


class Repo(object):
    """All modules of one package, parsed from the working tree."""

    def __init__(self, root='/repo', package='brainstorm',
                 exclude=('tests',)):
        self.root = root
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken('package %s missing under %s' % (package,
                                                                  root))
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in exclude and
                           not d.startswith(('.', '__pycache__')))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                pkg = rel[-1] == '__init__'
                name = '.'.join(rel[:-1] if pkg else rel)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                self.modules[name] = Mod(name, os.path.relpath(p, root), src,
                                         pkg)

    # ---- lookup ----------------------------------------------------------
    def classes(self):
        for m in self.modules.values():
            for k, b in m.bindings.items():
                if b[0] == 'cls':
                    yield b[1]

    def functions(self):
        for m in self.modules.values():
            for k, b in m.bindings.items():
                if b[0] == 'fn':
                    yield b[1]
                elif b[0] == 'cls':
                    for mm in b[1].members.values():
                        if isinstance(mm, Fn):
                            yield mm

    def find_class(self, name, required=True):
        found = [c for c in self.classes() if c.name == name]
        if not found:
            if required:
                raise AnalysisBroken('class %s not found in the package' %
                                     name)
            return None
        return found[0]

    def find_function(self, name, required=True, module=None):
        for m in self.modules.values():
            if module and m.name != module:
                continue
            b = m.bindings.get(name)
            if b and b[0] == 'fn':
                return b[1]
        if required:
            raise AnalysisBroken('function %s not found in the package' %
                                 name)
        return None

    def resolve(self, mod, name, _seen=None):
        """-> ('fn',Fn)|('cls',Cls)|('mod',name)|('ext',dotted)|
              ('assign',Mod,node,index)|None"""
        _seen = _seen or set()
        if (mod.name, name) in _seen:
            return None
        _seen.add((mod.name, name))
        b = mod.bindings.get(name)
        if b is None:
            for s in mod.stars:
                m = self.modules.get(s)
                if m:
                    r = self.resolve(m, name, _seen)
                    if r:
                        return r
            return None
        if b[0] in ('fn', 'cls'):
            return b
        if b[0] == 'import':
            return ('mod', b[1]) if b[1] in self.modules else ('ext', b[1])
        if b[0] == 'from':
            base, nm = b[1], b[2]
            full = base + '.' + nm
            if base in self.modules:
                m = self.modules[base]
                if nm in m.bindings or m.stars:
                    r = self.resolve(m, nm, _seen)
                    if r:
                        return r
                if full in self.modules:
                    return ('mod', full)
                return ('ext', full)
            if full in self.modules:
                return ('mod', full)
            return ('ext', full)
        return ('assign', mod, b[1], b[2])

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(cls.mod, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value,
                                                             ast.Name):
                q = self.resolve(cls.mod, b.value.id)
                if q and q[0] == 'mod':
                    r = self.resolve(self.modules[q[1]], b.attr)
                elif q and q[0] == 'ext':
                    r = ('ext', q[1] + '.' + b.attr)
            if r is None and isinstance(b, ast.Name):
                r = ('ext', b.id)
            out.append(r)
        return out

    def mro(self, cls):
        if cls._mro is None:
            seqs = []
            for r in self.bases(cls):
                if r and r[0] == 'cls':
                    seqs.append(list(self.mro(r[1])))
            seqs.append([r[1] for r in self.bases(cls) if r and
                         r[0] == 'cls'])
            out = [cls]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            cls._mro = out
        return cls._mro

    def ext_bases(self, cls):
        out = set()
        for c in self.mro(cls):
            for r in self.bases(c):
                if r and r[0] == 'ext':
                    out.add(r[1])
        return out

    def lookup(self, cls, name, after=None):
        """-> (owner, member) along the MRO."""
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.members:
                return c, c.members[name]
        return None, None

    def subclasses(self, cls):
        return [c for c in self.classes() if c is not cls and
                cls in self.mro(c)]

    def issub(self, c, parent):
        return parent in self.mro(c)
