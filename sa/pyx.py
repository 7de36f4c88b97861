"""Cython source -> Python AST (types stripped, recorded separately)."""
import ast
import re

from .repo import AnalysisBroken

CTYPES = ('int', 'float', 'double', 'long', 'unsigned int', 'DTYPE_t',
          'np.float32_t', 'np.float64_t', 'np.int_t', 'Py_ssize_t', 'size_t',
          'bint', 'char')
CAST = re.compile(r'<\s*(%s)\s*\**\s*>' % '|'.join(re.escape(t)
                                                   for t in CTYPES))


class PyxFn(object):
    def __init__(self, name, node, params):
        self.name, self.node = name, node
        self.params = params        # [(name, ndim or 0, type text)]


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def strip_comments(src):
    out = []
    for line in src.split('\n'):
        q, i = None, 0
        while i < len(line):
            ch = line[i]
            if q:
                if ch == q:
                    q = None
            elif ch in '"\'':
                q = ch
            elif ch == '#':
                line = line[:i]
                break
            i += 1
        out.append(line)
    return '\n'.join(out)


HEAD = re.compile(r'^([ \t]*)(?:def|cdef|cpdef)\b[^\n=]*?\b(\w+)[ \t]*\(',
                  re.M)


def parse(src):
    """-> {name: PyxFn}"""
    src = strip_comments(src)
    params = {}
    out, i = '', 0
    while True:
        m = HEAD.search(src, i)
        if not m:
            out += src[i:]
            break
        j = m.end()
        d = 1
        while d and j < len(src):
            d += {'(': 1, ')': -1}.get(src[j], 0)
            j += 1
        args = src[m.end():j - 1]
        k = src.find(':', j)
        name = m.group(2)
        ps = []
        for a in split_args(args):
            a = re.sub(r'\bnot\s+None\b', '', a.strip()).strip()
            dflt = ''
            if '=' in a:
                a, dflt = a.split('=', 1)
                a = a.strip()
            pm = re.match(r'^(.*?)(\w+)$', a, re.S)
            ty = pm.group(1).strip()
            nd = 0
            if '[' in ty:
                nd = len(split_args(ty[ty.index('[') + 1:ty.rindex(']')]))
            ps.append((pm.group(2), nd, ty, dflt))
        params[name] = [(p[0], p[1], p[2]) for p in ps]
        nl = src.count('\n', m.start(), k)
        hd = '%sdef %s(%s):' % (m.group(1), name, ', '.join(
            p[0] + ('=' + p[3] if p[3] else '') for p in ps))
        out += src[i:m.start()] + hd
        # keep line numbers
        out += '\n' * nl
        i = k + 1
    lines = []
    cont = ''
    for line in out.split('\n'):
        s = line.strip()
        ind = line[:len(line) - len(line.lstrip())]
        if re.match(r'(from\s+\S+\s+)?cimport\b', s):
            lines.append(ind + 'pass')
            continue
        if s.startswith('ctypedef') and s.endswith(':'):
            lines.append(ind + 'if True:')
            continue
        if s.startswith('ctypedef'):
            lines.append(ind + 'pass')
            continue
        if re.match(r'with\s+(nogil|gil)\s*:', s):
            lines.append(ind + 'if True:')
            continue
        m = re.match(r'cdef\s+(.*)$', s)
        if m and not s.startswith('def '):
            d = m.group(1).rstrip(',')
            # declarations, possibly with initialisers
            parts = split_args(d)
            st = []
            for x in parts:
                if '=' in x:
                    lhs, rhs = x.split('=', 1)
                    nm = re.search(r'(\w+)\s*$', lhs.strip()).group(1)
                    st.append('%s = %s' % (nm, rhs.strip()))
            lines.append(ind + ('; '.join(st) if st else 'pass'))
            continue
        lines.append(line)
    text = CAST.sub('', '\n'.join(lines))
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise AnalysisBroken('cython source not understood: %s' % e)
    fns = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            fns[n.name] = PyxFn(n.name, n, params.get(n.name, []))
    return fns


def root_name(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def effects(fn):
    """{param: set('w','a')}, {read params}"""
    ps = {p[0] for p in fn.params if p[1]}
    w, r = {}, set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and root_name(t) in ps:
                    w.setdefault(root_name(t), set()).add('w')
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Subscript) and \
                    root_name(n.target) in ps:
                k = 'a' if isinstance(n.op, (ast.Add, ast.Sub)) else 'm'
                w.setdefault(root_name(n.target), set()).add(k)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            nm = root_name(n)
            if nm in ps and not (isinstance(n.value, ast.Attribute) and
                                 n.value.attr == 'shape'):
                r.add(nm)
    return w, r
