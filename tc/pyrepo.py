"""Loader and resolver for the Python half of the repository.

Parses every module of the package from the current working tree, resolves imports
between them, class hierarchies (C3 order is not needed: the package uses single
inheritance), methods, properties and class attributes.  Nothing is imported or run.
"""
import ast
import os

REPO = os.environ.get('TC_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: the run is an error, never a pass."""


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.imports = {}       # local name -> (module, name) or (module, None)
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, (ast.FunctionDef,)):
            self.funcs[st.name] = st
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.globals[t.id] = st.value
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.imports[a.asname or a.name] = (st.module or '', a.name, st.level)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.imports[a.asname or a.name.split('.')[0]] = (a.name, None, 0)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in getattr(st, 'body', []) + getattr(st, 'orelse', []):
                self._top(s)
            for h in getattr(st, 'handlers', []):
                for s in h.body:
                    self._top(s)


class Cls:
    def __init__(self, repo, mod, node, qual=None):
        self.repo = repo
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = qual or node.name
        self.methods = {}
        self.attrs = {}
        self.props = {}
        self.setters = {}
        self.static = set()
        self.classm = set()
        self.lazy = set()
        self.inner = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                decs = [ast.unparse(d) for d in st.decorator_list]
                if any(d.endswith('.setter') for d in decs):
                    self.setters[st.name] = st
                    continue
                if any(d.split('.')[-1] in ('property', 'lazy_property', 'cached_property')
                       for d in decs):
                    self.props[st.name] = st
                    if any('lazy' in d or 'cached' in d for d in decs):
                        self.lazy.add(st.name)
                else:
                    self.methods[st.name] = st
                    if 'staticmethod' in decs:
                        self.static.add(st.name)
                    if 'classmethod' in decs:
                        self.classm.add(st.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = Cls(repo, mod, st, self.qual + '.' + st.name)

    @property
    def bases(self):
        out = []
        for b in self.node.bases:
            n = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
            c = self.repo.find_class(n, self.mod)
            if c is None:
                # maybe sibling inner class
                c = self.repo.inner_class(self, n)
            if c is not None:
                out.append(c)
        return out

    @property
    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro:
                if c not in out:
                    out.append(c)
        return out

    def issub(self, name):
        return any(c.name == name for c in self.mro)

    def find(self, name, kind='methods', after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            d = getattr(c, kind)
            if name in d:
                return c, d[name]
        return None, None

    def method(self, name, after=None):
        return self.find(name, 'methods', after)

    def prop(self, name, after=None):
        return self.find(name, 'props', after)

    def attr(self, name):
        return self.find(name, 'attrs')

    def is_lazy(self, name):
        c, f = self.prop(name)
        return c is not None and name in c.lazy

    def __repr__(self):
        return '<Cls %s>' % self.name


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        pkg = os.path.join(self.root, 'treecorr')
        if not os.path.isdir(pkg):
            raise AnalysisBroken('no treecorr package in %s' % self.root)
        for fn in sorted(os.listdir(pkg)):
            if fn.endswith('.py'):
                self.modules[fn[:-3]] = Module(fn[:-3], os.path.join(pkg, fn))
        self.classes = {}
        for m in self.modules.values():
            for n, node in m.classes.items():
                self.classes[n] = Cls(self, m, node)

    def find_class(self, name, mod=None):
        return self.classes.get(name)

    def inner_class(self, cls, name):
        outer = cls.qual.split('.')[0]
        if '.' in cls.qual and outer in self.classes:
            return self.classes[outer].inner.get(name)
        return None

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        return c

    def subclasses(self, name):
        base = self.cls(name)
        return [c for c in self.classes.values() if base in c.mro and c is not base]

    def leaf_subclasses(self, name):
        subs = self.subclasses(name)
        return [c for c in subs if not any(c in d.mro and d is not c for d in self.classes.values())]

    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('module %s not found' % name)
        return m

    def resolve_func(self, mod, name, _depth=0):
        """Resolve a global function name used in module mod -> (Module, FunctionDef)."""
        if name in mod.funcs:
            return mod, mod.funcs[name]
        if name in mod.imports and _depth < 4:
            m, n, level = mod.imports[name]
            if level and n is not None and m in self.modules:
                return self.resolve_func(self.modules[m], n, _depth + 1)
            if level and n is not None and m == '' and n in self.modules:
                return None, None
        return None, None

    def resolve_class(self, mod, name):
        if name in mod.classes:
            return self.classes[name]
        if name in mod.imports:
            m, n, level = mod.imports[name]
            if level and n in self.classes:
                return self.classes[n]
        return None

    def where(self, mod, node):
        return 'treecorr/%s.py:%d' % (mod.name, getattr(node, 'lineno', 0))


def params_of(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg, a.kwarg


def defaults_of(fn):
    a = fn.args
    d = {}
    pos = a.posonlyargs + a.args
    for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[p.arg] = v
    for p, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[p.arg] = v
    return d
