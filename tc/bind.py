"""The pybind11 export table, read from the C++ sources: which compiled function each name used from
Python reaches, with its parameters, template arguments and enumerators."""
import re

from .cxx import load_sources, walk, src, N
from .pyrepo import AnalysisBroken

_tab = None


class Bound:
    """One exported callable."""

    def __init__(self, owner, name, cname, funcs, env, where):
        self.owner, self.name, self.cname, self.funcs, self.env, self.where = owner, name, cname, funcs, env, where

    @property
    def params(self):
        """parameter list, without the object for methods"""
        f = self.funcs[0]
        ps = list(f.params)
        if self.is_method and not f.cls:
            ps = ps[1:]
        return ps

    @property
    def is_method(self):
        return self.owner is not None and self.name != '__init__'

    def __repr__(self):
        return '%s.%s -> %s%s' % (self.owner, self.name, self.cname, self.env)


class Table:
    def __init__(self, S):
        self.S = S
        self.bound = []
        self.enums = {}         # python enum name -> [(python member, C enumerator)]
        self.exported = {}      # module attribute of enums exported into the module
        self.classes = {}       # python class -> (C++ type text, env)
        roots = [f for f in S.functions if f.name.startswith('pyExport')]
        if not roots:
            raise AnalysisBroken('no pybind export functions found')
        for f in roots:
            self.expand(f, {}, {}, 0)
        if len(self.bound) < 40:
            raise AnalysisBroken('only %d exported callables found' % len(self.bound))

    def text(self, n, env):
        """constant string value of an expression"""
        if n.k == 'str':
            return n.a[0][1:-1]
        if n.k == 'name':
            return env.get(n.a[0])
        if n.k == 'bin' and n.a[0] == '+':
            a, b = self.text(n.a[1], env), self.text(n.a[2], env)
            return None if a is None or b is None else a + b
        if n.k == 'call' and n.a[0].k == 'member' and n.a[0].a[1] == 'c_str':
            return self.text(n.a[0].a[0], env)
        if n.k == 'call' and n.a[0].k == 'name' and n.a[0].a[0] in ('std::string', 'string') and n.a[1]:
            return self.text(n.a[1][0], env)
        return None

    def expand(self, f, env, vars_, depth):
        if depth > 6:
            return
        env, vars_ = dict(env), dict(vars_)
        for n in walk(f.body):
            if n.k == 'decl':
                t = n.a[0]
                for d in n.a[1]:
                    if isinstance(d[1], list) and d[1] and t.startswith('py::class_'):
                        nm = self.text(d[1][1], env) if len(d[1]) > 1 else None
                        if nm is None:
                            raise AnalysisBroken('%s: class name of %s not understood' % (f.where, d[0]))
                        vars_[d[0]] = nm
                        self.classes[nm] = (t, dict(env))
            if n.k == 'call' and n.a[0].k == 'member' and n.a[0].a[1] == 'def':
                self.define(f, n, env, vars_)
            if n.k == 'call' and n.a[0].k == 'member' and n.a[0].a[1] == 'value':
                base = n.a[0].a[0]
                while base.k == 'call' and base.a[0].k == 'member' and base.a[0].a[1] in ('value', 'export_values'):
                    base = base.a[0].a[0]
                if base.k == 'call' and base.a[0].k == 'name' and base.a[0].a[0].startswith('py::enum_'):
                    en = self.text(base.a[1][1], env)
                    c = src(n.a[1][1]).split('::')[-1]
                    self.enums.setdefault(en, []).append((self.text(n.a[1][0], env), c))
            if n.k == 'call' and n.a[0].k == 'name':
                nm = n.a[0].a[0]
                m = re.match(r'(\w+)(?:<(.*)>)?$', nm)
                if not m:
                    continue
                args = n.a[1]
                cand = [g for g in self.S.functions if g.name == m.group(1) and g.body is not None and
                        len(g.params) == len(args) and any('py::module' in p.type for p in g.params) and g is not f
                        and g.where.split(':')[0] == f.where.split(':')[0]]
                for g in cand:
                    e2, v2 = {}, {}
                    targs = n.a[0].a[1] if n.a[0].a[1] is not None else (m.group(2).split(',') if m.group(2) else [])
                    for (tt, tn), ta in zip(g.tparams, targs):
                        e2[tn] = ta.strip()
                    for p, a in zip(g.params, args):
                        s = self.text(a, env)
                        if s is not None:
                            e2[p.name] = s
                        if a.k == 'name' and a.a[0] in vars_:
                            v2[p.name] = vars_[a.a[0]]
                    self.expand(g, e2, v2, depth + 1)

    def define(self, f, n, env, vars_):
        recv = n.a[0].a[0]
        owner = None
        if recv.k == 'name':
            owner = vars_.get(recv.a[0])
            if owner is None and not any(p.name == recv.a[0] and 'py::module' in p.type for p in f.params):
                raise AnalysisBroken('%s: receiver %s of .def not understood' % (f.where, recv.a[0]))
        args = n.a[1]
        if args[0].k == 'str':
            name = args[0].a[0][1:-1]
            tgt = args[1]
        else:
            name = '__init__'
            if not (args[0].k == 'call' and src(args[0].a[0]).startswith('py::init')):
                raise AnalysisBroken('%s: .def form not understood: %s' % (f.where, src(n)[:80]))
            tgt = args[0].a[1][0]
        for x in walk(tgt):
            if x.k == 'un' and x.a[0] == '&':
                tgt = x.a[1]
                break
        cn = tgt.a[0] if tgt.k == 'name' else src(tgt)
        cn0 = re.sub(r'<[^<>]*>', '', cn)
        parts = cn0.split('::')
        fs = [g for g in self.S.functions if g.name == parts[-1] and
              (len(parts) < 2 or g.cls == parts[-2]) and g.body is not None]
        if len(fs) > 1:
            same = [g for g in fs if g.where.split(':')[0] == f.where.split(':')[0]]
            fs = same or fs
        if not fs:
            raise AnalysisBroken('%s: exported function %s not found' % (f.where, cn))
        self.bound.append(Bound(owner, name, cn, fs, dict(env), f.where))

    def method(self, name):
        """all exported methods or module functions of that name, one per C++ function"""
        out = {}
        for b in self.bound:
            if b.name == name:
                out.setdefault(b.funcs[0], b)
        return list(out.values())

    def of_call(self, e):
        """the bound callable reached by a call event of a Flow, or None"""
        f = e.data['fn']
        if f.op == 'attr' and f.args[0].op == 'global' and f.args[0].args[0] == '_treecorr':
            b = self.ctor(f.args[1])
            if b is not None:
                return b
            m = [b for b in self.bound if b.owner is None and b.name == f.args[1]]
            return m[0] if m else None
        if e.name and e.recv is not None:
            m = self.method(e.name)
            m = [b for b in m if len(b.params) == len(e.args)] or m
            return m[0] if m else None
        return None

    def ctor(self, pyclass):
        for b in self.bound:
            if b.owner == pyclass and b.name == '__init__':
                return b
        return None


def table():
    global _tab
    if _tab is None:
        _tab = Table(load_sources())
    return _tab
