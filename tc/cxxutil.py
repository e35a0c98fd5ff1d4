"""Facts about the C++ sources shared by several rules."""
import re

from .cxx import load_sources, split_q, walk, src, children, N
from .pyrepo import AnalysisBroken


def base(nm):
    """plain function name of a (qualified, templated) name"""
    out, d = '', 0
    for c in nm:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out.split('::')[-1].strip()


def called(n):
    """plain names of everything called below n (functions, methods, constructions of locals)"""
    out = set()
    if n is None:
        return out
    for x in walk(n):
        if x.k == 'call':
            f = x.a[0]
            if f.k == 'name':
                out.add(base(f.a[0]))
            elif f.k == 'member':
                out.add(base(f.a[1]))
        elif x.k == 'new':
            out.add(base(x.a[0]))
        elif x.k == 'decl':
            out.add(base(x.a[0]))
    return out


def call_sites(n):
    """(kind, class or None, name) of everything called below n: kind 'm' (member), 'q' (qualified), 'f' (plain),
    'c' (construction)"""
    out = set()
    if n is None:
        return out
    for x in walk(n):
        if x.k == 'call':
            f = x.a[0]
            if f.k == 'name':
                q = split_q(f.a[0])
                nm = base(f.a[0])
                out.add(('q', base(q[-2]), nm) if len(q) > 1 else ('f', None, nm))
            elif f.k == 'member':
                this = f.a[0].k == 'name' and f.a[0].a[0] == 'this'
                out.add(('f' if this else 'm', None, base(f.a[1])))
        elif x.k == 'new':
            out.add(('c', None, base(x.a[0])))
        elif x.k == 'decl':
            out.add(('c', None, base(x.a[0])))
    return out


class CallGraph:
    """calls resolved by name and by the kind of receiver; overloads, template instances and virtual overrides
    are all included (an over-approximation)"""

    def __init__(self, S):
        self.S = S
        self.by = {}
        for f in S.functions:
            self.by.setdefault(f.name, []).append(f)
        self.bases = {}
        for c in S.classes:
            self.bases.setdefault(c.name, set()).update(base(b) for b in c.bases)
        self._out = {}

    def up(self, c):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(self.bases.get(x, ()))
        return seen

    def family(self, c):
        """the class, its bases, and everything derived from any of them"""
        u = self.up(c)
        return u | {d for d in self.bases if self.up(d) & {c}}

    def resolve(self, site, caller):
        kind, c, nm = site
        fs = self.by.get(nm, ())
        if kind == 'q':
            r = [f for f in fs if f.cls == c]
            return r or [f for f in fs if not f.cls]
        if kind == 'm':
            return [f for f in fs if f.cls and not f.static]
        if kind == 'c':
            return [f for f in fs if f.cls == nm] + [f for f in self.by.get('~' + nm, ())]
        fam = self.family(caller.cls) if caller is not None and caller.cls else set()
        return [f for f in fs if not f.cls or f.cls in fam] + [f for f in fs if f.cls == nm]

    def callees(self, f):
        if f not in self._out:
            sites = call_sites(f.body)
            for nm, args in f.inits or []:
                for a in args:
                    sites |= call_sites(a)
            out = set()
            for s in sites:
                out.update(self.resolve(s, f))
            self._out[f] = out
        return self._out[f]

    def reach(self, n, caller, skip=()):
        """functions reachable from the code n inside function caller"""
        seen = set()
        todo = []
        for s in call_sites(n):
            todo.extend(self.resolve(s, caller))
        while todo:
            f = todo.pop()
            if f in seen or f.cls in skip:
                continue
            seen.add(f)
            todo.extend(self.callees(f))
        return seen


_cg = None


def callgraph():
    global _cg
    if _cg is None:
        _cg = CallGraph(load_sources())
    return _cg


def regions(f):
    """(pragma text, line, statement it applies to) for every OpenMP directive of f"""
    out = []
    for n in walk(f.body):
        if n.k != 'block':
            continue
        ss = n.a[0]
        for i, x in enumerate(ss):
            if x.k == 'pragma' and x.a[0].split()[:1] == ['omp']:
                if i + 1 >= len(ss):
                    raise AnalysisBroken('%s: directive without statement' % f.where)
                out.append((x.a[0], x.line, ss[i + 1]))
    return out
