"""Facts about the correlation classes that several rules need, discovered from the source."""
import ast

from .pyrepo import Repo, AnalysisBroken
from .pyflow import Flow, T, C, NONE, TRUE, FALSE, ABSENT, subterms, phi_leaves, show

SELF = T('param', 'self')
_repo = None


def repo():
    global _repo
    if _repo is None:
        _repo = Repo()
    return _repo


def corr_leaves(rep=None, base=None):
    rep = rep or repo()
    out = []
    for b in ([base] if base else ['Corr2', 'Corr3']):
        for c in rep.subclasses(b):
            if '_builder' in c.attrs:
                out.append(c)
    if not out:
        raise AnalysisBroken('no correlation classes found')
    return sorted(out, key=lambda c: c.name)


def self_attrs(node, name='self'):
    return [x.attr for x in ast.walk(node)
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name]


def builder_call(cls):
    """(defining class, function, Call node) of the place where the C++ object is built."""
    dc, fn = cls.prop('corr')
    if fn is None:
        raise AnalysisBroken('%s has no corr property' % cls.name)
    flow = Flow(cls.repo)
    r = flow.run_method(cls, 'corr', kind='props')
    calls = [e for e in flow.events if e.kind == 'call' and '_builder' in show(e.data['fn'])]
    if len(calls) == 0:
        # the builder attribute may have been resolved to the C++ class it names
        calls = [e for e in flow.events if e.kind == 'call' and '_treecorr' in show(e.data['fn'])]
    if not calls:
        raise AnalysisBroken('builder call of %s not found' % cls.name)
    return dc, fn, calls[0], flow


def accumulators(cls):
    """Instance attributes handed to the C++ object to accumulate into (in argument order)."""
    dc, fn, call, flow = builder_call(cls)
    out = []
    for a in call.args:
        t = a
        while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('ravel', 'reshape', 'view'):
            t = t.args[0].args[0]
        if t.op == 'attr' and t.args[0] is SELF and cls.prop(t.args[1])[1] is None:
            out.append(t.args[1])
        else:
            out.append(None)
    return out


def memo_props(cls):
    """{cache attribute: property name} for properties of the form
    'if the cached attribute is unset: compute it; return (something of) it'."""
    out = {}
    seen = set()
    for c in cls.mro:
        for name, fn in c.props.items():
            if name in seen:
                continue
            seen.add(name)
            if name in c.lazy:
                out[name] = name
                continue
            for a in memo_attrs(fn):
                out[a] = name
    return out


def memo_attrs(fn):
    """Attributes X such that fn tests self.X for None-ness (or hasattr) and stores self.X."""
    tested, stored = set(), set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
            tested |= set(self_attrs(x.left))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr' and \
                len(x.args) == 2 and isinstance(x.args[1], ast.Constant):
            tested.add(x.args[1].value)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and \
                x.value.id == 'self':
            stored.add(x.attr)
    return tested & stored


def strip_init(t):
    return t
