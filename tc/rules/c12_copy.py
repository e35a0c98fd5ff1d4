"""C12: copies and pickles are complete and independent of the original; equality covers everything stored.

`copy` of every correlation class is interpreted once and its effect on the new object followed attribute by
attribute: each array, each container that processing changes in place and each attached correlation must end
up as a new object in the copy, the cached C++ object must not be shared, and arrays that are one object under
two names must stay so.  `__getstate__`/`__setstate__` may only leave out what is rebuilt on demand and must
leave out what cannot be stored.  `__eq__` is evaluated as a Boolean function of its comparisons: each must
compare one attribute with itself, and the result must be false whenever one stored quantity differs.  C++
copying constructors and assignments of every class must take every field from the same field.
"""
import ast

from ..common import *
from ..pyrepo import AnalysisBroken
from ..cases import Pick, Open
from ..cxx import load_sources
from ..cxxflow import CFlow, THIS
from .c02_merge import live, BINS, ONLY

PROP = 'C12'
GROW = ('append', 'update', 'add', 'pop', 'clear', 'extend', 'insert', 'remove', 'setdefault', 'popitem', 'discard')
CORRISH = ('weight', 'results', 'tot', 'npairs', 'ntri', '_calculate_varxi', 'meanr', 'meand1')
OTHER = T('param', 'other')
COPIERS = ('copy', 'deepcopy', 'array', 'list', 'dict', 'set', 'tuple')


# ------------------------------------------------------------------ attributes

def self_attr(n):
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
        return n.attr
    return None


def attributes(cls):
    """{attribute: kind} of what instances store: 'array', 'box' (containers changed in place), 'corr', 'other';
    and {(A, B)}: A is stored as the very array B"""
    acc = set(accumulators(cls)) - {None}
    kinds, box, arr, corr, alias, stored = {}, set(), set(acc), set(), set(), set()
    grown = set()
    for c in cls.mro:
        for tab in (c.methods, c.props):
            for name, fn in tab.items():
                if isinstance(fn, (list, tuple)):
                    fn = fn[0]
                for x in ast.walk(fn):
                    tg = []
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple):
                                tg += list(zip(t.elts, x.value.elts))
                            else:
                                tg.append((t, x.value))
                    elif isinstance(x, ast.AugAssign):
                        tg.append((x.target, None))
                    for t, v in tg:
                        a = self_attr(t)
                        if a:
                            stored.add(a)
                            if isinstance(v, (ast.Dict, ast.List, ast.DictComp, ast.ListComp)) or \
                                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                                    v.func.id in ('dict', 'list', 'set'):
                                box.add(a)
                            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                                    isinstance(v.func.value, ast.Name) and v.func.value.id == 'np' and \
                                    v.func.attr in ('zeros', 'array', 'empty', 'ones', 'zeros_like', 'full'):
                                arr.add(a)
                            b = self_attr(v) if v is not None else None
                            if b:
                                alias.add((a, b))
                        if isinstance(t, ast.Subscript) and self_attr(t.value):
                            grown.add(self_attr(t.value))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW and \
                            self_attr(x.func.value):
                        grown.add(self_attr(x.func.value))
                    if isinstance(x, ast.Attribute) and x.attr in CORRISH and self_attr(x.value):
                        corr.add(self_attr(x.value))
    for a in stored:
        if cls.prop(a)[1] is not None and a not in cls.mro[0].lazy and a not in memo_props(cls):
            pass
        kinds[a] = ('corr' if a in corr and a not in arr and a not in box else
                    'array' if a in arr else
                    'box' if a in box and a in grown else 'other')
    for a in arr:
        kinds.setdefault(a, 'array')
    # a property that hands out an array stands for that array
    names = {}
    for p, v in alias:
        dc, fn = cls.prop(v)
        tgt = v
        if fn is not None:
            rets = [y.value for y in ast.walk(fn) if isinstance(y, ast.Return)]
            tgt = self_attr(rets[0]) if len(rets) == 1 else None
        if tgt and kinds.get(tgt) == 'array' and tgt != p and (tgt in grown or tgt in acc):
            names.setdefault(p, set()).add((v, tgt))
    return kinds, names


# ------------------------------------------------------------------ copy

class CopyOf:
    """what became of one attribute of the original in the copy"""

    def __init__(self, cls, ret, K, kind, names):
        self.cls, self.ret, self.K, self.kind, self.names = cls, ret, K, kind, names
        self.pick = Pick(self.decide)

    def is_item(self, t):
        """t is the attribute K of the original, or of the copy"""
        if t.op == 'attr' and t.args[1] == self.K and (t.args[0] is SELF or t.args[0] is self.ret):
            return True
        if t.op == 'idx':
            if t.args[1].is_const and t.args[1].value == 1 and self.all_items(t.args[0]):
                return True
            if self.is_dict(t.args[0]) and self.is_key(t.args[1]):
                return True
        if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'getattr':
            a = t.args[1]
            return len(a) > 1 and a[0] in (SELF, self.ret) and self.is_key(a[1])
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('get', 'pop') and \
                self.is_dict(t.args[0].args[0]) and t.args[1]:
            return self.is_key(t.args[1][0])
        return False

    def is_key(self, t):
        if t.is_const:
            return t.value == self.K
        if t.op == 'idx' and t.args[1].is_const and t.args[1].value == 0 and self.all_items(t.args[0]):
            return True
        return t.op == 'elem' and self.is_dict(strip(t.args[1]))

    def all_items(self, t):
        if t.op != 'elem':
            return False
        t = strip(t.args[1])
        return t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'items' and \
            self.is_dict(strip(t.args[0].args[0]))

    def is_dict(self, t):
        """the attribute dictionary of the original or of the copy"""
        while t.op in ('upd', 'phi', 'enter', 'copyof'):
            t = t.args[0] if t.op != 'phi' else t.args[1]
        if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'vars' and t.args[1]:
            return t.args[1][0] in (SELF, self.ret)
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('copy', 'keys'):
            return self.is_dict(t.args[0].args[0])
        return t.op == 'attr' and t.args[1] == '__dict__' and t.args[0] in (SELF, self.ret)

    def decide(self, c):
        if c.is_const:
            return bool(c.value)
        if c.op == 'loop' or c.op == 'call' and c.args[0].op == 'global' and c.args[0].args[0] == 'loop':
            return True
        if c.op == 'call' and c.args[0].op == 'global' and c.args[0].args[0] == 'isinstance':
            x, ty = c.args[1][0], show(c.args[1][1])
            if self.is_item(x):
                if 'ndarray' in ty:
                    return self.kind == 'array' or ('dict' in ty or 'list' in ty) and self.kind == 'box'
                if 'dict' in ty or 'list' in ty:
                    return self.kind == 'box'
                if 'Corr' in ty or ty == self.cls.name:
                    return self.kind == 'corr'
            return None
        if c.op == 'call' and c.args[0].op == 'global' and c.args[0].args[0] == 'hasattr':
            x, a = c.args[1]
            if x in (SELF, self.ret) and self.is_key(a):
                return True
            if self.is_item(x) and a.is_const and a.value == 'copy':
                return self.kind in ('array', 'box', 'corr')
            return None
        if c.op == 'cmp':
            o, x, y = c.args
            if o in ('in', 'not in') and self.is_dict(y) and x.is_const and x.value == self.K:
                return o == 'in'
            if o in ('in', 'not in') and y.op in ('list', 'tuple', 'set') and self.is_key(x) and not x.is_const and \
                    all(k.is_const for k in y.args[0]):
                return (self.K in [k.value for k in y.args[0]]) == (o == 'in')
            if o in ('==', '!=') and self.is_key(x) and not x.is_const and y.is_const:
                return (self.K == y.value) == (o == '==')
            if o in ('is', 'is not', '==', '!='):
                for u, v in ((x, y), (y, x)):
                    if self.is_item(u) and v.is_const and (v.value is None or v.value is True):
                        return o in ('is not', '!=')
                    if u.op == 'attr' and u.args[0] is SELF and u.args[1] in self.names and \
                            v.op == 'attr' and v.args[0] is SELF and any(v.args[1] in n for n in self.names[u.args[1]]):
                        return o in ('is', '==')        # the case in which both names mean one array
        if self.is_item(c):
            return True
        return None

    def classify(self, v):
        try:
            v = self.pick.top(v)
        except Open:
            return 'open'
        if v.is_const:
            return ('const', v.value)
        if self.is_item(v):
            return 'shared'
        if v.op == 'attr' and v.args[0] is self.ret:
            return ('alias', v.args[1])
        if v.op == 'copyof' and self.is_item(v.args[0]):
            return 'fresh'
        w = source(v)
        if w is not None and w.op == 'attr' and w.args[0] is SELF and w.args[1] != self.K and w.args[1] != '__dict__':
            return ('attribute', w.args[1])
        if v.op == 'upd':
            return self.classify(v.args[0])
        if v.op == 'call':
            f = v.args[0]
            if f.op == 'attr' and f.args[1] in ('copy', 'flatten') and self.is_item(f.args[0]):
                return 'fresh'
            nm = f.args[1] if f.op == 'attr' else f.args[0] if f.op == 'global' else ''
            if nm in COPIERS and v.args[1] and self.is_item(v.args[1][0]):
                if nm == 'array' and any(k == 'copy' and w.is_const and w.value is False for k, w in v.args[2]):
                    return 'shared'
                return 'fresh'
            if nm in ('asarray', 'ravel', 'view', 'reshape'):
                a = f.args[0] if f.op == 'attr' and self.is_item(f.args[0]) else v.args[1][0] if v.args[1] else None
                if a is not None and self.is_item(a):
                    return 'shared'
        if v.op in ('list', 'dict', 'fill', 'bin', 'un'):
            return 'fresh'
        return 'open'


def source(v):
    """what a copy is a copy of"""
    if v.op == 'copyof':
        return v.args[0]
    if v.op == 'attr':
        return v
    if v.op == 'call':
        f = v.args[0]
        nm = f.args[1] if f.op == 'attr' else f.args[0] if f.op == 'global' else ''
        if f.op == 'attr' and nm == 'copy' and not v.args[1]:
            return f.args[0]
        if nm in COPIERS and v.args[1]:
            return v.args[1][0]
    return None


def strip(t):
    while t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] in ('list', 'tuple', 'sorted', 'set') \
            and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def whole(v):
    """how a term makes a new object from the original: 'new', 'shallow', 'deep' or None"""
    if v.op != 'call':
        return None
    f = v.args[0]
    nm = f.args[1] if f.op == 'attr' else f.args[0] if f.op == 'global' else ''
    if nm == '__new__':
        return 'new'
    if nm == 'deepcopy' and v.args[1][0] is SELF:
        return 'deep'
    if nm == 'copy' and v.args[1] and v.args[1][0] is SELF and f.op == 'attr' and show(f.args[0]) == 'copy':
        return 'shallow'
    if nm == 'loads' and v.args[1] and 'dumps(self' in show(v.args[1][0]):
        return 'deep'
    return None


def copy_effect(cls, kinds, names):
    fl = Flow(cls.repo, maxdepth=6)
    r = fl.run_method(cls, 'copy')
    if r is None or r[0] is None:
        raise AnalysisBroken('%s.copy has no result' % cls.name)
    ret = r[0]
    how = whole(ret)
    if how is None:
        return fl, None
    out = {}
    for K, kind in kinds.items():
        co = CopyOf(cls, ret, K, kind, names)
        st = {'new': 'missing', 'shallow': 'shared', 'deep': 'fresh'}[how]
        for e in fl.events:
            v = None
            if e.kind == 'store' and e.obj is ret and e.attr == K:
                v = e.value
            elif e.kind == 'store' and e.obj is ret and e.attr == '__dict__' and not e.data.get('inplace'):
                v = T('attr', SELF, K) if co.is_dict(e.value) else None
                if v is None:
                    continue
            elif e.kind == 'setitem' and e.data.get('cell') and e.data['cell'][0] is ret and \
                    e.data['cell'][1] == '__dict__' and e.op == '=' and co.is_key(e.key):
                v = e.value
            elif e.kind == 'call' and e.name == 'update' and e.recv is not None and co.is_dict(e.recv) and e.args and \
                    co.is_dict(e.args[0]):
                v = T('attr', SELF, K)
            elif e.kind == 'call' and e.name == 'update' and e.recv is not None and co.is_dict(e.recv):
                st = 'open'
                continue
            elif e.kind == 'call' and e.name == 'setattr' and len(e.args) == 3 and e.args[0] is ret and \
                    co.is_key(e.args[1]):
                v = e.args[2]
            else:
                continue
            ok = True
            for g, val in e.guards:
                try:
                    if co.pick.truth(g) != val:
                        ok = False
                except Open:
                    ok = ok and None
            if ok is False:
                continue
            new = co.classify(v)
            if new == 'shared' and mentions_ret(v, ret) and st != 'missing':
                new = st
            st = new if ok else ('either', st, new)
        out[K] = st
    return fl, out


def mentions_ret(v, ret):
    return v.op == 'attr' and v.args[0] is ret


def worst(st):
    """the states an attribute may be in"""
    return worst(st[1]) | worst(st[2]) if isinstance(st, tuple) and st[0] == 'either' else {st}


# ------------------------------------------------------------------ python checks

def py_copy(ck, cls):
    kinds, names = attributes(cls)
    fl, eff = copy_effect(cls, kinds, names)
    ck.saw_flow(fl)
    if eff is None:
        ck.ob('copy-own', cls.name + ' (undecided)', True)
        return
    where = '%s.copy' % cls.name
    for K, kind in sorted(kinds.items()):
        if K == '__dict__':
            continue
        s = worst(eff[K])
        con = '%s.%s' % (cls.name, K)
        if 'open' in s:
            continue
        if 'missing' in s:
            ck.ob('copy-complete', con, False, '%s is not carried over to the copy' % K, where)
            continue
        ck.ob('copy-complete', con, True)
        if kind in ('array', 'box', 'corr') and K not in names:
            what = {'array': 'array', 'box': 'container, changed in place by processing,', 'corr': 'correlation'}[kind]
            ck.ob('copy-own', con, s == {'fresh'}, 'the %s %s of the copy is %s' %
                  (what, K, 'the one of the original' if 'shared' in s else 'not that of the original (%s)' % (list(s)[0],)),
                  where)
        if K in names:
            ok = s <= {('alias', n) for pr in names[K] for n in pr}
            ck.ob('copy-alias', con, ok, '%s is the same array as %s in the original, but not in the copy' %
                  (K, '/'.join(sorted(p[0] for p in names[K]))), where)
        if K in native(cls):
            ck.ob('copy-native', con, s == {('const', None)},
                  'the copy shares the compiled object, which holds the arrays of the original', where)


def native(cls):
    """attributes caching the compiled object"""
    return [a for a, p in memo_props(cls).items() if p == 'corr']


def state(cls):
    """(removed keys or None, events) of __getstate__"""
    fl = Flow(cls.repo, maxdepth=4, prop_opaque=set(cls_props(cls)))
    r = fl.run_method(cls, '__getstate__')
    if r is None or r[0] is None:
        return None, fl
    return r, fl


def cls_props(cls):
    return [n for c in cls.mro for n in c.props]


def is_selfdict(t):
    while t.op in ('upd', 'enter'):
        t = t.args[0]
    return t.op == 'attr' and t.args[0] is SELF and t.args[1] == '__dict__' or \
        t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'vars' and t.args[1][0] is SELF


def dict_copy(t):
    while t.op in ('upd', 'enter'):
        t = t.args[0]
    if t.op == 'copyof':
        return is_selfdict(t.args[0])
    if t.op == 'call':
        f = t.args[0]
        if f.op == 'attr' and f.args[1] == 'copy':
            if is_selfdict(f.args[0]):
                return True
            return bool(t.args[1]) and is_selfdict(t.args[1][0])
        if f.op == 'global' and f.args[0] in ('dict', 'copy'):
            return bool(t.args[1]) and is_selfdict(t.args[1][0])
    return False


def unstorable(cls):
    """attributes holding what cannot be pickled: loggers, closures, weak references, compiled objects"""
    out = {}
    for c in cls.mro:
        for tab in (c.methods, c.props):
            for name, fn in tab.items():
                inner = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
                env = {}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        env[x.targets[0].id] = x.value
                for x in ast.walk(fn):
                    if not isinstance(x, ast.Assign):
                        continue
                    v = x.value
                    if isinstance(v, ast.Name) and v.id in env:
                        v = env[v.id]
                    why = None
                    if isinstance(v, ast.Lambda):
                        why = 'a lambda'
                    elif isinstance(v, ast.Call):
                        f = v.func
                        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                        if nm == 'setup_logger' or nm == 'getLogger':
                            why = 'a logger'
                        elif nm == 'ref':
                            why = 'a weak reference'
                        elif nm == '_builder':
                            why = 'a compiled object'
                        elif any(isinstance(a, ast.Name) and a.id in inner or isinstance(a, ast.Lambda) for a in v.args):
                            why = 'a local function'
                    if why:
                        for t in x.targets:
                            a = self_attr(t)
                            if a:
                                out[a] = why
    return out


def py_state(ck, cls):
    r, fl = state(cls)
    ck.saw_flow(fl)
    if r is None:
        ck.ob('state-own', cls.name + ' (undecided)', True)
        return
    v = r[0]
    dc, fn = cls.method('__getstate__')
    where = '%s.__getstate__' % dc.name
    gone, unknown = set(), False
    lost = sorted({e.attr for e in fl.events if e.kind == 'store' and e.obj is SELF and e.attr != '__dict__'} |
                  {a for (o, a), w in r[1].heap.items() if o is SELF and w is ABSENT})
    if lost:
        ck.ob('state-own', cls.name, False, 'the attributes %s of the original itself are changed' % ', '.join(lost), where)
        return
    for e in fl.events:
        if e.kind == 'call' and e.name == 'pop' and e.recv is not None and (dict_copy(e.recv) or is_selfdict(e.recv)):
            if e.args and e.args[0].is_const:
                gone.add(e.args[0].value)
                if any(not (g.op == 'cmp' and g.args[0] == 'in' and g.args[1] is e.args[0]) for g, _ in e.guards):
                    unknown = True
            else:
                unknown = True
    loops = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, (ast.Tuple, ast.List, ast.Set)) \
                and all(isinstance(y, ast.Constant) for y in x.iter.elts):
            loops[x.target.id] = [y.value for y in x.iter.elts]
    for x in ast.walk(fn):
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                    gone.add(t.slice.value)
                elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name) and t.slice.id in loops:
                    gone |= set(loops[t.slice.id])
                else:
                    unknown = True
    if is_selfdict(v):
        ck.ob('state-own', cls.name, not gone, 'the attributes %s are removed from the original itself' % sorted(gone),
              where)
        return
    sel = dict_filter(fn)
    if not dict_copy(v):
        if sel is None:
            return
        gone |= sel
    elif unknown:
        return
    ck.ob('state-own', cls.name, True)
    restored = set()
    dc2, fs = cls.method('__setstate__')
    full = None
    if fs is not None:
        f2 = Flow(cls.repo, maxdepth=2, prop_opaque=set(cls_props(cls)), opaque={'setup_logger', 'get', 'load'})
        r2 = f2.run_method(cls, '__setstate__')
        ck.saw_flow(f2)
        d = T('param', fs.args.args[1].arg)
        full = False
        picky = any(isinstance(x, ast.comprehension) and x.ifs and any(
            isinstance(y, ast.Name) and y.id == d.args[0] for y in ast.walk(x.iter)) for x in ast.walk(fs))
        for e in f2.events:
            if e.kind == 'store' and e.obj is SELF:
                if e.attr == '__dict__':
                    if d in subterms(e.value):
                        full = full or not (e.guards or picky)
                else:
                    restored.add(e.attr)
            elif e.kind == 'call' and e.name == 'update' and e.recv is not None and is_selfdict(e.recv):
                full = full or (not e.guards and bool(e.args) and d in subterms(e.args[0]))
        ck.ob('state-set', cls.name, full, '__setstate__ does not take over the stored attributes', '%s.__setstate__' % dc2.name)
    memos = rebuilt(cls)
    for k in sorted(gone):
        ck.ob('state-complete', '%s.%s' % (cls.name, k), k in memos or k in restored,
              '%s is left out of the pickle but is neither rebuilt on demand nor restored' % k, where)
    for k, why in sorted(unstorable(cls).items()):
        ck.ob('state-storable', '%s.%s' % (cls.name, k), k in gone,
              '%s holds %s and is not left out of the pickle' % (k, why), where)


def dict_filter(fn):
    """keys dropped by {k: v for k, v in self.__dict__.items() if k not in (...)}"""
    for x in ast.walk(fn):
        if isinstance(x, ast.DictComp) and len(x.generators) == 1 and '__dict__' in ast.unparse(x.generators[0].iter):
            for c in x.generators[0].ifs:
                if isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.NotIn) and \
                        isinstance(c.comparators[0], (ast.Tuple, ast.List, ast.Set)):
                    return {k.value for k in c.comparators[0].elts if isinstance(k, ast.Constant)}
    return None


def rebuilt(cls):
    """caches: attributes only tested for existence before being computed again from the rest"""
    out = {}
    for a, p in memo_props(cls).items():
        dc, fn = cls.prop(p)
        lazy = p in dc.lazy
        guarded = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr' and
                      len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == a
                      for x in ast.walk(fn)) or \
            any(isinstance(x, ast.ExceptHandler) for x in ast.walk(fn)) or \
            any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'getattr' and
                len(x.args) == 3 and isinstance(x.args[1], ast.Constant) and x.args[1].value == a for x in ast.walk(fn)) \
            or "'%s' in" % a in ast.unparse(fn) or "'%s' not in" % a in ast.unparse(fn)
        if lazy or guarded:
            out[a] = p
    return out


# ------------------------------------------------------------------ equality

def norm(t, who):
    """t with the object replaced by a neutral name"""
    if t is who:
        return T('param', 'it')
    if t.op == 'attr':
        return T('attr', norm(t.args[0], who), t.args[1])
    if t.op == 'enter':
        return norm(t.args[0], who)

    def f(x):
        if isinstance(x, T):
            return norm(x, who)
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return x
    if t.is_const or not t.args:
        return t
    return T(t.op, *[f(x) for x in t.args])


def comparison(c):
    """(a, b) if c compares two values, else None"""
    if c.op == 'cmp' and c.args[0] in ('==', '!='):
        return c.args[1], c.args[2]
    if c.op == 'call':
        f = c.args[0]
        nm = f.args[1] if f.op == 'attr' else f.args[0] if f.op == 'global' else ''
        if nm in ('array_equal', 'allclose', 'array_equiv') and len(c.args[1]) >= 2:
            return c.args[1][0], c.args[1][1]
        if nm == 'all' and c.args[1]:
            return comparison(c.args[1][0])
        if nm == 'all' and f.op == 'attr':
            return comparison(f.args[0])
    return None


def sides(a, b):
    """(term on self, term on other) of a comparison of the two objects, else None"""
    for x, y in ((a, b), (b, a)):
        sx, sy = set(subterms(x)), set(subterms(y))
        if SELF in sx and OTHER in sy and OTHER not in sx and SELF not in sy:
            return x, y
    return None


def attrs_of(t):
    return {x.args[1] for x in subterms(t) if x.op == 'attr'}


def eq_term(cls, opaque_props=False):
    kw = {}
    if opaque_props:
        kw = dict(prop_opaque=set(cls_props(cls)), opaque={'load', '_read_file'})
    fl = Flow(cls.repo, maxdepth=6, types={OTHER: cls}, **kw)
    r = fl.run_method(cls, '__eq__')
    if r is None or r[0] is None:
        raise AnalysisBroken('%s.__eq__ has no result' % cls.name)
    return r[0], fl


def atoms(t, out):
    for x in subterms(t):
        ab = comparison(x)
        if ab:
            s = sides(*ab)
            if s:
                out[x] = s


def is_bintype(t):
    return t.op == 'attr' and t.args[1] == 'bin_type'


def py_eq(ck, cls, need, bins, opaque_props=False):
    """need: {quantity: set of bin types for which it exists, or None}"""
    t, fl = eq_term(cls, opaque_props)
    ck.saw_flow(fl)
    ats = {}
    atoms(t, ats)
    dc, fn = cls.method('__eq__')
    where = '%s.__eq__' % dc.name
    for a, (s, o) in sorted(ats.items(), key=lambda k: show(k[1][0])):
        ns, no = norm(s, SELF), norm(o, OTHER)
        ok = ns is no
        if not ok and (ns.op == 'phi' or no.op == 'phi'):
            continue
        ck.ob('eq-same', '%s %s' % (cls.name, show(ns)[:60]), ok, 'compares %s with %s of the other' %
              (show(ns)[:80], show(no)[:80]), where)

    def run(bt, bad):
        def decide(c):
            if c in ats:
                pos = not (c.op == 'cmp' and c.args[0] == '!=')
                return (c not in bad) == pos
            if c.op == 'cmp' and c.args[0] in ('==', '!=') and any(is_bintype(x) for x in c.args[1:]):
                k = [x for x in c.args[1:] if x.is_const]
                if k and bt:
                    return (k[0].value == bt) == (c.args[0] == '==')
            if c.op == 'cmp' and c.args[0] in ('in', 'not in') and is_bintype(c.args[1]) and \
                    c.args[2].op in ('list', 'tuple', 'set') and bt:
                return (bt in [x.value for x in c.args[2].args[0]]) == (c.args[0] == 'in')
            if c.op == 'call' and c.args[0].op == 'global' and c.args[0].args[0] == 'isinstance':
                return True
            return None
        return Pick(decide).truth(t)
    for bt in bins:
        try:
            same = run(bt, ())
        except Open:
            continue
        if not same:
            ck.ob('eq-cover', '%s %s' % (cls.name, bt), False, 'objects with the same contents are not equal', where)
            continue
        for q, when in sorted(need.items()):
            if when is not None and bt not in when:
                continue
            names = need_names(cls, q)
            bad = {a for a, (s, o) in ats.items() if attrs_of(s) & names}
            try:
                r = run(bt, bad)
            except Open:
                continue
            ck.ob('eq-cover', '%s.%s%s' % (cls.name, q, ' ' + bt if bt else ''), r is False,
                  'two objects that differ only in %s compare as equal' % q, where)


def need_names(cls, q):
    out = {q}
    for c in cls.mro:
        for p, fn in c.props.items():
            rets = [y.value for y in ast.walk(fn) if isinstance(y, ast.Return)]
            if any(self_attr(x) == q for x in rets):
                out.add(p)
    return out


def columns(cat):
    """the columns of a catalog: what discarding the data of a file-backed catalog sets to None and reading sets"""
    fl = Flow(cat.repo, maxdepth=2, prop_opaque=set(cls_props(cat)), opaque={'load', '_read_file', 'clear_cache'})
    fl.run_method(cat, 'unload')
    out = []
    for e in fl.events:
        if e.kind == 'store' and e.obj is SELF and e.value is NONE:
            p = e.attr[1:] if e.attr.startswith('_') else e.attr
            if cat.prop(p)[1] is not None and e.attr not in memo_props(cat):
                out.append(p)
    return sorted(set(out))


# ------------------------------------------------------------------ C++

def cxx(ck):
    S = load_sources()
    seen = 0
    for f in S.functions:
        if not f.cls or f.name not in (f.cls, 'operator=') or not f.params:
            continue
        p = f.params[0]
        ty = p.type.replace('const', '').replace('&', '').strip()
        if '&' not in p.type or 'const' not in p.type or ty.split('<')[0].strip() != f.cls:
            continue
        if any(x.default is None for x in f.params[1:]) and len(f.params) > 2:
            continue
        cands = [c for c in S.classes if c.name == f.cls and (f in c.methods)]
        if not cands:
            cands = [c for c in S.classes if c.name == f.cls and
                     (not c.targs or f.ctargs and [x.strip() for x in f.ctargs] == [x.strip() for x in c.targs])]
        if len(cands) != 1 or not same_spec(ty, cands[0]):
            continue
        c = cands[0]
        fields = {nm: t for t, nm, dim in c.fields}
        if not fields:
            continue
        rhs = p.name
        if not rhs:
            continue
        RHS = T('param', rhs)
        fl = CFlow(follow='all', stop=('clear', 'add', 'copy', 'new_data', 'delete_data'))
        fl.run(f)
        ck.saw(f.qual)
        got = {}
        for nm, a in f.inits:
            base_ = nm.split('<')[0].strip()
            if base_ in fields:
                args = a if isinstance(a, (list, tuple)) else [a]
                got.setdefault(base_, []).append(rhs_field(args, rhs, fields))
        for e in fl.events:
            if e.kind == 'write':
                lv = e.lv
                while lv.op == 'idx':
                    lv = lv.args[0]
                if lv.op == 'field' and lv.args[0] is THIS and lv.args[1] in fields:
                    fr = {x.args[1] for x in subterms(e.rhs) if x.op == 'field' and x.args[0] is RHS}
                    got.setdefault(lv.args[1], []).append(fr or {None})
            elif e.kind == 'call' and e.recv is not None and e.recv.op == 'field' and e.recv.args[0] is THIS and \
                    e.recv.args[1] in fields:
                fr = set()
                for x in e.args:
                    fr |= {y.args[1] for y in subterms(x) if y.op == 'field' and y.args[0] is RHS}
                got.setdefault(e.recv.args[1], []).append(fr or {None})
            elif e.kind == 'call' and e.name in ('copy', 'copy_n', 'memcpy', 'swap', 'operator='):
                for x in e.args:
                    for y in subterms(x):
                        if y.op == 'field' and y.args[0] is THIS and y.args[1] in fields:
                            got.setdefault(y.args[1], []).append({y.args[1]})
        label = '%s%s' % (f.cls, '<%s>' % ','.join(c.targs) if c.targs else '')
        for nm, t in fields.items():
            if f.name == 'operator=' and ('const ' in t or scalar_shape(S, c, nm)):
                continue
            ptr = '*' in t or any(m.name == 'new_data' for k in S.classes
                                  if k.name == t.split('<')[0].strip() for m in k.methods)
            src_ = got.get(nm)
            con = '%s::%s %s' % (label, f.name, nm)
            seen += 1
            if not src_:
                ck.ob('cxx-copy', con, False, '%s is not taken over from the object copied' % nm, '%s:%s' % (f.fname, f.line))
                continue
            froms = set().union(*src_) - {None}
            own = ptr or t.strip() == 'bool'
            ok = nm in froms or (not froms and own)
            ck.ob('cxx-copy', con, ok, '%s is set from %s of the object copied' % (nm, '/'.join(sorted(froms)) or 'nothing'),
                  '%s:%s' % (f.fname, f.line))


def scalar_shape(S, c, nm):
    """fields an assignment between objects of one shape leaves alone: they are the same by its precondition"""
    asg = [m for m in S.functions if m.cls == c.name and m.name == 'operator=']
    ptrs = any('*' in t for t, _, _ in c.fields)
    for t, n, d in c.fields:
        if n == nm:
            return ptrs and '*' not in t and not any(k.name == t.split('<')[0].strip() for k in S.classes)
    return False


def same_spec(ty, c):
    if not c.targs or '<' not in ty:
        return True
    return [x.strip() for x in ty[ty.index('<') + 1:ty.rindex('>')].split(',')] == [x.strip() for x in c.targs]


def rhs_field(args, rhs, fields):
    out = set()
    from ..cxx import walk
    for a in args:
        for x in walk(a):
            if x.k == 'member' and x.a[0].k == 'name' and x.a[0].a[0] == rhs:
                out.add(x.a[1])
            elif x.k == 'call' and x.a[0].k == 'member' and x.a[0].a[0].k == 'name' and x.a[0].a[0].a[0] == rhs:
                nm = x.a[0].a[1]
                nm = nm[3:].lower() if nm.startswith('get') else nm
                for fl in fields:
                    if fl.strip('_').lower() == nm.lower():
                        out.add(fl)
    return out or {None}


def check(ck):
    ck.rule('copy-complete', 'every attribute an instance stores is present in its copy', 100)
    ck.rule('copy-own', 'arrays, containers changed in place and attached correlations of a copy are its own', 50)
    ck.rule('copy-alias', 'names that mean one array in the original mean one array in the copy', 1)
    ck.rule('copy-native', 'a copy does not share the compiled object bound to the arrays of the original', 4)
    ck.rule('copy-deep', 'the copy of a catalog shares no column with it', 1)
    ck.rule('state-own', 'pickling leaves the original as it is', 1)
    ck.rule('state-set', 'unpickling takes over every stored attribute', 1)
    ck.rule('state-complete', 'pickles leave out only what is rebuilt on demand or restored', 4)
    ck.rule('state-storable', 'pickles leave out what cannot be stored', 4)
    ck.rule('eq-same', 'equality compares each attribute with the same attribute of the other', 40)
    ck.rule('eq-cover', 'equality is false when one stored quantity differs', 30)
    ck.rule('cxx-copy', 'copying constructors and assignments take every field from the same field', 30)
    rep = repo()
    leaves = corr_leaves(rep)
    for cls in leaves:
        py_copy(ck, cls)
        py_state(ck, cls)
        acc = [a for a in accumulators(cls) if a is not None]
        alive, tots = live(cls, acc)
        need = {}
        three = any(c.name == 'Corr3' for c in cls.mro)
        bins = ('LogRUV', 'LogSAS', 'LogMultipole') if three else (None,)
        sums = added(cls)
        for a in list(alive) + sorted(t for t in tots if t in sums):
            need[a] = ONLY.get(a)
            if a == 'meanu':
                need[a] = ('LogRUV', 'LogSAS')
        py_eq(ck, cls, need, bins)
    cat = rep.cls('Catalog')
    cols = columns(cat)
    if len(cols) < 15:
        raise AnalysisBroken('only %d catalog columns found' % len(cols))
    py_eq(ck, cat, {c: None for c in cols}, (None,), opaque_props=True)
    py_state(ck, cat)
    fl = Flow(rep, maxdepth=2, prop_opaque=set(cls_props(cat)), opaque={'load'})
    r = fl.run_method(cat, 'copy')
    ck.saw_flow(fl)
    how = whole(r[0]) if r and r[0] is not None else None
    if how is not None:
        ck.ob('copy-deep', 'Catalog', how == 'deep', 'the copy shares the columns of the original', 'Catalog.copy')
    else:
        ck.ob('copy-deep', 'Catalog (undecided)', True)
    cxx(ck)
    ck.assumptions += ['every array attribute is created by numpy or handed to the compiled code',
                       'copy.deepcopy and pickle follow __getstate__/__setstate__ as documented']


def added(cls):
    fl = Flow(cls.repo, maxdepth=4)
    fl.run_method(cls, '__iadd__')
    return {e.attr for e in fl.events if e.kind == 'store' and e.obj is SELF}
