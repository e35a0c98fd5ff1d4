"""Ownership analysis of the Python half: which objects handed in by a caller does a function change.

For every function a summary is computed from its syntax tree by a forward, flow-sensitive pass:

 * `effects`: in-place changes (item stores, attribute stores, augmented assignments, mutating
   container and numpy calls, buffers the compiled layer writes to) of objects reachable from a
   parameter, as (parameter, access path, kind, site);
 * `stores`: attributes of self that may afterwards refer to an object of the caller;
 * `ret`: the parameters the result may refer to.

Calls inside the package are resolved through the class hierarchy and composed with the callee's
summary; recursion starts from the empty summary and is iterated to a fixed point.  A value is a pair
(what the object itself may be, what its items may be); fresh objects are empty.

Assumptions: a function of another package returns a fresh object and changes nothing, except for the
numpy, dict and list operations listed below; reading an attribute runs no user code."""
import ast
import collections

from .pyrepo import params_of, defaults_of

MAXPATH = 4

# calls whose result may be (a view of) their first argument
ALIAS_FN = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ascontiguousarray', 'asfortranarray',
            'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'moveaxis', 'broadcast_to', 'expand_dims', 'real',
            'imag', 'require', 'asfarray', 'diagonal', 'rollaxis', 'flip', 'fliplr', 'flipud', 'real_if_close',
            'nditer', 'array_split', 'split'}
ALIAS_METH = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', '__iter__', '__enter__'}
ALIAS_ATTR = {'T', 'real', 'imag', 'flat', 'data', 'mT', 'base'}
# fresh container holding the items of the argument
SHALLOW = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'OrderedDict', 'deque'}
PAIRS = {'zip', 'enumerate', 'product', 'combinations', 'chain'}
MUT_METH = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort',
            'reverse', 'fill', 'resize', 'put', 'partition', 'itemset', 'setfield', 'setflags', 'add', 'discard',
            'appendleft', 'popleft', '__setitem__', '__delitem__', '__iadd__', '__imul__', '__isub__',
            '__itruediv__'}
ELEM_METH = {'get', 'pop', 'setdefault', 'popitem', 'popleft'}
ALL_METH = {'values', 'items', 'keys'}
MUT_FN0 = {'copyto', 'put', 'place', 'putmask', 'shuffle', 'fill_diagonal', 'put_along_axis'}
ATTR_TYPES = {'patches': 'Catalog', '_patches': 'Catalog', 'file': 'File', '_file': 'File'}
IMMUTABLE_DOC = ('float', 'int', 'str', 'bool', 'double', 'long', 'number', 'string', 'tuple')


class V:
    __slots__ = ('o', 'e', 'n')

    def __init__(self, o=(), e=(), n=()):
        self.o = frozenset(o)       # what the object itself may be
        self.e = frozenset(e)       # what its items may be
        self.n = frozenset(n)       # what the items of its items may be

    def __or__(self, b):
        if b is None or b is self:
            return self
        return V(self.o | b.o, self.e | b.e, self.n | b.n)

    def __eq__(self, b):
        return isinstance(b, V) and self.o == b.o and self.e == b.e and self.n == b.n

    def __hash__(self):
        return hash((self.o, self.e, self.n))

    def __repr__(self):
        return 'V(%s|%s)' % (sorted(self.o), sorted(self.e))

    def ext(self, comp):
        return frozenset((r, _cut(p, comp)) for r, p in self.o)

    def attr(self, name):
        if name in ALIAS_ATTR:
            # a view of an array, or an attribute of that name of some object
            return V(self.o | self.ext('.' + name), self.e, self.n)
        return V(self.ext('.' + name))

    def items(self):
        """the value of an item (or the items of a view)"""
        return V(self.ext('[]') | self.e, self.n, self.n)

    def inner(self):
        return self.e | self.n

    def view(self):
        return self


FRESH = V()


def _cut(p, comp):
    if comp != '[]' and comp in p:
        return p[:p.index(comp) + 1]        # a recursive structure
    if len(p) >= MAXPATH:
        return p
    if comp == '[]' and p and p[-1] == '[]' and len(p) >= 2 and p[-2] == '[]':
        return p
    return p + (comp,)


class Summary:
    __slots__ = ('effects', 'stores', 'ret')

    def __init__(self):
        self.effects = {}       # (root, path, kind) -> (func, line, text)
        self.stores = {}        # attr of self -> V
        self.ret = FRESH

    def key(self):
        return (frozenset(self.effects), tuple(sorted(self.stores.items(), key=lambda k: k[0])), self.ret)


class Fn:
    def __init__(self, mod, cls, node, kind='method'):
        self.mod, self.cls, self.node, self.kind = mod, cls, node, kind
        self.name = node.name
        p, k, va, kw = params_of(node)
        self.vararg = va.arg if va is not None else None
        self.kwarg = kw.arg if kw is not None else None
        self.pos, self.kwonly = p, k
        static = cls is not None and node.name in cls.static
        classm = cls is not None and node.name in cls.classm
        self.selfname = p[0] if cls is not None and p and not static and not classm else None
        self.clsname = p[0] if classm and p else None
        self.params = [x for x in p if x not in (self.selfname, self.clsname)] + k
        self.argpos = [x for x in p if x not in (self.selfname, self.clsname)]
        self.doc = ast.get_docstring(node) or ''

    def doctype(self, param):
        import re
        if param == 'self' and self.cls is not None:
            return self.cls.name
        if re.match(r'cat(\d|_list|s)?$', param):
            return 'Catalog'
        d = self.doc
        if self.cls is not None and self.name == '__init__':
            d = d + (ast.get_docstring(self.cls.node) or '')
        m = re.search(r'^\s*%s\s*\(([A-Z]\w+)\)\s*:' % re.escape(param), d, re.M)
        return m.group(1) if m else None

    @property
    def qual(self):
        return '%s.%s' % (self.cls.qual if self.cls else self.mod.name, self.name)


class Own:
    def __init__(self, repo, written=None, quiet=()):
        """written(name, nargs) -> positions of the arguments a compiled callable writes to"""
        self.repo = repo
        self.written = written or (lambda name, nargs: ())
        self.quiet = set(quiet)
        self.fns = {}
        self.bymeth = {}
        self.byprop = {}
        self.unsettled = set()
        self.sums = {}
        self.props = {}
        self.calls_seen = 0
        for m in repo.modules.values():
            for n, f in m.funcs.items():
                self.fns[(m.name, None, n)] = Fn(m, None, f)
        for c in self.all_classes():
            for d, kind in ((c.methods, 'method'), (c.props, 'prop'), (c.setters, 'setter')):
                for n, f in d.items():
                    fn = Fn(c.mod, c, f, kind)
                    self.fns[(c.mod.name, c.qual, n + ('' if kind == 'method' else '@' + kind))] = fn
                    if kind == 'method':
                        self.bymeth.setdefault(n, []).append(fn)
                    elif kind == 'prop':
                        self.byprop.setdefault(n, []).append(fn)
        self.solve()

    def all_classes(self):
        out = []

        def add(c):
            out.append(c)
            for i in c.inner.values():
                add(i)
        for c in self.repo.classes.values():
            add(c)
        return out

    def solve(self):
        for k in self.fns:
            self.sums[k] = Summary()
        self.key_of = {id(f): k for k, f in self.fns.items()}
        # callers, for the worklist
        names = {}
        for k, f in self.fns.items():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    t = n.func
                    nm = t.id if isinstance(t, ast.Name) else (t.attr if isinstance(t, ast.Attribute) else None)
                    if nm:
                        names.setdefault(nm, set()).add(k)
        attrs = {}
        for k, f in self.fns.items():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr in self.byprop:
                    attrs.setdefault(n.attr, set()).add(k)
        order = {k: i for i, k in enumerate(sorted(self.fns, key=str))}
        work = collections.deque(sorted(self.fns, key=str))
        inq = set(work)
        rounds = {}
        while work:
            k = work.popleft()
            inq.discard(k)
            if rounds.get(k, 0) > 150:
                self.unsettled.add(k)
                continue
            rounds[k] = rounds.get(k, 0) + 1
            f = self.fns[k]
            s = Walk(self, f).run()
            old = self.sums[k]          # summaries only grow, so that the iteration ends
            for e, site in old.effects.items():
                s.effects[e] = site
            for a, v in old.stores.items():
                s.stores[a] = s.stores.get(a, FRESH) | v
            s.ret = s.ret | old.ret
            if s.key() != self.sums[k].key():
                self.sums[k] = s
                nm = f.name
                users = set(names.get(nm, ())) | (attrs.get(nm, set()) if f.kind == 'prop' else set())
                if nm == '__init__' and f.cls is not None:
                    for c in self.all_classes():
                        if f.cls in c.mro:
                            users |= names.get(c.name, set())
                    users |= names.get('__init__', set())
                for u in sorted(users, key=order.get):
                    if u not in inq:
                        inq.add(u)
                        work.append(u)

    # ------------------------------------------------------------ resolution
    def resolve(self, fn, call, recv_is_self, recv_obj, recv_types=None):
        """package functions a call may reach: list of (Fn, bound?, ctor?)"""
        t = call.func
        mod = fn.mod
        if isinstance(t, ast.Name):
            m, f = self.repo.resolve_func(mod, t.id)
            if f is not None:
                return [(self.fns[(m.name, None, f.name)], False, False)]
            c = self.repo.resolve_class(mod, t.id)
            if c is not None:
                return self.ctor(c)
            return []
        if isinstance(t, ast.Attribute):
            b = t.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and fn.cls:
                out = []
                for leaf in [fn.cls] + self.subs(fn.cls):
                    c, f = leaf.method(t.attr, after=fn.cls)
                    if f is not None:
                        k = (c.mod.name, c.qual, t.attr)
                        if k in self.fns and (self.fns[k], True, False) not in out:
                            out.append((self.fns[k], True, False))
                return out
            if isinstance(b, ast.Name):
                # module.function, Class.method
                im = mod.imports.get(b.id)
                if im is not None:
                    m, n, level = im
                    tgt = n if (level and m == '' and n in self.repo.modules) else None
                    if tgt:
                        mm = self.repo.modules[tgt]
                        if t.attr in mm.funcs:
                            return [(self.fns[(tgt, None, t.attr)], False, False)]
                        if t.attr in mm.classes:
                            return self.ctor(self.repo.classes[t.attr])
                        return []
                    if m == 'treecorr' or (level and n is None):
                        c = self.repo.classes.get(t.attr)
                        if c is not None:
                            return self.ctor(c)
                c = self.repo.resolve_class(mod, b.id)
                if c is not None:
                    cc, f = c.method(t.attr)
                    if f is not None:
                        g = self.fns[(cc.mod.name, cc.qual, t.attr)]
                        return [(g, g.selfname is None, False)]
                    return []
            if recv_is_self and fn.cls is not None:
                out = []
                for c in [fn.cls] + self.subs(fn.cls):
                    cc, f = c.method(t.attr)
                    if f is not None:
                        g = self.fns[(cc.mod.name, cc.qual, t.attr)]
                        if (g, True, False) not in out:
                            out.append((g, True, False))
                return out
            if t.attr == '__class__':
                return []
            if t.attr in MUT_METH | ELEM_METH | ALL_METH | {'copy'} and not recv_obj:
                return []           # a container operation
            cand = self.bymeth.get(t.attr, ())
            if recv_types:
                cand = [g for g in cand if any(g.cls.issub(x) or self.repo.cls(x).issub(g.cls.name)
                                               for x in recv_types if x in self.repo.classes)]
            return [(g, True, False) for g in cand]
        if isinstance(t, ast.Call):
            return []
        return []

    def propfns(self, name, types):
        out = []
        for g in self.byprop.get(name, ()):
            if types and not any(x in self.repo.classes and (g.cls.issub(x) or self.repo.cls(x).issub(g.cls.name))
                                 for x in types):
                continue
            out.append(g)
        return out

    def subs(self, c):
        return [d for d in self.all_classes() if c in d.mro and d is not c]

    def ctor(self, c):
        cc, f = c.method('__init__')
        if f is None:
            return []
        return [(self.fns[(cc.mod.name, cc.qual, '__init__')], True, True)]


class Walk:
    """One function."""

    def __init__(self, own, fn):
        self.own, self.fn = own, fn
        self.s = Summary()
        self.env = {}
        for p in fn.params:
            self.env[p] = V({(p, ())})
        if fn.vararg:
            self.env[fn.vararg] = V((), {('*' + fn.vararg, ())})
        if fn.kwarg:
            self.env[fn.kwarg] = V((), {('**' + fn.kwarg, ())})
        if fn.selfname:
            self.env[fn.selfname] = V({('self', ())})
        self.sa = {}            # attributes of self assigned so far
        self.restored = _restored(fn.node)

    def run(self):
        self.block(self.fn.node.body)
        for a, v in self.sa.items():
            self.keep(a, v)
        return self.s

    def keep(self, a, v):
        own = lambda s: {(r, p) for r, p in s if r != 'self' or p[:1] != ('.' + a,)}
        self.s.stores[a] = self.s.stores.get(a, FRESH) | V(own(v.o), own(v.e), own(v.n))

    # ------------------------------------------------------------ effects
    def effect(self, v, kind, node, site=None):
        for r, p in v.o:
            k = (r, p, kind)
            if k not in self.s.effects:
                self.s.effects[k] = site or (self.fn.qual, self.own.repo.where(self.fn.mod, node),
                                             ast.unparse(node)[:90] if node is not None else '')

    # ------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def snap(self):
        return dict(self.env), dict(self.sa)

    def merge(self, a, b):
        out = []
        for x, y in zip(a, b):
            d = dict(x)
            for k, v in y.items():
                d[k] = d[k] | v if k in d else v
            # an attribute assigned on one branch only keeps its entry value on the other
            out.append(d)
        # attributes of self assigned on one side only may still be the entry object
        env, sa = out
        for k in sa:
            if (k in a[1]) != (k in b[1]):
                sa[k] = sa[k] | V({('self', ('.' + k,))})
        return env, sa

    def branches(self, bodies, nones=((), ())):
        start = self.snap()
        res = None
        for b, nn in zip(bodies, nones):
            self.env, self.sa = dict(start[0]), dict(start[1])
            for x in nn:            # known to be None here: nothing of the caller
                if isinstance(x, ast.Name):
                    self.env[x.id] = FRESH
                elif isinstance(x, ast.Attribute) and self.is_self(x.value):
                    self.sa[x.attr] = FRESH
            self.block(b)
            if b and _leaves(b):
                continue
            cur = self.snap()
            res = cur if res is None else self.merge(res, cur)
        if res is None:
            res = start
        self.env, self.sa = res

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v, st)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st)
        elif isinstance(st, ast.AugAssign):
            self.aug(st)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.s.ret = self.s.ret | self.ev(st.value)
            # what self holds on this way out
            for a, v in self.sa.items():
                self.keep(a, v)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            self.branches([st.body, st.orelse], (_isnone(st.test, True), _isnone(st.test, False)))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter)
            for _ in range(2):
                start = self.snap()
                self.bindloop(st.target, st.iter, it, st)
                self.block(st.body)
                self.env, self.sa = self.merge(start, self.snap())
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            for _ in range(2):
                start = self.snap()
                self.ev(st.test)
                self.block(st.body)
                self.env, self.sa = self.merge(start, self.snap())
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            start = self.snap()
            self.block(st.body)
            after = self.snap()
            mid = self.merge(start, after)
            self.env, self.sa = dict(after[0]), dict(after[1])
            self.block(st.orelse)
            res = None if _leaves(st.body) or (st.orelse and _leaves(st.orelse)) else self.snap()
            for h in st.handlers:
                self.env, self.sa = dict(mid[0]), dict(mid[1])
                self.block(h.body)
                if not _leaves(h.body):
                    res = self.snap() if res is None else self.merge(res, self.snap())
            self.env, self.sa = res if res is not None else mid
            self.block(st.finalbody)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.effect(self.ev(t.value), 'item', st)
                elif isinstance(t, ast.Attribute):
                    self.effect(self.ev(t.value), 'attr:' + t.attr, st)
        elif isinstance(st, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(st):
                self.ev(c)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # a local helper: its body with free variables of this scope and fresh parameters
            self.env[st.name] = FRESH
            self.local = getattr(self, 'local', {})
            self.local[st.name] = st

    def bindloop(self, target, itnode, it, st):
        if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Name):
            f = itnode.func.id
            if f == 'enumerate' and isinstance(target, ast.Tuple) and len(target.elts) == 2 and itnode.args:
                self.assign(target.elts[0], FRESH, st)
                self.assign(target.elts[1], self.ev(itnode.args[0]).items(), st)
                return
            if f == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(itnode.args):
                for t, a in zip(target.elts, itnode.args):
                    self.assign(t, self.ev(a).items(), st)
                return
            if f == 'range':
                self.assign(target, FRESH, st)
                return
        if isinstance(itnode, ast.Call) and isinstance(itnode.func, ast.Attribute) and \
                itnode.func.attr in ('items',) and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            v = self.ev(itnode.func.value).items()
            self.assign(target.elts[0], FRESH, st)
            self.assign(target.elts[1], v, st)
            return
        self.assign(target, it.items(), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            val = getattr(st, 'value', None)
            if isinstance(st, ast.Assign) and isinstance(val, (ast.Tuple, ast.List)) and \
                    len(val.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in val.elts + t.elts):
                vs = [self.ev(x) for x in val.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, None)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v.items(), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if self.is_self(t.value):
                self.sa[t.attr] = v
            if not (isinstance(t.value, ast.Name) and (t.value.id, t.attr) in self.restored):
                self.effect(base, 'attr:' + t.attr, st or t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.effect(base, 'item', st or t)
            # what was stored can be reached through the container now
            self.absorb(t.value, v)

    def absorb(self, node, v):
        add = V((), v.o, v.inner())
        if isinstance(node, ast.Subscript):
            # an item of a container: one level further out
            node, add = node.value, V((), (), v.o | v.inner())
        if isinstance(node, ast.Name) and node.id in self.env:
            self.env[node.id] = self.env[node.id] | add
        elif isinstance(node, ast.Attribute) and self.is_self(node.value):
            self.sa[node.attr] = self.sa.get(node.attr, V({('self', ('.' + node.attr,))})) | add

    def aug(self, st):
        v = self.ev(st.value)
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.env.get(t.id, FRESH)
            if not self.immutable(t.id, cur) and not _textual(st.value):
                self.effect(cur, 'aug', st)
            self.env[t.id] = cur | (V((), v.items().o, v.n) if isinstance(st.op, ast.Add) else FRESH)
        elif isinstance(t, ast.Attribute):
            cur = self.ev(t)
            if not _textual(st.value):
                self.effect(cur, 'aug', st)
            base = self.ev(t.value)
            if not self.is_self(t.value):
                self.effect(base, 'attr:' + t.attr, st)
            else:
                self.effect(base, 'attr:' + t.attr, st)
                self.sa[t.attr] = cur
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.effect(base, 'item', st)
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                self.effect(base.items(), 'aug', st)

    def immutable(self, name, cur):
        """the name is a parameter documented as a number or a string, or defaulting to one"""
        for r, p in cur.o:
            if p or not self.immutable_param(r):
                return False
        return bool(cur.o)

    def immutable_param(self, r):
        d = defaults_of(self.fn.node).get(r)
        if isinstance(d, ast.Constant) and d.value is not None:
            return True
        if isinstance(d, ast.UnaryOp):
            return True
        import re
        m = re.search(r'^\s*%s\s*\(([^)]*)\)\s*:' % re.escape(r), self.fn.doc, re.M)
        if m:
            w = m.group(1).split()[0].strip(',:').lower() if m.group(1).split() else ''
            return w in IMMUTABLE_DOC
        return False

    def is_self(self, n):
        return isinstance(n, ast.Name) and self.fn.selfname is not None and \
            self.env.get(n.id) is not None and self.env[n.id].o == frozenset({('self', ())})

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if n is None:
            return FRESH
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is not None:
            return m(n)
        r = None
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def x_Name(self, n):
        return self.env.get(n.id, FRESH)

    def x_Constant(self, n):
        return FRESH

    def x_Attribute(self, n):
        base = self.ev(n.value)
        if self.is_self(n.value) and n.attr in self.sa:
            return self.sa[n.attr]
        v = FRESH
        found = self.own.propfns(n.attr, self.types(base)) if (base.o and not self.is_self(n.value)) else (
            self.own.propfns(n.attr, {self.fn.cls.name} if self.fn.cls else None) if self.is_self(n.value) else [])
        if not found or n.attr in ALIAS_ATTR:
            return base.attr(n.attr)
        for g in found:
            s = self.own.sums[self.own.key_of[id(g)]]
            for part, slot in ((s.ret.o, 'o'), (s.ret.e, 'e'), (s.ret.n, 'n')):
                for r, p in part:
                    if r == 'self':
                        x = self.walkpath(base, r, p, self.is_self(n.value))
                        v = v | (x if slot == 'o' else V((), x.o, x.inner()) if slot == 'e' else V((), (), x.o))
        return v

    def x_Subscript(self, n):
        base = self.ev(n.value)
        self.ev(n.slice)
        s = n.slice
        if isinstance(s, ast.Slice) or (isinstance(s, ast.Tuple) and
                                        any(isinstance(x, ast.Slice) or _newaxis(x) for x in s.elts)):
            return V(base.o, base.e, base.n)        # a view, or a copy holding the same items
        if isinstance(s, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp)) and not isinstance(s, ast.Constant):
            if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub):
                return base.items()
            return V()          # boolean mask or index array: a copy
        return base.items()

    def x_Starred(self, n):
        return self.ev(n.value)

    def _seq(self, elts):
        e, m = set(), set()
        for x in elts:
            v = self.ev(x)
            if isinstance(x, ast.Starred):
                v = v.items()
            e |= v.o
            m |= v.inner()
        return V((), e, m)

    def x_Tuple(self, n):
        return self._seq(n.elts)

    x_List = x_Tuple
    x_Set = x_Tuple

    def x_Dict(self, n):
        e, m = set(), set()
        for k, x in zip(n.keys, n.values):
            v = self.ev(x)
            if k is None:
                v = v.items()
            else:
                self.ev(k)
            e |= v.o
            m |= v.inner()
        return V((), e, m)

    def x_BoolOp(self, n):
        v = FRESH
        for x in n.values:
            v = v | self.ev(x)
        return v

    def x_IfExp(self, n):
        self.ev(n.test)
        v = FRESH
        for b, nn in ((n.body, _isnone(n.test, True)), (n.orelse, _isnone(n.test, False))):
            if not any(ast.dump(b) == ast.dump(x) for x in nn):
                v = v | self.ev(b)
        return v

    def x_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, None)
        return v

    def x_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, (ast.Add, ast.BitOr)):
            # list concatenation keeps the items of both; arithmetic is fresh
            return V((), a.items().o | b.items().o, a.n | b.n)
        if isinstance(n.op, ast.Mult):
            return V((), a.e | b.e, a.n | b.n)
        return FRESH

    def _comp(self, n, elt):
        saved = dict(self.env)
        for g in n.generators:
            self.bindloop(g.target, g.iter, self.ev(g.iter), None)
            for c in g.ifs:
                self.ev(c)
        v = self.ev(elt)
        self.env = saved
        return V((), v.o, v.inner())

    def x_ListComp(self, n):
        return self._comp(n, n.elt)

    x_SetComp = x_ListComp
    x_GeneratorExp = x_ListComp

    def x_DictComp(self, n):
        return self._comp(n, n.value)

    def x_Lambda(self, n):
        return FRESH

    def x_Await(self, n):
        return self.ev(n.value)

    def x_Call(self, n):
        own = self.own
        own.calls_seen += 1
        f = n.func
        recv = None
        recv_self = False
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value)
            recv_self = self.is_self(f.value)
        elif not isinstance(f, ast.Name):
            self.ev(f)
        args = [self.ev(a) for a in n.args]
        kws = [(k.arg, self.ev(k.value)) for k in n.keywords]
        name = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else None)
        for k, v in kws:
            if k == 'out':
                self.effect(v, 'item', n)
        if isinstance(f, ast.Name) and f.id in getattr(self, 'local', {}) and f.id not in ('self',):
            return self.call_local(self.local[f.id], args, kws, n)
        # a parameter, or an item of one, may be an object of the package; what an attribute holds is a
        # container unless its name says otherwise
        obj = recv is not None and all(all(c == '[]' for c in p) for r, p in recv.o | recv.e)
        tg = own.resolve(self.fn, n, recv_self, obj, self.types(recv))
        ext = self.external(n, f, name, recv, args, kws, bool(tg))
        if not tg:
            return ext
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            recv, recv_self = self.env.get(self.fn.selfname, FRESH), True
        out = None
        for g, bound, ctor in tg:
            v = self.compose(g, bound, ctor, recv, recv_self, args, kws, n)
            out = v if out is None else out | v
        generic = isinstance(f, ast.Attribute) and not recv_self and \
            not (isinstance(f.value, ast.Name) and f.value.id in self.fn.mod.imports)
        if generic and ext is not None:
            out = out | ext
        return out

    def types(self, v):
        """class names documented for everything the receiver may be, or None when one is not documented"""
        if v is None or not (v.o | v.e):
            return None
        out = set()
        for r, p in v.o | v.e:
            last = [c for c in p if c.startswith('.')]
            if last:
                c = ATTR_TYPES.get(last[-1][1:])
            else:
                c = self.fn.doctype(r)
            if c is None:
                return None
            out.add(c)
        return out

    def call_local(self, d, args, kws, n):
        if getattr(self, '_depth', 0) > 3:
            return FRESH
        self._depth = getattr(self, '_depth', 0) + 1
        saved = dict(self.env)
        p, k, va, kw = params_of(d)
        for x in p + k:
            self.env[x] = FRESH
        for x, v in zip(p, args):
            self.env[x] = v
        for kk, v in kws:
            if kk in p + k:
                self.env[kk] = v
        ret0 = self.s.ret
        self.s.ret = FRESH
        self.block(d.body)
        r = self.s.ret
        self.s.ret = ret0
        self.env = saved
        self._depth -= 1
        return r

    def compose(self, g, bound, ctor, recv, recv_self, args, kws, n):
        own = self.own
        s = own.sums[own.key_of[id(g)]]
        amap = {}
        names = list(g.argpos)
        actual = list(args)
        if not bound and g.selfname is not None and actual:
            recv = actual.pop(0)        # Class.method(obj, ...)
            recv_self = recv is not None and recv.o == frozenset({('self', ())})
        star = [i for i, a in enumerate(n.args) if isinstance(a, ast.Starred)]
        i = 0
        for j, v in enumerate(actual):
            if j in star:
                for x in names[i:]:
                    amap[x] = amap.get(x, FRESH) | v.items()
                i = len(names)
                if g.vararg:
                    amap['*' + g.vararg] = amap.get('*' + g.vararg, FRESH) | v.items()
                continue
            if i < len(names):
                amap[names[i]] = amap.get(names[i], FRESH) | v
                i += 1
            elif g.vararg:
                amap['*' + g.vararg] = amap.get('*' + g.vararg, FRESH) | v
        for k, v in kws:
            if k is None:
                vv = v.items()
                for x in g.params:
                    if x not in amap and not any(x == y for y, _ in kws):
                        amap[x] = V({(r, p[:-1] + ('[=%s]' % x,) if p and p[-1] == '[]' else _cut(p, '[=%s]' % x))
                                     for r, p in vv.o})
                if g.kwarg:
                    amap['**' + g.kwarg] = amap.get('**' + g.kwarg, FRESH) | vv
            elif k in g.params:
                amap[k] = amap.get(k, FRESH) | v
            elif g.kwarg:
                amap['**' + g.kwarg] = amap.get('**' + g.kwarg, FRESH) | v
        amap['self'] = FRESH if ctor else (recv if recv is not None else FRESH)
        quiet = g.qual in own.quiet and not recv_self

        def tr(origins):
            v = FRESH
            for r, p in origins:
                v = v | self.walkpath(amap.get(r, FRESH), r, p, recv_self and r == 'self')
            return v

        def trv(v):
            a, b, c = tr(v.o), tr(v.e), tr(v.n)
            return V(a.o, a.e | b.o, a.n | b.inner() | c.o | c.inner())
        for (r, p, kind), site in s.effects.items():
            if r == 'self' and quiet:
                continue
            if r == 'self' and ctor:
                continue
            v = self.walkpath(amap.get(r, FRESH), r, p, recv_self and r == 'self')
            self.effect(v, kind, n, site)
        res = trv(s.ret)
        if recv_self and not ctor:
            new = {}
            for a, v in s.stores.items():
                nv = trv(v)
                old = self.sa.get(a, V({('self', ('.' + a,))}))
                new[a] = old | nv
            self.sa.update(new)
        return res

    def walkpath(self, v, r, p, selfenv):
        comps = list(p)
        if selfenv and comps and comps[0].startswith('.') and comps[0][1:] in self.sa:
            v = self.sa[comps[0][1:]]
            comps = comps[1:]
        for c in comps:
            v = v.items() if c == '[]' else V(v.ext(c))
        return v

    def external(self, n, f, name, recv, args, kws, resolved):
        own = self.own
        mod = None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.fn.mod.imports \
                and f.value.id not in self.env:
            mod = f.value.id
        # compiled layer
        if name:
            for i in own.written(name, len(args)):
                if i < len(args) and (mod == '_treecorr' or (recv is not None and not resolved)):
                    self.effect(args[i], 'item', n)
        if isinstance(f, ast.Name) or mod is not None:
            a0 = args[0] if args else FRESH
            if isinstance(f, ast.Name) and f.id in SHALLOW:
                return V((), a0.items().o | frozenset(x for k, v in kws for x in v.o), a0.n)
            if isinstance(f, ast.Name) and f.id in PAIRS:
                return V((), (), frozenset(x for a in args for x in a.items().o))
            if isinstance(f, ast.Name) and f.id in ('getattr',) and len(n.args) >= 2:
                d = args[2] if len(args) > 2 else FRESH
                if isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                    return self.x_Attribute(ast.Attribute(n.args[0], n.args[1].value, ast.Load())) | d
                return V(a0.ext('.?')) | d
            if isinstance(f, ast.Name) and f.id in ('setattr', 'delattr') and len(n.args) >= 2:
                an = n.args[1].value if isinstance(n.args[1], ast.Constant) else '?'
                self.effect(a0, 'attr:%s' % an, n)
                if f.id == 'setattr' and self.is_self(n.args[0]) and len(args) > 2:
                    self.sa[str(an)] = self.sa.get(str(an), FRESH) | args[2]
                return FRESH
            if isinstance(f, ast.Name) and f.id in ('next', 'min', 'max'):
                return a0.items()
            if name in MUT_FN0:
                self.effect(a0, 'item', n)
                return FRESH
            if name in ALIAS_FN:
                return a0
            if name in ('array',):
                for k, v in zip(n.keywords, kws):
                    if k.arg == 'copy' and not (isinstance(k.value, ast.Constant) and k.value.value is True):
                        return a0
                return FRESH
            if name == 'copy' and mod == 'copy':
                return V((), a0.items().o, a0.n)
            return FRESH
        if isinstance(f, ast.Attribute):
            a = f.attr
            if a == 'at' and isinstance(f.value, ast.Attribute) and args:        # np.add.at
                self.effect(args[0], 'item', n)
                return FRESH
            if a in MUT_FN0 and args and not recv.o:       # rng.shuffle(x), np.random.shuffle(x)
                self.effect(args[0], 'item', n)
            elif a == 'shuffle' and args:
                self.effect(args[0], 'item', n)
            if isinstance(f.value, ast.Attribute) and f.value.attr == '__dict__' and a in ('pop', 'setdefault') \
                    and n.args and isinstance(n.args[0], ast.Constant):
                self.effect(self.ev(f.value.value), 'attr:%s' % n.args[0].value, n)
            elif a in MUT_METH:
                self.effect(recv, 'item', n)
            if a in MUT_METH:
                add = FRESH
                for x in list(args) + [v for k, v in kws]:
                    add = add | (x.items() if a in ('extend', 'update', '__iadd__') else x)
                if add.o or add.e or add.n:
                    self.absorb(f.value, add)
            if a == 'at':
                return FRESH
            if a == 'byteswap' and any(isinstance(x, ast.Constant) and x.value is True
                                       for x in list(n.args) + [k.value for k in n.keywords]):
                self.effect(recv, 'item', n)
            if a in ALIAS_METH:
                return recv
            if a == 'astype':
                for k in n.keywords:
                    if k.arg == 'copy' and not (isinstance(k.value, ast.Constant) and k.value.value is True):
                        return recv
                return FRESH
            if a in ELEM_METH:
                return recv.items() | (args[1] if len(args) > 1 else FRESH)
            if a in ALL_METH:
                return V((), recv.items().o, recv.n)
            if a == 'copy':
                return V((), recv.items().o, recv.n)
        return FRESH


def _restored(fn):
    """(name, attribute) pairs that the function saves first and puts back last"""
    saves, stores = {}, {}
    for n in ast.walk(fn):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if isinstance(t, ast.Name):
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                        saves.setdefault((x.value.id, x.attr), []).append((n.lineno, t.id))
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.setdefault((x.value.id, x.attr), []).append((n.lineno, n.value))
    # each run of stores that starts after a save must end with the saved value
    out = set()
    for k, sv in saves.items():
        st = sorted(stores.get(k, ()), key=lambda x: x[0])
        if not st:
            continue
        ok = True
        pend = None
        for ln, val in st:
            names = {x.id for x in ast.walk(val) if isinstance(x, ast.Name)}
            back = any(nm in names for l, nm in sv if l < ln)
            if back:
                pend = None
            else:
                ok = ok and any(l < ln for l, nm in sv)
                pend = ln
        if ok and pend is None:
            out.add(k)
    return out


def _textual(n):
    """the expression is a string"""
    if isinstance(n, ast.BinOp):
        return _textual(n.left) or _textual(n.right)
    if isinstance(n, ast.Call):
        return (isinstance(n.func, ast.Name) and n.func.id in ('str', 'repr')) or \
            (isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join') and _textual(n.func.value))
    return isinstance(n, ast.JoinedStr) or (isinstance(n, ast.Constant) and isinstance(n.value, str))


def _isnone(test, sense):
    """expressions that are None when the test has the given value"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return _isnone(test.operand, not sense)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == sense:
            return [x for v in test.values for x in _isnone(v, sense)]
        return []
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and \
            test.comparators[0].value is None:
        if isinstance(test.ops[0], (ast.Is, ast.Eq)) == sense and \
                isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            return [test.left]
    return []


def _newaxis(x):
    return (isinstance(x, ast.Constant) and x.value in (None, Ellipsis)) or \
        (isinstance(x, ast.Attribute) and x.attr == 'newaxis')


def _leaves(body):
    """the block always leaves by return, raise, break or continue at its end (return and raise only:
    break and continue carry their state to the end of the loop)"""
    last = body[-1] if body else None
    if isinstance(last, (ast.Return, ast.Raise)):
        return True
    if isinstance(last, ast.If) and last.orelse:
        return _leaves(last.body) and _leaves(last.orelse)
    return False
