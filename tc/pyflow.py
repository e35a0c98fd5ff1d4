"""Flow-sensitive abstract interpreter over the Python source, with a value-numbering domain.

Every expression is mapped to a hash-consed *term* (a value number): constants, parameters,
attribute reads of the entry heap, operator applications, and phi terms where control flow
joins.  Locals, `self` attributes and attributes of locally created objects are tracked
through assignments, in-place numpy updates, helper calls (inlined through the resolved class
hierarchy), literal loops and early returns.  States are joined at every merge point; nothing
is executed and no path is enumerated or handed to a solver.

Assumptions (stated in DESIGN.md): a call that is not resolved inside the package does not
assign attributes of the objects under analysis, other than through the numpy out= idiom.
"""
import ast

from .pyrepo import params_of, defaults_of

_intern = {}


class T:
    __slots__ = ('op', 'args', '_h', '_s')

    def __new__(cls, op, *args):
        key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args)
        t = _intern.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            t._s = None
            _intern[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    # convenience
    @property
    def is_const(self):
        return self.op == 'const'

    @property
    def value(self):
        return self.args[0]


def C(v):
    return T('const', v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ABSENT = T('absent')


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if t._s is not None:
        return t._s
    if d > 14:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == 'const':
        r = repr(a[0])
    elif o in ('param', 'global', 'bv'):
        r = str(a[0])
    elif o == 'attr':
        r = '%s.%s' % (s(a[0]), a[1])
    elif o == 'idx':
        r = '%s[%s]' % (s(a[0]), s(a[1]))
    elif o == 'call':
        r = '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    elif o == 'bin':
        r = '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    elif o == 'cmp':
        r = '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    elif o == 'phi':
        r = 'phi(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    elif o in ('tuple', 'list', 'set'):
        r = o + '(' + ', '.join(s(x) for x in a[0]) + ')'
    else:
        r = '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else
                                     ('[%s]' % ', '.join(s(y) for y in x) if isinstance(x, tuple) else str(x))
                                     for x in a))
    if len(r) > 600:
        r = r[:600] + '...'
    if d == 0:
        t._s = r
    return r


def subterms(t, seen=None):
    """All distinct subterms (iterative)."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(a for a in x.args if isinstance(a, (T, tuple)))


def subst(t, mp, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, mp, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in mp:
        return mp[t]
    if t in memo:
        return memo[t]
    r = T(t.op, *[subst(a, mp, memo) if isinstance(a, (T, tuple)) else a for a in t.args])
    memo[t] = r
    return r


def phi_leaves(t):
    if t.op == 'phi':
        return phi_leaves(t.args[1]) | phi_leaves(t.args[2])
    return {t}


class Event:
    __slots__ = ('kind', 'data', 'guards', 'node', 'mod', 'depth', 'fn', 'loops', 'comps')

    def __init__(self, kind, data, guards, node, mod, depth, fn, loops, comps=()):
        self.kind, self.data, self.guards, self.node = kind, data, guards, node
        self.mod, self.depth, self.fn, self.loops = mod, depth, fn, loops
        self.comps = comps          # bound variables of the comprehensions the event is inside of

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        return 'treecorr/%s.py:%d (%s)' % (self.mod.name, getattr(self.node, 'lineno', 0), self.fn)

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.data, self.where)


class State:
    __slots__ = ('env', 'org', 'heap', 'assume', 'guards')

    def __init__(self):
        self.env = {}
        self.org = {}
        self.heap = {}
        self.assume = {}
        self.guards = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.org = dict(self.org)
        s.heap = dict(self.heap)
        s.assume = dict(self.assume)
        s.guards = self.guards
        return s


class Frame:
    def __init__(self, mod, fn, cls, selfterm, dcls):
        self.mod, self.fn, self.cls, self.selfterm, self.dcls = mod, fn, cls, selfterm, dcls
        self.exits = []         # (kind, value, state)
        self.loops = []         # loop frames: dict(brk=[], cont=[])
        self.parent_env = None


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Closure:
    def __init__(self, node, env, org, frame):
        self.node, self.env, self.org, self.frame = node, env, org, frame


SAFE_VIEW = ('ravel', 'reshape', 'view', 'flatten_view')


class Flow:
    def __init__(self, repo, opaque=(), maxdepth=7, types=None, lazy_opaque=True, call_hook=None,
                 prop_opaque=(), field_types=None, loop_paths=False):
        self.repo = repo
        self.opaque = set(opaque)
        self.maxdepth = maxdepth
        self.types = dict(types or {})      # term -> Cls
        self.events = []
        self.closures = {}
        self.stack = []
        self.loops = ()
        self.comps = ()
        self.lazy_opaque = lazy_opaque
        self.call_hook = call_hook
        self.loop_paths = loop_paths        # keep apart the ways one iteration of a loop can end
        self.prop_opaque = set(prop_opaque)
        self.field_types = field_types or {}
        self.nfuncs = set()
        self.bvlevel = 0

    # ------------------------------------------------------------------ entry points
    def run_method(self, cls, name, args=None, kind='methods', state=None, selfterm=None):
        dcls, fn = cls.find(name, kind)
        if fn is None:
            return None
        st = state or State()
        selfterm = selfterm or T('param', 'self')
        self.types[selfterm] = cls
        return self.run_fn(dcls.mod, fn, args, cls, dcls, selfterm, st)

    def run_function(self, modname, name, args=None, state=None):
        m = self.repo.mod(modname)
        fn = m.funcs.get(name)
        if fn is None:
            return None
        return self.run_fn(m, fn, args, None, None, None, state or State())

    def run_fn(self, mod, fn, args, cls, dcls, selfterm, st):
        """Analyse fn with given parameter bindings; returns (value, state) joined over the
        normal exits (None if every path raises)."""
        args = args or {}
        pos, kwo, va, kw = params_of(fn)
        env = {}
        pp = list(pos)
        static = dcls is not None and fn.name in dcls.static
        if selfterm is not None and pp and not static:
            env[pp[0]] = selfterm
            pp = pp[1:]
        for p in pp + kwo:
            env[p] = args[p] if p in args else T('param', p)
        if va:
            env[va.arg] = T('param', va.arg)
        if kw:
            env[kw.arg] = T('param', kw.arg)
        return self._call_body(mod, fn, env, {}, cls, dcls, selfterm, st)

    def _call_body(self, mod, fn, env, org, cls, dcls, selfterm, st, closure=None):
        frame = Frame(mod, fn, cls, selfterm, dcls)
        frame.closure = closure
        key = (id(fn), selfterm)
        self.stack.append((key, frame))
        self.nfuncs.add((mod.name, getattr(fn, 'name', '<lambda>'), dcls.name if dcls else None))
        inner = State()
        inner.env = env
        inner.org = org
        inner.heap = st.heap
        inner.assume = dict(st.assume)
        inner.guards = st.guards
        inner = inner.copy()
        if isinstance(fn, ast.Lambda):
            v = self.eval(fn.body, inner)
            frame.exits.append(('return', v, inner))
        else:
            s = self.block(fn.body, inner)
            if s is not None:
                frame.exits.append(('return', NONE, s))
        self.stack.pop()
        rets = [(v, s) for k, v, s in frame.exits if k == 'return']
        if not rets:
            return None
        v, s = rets[-1]
        n0 = len(st.guards)
        for v2, s2 in reversed(rets[:-1]):
            cond = self._conj(s2.guards[n0:], s.guards[n0:])
            v = self.phi(cond, v2, v)
            s = self._join(cond, s2, s)
        out = st.copy()
        out.heap = s.heap
        if len(rets) == 1:
            # facts established on the only normal exit hold afterwards
            out.assume = dict(s.assume)
            out.guards = s.guards if len(s.guards) >= n0 else st.guards
        # origin: a helper that returns a plain attribute load
        return v, out

    def _conj(self, guards, other=()):
        """Condition selecting the first set of guards (drop the common prefix)."""
        i = 0
        while i < len(guards) and i < len(other) and guards[i] == other[i]:
            i += 1
        gs = guards[i:]
        if not gs:
            return T('unk', uid())
        terms = []
        for c, v in gs:
            terms.append(c if v else self.neg(c))
        if len(terms) == 1:
            return terms[0]
        return T('and', tuple(terms))

    # ------------------------------------------------------------------ conditions
    def neg(self, c):
        if c.op == 'not':
            return c.args[0]
        if c.is_const:
            return C(not c.value)
        return T('not', c)

    def truth(self, c, st):
        if c.is_const:
            try:
                return bool(c.value)
            except Exception:
                return None
        if c in st.assume:
            return st.assume[c]
        if c.op == 'not':
            r = self.truth(c.args[0], st)
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.truth(x, st) for x in c.args[0]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == 'or':
            rs = [self.truth(x, st) for x in c.args[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op in ('list', 'tuple', 'set'):
            return len(c.args[0]) > 0
        if c.op in ('obj', 'closure'):
            return True
        if c.op == 'cmp' and c.args[0] in ('is', '==') and c.args[2] is NONE:
            x = c.args[1]
            if self._notnone(x, st):
                return False
        if c.op == 'phi':
            k = self.truth(c.args[0], st)
            if k is not None:
                return self.truth(c.args[1] if k else c.args[2], st)
            a, b = self.truth(c.args[1], st), self.truth(c.args[2], st)
            if a is not None and a == b:
                return a
        if st.assume.get(T('cmp', 'is', c, NONE)) is True:
            return False
        return None

    def _notnone(self, x, st):
        if x.is_const:
            return x.value is not None
        if x.op in ('list', 'tuple', 'dict', 'set', 'obj', 'closure', 'bin', 'upd', 'comp', 'fill', 'fstr',
                    'cmp', 'not'):
            return True
        if x.op == 'phi':
            k = self.truth(x.args[0], st)
            if k is not None:
                return self._notnone(x.args[1] if k else x.args[2], st)
            return self._notnone(x.args[1], st) and self._notnone(x.args[2], st)
        if st.assume.get(x) is True:
            return True
        if st.assume.get(T('cmp', 'is', x, NONE)) is False:
            return True
        if x in self.types:
            return True
        return False

    def add_assume(self, c, v, st):
        st.assume[c] = v
        if c.op == 'not':
            self.add_assume(c.args[0], not v, st)
        elif c.op == 'and' and v:
            for x in c.args[0]:
                self.add_assume(x, True, st)
        elif c.op == 'or' and not v:
            for x in c.args[0]:
                self.add_assume(x, False, st)
        elif c.op == 'and' and not v:
            rest = [x for x in c.args[0] if self.truth(x, st) is not True]
            if len(rest) == 1:
                self.add_assume(rest[0], False, st)
        elif c.op == 'or' and v:
            rest = [x for x in c.args[0] if self.truth(x, st) is not False]
            if len(rest) == 1:
                self.add_assume(rest[0], True, st)

    def simp(self, t, st, _d=0):
        """Resolve top-level phis under the current assumptions."""
        while t.op == 'phi':
            k = self.truth(t.args[0], st)
            if k is None:
                if _d > 6:
                    return t
                a = self.simp(t.args[1], st, _d + 1)
                b = self.simp(t.args[2], st, _d + 1)
                return self.phi(t.args[0], a, b)
            t = t.args[1] if k else t.args[2]
        return t

    def phi(self, c, a, b):
        if a is b:
            return a
        if c.is_const:
            return a if c.value else b
        if c.op == 'not':
            c, a, b = c.args[0], b, a
        if a is TRUE and b is FALSE and c.op in ('cmp', 'and', 'or'):
            return c
        if a is FALSE and b is TRUE and c.op in ('cmp', 'and', 'or'):
            return self.neg(c)
        if a.op == 'phi' and a.args[0] is c:
            a = a.args[1]
        if b.op == 'phi' and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        return T('phi', c, a, b)

    def _join(self, cond, a, b):
        out = State()
        out.guards = a.guards[:self._common(a.guards, b.guards)]
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k, ABSENT), b.env.get(k, ABSENT)
            out.env[k] = self.phi(cond, va, vb)
            oa, ob = a.org.get(k), b.org.get(k)
            if oa is not None and oa == ob:
                out.org[k] = oa
        for k in set(a.heap) | set(b.heap):
            ini = T('attr', k[0], k[1])
            out.heap[k] = self.phi(cond, a.heap.get(k, ini), b.heap.get(k, ini))
        for k, v in a.assume.items():
            if b.assume.get(k) is v:
                out.assume[k] = v
        return out

    @staticmethod
    def _common(a, b):
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        return i

    # ------------------------------------------------------------------ events
    def ev(self, kind, st, node, **data):
        fr = self.stack[-1][1] if self.stack else None
        fnn = getattr(fr.fn, 'name', '<lambda>') if fr else ''
        if fr and fr.dcls:
            fnn = fr.dcls.name + '.' + fnn
        e = Event(kind, data, st.guards, node, fr.mod if fr else None, len(self.stack), fnn, self.loops, self.comps)
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @property
    def frame(self):
        return self.stack[-1][1]

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return st
        return m(n, st)

    def s_Pass(self, n, st):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, n, st):
        self.eval(n.value, st)
        return st

    def s_Assert(self, n, st):
        c = self.cond(n.test, st)
        if self.truth(c, st) is False:
            return None
        self.add_assume(c, True, st)
        return st

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value else NONE
        v = self.simp(v, st)
        self.ev('return', st, n, value=v)
        self.frame.exits.append(('return', v, st))
        return None

    def s_Raise(self, n, st):
        v = self.eval(n.exc, st) if n.exc else NONE
        self.ev('raise', st, n, value=v)
        self.frame.exits.append(('raise', v, st))
        return None

    def s_Break(self, n, st):
        if self.frame.loops:
            self.frame.loops[-1]['brk'].append(st)
        return None

    def s_Continue(self, n, st):
        if self.frame.loops:
            self.frame.loops[-1]['cont'].append(st)
        return None

    def s_FunctionDef(self, n, st):
        st.env[n.name] = self.closure(n, st)
        return st

    def closure(self, n, st):
        cid = uid()
        t = T('closure', cid)
        self.closures[cid] = Closure(n, st, None, self.frame)
        return t

    def s_If(self, n, st):
        c = self.cond(n.test, st)
        k = self.truth(c, st)
        if k is True:
            return self.block(n.body, st)
        if k is False:
            return self.block(n.orelse, st)
        a, b = st.copy(), st.copy()
        self.add_assume(c, True, a)
        self.add_assume(c, False, b)
        a.guards = st.guards + ((c, True),)
        b.guards = st.guards + ((c, False),)
        a = self.block(n.body, a)
        b = self.block(n.orelse, b)
        if a is None:
            return b
        if b is None:
            return a
        return self._join(c, a, b)

    def _names_assigned(self, stmts):
        out = set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
        return out

    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        it = self.simp(it, st)
        items = self.literal_items(it)
        if items is not None and len(items) <= 40:
            for x in items:
                fr = {'brk': [], 'cont': []}
                self.frame.loops.append(fr)
                self.assign(n.target, x, st, n)
                s2 = self.block(n.body, st)
                self.frame.loops.pop()
                for c in fr['cont']:
                    s2 = c if s2 is None else self._join(self._conj(c.guards, s2.guards), c, s2)
                if fr['brk']:
                    b = fr['brk'][0]
                    for c in fr['brk'][1:]:
                        b = self._join(self._conj(c.guards, b.guards), c, b)
                    if s2 is not None:
                        # may continue or break; approximate: join and continue
                        s2 = self._join(self._conj(b.guards, s2.guards), b, s2)
                    else:
                        st = b
                        break
                if s2 is None:
                    return None
                st = s2
            if n.orelse:
                st = self.block(n.orelse, st)
            return st
        return self._loop(n, st, it, n.target, n.body, n.orelse)

    def s_While(self, n, st):
        return self._loop(n, st, None, None, n.body, n.orelse, test=n.test)

    @staticmethod
    def _only_aug(body, nm):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Load):
                    if not any(isinstance(y, ast.AugAssign) and y.target is x for b in body for y in ast.walk(b)):
                        return False
        return True

    def _loop(self, n, st, it, target, body, orelse, test=None):
        lid = uid()
        pre = st.copy()
        inner = st.copy()
        assigned = self._names_assigned(body)
        for nm in assigned:
            if nm in inner.env:
                if inner.env[nm] in self.types and self._only_aug(body, nm):
                    continue                # x += y on an object changes it in place
                inner.env[nm] = T('loopv', lid, nm, inner.env[nm])
                inner.org.pop(nm, None)
        g = T('loop', lid, it if it is not None else T('while', lid))
        inner.guards = st.guards + ((g, True),)
        old = self.loops
        self.loops = self.loops + ((lid, it),)
        if target is not None:
            self.assign(target, T('elem', lid, it), inner, n)
        if test is not None:
            c = self.cond(test, inner)
            self.add_assume(c, True, inner)
        fr = {'brk': [], 'cont': []}
        self.frame.loops.append(fr)
        s2 = self.block(body, inner)
        self.frame.loops.pop()
        self.loops = old
        outs = ([s2] if s2 is not None else []) + fr['cont'] + fr['brk']
        res = pre
        if outs and not self.loop_paths:
            for o in outs:
                res = self._join(g, o, res)
        elif outs:
            # one iteration: its different endings, told apart by what was tested on the way
            n0 = len(inner.guards)
            one = outs[-1]
            for o in reversed(outs[:-1]):
                one = self._join(self._conj(o.guards[n0:], one.guards[n0:]), o, one)
            # facts assumed inside the loop do not survive it
            res = self._join(g, one, res)
        res.guards = st.guards
        res.assume = dict(pre.assume)
        if orelse:
            res = self.block(orelse, res)
        return res

    def s_With(self, n, st):
        for item in n.items:
            v = self.eval(item.context_expr, st)
            self.ev('with_enter', st, n, ctx=v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, T('enter', v), st, n)
                if v in self.types:
                    self.types[T('enter', v)] = self.types[v]
        s2 = self.block(n.body, st)
        self.ev('with_exit', s2 if s2 is not None else st, n)
        return s2

    def s_Try(self, n, st):
        pre = st.copy()
        self.ev('try_enter', st, n)
        body = self.block(n.body, st)
        if body is not None and n.orelse:
            body = self.block(n.orelse, body)
        outs = [body] if body is not None else []
        for h in n.handlers:
            s = pre.copy()
            x = T('exc', uid())
            s.guards = s.guards + ((x, True),)
            if h.name:
                s.env[h.name] = x
            r = self.block(h.body, s)
            if r is not None:
                outs.append(r)
        if not outs:
            if n.finalbody:
                self.block(n.finalbody, pre)
            return None
        res = outs[0]
        for o in outs[1:]:
            res = self._join(self._conj(o.guards, res.guards), o, res)
        if n.finalbody:
            res = self.block(n.finalbody, res)
        return res

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.store(o, t.attr, ABSENT, st, n)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                if o.op == 'attr' and o.args[1] == '__dict__' and k.is_const:
                    self.store(o.args[0], k.value, ABSENT, st, n)
                else:
                    self.ev('delitem', st, n, recv=o, key=k)
        return st

    def s_Assign(self, n, st):
        v, o = self.eval_o(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n, o)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            v, o = self.eval_o(n.value, st)
            self.assign(n.target, v, st, n, o)
        return st

    def s_AugAssign(self, n, st):
        op = type(n.op).__name__
        t = n.target
        rhs = self.eval(n.value, st)
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(id=t.id, ctx=ast.Load()), st)
            cl = self.types.get(cur)
            if cl is not None and cl.method('__i%s__' % op.lower())[1] is not None:
                v = self.method_call(cur, '__i%s__' % op.lower(), [rhs], {}, st, n)
                st.env[t.id] = v if v is not None and v.op != 'call' else cur
                return st
            v = self.binop(op, cur, rhs, st)
            st.env[t.id] = v
            o = st.org.get(t.id)
            if o is not None:
                self.store(o[0], o[1], v, st, n, inplace=True)
            return st
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.load(o, t.attr, st, n)
            v = self.binop(op, cur, rhs, st)
            self.store(o, t.attr, v, st, n, aug=op, rhs=rhs)
            return st
        if isinstance(t, ast.Subscript):
            cur = self.eval(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), st)
            cl = self.types.get(cur) or self.type_of_item(cur)
            if cl is not None and cl.method('__i%s__' % op.lower())[1] is not None:
                self.ev('call', st, n, fn=T('attr', cur, '__i%s__' % op.lower()),
                        name='__i%s__' % op.lower(), recv=cur, args=[rhs], kw={})
                return st
            self.subscript_store(t, rhs, st, n, op)
            return st
        return st

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, node, origin=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            if origin is not None:
                st.org[t.id] = origin
            else:
                st.org.pop(t.id, None)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.store(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.subscript_store(t, v, st, node, '=')
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.literal_items(v)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T('star', v, i), st, node)
                elif items is not None and i < len(items):
                    self.assign(e, items[i], st, node)
                else:
                    self.assign(e, self.index(v, C(i), st), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def store(self, o, attr, v, st, node, **kw):
        o = self.simp(o, st)
        if o.op == 'phi':
            # weak update of both candidates
            for leaf in phi_leaves(o):
                if leaf.op == 'const':
                    continue
                old = st.heap.get((leaf, attr), T('attr', leaf, attr))
                st.heap[(leaf, attr)] = self.phi(T('cmp', 'is', o, leaf), v, old)
                self.ev('store', st, node, obj=leaf, attr=attr, value=v, weak=True, **kw)
            return
        if o.op == 'attr' and o.args[1] == '__class__':
            pass
        cl = self.types.get(o)
        if cl is not None:
            dc, setter = cl.find(attr, 'setters')
            if setter is not None and len(self.stack) < self.maxdepth:
                p = params_of(setter)[0]
                r = self.run_fn(dc.mod, setter, {p[1]: v}, cl, dc, o, st)
                if r is not None:
                    st.heap = r[1].heap
                return
        st.heap[(o, attr)] = v
        self.ev('store', st, node, obj=o, attr=attr, value=v, weak=False, **kw)

    def view_base(self, n):
        """x.ravel()[...], x.T[...] -> x node."""
        while True:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in SAFE_VIEW:
                n = n.func.value
            elif isinstance(n, ast.Attribute) and n.attr in ('T', 'flat'):
                n = n.value
            else:
                return n

    def subscript_store(self, t, v, st, node, op):
        self.item_store(t.value, self.eval(t.slice, st), v, st, node, op)

    def item_store(self, value, key, v, st, node, op):
        base = self.view_base(value)
        o = self.eval(base, st)
        if o.op == 'attr' and o.args[1] == '__dict__' and key.is_const and isinstance(key.value, str):
            self.store(o.args[0], key.value, v, st, node)
            return
        cell = None
        name = None
        if isinstance(base, ast.Attribute):
            cell = self.eval_o(ast.copy_location(ast.Attribute(base.value, base.attr, ast.Load()), base), st)[1] or \
                (self.eval(base.value, st), base.attr)
        elif isinstance(base, ast.Name):
            cell = st.org.get(base.id)
            name = base.id
        elif isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'getattr':
            a = self.eval(base.args[1], st)
            if a.is_const:
                cell = (self.eval(base.args[0], st), a.value)
        if self.is_full(key):
            if op == '=':
                nv = T('fill', v)
            else:
                nv = self.binop(op, o, v, st)
        else:
            nv = T('upd', o, key, op, v)
        self.ev('setitem', st, node, recv=o, key=key, op=op, value=v, cell=cell, var=name)
        if cell is None and name is not None:
            cell = self.cell_of(o, st)
        if cell is not None:
            self.store(cell[0], cell[1], nv, st, node, inplace=True, aug=op, rhs=v)
        if name is not None:
            st.env[name] = nv

    @staticmethod
    def cell_of(v, st):
        """the heap cell whose array is v: v is derived from the entry value of that cell by in-place updates only"""
        roots, work = set(), [v]
        while work:
            x = work.pop()
            if x.op == 'upd':
                work.append(x.args[0])
            elif x.op == 'phi':
                work += [x.args[1], x.args[2]]
            else:
                roots.add(x)
        if len(roots) != 1:
            return None
        r = roots.pop()
        if r.op != 'attr' or st.heap.get((r.args[0], r.args[1]), r) is not v:
            return None
        return (r.args[0], r.args[1])

    @staticmethod
    def is_full(key):
        if key.op == 'slice' and all(x is NONE for x in key.args):
            return True
        if key.is_const and key.value is Ellipsis:
            return True
        if key.op == 'tuple' and key.args[0] and all(Flow.is_full(x) for x in key.args[0]):
            return True
        return False

    # ------------------------------------------------------------------ heap
    def load(self, o, attr, st, node=None):
        o = self.simp(o, st)
        if (o, attr) in st.heap:
            return self.simp(st.heap[(o, attr)], st)
        if o.op == 'phi':
            leaves = phi_leaves(o)
            if any((l, attr) in st.heap for l in leaves):
                return self.phi(o.args[0], self.load(o.args[1], attr, st, node),
                                self.load(o.args[2], attr, st, node))
        if o.op == 'obj' or o in self.types:
            cl = self.types.get(o)
            if cl is not None:
                dc, p = cl.prop(attr)
                if p is not None and attr not in self.prop_opaque and \
                        not (self.lazy_opaque and attr in dc.lazy):
                    r = self.inline_prop(dc, p, cl, o, st)
                    if r is not None:
                        return r
                dc, a = cl.attr(attr)
                if a is not None:
                    if isinstance(a, ast.Constant):
                        return C(a.value)
                    if isinstance(a, (ast.Lambda,)):
                        return T('attr', o, attr)
                    try:
                        return C(ast.literal_eval(a))
                    except Exception:
                        pass
        return T('attr', o, attr)

    def inline_prop(self, dc, fn, cl, o, st):
        if len(self.stack) >= self.maxdepth or any(k[0] == id(fn) for k, _ in self.stack):
            return None
        r = self.run_fn(dc.mod, fn, {}, cl, dc, o, st)
        if r is None:
            return None
        st.heap = r[1].heap
        return r[0]

    # ------------------------------------------------------------------ expressions
    def eval_o(self, n, st):
        """Evaluate; also return the heap cell a plain attribute load came from."""
        v = self.eval(n, st)
        o = None
        b = n
        if isinstance(b, ast.Attribute) and isinstance(b.ctx, ast.Load):
            base = self.eval(b.value, st)
            cl = self.types.get(base)
            if cl is None or cl.prop(b.attr)[1] is None:
                o = (base, b.attr)
            else:
                # property that is itself a plain load of an attribute
                fn = cl.prop(b.attr)[1]
                body = [s for s in fn.body if not isinstance(s, (ast.Assert, ast.Pass)) and
                        not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute):
                    chain, x = [], body[0].value
                    while isinstance(x, ast.Attribute):
                        chain.append(x.attr)
                        x = x.value
                    if isinstance(x, ast.Name) and x.id == 'self':
                        ob = base
                        for nm in reversed(chain[1:]):
                            ob = self.load(ob, nm, st, n)
                        o = (ob, chain[0])
        elif isinstance(b, ast.Name):
            o = st.org.get(b.id)
        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'getattr' and len(b.args) >= 2:
            a = self.eval(b.args[1], st)
            if a.is_const and isinstance(a.value, str):
                o = (self.eval(b.args[0], st), a.value)
        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ('ravel', 'view'):
            o = self.eval_o(b.func.value, st)[1]
        return v, o

    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return T('unk', uid())
        return m(n, st)

    def cond(self, n, st):
        c = self.eval(n, st)
        return self.simp(c, st)

    def e_Constant(self, n, st):
        return C(n.value)

    def e_Name(self, n, st):
        if n.id in st.env:
            return self.simp(st.env[n.id], st)
        if n.id in ('True', 'False', 'None'):
            return C({'True': True, 'False': False, 'None': None}[n.id])
        fr = self.frame
        # module constant
        g = fr.mod.globals.get(n.id)
        if isinstance(g, ast.Constant):
            return C(g.value)
        if g is not None:
            try:
                return self.lift(ast.literal_eval(g))
            except Exception:
                pass
        return T('global', n.id)

    def lift(self, v):
        if isinstance(v, (list,)):
            return T('list', tuple(self.lift(x) for x in v))
        if isinstance(v, tuple):
            return T('tuple', tuple(self.lift(x) for x in v))
        if isinstance(v, dict):
            return T('dict', tuple((self.lift(k), self.lift(x)) for k, x in v.items()))
        if isinstance(v, set):
            return T('set', tuple(self.lift(x) for x in sorted(v, key=repr)))
        return C(v)

    def e_Attribute(self, n, st):
        b = n.value
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and \
                n.attr not in self.prop_opaque:
            v = self.super_prop(n.attr, st)
            if v is not None:
                return v
        o = self.eval(n.value, st)
        return self.load(o, n.attr, st, n)

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        k = self.eval(n.slice, st)
        return self.index(o, k, st)

    def index(self, o, k, st=None):
        if o.op in ('tuple', 'list') and k.is_const and isinstance(k.value, int) and \
                -len(o.args[0]) <= k.value < len(o.args[0]):
            return o.args[0][k.value]
        if o.op == 'dict' and k.is_const:
            for a, b in o.args[0]:
                if a is k:
                    return b
        if o.op == 'phi' and any(x.op in ('tuple', 'list') for x in phi_leaves(o)):
            return self.phi(o.args[0], self.index(o.args[1], k, st), self.index(o.args[2], k, st))
        return T('idx', o, k)

    def e_Slice(self, n, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return T('slice', f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, st):
        return self.eval(n.value, st)

    def e_Tuple(self, n, st):
        return T('tuple', tuple(self.eval(x, st) for x in n.elts))

    def e_List(self, n, st):
        return T('list', tuple(self.eval(x, st) for x in n.elts))

    def e_Set(self, n, st):
        return T('set', tuple(self.eval(x, st) for x in n.elts))

    def e_Dict(self, n, st):
        return T('dict', tuple((self.eval(k, st) if k is not None else C('**'), self.eval(v, st))
                               for k, v in zip(n.keys, n.values)))

    def e_Starred(self, n, st):
        return T('starred', self.eval(n.value, st))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.eval(v.value, st))
        if all(p.is_const for p in parts):
            return C(''.join(str(p.value) for p in parts))
        return T('fstr', tuple(parts))

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            k = self.truth(v, st)
            if k is not None:
                return C(not k)
            return self.neg(v)
        if isinstance(n.op, ast.USub):
            if v.is_const and isinstance(v.value, (int, float, complex)):
                return C(-v.value)
            return T('bin', '*', C(-1), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return T('un', type(n.op).__name__, v)

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**',
           'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}

    def binop(self, op, a, b, st):
        o = self.OPS.get(op, op)
        if a.is_const and b.is_const:
            try:
                x, y = a.value, b.value
                if o == '+':
                    return C(x + y)
                if o == '-':
                    return C(x - y)
                if o == '*':
                    return C(x * y)
                if o == '/':
                    return C(x / y)
                if o == '%':
                    return C(x % y)
                if o == '//':
                    return C(x // y)
                if o == '**' and abs(y) < 20:
                    return C(x ** y)
            except Exception:
                pass
        if o == '+' and a.op in ('list', 'tuple') and b.op == a.op:
            return T(a.op, a.args[0] + b.args[0])
        if o == '+' and a.op in ('list', 'tuple') and b.op == 'phi' and phi_lists(b):
            return self.phi(b.args[0], self.binop(op, a, b.args[1], st), self.binop(op, a, b.args[2], st))
        if o == '+' and a.op == 'phi' and phi_lists(a) and (b.op in ('list', 'tuple') or phi_lists(b)):
            return self.phi(a.args[0], self.binop(op, a.args[1], b, st), self.binop(op, a.args[2], b, st))
        if o == '%' and a.is_const and isinstance(a.value, str):
            if b.is_const:
                try:
                    return C(a.value % b.value)
                except Exception:
                    pass
        return T('bin', o, a, b)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        out = []
        s = st.copy()
        n_ev0 = None
        for x in n.values:
            v = self.simp(self.eval(x, s), s)
            k = self.truth(v, s)
            if k is not None:
                if k != isand:
                    if not out:
                        self._pull(st, s)
                        return v
                    out.append(v)
                    break
                # neutral element; keep value only if last
                if x is n.values[-1] and not out:
                    self._pull(st, s)
                    return v
                if x is n.values[-1] and not self._boolish(v):
                    out.append(v)
                continue
            out.append(v)
            self.add_assume(v, isand, s)
        self._pull(st, s)
        if not out:
            return TRUE if isand else FALSE
        if len(out) == 1:
            return out[0]
        if not all(self._boolish(x) for x in out):
            # value semantics: a or b == phi(a, a, b)
            v = out[-1]
            for x in reversed(out[:-1]):
                v = T('and', (x, v)) if isand and self._boolish(v) and self._boolish(x) else (
                    self.phi(x, v, x) if isand else self.phi(x, x, v))
            return v
        flat = []
        for x in out:
            if x.op == ('and' if isand else 'or'):
                flat.extend(x.args[0])
            else:
                flat.append(x)
        return T('and' if isand else 'or', tuple(flat))

    def _pull(self, st, s):
        st.heap = s.heap
        for k, v in s.env.items():
            if k not in st.env:
                st.env[k] = v

    @staticmethod
    def _boolish(t):
        return t.op in ('cmp', 'not', 'and', 'or') or (t.is_const and isinstance(t.value, bool)) or \
            (t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] in
             ('isinstance', 'hasattr', 'bool', 'any', 'all', 'callable'))

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        parts = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            parts.append(self.compare(type(op).__name__, left, right, st))
            left = right
        if len(parts) == 1:
            return parts[0]
        ks = [self.truth(p, st) for p in parts]
        if any(k is False for k in ks):
            return FALSE
        parts = [p for p, k in zip(parts, ks) if k is not True]
        if not parts:
            return TRUE
        if len(parts) == 1:
            return parts[0]
        return T('and', tuple(parts))

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and a.is_const and not b.is_const:
            a, b = b, a
        if a.op == 'phi' and b.is_const and op in ('Is', 'IsNot', 'Eq', 'NotEq') and \
                all(x.is_const or self._notnone(x, st) for x in phi_leaves(a)):
            return self.phi(a.args[0], self.compare(op, a.args[1], b, st), self.compare(op, a.args[2], b, st))
        if op in ('Is', 'Eq', 'NotEq', 'IsNot'):
            neg = op in ('IsNot', 'NotEq')
            k = None
            if a.is_const and b.is_const:
                k = (a.value is b.value or (a.value == b.value and type(a.value) is type(b.value))) \
                    if op in ('Is', 'IsNot') else a.value == b.value
            elif b is NONE and self._notnone(a, st):
                k = False
            elif a is b:
                k = True
            o = 'is' if op in ('Is', 'IsNot') or b is NONE else '=='
            c = T('cmp', o, a, b) if not (o == '==' and show(b) < show(a) and not b.is_const) else T('cmp', o, b, a)
            if k is None:
                k = self.truth(c, st)
            if k is not None:
                return C(k != neg)
            return T('not', c) if neg else c
        if op in ('In', 'NotIn'):
            items = self.literal_items(b)
            if items is not None and a.is_const and all(x.is_const for x in items):
                k = a in items
                return C(k == (op == 'In'))
            if b.op == 'attr' and b.args[1] == '__dict__' and a.is_const:
                k = None
                if (b.args[0], a.value) in st.heap:
                    k = st.heap[(b.args[0], a.value)] is not ABSENT
                c = T('cmp', 'in', a, b)
                if k is not None:
                    return C(k == (op == 'In'))
                return c if op == 'In' else T('not', c)
            c = T('cmp', 'in', a, b)
            k = self.truth(c, st)
            if k is not None:
                return C(k == (op == 'In'))
            return c if op == 'In' else T('not', c)
        if a.is_const and b.is_const:
            try:
                return C({'Lt': a.value < b.value, 'LtE': a.value <= b.value, 'Gt': a.value > b.value,
                          'GtE': a.value >= b.value}[op])
            except Exception:
                pass
        if op == 'Lt':
            c = T('cmp', '<', a, b)
        elif op == 'Gt':
            c = T('cmp', '<', b, a)
        elif op == 'LtE':
            c = T('cmp', '<=', a, b)
        else:
            c = T('cmp', '<=', b, a)
        k = self.truth(c, st)
        return C(k) if k is not None else c

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        k = self.truth(c, st)
        if k is not None:
            return self.eval(n.body if k else n.orelse, st)
        a, b = st.copy(), st.copy()
        self.add_assume(c, True, a)
        self.add_assume(c, False, b)
        a.guards = st.guards + ((c, True),)
        b.guards = st.guards + ((c, False),)
        va, vb = self.eval(n.body, a), self.eval(n.orelse, b)
        j = self._join(c, a, b)
        st.heap = j.heap
        return self.phi(c, va, vb)

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def _comp(self, kind, n, st, elts):
        s = st.copy()
        gens = []
        lvl0 = self.bvlevel
        comps0 = self.comps
        # expand literal generators
        if len(n.generators) == 1 and kind in ('list', 'set', 'gen', 'dict'):
            g = n.generators[0]
            it = self.simp(self.eval(g.iter, s), s)
            items = self.literal_items(it)
            if items is not None and len(items) <= 40:
                out = []
                ok = True
                for x in items:
                    s2 = s.copy()
                    self.assign(g.target, x, s2, n)
                    keep = True
                    for c in g.ifs:
                        k = self.truth(self.cond(c, s2), s2)
                        if k is None:
                            ok = False
                        keep = keep and k
                    if not ok:
                        break
                    if keep:
                        if kind == 'dict':
                            out.append((self.eval(elts[0], s2), self.eval(elts[1], s2)))
                        else:
                            out.append(self.eval(elts[0], s2))
                if ok:
                    if kind == 'dict':
                        return T('dict', tuple(out))
                    return T('list' if kind in ('list', 'gen') else 'set', tuple(out))
        for g in n.generators:
            it = self.eval(g.iter, s)
            self.bvlevel += 1
            bv = T('bv', 'b%d' % self.bvlevel, it)
            tc = self.type_of_item(T('idx', it, bv))
            if tc is not None:
                self.types[bv] = tc
            self.comps = self.comps + (bv,)
            self.assign(g.target, bv, s, n)
            ifs = []
            for c in g.ifs:
                cc = self.cond(c, s)
                self.add_assume(cc, True, s)
                ifs.append(cc)
            gens.append(T('gen', it, T('and', tuple(ifs)) if len(ifs) != 1 else
                          (ifs[0] if ifs[0].op == 'and' else T('and', (ifs[0],))), bv))
        vals = tuple(self.eval(e, s) for e in elts)
        st.heap = s.heap
        self.bvlevel = lvl0
        self.comps = comps0
        return T('comp', 'list' if kind == 'gen' else kind, vals, tuple(gens))

    def e_ListComp(self, n, st):
        return self._comp('list', n, st, [n.elt])

    def e_GeneratorExp(self, n, st):
        return self._comp('gen', n, st, [n.elt])

    def e_SetComp(self, n, st):
        return self._comp('set', n, st, [n.elt])

    def e_DictComp(self, n, st):
        return self._comp('dict', n, st, [n.key, n.value])

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value else NONE
        self.ev('yield', st, n, value=v)
        return T('unk', uid())

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        self.ev('yieldfrom', st, n, value=v)
        return T('unk', uid())

    def literal_items(self, t):
        if t.op in ('list', 'tuple', 'set'):
            if any(x.op == 'starred' for x in t.args[0]):
                return None
            return list(t.args[0])
        if t.is_const and isinstance(t.value, (tuple, list)):
            return [self.lift(x) for x in t.value]
        if t.is_const and isinstance(t.value, str):
            return [C(x) for x in t.value]
        if t.op == 'dict':
            return [k for k, v in t.args[0]]
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[0].op == 'dict':
            d = t.args[0].args[0].args[0]
            w = t.args[0].args[1]
            if w == 'items':
                return [T('tuple', (k, v)) for k, v in d]
            if w == 'keys':
                return [k for k, v in d]
            if w == 'values':
                return [v for k, v in d]
        if t.op == 'call' and t.args[0].op == 'global':
            fn, a = t.args[0].args[0], t.args[1]
            if fn == 'zip':
                ls = [self.literal_items(x) for x in a]
                if ls and all(x is not None for x in ls):
                    return [T('tuple', z) for z in zip(*ls)]
            if fn == 'enumerate' and a:
                l = self.literal_items(a[0])
                if l is not None:
                    s0 = a[1].value if len(a) > 1 and a[1].is_const else 0
                    return [T('tuple', (C(i + s0), x)) for i, x in enumerate(l)]
            if fn in ('list', 'tuple', 'reversed', 'sorted') and len(a) == 1 and not t.args[2]:
                l = self.literal_items(a[0])
                if l is not None and fn == 'sorted' and all(x.is_const for x in l):
                    try:
                        return sorted(l, key=lambda x: x.value)
                    except TypeError:
                        return None
                if l is not None:
                    return list(reversed(l)) if fn == 'reversed' else l
            if fn == 'range' and all(x.is_const and isinstance(x.value, int) for x in a) and 1 <= len(a) <= 3:
                r = range(*[x.value for x in a])
                if len(r) <= 16:
                    return [C(i) for i in r]
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            args, kw = self.eval_args(n, st)
            return self.super_call(f.attr, args, kw, st, n)
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value, st)
            args, kw = self.eval_args(n, st)
            self.special_inplace(f, recv, n, args, kw, st)
            if recv.op == 'attr' and recv.args[1] == '__dict__' and f.attr == 'pop' and args and \
                    args[0].is_const:
                o = recv.args[0]
                old = self.load(o, args[0].value, st) if (o, args[0].value) in st.heap else T('attr', o, args[0].value)
                self.store(o, args[0].value, ABSENT, st, n)
                return old
            if f.attr == 'get' and recv.op == 'dict' and args and args[0].is_const:
                for k, v in recv.args[0]:
                    if k is args[0]:
                        return v
            return self.method_call(recv, f.attr, args, kw, st, n)
        args, kw = self.eval_args(n, st)
        if isinstance(f, ast.Name):
            nm = f.id
            if nm == 'getattr' and len(args) >= 2 and args[1].is_const and nm not in st.env:
                if len(args) == 2:
                    return self.load(args[0], args[1].value, st, n)
                v = self.load(args[0], args[1].value, st, n)
                if v is ABSENT:
                    return args[2]
                return v
            if nm == 'setattr' and len(args) == 3 and args[1].is_const:
                self.store(args[0], args[1].value, args[2], st, n)
                return NONE
            if nm == 'delattr' and len(args) == 2 and args[1].is_const:
                self.store(args[0], args[1].value, ABSENT, st, n)
                return NONE
            if nm == 'hasattr' and len(args) == 2 and args[1].is_const:
                if (args[0], args[1].value) in st.heap:
                    v = self.simp(st.heap[(args[0], args[1].value)], st)
                    if v is ABSENT:
                        return FALSE
                    if v.op != 'phi' and v is not T('attr', args[0], args[1].value):
                        return TRUE
            if nm == 'isinstance' and len(args) == 2 and args[1].op == 'global':
                cl = self.types.get(args[0])
                target = self.repo.classes.get(args[1].args[0])
                if cl is not None and target is not None and target in cl.mro:
                    return TRUE
                k = self.truth(T('call', T('global', 'isinstance'), tuple(args), ()), st)
                if k is not None:
                    return C(k)
            if nm in ('list', 'tuple') and len(args) == 1 and nm not in st.env:
                items = self.literal_items(args[0])
                if items is not None:
                    return T(nm, tuple(items))
            if nm == 'bool' and len(args) == 1:
                k = self.truth(args[0], st)
                if k is not None:
                    return C(k)
            if nm == 'len' and len(args) == 1:
                items = self.literal_items(args[0])
                if items is not None:
                    return C(len(items))
            if nm in ('str', 'int', 'float') and len(args) == 1 and args[0].is_const:
                try:
                    return C({'str': str, 'int': int, 'float': float}[nm](args[0].value))
                except Exception:
                    pass
        fv = self.eval(f, st)
        return self.call_value(fv, args, kw, st, n)

    def eval_args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.simp(self.eval(a.value, st), st)
                items = self.literal_items(v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(T('starred', v))
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                v = self.simp(v, st)
                if v.op == 'dict' and all(a.is_const for a, b in v.args[0]):
                    for a, b in v.args[0]:
                        kw[a.value] = b
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def special_inplace(self, f, recv, n, args, kw, st):
        # np.xxx(..., out=<cell>)
        out = next((k.value for k in n.keywords if k.arg == 'out'), None)
        if out is not None:
            _, cell = self.eval_o(self.view_base(out), st)
            kw2 = {k: v for k, v in kw.items() if k != 'out'}
            v = self.mkcall(T('attr', recv, f.attr), args, kw2)
            if 'where' in kw2:
                v = T('upd', kw['out'], kw2['where'], '=', v)
            if cell is not None:
                self.store(cell[0], cell[1], v, st, n, inplace=True)
            if isinstance(out, ast.Name):
                st.env[out.id] = v
        if f.attr == 'fill' and len(args) == 1:
            b = self.view_base(f.value)
            _, cell = self.eval_o(b, st)
            if cell is not None:
                self.store(cell[0], cell[1], T('fill', args[0]), st, n, inplace=True)
            if isinstance(b, ast.Name):
                st.env[b.id] = T('fill', args[0])
        if f.attr == 'copyto' and len(n.args) >= 2:
            b = self.view_base(n.args[0])
            _, cell = self.eval_o(b, st)
            v = T('fill', args[1]) if 'where' not in kw else T('upd', args[0], kw['where'], '=', args[1])
            if cell is not None:
                self.store(cell[0], cell[1], v, st, n, inplace=True)
        if f.attr == 'update' and len(args) <= 1 and '**' not in kw and self.dict_like(recv, st) and \
                (not args or self.simp(args[0], st).op == 'dict'):
            pairs = list(self.simp(args[0], st).args[0]) if args else []
            if all(isinstance(x, tuple) for x in pairs) and not any(k.is_const and k.value == '**' for k, _ in pairs):
                for k, v in pairs + [(C(k), v) for k, v in kw.items()]:
                    self.item_store(f.value, k, v, st, n, '=')
        if f.attr in ('append', 'extend') and isinstance(f.value, ast.Name) and f.value.id in st.env and \
                len(args) == 1:
            cur = self.simp(st.env[f.value.id], st)
            add = args[0]
            if f.attr == 'append':
                add = T('list', (add,))
            if cur.op == 'list' or phi_lists(cur):
                if add.op in ('list', 'tuple') or phi_lists(add):
                    add2 = add if add.op != 'tuple' else T('list', add.args[0])
                    # inside a non-literal loop an append cannot be tracked exactly
                    st.env[f.value.id] = self.binop('+', cur, add2, st)
                else:
                    st.env[f.value.id] = T('bin', '+', cur, add)
            else:
                st.env[f.value.id] = T('bin', '+', cur, add)

    def dict_like(self, t, st):
        t = self.simp(t, st)
        if t.op == 'dict':
            return True
        if t.op == 'upd' and t.args[2] == '=':
            return self.dict_like(t.args[0], st)
        if t.op == 'phi':
            return self.dict_like(t.args[1], st) and self.dict_like(t.args[2], st)
        if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'dict':
            return True
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'copy':
            x = t.args[0].args[0]
            return x.op == 'attr' and x.args[1] in ('config', 'kwargs') or x.op == 'param' and x.args[0] in ('config', 'kwargs')
        return False

    @staticmethod
    def mkcall(fv, args, kw):
        if fv.op == 'global' and fv.args[0] in ('all', 'any') and len(args) == 1 and not kw and \
                args[0].op in ('list', 'tuple') and isinstance(args[0].args[0], tuple) and \
                all(isinstance(x, T) and x.is_const for x in args[0].args[0]):
            return C((all if fv.args[0] == 'all' else any)(bool(x.value) for x in args[0].args[0]))
        return T('call', fv, tuple(args), tuple(sorted(kw.items())))

    def bind(self, fn, args, kw, skip_self):
        pos, kwo, va, kwv = params_of(fn)
        if skip_self:
            pos = pos[1:]
        b = {}
        args = list(args)
        if any(a.op == 'starred' for a in args):
            return None
        for p, a in zip(pos, args):
            b[p] = a
        if len(args) > len(pos):
            if not va:
                return None
            b[va.arg] = T('tuple', tuple(args[len(pos):]))
        elif va:
            b[va.arg] = T('tuple', ())
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                b[k] = v
            else:
                extra[k] = v
        if '**' in extra:
            if len(extra) == 1 and kwv:
                b[kwv.arg] = extra['**']
            elif not kwv:
                pass
        elif extra and not kwv:
            return None
        elif kwv:
            b[kwv.arg] = T('dict', tuple((C(k), v) for k, v in sorted(extra.items())))
        for p, d in defaults_of(fn).items():
            if p not in b:
                try:
                    b[p] = self.lift(ast.literal_eval(d))
                except Exception:
                    b[p] = T('default', p)
        return b

    def can_inline(self, fn, name):
        return name not in self.opaque and len(self.stack) < self.maxdepth and \
            sum(1 for k, _ in self.stack if k[0] == id(fn)) < 1 and \
            not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)
                    if not isinstance(x, ast.Lambda))

    def inline(self, mod, fn, args, kw, cls, dcls, selfterm, st, node, skip_self, static=False):
        b = self.bind(fn, args, kw, skip_self)
        if b is None:
            return None
        pos = params_of(fn)[0]
        if skip_self:
            b[pos[0]] = selfterm
        for p in params_of(fn)[0] + params_of(fn)[1]:
            if p not in b:
                b[p] = T('unk', uid())
        org = {}
        if node is not None and isinstance(node, ast.Call):
            pl = params_of(fn)[0][1 if skip_self else 0:]
            for p, an in zip(pl, node.args):
                if isinstance(an, (ast.Attribute, ast.Name)):
                    o = self.eval_o(an, st)[1]
                    if o is not None:
                        org[p] = o
            for k in node.keywords:
                if k.arg and isinstance(k.value, (ast.Attribute, ast.Name)):
                    o = self.eval_o(k.value, st)[1]
                    if o is not None:
                        org[k.arg] = o
        r = self._call_body(mod, fn, b, org, cls, dcls, selfterm, st)
        if r is None:
            # every path raises: treat as no return
            self.ev('noreturn', st, node, fn=fn.name)
            return T('noreturn', uid())
        v, out = r
        st.heap = out.heap
        st.assume = out.assume
        return v

    def method_call(self, recv, name, args, kw, st, node):
        recv = self.simp(recv, st)
        if self.call_hook is not None:
            r = self.call_hook(self, recv, name, args, kw, st, node)
            if r is not None:
                return r
        self.ev('call', st, node, fn=T('attr', recv, name), name=name, recv=recv, args=args, kw=kw)
        cl = self.types.get(recv)
        if recv.op == 'global' and recv.args[0] in self.repo.classes:
            c2 = self.repo.classes[recv.args[0]]
            dc, fn = c2.method(name)
            if fn is not None and self.can_inline(fn, name):
                if name in dc.classm:
                    v = self.inline(dc.mod, fn, args, kw, c2, dc, recv, st, node, True)
                    if v is not None:
                        return v
                elif name in dc.static:
                    v = self.inline(dc.mod, fn, args, kw, c2, dc, None, st, node, False)
                    if v is not None:
                        return v
                elif args and not (name in dc.static):
                    v = self.inline(dc.mod, fn, args[1:], kw, self.types.get(args[0], c2), dc, args[0], st,
                                    node if False else None, True)
                    if v is not None:
                        return v
        if cl is not None:
            dc, fn = cl.method(name)
            if fn is not None:
                if self.can_inline(fn, name):
                    static = name in dc.static
                    v = self.inline(dc.mod, fn, args, kw, cl, dc, recv, st, node, not static)
                    if v is not None:
                        return v
                r = self.mkcall(T('attr', recv, name), args, kw)
                if name == 'copy':
                    r = T('copyof', recv, uid())
                    self.types[r] = cl
                return r
            hv = st.heap.get((recv, name))
            if hv is not None and hv.op == 'closure':
                return self.call_value(hv, args, kw, st, node, quiet=True)
        if name == 'clear' and not args and recv.op == 'attr':
            # list/dict cleared in place
            st.heap[(recv.args[0], recv.args[1])] = T('cleared', recv)
            self.ev('store', st, node, obj=recv.args[0], attr=recv.args[1], value=T('cleared', recv), weak=False,
                    inplace=True)
        return self.mkcall(T('attr', recv, name), args, kw)

    def super_call(self, name, args, kw, st, node):
        fr = self.frame
        selfterm, cls, dcls = fr.selfterm, fr.cls, fr.dcls
        self.ev('call', st, node, fn=T('attr', T('super', selfterm), name), name=name, recv=selfterm, args=args,
                kw=kw, sup=True)
        if cls is not None and dcls is not None:
            try:
                dc, fn = cls.method(name, after=dcls)
            except ValueError:
                dc, fn = None, None
            if fn is not None and self.can_inline(fn, 'super.' + name):
                v = self.inline(dc.mod, fn, args, kw, cls, dc, selfterm, st, node, name not in dc.static)
                if v is not None:
                    return v
        return self.mkcall(T('attr', T('super', selfterm), name), args, kw)

    def super_prop(self, attr, st):
        fr = self.frame
        if fr.cls is None or fr.dcls is None:
            return None
        try:
            dc, fn = fr.cls.prop(attr, after=fr.dcls)
        except ValueError:
            return None
        if fn is None or (self.lazy_opaque and attr in dc.lazy):
            return None
        return self.inline_prop(dc, fn, fr.cls, fr.selfterm, st)

    def call_value(self, fv, args, kw, st, node, quiet=False):
        if self.call_hook is not None:
            nm = fv.args[0] if fv.op == 'global' else None
            if nm is not None:
                r = self.call_hook(self, None, nm, args, kw, st, node)
                if r is not None:
                    return r
        if not quiet:
            self.ev('call', st, node, fn=fv, name=fv.args[0] if fv.op == 'global' else None, recv=None, args=args,
                    kw=kw)
        if fv.op == 'closure':
            cl = self.closures[fv.args[0]]
            if self.can_inline(cl.node, getattr(cl.node, 'name', '<lambda>')):
                env = dict(cl.env.env)
                # late binding: current frame's variables if it is the defining frame
                if self.frame is cl.frame:
                    env = dict(st.env)
                b = self.bind(cl.node, args, kw, False)
                if b is not None:
                    env.update(b)
                    org = dict(st.org) if self.frame is cl.frame else dict(cl.env.org)
                    for p in b:
                        org.pop(p, None)
                    r = self._call_body(cl.frame.mod, cl.node, env, org, cl.frame.cls, cl.frame.dcls,
                                        cl.frame.selfterm, st)
                    if r is None:
                        return T('noreturn', uid())
                    st.heap = r[1].heap
                    return r[0]
        if fv.op == 'global':
            nm = fv.args[0]
            m, fn = self.repo.resolve_func(self.frame.mod, nm)
            if fn is not None and self.can_inline(fn, nm):
                v = self.inline(m, fn, args, kw, None, None, None, st, node, False)
                if v is not None:
                    return v
            if nm in self.repo.classes:
                o = T('obj', nm, uid())
                self.types[o] = self.repo.classes[nm]
                return o
        if fv.op == 'attr' and fv.args[1] == '__new__':
            pass
        if fv.op == 'phi':
            k = self.truth(fv.args[0], st)
        r = self.mkcall(fv, args, kw)
        return r

    # ------------------------------------------------------------------ types
    def type_of_item(self, t):
        """Class of an element, from the rule's field types (e.g. results[...] -> same class)."""
        for pred, cl in self.field_types.items():
            r = pred(t)
            if r:
                return cl if cl is not None else None
        return None


def phi_lists(t):
    return t.op == 'phi' and all(x.op in ('list', 'tuple') for x in phi_leaves(t))
