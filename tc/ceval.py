"""Closed form of small C++ functions: each result and each changed field as a polynomial in the inputs, per branch.

The syntax tree of a function (tc.cxx) is read bottom-up over values that are polynomials (tc.poly) or records of them.
A condition that the normal forms do not settle splits the result into branches, each labelled with the conditions that
lead there.  A `while` loop becomes one opaque function of its condition, its update and the starting value.  Nothing is
executed, no number is chosen, and no solver is asked: two formulas are the same when their normal forms are.
"""
from .pyrepo import AnalysisBroken
from .poly import P, lift, sym, fn, sqrt, equal, from_key, subs
from .cxx import load_sources, split_targs, split_q, N
from .cxxflow import is_debug


class Undecided(Exception):
    pass


class Obj:
    def __init__(self, cls, targs, f=None):
        self.cls, self.targs, self.f = cls, tuple(targs), dict(f or {})

    def copy(self):
        return Obj(self.cls, self.targs, self.f)


class Bool:
    """a condition not settled by the normal forms"""

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b


class Ret(Exception):
    def __init__(self, v):
        self.v = v


MATH = {'sqrt': 'sqrt', 'abs': 'abs', 'fabs': 'abs', 'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'atan2', 'sin': 'sin',
        'cos': 'cos', 'exp': 'exp', 'log': 'log', 'tan': 'tan', 'atan': 'arctan', 'round': 'round', 'floor': 'floor',
        'ceil': 'ceil', 'fmod': 'fmod', 'remainder': 'remainder', 'rint': 'round', 'trunc': 'trunc', 'hypot': 'hypot',
        'pow': 'pow', 'copysign': 'copysign', 'nearbyint': 'round'}


def parse_type(t):
    t = t.replace('const ', '').replace('const', '').replace('&', '').replace('typename ', '').strip()
    if t.startswith('static '):
        t = t[7:]
    if '<' in t:
        i = t.index('<')
        return t[:i], tuple(x.strip() for x in split_targs(t[i + 1:t.rindex('>')]))
    return t, ()


SCALAR = {'double', 'float', 'int', 'long', 'bool', 'unsigned', 'size_t', 'auto', 'T'}


class Ceval:
    @property
    def frame(self):
        return Frame

    def __init__(self, targs=None, opaque=(), depth=12):
        self.S = load_sources()
        self.tenv = dict(targs or {})
        self.opaque = set(opaque)
        self.dec = []       # decisions of the current branch
        self.pos = 0
        self.known = {}
        self.depth = depth
        self.used = set()

    # -- branches ------------------------------------------------------------
    def branches(self, run, limit=600):
        """all (conditions, result) of run(self)"""
        out = []
        todo = [[]]
        while todo:
            pre = todo.pop()
            self.dec, self.pos, self.known, self.trail = list(pre), 0, {}, []
            r = run(self)
            out.append((tuple(self.trail), r))
            for i in range(len(pre), len(self.dec)):
                todo.append(self.dec[:i] + [not self.dec[i]])
            if len(out) + len(todo) > limit:
                raise Undecided('too many branches')
        return out

    def ask(self, key):
        """truth of an unsettled atomic condition on this branch"""
        if key in self.known:
            return self.known[key]
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.dec.append(v)
        self.pos += 1
        self.known[key] = v
        self.trail.append((key, v))
        op, k = key
        if op in ('lt', 'eq'):
            p = from_key(k)
            n = (-p).key
            if op == 'lt' and v:
                self.known[('lt', n)] = False
                self.known[('eq', k)] = self.known[('eq', n)] = False
            if op == 'eq':
                self.known[('eq', n)] = v
                if v:
                    self.known[('lt', k)] = self.known[('lt', n)] = False
        return v

    def cmp(self, op, a, b):
        d = self.num(a) - self.num(b)
        c = d.const()
        if op in ('==', '!='):
            r = (c == 0) if c is not None else self.ask(('eq', d.key))
            return r if op == '==' else not r
        if op in ('>', '<='):
            d = -d
            c = -c if c is not None else None
        # op: d < 0 for < and >;  not (d < 0) for >= and <=
        if c is not None:
            r = c < 0
        else:
            r = self.ask(('lt', d.key))
        return r if op in ('<', '>') else not r

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, P):
            c = v.const()
            if c is not None:
                return c != 0
            return not self.ask(('eq', v.key))
        raise Undecided('condition')

    def num(self, v):
        if isinstance(v, bool):
            return lift(int(v))
        if isinstance(v, P):
            return v
        if isinstance(v, Ref):
            return self.num(v.get())
        raise Undecided('not a number: %r' % (v,))

    # -- functions -----------------------------------------------------------
    def targ(self, x):
        return str(self.tenv.get(x, x))

    def class_of(self, cls, targs):
        for c in self.S.classes:
            if c.name == cls and self.match(c.targs, targs):
                return c
        raise Undecided('class %s' % cls)

    def match(self, pat, targs):
        pat = pat or ()
        if len(pat) != len(targs):
            return not pat and False
        for a, b in zip(pat, targs):
            if a != b and a not in ('P', 'C', 'M', 'D1', 'D2', 'B', 'D', 'R', 'T'):
                return False
        return True

    def methods(self, obj, name):
        fs = [f for f in self.S.functions if f.cls == obj.cls and f.name == name and
              self.match(f.ctargs, obj.targs)]
        if fs:
            return fs
        c = self.class_of(obj.cls, obj.targs)
        for b in c.bases:
            n, t = parse_type(b.replace('public ', ''))
            fs = self.methods(Obj(n, t), name)
            if fs:
                return fs
        return []

    def fits(self, p, v):
        n, t = parse_type(p.type)
        if isinstance(v, Ref):
            v = v.get()
        if isinstance(v, Obj):
            if n != v.cls:
                return 0
            if t == v.targs:
                return 3
            return 1 if t and t[0] == 'ThreeD' and v.targs[0] == 'Sphere' else (2 if t and t[0] in ('C',) else 0)
        return 3 if n in SCALAR or n not in ('Position', 'Bounds', 'BaseCell', 'Cell') else 0

    def pick(self, fs, args):
        best = []
        for f in fs:
            if len(f.params) < len(args):
                continue
            if any(p.default is None for p in f.params[len(args):]):
                continue
            sc = [self.fits(p, a) for p, a in zip(f.params, args)]
            if all(sc) or not sc:
                best.append((sum(sc), f))
        if not best:
            raise Undecided('no function fits the call')
        m = max(b[0] for b in best)
        c = [f for s, f in best if s == m]
        return c[0]

    def call(self, f, args, this=None, depth=0):
        if depth > self.depth:
            raise Undecided('too deep')
        self.used.add(f.where)
        env = {}
        for i, p in enumerate(f.params):
            if i < len(args):
                v = args[i]
            else:
                v = self.num(lift(0)) if p.default is None else self.frame(self, {}, this, f, depth).ev(p.default)
            byref = '&' in p.type
            if byref:
                if not p.type.startswith('const') and isinstance(v, Ref):
                    env[p.name] = v
                else:
                    env[p.name] = Var(v.get() if isinstance(v, Ref) else v)
            else:
                v = v.get() if isinstance(v, Ref) else v
                env[p.name] = Var(v.copy() if isinstance(v, Obj) else v)
        fr = self.frame(self, env, this, f, depth)
        for nm, a in f.inits:
            n, t = parse_type(nm)
            if n == this.cls:           # base or delegating constructor
                vals = [fr.ev(x) for x in a]
                b = Obj(n, t or this.targs)
                self.construct(b, vals, depth + 1)
                this.f.update(b.f)
            elif len(a) == 1:
                v = fr.ev(a[0])
                this.f[nm] = v.copy() if isinstance(v, Obj) else v
            else:
                raise Undecided('initialiser %s' % nm)
        try:
            fr.st(f.body)
        except Ret as r:
            return r.v
        return None

    def construct(self, obj, args, depth=0):
        c = self.class_of(obj.cls, obj.targs)
        cs = [f for f in self.S.functions if f.cls == obj.cls and f.name == obj.cls and self.match(f.ctargs, obj.targs)]
        if not cs:
            raise Undecided('constructor of %s' % obj.cls)
        self.call(self.pick(cs, args), args, obj, depth + 1)
        return obj


class Var:
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Ref:
    pass


class VRef(Ref):
    def __init__(self, var):
        self.var = var

    def get(self):
        return self.var.get()

    def set(self, v):
        self.var.set(v)


class FRef(Ref):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def get(self):
        if self.name not in self.obj.f:
            raise Undecided('field %s' % self.name)
        return self.obj.f[self.name]

    def set(self, v):
        self.obj.f[self.name] = v


class Frame:
    def __init__(self, ce, env, this, f, depth):
        self.ce, self.env, self.this, self.f, self.depth = ce, env, this, f, depth

    # -- statements ----------------------------------------------------------
    def st(self, s):
        if s is None:
            return
        k = s.k
        if k == 'block':
            for x in s[0]:
                self.st(x)
        elif k == 'expr':
            if s[0] is None or is_debug(s[0]):
                return
            self.ev(s[0])
        elif k == 'decl':
            ty = s[0]
            n, t = parse_type(ty)
            t = tuple(self.ce.targ(x) for x in t)
            for d in s[1]:
                nm, init = d[0], d[1]
                if len(d) > 2 and d[2] is not None:
                    raise Undecided('array')
                if n in ('Position', 'Bounds'):
                    args = [init] if isinstance(init, N) else (init or [])
                    vals = [self.ev(x) for x in args]
                    if '&' in ty and len(vals) == 1:
                        self.env[nm] = Var(vals[0])
                        continue
                    self.env[nm] = Var(self.ce.construct(Obj(n, t), vals, self.depth))
                else:
                    if isinstance(init, (list, tuple)) and len(init) == 1:
                        init = init[0]
                    if isinstance(init, N):
                        if '&' in ty and not ty.startswith('const'):
                            self.env[nm] = self.lv(init)
                            continue
                        v = self.ev(init)
                        self.env[nm] = Var(v.copy() if isinstance(v, Obj) else v)
                    else:
                        self.env[nm] = Var(None)
        elif k == 'if':
            if self.ce.truth(self.ev(s[0])):
                self.st(s[1])
            else:
                self.st(s[2])
        elif k == 'return':
            v = self.ev(s[0]) if s[0] is not None else None
            n, t = parse_type(self.f.ret or '')
            if isinstance(v, Obj) and n in ('Position', 'Bounds') and '&' not in (self.f.ret or '') and t and t != v.targs:
                v = self.ce.construct(Obj(n, t), [v], self.depth)
            elif isinstance(v, Obj) and '&' not in (self.f.ret or ''):
                v = v.copy()
            if (self.f.ret or '') == 'bool' and isinstance(v, P):
                v = self.ce.truth(v)
            raise Ret(v)
        elif k == 'while':
            self.loop(s[0], s[1])
        elif k == 'pragma':
            pass
        elif k == 'switch':
            raise Undecided('switch')
        else:
            raise Undecided(k)

    def loop(self, cond, body):
        """while (c(v)) v = u(v): one opaque function of c, u and the starting value"""
        upd = [body]
        while len(upd) == 1 and upd[0].k == 'block':
            upd = list(upd[0][0])
        if len(upd) != 1 or upd[0].k != 'expr' or upd[0][0].k != 'assign':
            raise Undecided('loop')
        a = upd[0][0]
        lv = self.lv(a[1])
        start = self.ce.num(lv.get())
        x = sym('@loop')
        lv.set(x)
        if cond.k != 'bin' or cond[0] not in ('<', '>', '<=', '>='):
            raise Undecided('loop condition')
        l, r = self.ce.num(self.ev(cond[1])), self.ce.num(self.ev(cond[2]))
        d = l - r if cond[0] in ('<', '<=') else r - l
        self.ev(a)
        u = self.ce.num(lv.get())
        lv.set(fn('while' + ('=' if '=' in cond[0] else ''), start, d, u))

    # -- expressions ---------------------------------------------------------
    def lv(self, e):
        if e.k == 'name':
            nm = e[0]
            if nm in self.env:
                v = self.env[nm]
                return v if isinstance(v, Ref) else VRef(v)
            if self.this is not None and nm in self.this.f or self.isfield(nm):
                return FRef(self.this, nm)
            raise Undecided('name %s' % nm)
        if e.k == 'member':
            o = self.ev(e[0])
            if isinstance(o, Obj):
                return FRef(o, e[1])
            raise Undecided('member %s' % e[1])
        if e.k == 'un' and e[0] == '*':
            v = self.ev(e)
            return VRef(Var(v))
        if e.k == 'assign':
            self.ev(e)
            return self.lv(e[1])
        raise Undecided('target %s' % e)

    def isfield(self, nm):
        if self.this is None:
            return False
        try:
            c = self.ce.class_of(self.this.cls, self.this.targs)
        except Undecided:
            return False
        if any(x[1] == nm for x in c.fields):
            return True
        for b in c.bases:
            n, t = parse_type(b.replace('public ', ''))
            if any(x[1] == nm for x in self.ce.class_of(n, t).fields):
                return True
        return False

    def ev(self, e):
        m = getattr(self, 'x_' + e.k, None)
        if m is None:
            raise Undecided(e.k)
        return m(e)

    def x_num(self, e):
        t = e[0].rstrip('uUlLfF')
        if t == 'sizeof':
            raise Undecided('sizeof')
        if t.startswith('0x'):
            return lift(int(t, 16))
        return lift(int(t)) if t.isdigit() else lift(float(t))

    def x_name(self, e):
        nm = e[0]
        if nm == 'true':
            return True
        if nm == 'false':
            return False
        if nm == 'this':
            return ('ptr', self.this)
        if nm in self.ce.tenv and nm not in self.env:
            v = self.ce.tenv[nm]
            if isinstance(v, int):
                return lift(v)
        try:
            v = self.lv(e).get()
        except Undecided:
            for en in self.ce.S.enums.values():
                if isinstance(en, dict) and nm in en:
                    return lift(en[nm])
            if '::' not in nm and nm.startswith('M_'):
                return sym(nm)
            raise
        if v is None:
            raise Undecided('%s has no value' % nm)
        return v

    def x_member(self, e):
        return self.lv(e).get()

    def x_un(self, e):
        op = e[0]
        if op == '*':
            v = self.ev(e[1])
            if isinstance(v, tuple) and v[0] == 'ptr':
                return v[1]
            raise Undecided('pointer')
        if op == '!':
            return not self.ce.truth(self.ev(e[1]))
        v = self.ev(e[1])
        if op == '-':
            return -self.ce.num(v)
        if op == '+':
            return v
        if op in ('++', '--'):
            l = self.lv(e[1])
            l.set(self.ce.num(v) + (1 if op == '++' else -1))
            return l.get()
        raise Undecided(op)

    def x_cast(self, e):
        return self.ev(e[1])

    def x_cond(self, e):
        return self.ev(e[1]) if self.ce.truth(self.ev(e[0])) else self.ev(e[2])

    def x_assign(self, e):
        op, l, r = e[0], e[1], e[2]
        v = self.ev(r)
        if op == '=':
            t = self.lv(l)
            try:
                cur = t.get()
            except Undecided:
                cur = None
            if isinstance(cur, Obj) and isinstance(v, Obj):
                fs = self.ce.methods(cur, 'operator=')
                if fs:
                    return self.ce.call(self.ce.pick(fs, [v]), [v], cur, self.depth + 1)
                cur.f.update(v.f)
                return cur
            t.set(v.copy() if isinstance(v, Obj) else v)
            return v
        if op in ('|=', '&='):
            t = self.lv(l)
            a, b = self.ce.truth(t.get()), self.ce.truth(v)
            t.set((a or b) if op == '|=' else (a and b))
            return t.get()
        cur = self.ev(l)
        if isinstance(cur, Obj):
            fs = self.ce.methods(cur, 'operator' + op)
            return self.ce.call(self.ce.pick(fs, [v]), [v], cur, self.depth + 1)
        t = self.lv(l)
        a, b = self.ce.num(cur), self.ce.num(v)
        t.set(a + b if op == '+=' else a - b if op == '-=' else a * b if op == '*=' else a / b if op == '/=' else self.bad(op))
        return t.get()

    def bad(self, op):
        raise Undecided(op)

    def x_bin(self, e):
        op = e[0]
        if op == '&&':
            return self.ce.truth(self.ev(e[1])) and self.ce.truth(self.ev(e[2]))
        if op == '||':
            return self.ce.truth(self.ev(e[1])) or self.ce.truth(self.ev(e[2]))
        if op == ',':
            self.ev(e[1])
            return self.ev(e[2])
        a, b = self.ev(e[1]), self.ev(e[2])
        if isinstance(a, Obj):
            fs = self.ce.methods(a, 'operator' + op)
            if not fs:
                raise Undecided('operator' + op)
            return self.ce.call(self.ce.pick(fs, [b]), [b], a, self.depth + 1)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.ce.cmp(op, a, b)
        a, b = self.ce.num(a), self.ce.num(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return a / b
        raise Undecided(op)

    def x_call(self, e):
        f, args = e[0], e[1]
        if f.k == 'member':
            o = self.ev(f[0])
            if isinstance(o, tuple) and o[0] == 'ptr':
                o = o[1]
            if not isinstance(o, Obj):
                raise Undecided('call %s' % f[1])
            if (o.cls, f[1]) in self.ce.opaque or f[1] in self.ce.opaque:
                if '.' + f[1] in o.f:
                    return o.f['.' + f[1]]
            fs = self.ce.methods(o, f[1])
            return self.invoke(fs, args, o)
        if f.k != 'name':
            raise Undecided('call')
        nm, ta = f[0], f[1]
        q = split_q(nm)
        last = q[-1]
        if nm in ('Assert', 'XAssert'):
            return None
        n, t = parse_type(last if ta is None else last)
        if ta is not None:
            t = tuple(ta)
        t = tuple(self.ce.targ(x) for x in t)
        if n in ('Position', 'Bounds'):
            return self.ce.construct(Obj(n, t), [self.ev(x) for x in args], self.depth)
        if not args and last in ('infinity', 'epsilon', 'quiet_NaN', 'max', 'min'):
            return sym('@' + last)
        if len(q) > 1 and q[0] != 'std':
            cn, ct = parse_type(q[-2])
            ct = tuple(self.targs(x) for x in ct)
            o = Obj(cn, ct)
            if self.this is not None and cn == self.this.cls:
                this = self.this
                fs = [g for g in self.ce.S.functions if g.cls == cn and g.name == last and self.ce.match(g.ctargs, ct)]
                return self.invoke(fs, args, this)
            fs = [g for g in self.ce.S.functions if g.cls == cn and g.name == last and (g.ctargs == list(ct) or
                                                                                      tuple(g.ctargs or ()) == ct)]
            if not fs:
                fs = [g for g in self.ce.S.functions if g.cls == cn and g.name == last and not g.ctargs]
            return self.invoke(fs, args, o)
        # a method of this object, then a free function, then the standard library
        if self.this is not None and len(q) == 1:
            try:
                fs = self.ce.methods(self.this, last)
            except Undecided:
                fs = []
            if fs:
                return self.invoke(fs, args, self.this)
        if last in ('max', 'min') and len(args) == 2:
            a, b = [self.ce.num(self.ev(x)) for x in args]
            a, b = sorted((a, b), key=lambda p: repr(p.key))
            return fn(last, a, b)
        if last == 'SQR':
            v = self.ce.num(self.ev(args[0]))
            return v * v
        if last in MATH:
            vals = [self.ce.num(self.ev(x)) for x in args]
            if last == 'sqrt':
                return sqrt(vals[0])
            if last == 'pow':
                c = vals[1].const()
                if c is not None and c.denominator == 1 and c >= 0:
                    return vals[0] ** int(c)
            return fn(MATH[last], *vals)
        fs = [g for g in self.ce.S.functions if g.name == last and not g.cls]
        if not fs:
            raise Undecided('function %s' % nm)
        return self.invoke(fs, args, None)

    def targs(self, x):
        x = self.ce.targ(x.strip())
        if '*' in x:
            a, b = [self.ce.targ(y.strip()) for y in x.split('*')]
            if a.isdigit() and b.isdigit():
                return str(int(a) * int(b))
        return x

    def invoke(self, fs, args, this):
        vals = []
        for x in args:
            v = None
            if x.k in ('name', 'member'):
                try:
                    v = self.lv(x)
                    cur = v.get()
                    if isinstance(cur, Obj):
                        v = cur
                except Undecided:
                    v = None
            vals.append(v if v is not None else self.ev(x))
        f = self.ce.pick(fs, vals)
        return self.ce.call(f, vals, this, self.depth + 1)

    def x_index(self, e):
        raise Undecided('index')
