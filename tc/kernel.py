"""Accumulation kernels of the C++ sources as tables of polynomials.

The events of tc.cxxflow (a loop summary of each function: what every statement writes, as a term over the values at the
start of the iteration) are read as polynomials in the cell values.  Loop-carried values are resolved from the recurrence
the loop summary gives for them.  Indices are integer polynomials; they are tabulated for small sizes, the values stay
symbolic.
"""
from fractions import Fraction

from . import poly
from .poly import P, I, lift, sym, atom, fn
from .pyflow import T, C, show
from .cxxflow import CFlow
from .cxx import load_sources


class Undecided(Exception):
    pass


class Pos(dict):
    """linear combination of named position vectors"""

    def lin(self, o, k):
        d = Pos(self)
        for n, c in o.items():
            d[n] = d.get(n, 0) + c * k
        return Pos({n: c for n, c in d.items() if c})

    def scale(self, k):
        return Pos({n: c * k for n, c in self.items()})

    def name(self):
        return '+'.join('%s*%s' % (c, n) if c != 1 else n for n, c in sorted(self.items()))


AXES = ('x', 'y', 'z')


def comp(p, ax):
    s = lift(0)
    for n, c in p.items():
        s = s + sym('%s_%s' % (ax, n)) * Fraction(c)
    return s


def unit(p):
    items = sorted(p.items())
    if not items:
        return Pos({'u(0)': 1})
    lead = abs(items[0][1])
    q = Pos({n: Fraction(c) / lead for n, c in items})
    if len(q) == 1 and next(iter(q.values())) == 1:
        n = next(iter(q))
        if n.startswith('raw:'):
            return Pos({n[4:]: 1})
        return q
    return Pos({'u(%s)' % q.name(): 1})


_ret = {}


def complex_result(name):
    """does every function of this name return a complex value?"""
    if name not in _ret:
        fs = [f for f in load_sources().fns(name)]
        rs = ['complex' in (f.ret or '') for f in fs]
        _ret[name] = bool(rs) and all(rs)
    return _ret[name]


_cf = None


def complex_field(name):
    global _cf
    if _cf is None:
        _cf = {}
        for k in load_sources().classes:
            for x in k.fields:
                _cf.setdefault(x[1], set()).add('complex' in x[0])
    return _cf.get(name) == {True}


class Eval:
    def __init__(self, fl, params=None, conds=(), curved=True, cap=60):
        self.fl = fl
        self.params = params or {}
        self.conds = dict(conds)
        self.curved = curved
        self.cap = cap
        self.complex = set()
        self.memo = {}

    # -- values --------------------------------------------------------
    def real(self, a):
        return not (a[0] == 'sym' and a[1] in self.complex)

    def csym(self, name):
        self.complex.add(name)
        return sym(name)

    def conj(self, p):
        return poly.conj(p, self.real)

    def re(self, p):
        return (p + self.conj(p)) * Fraction(1, 2)

    def im(self, p):
        return (p - self.conj(p)) * (-I) * Fraction(1, 2)

    def norm(self, p):
        return p * self.conj(p)

    def num(self, v):
        if isinstance(v, Pos):
            # a flat position is the complex number x + i y
            return comp(v, 'x') + I * comp(v, 'y')
        return v

    def ev(self, t, env):
        k = (t, tuple(sorted(env.items())))
        if k in self.memo:
            return self.memo[k]
        v = self._ev(t, env)
        self.memo[k] = v
        return v

    def _ev(self, t, env):
        o, a = t.op, t.args
        if o == 'const':
            if isinstance(a[0], (int, float, bool)):
                return lift(a[0])
            raise Undecided(show(t))
        if o == 'numtext':
            raise Undecided(show(t))
        if o == 'param':
            if a[0] in self.params:
                v = self.params[a[0]]
                return v if isinstance(v, Pos) else lift(v)
            return sym(a[0])
        if o == 'field':
            nm = self.fieldname(t)
            if nm in self.params:
                v = self.params[nm]
                return v if isinstance(v, Pos) else lift(v)
            return self.csym(nm) if complex_field(nm.split('.')[-1]) else sym(nm)
        if o == 'bin':
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            return self.binop(a[0], x, y)
        if o == 'neg' or (o == 'un' and a[0] == '-'):
            x = self.ev(a[0] if o == 'neg' else a[1], env)
            return x.scale(-1) if isinstance(x, Pos) else -x
        if o == 'un' and a[0] in ('+', '*', '&'):
            return self.ev(a[1], env)
        if o == 'phi':
            c = self.truth(a[0], env)
            if c is None:
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if x == y:
                    return x
                # z > 0 ? z : 1, guarding against division by zero
                if self.guarded(a[0], x, y, env):
                    return x
                if isinstance(x, Pos) or isinstance(y, Pos):
                    raise Undecided(show(t)[:200])
                return self.either(a[0], x, y, env)
            return self.ev(a[1] if c else a[2], env)
        if o == 'new' or o == 'newobj':
            return self.make(a[0], [self.ev(x, env) for x in a[1]])
        if o == 'ccall':
            return self.ccall(t, env)
        if o == 'out':
            return self.out(t, env)
        if o == 'idx':
            b = a[0]
            nm = self.fieldname(b)
            i = lift(self.num(self.ev(a[1], env)))
            c = i.const()
            it = str(c) if c is not None else poly.text(i)
            cx = complex_field(nm.split('.')[-1])
            return self.csym('%s[%s]' % (nm, it)) if cx else sym('%s[%s]' % (nm, it))
        if o == 'bv':
            for lid, L in self.fl.loops.items():
                if L['var'] is t:
                    return self.loopvar(L, L.get('name'), env)
            raise Undecided(show(t))
        if o == 'loopvar':
            return self.loopvar(self.fl.loops[a[1]], a[0], env)
        if o == 'after':
            L = self.fl.loops[a[1]]
            n = self.count(L, env)
            e = dict(env)
            e[L['id']] = n
            return self.loopvar(L, a[0], e)
        if o in ('<', '>', '==', '!=', 'not', 'and', 'or', 'cmp'):
            c = self.truth(t, env)
            if c is not None:
                return lift(int(c))
        raise Undecided('%s: %s' % (o, show(t)[:200]))

    def binop(self, op, x, y):
        if isinstance(x, Pos) and isinstance(y, Pos) and op in '+-':
            return x.lin(y, 1 if op == '+' else -1)
        if isinstance(x, Pos) or isinstance(y, Pos):
            p, s = (x, y) if isinstance(x, Pos) else (y, x)
            c = s.const() if isinstance(s, P) else None
            if op == '*' and c is not None:
                return p.scale(c)
            if op == '/' and p is x and c:
                return p.scale(1 / c)
            x, y = self.num(x), self.num(y)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if y.is_zero():
                raise Undecided('division by zero')
            return x / y
        if op == '%' and x.const() is not None and y.const():
            return lift(x.const() % y.const())
        raise Undecided(op)

    def fieldname(self, t):
        if t.op == 'field':
            b = self.fieldname(t.args[0]) if t.args[0].op in ('field', 'param') else ''
            return (b + '.' if b else '') + t.args[1]
        if t.op in ('param', 'global'):
            return t.args[0]
        if t.op == 'un':
            return self.fieldname(t.args[1])
        return show(t)

    def strip(self, t):
        while True:
            if t.op == 'ccall' and t.args[0] in ('getData', 'static_cast', 'dynamic_cast', 'reinterpret_cast'):
                t = t.args[1] if t.args[0] == 'getData' else t.args[2][0]
            elif t.op == 'un' and t.args[0] in ('*', '&'):
                t = t.args[1]
            else:
                return t

    def cellname(self, t):
        t = self.strip(t)
        if t.op == 'param':
            return self.params.get(t.args[0], t.args[0]) if not isinstance(
                self.params.get(t.args[0]), (P, Pos, int)) else t.args[0]
        return show(t)

    def make(self, ty, vals):
        ty = ty.split('<')[0].split('::')[-1]
        if ty == 'complex':
            return self.cplx(vals)
        if ty == 'Position':
            if len(vals) == 1 and isinstance(vals[0], Pos):
                return unit(vals[0]) if self.curved else vals[0]
            raise Undecided('Position of %d' % len(vals))
        if len(vals) == 1:
            return vals[0]
        raise Undecided(ty)

    def cplx(self, vals):
        vals = [self.num(v) for v in vals]
        if len(vals) == 1:
            return vals[0]
        if len(vals) == 2:
            return vals[0] + I * vals[1]
        return lift(0)

    def ccall(self, t, env):
        nm, recv, args, targs = t.args
        if nm in ('real', 'imag', 'conj', 'norm', 'abs', 'arg') :
            x = self.num(self.ev(args[0] if args else recv, env))
            if nm == 'real':
                return self.re(x)
            if nm == 'imag':
                return self.im(x)
            if nm == 'conj':
                return self.conj(x)
            if nm == 'norm':
                return self.norm(x)
            if nm == 'abs':
                return poly.sqrt(self.norm(x))
            raise Undecided(nm)
        if nm == 'complex':
            return self.cplx([self.ev(x, env) for x in args])
        if nm == 'Position':
            return self.make(nm, [self.ev(x, env) for x in args])
        if nm in ('static_cast', 'move', 'double', 'float', 'int', 'long') and len(args) == 1:
            return self.ev(args[0], env)
        if nm == 'safe_norm':
            return self.norm(self.num(self.ev(args[0], env)))
        if nm == 'SQR' and len(args) == 1:
            x = self.num(self.ev(args[0], env))
            return x * x
        if nm == 'sqrt':
            return poly.sqrt(self.num(self.ev(args[0], env)))
        if nm == 'pow' and len(args) == 2:
            x, e = self.num(self.ev(args[0], env)), self.ev(args[1], env).const()
            if e is not None and e.denominator == 1:
                return x ** int(e)
        if nm == 'calculate_expmsialpha' and len(targs) == 1:
            return self.rot(int(targs[0]), self.num(self.ev(args[0], env)))
        if nm == 'getPos' and not args:
            return Pos({('raw:' if self.curved == 3 else '') + self.cellname(recv): 1})
        if nm in ('getX', 'getY', 'getZ') and not args:
            x = self.ev(recv, env)
            if isinstance(x, Pos):
                return comp(x, nm[-1].lower())
        if nm == 'normSq' and not args:
            x = self.ev(recv, env)
            if isinstance(x, Pos):
                s = lift(0)
                for ax in AXES if self.curved else AXES[:2]:
                    s = s + comp(x, ax) * comp(x, ax)
                return s
        if nm == 'dot' and len(args) == 1:
            x, y = self.ev(recv, env), self.ev(args[0], env)
            if isinstance(x, Pos) and isinstance(y, Pos):
                s = lift(0)
                for ax in AXES if self.curved else AXES[:2]:
                    s = s + comp(x, ax) * comp(y, ax)
                return s
        if not args and (nm.startswith('get') or nm.startswith('calculate')):
            name = '%s.%s' % (self.cellname(recv), nm)
            return self.csym(name) if complex_result(nm) else sym(name)
        if recv.op == 'none' or recv.op == 'this':
            name = '%s(%s)' % (nm + ('<%s>' % ','.join(targs) if targs else ''), ', '.join(self.argname(x, env) for x in args))
            return self.csym(name) if complex_result(nm) else sym(name)
        raise Undecided(show(t)[:200])

    def argname(self, t, env):
        s = self.strip(t)
        if s.op == 'param':
            return str(self.cellname(s))
        try:
            v = self.ev(t, env)
            return v.name() if isinstance(v, Pos) else poly.text(v)
        except Undecided:
            return show(t)

    def rot(self, s, x):
        """exp(-i s alpha) for the direction x, up to a positive factor of x; odd in x for odd s"""
        if s == 0:
            return lift(1)
        x = reduce_unit(x)
        if x.is_zero():
            raise Undecided('no direction')
        c, q = poly.content(x)
        sign = -1 if c < 0 and s % 2 else 1
        return atom(('fn', 'rot%d' % s, q.key)) * sign

    def out(self, t, env):
        call, i = t.args
        nm, recv, args, targs = call.args
        if nm in ('Project', 'ProjectWithSq', 'ProjectX') and recv.op == 'none':
            cells = [x for x in args if self.strip(x).op == 'param']
            vals = args[len(cells):]
            j = i - len(cells)
            names = [str(self.cellname(x)) for x in cells]
            if nm == 'ProjectWithSq' and j == 1:
                name = 'projsq(%s; %s)' % (','.join(names), self.argname(vals[1], env))
            else:
                which = {1: 'last', 2: j}.get(len(vals), j)
                if nm == 'ProjectWithSq':
                    which = 'last'
                name = 'proj(%s; %s; %s)' % (','.join(names), which, self.argname(vals[j], env))
            return self.csym(name)
        raise Undecided(show(t)[:200])

    # -- conditions ----------------------------------------------------
    def truth(self, t, env):
        if t in self.conds:
            return self.conds[t]
        s = show(t)
        if s in self.conds:
            return self.conds[s]
        o, a = t.op, t.args
        if o == 'const':
            return bool(a[0])
        if o == 'not':
            c = self.truth(a[0], env)
            return None if c is None else not c
        if o == 'and':
            x, y = self.truth(a[0], env), self.truth(a[1], env)
            return False if False in (x, y) else None if None in (x, y) else True
        if o == 'or':
            x, y = self.truth(a[0], env), self.truth(a[1], env)
            return True if True in (x, y) else None if None in (x, y) else False
        if o in ('<', '==') or (o == 'bin' and a[0] in ('<', '==', '>', '<=', '>=', '!=')) or o == 'cmp':
            op, x, y = (o, a[0], a[1]) if o in ('<', '==') else a
            try:
                x, y = self.ev(x, env), self.ev(y, env)
            except Undecided:
                return None
            if isinstance(x, Pos) or isinstance(y, Pos):
                return None
            d = (x - y).const()
            if d is None:
                return None
            return {'<': d < 0, '>': d > 0, '==': d == 0, '<=': d <= 0, '>=': d >= 0, '!=': d != 0}[op]
        try:
            c = self.ev(t, env)
        except Undecided:
            return None
        c = c.const() if isinstance(c, P) else None
        return None if c is None else c != 0

    def either(self, c, x, y, env):
        """`c ? x : y` for a condition on run-time values: y where c only singles out the zeros of a product on which
        both agree, otherwise a value that no definition equals"""
        neg = False
        while c.op == 'not':
            c, neg = c.args[0], not neg
        if neg:
            x, y = y, x
        if c.op not in ('==', '<', 'cmp') and not (c.op == 'bin' and c.args[0] in ('<', '==', '>', '<=', '>=', '!=')):
            raise Undecided('condition ' + show(c)[:100])
        op, l, r = (c.op, c.args[0], c.args[1]) if c.op in ('<', '==') else c.args
        l, r = self.num(self.ev(l, env)), self.num(self.ev(r, env))
        if op == '!=':
            x, y, op = y, x, '=='
        if op == '==':
            d = l - r
            if len(d.d) == 1:
                atoms = d.atoms()
                if all(poly.equal(poly.subs(x, {a: lift(0)}), poly.subs(y, {a: lift(0)})) for a in atoms):
                    return y
        k = 'where %s %s %s' % (poly.text(l), op, poly.text(r))
        return (x - y) * sym('[%s]' % k) + y

    def guarded(self, c, x, y, env):
        """`x > 0 ? x : positive constant` where x is a modulus squared"""
        if c.op == 'not':
            return False
        if c.op == '<' and isinstance(y, P) and (y.const() or 0) > 0:
            try:
                lo, v = self.ev(c.args[0], env), self.ev(c.args[1], env)
            except Undecided:
                return False
            return lo.is_zero() and v == x
        return False

    # -- loops ---------------------------------------------------------
    def loopvar(self, L, v, env):
        lid = L['id']
        if lid not in env:
            raise Undecided('loop value outside its loop')
        j = env[lid]
        outer = {k: x for k, x in env.items() if k in self.outer(L)}
        if j == 0:
            s = L['start'].get(v)
            if s is None:
                raise Undecided(v)
            return self.ev(s, outer)
        outer[lid] = j - 1
        e = L['end'].get(v)
        if e is None:
            raise Undecided(v)
        return self.ev(e, outer)

    def outer(self, L):
        return L.get('outer', ())

    def count(self, L, env):
        """number of iterations in the given outer state"""
        outer = {k: x for k, x in env.items() if k in self.outer(L)}
        if L['cond'] is None or L['cond'].op == 'const':
            raise Undecided('loop without a bound')
        for n in range(self.cap):
            e = dict(outer)
            e[L['id']] = n
            c = self.truth(L['cond'], e)
            if c is None:
                raise Undecided('loop bound ' + show(L['cond'])[:100])
            if not c and not (L['kind'] == 'do' and n == 0):
                return n
        raise Undecided('loop bound too large')

    def states(self, loops):
        """iteration states of a loop nest"""
        out = [{}]
        for L in loops:
            if L['kind'] == 'rfor':
                raise Undecided('range for')
            nxt = []
            for e in out:
                for n in range(self.count(L, e)):
                    f = dict(e)
                    f[L['id']] = n
                    nxt.append(f)
            out = nxt
        return out

    # -- tables --------------------------------------------------------
    def table(self, want=None):
        """{(array, index): accumulated P} of the write events (op += / -=); events of `=` are reported as writes"""
        for e in self.fl.events:
            ids = [L['id'] for L in e.loops]
            for i, L in enumerate(e.loops):
                L['outer'] = tuple(ids[:i])
        out = {}
        undecided = []
        for e in self.fl.events:
            if e.kind != 'write':
                continue
            lv = e.lv
            while lv.op == 'un':
                lv = lv.args[1]
            if lv.op == 'idx':
                nm = self.fieldname(lv.args[0])
                ix = lv.args[1]
            else:
                nm, ix = self.fieldname(lv), None
            if want is not None and not want(nm):
                continue
            try:
                for env in self.states(e.loops):
                    ok = True
                    open_ = []
                    for g, b in e.guards:
                        c = self.truth(g, env)
                        if c is None:
                            open_.append((g, b))
                        elif c is not b:
                            ok = False
                            break
                    if not ok:
                        continue
                    i = None
                    if ix is not None:
                        iv = self.ev(ix, env)
                        i = iv.const()
                        i = int(i) if i is not None and i.denominator == 1 else poly.text(iv)
                    v = self.num(self.ev(e.rhs, env))
                    if open_ and e.op not in ('+=', '-='):
                        v = v - self.num(self.ev(lv, env))
                    for g, b in open_:
                        v = self.either(g, v if b else lift(0), lift(0) if b else v, env)
                    if open_ and e.op not in ('+=', '-='):
                        v = v + self.num(self.ev(lv, env))
                    if e.op == '+=':
                        out[nm, i] = out.get((nm, i), lift(0)) + v
                    elif e.op == '-=':
                        out[nm, i] = out.get((nm, i), lift(0)) - v
                    elif e.op == '=' :
                        # a[i] = a[i] + v is an accumulation as well
                        d = v - self.num(self.ev(lv, env))
                        me = self.ev(lv, env)
                        if me.atoms() & d.atoms():
                            out[nm, i] = sym('overwritten') + v
                        else:
                            out[nm, i] = out.get((nm, i), lift(0)) + d
                    else:
                        raise Undecided(e.op)
            except Undecided as x:
                undecided.append((nm, e.where, str(x)))
        return out, undecided


def reduce_unit(p):
    """replace z^2 by 1 - x^2 - y^2 for every unit vector (names not starting with raw:)"""
    for _ in range(12):
        hit = None
        for m in p.d:
            for a, e in m:
                if a[0] == 'sym' and isinstance(a[1], str) and a[1].startswith('z_') and not a[1].startswith('z_raw:') \
                        and e >= 2:
                    hit = a
                    break
            if hit:
                break
        if not hit:
            return p
        n = hit[1][2:]
        sq = lift(1) - sym('x_' + n) ** 2 - sym('y_' + n) ** 2
        out = lift(0)
        for m, c in p.d.items():
            e = dict(m).get(hit, 0)
            rest = P({tuple(x for x in m if x[0] != hit): c})
            q, r = divmod(e, 2) if e >= 2 else (0, e)
            out = out + rest * (sq ** q) * (atom(hit) ** r if r else 1)
        p = out
    return p


def flow(f, tenv=None, stop=(), depth=6, args=None, follow=True):
    fl = CFlow(follow=follow, tenv=tenv or {}, stop=tuple(stop) + ('calculate_expmsialpha', 'safe_norm'), depth=depth)
    ret = fl.run(f, args)
    return fl, ret
