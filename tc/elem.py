"""Element-wise reading of array terms: what happens to one element of an array, as an algebraic normal form.

A term of tc.pyflow that describes a whole numpy array (built by masked in-place updates, full assignments, ufuncs and
phis on configuration) is read for one element in one *case*: the case says which conditions hold for the element
(e.g. its weight is zero) and which configuration is in force (bin type, coordinates...).  The result is a polynomial
normal form (tc.poly), so differently written but algebraically equal computations compare equal.
"""
from fractions import Fraction

from .pyflow import T, NONE, show
from . import poly
from .poly import P, sym, lift


class Undecided(Exception):
    pass


VIEWS = {'ravel', 'reshape', 'copy', 'view', 'flatten', 'astype', 'squeeze'}
UFUNC = {'arcsin', 'arccos', 'arctan', 'sin', 'cos', 'tan', 'log', 'exp', 'sqrt', 'abs', 'absolute', 'arctan2',
         'asin', 'acos', 'atan', 'fabs'}
REN = {'absolute': 'abs', 'fabs': 'abs', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan'}
BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Pow': '**', '+': '+', '-': '-', '*': '*', '/': '/', '**': '**'}
NPBIN = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**'}


def fname(f):
    """('np', name) for numpy functions, ('math', name), ('meth', name, recv)"""
    if f.op == 'attr':
        b = f.args[0]
        if b.op == 'global' and str(b.args[0]).split('.')[-1] in ('np', 'numpy'):
            return 'np', f.args[1], None
        if b.op == 'global' and str(b.args[0]).split('.')[-1] == 'math':
            return 'np', f.args[1], None
        return 'meth', f.args[1], b
    if f.op == 'global':
        n = str(f.args[0])
        if n.startswith(('np.', 'numpy.', 'math.')):
            return 'np', n.split('.')[-1], None
        return 'fn', n.split('.')[-1], None
    return 'other', show(f), None


class Elem:
    """cond(term) -> True/False/None decides conditions of the case; name(term) -> symbol name or P or None names inputs."""

    def __init__(self, cond, name, at=None, fixed=()):
        self.cond = cond
        self.name = name
        self.at = at
        self.memo = {}
        self.div0 = []

    def sub_at(self, at):
        e = Elem(self.cond, self.name, at)
        e.div0 = self.div0
        return e

    # ------------------------------------------------------------ truth of conditions and masks
    def truth(self, t):
        r = self.cond(t, self)
        if r is not None:
            return r
        if t.is_const:
            return bool(t.value)
        o, a = t.op, t.args
        if o == 'not':
            return not self.truth(a[0])
        if o == 'invert' or (o == 'un' and a[0] in ('~', 'Invert', 'not', 'Not')):
            return not self.truth(a[-1])
        if o == 'and' or (o == 'bin' and a[0] in ('&', 'BitAnd')):
            xs = a[0] if o == 'and' else a[1:]
            # keep short-circuit: an undecided operand after a false one does not matter
            und = None
            for x in xs:
                try:
                    if not self.truth(x):
                        return False
                except Undecided as e:
                    und = e
            if und:
                raise und
            return True
        if o == 'or' or (o == 'bin' and a[0] in ('|', 'BitOr')):
            xs = a[0] if o == 'or' else a[1:]
            und = None
            for x in xs:
                try:
                    if self.truth(x):
                        return True
                except Undecided as e:
                    und = e
            if und:
                raise und
            return False
        if o == 'phi':
            return self.truth(a[1] if self.truth(a[0]) else a[2])
        if o == 'idx':
            return self.truth_idx(t)
        if o == 'cmp':
            if a[0] in ('==', '!=') and all(isinstance(x, T) for x in a[1:]):
                try:
                    d = self.ev(a[1]) - self.ev(a[2])
                except (Undecided, TypeError):
                    d = None
                if d is not None and d.const() is not None:
                    return (d.const() == 0) == (a[0] == '==')
            if a[0] == 'in' and a[2].op in ('tuple', 'list', 'set'):
                vals = [self.cond(T('cmp', '==', a[1], x), self) for x in a[2].args[0]]
                if all(v is not None for v in vals):
                    return any(vals)
        if o == 'call':
            k, n, r = fname(a[0])
            if k == 'np' and n in ('logical_not', 'invert'):
                return not self.truth(a[1][0])
            if k == 'np' and n == 'logical_and':
                return self.truth(a[1][0]) and self.truth(a[1][1])
            if k == 'np' and n == 'logical_or':
                return self.truth(a[1][0]) or self.truth(a[1][1])
            if k == 'np' and n in ('where', 'nonzero', 'flatnonzero') and len(a[1]) == 1:
                return self.truth(a[1][0])
            if k == 'np' and n in ('not_equal', 'equal'):
                return self.truth(T('cmp', '!=' if n == 'not_equal' else '==', a[1][0], a[1][1]))
            if k == 'meth' and n == 'nonzero':
                return self.truth(r)
            if k == 'meth' and n == 'astype':
                return self.truth(r)
        if o in ('attr', 'bin', 'call') and not (o == 'bin' and a[0] in ('<', '>')):
            # an array used as truth value
            try:
                p = self.ev(t)
            except Undecided:
                p = None
            if p is not None and p.const() is not None:
                return p.const() != 0
        raise Undecided('condition %s' % show(t)[:200])

    def truth_idx(self, t):
        key = t.args[1]
        if key.is_const and key.value == 0 and t.args[0].op == 'call':
            k, n, r = fname(t.args[0].args[0])
            if n in ('where', 'nonzero'):
                return self.truth(t.args[0])
        if self.is_newaxis(key):
            return self.truth(t.args[0])
        if self.index_at(key) is not None:
            return self.sub_at(self.index_at(key)).truth(t.args[0])
        return self.truth(t.args[0])

    # ------------------------------------------------------------ values
    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._ev(t)
        self.memo[t] = r
        return r

    @staticmethod
    def is_newaxis(key):
        items = key.args[0] if key.op == 'tuple' else (key,)
        ok = False
        for x in items:
            if x is NONE or (x.op == 'attr' and x.args[1] == 'newaxis') or \
                    (x.op == 'global' and str(x.args[0]).endswith('newaxis')):
                ok = True
            elif (x.op == 'slice' and all(y is NONE for y in x.args)) or (x.is_const and x.value is Ellipsis):
                pass
            else:
                return False
        return ok

    @staticmethod
    def full(key):
        items = key.args[0] if key.op == 'tuple' else (key,)
        return all((x.op == 'slice' and all(y is NONE for y in x.args)) or (x.is_const and x.value is Ellipsis)
                   for x in items)

    def index_at(self, key):
        """name of the fixed position a key like [:,:,k] selects, None otherwise"""
        if key.op != 'tuple':
            return None
        items = [x for x in key.args[0]]
        if not items:
            return None
        fix = [x for x in items if not ((x.op == 'slice' and all(y is NONE for y in x.args)) or
                                        (x.is_const and x.value is Ellipsis))]
        if len(fix) == 1 and fix[0] is items[-1] and fix[0].op != 'slice' and not self.is_mask(fix[0]):
            return show(fix[0])
        if len(fix) == 1 and fix[0] is items[-1] and fix[0].op == 'slice':
            # k:k+1 keeps the axis
            lo, hi, step = fix[0].args
            if step is NONE and lo is not NONE and hi is not NONE:
                try:
                    if (self.ev(hi) - self.ev(lo)).const() == 1:
                        return show(lo)
                except Undecided:
                    pass
        return None

    @staticmethod
    def is_mask(k):
        return k.op in ('cmp', 'not', 'and', 'or') or (k.op == 'call' and k.args[0].op == 'attr' and
                                                       k.args[0].args[1] in ('where', 'nonzero', 'isfinite'))

    def div(self, a, b):
        try:
            return a / b
        except ZeroDivisionError:
            self.div0.append(b)
            raise Undecided('division by zero')

    def bin(self, op, a, b):
        op = BIN.get(op, op)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return self.div(a, b)
        if op == '**':
            c = b.const()
            if c is not None and c.denominator == 1:
                if c < 0 and a.is_zero():
                    self.div0.append(b)
                    raise Undecided('division by zero')
                return a ** int(c)
            if c == Fraction(1, 2):
                return poly.sqrt(a)
            if c == Fraction(-1, 2):
                return self.div(poly.ONE, poly.sqrt(a))
            return poly.exp(b * poly.fn('log', a))
        raise Undecided('operator %s' % op)

    def _ev(self, t):
        r = self.name(t, self)
        if r is not None:
            return r if isinstance(r, P) else sym(r)
        o, a = t.op, t.args
        if o == 'const':
            if isinstance(t.value, bool) or t.value is None or isinstance(t.value, str):
                raise Undecided('value %r' % (t.value,))
            if isinstance(t.value, complex):
                return lift(t.value.real) + lift(t.value.imag) * poly.I
            return lift(t.value)
        if o == 'phi':
            return self.ev(a[1] if self.truth(a[0]) else a[2])
        if o == 'fill':
            return self.ev(a[0])
        if o == 'upd':
            x, key, op, v = a
            if isinstance(key, T) and (self.full(key)):
                hit = True
            elif self.index_at(key) is not None:
                pos = self.index_at(key)
                hit = self.at == pos
                if not hit and self.at is None:
                    hit = False        # a general position is not the special one
            else:
                hit = self.truth(key)
            if not hit:
                return self.ev(x)
            if op == '=':
                return self.ev(v)
            return self.bin(op, self.ev(x), self.ev(v))
        if o == 'idx':
            if self.is_newaxis(a[1]) or self.full(a[1]):
                return self.ev(a[0])
            pos = self.index_at(a[1])
            if pos is not None:
                return self.sub_at(pos).ev(a[0])
            # a[mask] inside an update under the same mask
            if a[1].op in ('cmp', 'not', 'and', 'or', 'call', 'bin', 'un', 'invert', 'phi', 'attr'):
                if not self.truth(a[1]):
                    raise Undecided('element read outside its selection: %s' % show(t)[:100])
                return self.ev(a[0])
            raise Undecided('element %s' % show(t)[:160])
        if o == 'bin':
            if a[0] in ('*', 'Mult'):
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if self.is_mask(x):
                        return self.ev(y) if self.truth(x) else poly.ZERO
            return self.bin(a[0], self.ev(a[1]), self.ev(a[2]))
        if o == 'un':
            if a[0] in ('-', 'USub'):
                return -self.ev(a[1])
            if a[0] in ('+', 'UAdd'):
                return self.ev(a[1])
        if o == 'neg':
            return -self.ev(a[0])
        if o == 'attr':
            if a[1] == 'T':
                return self.ev(a[0])
            if a[1] == 'real':
                return poly.re(self.ev(a[0])) if hasattr(poly, 're') else self.fail(t)
        if o == 'call':
            return self.call(t)
        if o in ('global',) and str(a[0]).endswith('pi'):
            return sym('pi')
        return self.fail(t)

    def fail(self, t):
        raise Undecided('value %s' % show(t)[:200])

    def call(self, t):
        f, args, kw = t.args
        k, n, r = fname(f)
        kwd = dict(kw)
        if k == 'np':
            if n in UFUNC and 'where' not in kwd:
                n = REN.get(n, n)
                xs = [self.ev(x) for x in args]
                return poly.fn(n, *xs)
            if n in NPBIN and len(args) >= 2:
                return self.bin(NPBIN[n], self.ev(args[0]), self.ev(args[1]))
            if n == 'negative':
                return -self.ev(args[0])
            if n == 'square':
                x = self.ev(args[0])
                return x * x
            if n == 'reciprocal':
                return self.div(poly.ONE, self.ev(args[0]))
            if n == 'hypot':
                x, y = self.ev(args[0]), self.ev(args[1])
                return poly.sqrt(x * x + y * y)
            if n == 'where' and len(args) == 3:
                return self.ev(args[1] if self.truth(args[0]) else args[2])
            if n == 'clip':
                return self.ev(args[0])
            if n in ('maximum', 'minimum'):
                # clamping by a constant does nothing for values in range
                for x, y in ((args[0], args[1]), (args[1], args[0])):
                    if y.is_const or (y.op in ('un', 'neg') and y.args[-1].is_const):
                        return self.ev(x)
            if n in ('array', 'asarray', 'ascontiguousarray', 'copy', 'atleast_1d', 'ravel', 'broadcast_to', 'squeeze',
                     'expand_dims', 'repeat', 'asanyarray'):
                return self.ev(args[0])
            if n in ('zeros', 'zeros_like'):
                return poly.ZERO
            if n in ('ones', 'ones_like'):
                return poly.ONE
            if n in ('full', 'full_like'):
                return self.ev(args[1])
            if n == 'nan_to_num':
                return self.ev(args[0])
            if n in ('real', 'imag', 'conj', 'conjugate', 'outer', 'sum', 'dot', 'diag'):
                return self.fail(t)
        if k == 'fn' and n in ('abs', 'float', 'complex') and len(args) == 1:
            x = self.ev(args[0])
            return poly.fn('abs', x) if n == 'abs' else x
        if k == 'meth' and n in VIEWS:
            return self.ev(r)
        if k == 'meth' and n == 'clip':
            return self.ev(r)
        return self.fail(t)
