"""Unit inference: powers of the user's units in array and scalar terms.

Every quantity has a vector of unit powers: a separation given by the user has power -1 of `sep`, the conversion factor
_sep_units has power +1, so a converted separation has power 0; the logarithm of a quantity is tracked as such (adding
log(_sep_units) to a log separation converts it).  Sums, comparisons and choices need equal powers; the arguments of
exp, sin, ... need power 0.  A term whose pieces disagree is reported as a problem instead of getting a power.
"""
from fractions import Fraction

from .pyflow import T, NONE, show
from .elem import fname

ANY, NIL, UNK = ('any',), ('none',), ('unk',)
ZERO = ('m', ())


def m(**kw):
    return ('m', tuple(sorted((k, Fraction(v)) for k, v in kw.items() if v)))


def norm(kind, vec):
    v = tuple(sorted((k, x) for k, x in vec.items() if x))
    if kind == 'l' and not v:
        kind = 'm'
    return (kind, v)


def scale(d, f):
    return norm(d[0], {k: v * f for k, v in d[1]})


def text(d):
    if d[0] == 'any':
        return 'a constant zero'
    if d[0] == 'none':
        return 'None'
    if d[0] == 'unk':
        return 'unknown'
    s = 'user units' if any(v < 0 for _, v in d[1]) else 'internal units'
    p = ', '.join('%s^%s' % (k, v) for k, v in d[1]) or 'no factor'
    return ('log of ' if d[0] == 'l' else '') + (p if d[1] else 'internal units')


PASS = {'float', 'abs', 'fabs', 'array', 'asarray', 'ascontiguousarray', 'ravel', 'reshape', 'tile', 'copy', 'sorted',
        'flatten', 'broadcast_to', 'transpose', 'real', 'squeeze', 'atleast_1d', 'astype', 'view', 'sum', 'mean',
        'absolute', 'repeat', 'zeros_like_', 'flip', 'list', 'tuple', 'asanyarray', 'nan_to_num', 'cumsum'}
FREE = {'sin', 'cos', 'tan', 'exp', 'arcsin', 'arccos', 'arctan', 'asin', 'acos', 'atan', 'ceil', 'floor', 'int', 'log10'}
ZEROS = {'zeros', 'zeros_like', 'empty', 'empty_like'}
SAME = {'min', 'max', 'maximum', 'minimum', 'fmin', 'fmax', 'linspace', 'arange', 'concatenate', 'hypot', 'stack',
        'hstack', 'vstack', 'append', 'clip'}


class Dims:
    """env(term) -> dim or None (not known here); cond(term) -> True / False / None."""

    def __init__(self, env, cond=None, nones=None):
        self.env = env
        self.nones = nones or {}        # parameters that are (True) / are not (False) None in the case looked at
        self.cond = cond or (lambda t: None)
        self.memo = {}
        self.bad = []
        self.assume = ()

    def dims(self, t):
        """set of the dims the term may have"""
        key = (t, self.assume)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = {UNK}     # (recursion guard)
            r = self._dims(t)
            if len(r) > 1 and NIL in r:
                r = r - {NIL}
            if len(r) > 1 and ANY in r:
                r = r - {ANY}
            self.memo[key] = r
        return r

    def isnone(self, c):
        """(X, True) if c says X is None, (X, False) if it says it is not"""
        if c.op == 'not':
            r = self.isnone(c.args[0])
            return r and (r[0], not r[1])
        if c.op == 'is' and c.args[1] is NONE:
            return c.args[0], True
        if c.op == 'cmp' and c.args[0] in ('is', '==') and c.args[2] is NONE:
            return c.args[1], True
        if c.op == 'cmp' and c.args[0] in ('is not', '!=') and c.args[2] is NONE:
            return c.args[1], False
        return None

    def pushed(self, c, val, t):
        """dims of t assuming condition c is val"""
        old = self.assume
        d = dict(old)
        d[c] = val
        n = self.isnone(c)
        if n:
            d[('none', n[0])] = (n[1] == val)
        self.assume = tuple(sorted(d.items(), key=lambda x: (hash(x[0]), x[1])))
        try:
            return self.dims(t)
        finally:
            self.assume = old

    def known(self, c):
        r = self.cond(c)
        if r is not None:
            return r
        d = dict(self.assume)
        if c in d:
            return d[c]
        n = self.isnone(c)
        if n and ('none', n[0]) in d:
            return d[('none', n[0])] == n[1]
        if n:
            x = self.never_none(n[0], d)
            if x is not None:
                return (x == 'none') == n[1]
        if c.is_const:
            return bool(c.value)
        if c.op == 'not':
            r = self.known(c.args[0])
            return None if r is None else not r
        if c.op in ('and', 'or'):
            rs = [self.known(x) for x in c.args[0]]
            stop = c.op == 'or'
            if stop in rs:
                return stop
            if None not in rs:
                return not stop
        return None

    def never_none(self, x, d):
        """'none' / 'value' / None: whether the value is None under the assumptions"""
        if x is NONE:
            return 'none'
        if x.op == 'param' and ('none', x) in d:
            return 'none' if d[('none', x)] else 'value'
        if x.op == 'param' and x.args[0] in self.nones:
            return 'none' if self.nones[x.args[0]] else 'value'
        if x.op == 'phi':
            k = self.known(x.args[0])
            if k is not None:
                return self.never_none(x.args[1] if k else x.args[2], d)
            a, b = (self.never_none(y, d) for y in x.args[1:3])
            return a if a == b else None
        if x.op in ('bin', 'upd', 'fill', 'copyof', 'list', 'tuple', 'dict') or (x.is_const and x is not NONE):
            return 'value'
        if x.op == 'call' and fname(x.args[0])[0] == 'np':
            return 'value'
        return None

    # ---------------------------------------------------------------- combinations
    def prod(self, f, *sets):
        out = set()
        import itertools
        n = 1
        for s in sets:
            n *= len(s)
        if n > 64:
            return {UNK}
        for c in itertools.product(*sets):
            out.add(f(*c))
        return out

    def same(self, t, *ds):
        """all of them the same power"""
        ds = [d for d in ds if d not in (ANY, NIL)]
        if not ds:
            return ANY
        if UNK in ds:
            return UNK
        if len(set(ds)) > 1:
            # powers of 0 next to a log: a pure number offset of a log
            ls = [d for d in ds if d[0] == 'l']
            self.problem(t, ' and '.join(sorted(set(text(d) for d in ds))) + ' are mixed')
            return UNK
        return ds[0]

    def problem(self, t, msg):
        self.bad.append((t, msg))

    def mul(self, t, a, b, sign=1):
        if ANY == a or (ANY == b and sign > 0):
            return ANY
        if UNK in (a, b) or NIL in (a, b) or b == ANY:
            return UNK
        if a[0] == 'l' or b[0] == 'l':
            o = b if a[0] == 'l' else a
            if o == ZERO or o[0] == 'l':
                return UNK
            self.problem(t, 'a logarithm is multiplied by %s' % text(o))
            return UNK
        d = dict(a[1])
        for k, v in b[1]:
            d[k] = d.get(k, 0) + sign * v
        return norm('m', d)

    def add(self, t, a, b, sign=1):
        if a in (ANY, NIL):
            return b
        if b in (ANY, NIL):
            return a
        if UNK in (a, b):
            return UNK
        if a[0] == 'l' or b[0] == 'l':
            if (a[0] == 'm' and a[1]) or (b[0] == 'm' and b[1]):
                self.problem(t, '%s is added to %s' % (text(a), text(b)))
                return UNK
            d = dict(a[1])
            for k, v in b[1]:
                d[k] = d.get(k, 0) + sign * v
            return norm('l', d)
        return self.same(t, a, b)

    def free(self, t, d):
        if d in (ANY, NIL, UNK):
            return ZERO if d != UNK else UNK
        if d[1]:
            self.problem(t, 'applied to %s' % text(d))
            return UNK
        return ZERO

    # ---------------------------------------------------------------- terms
    def _dims(self, t):
        if dict(self.assume).get(('none', t)):
            return {NIL}
        r = self.env(t)
        if r is not None:
            return r if isinstance(r, (set, frozenset)) else {r}
        o, a = t.op, t.args
        if t is NONE:
            return {NIL}
        if o == 'const':
            if isinstance(t.value, (int, float)) and not isinstance(t.value, bool):
                if t.value == 0 or t.value != t.value or abs(t.value) == float('inf'):
                    return {ANY}
            return {ZERO}
        if o == 'phi':
            k = self.known(a[0])
            if k is not None:
                return self.dims(a[1] if k else a[2])
            self.check_cond(a[0])
            return self.pushed(a[0], True, a[1]) | self.pushed(a[0], False, a[2])
        if o == 'fill':
            return self.dims(a[0])
        if o in ('idx',):
            return self.dims(a[0])
        if o == 'elem':
            return self.dims(a[1]) if len(a) > 1 and isinstance(a[1], T) else {UNK}
        if o == 'upd':
            x, key, op, v = a
            if op == '=':
                if key.op == 'slice' or key.is_const and key.value is Ellipsis:
                    return self.dims(v)
                return self.prod(lambda p, q: self.same(t, p, q), self.dims(x), self.dims(v))
            return self.binop(t, op, self.dims(x), self.dims(v), v)
        if o == 'bin':
            return self.binop(t, a[0], self.dims(a[1]), self.dims(a[2]), a[2])
        if o in ('un', 'neg'):
            return self.dims(a[-1])
        if o in ('tuple', 'list') and isinstance(a[0], tuple):
            ds = [self.dims(x) for x in a[0]]
            if not ds or len(ds) > 6:
                return {UNK}
            return self.prod(lambda *q: self.same(t, *q), *ds)
        if o == 'attr':
            if a[1] in ('T', 'real', 'imag'):
                return self.dims(a[0])
            if a[1] == 'pi':
                return {ZERO}
            if a[1] in ('inf', 'nan'):
                return {ANY}
            if a[1] in ('shape', 'size', 'ndim'):
                return {ZERO}
            return {UNK}
        if o == 'global':
            if str(a[0]).endswith('pi'):
                return {ZERO}
            return {UNK}
        if o in ('cmp', 'not', 'and', 'or', 'is', 'in'):
            self.check_cond(t)
            return {ZERO}
        if o == 'call':
            return self.call(t)
        return {UNK}

    def check_cond(self, c):
        if c.op == 'cmp' and c.args[0] in ('<', '<=', '>', '>=', '==', '!='):
            xs = c.args[1:3]
            if any(x.is_const and isinstance(x.value, (str, bool)) for x in xs):
                return
            self.prod(lambda p, q: self.same(c, p, q), self.dims(xs[0]), self.dims(xs[1]))
        elif c.op in ('and', 'or'):
            for x in c.args[0]:
                self.check_cond(x)
        elif c.op == 'not':
            self.check_cond(c.args[0])

    def binop(self, t, op, A, B, bterm):
        if op in ('+', '-'):
            return self.prod(lambda p, q: self.add(t, p, q, 1 if op == '+' else -1), A, B)
        if op == '*':
            return self.prod(lambda p, q: self.mul(t, p, q), A, B)
        if op in ('/', '//', '%'):
            if op != '/':
                return {UNK}
            return self.prod(lambda p, q: self.mul(t, p, q, -1), A, B)
        if op == '**':
            if bterm.is_const and isinstance(bterm.value, (int, float)):
                f = Fraction(bterm.value)
                return self.prod(lambda p: scale(p, f) if p[0] == 'm' else UNK, A)
            return self.prod(lambda p: ZERO if p == ZERO else UNK, A)
        return {UNK}

    def call(self, t):
        f, args, kw = t.args
        k, n, r = fname(f)
        kwd = dict(kw)
        if k == 'meth' and n in PASS:
            return self.dims(r)
        if k in ('np', 'fn'):
            if n in PASS and args:
                return self.dims(args[0])
            if n in ZEROS:
                return {ANY}
            if n == 'log':
                ds = self.prod(lambda d: norm('l', dict(d[1])) if d[0] == 'm' else (ZERO if d == ANY else UNK),
                               self.dims(args[0]))
                return ds
            if n == 'exp':
                return self.prod(lambda d: norm('m', dict(d[1])) if d[0] == 'l' else self.free(t, d), self.dims(args[0]))
            if n in FREE and args:
                return self.prod(lambda d: self.free(t, d), self.dims(args[0]))
            if n == 'sqrt':
                return self.prod(lambda d: scale(d, Fraction(1, 2)) if d[0] == 'm' else d, self.dims(args[0]))
            if n in SAME and args:
                xs = list(args[:2]) + [kwd[q] for q in ('start', 'stop') if q in kwd]
                if n in ('concatenate', 'stack', 'hstack', 'vstack'):
                    xs = xs[:1]
                return self.prod(lambda *q: self.same(t, *q), *[self.dims(x) for x in xs])
            if n in ('linspace',):
                xs = [kwd[q] for q in ('start', 'stop') if q in kwd]
                return self.prod(lambda *q: self.same(t, *q), *[self.dims(x) for x in xs]) if xs else {UNK}
            if n == 'meshgrid':
                return self.dims(args[0])
            if n == 'where' and len(args) == 3:
                return self.prod(lambda *q: self.same(t, *q), self.dims(args[1]), self.dims(args[2]))
            if n in ('multiply', 'divide', 'add', 'subtract') and len(args) > 1:
                return self.binop(t, {'multiply': '*', 'divide': '/', 'add': '+', 'subtract': '-'}[n],
                                  self.dims(args[0]), self.dims(args[1]), args[1])
        return {UNK}
