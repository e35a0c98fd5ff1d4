"""Normal forms of algebraic expressions: polynomials with integer exponents over opaque atoms.

Atoms are tuples: ('sym', name), ('I',), ('conj', atom), ('inv', key), ('sqrt', key), ('fn', name, keys...),
('exp', key).  Two expressions that are equal by field arithmetic, exp/log/sqrt laws for positive arguments and
complex conjugation have difference zero (see `equal`); the converse holds up to identities of the opaque functions.
"""
from fractions import Fraction

_cache = {}


class TooBig(Exception):
    """a normal form grew beyond the limit set by the caller"""


# amount of work (terms and term products) allowed from here on (None: no limit)
LIMIT = [None]


class P:
    __slots__ = ('d', 'key')

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c != 0}
        if LIMIT[0] is not None:
            LIMIT[0] -= 5 + len(self.d)
            if LIMIT[0] < 0:
                raise TooBig()
        self.key = tuple(sorted(self.d.items(), key=lambda kv: repr(kv[0])))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, P) and self.key == o.key

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return P(d)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        out = ZERO_D.copy()
        if LIMIT[0] is not None:
            LIMIT[0] -= len(self.d) * len(o.d)
            if LIMIT[0] < 0:
                raise TooBig()
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                for m, c in mono_mul(m1, m2).d.items():
                    out[m] = out.get(m, 0) + c * c1 * c2
        return P(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    def __pow__(self, n):
        if isinstance(n, int):
            if n < 0:
                return inv(self) ** (-n)
            r = ONE
            for _ in range(n):
                r = r * self
            return r
        raise ValueError(n)

    def is_zero(self):
        return not self.d

    def const(self):
        """the Fraction if constant, else None"""
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def mono(self):
        return len(self.d) == 1

    def atoms(self):
        return {a for m in self.d for a, _ in m}

    def __repr__(self):
        return text(self)


ZERO_D = {}


def lift(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return P({(): Fraction(x)})
    if isinstance(x, float):
        return P({(): Fraction(repr(x))})
    if isinstance(x, Fraction):
        return P({(): x})
    raise TypeError(x)


def atom(a, e=1):
    return P({((a, e),): Fraction(1)})


def sym(name):
    return atom(('sym', name))


def from_key(key):
    return P(dict(key))


def mono_mul(m1, m2):
    k = (m1, m2)
    if k in _cache:
        return _cache[k]
    ex = {}
    exps = []
    for a, e in list(m1) + list(m2):
        if a[0] == 'exp':
            exps.append(from_key(a[1]) * e)
        else:
            ex[a] = ex.get(a, 0) + e
    extra = ONE
    coef = Fraction(1)
    out = {}
    for a, e in ex.items():
        if e == 0:
            continue
        if a[0] == 'I':
            e %= 4
            if e >= 2:
                coef = -coef
                e -= 2
            if e:
                out[a] = e
        elif a[0] == 'sqrt' and (e >= 2 or e <= -2):
            q, r = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            extra = extra * from_key(a[1]) ** q
            if r:
                out[a] = r
        elif a[0] == 'inv' and e < 0:
            extra = extra * from_key(a[1]) ** (-e)
        else:
            out[a] = e
    if exps:
        s = exps[0]
        for x in exps[1:]:
            s = s + x
        y = exp(s)
        if y.mono() and all(a[0] == 'exp' and e == 1 for m in y.d for a, e in m):
            for m, c in y.d.items():
                coef *= c
                for a, e in m:
                    out[a] = e
        else:
            extra = extra * y
    m = tuple(sorted(out.items(), key=repr))
    r = P({m: coef})
    if extra is not ONE and extra != ONE:
        r = raw_mul(r, extra)
    _cache[k] = r
    return r


def raw_mul(a, b):
    out = P({})
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            out = out + P({k: v * c1 * c2 for k, v in mono_mul(m1, m2).d.items()})
    return out


ONE = P({(): Fraction(1)})
ZERO = P({})
I = atom(('I',))


def content(p):
    """(scale, primitive part) so that equal-up-to-scale polynomials share an 'inv' atom"""
    m, c = p.key[0]
    return c, P({k: v / c for k, v in p.d.items()})


def inv(p):
    if p.is_zero():
        raise ZeroDivisionError
    if p.mono():
        (m, c), = p.d.items()
        out = P({(): 1 / c})
        for a, e in m:
            if a[0] == 'I':
                out = out * (-I if e % 2 else 1)
            elif a[0] == 'inv':
                out = out * from_key(a[1]) ** e
            elif a[0] == 'exp':
                out = out * exp(-(from_key(a[1]) * e))
            else:
                out = out * atom(a, -e)
        return out
    c, q = content(p)
    return atom(('inv', q.key)) * (1 / c)


def exp(p):
    p = lift(p)
    if p.is_zero():
        return ONE
    # exp(n log x) = x^n
    rest, out = p, ONE
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', 'log') and c.denominator == 1:
            rest = rest - P({m: c})
            out = out * from_key(m[0][0][2]) ** int(c)
    if rest.is_zero():
        return out
    r = atom(('exp', rest.key))
    return r if out == ONE else r * out


def sqrt(p):
    p = lift(p)
    c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return lift(Fraction(n, d))
    if p.mono():
        (m, c), = p.d.items()
        if c > 0 and m and all(e % 2 == 0 for a, e in m):
            return sqrt(lift(c)) * P({tuple((a, e // 2) for a, e in m): Fraction(1)})
    return atom(('sqrt', p.key))


# g(f(x)) = x on the range used here (angles between 0 and pi)
INVERSE = {'arcsin': 'sin', 'arccos': 'cos', 'sin': 'arcsin', 'cos': 'arccos', 'tan': 'arctan', 'arctan': 'tan'}


def fn(name, *args):
    args = [lift(a) for a in args]
    p = args[0]
    if name == 'exp':
        return exp(p)
    if name == 'sqrt':
        return sqrt(p)
    if name == 'log':
        if p == ONE:
            return ZERO
        if p.mono():
            (m, c), = p.d.items()
            if c > 0:
                s = ZERO
                if c != 1:
                    for v, g in ((c.numerator, 1), (c.denominator, -1)):
                        if v != 1:
                            s = s + g * atom(('fn', 'log', lift(v).key))
                for a, e in m:
                    if a[0] == 'exp':
                        s = s + e * from_key(a[1])
                    elif a[0] == 'sqrt':
                        s = s + Fraction(e, 2) * fn('log', from_key(a[1]))
                    elif a[0] == 'inv':
                        s = s - e * fn('log', from_key(a[1]))
                    else:
                        s = s + e * atom(('fn', 'log', atom(a).key))
                return s
    inner = INVERSE.get(name)
    if inner and p.mono():
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', inner):
            return from_key(m[0][0][2])
    if name in ('cos', 'abs') and p.key and p.key[0][1] < 0:
        p = -p
    if name in ('sin', 'tan', 'arcsin', 'arctan') and p.key and p.key[0][1] < 0:
        return -fn(name, -p)
    if p.is_zero() and name in ('sin', 'tan', 'arcsin', 'arctan', 'abs'):
        return ZERO
    if p.is_zero() and name == 'cos':
        return ONE
    if name == 'abs':
        c = p.const()
        if c is not None:
            return lift(abs(c))
    return atom(('fn', name, p.key) + tuple(a.key for a in args[1:]))


def conj(p, real=lambda a: True):
    """complex conjugate; real(atom) tells which symbols are real"""
    out = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            t = t * (atom_conj(a, real) ** e if e > 0 else inv(atom_conj(a, real) ** (-e)))
        out = out + t
    return out


def atom_conj(a, real):
    k = a[0]
    if k == 'I':
        return -I
    if k == 'conj':
        return atom(a[1])
    if k == 'exp':
        return exp(conj(from_key(a[1]), real))
    if k == 'inv':
        return inv(conj(from_key(a[1]), real))
    if k == 'sqrt':
        return sqrt(conj(from_key(a[1]), real))
    if real(a):
        return atom(a)
    return atom(('conj', a))


def clear(p):
    """multiply by denominators until no 'inv' atom is left"""
    for _ in range(40):
        invs = {a for a in p.atoms() if a[0] == 'inv'}
        if not invs:
            return p
        a = sorted(invs, key=repr)[0]
        k = max(e for m in p.d for b, e in m if b == a)
        q = from_key(a[1])
        out = ZERO
        for m, c in p.d.items():
            e = dict(m).get(a, 0)
            rest = P({tuple(x for x in m if x[0] != a): c})
            out = out + rest * q ** (k - e)
        p = out
    return p


def rationalise(p):
    """remove negative powers of square roots"""
    for _ in range(20):
        neg = [(a, e) for m in p.d for a, e in m if a[0] == 'sqrt' and e < 0]
        if not neg:
            return p
        a = neg[0][0]
        k = max(-e for b, e in neg if b == a)
        p = p * atom(a) ** k
    return p


def equal(a, b):
    d = clear(lift(a) - lift(b))
    if d.is_zero():
        return True
    d = clear(rationalise(d))
    return d.is_zero()


def subs(p, mp):
    """replace atoms by polynomials"""
    out = ZERO
    for m, c in p.d.items():
        t = lift(c)
        for a, e in m:
            v = mp.get(a)
            if v is None:
                v = atom_subs(a, mp)
            t = t * (v ** e if e > 0 else inv(v) ** (-e))
        out = out + t
    return out


def atom_subs(a, mp):
    if a[0] == 'inv':
        return inv(subs(from_key(a[1]), mp))
    if a[0] == 'sqrt':
        return sqrt(subs(from_key(a[1]), mp))
    if a[0] == 'exp':
        return exp(subs(from_key(a[1]), mp))
    if a[0] == 'fn':
        return fn(a[1], *[subs(from_key(k), mp) for k in a[2:]])
    if a[0] == 'conj':
        return atom(a)
    return atom(a)


def text(p, d=0):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda kv: repr(kv[0])):
        fs = [atext(a, d) + ('' if e == 1 else '^%d' % e) for a, e in m]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append('*'.join(fs))
    return ' + '.join(out)


def atext(a, d):
    if d > 4:
        return '..'
    k = a[0]
    if k == 'sym':
        return str(a[1])
    if k == 'I':
        return 'i'
    if k == 'conj':
        return 'conj(%s)' % atext(a[1], d + 1)
    if k == 'inv':
        return '1/(%s)' % text(from_key(a[1]), d + 1)
    if k in ('sqrt', 'exp'):
        return '%s(%s)' % (k, text(from_key(a[1]), d + 1))
    if k == 'fn':
        return '%s(%s)' % (a[1], ', '.join(text(from_key(x), d + 1) for x in a[2:]))
    return str(a)
