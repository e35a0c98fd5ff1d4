"""Guards of recorded events decided for one combination of absent and present inputs.

A World fixes which arguments and settings are absent, which are present, what sign and order the present numbers
have and how long the present arrays are.  Conditions recorded by pyflow are decided from that alone; whatever it
does not decide is unknown (Unk), never guessed.
"""
import math

from .pyflow import T, show


class Unk(Exception):
    pass


class Num:
    """a number known by its sign and, among numbers with the same scale, its rank"""
    __slots__ = ('sign', 'rank')

    def __init__(self, sign, rank=None):
        self.sign, self.rank = sign, rank

    def __eq__(self, o):
        return isinstance(o, Num) and (self.sign, self.rank) == (o.sign, o.rank)

    def __hash__(self):
        return hash((self.sign, self.rank))

    def __repr__(self):
        return {-1: 'negative', 0: 'zero', 1: 'positive'}.get(self.sign, 'number')


class Arr:
    def __init__(self, name, n):
        self.name, self.n = name, n

    def __repr__(self):
        return 'array'


class Cfg:
    """a dictionary of settings"""

    def __init__(self, d):
        self.d = d


class Known:
    """an object of which only identity matters"""

    def __init__(self, name):
        self.name = name


def sign(v):
    if isinstance(v, Num):
        return v.sign
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise Unk()
    return (v > 0) - (v < 0)


def rank(v):
    if isinstance(v, Num):
        return v.rank
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return None
    raise Unk()


def scale(v):
    return v.rank if isinstance(v, Num) else v


def isnum(v):
    return isinstance(v, Num) or isinstance(v, (int, float)) and not isinstance(v, bool)


class World:
    def __init__(self, params, config, attrs=None, exc=None, hook=None):
        self.params, self.config, self.attrs = params, Cfg(config), attrs or {}
        self.exc, self.hook = exc, hook
        self.memo = {}

    # -- truth
    def true(self, t):
        v = self.ev(t)
        if isinstance(v, (Cfg, Known)):
            return True
        if isinstance(v, Arr):
            raise Unk()
        if isinstance(v, Num):
            if v.sign is None:
                raise Unk()
            return v.sign != 0
        return bool(v)

    def ev(self, t):
        if t not in self.memo:
            self.memo[t] = Unk
            try:
                self.memo[t] = ('v', self._ev(t))
            except Unk:
                self.memo[t] = Unk
        r = self.memo[t]
        if r is Unk:
            raise Unk()
        return r[1]

    def junction(self, xs, stop):
        unk = False
        for x in xs:
            try:
                if self.true(x) == stop:
                    return stop
            except Unk:
                unk = True
        if unk:
            raise Unk()
        return not stop

    def _ev(self, t):
        o, a = t.op, t.args
        if self.hook:
            r = self.hook(self, t)
            if r is not None:
                return r[0]
        if o == 'const':
            return a[0]
        if o == 'param':
            if a[0] in self.params:
                return self.params[a[0]]
            raise Unk()
        if o == 'attr':
            if a[0].op == 'param' and a[0].args[0] == 'self':
                if a[1] in ('config', 'orig_config'):
                    return self.config
                if a[1] in self.attrs:
                    return self.attrs[a[1]]
            if a[0].op == 'param' and (a[0].args[0], a[1]) in self.attrs:
                return self.attrs[(a[0].args[0], a[1])]
            if a[1] == 'pi':
                return math.pi
            if a[1] in ('e', 'inf') or a[1] == 'max' and a[0].op == 'attr' and a[0].args[1] == 'float_info':
                return Num(1, None)
            raise Unk()
        if o == 'exc':
            if self.exc is None:
                raise Unk()
            return self.exc
        if o == 'phi':
            try:
                c = self.true(a[0])
            except Unk:
                x, y = self.ev(a[1]), self.ev(a[2])
                if x is y or type(x) is type(y) and not isinstance(x, (Arr, Cfg, Known)) and x == y:
                    return x
                raise
            return self.ev(a[1] if c else a[2])
        if o == 'not':
            return not self.true(a[0])
        if o == 'and':
            return self.junction(a[0], False)
        if o == 'or':
            return self.junction(a[0], True)
        if o == 'cmp':
            return self.compare(a[0], a[1], a[2])
        if o in ('tuple', 'list', 'set'):
            return [self.ev(x) for x in a[0]]
        if o == 'dict':
            return {self.ev(k): v for k, v in ((p.args[0] if isinstance(p, T) else p) for p in a[0])}
        if o == 'bin':
            return self.arith(a[0], self.ev(a[1]), self.ev(a[2]))
        if o == 'idx':
            b = self.ev(a[0])
            k = self.ev(a[1])
            if isinstance(b, Cfg):
                if k in b.d:
                    return b.d[k]
                raise Unk()
            if isinstance(b, (list, dict)) and not isinstance(k, Num):
                try:
                    return b[k]
                except Exception:
                    raise Unk()
            raise Unk()
        if o == 'upd':
            b = self.ev(a[0])
            if isinstance(b, Cfg) and len(a) > 3 and isinstance(a[3], T):
                d = dict(b.d)
                d[self.ev(a[1])] = self.ev(a[3])
                return Cfg(d)
            raise Unk()
        if o in ('neg', 'usub'):
            v = self.ev(a[0])
            if isinstance(v, (int, float)):
                return -v
            return Num(-v.sign if v.sign is not None else None, None)
        if o == 'call':
            return self.call(t)
        raise Unk()

    def compare(self, op, l, r):
        if op in ('in', 'not in'):
            k, c = self.ev(l), self.ev(r)
            if isinstance(k, (Arr, Num)):
                if isinstance(c, list) and all(isinstance(x, (str, int)) for x in c) and isinstance(k, Arr):
                    raise Unk()
            if isinstance(c, Cfg):
                r = k in c.d
            elif isinstance(c, (list, dict, str, set, frozenset)):
                r = k in c
            else:
                raise Unk()
            return r if op == 'in' else not r
        x, y = self.ev(l), self.ev(r)
        if op in ('is', 'is not', '==', '!='):
            if x is None or y is None:
                eq = x is y
            elif isinstance(x, (Arr, Cfg, Known)) or isinstance(y, (Arr, Cfg, Known)):
                if x is not y:
                    raise Unk()
                eq = True
            elif isnum(x) and isnum(y):
                if not isinstance(x, Num) and not isinstance(y, Num):
                    eq = x == y
                else:
                    s, u = sign(x), sign(y)
                    if s is None or u is None:
                        raise Unk()
                    if s != u:
                        eq = False
                    elif s == 0:
                        eq = True
                    elif rank(x) is not None and rank(y) is not None:
                        eq = rank(x) == rank(y)
                    else:
                        raise Unk()
            elif isinstance(x, Num) or isinstance(y, Num):
                eq = False
            else:
                eq = x == y
            return eq if op in ('is', '==') else not eq
        if not (isnum(x) and isnum(y)):
            raise Unk()
        if not isinstance(x, Num) and not isinstance(y, Num):
            d = (x > y) - (x < y)
        else:
            s, u = sign(x), sign(y)
            if s is None or u is None:
                raise Unk()
            if s != u:
                d = (s > u) - (s < u)
            elif s == 0:
                d = 0
            elif rank(x) is not None and rank(y) is not None:
                d = (rank(x) > rank(y)) - (rank(x) < rank(y))
            else:
                raise Unk()
        return {'<': d < 0, '>': d > 0, '<=': d <= 0, '>=': d >= 0}[op]

    def arith(self, op, x, y):
        if op == '+' and isinstance(x, str) and isinstance(y, str):
            return x + y
        if op == '%' and isinstance(x, str) and isinstance(y, (str, int)):
            return x % y
        if not (isnum(x) and isnum(y)):
            raise Unk()
        if not isinstance(x, Num) and not isinstance(y, Num) and op in '+-*':
            return {'+': x + y, '-': x - y, '*': x * y}[op]
        if not isinstance(x, Num) and not isinstance(y, Num) and op == '/' and y:
            return x / y
        s, u = sign(x), sign(y)
        if op in ('*', '/'):
            if s is None or u is None:
                return Num(None)
            k = s * u
            if op == '*' and isinstance(x, int) and x == -1 and isinstance(rank(y), (int, float)):
                return Num(k, -rank(y))
            # scaling by something positive keeps the order
            r = scale(x) if u == 1 and (isinstance(y, Num) and y.rank is None) else \
                scale(y) if op == '*' and s == 1 and isinstance(x, Num) and x.rank is None else None
            return Num(k, r)
        if op in ('+', '-'):
            if u is not None and op == '-':
                u = -u
            if s == 0 and u is not None:
                return Num(u)
            if u == 0:
                return Num(s, rank(x) if isinstance(x, Num) else None)
            return Num(s if s == u else None)
        return Num(None)

    def call(self, t):
        fn, args, kw = t.args[0], t.args[1], dict(t.args[2])
        name = fn.args[1] if fn.op == 'attr' else fn.args[0] if fn.op in ('global', 'builtin') else None
        if name == 'merge_config':
            return self.config
        if name in ('get_from_list', 'get') and fn.op != 'attr':
            c = self.ev(args[0])
            if not isinstance(c, Cfg):
                raise Unk()
            k = self.ev(args[1])
            pos = {'get_from_list': 4, 'get': 3}[name]
            d = args[pos] if len(args) > pos else kw.get('default')
            if k in c.d:
                return c.d[k]
            return self.ev(d) if d is not None else None
        if fn.op == 'attr':
            if name in ('get', 'copy', 'pop', 'setdefault', 'keys'):
                r = self.ev(fn.args[0])
                if isinstance(r, Cfg):
                    if name == 'copy':
                        return r
                    if name == 'keys':
                        return list(r.d)
                    k = self.ev(args[0])
                    return r.d[k] if k in r.d else self.ev(args[1]) if len(args) > 1 else None
                if isinstance(r, dict) and name == 'get':
                    k = self.ev(args[0])
                    return r[k] if k in r else self.ev(args[1]) if len(args) > 1 else None
                raise Unk()
            if name == 'makeArray':
                v = self.ev(args[0])
                return v
            if name == 'exp':
                return Num(1)
            if name in ('log', 'ceil', 'floor', 'sqrt', 'log10'):
                v = self.ev(args[0])
                if name in ('sqrt', 'ceil') and sign(v) in (1, 0):
                    return Num(sign(v))
                return Num(None)
            if name in ('array', 'asarray', 'ascontiguousarray', 'atleast_1d'):
                return self.ev(args[0])
            raise Unk()
        vals = [self.ev(x) for x in args]
        if name in ('float', 'int') and len(vals) == 1:
            if isnum(vals[0]):
                return vals[0]
            raise Unk()
        if name == 'bool' and len(vals) == 1:
            return self.true(args[0])
        if name == 'abs' and isnum(vals[0]):
            s = sign(vals[0])
            return Num(abs(s) if s is not None else None)
        if name in ('len',) and len(vals) == 1:
            v = vals[0]
            if isinstance(v, Arr):
                return v.n
            if isinstance(v, (list, dict, str)):
                return len(v)
            raise Unk()
        if name in ('any', 'all') and len(vals) == 1 and isinstance(vals[0], list):
            x = vals[0]
            if all(v is None or isinstance(v, (bool, int, str)) for v in x):
                return any(x) if name == 'any' else all(x)
            raise Unk()
        if name == 'isinstance' and vals and not isinstance(vals[0], (Known,)):
            ty = show(args[1])
            if ty == 'str':
                return isinstance(vals[0], str)
            raise Unk()
        if name in ('list', 'tuple', 'set', 'sorted') and len(vals) == 1 and isinstance(vals[0], (list, dict)):
            return list(vals[0])
        if name in ('max', 'min') and len(vals) > 1:
            ss = {sign(v) for v in vals}
            if len(ss) == 1 and None not in ss:
                return Num(ss.pop())
            return Num(None)
        raise Unk()


def stops(world, events):
    """'yes' (some error is certainly raised), 'no' (certainly none of those recorded) or 'unknown', and the event.

    Errors raised earlier only matter in that they are raised as well: conditions that say an earlier error was
    not raised are not needed for certainty."""
    certain = set()
    for e in events:
        if e.guards:
            certain.add(e.guards[-1])
    unk = None
    for e in events:
        state = True
        for g, b in e.guards:
            try:
                if world.true(g) != b:
                    state = False
                    break
            except Unk:
                if (g, not b) in certain and (g, b) != e.guards[-1]:
                    continue
                state = None
        if state is True:
            return 'yes', e
        if state is None:
            unk = unk or e
    return ('unknown', unk) if unk is not None else ('no', None)
