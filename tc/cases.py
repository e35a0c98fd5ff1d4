"""Reading a term in one case: conditions are decided, choices between values resolved, lists and dicts taken apart."""
from .pyflow import T, NONE, show


class Open(Exception):
    """a condition the case does not decide"""


class Pick:
    """decide(cond) -> True / False / None; None means not known here (and, or, not are taken apart first)"""

    def __init__(self, decide, default=None):
        self.decide = decide
        self.default = default
        self.memo = {}

    def truth(self, c):
        r = self.decide(c)
        if r is not None:
            return r
        if c.is_const:
            return bool(c.value)
        o, a = c.op, c.args
        if o == 'not':
            return not self.truth(a[0])
        if o in ('and', 'or'):
            und = None
            stop = o == 'or'
            for x in a[0]:
                try:
                    if self.truth(x) == stop:
                        return stop
                except Open as e:
                    und = e
            if und:
                raise und
            return not stop
        if o == 'phi':
            return self.truth(a[1] if self.truth(a[0]) else a[2])
        if o == 'call' and a[0].op == 'global' and a[0].args[0] in ('all', 'any', 'bool') and len(a[1]) == 1:
            if a[0].args[0] == 'bool':
                return self.truth(a[1][0])
            xs = self.items(a[1][0])
            if xs is not None:
                return self.truth(T('and' if a[0].args[0] == 'all' else 'or', tuple(xs)))
        if o == 'cmp' and a[0] in ('is', 'is not', '==', '!='):
            x, y = self.top(a[1]), self.top(a[2])
            pos = a[0] in ('is', '==')
            if (x, y) != (a[1], a[2]):
                return self.truth(T('cmp', a[0], x, y))
            if x.is_const and y.is_const:
                return (x.value == y.value) == pos
            if y is NONE and x.op in ('list', 'dict', 'tuple', 'upd', 'bin', 'fill', 'obj'):
                return not pos
        if o == 'cmp' and a[0] in ('<', '<=', '>', '>='):
            x, y = self.top(a[1]), self.top(a[2])
            if x.is_const and y.is_const:
                try:
                    return {'<': x.value < y.value, '<=': x.value <= y.value, '>': x.value > y.value,
                            '>=': x.value >= y.value}[a[0]]
                except TypeError:
                    pass
        if o == 'cmp' and a[0] == 'in' or o == 'in':
            x, y = self.top(a[-2]), self.top(a[-1])
            if x.is_const and y.op in ('list', 'tuple', 'set') and all(self.top(z).is_const for z in y.args[0]):
                return x.value in [self.top(z).value for z in y.args[0]]
            if x.is_const:
                d = self.dict(y)
                if d is not None and None not in d:
                    return x.value in d
        if o in ('list', 'tuple', 'dict') and isinstance(a[0], tuple):
            return len(a[0]) > 0
        if self.default is not None:
            return self.default
        raise Open(show(c)[:200])

    def top(self, t):
        """the term with the choices at its top resolved"""
        while isinstance(t, T) and t.op == 'phi':
            t = t.args[1] if self.truth(t.args[0]) else t.args[2]
        return t

    def items(self, t):
        """elements of a list term, or None"""
        t = self.top(t)
        if t.op in ('list', 'tuple') and isinstance(t.args[0], tuple):
            return list(t.args[0])
        if t.op == 'bin' and t.args[0] == '+':
            a, b = self.items(t.args[1]), self.items(t.args[2])
            return None if a is None or b is None else a + b
        if t.op == 'copyof':
            return self.items(t.args[0])
        if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] in ('list', 'tuple') and len(t.args[1]) == 1:
            return self.items(t.args[1][0])
        return None

    def dict(self, t):
        """{constant key: term}, None as a key for unknown keys; or None"""
        t = self.top(t)
        if t.op == 'dict' and isinstance(t.args[0], tuple):
            out = {}
            for x in t.args[0]:
                k, v = x if isinstance(x, tuple) else (x.args[0], x.args[1])
                if k is None or (k.is_const and k.value == '**'):
                    d = self.dict(v)
                    if d is None:
                        out[None] = v
                    else:
                        out.update(d)
                else:
                    k = self.top(k)
                    out[k.value if k.is_const else None] = v
            return out
        if t.op == 'upd' and t.args[2] == '=':
            d = self.dict(t.args[0])
            if d is None:
                return None
            k = self.top(t.args[1])
            d = dict(d)
            d[k.value if k.is_const else None] = t.args[3]
            return d
        if t.op == 'copyof':
            return self.dict(t.args[0])
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'copy':
            return self.dict(t.args[0].args[0])
        if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'dict':
            d = self.dict(t.args[1][0]) if t.args[1] else {}
            if d is None:
                return None
            d = dict(d)
            for k, v in dict(t.args[2]).items():
                if k == '**':
                    d2 = self.dict(v)
                    if d2 is None:
                        return None
                    d.update(d2)
                else:
                    d[k] = v
            return d
        return None
