"""Small-model reading of the collections of patch combinations a function builds.

A term that describes a collection (comprehensions, appending loops, sums and chains of collections, generators of
make_gen methods, keys of a results dict) is enumerated over a finite universe of abstract patch numbers.  The code that
selects patch combinations only compares patch numbers with each other, with the index being resampled and with zero,
and looks up which combinations exist, so a universe with one more patch than the variables that occur decides the
selection for every number of patches.  How often an index occurs in a bootstrap sample stays symbolic: counts are
polynomials in the multiplicities.  Only terms extracted from the source are read; nothing of the package is executed.
"""
from .pyflow import T, NONE, show
from . import poly
from .poly import P, sym, lift
from .elem import fname


class Open(Exception):
    pass


NOTHING = object()              # what a hook returns for the value None


class Res:
    """the result stored for one key by one correlation object"""
    __slots__ = ('owner', 'key')

    def __init__(self, owner, key):
        self.owner, self.key = owner, key

    def __eq__(self, o):
        return isinstance(o, Res) and (self.owner, self.key) == (o.owner, o.key)

    def __hash__(self):
        return hash((self.owner, self.key))

    def __repr__(self):
        return '%s.results[%s]' % (self.owner, self.key)


class Small:
    """owners: {term of a correlation object: name}; keys: {name: set of existing keys};
    values: {term: value}; multis: {term: [(value, count)]}; decide(cond, small, env) -> True/False/None."""

    def __init__(self, owners, keys, values=None, multis=None, decide=None, total=None, more=None, collect=None,
                 static=None):
        self.static = static        # static(term): whether its truth does not change within one iteration
        self.more = more            # more(term, small, env) -> value or None
        self.collect = collect      # collect(term, small, env) -> [(value, count)] or None
        self.owners, self.keys = owners, keys
        self.values = values or {}
        self.multis = multis or {}
        self.decide = decide
        self.total = total

    # ------------------------------------------------------------------ owners
    def results_of(self, t):
        if t.op == 'attr' and t.args[1] == 'results':
            return self.owners.get(t.args[0])
        if t in self.values and isinstance(self.values[t], tuple) and self.values[t][:1] == ('results',):
            return self.values[t][1]
        return None

    # ------------------------------------------------------------------ values
    def val(self, t, env):
        if t in env:
            return env[t]
        if t in self.values:
            return self.values[t]
        if t.is_const:
            return t.value
        if self.more is not None:
            r = self.more(t, self, env)
            if r is not None:
                return None if r is NOTHING else r
        o, a = t.op, t.args
        if o in ('tuple', 'list'):
            return tuple(self.val(x, env) for x in a[0])
        if o == 'comp' and a[0] in ('list', 'gen'):
            vs = self._enum(t, env)
            if all(c.const() == 1 for v, c in vs):
                return tuple(v for v, c in vs)
        if o == 'phi':
            return self.val(a[1] if self.truth(a[0], env) else a[2], env)
        if o == 'idx':
            r = self.results_of(a[0])
            if r is not None:
                k = self.val(a[1], env)
                if k not in self.keys[r]:
                    raise KeyError('%s.results[%s]' % (r, k))
                return Res(r, k)
            x = self.val(a[0], env)
            k = a[1]
            if k.op == 'slice':
                lo, hi, st = [None if y is NONE else self.val(y, env) for y in k.args]
                return x[lo:hi:st]
            return x[self.val(k, env)]
        if o == 'un' and a[0] in ('-', 'USub'):
            return -self.val(a[1], env)
        if o == 'bin':
            x, y = self.val(a[1], env), self.val(a[2], env)
            if all(isinstance(z, (int, tuple)) for z in (x, y)):
                try:
                    if a[0] in ('+', 'Add'):
                        return x + y
                    if a[0] in ('-', 'Sub'):
                        return x - y
                    if a[0] in ('*', 'Mult'):
                        return x * y
                    if a[0] in ('%', 'Mod'):
                        return x % y
                    if a[0] in ('//', 'FloorDiv'):
                        return x // y
                except (TypeError, ZeroDivisionError):
                    pass
            raise Open(show(t)[:120])
        if o == 'call':
            k, n, r = fname(a[0])
            if k == 'meth' and n == 'get' and self.results_of(r) is not None and len(a[1]) >= 1:
                key = self.val(a[1][0], env)
                ow = self.results_of(r)
                if key in self.keys[ow]:
                    return Res(ow, key)
                raise Open('missing key')
            if n in ('tuple', 'int', 'sorted', 'list') and k == 'fn' and len(a[1]) == 1:
                x = self.val(a[1][0], env)
                if n == 'sorted':
                    return tuple(sorted(x))
                return x
            if k in ('fn', 'np') and n in ('min', 'max') and a[1] and not a[2]:
                xs = [self.val(x, env) for x in a[1]]
                if len(xs) == 1:
                    xs = xs[0]
                return min(xs) if n == 'min' else max(xs)
            if k == 'fn' and n == 'len' and len(a[1]) == 1:
                x = self.try_val(a[1][0], env)
                if isinstance(x, (tuple, str)):
                    return len(x)
                return self.count_all(a[1][0], env)
        if o in ('cmp', 'and', 'or', 'not'):
            return self.truth(t, env)
        raise Open('value %s' % show(t)[:160])

    def try_val(self, t, env):
        try:
            return self.val(t, env)
        except (Open, KeyError):
            return None

    def count_all(self, t, env):
        if t.op == 'call':
            k, n, r = fname(t.args[0])
            if k == 'fn' and n == 'set' and len(t.args[1]) == 1:
                return len({v for v, c in self.enum(t.args[1][0], env)})
        c = poly.ZERO
        for v, n in self.enum(t, env):
            c = c + n
        k = c.const()
        if k is None:
            raise Open('length')
        return int(k)

    # ------------------------------------------------------------------ truth
    def truth(self, t, env):
        if self.decide is not None:
            r = self.decide(t, self, env)
            if r is not None:
                return r
        if t.is_const:
            return bool(t.value)
        o, a = t.op, t.args
        if o == 'not':
            return not self.truth(a[0], env)
        if o == 'un' and a[0] in ('not', 'Not', '~', 'Invert'):
            return not self.truth(a[1], env)
        if o in ('and', 'or') or (o == 'bin' and a[0] in ('&', '|')):
            xs = a[0] if o in ('and', 'or') else a[1:]
            stop = o == 'or' or a[0] == '|'
            und = None
            for x in xs:
                try:
                    if self.truth(x, env) == stop:
                        return stop
                except Open as e:
                    und = e
            if und:
                raise und
            return not stop
        if o == 'phi':
            return self.truth(a[1] if self.truth(a[0], env) else a[2], env)
        if o == 'cmp':
            op = a[0]
            if op in ('in', 'not in'):
                own = self.results_of(self.strip_keys(a[2]))
                if own is not None:
                    return (self.val(a[1], env) in self.keys[own]) == (op == 'in')
                x = self.val(a[1], env)
                y = self.try_val(a[2], env)
                if isinstance(y, tuple):
                    return (x in y) == (op == 'in')
                vs = self.enum(a[2], env)
                hit = [c for v, c in vs if v == x]
                if any(c.const() is None for c in hit):
                    raise Open('membership')
                return bool(hit) == (op == 'in')
            x, y = self.val(a[1], env), self.val(a[2], env)
            if isinstance(x, P) or isinstance(y, P):
                raise Open('comparison %s' % show(t)[:100])
            try:
                return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                        '>': lambda: x > y, '>=': lambda: x >= y, 'is': lambda: x is y if None in (x, y) else x == y,
                        'is not': lambda: not (x is y if None in (x, y) else x == y)}[op]()
            except (TypeError, KeyError):
                raise Open('comparison %s' % show(t)[:100])
        if o == 'idx' and a[0].op == 'attr' and a[0].args[1] == '_ok' and a[0].args[0] in self.owners:
            k = self.val(a[1], env)
            return k in self.keys[self.owners[a[0].args[0]]]
        if o == 'idx' and a[0] in self.values and isinstance(self.values[a[0]], tuple) and \
                self.values[a[0]][:1] == ('ok',):
            return self.val(a[1], env) in self.keys[self.values[a[0]][1]]
        if o == 'call':
            k, n, r = fname(a[0])
            if n in ('all', 'any') and len(a[1]) == 1 and k in ('fn', 'np'):
                return self.quant(n, a[1][0], env)
            if k == 'meth' and n == 'isdisjoint':
                pass
            if k == 'fn' and n == 'bool':
                return self.truth(a[1][0], env)
        v = self.val(t, env)
        if isinstance(v, P):
            if v.const() is None:
                raise Open('truth of %s' % show(t)[:100])
            return v.const() != 0
        return bool(v)

    def strip_keys(self, t):
        while t.op == 'call':
            k, n, r = fname(t.args[0])
            if k == 'meth' and n in ('keys',):
                t = r
            elif k == 'fn' and n in ('list', 'set', 'tuple', 'sorted') and len(t.args[1]) == 1:
                t = t.args[1][0]
            else:
                break
        return t

    def quant(self, n, c, env):
        if c.op == 'comp' and len(c.args[1]) == 1:
            for e2, cnt in self.gens(c.args[2], 0, dict(env)):
                v = self.truth(c.args[1][0], e2)
                if v != (n == 'all'):
                    return n == 'any'
            return n == 'all'
        for v, cnt in self.enum(c, env):
            if bool(v) != (n == 'all'):
                return n == 'any'
        return n == 'all'

    # ------------------------------------------------------------------ collections
    def enum(self, t, env):
        """[(value, count)] with distinct values"""
        out = {}
        for v, c in self._enum(t, env):
            out[v] = out.get(v, poly.ZERO) + c
        return [(v, c) for v, c in out.items() if not c.is_zero()]

    def _enum(self, t, env):
        if t in self.multis:
            return self.multis[t]
        if self.collect is not None:
            r = self.collect(t, self, env)
            if r is not None:
                return r
        own = self.results_of(t)
        if own is not None:
            return [(k, poly.ONE) for k in sorted(self.keys[own])]
        o, a = t.op, t.args
        if o == 'phi':
            if a[0].op == 'loop':
                return self.loop(t, env)
            return self._enum(a[1] if self.truth(a[0], env) else a[2], env)
        if o == 'comp':
            kind, elts, gens = a
            out = []
            for e2, c in self.gens(gens, 0, dict(env)):
                if kind == 'dict':
                    v = (self.val(elts[0], e2), self.val(elts[1], e2))
                else:
                    v = self.val(elts[0], e2)
                out.append((v, c))
            if kind in ('set', 'dict'):
                return [(v, poly.ONE) for v in dict.fromkeys(v for v, c in out)]
            return out
        if o in ('list', 'tuple', 'set'):
            out = []
            for x in a[0]:
                if x.op == 'starred':
                    out += self._enum(x.args[0], env)
                else:
                    out.append((self.val(x, env), poly.ONE))
            return out
        if o == 'bin' and a[0] in ('+', 'Add'):
            return self._enum(a[1], env) + self._enum(a[2], env)
        if o == 'bin' and a[0] in ('|', 'BitOr'):
            return [(v, poly.ONE) for v in dict.fromkeys(v for v, c in self._enum(a[1], env) + self._enum(a[2], env))]
        if o == 'call':
            f, args, kw = a
            k, n, r = fname(f)
            if k == 'meth' and n in ('keys', 'copy') and not args:
                own = self.results_of(r)
                if own is not None or n == 'copy':
                    return self._enum(r, env)
            if k == 'meth' and n == 'items' and self.results_of(r) is not None:
                own = self.results_of(r)
                return [((kk, Res(own, kk)), poly.ONE) for kk in sorted(self.keys[own])]
            if k == 'meth' and n == 'values' and self.results_of(r) is not None:
                own = self.results_of(r)
                return [(Res(own, kk), poly.ONE) for kk in sorted(self.keys[own])]
            if k in ('fn', 'np') and n in ('list', 'tuple', 'sorted', 'iter', 'reversed', 'array', 'asarray') and args:
                return self._enum(args[0], env)
            if k == 'fn' and n in ('set', 'frozenset') and len(args) <= 1:
                return [(v, poly.ONE) for v, c in self.enum(args[0], env)] if args else []
            if n == 'chain' and k in ('fn', 'meth', 'np'):
                out = []
                for x in args:
                    out += self._enum(x, env)
                return out
            if n == 'from_iterable' and len(args) == 1 and args[0].op in ('list', 'tuple'):
                out = []
                for x in args[0].args[0]:
                    out += self._enum(x, env)
                return out
            if k in ('fn', 'np') and n in ('range', 'arange') and not kw:
                xs = [self.val(x, env) for x in args]
                if all(isinstance(x, int) for x in xs):
                    return [(v, poly.ONE) for v in range(*xs)]
            if k == 'fn' and n == 'enumerate' and len(args) == 1:
                vs = self._enum(args[0], env)
                if all(c.const() == 1 for v, c in vs):
                    return [((i, v), poly.ONE) for i, (v, c) in enumerate(vs)]
            if k == 'fn' and n == 'filter' and len(args) == 2:
                pass
            if n == 'combinations' and len(args) == 2:
                import itertools
                vs = self._enum(args[0], env)
                m = self.val(args[1], env)
                if all(c.const() == 1 for v, c in vs):
                    return [(v, poly.ONE) for v in itertools.combinations([v for v, c in vs], m)]
            if n == 'product' and args:
                import itertools
                rep = dict(kw).get('repeat')
                m = self.val(rep, env) if rep is not None else 1
                vs = [self._enum(x, env) for x in args] * m
                out = []
                for tup in itertools.product(*vs):
                    c = poly.ONE
                    for v, n1 in tup:
                        c = c * n1
                    out.append((tuple(v for v, n1 in tup), c))
                return out
            if k == 'fn' and n == 'zip' and args:
                vs = []
                for x in args:
                    if x.op == 'starred':
                        for v, c in self._enum(x.args[0], env):
                            if c.const() != 1 or not isinstance(v, tuple):
                                raise Open('zip of %s' % show(x)[:100])
                            vs.append([(y, poly.ONE) for y in v])
                    else:
                        vs.append(self._enum(x, env))
                if all(c.const() == 1 for x in vs for v, c in x):
                    return [(tup, poly.ONE) for tup in zip(*[[v for v, c in x] for x in vs])]
        v = self.val(t, env)
        if isinstance(v, tuple):
            return [(x, poly.ONE) for x in v]
        raise Open('collection %s' % show(t)[:160])

    def gens(self, gens, i, env):
        """bindings of the generators of a comprehension with the number of times each occurs"""
        if i == len(gens):
            yield env, poly.ONE
            return
        g = gens[i]
        it, cond, bv = g.args
        for v, c in self.enum(it, env):
            e2 = dict(env)
            e2[bv] = v
            if cond.op == 'and' and not cond.args[0]:
                ok = True
            else:
                ok = self.truth(cond, e2)
            if ok:
                for e3, c2 in self.gens(gens, i + 1, e2):
                    yield e3, c * c2

    def loop(self, t, env):
        """phi(loop(id, iter) ? body : before): what the loop appends"""
        lp, body, init = t.args
        lid, it = lp.args
        out = list(self._enum(init, env))
        base = self.enum(init, env)
        for v, c in self.enum(it, env):
            e2 = dict(env)
            e2[T('elem', lid, it)] = v
            got = dict(self.enum(body, e2))
            for w, n in base:
                got[w] = got.get(w, poly.ZERO) - n
            out += [(w, n * c) for w, n in got.items() if not n.is_zero()]
        return out

    # ------------------------------------------------------------------ generators and event traces
    def live(self, e, env):
        for g, pol in e.guards:
            if g.op == 'loop':
                continue
            if self.known(g, env) != pol:
                return False
        return True

    def known(self, g, env):
        """truth of a branch condition, remembered within one iteration when it does not depend on changing state"""
        if self.static is None or '_cache' not in env or not self.static(g):
            return self.truth(g, env)
        c = env['_cache']
        if g not in c:
            c[g] = self.truth(g, env)
        return c[g]

    def reached(self, e, lid, env):
        """whether the branches around the loop an event is in are taken"""
        for g, pol in e.guards:
            if g.op == 'loop':
                if g.args[0] == lid:
                    return True
                continue
            if self.known(g, env) != pol:
                return False
        return True

    def trace(self, events, env=None, depth=0):
        """[(event, env)] in the order the small model meets them"""
        env = env or {}
        i = 0
        events = list(events)
        while i < len(events):
            e = events[i]
            if len(e.loops) > depth:
                j = i
                while j < len(events) and len(events[j].loops) > depth and \
                        events[j].loops[depth] == e.loops[depth]:
                    j += 1
                lid, it = e.loops[depth][:2]
                if not self.reached(e, lid, env):
                    i = j
                    continue
                if it is None:
                    raise Open('while loop')
                for v, c in self._enum(it, env):
                    e2 = dict(env)
                    e2[T('elem', lid, it)] = v
                    e2['_cache'] = {}
                    e2['count'] = env.get('count', poly.ONE) * c
                    for x in self.trace(events[i:j], e2, depth + 1):
                        yield x
                i = j
                continue
            if self.live(e, env):
                yield e, env
            i += 1

    def yielded(self, events, env=None):
        """[(value, count)] a generator function yields"""
        out = []
        for e, env2 in self.trace([e for e in events if e.kind in ('yield', 'yieldfrom')], env):
            n = env2.get('count', poly.ONE)
            if e.kind == 'yield':
                out.append((self.val(e.data['value'], env2), n))
            else:
                out += [(v, c * n) for v, c in self._enum(e.data['value'], env2)]
        return out
