"""C26: pairs and triangles are counted in the bin their separations fall in.

The helper functions of each bin type (is it in range, which bin, may it be discarded) are read into closed forms
(tc.ceval), branch by branch, and compared with the definition of the bins on every branch: truth values where a
condition is returned, polynomial normal forms (with floor as an opaque function) where an index is.
"""
from ..ceval import Ceval, Frame, Obj, Undecided, Var, VRef, parse_type
from ..cxx import load_sources, walk, split_q, N
from ..cxxflow import is_debug
from ..poly import P, lift, sym, fn, sqrt, subs, from_key, text
from ..pyrepo import AnalysisBroken
from .c23_axes import equal, pos, syms

PROP = 'C26'
INT = {'int', 'long', 'size_t', 'unsigned', 'long long'}
INTSYM = {'nbins', 'nubins', 'nvbins', 'ntot', '_nbins', '_ntot', '@k'}


def integral(p):
    for m, c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not (a[0] == 'sym' and a[1] in INTSYM or a[0] == 'fn' and a[1] == 'floor'):
                return False
    return True


def floor(p):
    return p if integral(p) else fn('floor', p)


class BFrame(Frame):
    def st(self, s):
        if s is not None and s.k == 'decl' and parse_type(s[0])[0] in INT:
            super().st(s)
            for d in s[1]:
                v = self.env.get(d[0])
                if isinstance(v, Var) and isinstance(v.v, P):
                    v.v = floor(v.v)
            return
        super().st(s)

    def x_cast(self, e):
        v = self.ev(e[1])
        return floor(self.ce.num(v)) if parse_type(e[0])[0] in INT else v

    def x_call(self, e):
        f, args = e[0], e[1]
        nm = f[1] if f.k == 'member' else split_q(f[0])[-1] if f.k == 'name' else None
        if nm is not None:
            nm = nm.split('<')[0]
        if nm in INT and len(args) == 1:
            return floor(self.ce.num(self.ev(args[0])))
        if nm in ('floor', 'trunc', 'round', 'rint', 'nearbyint', 'lround') and len(args) == 1:
            v = self.ce.num(self.ev(args[0]))
            return floor(v + lift(1) / 2 if 'r' == nm[-5:-4] or nm in ('round', 'rint', 'nearbyint', 'lround') else v)
        if nm == 'min' and len(args) == 2:
            a, b = [self.ce.num(self.ev(x)) for x in args]
            for k, n, *_ in self.ce.top:
                if equal(a, k) and equal(b, n - 1) or equal(b, k) and equal(a, n - 1):
                    return n - 1 if self.ce.cmp('==', k, n) else k
            a, b = sorted((a, b), key=lambda p: repr(p.key))
            return fn('min', a, b)
        if nm in self.ce.hooks:
            o = self.ev(f[0]) if f.k == 'member' else None
            return self.ce.hooks[nm](self.ce, o, [self.ev(x) for x in args])
        if f.k == 'name' and '::' not in f[0] and self.f.cls and self.f.cls != 'Position':
            # a static function of the same class
            fs = [g for g in self.ce.S.functions if g.cls == self.f.cls and g.name == nm and g.body is not None and
                  list(g.ctargs or ()) == list(self.f.ctargs or ())]
            if fs:
                return self.invoke(fs, args, self.this)
        return super().x_call(e)


class BCeval(Ceval):
    @property
    def frame(self):
        return BFrame

    def __init__(self, targs=None, hooks=None):
        super().__init__(targs)
        self.hooks = dict(hooks or {})
        self.roots = []
        self.top = []

    def branches(self, run, limit=4000):
        return super().branches(run, limit)

    def num(self, v):
        return super().num(lift(v) if type(v) is int else v)

    def cmp(self, op, a, b):
        d = self.num(a) - self.num(b)
        # squares of lengths are compared as the lengths
        for u in self.roots:
            for v in self.roots:
                if (d - (u * u - v * v)).is_zero():
                    return super().cmp(op, u, v)
        # a bin number is at most one past the last bin
        for k, n, *neg in self.top:
            for sgn in (1, -1):
                if (d * sgn - (k - n)).is_zero():
                    o = op if sgn == 1 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    if o == '>':
                        return False
                    if o == '<=':
                        return True
                    eq = self.ask(('eq', (k - n).key))
                    return eq if o in ('>=', '==') else not eq
            if not neg and (d - k).is_zero() and op in ('<', '>='):
                return op == '>='
        return super().cmp(op, a, b)


def same(ce, a, b):
    """equal, given the bin numbers known to be one past the last"""
    if equal(a, b):
        return True
    mp = {}
    for k, n, *_ in ce.top:
        if ce.known.get(('eq', (k - n).key)) and len(k.d) == 1:
            (m, c), = k.d.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                mp[m[0][0]] = n
    return bool(mp) and equal(subs(a, mp), subs(b, mp))


def inrange(ce, x, lo, hi):
    return ce.cmp('>=', x, lo) and ce.cmp('<', x, hi)


def clamp(ce, k, n):
    ce.top.append((k, n))
    return k - 1 if ce.cmp('==', k, n) else k


def helper(S, B, name):
    fs = [f for f in S.functions if f.cls == 'BinTypeHelper' and list(f.ctargs or ()) == [B] and f.name == name and
          f.body is not None]
    return fs[0] if fs else None


CANON = {
    'isRSqInRange': 'rsq p1 p2 minsep minsepsq maxsep maxsepsq',
    'tooSmallDist': 'rsq s1ps2 minsep minsepsq',
    'tooLargeDist': 'rsq s1ps2 maxsep maxsepsq',
    'calculateBinK': 'p1 p2 r logr binsize minsep maxsep logminsep',
    'singleBin': 'rsq s1ps2 p1 p2 binsize b bsq a asq minsep maxsep logminsep k r logr',
    'isTriangleInRange': 'c1 c2 c3 metric d1sq d2sq d3sq d1 d2 d3 q1 q2 logminsep minsep maxsep binsize nbins '
                         'minu maxu sizeu nubins minv maxv sizev nvbins logd1 logd2 logd3 ntot index',
    'directProcess11': 'c1 c2 rsq k r logr',
}


def args_for(f, vals):
    """the arguments of a call, by the order of the parameters; a parameter moved elsewhere is known by its name"""
    canon = CANON[f.name].split()
    names = [p.name for p in f.params]
    if len(names) != len(canon):
        raise Undecided('other parameters')
    for i, n in enumerate(names):
        if n in canon and n != canon[i]:
            raise Undecided('other order of parameters')
    return [vals.get(c, sym('#' + c)) for c in canon]


class Judge:
    def __init__(self, ck):
        self.ck = ck
        self.missing = 0

    def ev(self, rule, f, run, tenv=None, hooks=None, what='', name=''):
        if f is None:
            self.ck.ob(rule, '%s%s (undecided)' % (name, what), True, 'not found')
            self.missing += 1
            return None
        ce = BCeval(tenv, hooks)

        def go(c):
            c.roots, c.top = [], []
            return run(c)
        try:
            b = ce.branches(go)
        except (Undecided, RecursionError) as x:
            self.ck.ob(rule, "%s%s (undecided)" % (f.qual, what), True, str(x)[:100], f.where)
            return None
        for w in ce.used:
            self.ck.saw('functions', w)
        return b


R, MIN, MAX, BIN = sym('r'), sym('minsep'), sym('maxsep'), sym('binsize')
NAMES = {'rsq': R * R, 'r': R, 'minsep': MIN, 'minsepsq': MIN * MIN, 'maxsep': MAX, 'maxsepsq': MAX * MAX, 'binsize': BIN}
NAMES['logr'] = fn('log', R)
NAMES['logminsep'] = fn('log', MIN)


def raw2(ce, B, dx, dy, r):
    """the number of the bin before keeping it below the number of bins, and the clamped one"""
    if B == 'Log':
        k = floor((fn('log', r) - fn('log', MIN)) / BIN)
        return k, k
    if B == 'Linear':
        k = floor((r - MIN) / BIN)
        return k, k
    n = floor(2 * MAX / BIN + lift(1) / 2)
    i, j = floor((dx + MAX) / BIN), floor((dy + MAX) / BIN)
    ci, cj = clamp(ce, i, n), clamp(ce, j, n)
    return j * n + i, cj * n + ci


def two(ck, S, J):
    rng, idx, disc = 'range-2pt', 'index-2pt', 'discard-2pt'
    ck.rule(rng, 'a pair of points is accumulated exactly if its separation lies in [min_sep, max_sep), or for TwoD both components '
                 'lie within max_sep and it is not one point twice', 3)
    ck.rule(idx, 'the bin of a pair is the one of its log(r), its r or the two components of its separation; a bin number kept from '
                 'deciding about a split is the same one, with its r and log(r)', 6)
    ck.rule(disc, 'a pair of cells is discarded only if every separation in them is below the smallest or above the largest', 8)
    for B in ('Log', 'Linear', 'TwoD'):
        p1, p2 = pos('Flat', 'p1'), pos('Flat', 'p2')
        dx, dy = sym('p2.x') - sym('p1.x'), sym('p2.y') - sym('p1.y')
        vals = dict(NAMES, p1=p1, p2=p2)

        def abs1(ce, o, a):
            # |a| = |-a|
            v = ce.num(a[0])
            w = -v
            return fn('abs', min((v, w), key=lambda q: repr(q.key)))
        hooks = {'abs': abs1, 'fabs': abs1}
        f = helper(S, B, 'isRSqInRange')

        def run(ce, f=f, B=B):
            ce.roots = [R, MIN, MAX]
            got = ce.call(f, args_for(f, vals))
            if B == 'TwoD':
                m = [abs1(ce, None, [v]) for v in (dx, dy)]
                # the larger of the two, or both
                big = fn('max', *sorted(m, key=lambda q: repr(q.key)))
                if ce.known.get(('lt', (big - MAX).key)) is not None:
                    want = ce.cmp('<', big, MAX)
                else:
                    want = all([ce.cmp('<', x, MAX) for x in m])
                want = want and not ce.cmp('==', R * R, 0) and ce.cmp('>=', R, MIN)
            else:
                want = inrange(ce, R, MIN, MAX)
            return {'got': ce.truth(got), 'want': want}
        b = J.ev(rng, f, run, {'C': 'Flat'}, hooks, '', 'BinTypeHelper<%s>::isRSqInRange' % B)
        if b is not None:
            # an exact coincidence excludes itself from r < minsep and so on
            bad = [t for t, r in b if r['got'] != r['want'] and possible(t)]
            ck.ob(rng, f.qual, not bad, 'accepts or refuses another range: %s' % show(bad[0]) if bad else '', f.where)
        # index
        f = helper(S, B, 'calculateBinK')

        def run(ce, f=f, B=B):
            ce.top = []
            if B == 'TwoD':
                n = floor(2 * MAX / BIN + lift(1) / 2)
                ce.top = [(floor((x + MAX) / BIN), n) for x in (dx, dy)]
                got = ce.num(ce.call(f, args_for(f, vals)))
            raw, want = raw2(ce, B, dx, dy, R)
            if B != 'TwoD':
                got = ce.num(ce.call(f, args_for(f, vals)))
            return {'got': got, 'want': want, 'ok': same(ce, got, want)}
        b = J.ev(idx, f, run, {'C': 'Flat'}, hooks, '', 'BinTypeHelper<%s>: index' % B)
        if b is not None:
            bad = [(t, r) for t, r in b if not r['ok']]
            ck.ob(idx, f.qual, not bad, 'gives %s, expected %s' % (text(bad[0][1]['got']), text(bad[0][1]['want'])) if bad else '', f.where)
        f = helper(S, B, 'singleBin')

        def run(ce, f=f, B=B):
            ce.roots = [R, MIN, MAX]
            v = dict(vals)
            for n in ('s1ps2', 'b', 'a'):
                v[n] = sym(n)
            v['bsq'], v['asq'] = v['b'] * v['b'], v['a'] * v['a']
            o = {n: Var(x) for n, x in (('k', lift(-1)), ('r', lift(0)), ('logr', lift(0)))}
            for n, x in o.items():
                v[n] = VRef(x)
            ret = ce.truth(ce.call(f, args_for(f, v)))
            res = {'ret': ret, 'k': ce.num(o['k'].get()), 'r': ce.num(o['r'].get()), 'logr': ce.num(o['logr'].get())}
            res['raw'], res['want'] = raw2(ce, B, dx, dy, R)
            res['ok'] = same(ce, res['k'], res['want']) or same(ce, res['k'], res['raw'])
            return res
        b = J.ev(idx, f, run, {'C': 'Flat'}, hooks, '', 'BinTypeHelper<%s>: index' % B)
        if b is not None:
            bad = []
            for t, r in b:
                if not r['ret'] or equal(r['k'], lift(-1)):
                    continue
                if not r['ok']:
                    bad.append('keeps the bin number %s, expected %s' % (text(r['k']), text(r['raw'])))
                elif not (equal(r['r'], R) and equal(r['logr'], fn('log', R))):
                    bad.append('keeps r, log(r) as %s, %s' % (text(r['r']), text(r['logr'])))
            ck.ob(idx, f.qual, not bad, bad[0] if bad else '', f.where)
    for B in ('Log', 'Linear', 'TwoD', 'LogRUV', 'LogSAS', 'LogMultipole'):
        full = MAX * (sqrt(lift(2)) if B == 'TwoD' else lift(1))
        s = sym('s1ps2')
        for name in ('tooSmallDist', 'tooLargeDist'):
            f = helper(S, B, name)

            def run(ce, f=f):
                got = ce.truth(ce.call(f, args_for(f, dict(NAMES, s1ps2=s))))
                if name == 'tooSmallDist':
                    sound = ce.known.get(('lt', (R + s - MIN).key)) or ce.known.get(('lt', (MIN - R - s).key)) is False or (
                        (isless(ce, s - MIN)) and isless(ce, R * R - (MIN - s) ** 2))
                else:
                    sound = isless(ce, full + s - R) or isless(ce, (full + s) ** 2 - R * R)
                return {'got': got, 'sound': bool(sound)}
            b = J.ev(disc, f, run, None, None, '', 'BinTypeHelper<%s>::%s' % (B, name))
            if b is None:
                continue
            bad = [t for t, r in b if r['got'] and not r['sound']]
            ck.ob(disc, f.qual, not bad, 'discards when only %s' % show(bad[0]) if bad else '', f.where)
            if not any(r['got'] for t, r in b):
                ck.ob(disc, '%s: never discards' % f.qual, True, '', f.where)


def isless(ce, d):
    """d < 0 or d <= 0 is known on this branch (up to a positive constant)"""
    for (op, k), v in ce.known.items():
        if op != 'lt':
            continue
        p = from_key(k) if v else -from_key(k)
        if p.is_zero():
            continue
        for q in (p,):
            c = ratio(q, d)
            if c is not None and c > 0:
                return True
    return False


def ratio(p, q):
    (m, c) = next(iter(p.d.items()))
    if m not in q.d:
        return None
    k = c / q.d[m]
    return k if (p - q * lift(k)).is_zero() else None


def possible(trail):
    """no two literals contradict each other in sign (ordering of non-negative lengths)"""
    less = set()
    for (op, k), v in trail:
        if op == 'lt':
            less.add((k, v))
    for (op, k), v in trail:
        if op == 'eq' and v and (repr(from_key(k).key) == repr((R * R).key) or repr(from_key(k).key) == repr(R.key)):
            # r = 0: nothing can be below it, and the differences vanish
            return not any(equal(from_key(kk), R - MAX) and not vv for kk, vv in less)
    return True


def show(trail):
    return ' and '.join('%s%s %s 0' % ('' if v else 'not ', text(from_key(k)), '<' if op == 'lt' else '=')
                        for (op, k), v in trail if op in ('lt', 'eq'))[:200]


def three(ck, S, J):
    rule = 'triangle'
    ck.rule(rule, 'a triangle is accumulated exactly if its separations, ratios or angle are in range (and its sides ordered as '
                  'required), in the bin of those values; clockwise ones in their own half where they are distinguished', 3)
    D = [sym('d%d' % i) for i in (1, 2, 3)]
    for B in ('LogRUV', 'LogSAS', 'LogMultipole'):
        f = helper(S, B, 'isTriangleInRange')
        refs = ['q1', 'q2', 'logd1', 'logd2', 'logd3']
        for O in (0, 1, 2, 3):
            if O and B == 'LogMultipole':
                continue

            def ccw(ce, o, a):
                q = [text(x) for x in a]
                s = tuple(sorted(q))
                perm = [s.index(x) for x in q]
                even = perm in ([0, 1, 2], [1, 2, 0], [2, 0, 1])
                v = ce.ask(('ccw', s))
                return v if even else not v
            hooks = {'CCW': ccw, 'getPos': lambda ce, o, a: o.f['pos'],
                     'ExpIPhi': lambda ce, o, a: fn('expiphi', *[ce.num(x) for x in a]),
                     'conj': lambda ce, o, a: fn('cconj', ce.num(a[0])),
                     'real': lambda ce, o, a: fn('creal', ce.num(a[0])), 'imag': lambda ce, o, a: fn('cimag', ce.num(a[0]))}

            def run(ce, f=f, B=B, O=O):
                cells = [Obj('BaseCell', ('C',), {'pos': sym('pos%d' % i)}) for i in (1, 2, 3)]
                v = dict(NAMES, ntot=sym('ntot'), nbins=sym('nbins'), metric=Obj('MetricHelper', ('M', '0')))
                ce.roots = [MIN, MAX] + D
                for i in (0, 1, 2):
                    v['c%d' % (i + 1)] = cells[i]
                    v['d%d' % (i + 1)] = D[i]
                    v['d%dsq' % (i + 1)] = D[i] * D[i]
                out = {n: Var(sym('in.%s' % n)) for n in refs}
                out['index'] = Var(lift(-1))
                for base_ in 'uv':
                    for nm in ('min', 'max', 'size'):
                        v[nm + base_] = sym(nm + base_)
                    v['n%sbins' % base_] = sym('n%sbins' % base_)
                for n, x in out.items():
                    v[n] = VRef(x)
                a = args_for(f, v)
                q = [sym('in.%s' % n) for n in refs[:2]]
                lg = fn('log', MIN)
                ce.top = [(floor((fn('log', d) - lg) / BIN), sym('nbins')) for d in D]
                ce.top += [(floor((x - sym('minu')) / sym('sizeu')), sym('nubins'))
                           for x in (q[0], lift(0), sym('M_PI'), fn('arccos', q[1]))]
                ce.top.append((floor((q[1] - sym('minv')) / sym('sizev')), sym('nvbins')))
                got = ce.truth(ce.call(f, a))
                ind = None
                if B == 'LogRUV':
                    u, w = q
                    want = not (O and not (ce.cmp('>=', D[0], D[1]) and ce.cmp('>=', D[1], D[2])))
                    want = want and inrange(ce, D[1], MIN, MAX) and inrange(ce, u, sym('minu'), sym('maxu')) and \
                        inrange(ce, w, sym('minv'), sym('maxv'))
                    if want:
                        NB, NU, NV = sym('nbins'), sym('nubins'), sym('nvbins')
                        kr = clamp(ce, floor((fn('log', D[1]) - lg) / BIN), NB)
                        ku = clamp(ce, floor((u - sym('minu')) / sym('sizeu')), NU)
                        kv = clamp(ce, floor((w - sym('minv')) / sym('sizev')), NV)
                        c = ccw(ce, None, [x.f['pos'] for x in cells])
                        kv2 = kv + NV if c else NV - kv - 1
                        ind = (kr * NU + ku) * NV * 2 + kv2
                        outs = {refs[0]: u, refs[1]: w if c else -w}
                else:
                    want = inrange(ce, D[1], MIN, MAX) and inrange(ce, D[2], MIN, MAX)
                    if B == 'LogSAS':
                        phi, cp = q
                        if ce.cmp('<=', cp, -1):
                            phi = sym('M_PI')
                        elif ce.cmp('>=', cp, 1):
                            phi = lift(0)
                        else:
                            phi = fn('arccos', cp)
                        want = want and not (O > 1 and not ccw(ce, None, [cells[i].f['pos'] for i in (0, 2, 1)]))
                        want = want and inrange(ce, phi, sym('minu'), sym('maxu'))
                    if want:
                        NB = sym('nbins')
                        k2, k3 = [clamp(ce, floor((fn('log', D[i]) - lg) / BIN), NB) for i in (1, 2)]
                        if B == 'LogSAS':
                            NU = sym('nubins')
                            kp = clamp(ce, floor((phi - sym('minu')) / sym('sizeu')), NU)
                            ind = (k2 * NB + k3) * NU + kp
                            outs = {refs[0]: phi, refs[1]: cp}
                        else:
                            NU = sym('nubins')
                            ind = (k2 * NB + k3) * (2 * NU + 1) + NU
                            e3 = fn('expiphi', sym('pos1'), sym('pos2'), D[2])
                            e2 = fn('expiphi', sym('pos1'), sym('pos3'), D[1])
                            e = e3 * fn('cconj', e2)
                            outs = {refs[0]: fn('cimag', e), refs[1]: fn('creal', e)}
                bad = None
                if got and not want:
                    bad = 'accepts a triangle out of range'
                elif want and not got:
                    guard = any(op == 'lt' and ('ntot' in syms(from_key(k), set()) or (vv and same(ce, from_key(k), ind)))
                                for (op, k), vv in ce.trail)
                    bad = None if guard else 'drops a triangle in range'
                elif got:
                    if not same(ce, ce.num(out['index'].get()), ind):
                        bad = 'puts it in bin %s, expected %s' % (text(out['index'].get()), text(ind))
                    for n, w in zip(refs[2:], D):
                        if not equal(ce.num(out[n].get()), fn('log', w)):
                            bad = bad or '%s is %s' % (n, text(out[n].get()))
                    for n, w in outs.items():
                        if not equal(ce.num(out[n].get()), w):
                            bad = bad or '%s is %s, expected %s' % (n, text(out[n].get()), text(w))
                return {'bad': bad}
            b = J.ev(rule, f, run, {'O': O, 'C': 'Flat'}, hooks, ' (order %d)' % O,
                     'BinTypeHelper<%s>::isTriangleInRange' % B)
            if b is None:
                continue
            bad = [(t, r) for t, r in b if r['bad'] and consistent(t)]
            ck.ob(rule, '%s (order %d)' % (f.qual, O), not bad,
                  '%s when %s' % (bad[0][1]['bad'], show(bad[0][0])) if bad else '', f.where)


def consistent(trail):
    """drop branches whose bounds contradict each other (a < b, b < c, not a < c)"""
    less = []
    for (op, k), v in trail:
        if op == 'lt':
            p = from_key(k)
            less.append((p if v else -p, v))
    for p, sp in less:
        for q, sq in less:
            s = p + q
            c = s.const()
            if c is not None and (c > 0 or c == 0 and (sp or sq)):
                return False
    return True


def accumulate(ck, S, J):
    rule = 'accumulate'
    ck.rule(rule, 'the pair is added to the bin its separation falls in, with that separation, and the reversed pair to the bin of '
                  'the opposite separation', 2)
    fs = [f for f in S.functions if f.name == 'directProcess11' and f.body is not None]
    for f in fs or [None]:
        for rev in (0, 1):
            def run(ce, f=f, rev=rev):
                cells = [Obj('BaseCell', ('C',), {'pos': sym('pos%d' % i)}) for i in (1, 2)]
                this = Obj(f.cls, tuple(f.ctargs or ()))
                for c in S.classes:
                    if c.name == f.cls:
                        for x in c.fields:
                            this.f[x[1]] = sym(x[1])
                k = sym('@k')

                def ik(p, q, r, logr):
                    return fn('floor', fn('bin', *[ce.num(x) for x in (p, q, r, logr)]))
                slots = [sym('_' + n) for n in ('binsize', 'minsep', 'maxsep', 'logminsep')]

                def hook(ce, o, a):
                    if len(a) != 8 or any(not equal(ce.num(x), y) for x, y in zip(a[4:], slots)):
                        raise Undecided('other arguments')
                    return ik(*a[:4])
                got = []
                ce.hooks = {'calculateBinK': hook, 'getPos': lambda ce, o, a: o.f['pos'],
                            'finishProcess': lambda ce, o, a: got.append(list(a)) or lift(0)}
                r, lr = sqrt(R * R), fn('log', R)
                p, q = [c.f['pos'] for c in cells]
                nb = sym('_nbins')
                ce.top = [(k, nb, True)]
                for rr, ll in ((r, lr), (sym('rin'), sym('logrin'))):
                    ce.top += [(ik(p, q, rr, ll), nb), (ik(q, p, rr, ll), nb)]
                ce.call(f, args_for(f, {'c1': cells[0], 'c2': cells[1], 'rsq': R * R, 'k': k, 'r': sym('rin'),
                                        'logr': sym('logrin')}), this)
                if ce.cmp('<', k, lift(0)):
                    kk, rr, ll = ik(p, q, r, lr), r, lr
                else:
                    kk, rr, ll = k, sym('rin'), sym('logrin')
                kk = clamp(ce, kk, nb)
                want = [R * R, rr, ll, kk]
                if rev:
                    want.append(clamp(ce, ik(q, p, rr, ll), nb))
                if len(got) != 1:
                    return 'accumulates %d times' % len(got)
                a = [x.get() if hasattr(x, 'get') else x for x in got[0]]
                if len(a) != 7:
                    raise Undecided('other arguments')
                for nm, x, y in zip(('rsq', 'r', 'log(r)', 'k', 'the reversed k'), a[2:], want):
                    if not same(ce, ce.num(x), y):
                        return '%s is %s, expected %s' % (nm, text(ce.num(x)), text(y))
                return None
            b = J.ev(rule, f, run, {'R': rev, 'C': 'Flat', 'B': 'Log'}, {}, ' (R=%d)' % rev, 'directProcess11')
            if b is None:
                continue
            # a kept number is one of a bin
            bad = [r for t, r in b if r and not (any(op == 'lt' and v and equal(from_key(k), sym('@k')) for (op, k), v in t) and
                                                 any(op == 'eq' and v and '@k' in syms(from_key(k), set()) for (op, k), v in t))]
            ck.ob(rule, '%s (R=%d)' % (f.qual, rev), not bad, bad[0] if bad else '', f.where)


def slots(ck, S, J):
    rule = 'arguments'
    ck.rule(rule, 'every range, bin size and slop handed to a bin-type helper arrives in the parameter of that quantity', 40)
    table = {}
    for f in S.functions:
        if f.cls == 'BinTypeHelper':
            t = table.setdefault((f.name, len(f.params)), [set() for p in f.params])
            for i, p in enumerate(f.params):
                if p.name:
                    t[i].add(p.name)
    known = {n for t in table.values() for x in t for n in x}
    for f in S.functions:
        if f.body is None or f.cls == 'BinTypeHelper':
            continue
        for e in walk(f.body):
            if e.k != 'call' or e[0].k != 'name' or 'BinTypeHelper' not in e[0][0]:
                continue
            nm = split_q(e[0][0])[-1].split('<')[0].replace('template', '').strip()
            t = table.get((nm, len(e[1])))
            if t is None:
                continue
            for i, a in enumerate(e[1]):
                if a.k != 'name' or not a[0].startswith('_'):
                    continue
                n = a[0][1:]
                if n not in known or not t[i]:
                    continue
                # the quantity has a parameter of its own here, and it is another one
                ok = n in t[i] or not any(n in x for x in t)
                ck.ob(rule, '%s: %s of %s' % (f.qual, a[0], nm), ok, '' if ok else 'given as %s' % '/'.join(sorted(t[i])), f.where)


def names(e):
    return {x[0] for x in walk(e) if x.k == 'name'}


def called(e):
    return split_q(e[0][0])[-1].split('<')[0].replace('template', '').strip() if e.k == 'call' and e[0].k == 'name' else None


def bounded(body, v):
    """a number is compared with, or limited to, the number of bins"""
    for e in walk(body):
        if e.k == 'bin' and e[0] in ('==', '>=', '>', '<', '<=', '!=') and v in names(e[1]) | names(e[2]):
            if any('nbins' in n or 'NBins' in n for n in names(e[1]) | names(e[2])):
                return True
        if called(e) in ('min', 'fmin', 'clamp') and v in names(e) and any('nbins' in n for n in names(e)):
            return True
    return False


def silent(body):
    """the statements that are compiled in: no assertions, no debugging output"""
    if body.k == 'expr' and (body[0] is None or is_debug(body[0])):
        return []
    if body.k in ('block', 'if', 'for', 'while', 'do', 'rangefor', 'switch'):
        out = []
        for x in body.a:
            for y in (x if isinstance(x, (list, tuple)) else [x]):
                if isinstance(y, N):
                    out += silent(y) if y.k in STMT else [y]
        return out
    return [body]


STMT = {'expr', 'block', 'if', 'for', 'while', 'do', 'rangefor', 'switch', 'decl', 'return', 'pragma'}


def top_bin(ck, S, J):
    rule = 'last bin'
    ck.rule(rule, 'a bin number computed for a pair in range is kept below the number of bins before anything is added to it', 2)
    for f in S.functions:
        if f.body is None or f.cls == 'BinTypeHelper':
            continue
        parts = silent(f.body)
        bins = {}
        for st in parts:
            for e in walk(st):
                if e.k == 'assign' and e[0] == '=' and e[1].k == 'name' and called(e[2]) == 'calculateBinK':
                    bins[e[1][0]] = e
                if e.k == 'decl':
                    for d in e[1]:
                        i = d[1][0] if isinstance(d[1], (list, tuple)) and len(d[1]) == 1 else d[1]
                        if isinstance(i, N) and called(i) == 'calculateBinK':
                            bins[d[0]] = e
        for v in bins:
            if any(bounded(st, v) for st in parts):
                ck.ob(rule, '%s: %s' % (f.qual, v), True, '', f.where)
                continue
            uses, handed = [], False
            for st in parts:
                for e in walk(st):
                    if e.k == 'index' and v in names(e[1]):
                        uses.append('indexes with it')
                    if e.k != 'call' or called(e) in ('calculateBinK', 'singleBin', None):
                        continue
                    for i, a in enumerate(e[1]):
                        if not (a.k == 'name' and a[0] == v):
                            continue
                        gs = [g for g in S.functions if g.name == called(e) and g.body is not None and len(g.params) > i]
                        if any('&' in g.params[i].type and 'const' not in g.params[i].type or
                               any(bounded(st2, g.params[i].name) for st2 in silent(g.body)) for g in gs):
                            handed = True
                        else:
                            uses.append('hands it to %s' % called(e))
            if uses:
                ck.ob(rule, '%s: %s' % (f.qual, v), handed, '' if handed else '%s without keeping it below the number of bins' % uses[0],
                      f.where)


def derived(ck, S, J):
    rule = 'derived'
    ck.rule(rule, 'the squares, halves and logarithms kept beside a range or slop are those of that range or slop', 12)
    for f in S.functions:
        if f.body is None or not f.cls or f.name != f.cls:
            continue
        for e in walk(f.body):
            if e.k != 'assign' or e[0] != '=' or e[1].k != 'name' or not e[1][0].startswith('_'):
                continue
            n = e[1][0]
            if n.endswith('sq') and len(n) > 3:
                src, kind = n[:-2], 'sq'
            elif n.startswith('_log') and len(n) > 4:
                src, kind = '_' + n[4:], 'log'
            elif n.startswith('_half') and len(n) > 5:
                src, kind = '_' + n[5:], 'half'
            else:
                continue
            fields = {x[1] for c in S.classes for x in c.fields}
            if src not in fields or n not in fields:
                continue

            def run(ce, e=e, f=f):
                this = Obj(f.cls, tuple(f.ctargs or ()), {x: sym(x) for x in fields})
                env = {p.name: Var(sym(('_' + p.name) if '_' + p.name in fields else p.name)) for p in f.params}
                return ce.num(ce.frame(ce, env, this, f, 0).ev(e[2]))
            b = J.ev(rule, f, run, {}, {}, ': %s' % n)
            if b is None:
                continue
            x = sym(src)
            want = {'sq': [x * x, -x * x, sym(n), -sym(n)], 'log': [fn('log', x)], 'half': [x / 2]}[kind]
            bad = [r for t, r in b if not any(equal(r, w) for w in want) and not other(t, r, fields)]
            ck.ob(rule, '%s: %s' % (f.qual, n), not bad, 'is %s' % text(bad[0]) if bad else '', f.where)


def other(t, r, fields):
    """a value that is not written in terms of the fields is not judged"""
    return not syms(r, set()) <= fields


def check(ck):
    S = load_sources()
    J = Judge(ck)
    two(ck, S, J)
    three(ck, S, J)
    accumulate(ck, S, J)
    slots(ck, S, J)
    top_bin(ck, S, J)
    derived(ck, S, J)
    if J.missing > 10:
        raise AnalysisBroken('the helpers of the bin types are not found')
    ck.assumptions = ['floor is an opaque function of its argument; bin numbers are at most one past the last bin for values in range',
                      'lengths and sizes are non-negative']
