"""C23: formulas written out per coordinate, per object or per side treat them alike.

The positions, bounds, metrics and split decisions of the C++ headers are read into closed forms (tc.ceval: polynomial
normal forms per branch).  Each is compared with its definition, and with its own image under relabelling the axes or
exchanging the two objects.
"""
import itertools

from ..ceval import Ceval, Obj, Undecided, Var, VRef
from ..cxx import load_sources
from .. import poly
from ..poly import P, lift, sym, fn, sqrt, from_key, inv, atom, text
from ..pyrepo import AnalysisBroken

PROP = 'C23'
AX = {'Flat': 'xy', 'ThreeD': 'xyz', 'Sphere': 'xyz'}
H = lift(1) / 2


def equal(a, b):
    """equality of normal forms; a difference too large to expand counts as unequal only where nothing cancels it"""
    d = lift(a) - lift(b)
    if d.is_zero():
        return True
    outer, poly.LIMIT[0] = poly.LIMIT[0], 150000
    try:
        return poly.equal(a, b)
    except poly.TooBig:
        raise Undecided('formula too large')
    finally:
        poly.LIMIT[0] = outer


def pos(C, n, filled=True):
    f = {'_' + a: sym(n + '.' + a) for a in AX[C]}
    q = sum((v * v for v in f.values()), lift(0))
    f['_normsq'], f['_norm'] = (q, sqrt(q)) if filled else (lift(0), lift(0))
    return Obj('Position', (C,), f)


def vec(C, n):
    return {a: sym('%s.%s' % (n, a)) for a in AX[C]}


def comps(o, C):
    return {a: o.f.get('_' + a) for a in AX[C]}


def dot(u, v):
    return sum((u[a] * v[a] for a in u), lift(0))


def cross(u, v):
    if 'z' not in u:
        return u['x'] * v['y'] - u['y'] * v['x']
    return {'x': u['y'] * v['z'] - u['z'] * v['y'], 'y': u['z'] * v['x'] - u['x'] * v['z'],
            'z': u['x'] * v['y'] - u['y'] * v['x']}


def add(u, v, k=1):
    return {a: u[a] + v[a] * k for a in u}


def rename(p, mp):
    """replace symbols by name, keeping the arguments of symmetric functions in order"""
    key = (p.key, tuple(sorted(mp.items())))
    if key in _renamed:
        return _renamed[key]
    d = {}
    for m, c in p.d.items():
        t = lift(c)
        for a, e in m:
            k = a[0]
            if k == 'sym':
                v = sym(mp.get(a[1], a[1]))
            elif k == 'inv':
                v = inv(rename(from_key(a[1]), mp))
            elif k == 'sqrt':
                v = sqrt(rename(from_key(a[1]), mp))
            elif k == 'fn':
                args = [rename(from_key(x), mp) for x in a[2:]]
                if a[1] in ('max', 'min'):
                    args.sort(key=lambda q: repr(q.key))
                v = fn(a[1], *args)
            else:
                v = atom(a)
            t = t * (v ** e if e > 0 else inv(v) ** (-e))
        for mm, cc in t.d.items():
            d[mm] = d.get(mm, 0) + cc
    _renamed[key] = out = P(d)
    return out


_renamed = {}


def literal(key, v, mp=None):
    """a branch condition, without the difference between < and <="""
    op, k = key
    p = from_key(k)
    if mp:
        p = rename(p, mp)
    n = -p
    if op == 'eq':
        return ('eq', min(repr(p.key), repr(n.key)), v)
    if not v:
        p, n = n, p
    return ('lt', repr(p.key), repr(n.key))


def value(v, mp=None):
    if isinstance(v, P):
        return repr((rename(v, mp) if mp else v).key)
    return repr(v)


def branch_set(bs, mp=None, names=None):
    """the branches as a set, under a renaming of symbols and of result names"""
    out = set()
    for trail, res in bs:
        lits = frozenset(literal(k, v, mp) for k, v in trail)
        if any(x[0] == 'lt' and ('lt', x[2], x[1]) in lits for x in lits):
            continue            # a tie
        r = frozenset(((names or {}).get(n, n), value(v, mp)) for n, v in res.items())
        out.add((lits, r))
    return out


def swap12(names):
    mp = {}
    for n in names:
        if '1' in n:
            mp[n] = n.replace('1', '#').replace('2', '1').replace('#', '2')
        elif '2' in n:
            mp[n] = n.replace('2', '1')
    return mp


def syms(p, out):
    for m in p.d:
        for a, _ in m:
            if a[0] == 'sym':
                out.add(a[1])
            else:
                for k in a[1:]:
                    if isinstance(k, tuple):
                        try:
                            syms(from_key(k), out)
                        except Exception:
                            pass
    return out


def all_syms(bs):
    out = set()
    for trail, res in bs:
        for (op, k), v in trail:
            syms(from_key(k), out)
        for v in res.values():
            if isinstance(v, P):
                syms(v, out)
    return {s for s in out if isinstance(s, str)}


def axis_maps(C, names):
    """renamings of the symbols that permute the axes"""
    A = AX[C]
    for perm in itertools.permutations(A):
        if perm == tuple(A):
            continue
        d = dict(zip(A, perm))
        mp = {}
        for n in names:
            if '.' in n and n.rsplit('.', 1)[1] in d:
                b, a = n.rsplit('.', 1)
                mp[n] = b + '.' + d[a]
            elif n and n[0] in d and n[1:] in ('p', 'min', 'max', '1', '2', 'period'):
                mp[n] = d[n[0]] + n[1:]
            elif n.startswith('_') and n[1:2] in d:
                mp[n] = '_' + d[n[1]] + n[2:]
        yield d, mp


class Sub:
    def __init__(self, ck):
        self.ck = ck

    def ev(self, rule, f, run, tenv=None, opaque=()):
        """branches of f, or None with an (undecided) obligation"""
        ce = Ceval(tenv, opaque)
        try:
            b = ce.branches(run)
        except (Undecided, RecursionError) as x:
            self.ck.ob(rule, '%s (undecided)' % f.qual, True, f.where, str(x)[:100])
            return None
        except AnalysisBroken:
            raise
        for w in ce.used:
            self.ck.saw('functions', w)
        return b


def live(b):
    """branches that do not need a length to vanish"""
    return [(t, r) for t, r in b if not any(op == 'eq' and v and nonconst(k) for (op, k), v in t)]


def nonconst(k):
    return any('.' in s for s in syms(from_key(k), set()))


def positions(ck, S, sub):
    R = 'positions'
    ck.rule(R, 'every operation on a position combines each coordinate with the same coordinate of its partner (and the '
               'cross product is the determinant), leaving no length remembered from before the change', 20)
    for C in ('Flat', 'ThreeD'):
        A = AX[C]
        u, v = vec(C, 'p1'), vec(C, 'q')
        a = sym('a')
        spec = {
            'normSq': ('ret', dot(u, u)), 'norm': ('ret', sqrt(dot(u, u))),
            'dot': ('ret', dot(u, v)), 'cross': ('ret', cross(u, v)),
            'operator+': ('ret', add(u, v)), 'operator-': ('ret', add(u, v, -1)),
            'operator*': ('ret', {x: u[x] * a for x in A}), 'operator/': ('ret', {x: u[x] / a for x in A}),
            'operator+=': ('me', add(u, v)), 'operator-=': ('me', add(u, v, -1)),
            'operator*=': ('me', {x: u[x] * a for x in A}), 'operator/=': ('me', {x: u[x] / a for x in A}),
            'operator=': ('me', v),
            'getX': ('ret', u['x']), 'getY': ('ret', u['y']),
        }
        if C != 'Flat':
            spec['getZ'] = ('ret', u['z'])
        for name, (what, want) in spec.items():
            fs = [f for f in S.functions if f.cls == 'Position' and list(f.ctargs or ()) == [C] and f.name == name]
            for f in fs:
                for filled in (True, False):
                    def run(ce, f=f, filled=filled):
                        me = pos(C, 'p1', filled)
                        args = [pos(C, 'q', filled) if 'Position' in p.type else a for p in f.params]
                        r = ce.call(f, args, me)
                        o = r if what == 'ret' else me
                        return {'o': o.copy() if isinstance(o, Obj) else o}
                    b = sub.ev(R, f, run)
                    if b is None:
                        continue
                    bad = None
                    for trail, res in b:
                        if filled is False and any(op == 'eq' and not vv for (op, k), vv in trail if not syms(from_key(k), set())):
                            continue
                        o = res['o']
                        if isinstance(want, dict):
                            if not isinstance(o, Obj):
                                raise AnalysisBroken('%s does not give a position' % f.qual)
                            for x in A:
                                g = o.f.get('_' + x)
                                if g is None:
                                    raise AnalysisBroken('field _%s of %s not found' % (x, f.qual))
                                if not equal(g, want[x]):
                                    bad = '%s becomes %s, expected %s' % (x, text(g), text(want[x]))
                            q = dot(want, want)
                            for nm, w in (('_normsq', q), ('_norm', sqrt(q))):
                                g = o.f.get(nm)
                                if g is not None and not (g.is_zero() or equal(g, w)):
                                    bad = 'the remembered length %s stays %s' % (nm, text(g))
                        elif not isinstance(o, P) or not equal(o, want):
                            bad = 'gives %s, expected %s' % (text(o) if isinstance(o, P) else o, text(want))
                    ck.ob(R, '%s: %s' % (f.qual, 'lengths known' if filled else 'lengths not known'), not bad, f.where, bad or '')
        # constructors
        for f in [f for f in S.functions if f.cls == 'Position' and f.name == 'Position' and list(f.ctargs or ()) == [C]]:
            if len(f.params) not in (1, len(A)):
                continue

            def run(ce, f=f):
                args = [pos(C, 'q')] if len(f.params) == 1 else [sym('c.' + x) for x in A]
                me = Obj('Position', (C,))
                ce.call(f, args, me)
                return {'o': me}
            b = sub.ev(R, f, run)
            if b is None:
                continue
            w = vec(C, 'q' if len(f.params) == 1 else 'c')
            bad = [x for t, r in b for x in A if not isinstance(r['o'].f.get('_' + x), P) or not equal(r['o'].f['_' + x], w[x])]
            ck.ob(R, '%s(%s)' % (f.qual, ','.join(p.type for p in f.params)), not bad, f.where,
                  'coordinate %s is not the matching argument' % bad[0] if bad else '')
        # wrapping into the periodic box: the axes are images of each other and independent
        for f in [f for f in S.functions if f.cls == 'Position' and f.name == 'wrap' and list(f.ctargs or ()) == [C]]:
            if len(f.params) != len(A):
                raise AnalysisBroken('%s takes %d periods' % (f.qual, len(f.params)))
            b = sub.ev(R, f, lambda ce: wrapped(ce, f, C))
            if b is None:
                continue
            ok = []
            for x in A:
                used = set()
                for t, r in b:
                    syms(r['_' + x], used)
                other = {s for s in used if s[-1:] in A and s[-1] != x or s[1:] == 'p' and s[0] != x}
                if other - {'@loop'}:
                    ok.append('%s depends on %s' % (x, sorted(other)[0]))
            for d, mp in axis_maps(C, all_syms(b)):
                if branch_set(b, mp, {'_' + k: '_' + v for k, v in d.items()}) != branch_set(b):
                    ok.append('exchanging the axes %s changes the formula' % ','.join('%s->%s' % z for z in d.items() if z[0] != z[1]))
            ck.ob(R, f.qual, not ok, f.where, ok[0] if ok else '')


def wrapped(ce, f, C):
    me = pos(C, 'p1', False)
    ce.call(f, [sym(x + 'p') for x in AX[C]], me)
    return {'_' + x: me.f['_' + x] for x in AX[C]}


def bounds(ck, S, sub):
    R = 'bounds'
    ck.rule(R, 'bounds grow to include a position on every axis, the middle and the coordinate compared with it belong to the '
               'same axis, and the axis chosen is a widest one', 10)
    for C in ('Flat', 'ThreeD'):
        A = AX[C]

        def box():
            f = {'_defined': lift(1)}
            for x in A:
                f['_%smin' % x], f['_%smax' % x] = sym('_%smin' % x), sym('_%smax' % x)
            return Obj('Bounds', (C,), f)
        mine = [f for f in S.functions if f.cls == 'Bounds' and list(f.ctargs or ()) == [C]]
        for f in mine:
            if f.name == 'Bounds' and f.params:
                npos = len(f.params) == 1
                if not npos and len(f.params) != 2 * len(A):
                    continue

                def run(ce, f=f):
                    me = Obj('Bounds', (C,))
                    ce.call(f, [pos(C, 'q')] if npos else [sym('%s%d' % (x, i)) for x in A for i in (1, 2)], me)
                    return me.f
                b = sub.ev(R, f, run)
                if b is None:
                    continue
                bad = None
                for t, r in b:
                    for x in A:
                        lo, hi = (sym('q.' + x),) * 2 if npos else (sym(x + '1'), sym(x + '2'))
                        for nm, w in (('_%smin' % x, lo), ('_%smax' % x, hi)):
                            if r.get(nm) is None:
                                raise AnalysisBroken('Bounds has no %s' % nm)
                            if not equal(r[nm], w):
                                bad = '%s starts as %s' % (nm, text(r[nm]))
                ck.ob(R, '%s(%d arguments)' % (f.qual, len(f.params)), not bad, f.where, bad or '')
            elif f.name == 'operator+=' and len(f.params) == 1 and 'Position' in f.params[0].type:
                def run(ce, f=f):
                    me = box()
                    ce.call(f, [pos(C, 'q')], me)
                    return {k: v for k, v in me.f.items() if k != '_defined'}
                b = sub.ev(R, f, run)
                if b is not None:
                    bad = None
                    for t, r in b:
                        for x in A:
                            bad = bad or grown(t, r, x)
                    ck.ob(R, '%s: position joined to a defined box' % f.qual, not bad, f.where, bad or '')

                def run0(ce, f=f):
                    me = box()
                    me.f['_defined'] = lift(0)
                    ce.call(f, [pos(C, 'q')], me)
                    return dict(me.f)
                b = sub.ev(R, f, run0)
                if b is not None:
                    bad = None
                    for t, r in b:
                        for x in A:
                            for m in ('min', 'max'):
                                g = r['_%s%s' % (x, m)]
                                if not equal(g, sym('q.' + x)):
                                    bad = '_%s%s starts as %s' % (x, m, text(g))
                        d = r['_defined']
                        if not (d is True or isinstance(d, P) and d.const() not in (None, 0)):
                            bad = 'the box is still undefined'
                    ck.ob(R, '%s: first position of a box' % f.qual, not bad, f.where, bad or '')
            elif f.name == 'getMiddle':
                g = [h for h in S.functions if h.cls == 'Position' and h.name == 'get' and list(h.ctargs or ()) == [C]]
                for k, x in enumerate(A):
                    b = sub.ev(R, f, lambda ce: {'m': ce.call(f, [lift(k)], box()),
                                                 'g': ce.call(g[0], [lift(k)], pos(C, 'q')) if g else None})
                    if b is None:
                        continue
                    bad = None
                    for t, r in b:
                        hit = [y for y in A if r['g'] is not None and equal(r['g'], sym('q.' + y))]
                        if not hit:
                            raise AnalysisBroken('Position::get(%d) is not a coordinate' % k)
                        y = hit[0]
                        if not equal(r['m'], (sym('_%smin' % y) + sym('_%smax' % y)) / 2):
                            bad = 'getMiddle(%d) is %s while get(%d) is the %s coordinate' % (k, text(r['m']), k, y)
                    ck.ob(R, '%s: axis %d' % (f.qual, k), not bad, f.where, bad or '')
            elif f.name == 'getSplit':
                g = [h for h in S.functions if h.cls == 'Position' and h.name == 'get' and list(h.ctargs or ()) == [C]]
                b = sub.ev(R, f, lambda ce: {'k': ce.call(f, [], box())})
                if b is None:
                    continue
                rng = {x: sym('_%smax' % x) - sym('_%smin' % x) for x in A}
                bad = None
                for t, r in b:
                    k = r['k'].const() if isinstance(r['k'], P) else None
                    if k is None:
                        continue
                    gg = sub.ev(R, f, lambda ce: {'g': ce.call(g[0], [lift(int(k))], pos(C, 'q'))})
                    y = [x for x in A if equal(gg[0][1]['g'], sym('q.' + x))][0]
                    ge = {(x, x) for x in A}
                    for (op, key), v in t:
                        p = from_key(key)
                        for i in A:
                            for j in A:
                                if i != j and equal(p, rng[i] - rng[j]):
                                    # rng_i < rng_j is v
                                    ge.add((j, i) if v else (i, j))
                    for m in A:
                        for i in A:
                            for j in A:
                                if (i, m) in ge and (m, j) in ge:
                                    ge.add((i, j))
                    lost = [x for x in A if (y, x) not in ge]
                    if lost:
                        bad = 'chooses axis %s where %s may be wider' % (y, lost[0])
                ck.ob(R, '%s: the axis chosen' % f.qual, not bad, f.where, bad or '')


def grown(t, r, x):
    """None if the interval of axis x after the step includes both the old interval and the position"""
    lo, hi, q = sym('_%smin' % x), sym('_%smax' % x), sym('q.' + x)
    known = {}
    for (op, k), v in t:
        if op == 'lt':
            known[k] = v

    def lt(a, b):
        d = a - b
        if known.get(d.key):
            return True
        return None

    def le(a, b):
        # a <= b
        if lt(a, b) or known.get((b - a).key) is False:
            return True
        return False
    a, b = r['_%smin' % x], r['_%smax' % x]
    if equal(a, lo):
        if not (le(lo, q) or le(hi, q)):
            return 'the lower bound of %s stays where the position may be below it' % x
    elif equal(a, q):
        if not le(q, lo):
            return 'the lower bound of %s is raised to the position' % x
    elif value(a) != value(fn('min', *sorted((lo, q), key=lambda p: repr(p.key)))):
        return 'the lower bound of %s becomes %s' % (x, text(a))
    if equal(b, hi):
        if not (le(q, hi) or le(q, lo)):
            return 'the upper bound of %s stays where the position may be above it' % x
    elif equal(b, q):
        if not le(hi, q):
            return 'the upper bound of %s is lowered to the position' % x
    elif value(b) != value(fn('max', *sorted((hi, q), key=lambda p: repr(p.key)))):
        return 'the upper bound of %s becomes %s' % (x, text(b))
    return None


def helper(M):
    f = {'minrpar': sym('minrpar'), 'maxrpar': sym('maxrpar'), '_normLsq': sym('_normLsq'), 'xp': sym('xp'), 'yp': sym('yp'),
         'zp': sym('zp')}
    return Obj('MetricHelper', (M, 'P'), f)


def coord(t):
    for C in ('Flat', 'ThreeD', 'Sphere'):
        if '<%s>' % C in t:
            return C
    return None


SYMMETRIC = {'Euclidean', 'Periodic', 'Rperp', 'OldRperp', 'Arc'}


def metrics(ck, S, sub):
    R = 'metrics'
    ck.rule(R, 'the distance of each metric is its documented function of the two positions, the same under every relabelling '
               'of the axes, and (except Rlens) under exchange of the two objects with their sizes', 20)
    R2 = 'orientation'
    ck.rule(R2, 'three points count as counter-clockwise by the sign of the cross product of the sides leaving the first', 6)
    R3 = 'angles'
    ck.rule(R3, 'the cosine of the angle at the first vertex is the law of cosines for its own opposite side', 4)
    R4 = 'line-of-sight'
    ck.rule(R4, 'the separation along the line of sight is odd under exchange of the objects, and a pair of cells is dropped or '
                'accepted as a whole only when both ends of its range are on that side of the limits', 6)
    ms = [f for f in S.functions if f.cls == 'MetricHelper']
    if not ms:
        raise AnalysisBroken('no MetricHelper')
    for f in ms:
        bounded(ck, R, f, lambda: one_metric(ck, S, sub, f, R, R2, R3))
    for f in [f for f in S.functions if f.cls == 'ParHelper']:
        bounded(ck, R4, f, lambda: one_los(ck, S, sub, f, R4))


def bounded(ck, rule, f, run):
    poly.LIMIT[0] = 1000000
    try:
        run()
    except (Undecided, poly.TooBig) as x:
        ck.ob(rule, '%s (undecided)' % f.qual, True, f.where, str(x) or 'formula too large')
    finally:
        poly.LIMIT[0] = None


def one_metric(ck, S, sub, f, R, R2, R3):
    M = f.ctargs[0]
    if f.name in ('DistSq', 'Dist') and len(f.params) >= 2:
        C = coord(f.params[0].type)
        if C is None:
            return

        def run(ce, f=f, M=M, C=C):
            h = helper(M)
            s = [Var(sym('s1')), Var(sym('s2'))]
            args = [pos(C, 'p1'), pos(C, 'p2')] + [VRef(x) for x in s][:len(f.params) - 2]
            r = ce.call(f, args, h)
            return {'d': r, 's1': s[0].v, 's2': s[1].v}
        b = sub.ev(R, f, run, {'P': 0})
        if b is None:
            return
        b = [(t, r) for t, r in live(b)]
        p1, p2 = vec(C, 'p1'), vec(C, 'p2')
        L = add(p1, p2)
        LL = dot(L, L) / 4
        b = [(t, r) for t, r in b if not any(op == 'lt' and (
            (v is False and equal(from_key(k), -LL)) or (v is True and equal(from_key(k), LL))) for (op, k), v in t)]
        if not b:
            raise AnalysisBroken('%s has no ordinary branch' % f.qual)
        name = '%s(%s)' % (f.qual, C)
        want = definition(M, C, p1, p2, S)
        bad = und = None
        for t, r in b:
            d = r['d']
            if not isinstance(d, P):
                raise AnalysisBroken('%s gives no number' % name)
            # lengths are not negative: compare squares
            ws = want
            if f.name == 'Dist':
                d = d * d
            try:
                ok = any(equal(d, w) for w in ws)
            except Undecided:
                ok = None
            if ok is None:
                und = 'distance formula too large'
            elif not ok and M == 'Arc':
                fold = folded(d)
                if fold:
                    bad = fold
                else:
                    und = 'distance formula in another form'
            elif not ok and M == 'OldRperp':
                und = 'distance formula in another form'
            elif not ok and ws:
                bad = 'gives %s' % text(d)[:200]
        ck.ob(R, name + ': definition' + (' (undecided)' if und and not bad else ''), not bad, f.where, bad or und or '')
        if bad:
            return
        base = branch_set(b)
        names = all_syms(b)
        sz = sizes(M, C, p1, p2)
        if f.name == 'DistSq' and sz:
            bad = None
            for t, r in b:
                for n, w in zip(('s1', 's2'), sz):
                    if not isinstance(r[n], P) or not equal(r[n] * r[n], w * w):
                        bad = 'the size %s becomes %s' % (n, text(r[n])[:120])
            ck.ob(R, name + ': sizes', not bad, f.where, bad or '')
        bad = None
        for d, mp in axis_maps(C, names):
            if branch_set(b, mp) != base:
                bad = 'relabelling the axes %s changes the result' % ','.join('%s->%s' % z for z in d.items() if z[0] != z[1])
                break
        ck.ob(R, name + ': axes', not bad, f.where, bad or '')
        if M in SYMMETRIC and M != 'Periodic':
            got = branch_set(b, swap12(names), {'s1': 's2', 's2': 's1'})
            ck.ob(R, name + ': exchange of the objects', got == base, f.where,
                  '' if got == base else 'exchanging the two objects and their sizes changes the result')
    elif f.name == 'CCW' and len(f.params) == 3:
        C = coord(f.params[0].type)
        if C is None:
            return
        b = sub.ev(R2, f, lambda ce: {'r': ce.call(f, [pos(C, 'p%d' % i) for i in (1, 2, 3)], helper(M))}, {'P': 0})
        if b is None:
            return
        v = [vec(C, 'p%d' % i) for i in (1, 2, 3)]
        u, w = add(v[1], v[0], -1), add(v[2], v[0], -1)
        if M == 'Periodic':
            wf = [g for g in S.functions if g.cls == 'Position' and g.name == 'wrap' and list(g.ctargs or ()) == [C]]
            if not wf:
                return
            u, w = wrap_of(wf[0], C, u), wrap_of(wf[0], C, w)
            if u is None or w is None:
                ck.ob(R2, '%s(%s) (undecided)' % (f.qual, C), True, f.where, '')
                return
        k = cross(u, w)
        if C != 'Flat':
            k = -dot(k, v[0])
        bad = None
        for t, r in b:
            r = r['r']
            if r not in (True, False):
                bad = 'gives no truth value'
                continue
            ok = False
            for (op, key), val in t:
                p = from_key(key)
                # counter-clockwise is k > 0
                if op == 'lt' and (equal(p, -k) and val == r or equal(p, k) and val != r):
                    ok = True
            if not ok:
                bad = 'is not the sign of the cross product'
        ck.ob(R2, '%s(%s)' % (f.qual, C), not bad, f.where, bad or '')
    elif f.name == 'calculateCosPhi' and len(f.params) == 9:
        C = 'Sphere' if M == 'Arc' else 'ThreeD'
        cells = [Obj('BaseCell', ('C',), {'.getPos': pos(C, 'p%d' % i)}) for i in (1, 2, 3)]
        d = [sym('d%d' % i) for i in (1, 2, 3)]
        b = sub.ev(R3, f, lambda ce: {'r': ce.call(f, cells + [x * x for x in d] + d, helper(M))}, {'P': 0}, {'getPos'})
        if b is None:
            return
        if M == 'Arc':
            v = [vec(C, 'p%d' % i) for i in (1, 2, 3)]
            sq = lambda i, j: dot(add(v[i], v[j], -1), add(v[i], v[j], -1))
            a, b2, c = sq(1, 2), sq(0, 2), sq(0, 1)
            q = sym('n.a'), sym('n.b'), sym('n.c')
            want = (b2 + c - b2 * c / 2 - a) / (2 * sqrt(b2 * c * (1 - b2 / 4) * (1 - c / 4)))
        else:
            want = (d[1] ** 2 + d[2] ** 2 - d[0] ** 2) / (2 * d[1] * d[2])
        bad = [text(r['r'])[:150] for t, r in b if not isinstance(r['r'], P) or not equal(r['r'], want)]
        if bad and M == 'Arc':
            # another arrangement: at least the second and third vertices must be alike
            names = all_syms(b)
            mp = {n: 'p%s.%s' % ({'2': '3', '3': '2'}.get(n[1], n[1]), n[3:]) for n in names if n[:1] == 'p' and n[2:3] == '.'}
            same = branch_set(b, mp) == branch_set(b)
            ck.ob(R3, f.qual + (' (undecided)' if same else ''), same, f.where,
                  '' if same else 'exchanging the second and third vertices changes the angle at the first')
        else:
            ck.ob(R3, f.qual, not bad, f.where, 'gives %s' % bad[0] if bad else '')


def one_los(ck, S, sub, f, R4):
    P0 = list(f.ctargs or ())
    C = 'ThreeD'
    o = Obj('ParHelper', tuple(P0))
    if f.name == 'calculateRPar':
        b = sub.ev(R4, f, lambda ce: {'r': ce.call(f, [pos(C, 'p1'), pos(C, 'p2')], o)})
        if b is None:
            return
        b = live(b)
        p1, p2 = vec(C, 'p1'), vec(C, 'p2')
        L = add(p1, p2)
        ws = (dot(add(p2, p1, -1), L) / sqrt(dot(L, L)), dot(add(p2, p1, -1), L) / 2 / sqrt(dot(L, L) / 4),
              sqrt(dot(p2, p2)) - sqrt(dot(p1, p1)))
        hit = all(any(equal(r['r'], w) for w in ws) for t, r in b)
        bad = None
        if not hit:
            names = all_syms(b)
            mp = swap12(names)
            for t, r in b:
                if not equal(rename(r['r'], mp), -r['r']):
                    bad = 'exchanging the two objects does not reverse %s' % text(r['r'])[:120]
            for d, mp in axis_maps(C, names):
                if not bad and branch_set(b, mp) != branch_set(b):
                    bad = 'relabelling the axes changes the result'
        ck.ob(R4, f.qual + ('' if hit or bad else ' (undecided)'), not bad, f.where, bad or '')
    elif f.name in ('isRParOutsideRange', 'isRParInsideRange') and len(f.params) == 6:
        out = f.name == 'isRParOutsideRange'
        lo, hi, s = sym('lo'), sym('hi'), sym('s')

        def run(ce, f=f, o=o):
            v = Var(sym('rpar'))
            r = ce.call(f, [pos(C, 'p1'), pos(C, 'p2'), lo, hi, s, VRef(v)], o)
            return {'r': r, 'rpar': v.v}
        b = sub.ev(R4, f, run)
        if b is None:
            return
        bad = None
        for t, r in live(b):
            if not P0:
                continue        # no limits for this metric
            rp = r['rpar']
            kn = {}
            for (op, k), v in t:
                if op == 'lt':
                    kn[k] = v
            below = lambda a: kn.get(a.key)
            if out and r['r'] is True:
                if not (below(rp + s - lo) is True or below(hi - rp + s) is True):
                    bad = 'a pair is dropped that may lie within the limits'
            if out and r['r'] is False and (below(rp + s - lo) is True or below(hi - rp + s) is True):
                bad = 'a pair beyond the limits is kept'
            if not out and r['r'] is True:
                if not (below(rp - s - lo) is False and below(hi - rp - s) is False):
                    bad = 'a pair is accepted as a whole although part of it may lie beyond the limits'
        ck.ob(R4, f.qual, not bad, f.where, bad or '')


def wrap_of(f, C, u):
    ce = Ceval()
    o = Obj('Position', (C,), dict({'_' + a: u[a] for a in AX[C]}, _normsq=lift(0), _norm=lift(0)))

    def run(c):
        q = o.copy()
        c.call(f, [sym(x + 'p') for x in AX[C]], q)
        return {x: q.f['_' + x] for x in AX[C]}
    try:
        b = ce.branches(run)
    except Undecided:
        return None
    return b[0][1] if len(b) == 1 else None


def folded(d):
    """an angle that cannot exceed a right angle: arcsin of the sine of the full angle"""
    for m, c in d.d.items():
        for a, e in m:
            if a[:2] == ('fn', 'arcsin'):
                x = from_key(a[2])
                # half-angle forms carry the factor two outside
                if (c == 1 and e in (1, 2)):
                    return 'arcsin of the sine of the full angle folds separations above 90 degrees onto smaller ones'
    return None


def sizes(M, C, p1, p2):
    """the radii of the two cells as this metric measures them (None: no single formula)"""
    s1, s2 = sym('s1'), sym('s2')
    n1, n2 = dot(p1, p1), dot(p2, p2)
    if M in ('Euclidean', 'Periodic') or (M, C) == ('Arc', 'Sphere'):
        return s1, s2
    if M == 'Rlens':
        return s1, s2 * sqrt(n1 / n2)
    if M == 'Arc':
        return s1 / sqrt(n1), s2 / sqrt(n2)
    return None


def definition(M, C, p1, p2, S):
    """acceptable closed forms of the squared distance"""
    d = add(p1, p2, -1)
    n1, n2 = dot(p1, p1), dot(p2, p2)
    if M == 'Euclidean':
        return [dot(d, d)]
    if M == 'Periodic':
        fs = [g for g in S.functions if g.cls == 'Position' and g.name == 'wrap' and list(g.ctargs or ()) == [C]]
        out = []
        for v in (d, add(p2, p1, -1)):
            w = wrap_of(fs[0], C, v) if fs else None
            if w is not None:
                out.append(dot(w, w))
        return out
    if C == 'Flat':
        return []
    x = cross(p1, p2)
    xx = dot(x, x)
    L = add(p1, p2)
    LL = dot(L, L) / 4
    if M == 'Rperp':
        # the same thing by Pythagoras: |r|^2 - (r.L)^2/|L|^2
        return [xx / LL]
    if M == 'Rlens':
        return [xx / n2]
    if M == 'OldRperp':
        dd = dot(d, d)
        return [fn('abs', dd - (n1 - n2) ** 2 / (n1 + n2 + 2 * sqrt(n1 * n2))), fn('abs', dd - (sqrt(n1) - sqrt(n2)) ** 2),
                dd - (sqrt(n1) - sqrt(n2)) ** 2]
    if M == 'Arc':
        out = [(2 * fn('arcsin', sqrt(dot(d, d)) / 2)) ** 2] if C == 'Sphere' else []
        dt = dot(p1, p2)
        out.append(fn('atan2', sqrt(xx), dt) ** 2)
        if C == 'ThreeD':
            out.append(fn('arccos', dt / (sqrt(n1) * sqrt(n2))) ** 2)
            out.append(fn('arccos', dt / sqrt(n1 * n2)) ** 2)
        return out
    return []


def splits(ck, S, sub):
    R = 'splitting'
    ck.rule(R, 'the decision which of two cells to split is the same with the two cells exchanged', 2)
    for f in S.functions:
        if f.name in ('CalcSplit', 'CalcSplitSq') and not f.cls and len(f.params) == 6 and 'bool' in f.params[0].type:
            def run(ce, f=f):
                v = [Var(sym('split1')), Var(sym('split2'))]
                ce.call(f, [VRef(v[0]), VRef(v[1]), sym('s1'), sym('s2'), sym('s1') + sym('s2'), sym('b')], None)
                return {'split1': v[0].v, 'split2': v[1].v}
            b = sub.ev(R, f, run)
            if b is None:
                continue
            # the ordinary call: neither decided yet
            b = [(tuple(x for x in t if x[0][0] == 'lt'), r) for t, r in b
                 if not any(op == 'eq' and not v for (op, k), v in t)]
            b = [(t, {n: False if isinstance(v, P) else v for n, v in r.items()}) for t, r in b]
            names = all_syms(b) | {'s1', 's2'}
            got = branch_set(b, swap12(names), {'split1': 'split2', 'split2': 'split1'})
            base = branch_set(b)
            # a test of one order and the opposite test of the other are the same condition
            ck.ob(R, f.qual, prune(got) == prune(base), f.where,
                  '' if prune(got) == prune(base) else 'exchanging the cells does not exchange the decision')


def prune(bs):
    return frozenset(bs)


def check(ck):
    S = load_sources()
    sub = Sub(ck)
    positions(ck, S, sub)
    bounds(ck, S, sub)
    if any(v['rule'] == 'positions' for v in ck.viol):
        return          # every metric rests on these
    metrics(ck, S, sub)
    splits(ck, S, sub)
    # the sums per vertex and per side, the centroids and the projections are decided with the kernels
    from . import c16_kernels as k
    k.three_point(ck)
    k.averages(ck)
    k.projections(ck)
