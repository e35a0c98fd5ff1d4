"""C16: what one pair or triangle of cells (or one multipole sum) adds to every accumulated array.

The kernels are summarised by abstract interpretation (tc.cxxflow), read as polynomials in the cell values (tc.kernel) and
compared with the definitions below in normal form.  The phases applied by the projection helpers and by the averages of
tree cells are compared with the definition of a spin-s rotation for every spin and geometry.
"""
from fractions import Fraction

from .. import poly
from ..poly import I, lift, sym, atom
from ..pyflow import T, C, show
from ..pyrepo import AnalysisBroken
from ..cxx import load_sources
from ..cxxutil import base
from ..kernel import Eval, Undecided, Pos, flow, reduce_unit, comp, unit, AXES

PROP = 'C16'
PROJ = ('Project', 'ProjectWithSq', 'ProjectX', 'ExpIPhi')
SPIN = {'ZData': 0, 'VData': 1, 'GData': 2, 'TData': 3, 'QData': 4}
GEOM = {'Flat': 0, 'Sphere': 2, 'ThreeD': 3}


def pairs():
    one = ['KData', 'ZData', 'VData', 'GData', 'TData', 'QData']
    out = [('NData', 'NData')] + [('NData', d) for d in one] + [('KData', d) for d in one]
    return out + [(d, d) for d in one[1:]]


def param(*names):
    return [T('param', n) for n in names]


class Sheet:
    """collects accumulations per (array, index) and compares them with the definition"""

    def __init__(self, ck, rule, label, ev, arrays=None):
        self.ck, self.rule, self.label, self.ev = ck, rule, label, ev
        self.spec = {}

    def add(self, nm, idx, v):
        k = (nm, idx)
        self.spec[k] = self.spec.get(k, lift(0)) + v

    def add_c(self, re, im, idx, v):
        self.add(re, idx, self.ev.re(v))
        self.add(im, idx, self.ev.im(v))

    def judge(self, got, und, where, fix=None, rename=None):
        bad = {nm for nm, w, t in und}
        got = {(rename(nm) if rename else nm, i): v for (nm, i), v in got.items()}
        arrays = sorted({nm for nm, i in self.spec} | {nm for nm, i in got})
        n = 0
        for a in arrays:
            if a in bad or (rename and any(rename(b) == a for b in bad)):
                continue
            idxs = sorted({i for nm, i in self.spec if nm == a} | {i for nm, i in got if nm == a}, key=repr)
            err = None
            for i in idxs:
                s = self.spec.get((a, i), lift(0))
                g = got.get((a, i), lift(0))
                if fix:
                    s, g = fix(s), fix(g)
                if not poly.equal(s, g):
                    err = 'element %s gets %s instead of %s' % (i, poly.text(g)[:260], poly.text(s)[:260])
                    break
            n += 1
            self.ck.ob(self.rule, '%s %s' % (self.label, a), err is None, err or 'ok', where)
        return n


def plain(ev, zcells):
    """a spin-0 projection is the identity (decided by the rotation rule); the value of a Z cell has two getters"""
    def one(a):
        if a[0] != 'sym' or not isinstance(a[1], str):
            return None
        nm = a[1]
        if nm.startswith('proj('):
            nm = nm[:-1].split('; ')[-1]
        c, _, g = nm.partition('.')
        if c in zcells and g in ('getWZ', 'getWG'):
            return ev.csym(c + '.getWZ')
        return None

    def f(p):
        mp = {}
        for a in p.atoms():
            v = one(a[1] if a[0] == 'conj' else a)
            if v is not None:
                mp[a] = ev.conj(v) if a[0] == 'conj' else v
        return poly.subs(p, mp) if mp else p
    return f


def value(ev, D, cell, cells):
    """the weighted field value a kernel multiplies for data type D in the role of the given cell"""
    if D == 'NData':
        return sym(cell + '.getW')
    if D == 'KData':
        return sym(cell + '.getWK')
    if D == 'ZData':
        return ev.csym(cell + '.getWZ')
    return None


def two_point(ck):
    S = load_sources()
    R = 'pair'
    ck.rule(R, 'one pair of cells adds n1 n2, w1 w2, w1 w2 r, w1 w2 log r and the product of the weighted values (projected '
               'on their connecting line; xi+ with the second value conjugated; minus sign only for shears around N or K), '
               'and for reversed bins the same for the pair (2,1), each to its own array', 90)
    fs = [f for f in S.fns('finishProcess') if f.cls == 'Corr2' and f.body is not None]
    if len(fs) != 1:
        raise AnalysisBroken('Corr2::finishProcess not found once')
    f = fs[0]
    if len(f.params) != 7:
        raise AnalysisBroken('Corr2::finishProcess has %d parameters' % len(f.params))
    args = param('c1', 'c2', 'rsq', 'r', 'logr', 'k', 'k2')
    for D1, D2 in pairs():
        for rev in (0, 1):
            if rev and D1 != D2:
                continue
            fl, _ = flow(f, {'D1': T('enum', D1), 'D2': T('enum', D2), 'R': C(rev)}, stop=PROJ, args=args)
            for g in fl.seen:
                ck.saw(g.qual)
            ev = Eval(fl)
            got, und = ev.table(lambda nm: nm.startswith('_'))
            sh = Sheet(ck, R, '%s%s%s' % (D1[0], D2[0], ' reversed' if rev else ''), ev)
            ww = sym('c1.getW') * sym('c2.getW')
            for k in ('k', 'k2') if rev else ('k',):
                sh.add('_npairs', k, sym('c1.getN') * sym('c2.getN'))
                sh.add('_weight', k, ww)
                sh.add('_meanr', k, ww * sym('r'))
                sh.add('_meanlogr', k, ww * sym('logr'))
            v1, v2 = value(ev, D1, 'c1', 'c1,c2'), value(ev, D2, 'c2', 'c1,c2')
            if D2 == 'NData':
                pass
            elif v1 is None or D1 == 'ZData':
                if v1 is None:
                    v1 = ev.csym('proj(c1,c2; 0; c1.getWG)')
                    v2 = ev.csym('proj(c1,c2; 1; c2.getWG)')
                a, b = v1 * ev.conj(v2), v1 * v2
                for k in ('k', 'k2') if rev else ('k',):
                    sh.add_c('_xi.xip', '_xi.xip_im', k, a if k == 'k' else ev.conj(a))
                    sh.add_c('_xi.xim', '_xi.xim_im', k, b)
            else:
                if v2 is None:
                    v2 = ev.csym('proj(c1,c2; last; c2.getWG)')
                v = v1 * v2 * (-1 if D2 == 'GData' else 1)
                for k in ('k', 'k2') if rev else ('k',):
                    if D2 == 'KData':
                        sh.add('_xi.xi', k, v)
                    else:
                        sh.add_c('_xi.xi', '_xi.xi_im', k, v)
            sh.judge(got, und, fwhere(f), plain(ev, {c for c, d in (('c1', D1), ('c2', D2)) if d == 'ZData'}))


def fwhere(f):
    return '%s:%s (%s)' % (f.fname, f.line, f.qual)


ZETA = {'NData': [], 'KData': [('zeta', '')], 'GData': [('gam%d' % i, 'r') for i in range(4)]}


def gammas(g1, g2, g3, cj):
    return [g1 * g2 * g3, cj(g1) * g2 * g3, g1 * cj(g2) * g3, g1 * g2 * cj(g3)]


def three_point(ck):
    S = load_sources()
    R = 'triangle'
    ck.rule(R, 'one triangle of cells adds n1 n2 n3, w1 w2 w3, each mean separation and shape times w1 w2 w3, and the product '
               'of the weighted values (each projected; Gamma_i with the i-th value conjugated), each to its own array', 24)
    fs = [f for f in S.fns('finishProcess') if f.cls == 'Corr3' and f.body is not None]
    if len(fs) != 1 or len(fs[0].params) != 12:
        raise AnalysisBroken('Corr3::finishProcess not found')
    f = fs[0]
    names = ('d1', 'd2', 'd3', 'u', 'v', 'logd1', 'logd2', 'logd3')
    args = param('c1', 'c2', 'c3', *(names + ('index',)))
    for D in ('NData', 'KData', 'GData'):
        fl, _ = flow(f, {'D1': T('enum', D), 'D2': T('enum', D), 'D3': T('enum', D)}, stop=PROJ, args=args)
        for g in fl.seen:
            ck.saw(g.qual)
        ev = Eval(fl)
        got, und = ev.table(lambda nm: nm.startswith('_'))
        sh = Sheet(ck, R, D[0] * 3, ev)
        ww = sym('c1.getW') * sym('c2.getW') * sym('c3.getW')
        k = 'index'
        sh.add('_ntri', k, sym('c1.getN') * sym('c2.getN') * sym('c3.getN'))
        sh.add('_weight', k, ww)
        for n in names:
            sh.add('_mean' + n, k, ww * sym(n))
        if D == 'KData':
            sh.add('_zeta.zeta', k, sym('c1.getWK') * sym('c2.getWK') * sym('c3.getWK'))
        if D == 'GData':
            g = [ev.csym('proj(c1,c2,c3; %d; c%d.getWG)' % (i, i + 1)) for i in range(3)]
            for i, v in enumerate(gammas(g[0], g[1], g[2], ev.conj)):
                sh.add_c('_zeta.gam%dr' % i, '_zeta.gam%di' % i, k, v)
        sh.judge(got, und, fwhere(f))


def multipole_sums(ck):
    """CalculateGn / calculateGn: the sums over neighbours of one vertex"""
    S = load_sources()
    R = 'multipole neighbour sums'
    ck.rule(R, 'one neighbour of a vertex adds n, w, w r, w log r, w z^n (and the weighted value times z^n for every order '
               'the estimators need, z = e^{i phi}) to the sums of its radial bin, and the squares needed to remove '
               'degenerate triangles', 20)
    for ct, gs in direct('CalculateGn'):
        for ww in (True, False):
            for maxn in (1, 2):
                k = 1
                g = gs
                fl, _ = flow(g, stop=PROJ, args=param('c1', 'c2', 'rsq', 'r', 'k', 'maxn', 'w', 'mp'))
                for x in fl.seen:
                    ck.saw(x.qual)
                ev = Eval(fl, {'maxn': maxn, 'k': k}, {'field(mp, ww)': ww})
                got, und = ev.table(lambda nm: nm.startswith('mp.'))
                sh = Sheet(ck, R, '%s n<=%d%s' % (ct[0] * 3, maxn, ' with squares' if ww else ''), ev)
                z = ev.csym('ExpIPhi(c1, c2, r)')
                for n in range(maxn + 1):
                    sh.add('mp.Wn', k * (maxn + 1) + n, sym('w') * z ** n)
                if ct == 'KData':
                    for n in range(maxn + 1):
                        sh.add('mp.Gn', k * (maxn + 1) + n, sym('c2.getWK') * z ** n)
                    if ww:
                        sh.add('mp.sumwwkk', k, sym('c2.calculateSumWKSq'))
                if ct == 'GData':
                    g = ev.csym('proj(c1,c2; last; c2.getWG)')
                    for n in range(-maxn - 1, maxn + 2):
                        zn = z ** n if n >= 0 else ev.conj(z) ** (-n)
                        sh.add('mp.Gn', k * (2 * maxn + 3) + maxn + 1 + n, g * zn)
                    if ww:
                        sq = ev.csym('projsq(c1,c2; c2.calculateSumWGSq)')
                        sh.add('mp.sumwwgg0', k, sq * ev.conj(z) ** 2)
                        sh.add('mp.sumwwgg1', k, sq * z ** 2)
                        sh.add('mp.sumwwgg2', k, sym('c2.calculateSumAbsWGSq') * ev.conj(z) ** 2)
                sh.judge(got, und, fwhere(gs))
    fs = [f for f in S.fns('calculateGn') if f.cls == 'Corr3' and f.body is not None]
    if len(fs) != 1:
        raise AnalysisBroken('Corr3::calculateGn not found')
    f = fs[0]
    fl, _ = flow(f, stop=PROJ + ('CalculateGn',), args=param('c1', 'c2', 'rsq', 'r', 'logr', 'k', 'mp'))
    for x in fl.seen:
        ck.saw(x.qual)
    for ww in (True, False):
        ev = Eval(fl, {}, {'field(mp, ww)': ww})
        got, und = ev.table(lambda nm: nm.startswith('mp.'))
        sh = Sheet(ck, R, 'sums%s' % (' with squares' if ww else ''), ev)
        w, w2 = sym('c2.getW'), sym('c2.calculateSumWSq')
        sh.add('mp.npairs', 'k', sym('c2.getN'))
        for nm, v in (('', w),) + ((('w', w2),) if ww else ()):
            sh.add('mp.sumw' + nm, 'k', v)
            sh.add('mp.sumw' + nm + 'r', 'k', v * sym('r'))
            sh.add('mp.sumw' + nm + 'logr', 'k', v * sym('logr'))
        sh.judge(got, und, fwhere(f))


def direct(name, nparams=None):
    """the specialisations of a DirectHelper<D,D,D> function"""
    S = load_sources()
    out = []
    for f in S.fns(name):
        if f.cls == 'DirectHelper' and f.body is not None and f.ctargs and len(set(f.ctargs)) == 1 and len(f.ctargs) == 3:
            if nparams is None or len(f.params) == nparams:
                out.append((f.ctargs[0], f))
    if {d for d, f in out} != {'NData', 'KData', 'GData'} or len(out) != 3:
        raise AnalysisBroken('%s: specialisations %s' % (name, [d for d, f in out]))
    return out


class MP:
    """the neighbour sums of one vertex as symbols"""

    def __init__(self, ev, name, maxn, shear):
        self.ev, self.m, self.n, self.shear = ev, name, maxn, shear

    def W(self, k, n):
        v = self.ev.csym('%s.Wn[%d]' % (self.m, k * (self.n + 1) + abs(n)))
        return self.ev.conj(v) if n < 0 else v

    def G(self, k, n):
        if self.shear:
            return self.ev.csym('%s.Gn[%d]' % (self.m, k * (2 * self.n + 3) + self.n + 1 + n))
        v = self.ev.csym('%s.Gn[%d]' % (self.m, k * (self.n + 1) + abs(n)))
        return self.ev.conj(v) if n < 0 else v

    def s(self, nm, k):
        full = '%s.%s' % (self.m, nm)
        return (self.ev.csym if nm.startswith('sumwwgg') else sym)('%s[%d]' % (full, k))


def multipole_products(ck):
    R = 'multipole products'
    ck.rule(R, 'one vertex adds to the multipoles of every pair of radial bins the products of its neighbour sums given by the '
               'definition (Wn conj Wn, Gn products of the orders of each Gamma), without degenerate triangles on the '
               'diagonal, once for every ordered pair of bins that this call computes', 70)
    nb = 3
    for single in (True, False):
        for D, f in direct('CalculateZeta', 9 if single else 11):
            head = ['c1', 'mp'] if single else ['c1', 'ordered', 'mp2', 'mp3']
            args = param(*(head + ['kstart', 'mink_zeta', 'weight', 'weight_im', 'zeta', 'nbins', 'maxn']))
            fl, _ = flow(f, stop=PROJ, args=args)
            for x in fl.seen:
                ck.saw(x.qual)
            for maxn in (1, 2) if ck.tier == 'thorough' else (2,):
                for ks, mk in ((0, 3), (0, 1), (1, 2)):
                    for order in (1,) if single else (1, 3):
                        ps = {'maxn': maxn, 'nbins': nb, 'kstart': ks, 'mink_zeta': mk, 'ordered': order}
                        ev = Eval(fl, ps)
                        got, und = ev.table(lambda nm: nm.split('.')[0] in ('weight', 'weight_im', 'zeta'))
                        sh = Sheet(ck, R, '%s %s bins %d..%d' % (
                            D[0] * 3, 'one list' if single else 'two lists, order %d' % order, ks, mk), ev)
                        sp_products(sh, ev, D, single, order, nb, maxn, ks, mk)
                        sh.judge(got, und, fwhere(f))


def sp_products(sh, ev, D, single, order, nb, maxn, ks, mk):
    w1, wk1, wg1 = sym('c1.getW'), sym('c1.getWK'), ev.csym('c1.getWG')
    cj = ev.conj
    shear = D == 'GData'
    if single:
        pairs = [(MP(ev, 'mp', maxn, shear), MP(ev, 'mp', maxn, shear))]
    else:
        a, b = MP(ev, 'mp3', maxn, shear), MP(ev, 'mp2', maxn, shear)
        pairs = [(a, b)] + ([(b, a)] if order == 1 else [])
    for k2 in range(ks, nb):
        for k3 in range(ks, nb):
            if min(k2, k3) >= mk:
                continue
            for n in range(-maxn, maxn + 1):
                ix = (k2 * nb + k3) * (2 * maxn + 1) + maxn + n
                diag = single and k2 == k3
                for A, B in pairs:
                    sub = (lambda nm: A.s(nm, k2) if diag else lift(0))
                    v = w1 * (A.W(k2, n) * cj(B.W(k3, n)) - sub('sumww'))
                    sh.add_c('weight', 'weight_im', ix, v)
                    if D == 'KData':
                        v = wk1 * (A.G(k2, n) * cj(B.G(k3, n)) - sub('sumwwkk'))
                        sh.add_c('zeta.zeta', 'zeta.zeta_im', ix, v)
                    if D == 'GData':
                        g = [wg1 * (A.G(k2, n - 1) * B.G(k3, -n - 1) - sub('sumwwgg0')),
                             cj(wg1) * (A.G(k2, n + 1) * B.G(k3, -n + 1) - sub('sumwwgg1')),
                             wg1 * (A.G(k2, n - 1) * cj(B.G(k3, n + 1)) - sub('sumwwgg2')),
                             wg1 * (cj(A.G(k2, -n + 1)) * B.G(k3, -n - 1) - sub('sumwwgg2'))]
                        for i in range(4):
                            sh.add_c('zeta.gam%dr' % i, 'zeta.gam%di' % i, ix, g[i])


def multipole_means(ck):
    S = load_sources()
    R = 'multipole means'
    ck.rule(R, 'one vertex adds the number of triangles, and each mean separation weighted by the weights of the other two '
               'vertices, at the n=0 element of every ordered pair of radial bins that this call computes', 24)
    nb, maxn = 3, 2
    fs = [f for f in S.fns('calculateZeta') if f.cls == 'Corr3' and f.body is not None]
    if sorted(len(f.params) for f in fs) != [4, 6]:
        raise AnalysisBroken('Corr3::calculateZeta not found')
    for f in fs:
        single = len(f.params) == 4
        args = param(*(['c1', 'mp', 'kstart', 'mink_zeta'] if single else
                       ['c1', 'ordered', 'mp2', 'mp3', 'kstart', 'mink_zeta']))
        fl, _ = flow(f, stop=PROJ + ('CalculateZeta',), args=args)
        for x in fl.seen:
            ck.saw(x.qual)
        for ks, mk in ((0, 3), (0, 1), (1, 2)):
            for order in (1,) if single else (1, 3):
                ev = Eval(fl, {'_nubins': maxn, '_nbins': nb, 'kstart': ks, 'mink_zeta': mk, 'ordered': order})
                got, und = ev.table(lambda nm: nm.startswith('_'))
                sh = Sheet(ck, R, '%s bins %d..%d' % ('one list' if single else 'two lists, order %d' % order, ks, mk), ev)
                n1, w1 = sym('c1.getN'), sym('c1.getW')
                s = lambda m, nm, k: sym('%s.%s[%d]' % (m, nm, k))
                prs = [('mp', 'mp')] if single else [('mp3', 'mp2')] + ([('mp2', 'mp3')] if order == 1 else [])
                for k2 in range(ks, nb):
                    for k3 in range(ks, nb):
                        if min(k2, k3) >= mk:
                            continue
                        ix = (k2 * nb + k3) * (2 * maxn + 1) + maxn
                        diag = single and k2 == k3
                        for A, B in prs:
                            sh.add('_ntri', ix, n1 * s(A, 'npairs', k2) * (s(B, 'npairs', k3) - (1 if diag else 0)))
                            for q, t in (('_mean', 'r'), ('_meanlog', 'logr')):
                                sub = s(A, 'sumww' + t, k2) if diag else lift(0)
                                sh.add(q + 'd2', ix, w1 * (s(B, 'sumw', k3) * s(A, 'sumw' + t, k2) - sub))
                                sh.add(q + 'd3', ix, w1 * (s(A, 'sumw', k2) * s(B, 'sumw' + t, k3) - sub))
                sh.judge(got, und, fwhere(f))


# ---------------------------------------------------------------------------
# rotations

def rotations(ck):
    S = load_sources()
    R = 'rotation'
    ck.rule(R, 'the phase of a spin-s value for direction r is conj(r)^s / |r|^s, with s = 0,1,2,3,4 for Z,V,G,T,Q', 6)
    rho, e = sym('rho'), sym('e')
    for f in S.fns('calculate_expmsialpha'):
        if f.body is None or not f.targs:
            continue
        s = int(f.targs[0])
        fl, ret = flow(f, args=[T('param', 'r')])
        ck.saw(f.qual + '<%d>' % s)
        ev = PhaseEval(fl, {'r': rho * e})
        try:
            v = ev.num(ev.ev(ret, {}))
        except Undecided as x:
            continue
        want = poly.inv(e) ** s if s else lift(1)
        ck.ob(R, 'spin %d' % s, poly.equal(v, want), 'the phase is %s instead of conj(r)^%d/|r|^%d (r = rho e)' % (
            poly.text(v), s, s), fwhere(f))
    fs = [f for f in S.fns('_expmsialpha') if f.body is not None]
    for f in fs:
        for D, s in SPIN.items():
            fl, ret = flow(f, {'D': T('enum', D)}, args=[T('param', 'r')])
            ck.saw(f.qual)
            ev = Eval(fl)
            try:
                v = ev.ev(ret, {})
            except Undecided:
                continue
            ck.ob(R, 'spin of %s' % D, v == ev.rot(s, sym('r')), 'values of type %s rotate as %s instead of spin %d' % (
                D, poly.text(v), s), fwhere(f))


class PhaseEval(Eval):
    """r = rho e with rho > 0 and |e| = 1"""

    def conj(self, p):
        out = lift(0)
        for m, c in p.d.items():
            t = lift(c)
            for a, x in m:
                if a == ('sym', 'e'):
                    t = t * (poly.inv(sym('e')) ** x if x > 0 else sym('e') ** (-x))
                else:
                    t = t * (atom(a) ** x if x > 0 else poly.inv(atom(a)) ** (-x))
            out = out + t
        return out

    def _ev(self, t, env):
        if t.op == 'phi':
            x = self.ev(t.args[1], env)
            if self.guarded(t.args[0], x, self.ev(t.args[2], env), env):
                return x
        return super()._ev(t, env)


def direction(a, b):
    """direction of the great circle from b towards a, measured at b from east (b, a unit vectors)"""
    A, B = (Pos({a: 1}) if isinstance(a, str) else a), (Pos({b: 1}) if isinstance(b, str) else b)
    c = [{ax: comp(P, ax) for ax in AXES} for P in (A, B)]
    dot = sum((c[0][ax] * c[1][ax] for ax in AXES), lift(0))
    sinA = c[0]['y'] * c[1]['x'] - c[0]['x'] * c[1]['y']
    cosA = c[0]['z'] - c[1]['z'] * dot
    return sinA - I * cosA


def flatdir(frm, to):
    d = Pos({to: 1}).lin(frm if isinstance(frm, Pos) else Pos({frm: 1}), -1)
    return comp(d, 'x') + I * comp(d, 'y')


def projections(ck):
    S = load_sources()
    R = 'projection'
    ck.rule(R, 'each value of a pair or triangle is rotated to the direction of the line joining the cells (or joining it to the '
               'centroid) at its own position, in every geometry, with the opposite direction at the first cell', 60)
    for f in S.fns('Project') + S.fns('ProjectWithSq'):
        if f.cls != 'ProjectHelper' or f.body is None:
            continue
        C_ = f.ctargs[0] if f.ctargs else None
        if C_ not in GEOM:
            raise AnalysisBroken('ProjectHelper<%s>' % C_)
        ncell = sum('Cell' in p.type for p in f.params)
        nval = len(f.params) - ncell
        vals = ['z%d' % i for i in range(1, nval + 1)]
        args = param(*(['c%d' % i for i in range(1, ncell + 1)] + vals))
        for D, s in SPIN.items():
            fl, _ = flow(f, {'D': T('enum', D)}, args=args)
            for x in fl.seen:
                ck.saw(x.qual)
            ev = Eval(fl, {v: ev_c(v) for v in vals}, curved=GEOM[C_])
            ev.complex |= set(vals)
            cs = ['c%d' % i for i in range(1, ncell + 1)]

            def line(at, to):
                return flatdir(at, to) if C_ == 'Flat' else direction(to, at)
            want = []
            if ncell == 2 and (nval == 1 or f.name == 'ProjectWithSq'):
                # the second value, seen along the line from the first cell to the second
                d = line('c1', 'c2') if C_ == 'Flat' else direction('c1', 'c2')
                rs = [ev.rot(s, d)] + ([ev.rot(s, d) ** 2] if nval == 2 else [])
            elif ncell == 2:
                if C_ == 'Flat':
                    rs = [ev.rot(s, flatdir('c1', 'c2'))] * 2
                else:
                    rs = [ev.rot(s, direction('c2', 'c1')) * (-1) ** s, ev.rot(s, direction('c1', 'c2'))]
            elif ncell == 3:
                cen = Pos({c: Fraction(1) for c in cs})
                if C_ == 'Flat':
                    rs = [ev.rot(s, rawdir(c, cen.scale(Fraction(1, 3)))) for c in cs]
                else:
                    rs = [ev.rot(s, direction(unit(cen), c)) for c in cs]
            else:
                continue
            outs = final_values(fl, f, vals)
            for v, r in zip(vals, rs):
                t = outs.get(v)
                nm = '%s %d cells %s %s %s' % (C_, ncell, f.name if f.name != 'Project' else 'value', v, D[0])
                if t is None:
                    continue
                try:
                    got = ev.num(ev.ev(t, {}))
                except Undecided as x:
                    continue
                ck.ob(R, nm, poly.equal(got, ev_c(v) * r), 'becomes %s instead of %s' % (
                    poly.text(got)[:300], poly.text(ev_c(v) * r)[:300]), fwhere(f))
    R = 'azimuth'
    ck.rule(R, 'the azimuthal phase of a neighbour is the unit direction from the vertex to it, measured at the vertex', 2)
    for f in S.fns('ExpIPhi'):
        if f.cls != 'ProjectHelper' or f.body is None:
            continue
        C_ = f.ctargs[0]
        fl, ret = flow(f, args=param('p1', 'p2', 'r'))
        ck.saw(f.qual)
        pre = 'raw:' if GEOM[C_] == 3 else ''
        ev = Eval(fl, {'p1': Pos({pre + 'p1': 1}), 'p2': Pos({pre + 'p2': 1})}, curved=GEOM[C_])
        try:
            v = ev.num(ev.ev(ret, {}))
        except Undecided:
            continue
        d = flatdir('p1', 'p2') if C_ == 'Flat' else direction('p2', 'p1')
        if C_ == 'Flat':
            ok = poly.equal(v, d / sym('r')) or poly.equal(v, d / poly.sqrt(ev.norm(d)))
        else:
            ok = False
            d = reduce_unit(d)
            # x / sqrt(norm(x)) for x a positive multiple of d
            for c in (1, 2, Fraction(1, 2)):
                ok = ok or same_phase(v, d, ev)
        ck.ob(R, C_, ok, 'is %s instead of the unit vector along %s' % (poly.text(v)[:300], poly.text(d)[:200]), fwhere(f))


def same_phase(v, d, ev):
    """v = x / sqrt(norm(x)) with x = d on the unit sphere"""
    for a in v.atoms():
        if a[0] == 'sqrt':
            n = poly.from_key(a[1])
            x = reduce_unit(v * atom(a))
            n = reduce_unit(n)
            return reduce_unit(x - d).is_zero() and reduce_unit(n - ev.norm(d)).is_zero()
    return False


def ev_c(v):
    return sym(v)


def rawdir(c, cen):
    d = cen.lin(Pos({c: 1}), -1)
    return comp(d, 'x') + I * comp(d, 'y')


def final_values(fl, f, vals):
    """values of the reference parameters when the function returns"""
    fr = fl.final
    return {v: fr.get(p.name) for v, p in zip(vals, f.params[-len(vals):])} if fr else {}


# ---------------------------------------------------------------------------
# averages of tree cells

def averages(ck):
    S = load_sources()
    R = 'cell average'
    ck.rule(R, 'the value of a tree cell is the sum of the weighted values of its objects, parallel transported to its centre '
               'with the spin of its own type where the coordinates are curved, and stored in its own field', 10)
    for f in S.fns('finishAverages'):
        if f.body is None or f.cls != 'CellData':
            continue
        D = (f.ctargs or ['?'])[0]
        if D == 'NData':
            continue
        geoms = [f.ctargs[1]] if f.ctargs[1] in GEOM else sorted(GEOM)
        for C_ in geoms:
            tenv = {} if f.ctargs[1] in GEOM else {f.ctargs[1]: T('enum', C_)}
            fl, _ = flow(f, tenv, args=param('vdata', 'start', 'end'))
            for x in fl.seen:
                ck.saw(x.qual)
            field = '_wk' if D == 'KData' else '_wg'
            try:
                err = judge_sum(fl, field, D, GEOM[C_] if D != 'KData' else 0)
            except Undecided as x:
                continue
            ck.ob(R, '%s %s' % (D, C_), err is None, err or 'ok', fwhere(f))
    R = 'cell position'
    ck.rule(R, 'a tree cell has the total weight of its objects and sits at their position averaged with the position weights, '
               'brought back to the sphere', 1)
    for f in S.fns('BuildCellData'):
        if f.body is None or len(f.params) != 5:
            continue
        fl, _ = flow(f, args=param('vdata', 'start', 'end', 'pos', 'w'))
        ck.saw(f.qual)
        n = 3
        ev = SumEval(fl, {'start': 0, 'end': n}, curved=0)
        fl_tables(fl)
        pname, wname = f.params[3].name, f.params[4].name
        sw = sum((sym('p[%d].getW' % i) for i in range(n)), lift(0))
        wp = [sym('p[%d].wpos' % i) for i in range(n)]
        swp = sum(wp, lift(0))
        sp = sum((wp[i] * ev.num(Pos({'p[%d]' % i: 1})) for i in range(n)), lift(0))
        for nm, want in ((wname, sw), (pname, sp / swp)):
            try:
                got = ev.num(ev.ev(fl.final[nm], {}))
            except Undecided as x:
                continue
            ck.ob(R, 'weight' if nm == wname else 'mean position', poly.equal(got, want), 'is %s instead of %s' % (
                poly.text(got)[:250], poly.text(want)[:250]), fwhere(f))
        norm = [e for e in fl.events if e.kind == 'call' and e.name == 'normalize']
        ck.ob(R, 'normalised', bool(norm), 'the mean position is not brought back to the unit sphere', fwhere(f))
    recursions(ck)


def fl_tables(fl):
    """record the nesting of the loops"""
    for e in fl.events:
        ids = [L['id'] for L in e.loops]
        for i, L in enumerate(e.loops):
            L['outer'] = tuple(ids[:i])


def judge_sum(fl, field, D, curved):
    """the value of field when the function returns"""
    n = 2
    s = SPIN.get(D, 0)
    for near in ((True, False) if curved and s else (False,)):
        pre = 'raw:' if curved == 3 else ''
        ev = NearEval(fl, {'_pos': Pos({pre + 'cen': 1}), 'start': 0, 'end': n}, curved=curved)
        ev.near = near
        got, und = ev.table(lambda nm: nm.split('.')[-1] in ('_wk', '_wg'))
        if und:
            raise Undecided(und[0][2])
        names = {nm.split('.')[-1] for nm, i in got}
        if names != {field}:
            return 'sets %s' % sorted(names)
        v = sum(got.values(), lift(0))
        v = v - sym('overwritten')      # the field is assigned, not added to
        get = 'getWK' if D == 'KData' else 'getWG'
        want = lift(0)
        for i in range(n):
            nm = 'p[%d].%s' % (i, get)
            g = sym(nm) if D == 'KData' else ev.csym(nm)
            if near or not curved or not s:
                want = want + g
                continue
            a, b = Pos({'cen': 1}), Pos({'p[%d]' % i: 1})
            ca = {x: comp(a, x) for x in AXES}
            cb = {x: comp(b, x) for x in AXES}
            dot = sum((ca[x] * cb[x] for x in AXES), lift(0))
            # angles A at the point and B at the centre between north and the connecting great circle
            cosA, cosB = ca['z'] - cb['z'] * dot, cb['z'] - ca['z'] * dot
            sin = ca['y'] * cb['x'] - ca['x'] * cb['y']
            beta = -ev.conj((cosA + I * sin) * (cosB + I * sin))
            want = want + g * ev.rot(s, beta)
        if curved and not s and not poly.equal(v, want) and poly.equal(drop_rots(v), want):
            continue
        if not poly.equal(v, want):
            return 'for %s the sum is %s instead of %s' % ('points at the centre' if near else 'distant points',
                                                           poly.text(v)[:300], poly.text(want)[:300])
    return None


def drop_rots(p):
    mp = {a: lift(1) for a in p.atoms() if a[0] == 'fn' and a[1] == 'rot0'}
    return poly.subs(p, mp) if mp else p


class SumEval(Eval):
    """cells of a vector of data points are named by their index"""

    def cellname(self, t):
        t = self.strip(t)
        if t.op == 'field' and t.args[1] == 'first':
            return self.cellname(t.args[0])
        if t.op == 'idx' and t.args[0].op == 'param':
            return 'p[%s]' % poly.text(self.ev(t.args[1], self.envnow))
        return super().cellname(t)

    def fieldname(self, t):
        if t.op == 'field' and t.args[1] == 'wpos':
            b = t.args[0]
            while b.op == 'field':
                b = b.args[0]
            return self.cellname(b) + '.wpos'
        return super().fieldname(t)

    envnow = None

    def truth(self, t, env):
        x = super().truth(t, env)
        if x is None and t.op == '==':
            try:
                d = self.num(self.ev(t.args[0], env)) - self.num(self.ev(t.args[1], env))
            except Undecided:
                return None
            return False if not d.is_zero() else True       # generic values
        return x

    def ev(self, t, env):
        if t.op in ('ccall', 'field'):
            old, self.envnow = self.envnow, env
            try:
                return super().ev(t, env)
            finally:
                self.envnow = old
        return super().ev(t, env)


class NearEval(SumEval):
    """decides `distance < small` by the case"""
    near = False

    def truth(self, t, env):
        x = super().truth(t, env)
        if x is None and t.op == '<':
            try:
                a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
            except Undecided:
                return None
            if isinstance(b, poly.P) and b.const() is not None and 0 <= b.const() < Fraction(1, 1000):
                return self.near
        return x


def recursions(ck):
    S = load_sources()
    R = 'sum of squares'
    ck.rule(R, 'the sum of squared weighted values of a cell is the square at a leaf and the sum over both children otherwise', 6)
    spec = {'calculateSumWSq': ('getW', 'sq'), 'calculateSumWKSq': ('getWK', 'sq'), 'calculateSumWGSq': ('getWG', 'sq'),
            'calculateSumAbsWGSq': ('getWG', 'norm')}
    for nm, (get, kind) in spec.items():
        for f in S.fns(nm):
            if f.body is None:
                continue
            fl, ret = flow(f, {}, stop=(nm,))
            ck.saw(f.qual)
            for leaf in ('point', 'one object', 'node'):
                ev = LeafEval(fl)
                ev.case = leaf
                try:
                    v = ev.num(ev.ev(ret, {}))
                except Undecided:
                    continue
                x = ev.csym('.' + get) if get == 'getWG' else sym('.' + get)
                if leaf == 'node':
                    mk = ev.csym if nm == 'calculateSumWGSq' else sym
                    want = mk('left.' + nm) + mk('right.' + nm)
                else:
                    want = x * x if kind == 'sq' else ev.norm(x)
                ck.ob(R, '%s %s' % (nm, leaf), poly.equal(v, want), 'is %s instead of %s' % (
                    poly.text(v)[:200], poly.text(want)[:200]), fwhere(f))


class LeafEval(Eval):
    case = None

    def cellname(self, t):
        t = self.strip(t)
        if t.op == 'ccall' and t.args[0] in ('getLeft', 'getRight'):
            return t.args[0][3:].lower()
        if t.op == 'field' and t.args[1] in ('_left', '_right'):
            return t.args[1][1:]
        if t.op in ('this', 'none') or (t.op == 'field' and t.args[1] == '_data'):
            return ''
        return super().cellname(t)

    def _ev(self, t, env):
        if t.op == 'field' and t.args[1] == '_size' and t.args[0].op == 'this':
            return lift(0) if self.case == 'point' else lift(1)
        if t.op == 'field' and t.args[1] == '_n':
            return lift(1) if self.case == 'one object' else lift(5)
        return super()._ev(t, env)

    def ccall(self, t, env):
        nm, recv, args, targs = t.args
        if nm == 'getSize' and not args and self.cellname(recv) == '':
            return lift(0) if self.case == 'point' else lift(1)
        if nm == 'getN' and not args and self.cellname(recv) == '':
            return lift(1) if self.case == 'one object' else lift(5)
        return super().ccall(t, env)


def check(ck):
    ck.assumptions.append('Values, weights and positions of cells are read through their getters; sums and products are those of '
                  'exact arithmetic.')
    ck.assumptions.append('Code that is only compiled with -DDIRECT_MULTIPOLE (ProcessMultipole, ProjectX) is not part of the build.')
    two_point(ck)
    three_point(ck)
    multipole_sums(ck)
    multipole_products(ck)
    multipole_means(ck)
    rotations(ck)
    projections(ck)
    averages(ck)
