"""C17: accumulated sums are divided exactly once by the weight of the same bin; empty bins get nominal values.

The exit value of every accumulated array after finalize() (abstract interpretation of the resolved method of every
correlation class) is read for one element in every combination of bin type, coordinates, metric and sign of the
accumulated weight, and brought to an algebraic normal form, which is compared with the definition.  The composition
"per-patch result -> sum -> finalize" used for resampled covariances is judged the same way.
"""
from ..common import *
from ..pyrepo import AnalysisBroken
from ..elem import Elem, Undecided, fname
from .. import poly
from ..poly import sym, fn

PROP = 'C17'
BT2 = ('Log', 'Linear', 'TwoD')
BT3 = ('LogRUV', 'LogSAS', 'LogMultipole')
FRAMES = (('flat', 'Euclidean'), ('spherical', 'Euclidean'), ('spherical', 'Arc'), ('3d', 'Euclidean'),
          ('3d', 'Rlens'))
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
       'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b}
LOGU = fn('log', sym('_sep_units'))


def weight_attr(cls):
    return 'weightr' if cls.issub('Corr3') else 'weight'


class Case:
    """one element, one configuration: answers conditions and names inputs"""

    def __init__(self, cls, present, bt, coords, metric, sign, sign0=None, bases=(SELF,), names=None):
        self.cls, self.present = cls, present
        self.bt, self.coords, self.metric = bt, coords, metric
        self.sign = sign          # sign of the weight of the element: -1, 0, 1
        self.sign0 = sign if sign0 is None else sign0      # ... and at the special position [i,j,max_n]
        self.bases = bases
        self.names = names or {}
        self.w = weight_attr(cls)
        self.acc = set(a for a in accumulators(cls) if a)

    def text(self):
        s = {0: 'zero weight', 1: 'weight > 0', -1: 'weight < 0'}[self.sign]
        if self.bt == 'LogMultipole' and self.sign0 != self.sign:
            s += ' (total weight %s)' % {0: 'zero', 1: '> 0', -1: '< 0'}[self.sign0]
        return '%s %s/%s, %s' % (self.bt, self.coords, self.metric, s)

    def elem(self):
        return Elem(self.cond, self.name)

    def base(self, t):
        return t in self.bases or (t.op == 'attr' and t.args[1] == '_ro' and t.args[0] in self.bases)

    def number(self, t, e):
        """number of a term that has a known sign or value in this case"""
        if t.is_const and isinstance(t.value, (int, float)) and not isinstance(t.value, bool):
            return t.value
        x = t
        if x.op == 'call' and x.args[0].op == 'global' and str(x.args[0].args[0]).endswith('len') and x.args[1]:
            x = x.args[1][0]
            a = self.array(x)
            if a is not None:
                return 1000 if self.present(a, self.bt) else 0
        if x.op == 'attr' and x.args[1] == 'size':
            a = self.array(x.args[0])
            if a is not None:
                return 1000 if self.present(a, self.bt) else 0
        y = t
        at = e.at
        while y.op in ('idx', 'fill') or (y.op == 'call' and fname(y.args[0])[1] in ('ravel', 'abs', 'copy')):
            if y.op == 'idx' and e.index_at(y.args[1]) is not None:
                at = e.index_at(y.args[1])
                y = y.args[0]
            elif y.op == 'call':
                k, n, r = fname(y.args[0])
                y = r if k == 'meth' else y.args[1][0]
            else:
                y = y.args[0]
        if y.op == 'attr' and self.base(y.args[0]) and y.args[1] == self.w:
            s = self.sign if at is None else self.sign0
            return s
        return None

    def pos(self, at):
        return '@max' if at.endswith(('nubins', 'max_n')) else '@' + at

    def array(self, x):
        while x.op in ('upd',):
            x = x.args[0]
        if x.op == 'attr' and self.base(x.args[0]):
            return x.args[1]
        return None

    def cond(self, t, e):
        if t.op == 'attr' and t.args[1] == 'size':
            n = self.number(t, e)
            return None if n is None else bool(n)
        if t.op == 'cmp':
            op, a, b = t.args
            for x, y in ((a, b), (b, a)):
                if op in ('==', '!=', 'Eq', 'NotEq', 'is', 'Is'):
                    if x.is_const and isinstance(x.value, str) and y.op == 'attr':
                        v = {'bin_type': self.bt, 'coords': self.coords, 'metric': self.metric}.get(y.args[1])
                        if v is not None:
                            return (x.value == v) == (op not in ('!=', 'NotEq'))
                    if y.op == 'attr' and y.args[1] == '_bintype' and x.op == 'attr':
                        return (x.args[1] == self.bt) == (op not in ('!=', 'NotEq'))
            if op in CMP:
                x, y = self.number(a, e), self.number(b, e)
                if x is not None and y is not None:
                    return CMP[op](x, y)
                # limits of cosines: values are in range
                if op in ('<', '>', 'Lt', 'Gt', '<=', '>='):
                    for k, o in ((a, b), (b, a)):
                        if k.is_const and k.value in (1, -1):
                            return False
            if op in ('in', 'In') and b.op in ('tuple', 'list', 'set') and a.op == 'attr':
                v = {'bin_type': self.bt, 'coords': self.coords, 'metric': self.metric}.get(a.args[1])
                if v is not None and all(x.is_const for x in b.args[0]):
                    return v in [x.value for x in b.args[0]]
        if t.op == 'in' and t.args[1].op in ('tuple', 'list', 'set') and t.args[0].op == 'attr':
            v = {'bin_type': self.bt, 'coords': self.coords, 'metric': self.metric}.get(t.args[0].args[1])
            if v is not None and all(x.is_const for x in t.args[1].args[0]):
                return v in [x.value for x in t.args[1].args[0]]
        if t.op == 'loop':
            return True
        return None

    def name(self, t, e):
        if t in self.names:
            return self.names[t]
        if t.op == 'attr' and self.base(t.args[0]):
            a = t.args[1]
            if a == '_log_sep_units':
                return LOGU
            if a in self.acc:
                if a == self.w and (self.sign if e.at is None else self.sign0) == 0:
                    return poly.ZERO
                return a if e.at is None else a + self.pos(e.at)
            return a
        if t.op == 'attr' and t.args[1] == 'pi':
            return 'pi'
        return None


def presence(cls):
    """(attr, bin type) -> is the array allocated with elements"""
    fl = Flow(cls.repo, maxdepth=6)
    r = fl.run_method(cls, '__init__')
    if r is None:
        raise AnalysisBroken('__init__ of %s has no normal exit' % cls.name)
    heap = r[1].heap

    def present(a, bt):
        v = heap.get((SELF, a))
        if v is None:
            return True

        def walk(v):
            while v.op == 'phi':
                k = strcond(v.args[0], bt)
                if k is None:
                    return walk(v.args[1]) or walk(v.args[2])
                v = v.args[1] if k else v.args[2]
            return not (v.op == 'call' and v.args[1] and v.args[1][0].op == 'list' and not v.args[1][0].args[0])
        return walk(v)
    memo = {}
    return lambda a, bt: memo.setdefault((a, bt), present(a, bt))


def strcond(c, bt):
    if c.op == 'not':
        k = strcond(c.args[0], bt)
        return None if k is None else not k
    if c.op == 'cmp' and c.args[0] in ('==', '!='):
        a, b = c.args[1:]
        for x, y in ((a, b), (b, a)):
            if x.is_const and x.value in BT2 + BT3:
                return (x.value == bt) == (c.args[0] == '==')
    if c.op == 'in' and c.args[1].op in ('list', 'tuple', 'set'):
        vs = [x.value for x in c.args[1].args[0] if x.is_const]
        if any(v in BT2 + BT3 for v in vs):
            return bt in vs
    return None


def arc(x):
    return 2 * fn('arcsin', x / 2)


def units(case, x, log=False):
    """reported value of a mean chord length / log chord length"""
    if case.coords == 'spherical' and case.metric == 'Euclidean':
        x = fn('log', arc(fn('exp', x))) if log else arc(x)
    return x - LOGU if log else x / sym('_sep_units')


def expected(case, a):
    """normal form of attribute a after finalize(), or None if nothing is prescribed, or a tuple of accepted forms"""
    bt, cls = case.bt, case.cls
    w = sym(case.w)
    if bt in BT2:
        if a in ('weight', 'npairs'):
            return poly.ZERO if a == case.w and case.sign == 0 else sym(a)
        if case.sign == 0:
            return {'meanr': sym('rnom'), 'meanlogr': sym('logr')}.get(a, (sym(a), poly.ZERO))
        m = sym(a) / w
        return {'meanr': units(case, m), 'meanlogr': units(case, m, True)}.get(a, m)
    # three-point
    if a in ('weightr', 'weighti'):
        return poly.ZERO if a == case.w and case.sign == 0 else sym(a)
    mp = bt == 'LogMultipole'
    if a == 'ntri':
        return sym('ntri@max') if mp else sym('ntri')
    if a.startswith('_z'):
        if mp or case.sign == 0:
            return sym(a) if mp else (sym(a), poly.ZERO)
        return sym(a) / w
    log = a.startswith('meanlog')
    if mp:
        if a in ('meand1', 'meanlogd1', 'meanu', 'meanv'):
            return (sym(a), poly.ZERO)
        if case.sign0 == 0:
            return sym({'meand2': 'd2nom', 'meanlogd2': 'logd2', 'meand3': 'd3nom', 'meanlogd3': 'logd3'}[a])
        return units(case, sym(a + '@max') / sym(case.w + '@max'), log)
    if a == 'meanv' and bt != 'LogRUV':
        return None
    if case.sign == 0:
        if bt == 'LogRUV':
            d2, u, v = sym('rnom'), sym('u'), sym('v')
            d3 = u * d2
            d1 = fn('abs', v) * d3 + d2
            return {'meand1': d1, 'meanlogd1': fn('log', d1), 'meand2': d2, 'meanlogd2': (sym('logr'), fn('log', d2)),
                    'meand3': d3, 'meanlogd3': fn('log', d3), 'meanu': u, 'meanv': v}[a]
        d2, d3, phi = sym('d2nom'), sym('d3nom'), sym('phi')
        d1 = poly.sqrt(d2 ** 2 + d3 ** 2 - 2 * d2 * d3 * fn('cos', phi))
        return {'meand1': d1, 'meanlogd1': fn('log', d1), 'meand2': d2, 'meanlogd2': sym('logd2'),
                'meand3': d3, 'meanlogd3': sym('logd3'), 'meanu': phi / sym('_phi_units')}[a]
    m = sym(a) / w
    if a in ('meanu', 'meanv'):
        if bt == 'LogSAS':
            if case.coords == 'spherical' and case.metric == 'Euclidean':
                d2, d3 = sym('meand2') / w, sym('meand3') / w
                c = (fn('cos', m) - d2 * d3 / 4) / poly.sqrt((1 - d2 ** 2 / 4) * (1 - d3 ** 2 / 4))
                m = fn('arccos', c)
            m = m / sym('_phi_units')
        return m
    return units(case, m, log)


class Final:
    """exit values of finalize() of one class"""

    def __init__(self, cls):
        self.cls = cls
        self.fl = Flow(cls.repo, maxdepth=8)
        r = self.fl.run_method(cls, 'finalize')
        if r is None:
            raise AnalysisBroken('finalize of %s has no normal exit' % cls.name)
        self.heap = r[1].heap
        self.present = presence(cls)
        self.acc = [a for a in accumulators(cls) if a]

    def value(self, case, a):
        """(normal form, problem)"""
        t = self.heap.get((SELF, a), T('attr', SELF, a))
        e = case.elem()
        try:
            return e.ev(t), None
        except Undecided as x:
            if e.div0:
                return None, 'is divided by a weight that is zero'
            return None, 'is not a function of the accumulated sums of the same bin: %s' % x

    def cases(self):
        three = self.cls.issub('Corr3')
        for bt in (BT3 if three else BT2):
            for co, me in FRAMES:
                signs = [(1, 1), (-1, -1), (0, 0)]
                if bt == 'LogMultipole':
                    signs += [(0, 1), (1, 0)]
                for s, s0 in signs:
                    yield Case(self.cls, self.present, bt, co, me, s, s0)


def where(cls, name):
    dc, f = cls.find(name, 'methods')
    return '%s:%d (%s.%s)' % (dc.mod.path, f.lineno, dc.name, name) if f is not None else cls.name


def accept(got, want):
    ws = want if isinstance(want, tuple) else (want,)
    return any(poly.equal(got, w) for w in ws)


def wtext(want):
    return ' or '.join(poly.text(w) for w in (want if isinstance(want, tuple) else (want,)))


def is_unit_attr(case, a):
    return a.startswith('mean')


_finals = {}


def finals(rep):
    if id(rep) not in _finals:
        _finals[id(rep)] = [Final(c) for c in corr_leaves(rep)]
    return _finals[id(rep)]


def check(ck):
    rep = repo()
    ck.rule('normalise', 'after finalize() every accumulated mean is the sum divided once by the accumulated weight of the same '
            'bin (converted to user units), weights and counts are unchanged, and empty bins have the nominal values', 440)
    ck.rule('resample', 'recomputing from selected patches is one sum over the selected per-patch results followed by '
            'one normalisation, on every object that is summed and whose means are used', 21)
    ck.rule('unnormalise', 'per-patch results that are rebuilt from normalised values become the values reported for '
            'the whole when they are summed and finalised', 20)
    for f in finals(rep):
        ck.saw_flow(f.fl)
        judge_final(ck, f)
    judge_resample(ck, rep)
    judge_tosas(ck, rep)


def judge_final(ck, f):
    cls = f.cls
    w = where(cls, '_finalize')
    for a in f.acc:
        bad = {}
        n = 0
        bts = set()
        for case in f.cases():
            if not f.present(a, case.bt):
                continue
            want = expected(case, a)
            if want is None:
                continue
            n += 1
            got, prob = f.value(case, a)
            if prob is None and not accept(got, want):
                prob = 'is %s instead of %s' % (poly.text(got)[:200], wtext(want)[:200])
            bts.add(case.bt)
            if prob is not None:
                bad.setdefault(case.bt, (case.text(), prob))
        for bt in sorted(bts):
            p = bad.get(bt)
            ck.ob('normalise', '%s %s %s' % (cls.name, a, bt), p is None,
                  '' if p is None else '%s: after finalize() %s %s' % (p[0], a, p[1]), w)


# ---------------------------------------------------------------------------------------------- resampling
def judge_resample(ck, rep):
    for cls in corr_leaves(rep):
        fl = Flow(rep, maxdepth=4, opaque=('_sum', '_finalize', '_calculate_xi_from_pairs'))
        # the entry point itself must be inlined
        fl.opaque.discard('_calculate_xi_from_pairs')
        dc, fnn = cls.find('_calculate_xi_from_pairs', 'methods')
        if fnn is None:
            raise AnalysisBroken('%s has no _calculate_xi_from_pairs' % cls.name)
        r = fl.run_fn(dc.mod, fnn, {}, cls, dc, SELF, _state(fl, cls))
        ck.saw_flow(fl)
        sums, fins, order = {}, {}, []
        for e in fl.events:
            if e.kind != 'call' or e.data['fn'].op != 'attr':
                continue
            nm, o = e.data['fn'].args[1], e.data['fn'].args[0]
            if nm in ('_sum', '_finalize'):
                order.append((nm, o, e))
                (sums if nm == '_sum' else fins).setdefault(o, []).append(e)
        w = where(cls, '_calculate_xi_from_pairs')
        p = None
        s, f = sums.get(SELF, []), fins.get(SELF, [])
        if len(s) != 1 or s[0].guards or s[0].loops:
            p = 'the selected results are summed %d times%s' % (len(s), ' conditionally' if s and s[0].guards else '')
        elif len(f) != 1 or f[0].guards or f[0].loops:
            p = 'the sum is normalised %d times%s' % (len(f), ' conditionally' if f and f[0].guards else '')
        elif [n for n, o, e in order if o is SELF] != ['_sum', '_finalize']:
            p = 'normalisation comes before the sum'
        ck.ob('resample', cls.name, p is None, p or '', w)
        for o, l in fins.items():
            if o is not SELF:
                ok = len(l) <= 1 and len(sums.get(o, [])) == 1
                ck.ob('resample', '%s %s' % (cls.name, show(o)), ok, '%s is normalised %d times after %d sums' % (
                    show(o), len(l), len(sums.get(o, []))), w)


def _state(fl, cls):
    from ..pyflow import State
    fl.types[SELF] = cls
    return State()


# ---------------------------------------------------------------------------------------------- toSAS
def judge_tosas(ck, rep):
    for cls in corr_leaves(rep, 'Corr3'):
        dc, fnn = cls.find('toSAS', 'methods')
        if fnn is None:
            continue
        sas = T('obj', 'sas')
        fl = Flow(rep, maxdepth=6, opaque=('clear', 'copy', '__init__'), types={SELF: cls, sas: cls})
        r = fl.run_method(cls, 'toSAS', args={'target': sas})
        if r is None:
            raise AnalysisBroken('toSAS of %s has no normal exit' % cls.name)
        ck.saw_flow(fl)
        heap = r[1].heap
        copies = sorted({o for (o, a) in heap if o is not sas and o is not SELF and
                         (o.op == 'copyof' or (o.op == 'call' and show(o).endswith('.copy()'))) and o.args[0] in (sas,)},
                        key=show)
        w = where(cls, 'toSAS')
        if not copies:
            ck.ob('unnormalise', cls.name, False, 'no per-patch results are made from the converted result', w)
            continue
        fin = [f for f in finals(rep) if f.cls is cls][0]
        for o in copies:
            wt = heap.get((o, 'weightr'))
            for a in ('meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu'):
                p = None
                for co, me in FRAMES:
                    names = {}
                    if wt is not None:
                        for x in body(wt):
                            names[x] = 'weightr'
                    case = Case(cls, fin.present, 'LogSAS', co, me, 1, bases=(o,), names=names)
                    vals = {}
                    try:
                        for b in ('meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu'):
                            t = heap.get((o, b), T('attr', o, b))
                            vals[('sym', b)] = case.elem().ev(t)
                    except Undecided as x:
                        p = '%s/%s: %s' % (co, me, x)
                        break
                    got, prob = fin.value(Case(cls, fin.present, 'LogSAS', co, me, 1), a)
                    if prob:
                        p = prob
                        break
                    got = poly.subs(got, vals)
                    if not poly.equal(got, sym(a)):
                        p = 'for %s coordinates (%s metric) a resampled %s becomes %s' % (
                            co, me, a, poly.text(got)[:200])
                        break
                ck.ob('unnormalise', '%s %s' % (cls.name, a), p is None, p or '', w)


def body(t):
    """the value itself and what it holds inside loops and full assignments"""
    out = {t}
    while True:
        if t.op == 'phi' and t.args[0].op == 'loop':
            t = t.args[1]
        elif t.op == 'fill':
            t = t.args[0]
        else:
            return out
        out.add(t)
