"""C18: random-subtracted estimators follow their documented formulas everywhere."""
from ..common import *
from ..pyflow import State
from ..pyrepo import AnalysisBroken
from .. import poly
from ..poly import sym
from ..elem import Elem, Undecided, fname
from ..coll import Small, Res, Open

PROP = 'C18'

ARRAYS = ('weight', 'tot', 'npairs', 'ntri', 'xi', 'zeta', 'xi_im', 'raw_xi', 'raw_xi_im', '_xi1', '_xi2', 'varxi',
          'raw_varxi', 'weightr', 'weighti')


def estimators(rep):
    """[(class, method, result attributes, random parameters)] of the classes with a random-subtracted estimate"""
    out = []
    for cls in corr_leaves(rep):
        for m in ('calculateXi', 'calculateZeta'):
            dc, fn = cls.find(m, 'methods')
            if fn is None:
                continue
            params = [a.arg for a in fn.args.args[1:] + fn.args.kwonlyargs]
            out.append((cls, m, params))
    return out


class Case:
    """which randoms are given, whether the bin is empty, and how the results are patched"""

    def __init__(self, given, empty=False, small=None, attrs=None, either=None, roles=None, raw=None, fresh=True):
        self.given = given              # {role: bool}
        self.empty = empty
        self.small = small
        self.roles = roles              # term -> role
        self.raw = raw or {}            # attribute -> canonical name
        self.either = either
        self.fresh = fresh

    def role(self, t):
        if t.op == 'resum':
            return self.role(t.args[0])
        return self.roles.get(t)

    def main(self):
        return self.roles[SELF]

    # ---- conditions
    def cond(self, t, el):
        if t.op == 'cmp' and t.args[0] in ('is', 'is not', '==', '!=') and t.args[2] is NONE:
            r = self.role(t.args[1])
            if r is not None:
                return self.given[r] == (t.args[0] in ('is not', '!='))
        r = self.role(t)
        if r is not None and t is not SELF:
            return self.given[r]
        if t.op == 'attr' and t.args[1] == 'size':
            return False                # the real part only: no multipole results here
        if t.op == 'call':
            k, n, r = fname(t.args[0])
            if n in ('any', 'all') and len(t.args[1]) <= 1 and k in ('np', 'meth'):
                x = t.args[1][0] if t.args[1] else r
                try:
                    v = el.truth(x)
                except Undecided:
                    v = None
                if v is True and n == 'any':
                    return True
                if v is False and n == 'all':
                    return False
                if v is not None and self.either is not None:
                    return self.either
        if t.op == 'cmp' and t.args[0] in ('==', '!='):
            try:
                a, b = el.ev(t.args[1]), el.ev(t.args[2])
            except (Undecided, TypeError):
                a = b = None
            if a is not None:
                d = (a - b).const()
                return ((d == 0) if d is not None else False) == (t.args[0] == '==')
        if t.op == 'cmp' and t.args[0] in ('>', '<') :
            # weights compared with zero
            a, b = t.args[1:] if t.args[0] == '>' else (t.args[2], t.args[1])
            if b.is_const and b.value == 0:
                try:
                    v = el.ev(a)
                except Undecided:
                    v = None
                if v is not None:
                    return not v.is_zero()
        if self.small is not None:
            try:
                return self.small.truth(t, el.env if hasattr(el, 'env') else {})
            except (Open, KeyError, TypeError, IndexError):
                return None
        return None

    # ---- values
    def name(self, t, el):
        env = getattr(el, 'env', {})
        if t.op == 'attr' and isinstance(t.args[0], T):
            o, a = t.args
            r = self.role(o)
            if r is not None:
                a = self.raw.get(a, a)
                if a == 'weightr':
                    a = 'weight'
                if a == 'weight' and self.empty and r == self.rrole:
                    return poly.ZERO
                if a in ARRAYS or a in self.raw.values():
                    stale = self.fresh and self.small is not None and o.op != 'resum' and a != 'results'
                    return '%s_%s%s' % (a, r, '(before the selection)' if stale else '')
            if self.small is not None:
                v = self.try_small(o, env)
                if isinstance(v, Res):
                    return '%s_%s_%s' % (a, v.owner, '_'.join(map(str, v.key)))
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == '_mean_weight':
            r = self.role(t.args[0].args[0])
            if r is not None:
                return 'meanw_' + r
        if t.op == 'loopv' and t in env:
            return env[t]
        if t.op == 'call':
            # a number made of a whole array is a quantity of its own
            k, n, r = fname(t.args[0])
            x = t.args[1][0] if t.args[1] else r
            if n in ('sum', 'mean', 'max', 'min', 'median') and isinstance(x, T) and x.op == 'attr' and \
                    self.role(x.args[0]) is not None and x.args[1] in ARRAYS:
                return '%s(%s_%s)' % (n, x.args[1], self.role(x.args[0]))
        if t.op == 'call' and self.small is not None:
            k, n, r = fname(t.args[0])
            if n == 'sum' and k in ('np', 'fn') and len(t.args[1]) >= 1:
                return self.total(t.args[1][0], env, el)
            if n == 'len':
                try:
                    return poly.lift(self.small.count_all(t.args[1][0], env))
                except (Open, KeyError):
                    return None
        if t.op == 'phi' and t.args[0].op == 'loop' and self.small is not None:
            lid, it = t.args[0].args
            cur = el.ev(t.args[2])
            lv = [x for x in subterms(t.args[1]) if x.op == 'loopv' and x.args[0] == lid]
            if len(set(lv)) == 1:
                L = sym('loop%s' % lid)
                tot = cur
                for v, c in self.small.enum(it, env):
                    e2 = dict(env)
                    e2[T('elem', lid, it)] = v
                    e2[lv[0]] = L
                    d = self.elem(e2).ev(t.args[1]) - L
                    tot = tot + d * c
                return tot
        return None

    def try_small(self, t, env):
        try:
            return self.small.val(t, env)
        except (Open, KeyError, TypeError, IndexError):
            return None

    def total(self, c, env, el):
        if c.op in ('list', 'tuple'):
            tot = poly.ZERO
            for x in c.args[0]:
                tot = tot + el.ev(x)
            return tot
        if c.op != 'comp' or c.args[0] not in ('list', 'gen'):
            return None
        tot = poly.ZERO
        try:
            for e2, n in self.small.gens(c.args[2], 0, dict(env)):
                tot = tot + self.elem(e2).ev(c.args[1][0]) * n
        except (Open, KeyError, TypeError) as e:
            raise Undecided(str(e))
        return tot

    def elem(self, env=None):
        e = Elem(self.cond, self.name)
        e.env = env or {}
        return e


def formula(cls, case, given, rr, main, rands, tot=None):
    """documented estimate, from the symbols of the case"""
    w = lambda r: poly.ZERO if (case.empty and r == case.rrole) else sym('weight_' + r)
    f = lambda r: (sym('tot_' + main) if tot is None else tot) / sym('tot_' + r)
    RR = w(rr) * f(rr)
    if len(main) == 2:
        dr, rd = [r for r in rands if r != rr]
        a, b = given[dr], given[rd]
        if a and b:
            num = w(main) - w(dr) * f(dr) - w(rd) * f(rd) + RR
        elif a or b:
            x = dr if a else rd
            num = w(main) - 2 * w(x) * f(x) + RR
        else:
            num = w(main) - RR
    else:
        drr, rdd = [r for r in rands if r != rr]
        if given[drr]:
            num = w(main) - w(rdd) * f(rdd) + w(drr) * f(drr) - RR
        else:
            num = w(main) - RR
    return num, RR


def same(a, b):
    return (a - b).is_zero() or poly.equal(a, b)


def dbg(*a):
    import os
    if os.environ.get('TC_DEBUG'):
        print('  undecided', *[str(x)[:300] for x in a])


def check(ck):
    rep = repo()
    ck.rule('estimate', 'calculateXi/calculateZeta, read element-wise from the value left in the result attribute, equal '
            'the documented combination of data and random weights (or mean field), with every random weight rescaled '
            'by the ratio of totals, for every choice of randoms; empty random bins are not divided by zero', 20)
    ck.rule('shot', 'the shot-noise variance of a random-subtracted estimate has the documented factor for the randoms '
            'given (counts), or is the sum of the raw variances (fields)', 12)
    ck.rule('resampled', '_calculate_xi_from_pairs computes the same combination from the sums over the selected patches '
            'after they were summed; without patches in RR the total is scaled by the area fraction', 16)
    ck.rule('selection', 'each result is summed over exactly the selected patch combinations (over the ones that exist, '
            'mapped to the diagonal when a random catalog has no patches)', 16)
    for cls, m, params in estimators(rep):
        if len(params) == 1:
            field(ck, rep, cls, m, params)
        else:
            counts(ck, rep, cls, m, params)


def order_roles(params):
    """(rr, others in the order dr, rd)"""
    rr = [p for p in params if set(p) == {'r'}]
    if len(rr) != 1:
        raise AnalysisBroken('no random-random parameter among %s' % params)
    return rr[0], sorted([p for p in params if p != rr[0]])


def attr_of_param(heap, params):
    """{parameter: attribute of self it is kept in}"""
    out = {}
    for (o, a), v in heap.items():
        if o is not SELF:
            continue
        for p in params:
            if T('param', p) in phi_leaves(v) and a not in ('xi', 'zeta'):
                out.setdefault(p, a)
    return out


def hook(flow, recv, name, args, kw, st, node):
    """summing a selection replaces what the object holds"""
    if recv is None or name not in ('_sum', '_calculate_xi_from_pairs', '_finalize'):
        return None
    flow.ev('call', st, node, fn=T('attr', recv, name), name=name, recv=recv, args=args, kw=kw)
    if name != '_finalize':
        fresh = T('resum', recv)
        for a in ARRAYS:
            st.heap[(recv, a)] = T('attr', fresh, a)
    return NONE


def run(rep, cls, m, resampled=False, args=None):
    fl = Flow(rep, maxdepth=5, opaque=('estimate_cov', '_mean_weight', '_calculate_xi_from_pairs', 'copy', '_clear',
                                       '_finalize', '_sum'), call_hook=hook if resampled else None,
              prop_opaque=('varxi', 'raw_varxi', 'varzeta', 'cov_diag', 'cov'), loop_paths=resampled)
    dc, fn = cls.find(m, 'methods')
    fl.types[SELF] = cls
    st = State()
    r = fl.run_fn(dc.mod, fn, {}, cls, dc, SELF, st)
    return fl, r, '%s.py:%d' % (dc.mod.name, fn.lineno)


def get(r, a):
    return r[1].heap.get((SELF, a), T('attr', SELF, a))


def counts(ck, rep, cls, m, params):
    attr = 'xi' if m == 'calculateXi' else 'zeta'
    rr, others = order_roles(params)
    main = 'd' * len(rr)
    fl, r, where = run(rep, cls, m, args=params)
    ck.saw_flow(fl)
    if r is None:
        raise AnalysisBroken('%s.%s has no normal exit' % (cls.name, m))
    kept = attr_of_param(r[1].heap, params)
    if len(rr) == 2:
        combos = [(False, False), (True, False), (False, True), (True, True)]
    else:
        combos = [(False, False), (True, True)]
    for a, b in combos:
        given = {rr: True, others[0]: a, others[1]: b, main: True}
        roles = {SELF: main}
        roles.update({T('param', p): p for p in params})
        txt = '+'.join([rr] + [o for o, g in zip(others, (a, b)) if g])
        for empty in (False, True):
            for either in (False, True):
                case = Case(given, empty=empty, roles=roles, either=either, fresh=False)
                case.rrole = rr
                el = case.elem()
                num, RR = formula(cls, case, given, rr, main, [rr] + others)
                name = '%s.%s %s%s' % (cls.name, m, txt, ' empty bin' if empty else '')
                try:
                    got = el.ev(get(r, attr))
                except Undecided as e:
                    if el.div0:
                        ck.ob('estimate', name, False, 'divides by zero where the randoms have no pairs', where)
                    continue
                if empty:
                    ck.ob('estimate', name, True, '', where)
                    continue
                ck.ob('estimate', name, same(got, num / RR),
                      'is %s, documented is %s' % (poly.text(got), poly.text(num / RR)), where)
        # shot noise
        case = Case(given, roles=roles, either=False, fresh=False)
        case.rrole = rr
        el = case.elem()
        mw = lambda x: sym('meanw_' + x)
        f = lambda x: sym('tot_' + main) / sym('tot_' + x)
        fac = 1 + f(rr) * mw(rr) / mw(main)
        two = 2 if len(rr) == 2 and a != b else 1
        for o, g in zip(others, (a, b)):
            if g:
                fac = fac + two * f(o) * mw(o) / mw(main)
        try:
            got = el.ev(get(r, '_var_num'))
            want = mw(main) * fac * fac
            ck.ob('shot', '%s.%s %s numerator' % (cls.name, m, txt), same(got, want),
                  'is %s, documented is %s' % (poly.text(got)[:300], poly.text(want)[:300]), where)
        except Undecided:
            pass
        # the weight the shot noise is divided by: what getWeight returns after the estimate
        wname = [k for k in ('_rr_weight', '_rrr_weight') if (SELF, k) in r[1].heap]
        for k in wname:
            try:
                got = strip_abs(case.elem().ev(get(r, k)))
            except Undecided:
                continue
            ck.ob('shot', '%s.%s %s denominator' % (cls.name, m, txt), same(got, sym('weight_' + rr) * f(rr)),
                  'is %s' % poly.text(got)[:300], where)
    resampled(ck, rep, cls, params, kept, attr, rr, others, main, combos)


def strip_abs(p):
    mp = {}
    for a in p.atoms():
        if a[0] == 'fn' and a[1] == 'abs' and len(a) == 3:
            mp[a] = poly.from_key(a[2])
    return poly.subs(p, mp) if mp else p


def universe(n, k, hole=None, auto=False):
    import itertools
    out = set()
    for t in itertools.product(range(n), repeat=k):
        if auto and tuple(sorted(t)) != t:
            continue
        out.add(t)
    if hole:
        out -= set(hole)
    return out


def setup(cls, kept, roles_extra, k, conf, main, auto=False, n=3):
    """Small model for a patch configuration: conf = {role: (npatch per field, holes) or None (no patches)}"""
    owners = {SELF: main, T('resum', SELF): main}
    keys, values = {}, {}
    for term, role in roles_extra.items():
        owners[term] = role
        owners[T('resum', term)] = role
    for role, (np_, holes) in conf.items():
        if np_ is None:
            keys[role] = set()
            np_ = (1,) * k
        else:
            import itertools
            keys[role] = set(itertools.product(*[range(x) for x in np_])) - set(holes)
            if auto and len(set(np_)) == 1:
                keys[role] = {t for t in keys[role] if tuple(sorted(t)) == t}
        for t, r in owners.items():
            if r == role:
                for i, x in enumerate(np_):
                    values[T('attr', t, 'npatch%d' % (i + 1))] = x
    multis = {T('param', 'pairs'): [(t, sym('n_' + '_'.join(map(str, t)))) for t in sorted(keys[main])]}
    return owners, keys, values, multis


def resampled(ck, rep, cls, params, kept, attr, rr, others, main, combos):
    dc, fn = cls.find('_calculate_xi_from_pairs', 'methods')
    if fn is None or len(kept) != len(params):
        return
    pname = fn.args.args[1].arg
    terms = {p: T('attr', SELF, kept[p]) for p in params}
    fl, r, where = run(rep, cls, '_calculate_xi_from_pairs', resampled=True, args=params)
    ck.saw_flow(fl)
    if r is None:
        return
    k = len(rr)
    for a, b in combos:
        given = {rr: True, others[0]: a, others[1]: b, main: True}
        roles = {SELF: main}
        roles.update({terms[p]: p for p in params})
        txt = '+'.join([rr] + [o for o, g in zip(others, (a, b)) if g])
        for patched in (True, False):
            full = (3,) * k
            conf = {main: (full, ()), rr: ((full, ()) if patched else (None, ()))}
            for o in others:
                conf[o] = (full, ())
            owners, keys, values, multis = setup(cls, kept, {terms[p]: p for p in params}, k, conf, main,
                                                 auto=not patched)
            multis = {T('param', pname): multis[T('param', 'pairs')]}
            case = Case(given, roles=roles, either=False)
            case.rrole = rr
            case.small = Small(owners, keys, values, multis, decide=lambda t, s, env: none_cond(t, roles, given))
            # the total the randoms are scaled to
            if patched:
                tot = sym('tot_' + main)
            else:
                case.fresh = True
                diag = [t for t in sorted(keys[main]) if len(set(t)) == 1]
                ts = lambda t: sym('tot_%s_%s' % (main, '_'.join(map(str, t))))
                root = (lambda x: poly.sqrt(x)) if k == 2 else (lambda x: poly.exp(poly.lift(1. / 3) * poly.fn('log', x)))
                num = poly.ZERO
                den = poly.ZERO
                al = poly.ZERO
                for t in diag:
                    num = num + root(ts(t)) * sym('n_' + '_'.join(map(str, t)))
                    den = den + root(ts(t))
                for t in sorted(keys[main]):
                    al = al + ts(t)
                tot = al * num / den
            rrs = {}
            if not patched:
                # RR is not summed again: it keeps what it has
                rrs = {rr: True}
            num, RR = formula(cls, case, given, rr, main, [rr] + others, tot)
            name = '%s._calculate_xi_from_pairs %s%s' % (cls.name, txt, '' if patched else ' (%s without patches)' % rr)
            el = Resampled(case, rrs).elem()
            try:
                got = el.ev(get(r, attr))
            except (Undecided, Open, KeyError, TypeError, IndexError) as e:
                dbg(name, e)
                continue
            want = num / RR
            ck.ob('resampled', name, same(got, want), 'is %s, documented is %s' % (
                poly.text(got)[:400], poly.text(want)[:400]), where)
        # empty bins of the randoms
        for role in [main, rr] + [o for o, g in zip(others, (a, b)) if g]:
            selection(ck, cls, fl, role, given, roles, {terms[p]: p for p in params}, k, main, rr, others, pname, txt,
                      where)
    # an empty bin in the selected randoms must not be divided by
    given = {rr: True, others[0]: False, others[1]: False, main: True}
    roles = {SELF: main}
    roles.update({terms[p]: p for p in params})
    full = (3,) * k
    conf = {x: (full, ()) for x in [main, rr] + others}
    owners, keys, values, multis = setup(cls, kept, {terms[p]: p for p in params}, k, conf, main)
    case = Case(given, roles=roles, either=True, empty=True)
    case.rrole = rr
    case.small = Small(owners, keys, values, {T('param', pname): multis[T('param', 'pairs')]},
                       decide=lambda t, s, env: none_cond(t, roles, given))
    el = case.elem()
    try:
        el.ev(get(r, attr))
        ck.ob('resampled', '%s._calculate_xi_from_pairs empty bin' % cls.name, True, '', where)
    except Undecided:
        if el.div0:
            ck.ob('resampled', '%s._calculate_xi_from_pairs empty bin' % cls.name, False,
                  'divides by zero where the selected randoms have no pairs', where)


class Resampled(Case):
    """the case, with some results read as they are (not summed over a selection)"""

    def __init__(self, case, keep):
        self.__dict__.update(case.__dict__)
        self.keep = keep

    def name(self, t, el):
        if t.op == 'attr' and isinstance(t.args[0], T) and self.role(t.args[0]) in self.keep and \
                self.raw.get(t.args[1], t.args[1]) in ARRAYS:
            stale = t.args[0].op == 'resum'
            return '%s_%s%s' % (t.args[1] if t.args[1] != 'weightr' else 'weight', self.role(t.args[0]), '')
        return Case.name(self, t, el)


def none_cond(t, roles, given):
    if t.op == 'cmp' and t.args[0] in ('is', 'is not', '==', '!=') and t.args[2] is NONE:
        r = roles.get(t.args[1])
        if r is not None:
            return given[r] == (t.args[0] in ('is not', '!='))
    r = roles.get(t)
    if r is not None and t is not SELF:
        return given[r]
    return None


def selection(ck, cls, fl, role, given, roles, terms, k, main, rr, others, pname, txt, where,
              fname_=('_sum',)):
    full = (3,) * k
    confs = []
    hole = [(0, 1, 2)[:k], (2,) * k, (1, 0, 0)[:k]]
    if role == main:
        confs = [('', full, full, ())]
    elif role == rr:
        confs = [('', full, full, hole)]
    else:
        # where the random field stands
        slot = [i for i, c in enumerate(role) if c == 'r']
        single = slot[0] if k == 2 else (1 if role == 'drr' else 0)
        nop = tuple(1 if (role[i] == 'r') else 3 for i in range(k))
        mainp = tuple(1 if (role[i] == 'r') else 3 for i in range(k))
        confs = [('', full, full, hole), ('without random patches', nop, full, ()),
                 ('of data with the same single patch', nop, nop, hole_in(hole, nop))]
    for text, np_, mp, holes in confs:
        conf = {x: (mp, ()) for x in [main, rr] + list(others)}
        conf[role] = (np_, holes)
        owners, keys, values, multis = setup(cls, None, terms, k, conf, main)
        pairs = [(t, c) for t, c in multis[T('param', 'pairs')]]
        mapped = role not in (main, rr) and np_ != mp
        if mapped and k == 3:
            # an auto-correlation of the data: keys are ordered
            pairs = [(t, c) for t, c in pairs if tuple(sorted(t)) == t]
        sm = Small(owners, keys, values, {T('param', pname): pairs}, decide=lambda t, s, env: none_cond(t, roles, given))
        want = {}
        for t, c in pairs:
            if role == main:
                u = t
            elif not mapped:
                u = t if t in keys[role] else None
            else:
                u = project(t, role, np_)
            if u is not None:
                want[u] = want.get(u, poly.ZERO) + c
        got, bad = {}, None
        n = 0
        term = SELF if role == main else [x for x, q in terms.items() if q == role][0]
        name = '%s._calculate_xi_from_pairs %s: %s %s' % (cls.name, txt, role, text)
        try:
            for e in fl.events:
                if e.kind != 'call' or e.data['name'] not in fname_ or e.data['recv'] is not term:
                    continue
                if e.depth > 1 and e.fn != '_calculate_xi_from_pairs' and False:
                    continue
                live = True
                for g, pol in e.guards:
                    if sm.truth(g, {}) != pol:
                        live = False
                        break
                if not live:
                    continue
                n += 1
                for v, c in sm.enum(e.data['args'][0], {}):
                    if isinstance(v, Res):
                        if v.owner != role:
                            bad = 'sums results of %s into %s' % (v.owner, role)
                        v = v.key
                    got[v] = got.get(v, poly.ZERO) + c
        except KeyError as e:
            ck.ob('selection', name, False, 'reads %s, which does not exist' % e, where)
            continue
        except (Open, TypeError, IndexError) as e:
            dbg(name, e)
            continue
        if n == 0:
            ck.ob('selection', name, False, '%s is not summed over the selected pairs' % role, where)
            continue
        if bad is None and n > 1:
            bad = '%s is summed twice' % role
        if bad is None:
            for u in sorted(set(want) | set(got), key=str):
                g, w = got.get(u, poly.ZERO), want.get(u, poly.ZERO)
                if not (g - w).is_zero():
                    bad = 'patch combination %s is used %s times instead of %s' % (u, poly.text(g), poly.text(w))
                    break
        ck.ob('selection', name, bad is None, bad or '', where)


def hole_in(hole, np_):
    return [h for h in [tuple(min(x, n - 1) for x, n in zip(t, np_)) for t in hole[:1]]]


def project(t, role, np_):
    """where the selected data patches t are found in a result whose random fields have no patches"""
    if len(t) == 2:
        if t[0] != t[1]:
            return None
        return tuple(0 if n == 1 else x for x, n in zip(t, np_))
    if role == 'drr':
        return (t[0], 0, 0) if len(set(t)) == 1 else None
    if t[0] == t[1] or t[0] == t[2]:
        return (0, t[1], t[2])
    return None


def field(ck, rep, cls, m, params):
    p = params[0]
    fl, r, where = run(rep, cls, m, args=params)
    ck.saw_flow(fl)
    if r is None:
        raise AnalysisBroken('%s.%s has no normal exit' % (cls.name, m))
    kept = attr_of_param(r[1].heap, params)
    outs = ['xi'] + [a for a in ('xi_im',) if (SELF, a) in r[1].heap]
    raws = {}
    for o in outs:
        f2 = Flow(rep)
        rv = f2.run_method(cls, 'raw_' + o, kind='props')
        if rv is None or rv[0].op != 'attr' or rv[0].args[0] is not SELF:
            return
        raws[rv[0].args[1]] = 'raw_' + o
        ck.saw_flow(f2)
    for g in (False, True):
        given = {p: g, 'dk': True}
        roles = {SELF: 'dk', T('param', p): p}
        case = Case(given, roles=roles, raw=raws, either=False, fresh=False)
        case.rrole = p
        for o in outs:
            try:
                got = case.elem().ev(get(r, o))
            except Undecided:
                continue
            want = sym('raw_%s_dk' % o) - (sym('%s_%s' % (o, p)) if g else poly.ZERO)
            ck.ob('estimate', '%s.%s %s %s' % (cls.name, m, 'with ' + p if g else 'without randoms', o), same(got, want),
                  'is %s, documented is %s' % (poly.text(got), poly.text(want)), where)
        # variance of the difference when there are no patches
        sm = Small({SELF: 'dk', T('param', p): p}, {'dk': set(), p: set()}, {},
                   decide=lambda t, s, env: none_cond(t, roles, given))
        case.small = sm
        try:
            got = case.elem().ev(get(r, '_varxi'))
            want = sym('raw_varxi_dk') + (sym('varxi_' + p) if g else poly.ZERO)
            ck.ob('shot', '%s.%s %s' % (cls.name, m, 'with ' + p if g else 'without randoms'), same(got, want),
                  'variance is %s, should be %s' % (poly.text(got)[:300], poly.text(want)), where)
        except Undecided:
            pass
    if p not in kept:
        return
    dc, fn = cls.find('_calculate_xi_from_pairs', 'methods')
    if fn is None:
        return
    pname = fn.args.args[1].arg
    term = T('attr', SELF, kept[p])
    fl, r, where = run(rep, cls, '_calculate_xi_from_pairs', resampled=True, args=params)
    ck.saw_flow(fl)
    if r is None:
        return
    for g in (False, True):
        given = {p: g, 'dk': True}
        roles = {SELF: 'dk', term: p}
        confs = [('', (3, 3), (3, 3), [(0, 1), (2, 2)])] + \
            ([('without random patches', (1, 3), (3, 3), [(0, 2)]),
              ('of data with the same single patch', (1, 3), (1, 3), [(0, 1)])] if g else [])
        for text, np_, mp, holes in confs:
            owners, keys, values, multis = setup(cls, None, {term: p}, 2, {'dk': (mp, ()), p: (np_, holes)}, 'dk')
            pairs = multis[T('param', 'pairs')]
            sm = Small(owners, keys, values, {T('param', pname): pairs},
                       decide=lambda t, s, env: none_cond(t, roles, given))
            case = Case(given, roles=roles, raw=raws, either=False)
            case.rrole = p
            case.small = sm
            for o in outs:
                try:
                    got = case.elem().ev(get(r, o))
                except Undecided:
                    continue
                want = sym('raw_%s_dk' % o) - (sym('%s_%s' % (o, p)) if g else poly.ZERO)
                if not g:
                    # the sum itself leaves the raw values in place
                    want2 = sym('%s_dk' % o)
                    if same(got, want2):
                        want = want2
                ck.ob('resampled', '%s._calculate_xi_from_pairs %s %s %s' % (cls.name, 'with ' + p if g else '', text, o),
                      same(got, want), 'is %s, should be %s' % (poly.text(got), poly.text(want)), where)
            for role in ['dk'] + ([p] if g else []):
                want = {}
                for t, c in pairs:
                    u = t
                    if role == p:
                        if np_ != mp:
                            u = (0, t[1]) if t[0] == t[1] else None
                        if u not in keys[p]:
                            u = None
                    if u is not None:
                        want[u] = want.get(u, poly.ZERO) + c
                got, bad, n = {}, None, 0
                recv = SELF if role == 'dk' else term
                name = '%s._calculate_xi_from_pairs %s: %s %s' % (cls.name, 'with ' + p if g else '', role, text)
                try:
                    for e in fl.events:
                        if e.kind != 'call' or e.data['recv'] is not recv or \
                                e.data['name'] not in ('_sum', '_calculate_xi_from_pairs'):
                            continue
                        if not all(sm.truth(gg, {}) == pol for gg, pol in e.guards):
                            continue
                        n += 1
                        for v, c in sm.enum(e.data['args'][0], {}):
                            if isinstance(v, Res):
                                if v.owner != role:
                                    bad = 'sums results of %s into %s' % (v.owner, role)
                                v = v.key
                            got[v] = got.get(v, poly.ZERO) + c
                except KeyError as e:
                    ck.ob('selection', name, False, 'reads %s, which does not exist' % e, where)
                    continue
                except (Open, TypeError, IndexError) as e:
                    dbg(name, e)
                    continue
                if n != 1:
                    bad = '%s is summed %d times over the selected pairs' % (role, n)
                if bad is None:
                    for u in sorted(set(want) | set(got), key=str):
                        x, w = got.get(u, poly.ZERO), want.get(u, poly.ZERO)
                        if not (x - w).is_zero():
                            bad = 'patch combination %s is used %s times instead of %s' % (u, poly.text(x), poly.text(w))
                            break
                ck.ob('selection', name, bad is None, bad or '', where)


