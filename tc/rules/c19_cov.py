"""C19: each covariance method resamples and scales exactly as defined."""
import itertools

from ..common import *
from ..pyflow import State
from ..pyrepo import AnalysisBroken
from .. import poly
from ..poly import sym
from ..elem import Elem, Undecided, fname
from ..coll import Small, Res, Open

PROP = 'C19'

METHODS = ('jackknife', 'sample', 'bootstrap', 'marked_bootstrap')
NP = 3


def dbg(*a):
    import os
    if os.environ.get('TC_DEBUG'):
        print('  undecided', *[str(x)[:400] for x in a])


def check(ck):
    rep = repo()
    ck.rule('selection', 'for every class and every choice of which catalogs have patches, the patch combinations used '
            'for one resampling, read as a counted set over the existing results, are those of the method: without the '
            'patch (jackknife), with it in the first patched position (sample), with the multiplicity of the first '
            'patched index (marked), with the product of the multiplicities of the distinct indices (bootstrap)', 40)
    ck.rule('rows', 'the design matrix has one row per patch (or bootstrap draw), each row selecting the same patches in '
            'every correlation; each draw is a fresh sample of npatch of the npatch patches with replacement', 4)
    ck.rule('formula', 'the covariance is the documented multiple of the scatter of the design matrix about its mean '
            '(weighted for sample), and var_num/weight where the weight is not zero for shot', 4)
    ck.rule('core', 'each row is computed by exactly one process, on copies of the correlations, from the selected '
            'combinations of its own correlation, and the data vector and weight are taken after all were summed', 6)
    ck.rule('wrapper', 'estimate_cov, build_cov_design_matrix and the cov properties hand on this object, the method, the '
            'user function applied to it and the communicator', 6)
    core = find_core(rep)
    names = {}
    for m in METHODS:
        names[m] = rows(ck, rep, core, m)
    shot(ck, rep)
    core_rule(ck, rep, core)
    mpi(ck, rep, core)
    wrappers(ck, rep)
    for cls in [rep.cls('Corr2'), rep.cls('Corr3')] + corr_leaves(rep):
        for m in METHODS:
            if names[m] is None:
                continue
            dc, fn = cls.find(names[m], 'methods')
            if dc is cls:
                selection(ck, rep, cls, m, names[m])


def find_core(rep):
    """the module function that fills the design matrix"""
    reach = []
    for m in rep.modules.values():
        for n, fn in m.funcs.items():
            if any(isinstance(x, ast.Attribute) and x.attr == '_calculate_xi_from_pairs' for x in ast.walk(fn)):
                reach.append((m, fn))
    for m, fn in list(reach):
        # helpers it may have been moved into
        for n2, f2 in m.funcs.items():
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fn.name
                   for x in ast.walk(f2)) and (m, f2) not in reach:
                reach.append((m, f2))
    makes = [(m, fn) for m, fn in reach if any(isinstance(x, ast.Attribute) and x.attr in ('zeros', 'empty')
                                               for x in ast.walk(fn))]
    out = makes if len(makes) == 1 else reach[:1]
    if len(out) != 1:
        raise AnalysisBroken('the function that fills the design matrix was not found')
    return out[0]


# ---------------------------------------------------------------------- rows and formulas
class Obj(tuple):
    pass


def corr_small(pairs_log, extra=None):
    o = (('corr', 0), ('corr', 1))
    boots = {o[0]: 2, o[1]: 3}

    def more(t, s, env):
        if extra is not None:
            r = extra(t, s, env)
            if r is not None:
                return r
        if t.op == 'attr':
            if t.args[1] not in ('num_bootstrap', 'rng'):
                return None
            b = s.try_val(t.args[0], env)
            if b in boots:
                return boots[b] if t.args[1] == 'num_bootstrap' else ('rng', b)
        if t.op == 'call':
            f, args, kw = t.args
            k, n, r = fname(f)
            kw = dict(kw)
            if n in ('choice', 'integers', 'randint') and k == 'meth':
                rng = s.try_val(r, env)
                if isinstance(rng, tuple) and rng[:1] == ('rng',):
                    return draw(n, args, kw, s, env, t)
            if k == 'meth':
                b = s.try_val(r, env)
                if b in boots:
                    if n == '_get_npatch':
                        return NP
                    if n.endswith('_pairs'):
                        vs = [s.val(x, env) for x in args] + [s.val(x, env) for x in kw.values()]
                        pairs_log.add((n, len(vs)))
                        if vs:
                            return ('pairs', b, n) + tuple(vs)
                        return tuple(('pairs', b, n, r) for r in range(NP))
            if k == 'np' and n == 'int' and len(args) == 1:
                return s.val(args[0], env)
        return None
    return o, more


def draw(n, args, kw, s, env, t):
    """('draw', number of patches to draw from, how many, with replacement, identity)"""
    if n == 'choice':
        pop = args[0] if args else kw['a']
        p = s.try_val(pop, env)
        if not isinstance(p, int):
            vs = s.enum(pop, env)
            p = len(vs) if [v for v, c in vs] == list(range(len(vs))) and all(c.const() == 1 for v, c in vs) else None
        size = args[1] if len(args) > 1 else kw.get('size')
        rp = args[2] if len(args) > 2 else kw.get('replace')
        rp = True if rp is None else s.val(rp, env)
        if 'p' in kw:
            return ('draw', 'unequal', 0, False, t)
    else:
        lo = s.val(args[0], env) if args else 0
        hi = args[1] if len(args) > 1 else kw.get('high')
        p = s.val(hi, env) if hi is not None and hi is not NONE else lo
        if hi is not None and hi is not NONE and lo != 0:
            p = 'from %s' % lo
        size = args[2] if len(args) > 2 else kw.get('size')
        rp = True
    return ('draw', p, s.val(size, env) if size is not None else 1, rp, t)


def rows(ck, rep, core, m):
    cmod, cfn = core
    corrs = T('param', 'corrs')
    want_pairs = None
    for top, what in (('estimate_multi_cov', 'covariance'), ('build_multi_cov_design_matrix', 'design matrix')):
        fl = Flow(rep, maxdepth=10, opaque=(cfn.name,), loop_paths=True)
        mods = [x for x in rep.modules.values() if top in x.funcs]
        if not mods:
            raise AnalysisBroken('%s not found' % top)
        r = fl.run_function(mods[0].name, top, args={'method': C(m), 'comm': NONE})
        ck.saw_flow(fl)
        name = '%s of %s' % (what, m)
        where = '%s.py:%d' % (mods[0].name, mods[0].funcs[top].lineno)
        if r is None:
            ck.ob('rows', name, False, '%s(method=%r) always raises' % (top, m), where)
            continue
        calls = [t for t in set(subterms(r[0])) if t.op == 'call' and fname(t.args[0])[1] == cfn.name]
        if len(calls) != 1:
            ck.ob('rows', name, False, '%s(method=%r) does not come from one design matrix' % (top, m), where)
            continue
        call = calls[0]
        bound = bind(cfn, call)
        plist = bound.get(cfn.args.args[1].arg)
        log = set()
        o, more = corr_small(log)
        sm = Small({}, {}, {corrs: o}, {}, more=more)
        msgs = []
        try:
            if sm.val(bound[cfn.args.args[0].arg], {}) != o:
                msgs.append('the matrix is made from other correlations')
            got = sm._enum(plist, {})
        except (Open, KeyError, TypeError, IndexError) as e:
            dbg(name, e)
            continue
        if bound.get(cfn.args.args[2].arg) is not T('param', 'func'):
            msgs.append('the user function is not handed on')
        fresh = 'bootstrap' in m
        used = set()
        n = 3
        if fresh:
            if len(got) != 3 and not (len(got) < 3 and sum(int(c.const() or 0) for v, c in got) == 3):
                msgs.append('%d rows for num_bootstrap 2 and 3' % len(got))
        elif len(got) != NP:
            msgs.append('%d rows for %d patches' % (len(got), NP))
        for i, (row, c) in enumerate(got):
            if not isinstance(row, tuple) or len(row) != 2 or any(not isinstance(x, tuple) or x[:1] != ('pairs',)
                                                                  for x in row):
                msgs.append('row %d is %s' % (i, str(row)[:100]))
                break
            if [x[1] for x in row] != list(o):
                msgs.append('row %d does not list the selections in the order of the correlations' % i)
                break
            used |= {x[2] for x in row}
            if row[0][3:] != row[1][3:]:
                msgs.append('row %d selects different patches in the correlations' % i)
                break
            if fresh:
                d = row[0][3]
                if not (isinstance(d, tuple) and d[:1] == ('draw',)):
                    msgs.append('row %d is not a random draw' % i)
                    break
                if d[1] != NP or d[2] != NP or d[3] is not True:
                    msgs.append('a row draws %s of %s patches%s' % (d[2], d[1], '' if d[3] else ' without replacement'))
                    break
        if not fresh and not msgs:
            if [row[0][3] for row, c in got] != list(range(NP)):
                msgs.append('rows do not go through the patches once')
        if len(used) > 1:
            msgs.append('mixes %s' % sorted(used))
        if fresh and not msgs:
            for e in fl.events:
                if e.kind == 'call' and e.data['name'] in ('choice', 'integers', 'randint'):
                    per = len(e.loops) + len(e.comps)
                    it = [x.args[1] for x in e.comps] + [x[1] for x in e.loops]
                    if per == 0:
                        msgs.append('all rows use one draw (%s)' % e.where)
                    elif any(over_corrs(y, sm, o) for y in it):
                        msgs.append('each correlation draws its own patches (%s)' % e.where)
        ck.ob('rows', name, not msgs, '; '.join(msgs), where)
        if used and want_pairs is None:
            want_pairs = sorted(used)[0]
        elif used and want_pairs not in used:
            ck.ob('rows', name + ' selection', False, 'uses %s, the covariance uses %s' % (sorted(used), want_pairs), where)
        if what == 'covariance':
            formula(ck, m, r[0], call, where)
        else:
            ok = r[0] is call or (r[0].op == 'tuple' and [x for x in r[0].args[0]] ==
                                  [T('idx', call, C(0)), T('idx', call, C(1))])
            ck.ob('formula', name, ok, 'returns %s, not the design matrix and its weights' % show(r[0])[:200], where)
    return want_pairs


def over_corrs(it, sm, o):
    try:
        vs = [v for v, c in sm.enum(it, {})]
    except (Open, KeyError, TypeError, IndexError):
        return False
    return any(v in o or (isinstance(v, tuple) and any(x in o for x in v)) for v in vs)


def bind(fn, call):
    pos = [a.arg for a in fn.args.args]
    f, args, kw = call.args
    out = dict(zip(pos, args))
    out.update(dict(kw))
    return out


# matrices as sums of products of named factors: {factors: coefficient}
def madd(a, b, s=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, poly.ZERO) + c * s
    return {k: c for k, c in out.items() if not c.is_zero()}


FLIP = {'A': 'A*T', 'M': 'M*T'}


class Mat:
    def __init__(self, call):
        self.A = T('idx', call, C(0))
        self.W = T('idx', call, C(1))

    def ev(self, t):
        """P for a number, dict for a matrix; 'v' keys: ('w',) is the vector of weights"""
        if t is self.A:
            return {('A',): poly.ONE}
        if t is self.W:
            return {('w',): poly.ONE}
        if t.is_const and isinstance(t.value, (int, float)):
            return poly.lift(t.value)
        o, a = t.op, t.args
        if o == 'un' and a[0] in ('-', 'USub'):
            x = self.ev(a[1])
            return {k: -c for k, c in x.items()} if isinstance(x, dict) else -x
        if o == 'idx':
            if a[0].op == 'attr' and a[0].args[1] == 'shape' and a[1].is_const:
                x = self.ev(a[0].args[0])
                return self.shape(x, a[1].value)
            if a[1].op == 'tuple':
                # w[:, None]: a column
                ks = a[1].args[0]
                x = self.ev(a[0])
                if len(ks) == 2 and isinstance(x, dict) and all(k == ('w',) for k in x):
                    full = lambda k: k.op == 'slice' and all(y is NONE for y in k.args)
                    none = lambda k: k is NONE or show(k) == 'np.newaxis'
                    if full(ks[0]) and none(ks[1]):
                        return {('wcol',): c for c in x.values()}
                    if none(ks[0]) and full(ks[1]):
                        return x
        if o == 'attr' and a[1] == 'T':
            return self.transpose(self.ev(a[0]))
        if o == 'bin':
            op = a[0]
            x, y = self.ev(a[1]), self.ev(a[2])
            if op in ('+', '-'):
                return self.plus(x, y, 1 if op == '+' else -1)
            if op == '*':
                return self.times(x, y)
            if op == '@':
                return self.dot(x, y)
            if op == '/':
                if isinstance(y, dict):
                    raise Undecided('division by matrix')
                return self.times(x, poly.ONE / y)
            if op == '**' and isinstance(x, poly.P) and isinstance(y, poly.P) and y.const() == -1:
                return poly.ONE / x
        if o == 'call':
            f, args, kw = a
            k, n, r = fname(f)
            kw = dict(kw)
            if k == 'np' and args:
                recv, rest = args[0], args[1:]
            elif k == 'meth':
                recv, rest = r, args
            elif k == 'fn' and n in ('len', 'float', 'int', 'sum') and args:
                recv, rest = args[0], args[1:]
            else:
                raise Undecided(show(t)[:120])
            if n in ('len',):
                return self.shape(self.ev(recv), 0)
            if n in ('float', 'int', 'copy', 'asarray', 'array', 'ascontiguousarray'):
                return self.ev(recv)
            ax = kw.get('axis', rest[0] if n in ('mean', 'sum') and rest else None)
            if n == 'mean' and ax is not None and ax.is_const and ax.value == 0:
                x = self.ev(recv)
                if isinstance(x, dict) and set(x) == {('A',)}:
                    return {('M',): x[('A',)]}
            if n in ('sum', 'mean') and ax is None:
                x = self.ev(recv)
                if isinstance(x, dict) and set(x) == {('w',)}:
                    return x[('w',)] * sym('sumw') / (sym('n') if n == 'mean' else poly.ONE)
            if n == 'sum' and ax is not None and ax.is_const and ax.value == 0:
                x = self.ev(recv)
                if isinstance(x, dict) and set(x) == {('A',)}:
                    return {('M',): x[('A',)] * sym('n')}
            if n in ('conj', 'conjugate'):
                return self.conj(self.ev(recv))
            if n == 'transpose' and not rest:
                return self.transpose(self.ev(recv))
            if n in ('dot', 'matmul') and len(rest) == 1:
                return self.dot(self.ev(recv), self.ev(rest[0]))
            if n == 'subtract' and len(rest) == 1:
                return self.plus(self.ev(recv), self.ev(rest[0]), -1)
            if n == 'multiply' and len(rest) == 1:
                return self.times(self.ev(recv), self.ev(rest[0]))
        raise Undecided(show(t)[:200])

    def shape(self, x, i):
        if isinstance(x, dict):
            if all(k in (('A',), ('M',)) for k in x) and ('A',) in x:
                return sym('n' if i == 0 else 'nvec')
            if all(k == ('w',) for k in x) and i == 0:
                return sym('n')
        raise Undecided('shape')

    def plus(self, x, y, s):
        if isinstance(x, poly.P) and isinstance(y, poly.P):
            return x + y * s
        if isinstance(x, dict) and isinstance(y, dict):
            return madd(x, y, s)
        raise Undecided('sum of number and matrix')

    def times(self, x, y):
        if isinstance(x, poly.P) and isinstance(y, poly.P):
            return x * y
        if isinstance(x, poly.P):
            return {k: c * x for k, c in y.items()}
        if isinstance(y, poly.P):
            return self.times(y, x)
        for u, v in ((x, y), (y, x)):
            if all(k == ('w',) for k in u) and len(u) == 1:
                # along the last axis, which has one entry per row of the design matrix
                if all(len(k) >= 1 and k[-1].endswith('T') for k in v):
                    return {k + ('W',): c * u[('w',)] for k, c in v.items()}
            if all(k == ('wcol',) for k in u) and len(u) == 1:
                if all(not k[0].endswith('T') for k in v):
                    return {('W',) + k: c * u[('wcol',)] for k, c in v.items()}
        raise Undecided('elementwise product')

    def dot(self, x, y):
        if not (isinstance(x, dict) and isinstance(y, dict)):
            raise Undecided('product')
        out = {}
        for k1, c1 in x.items():
            for k2, c2 in y.items():
                if 'w' in k1 + k2 or 'wcol' in k1 + k2:
                    raise Undecided('product with weights')
                out = madd(out, {k1 + k2: c1 * c2})
        return out

    def conj(self, x):
        if isinstance(x, poly.P):
            return x
        mp = lambda f: f if f in ('w', 'W', 'wcol') else f.replace('*', '') if '*' in f else f[0] + '*' + f[1:]
        return {tuple(mp(f) for f in k): c for k, c in x.items()}

    def transpose(self, x):
        if isinstance(x, poly.P):
            return x
        mp = lambda f: f if f in ('w', 'W') else f[:-1] if f.endswith('T') else f + 'T'
        return {tuple(mp(f) for f in reversed(k)): c for k, c in x.items()}


def formula(ck, m, res, call, where):
    name = 'covariance of %s' % m
    try:
        got = Mat(call).ev(res)
    except Undecided as e:
        dbg(name, e)
        return
    n = sym('n')
    c = (1 - 1 / n) if m == 'jackknife' else 1 / (n - 1)
    mid = ()
    if m == 'sample':
        c = c / sym('sumw')
        mid = ('W',)
    want = {}
    for x, s1 in (('A', 1), ('M', -1)):
        for y, s2 in (('A', 1), ('M', -1)):
            want[(x + '*T',) + mid + (y,)] = c * (s1 * s2)
    if not isinstance(got, dict):
        ck.ob('formula', name, False, 'is a number', where)
        return
    bad = None
    for k in set(got) | set(want):
        g, w = got.get(k, poly.ZERO), want.get(k, poly.ZERO)
        if not ((g - w).is_zero() or poly.equal(g, w)):
            bad = 'the term %s has the factor %s instead of %s' % (' '.join(k), poly.text(g), poly.text(w))
    ck.ob('formula', name, bad is None, bad or '', where)


def shot(ck, rep):
    mods = [x for x in rep.modules.values() if 'estimate_multi_cov' in x.funcs]
    fl = Flow(rep, maxdepth=10, loop_paths=True, opaque=('getWeight',))
    r = fl.run_function(mods[0].name, 'estimate_multi_cov', args={'method': C('shot'), 'comm': NONE, 'func': NONE})
    ck.saw_flow(fl)
    where = '%s.py' % mods[0].name
    if r is None:
        ck.ob('formula', 'covariance of shot', False, 'always raises', where)
        return
    t = r[0]
    k, n, rr = fname(t.args[0]) if t.op == 'call' else (None, None, None)
    if n not in ('concatenate', 'hstack') or not t.args[1]:
        dbg('shot', show(t))
        return
    seq = t.args[1][0]
    owner = None
    elt = None
    if seq.op == 'comp' and len(seq.args[2]) == 1:
        elt = seq.args[1][0]
        g = seq.args[2][0]
        src, owner, cond = g.args[0], g.args[2], g.args[1]
        if src is not T('param', 'corrs') or (cond.op != 'and' or cond.args[0]):
            ck.ob('formula', 'covariance of shot', False, 'does not go through all the correlations', where)
            return
    elif seq.op == 'phi' and seq.args[0].op == 'loop' and seq.args[1].op == 'list':
        lid, src = seq.args[0].args
        if src is not T('param', 'corrs') or len(seq.args[1].args[0]) != 1 or seq.args[2].op != 'list' or \
                seq.args[2].args[0]:
            ck.ob('formula', 'covariance of shot', False, 'does not append once for each of the correlations', where)
            return
        elt = seq.args[1].args[0][0]
        owner = T('elem', lid, src)
    if elt is None:
        dbg('shot', show(seq))
        return
    for zero in (True, False):
        def name(x, el):
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0] is owner and \
                    x.args[0].args[1] == 'getWeight':
                return poly.ZERO if zero else sym('weight')
            if x.op == 'attr' and x.args[0] is owner and x.args[1] == '_var_num':
                return 'var_num'
            return None

        def cond(x, el):
            if x.op == 'cmp' and x.args[0] in ('==', '!=', '>', '<'):
                try:
                    d = el.ev(x.args[1]) - el.ev(x.args[2])
                except Undecided:
                    return None
                if d.const() is not None:
                    d = d.const()
                    return {'==': d == 0, '!=': d != 0, '>': d > 0, '<': d < 0}[x.args[0]]
                if x.args[0] in ('==', '!='):
                    return x.args[0] == '!='
                if (d - sym('weight')).is_zero():
                    return x.args[0] == '>'
                if (d + sym('weight')).is_zero():
                    return x.args[0] == '<'
            return None
        el = Elem(cond, name)
        nm = 'covariance of shot%s' % (' where the weight is 0' if zero else '')
        try:
            got = el.ev(elt)
        except Undecided as e:
            if el.div0:
                ck.ob('formula', nm, False, 'divides by zero', where)
            else:
                dbg(nm, e)
            continue
        want = poly.ZERO if zero else sym('var_num') / sym('weight')
        ck.ob('formula', nm, (got - want).is_zero() or poly.equal(got, want),
              'is %s instead of %s' % (poly.text(got), poly.text(want)), where)


# ---------------------------------------------------------------------- filling the matrix
def core_rule(ck, rep, core):
    cmod, cfn = core
    pos = [a.arg for a in cfn.args.args]
    where = '%s.py:%d' % (cmod.name, cfn.lineno)
    corrs, plist, func = [T('param', x) for x in pos[:3]]
    rank = T('param', 'rank') if 'rank' in pos else None
    size = T('param', 'size') if 'size' in pos else None
    for given in (True, False):
        fl = Flow(rep, maxdepth=4, opaque=('copy', '_clear', '_calculate_xi_from_pairs', 'getStat', 'getWeight'),
                  loop_paths=True)
        r = fl.run_function(cmod.name, cfn.name, args={pos[2]: func if given else NONE})
        ck.saw_flow(fl)
        if r is None or r[0].op != 'tuple':
            raise AnalysisBroken('the design matrix function has no normal exit')
        o = (('corr', 0), ('corr', 1))
        sel = lambda row, j: ('sel', row, j)
        full = {sel(i, j): ((i, j),) for i in range(4) for j in range(2)}
        full[sel(2, 1)] = ()
        rows_ = tuple((sel(i, 0), sel(i, 1)) for i in range(4))

        def more(t, s, env):
            if t.op == 'call':
                k, n, r_ = fname(t.args[0])
                if n == 'copy' and k == 'meth' and not t.args[1]:
                    b = s.try_val(r_, env)
                    if isinstance(b, tuple) and b in o:
                        return ('copy',) + b
                if n in ('copy', 'deepcopy') and len(t.args[1]) == 1:
                    b = s.try_val(t.args[1][0], env)
                    if isinstance(b, tuple) and b in o:
                        return ('copy',) + b
                if k == 'fn' and n == 'len' and len(t.args[1]) == 1:
                    b = s.try_val(t.args[1][0], env)
                    if b in full:
                        return len(full[b])
                if k == 'fn' and n == 'list' and len(t.args[1]) == 1:
                    b = s.try_val(t.args[1][0], env)
                    if isinstance(b, tuple) and b in full:
                        return b
            if t.op == 'copyof':
                b = s.try_val(t.args[0], env)
                if isinstance(b, tuple) and b in o:
                    return ('copy',) + b
            return None

        def decide(t, s, env):
            # a list is true when it is not empty
            if t.op in ('param', 'idx', 'elem', 'call', 'bv'):
                b = s.try_val(t, env)
                if isinstance(b, tuple) and b in full:
                    return len(full[b]) > 0
            return None
        counts = {}
        msgs = []
        problems = set()
        for sz, rk in ((1, 0), (2, 0), (2, 1), (3, 2)):
            vals = {corrs: o, plist: rows_}
            if rank is not None:
                vals[rank], vals[size] = rk, sz
            sm = Small({}, {}, vals, {}, more=more, decide=decide)
            try:
                tr = list(sm.trace([e for e in fl.events if not e.comps and e.kind in ('call', 'setitem')
                                    and relevant(e)]))
            except (Open, KeyError, TypeError, IndexError) as e:
                dbg('core', e)
                tr = None
            if tr is None:
                continue
            state = {}
            rowsdone = {}
            undec = False
            lastcall = -1
            for i, (e, env) in enumerate(tr):
                try:
                    if e.kind == 'call' and e.data['name'] in ('_calculate_xi_from_pairs', '_clear'):
                        who = sm.val(e.data['recv'], env)
                        if e.data['name'] == '_clear':
                            arg = None
                        else:
                            a = e.data['args'][0] if e.data['args'] else list(e.data['kw'].values())[0]
                            arg = sm.val(a, env)
                        if not (isinstance(who, tuple) and who[:1] == ('copy',)):
                            problems.add('%s is called on a correlation of the caller, not on a copy' % e.data['name'])
                        state[who[-1]] = arg
                        lastcall = i
                    elif e.kind == 'setitem':
                        key = sm.val(e.data['key'], env)
                        if not isinstance(key, int):
                            continue
                        kind = vec_kind(e, given, func)
                        if kind is None:
                            undec = True
                            continue
                        rowsdone.setdefault((key, kind), []).append(dict(state))
                except (Open, KeyError, TypeError, IndexError) as ex:
                    dbg('core', ex)
                    undec = True
            if undec:
                continue
            for row in range(4):
                for kind in ('v', 'w'):
                    got = rowsdone.get((row, kind), [])
                    mine = row % sz == rk
                    counts.setdefault((sz, row, kind), 0)
                    if len(got) > 1:
                        problems.add('row is filled %d times' % len(got))
                    if sz == 1 and len(got) != 1:
                        problems.add('row %d is not filled' % row)
                    for st in got:
                        for j in range(2):
                            s = st.get(j, 'nothing')
                            want = sel(row, j) if full[sel(row, j)] else None
                            if s != want:
                                problems.add('%s of row %d is taken when correlation %d holds %s' % (
                                    'data vector' if kind == 'v' else 'weight', row, j, s))
            counts.setdefault('who%d' % sz, []).append({row for (row, kind) in rowsdone})
        two = counts.get('who2', [])
        if len(two) == 2:
            if two[0] & two[1]:
                problems.add('rows %s are filled by two processes' % sorted(two[0] & two[1]))
            if two[0] | two[1] != set(range(4)):
                problems.add('rows %s are filled by no process' % sorted(set(range(4)) - (two[0] | two[1])))
        if counts.get('who1'):
            nm = 'design matrix rows%s' % ('' if given else ' (default function)')
            ck.ob('core', nm, not problems, '; '.join(sorted(problems)), where)
        # the matrices start empty with one row for each selection
        zs = [t for t in set(subterms(r[0])) if t.op == 'call' and fname(t.args[0])[1] in ('zeros', 'empty', 'ones', 'full')]
        for t in zs:
            n = fname(t.args[0])[1]
            ck.ob('core', 'start of the %s%s' % ('weights' if t.args[1] and t.args[1][0].op != 'tuple' else 'matrix',
                                                '' if given else ' (default function)'), n == 'zeros',
                  'starts from np.%s but is summed over processes' % n, where)
    default_func(ck, rep, core, where)


def relevant(e):
    return e.kind == 'setitem' or e.data['name'] in ('_calculate_xi_from_pairs', '_clear')


def vec_kind(e, given, func):
    v = e.data['value']
    for t in subterms(v):
        if t.op == 'call':
            k, n, r = fname(t.args[0])
            if n == 'getWeight':
                return 'w'
    for t in subterms(v):
        if t.op == 'call' and (t.args[0] is func or t.args[0].op in ('closure', 'phi')):
            return 'v'
        if t.op == 'call' and fname(t.args[0])[1] == 'getStat':
            return 'v'
    return None


def default_func(ck, rep, core, where):
    cmod, cfn = core
    pos = [a.arg for a in cfn.args.args]
    fl = Flow(rep, maxdepth=5, opaque=('copy', '_clear', '_calculate_xi_from_pairs', 'getStat', 'getWeight'))
    r = fl.run_function(cmod.name, cfn.name, args={pos[2]: NONE})
    ck.saw_flow(fl)
    o = (('corr', 0), ('corr', 1))

    def more(t, s, env):
        if t.op == 'copyof' or (t.op == 'call' and fname(t.args[0])[:2] == ('meth', 'copy')):
            b = s.try_val(t.args[0] if t.op == 'copyof' else fname(t.args[0])[2], env)
            if b in o:
                return b
        if t.op == 'call' and fname(t.args[0])[1] in ('getStat', 'getWeight') and not t.args[1]:
            b = s.try_val(fname(t.args[0])[2], env)
            if b in o:
                return (fname(t.args[0])[1], b)
        if t.op == 'call' and fname(t.args[0])[1] in ('sum',) and len(t.args[1]) == 1:
            b = s.try_val(t.args[1][0], env)
            if isinstance(b, tuple) and b[:1] == ('getWeight',):
                return ('sum',) + b
        if t.op == 'call' and fname(t.args[0])[:2] == ('meth', 'sum') and not t.args[1]:
            b = s.try_val(fname(t.args[0])[2], env)
            if isinstance(b, tuple) and b[:1] == ('getWeight',):
                return ('sum',) + b
        return None
    sm = Small({}, {}, {T('param', pos[0]): o}, {}, more=more)
    done = set()
    for e in fl.events:
        if e.kind != 'setitem':
            continue
        v = e.data['value']
        k = fname(v.args[0]) if v.op == 'call' else None
        try:
            if k and k[1] in ('concatenate', 'hstack') and v.args[1]:
                got = [x for x, c in sm._enum(v.args[1][0], {})]
                ck.ob('core', 'default data vector', got == [('getStat', x) for x in o],
                      'concatenates %s' % (got,), e.where)
                done.add('v')
            elif k and k[1] == 'sum' and v.args[1]:
                got = [x for x, c in sm._enum(v.args[1][0], {})]
                ck.ob('core', 'weight of a row', got == [('sum', 'getWeight', x) for x in o], 'sums %s' % (got,), e.where)
                done.add('w')
        except (Open, KeyError, TypeError, IndexError) as ex:
            dbg('default', ex)


def mpi(ck, rep, core):
    """with a communicator the rows are shared by rank and the parts are summed"""
    cmod, cfn = core
    comm = T('param', 'comm')
    fl = Flow(rep, maxdepth=10, opaque=(cfn.name,), loop_paths=True)
    mods = [x for x in rep.modules.values() if 'build_multi_cov_design_matrix' in x.funcs]
    fl.types[comm] = None
    st = State()
    fn = mods[0].funcs['build_multi_cov_design_matrix']
    r = fl.run_function(mods[0].name, fn.name, args={'method': C('jackknife')})
    ck.saw_flow(fl)
    if r is None:
        return
    where = '%s.py' % mods[0].name

    def under(t):
        """the value when a communicator is given"""
        while t.op == 'phi':
            c = t.args[0]
            if c is T('cmp', 'is', comm, NONE):
                t = t.args[2]
            elif c is comm or c is T('cmp', 'is not', comm, NONE) or c is T('not', T('cmp', 'is', comm, NONE)):
                t = t.args[1]
            else:
                break
        return t
    res = under(r[0])
    parts = [under(x) for x in res.args[0]] if res.op == 'tuple' else None
    if parts is None or len(parts) != 2:
        dbg('mpi', show(res))
        return
    calls = {t for p in parts for t in subterms(p) if t.op == 'call' and fname(t.args[0])[1] == cfn.name}
    if len(calls) != 1:
        dbg('mpi', calls)
        return
    call = calls.pop()
    b = bind(cfn, call)
    pos = [a.arg for a in cfn.args.args]
    ck.ob('core', 'rows of a process', b.get('rank') is T('attr', comm, 'rank') and b.get('size') is T('attr', comm, 'size')
          or {show(b.get(p, NONE)) for p in pos[-2:]} == {'comm.Get_rank()', 'comm.Get_size()'},
          'rank=%s size=%s' % (show(b.get('rank', NONE)), show(b.get('size', NONE))), where)
    summed = set()
    for e in fl.events:
        if e.kind == 'call' and e.data['name'] in ('Allreduce', 'allreduce') and e.data['recv'] is comm:
            for a in e.data['args']:
                summed.add(a)
    for i, p in enumerate(parts):
        ck.ob('core', 'collection of the %s' % ('matrix' if i == 0 else 'weights'),
              T('idx', call, C(i)) in summed or any(T('idx', call, C(i)) in set(subterms(a)) for a in summed),
              'the parts of the processes are not summed', where)


# ---------------------------------------------------------------------- wrappers
def wrappers(ck, rep):
    seen = set()
    for cls in corr_leaves(rep):
        for meth, top in (('estimate_cov', 'estimate_multi_cov'), ('build_cov_design_matrix',
                                                                    'build_multi_cov_design_matrix')):
            dc, fn = cls.find(meth, 'methods')
            if fn is None or (dc.name, meth) in seen:
                continue
            seen.add((dc.name, meth))
            where = '%s.py:%d' % (dc.mod.name, fn.lineno)
            tmods = [m for m in rep.modules.values() if top in m.funcs]
            tfn = tmods[0].funcs[top]
            for given in (False, True):
                fl = Flow(rep, maxdepth=5, opaque=(top,))
                fl.types[SELF] = cls
                func = T('param', 'func')
                r = fl.run_fn(dc.mod, fn, {'func': func if given else NONE}, cls, dc, SELF, State())
                ck.saw_flow(fl)
                nm = '%s.%s%s' % (dc.name, meth, ' with func' if given else '')
                calls = [e for e in fl.events if e.kind == 'call' and e.data['name'] == top]
                if r is None or len(calls) != 1:
                    ck.ob('wrapper', nm, False, '%s is called %d times' % (top, len(calls)), where)
                    continue
                e = calls[0]
                names = [a.arg for a in tfn.args.args] + [a.arg for a in tfn.args.kwonlyargs]
                b = dict(zip(names, e.data['args']))
                b.update(e.data['kw'])
                msgs = []
                c0 = b.get(names[0])
                if c0 is None or c0.op not in ('list', 'tuple') or list(c0.args[0]) != [SELF]:
                    msgs.append('is made for %s' % (show(c0) if c0 is not None else None))
                if b.get('method') is not T('param', 'method'):
                    msgs.append('method is not handed on')
                if b.get('comm') is not T('param', 'comm'):
                    msgs.append('comm is not handed on')
                f = b.get('func', NONE)
                if not given:
                    while f.op == 'phi':
                        f = f.args[2] if f.args[0].op == 'cmp' and f.args[0].args[0] == 'is not' else f.args[1]
                    if f is not NONE:
                        msgs.append('a function is used although none was given')
                else:
                    v = apply_func(fl, f, func)
                    if v is False:
                        msgs.append('the function is not applied to the resampled correlation')
                ck.ob('wrapper', nm, not msgs, '; '.join(msgs), where)
        for prop in ('cov', 'cov_diag'):
            dc, fn = cls.find(prop, 'props')
            if fn is None or (dc.name, prop) in seen:
                continue
            seen.add((dc.name, prop))
            fl = Flow(rep, maxdepth=4, opaque=('estimate_cov',))
            r = fl.run_method(cls, prop, kind='props')
            ck.saw_flow(fl)
            for e in fl.events:
                if e.kind == 'call' and e.data['name'] == 'estimate_cov':
                    a = e.data['args'][0] if e.data['args'] else e.data['kw'].get('method')
                    ck.ob('wrapper', '%s.%s' % (dc.name, prop), a is not None and a.op == 'attr' and a.args[1] == 'var_method' and
                          e.data['recv'] is SELF, 'uses the method %s' % (show(a) if a is not None else None), e.where)


def apply_func(fl, f, func):
    """does f(corrs) evaluate func(corrs[0])? None when it cannot be read"""
    while f.op == 'phi':
        f = f.args[1] if f.args[1].op == 'closure' else f.args[2]
    if f is func:
        return False
    if f.op != 'closure':
        return None
    corrs = T('param', 'the corrs')
    try:
        v = fl.call_value(f, (corrs,), {}, State(), None)
    except Exception:
        return None
    if v is None or v.op != 'call':
        return None
    return v.args[0] is func and len(v.args[1]) == 1 and v.args[1][0] is T('idx', corrs, C(0))


# ---------------------------------------------------------------------- selections
def instance_reader(rep, cls, fl0, ck):
    """reads instances of nested iterator classes and generator methods"""
    cache = {}

    def inner(name):
        for c in cls.mro:
            if name in c.inner:
                return c.inner[name]
        return None

    def state_of(t, fl):
        """(Cls, Flow, state) of an instance made by a call of a nested class"""
        if t in cache:
            return cache[t]
        f, args, kw = t.args
        if f.op != 'attr' or f.args[0] is not SELF:
            return None
        ic = inner(f.args[1])
        if ic is None:
            return None
        me = T('inst', t)
        fl = Flow(rep, maxdepth=6)
        fl.types[me] = ic
        st = State()
        dc, fn = ic.find('__init__', 'methods')
        if fn is not None:
            pos = [a.arg for a in fn.args.args[1:]]
            b = dict(zip(pos, args))
            b.update(dict(kw))
            from ..pyrepo import defaults_of
            for p, d in defaults_of(fn).items():
                if p not in b and isinstance(d, ast.Constant):
                    b[p] = C(d.value)
            r = fl.run_fn(dc.mod, fn, b, ic, dc, me, st)
            if r is None:
                return None
            st = r[1]
        cache[t] = (ic, fl, st, me)
        return cache[t]

    def collect(t, s, env):
        if t.op != 'call':
            return None
        inst = state_of(t, None)
        if inst is not None:
            ic, fl, st, me = inst
            return contents(ic, fl, st, me, s, env)
        # a generator method of the object itself
        f = t.args[0]
        if f.op == 'attr' and f.args[0] is SELF:
            return gen_method(cls, f.args[1], t.args[1], dict(t.args[2]), SELF, State(), s, env)
        return None

    def contents(ic, fl, st, me, s, env):
        dc, fn = ic.find('__iter__', 'methods')
        if fn is None:
            raise Open('no iterator')
        st = st.copy()
        if is_gen(fn):
            return gen_method(ic, '__iter__', (), {}, me, st, s, env)
        r = fl.run_fn(dc.mod, fn, {}, ic, dc, me, st)
        if r is None:
            raise Open('iterator raises')
        v, st2 = r
        if v is me:
            # what __next__ takes from
            dn, nf = ic.find('__next__', 'methods')
            if nf is None:
                raise Open('no next')
            fl2 = Flow(rep, maxdepth=6)
            fl2.types[me] = ic
            r2 = fl2.run_fn(dn.mod, nf, {}, ic, dn, me, st2.copy())
            ck.saw_flow(fl2)
            if r2 is None or r2[0].op != 'call' or fname(r2[0].args[0])[1] != 'next' or not r2[0].args[1]:
                raise Open('next')
            v = r2[0].args[1][0]
        ck.saw_flow(fl)
        while v.op == 'call' and fname(v.args[0])[1] == 'iter' and fname(v.args[0])[0] == 'fn':
            v = v.args[1][0]
        if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[0] is me:
            return gen_method(ic, v.args[0].args[1], v.args[1], dict(v.args[2]), me, st2, s, env)
        return s._enum(v, env)

    def gen_method(c, name, args, kw, me, st, s, env):
        dc, fn = c.find(name, 'methods')
        if fn is None or not is_gen(fn):
            return None
        fl = Flow(rep, maxdepth=6, loop_paths=True)
        fl.types[me] = c
        pos = [a.arg for a in fn.args.args[1:]]
        b = dict(zip(pos, args))
        b.update(kw)
        fl.run_fn(dc.mod, fn, b, c, dc, me, st.copy())
        ck.saw_flow(fl)
        return s.yielded(fl.events, env)
    return collect


def is_gen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))


def expected(m, key, np_, i):
    """how often a combination is used: i is the row (jackknife, sample) or None (multiplicities)"""
    multi = [x for x, n in zip(key, np_) if n > 1]
    mult = lambda x: sym('m_%d' % x)
    if m == 'jackknife':
        return poly.lift(0 if i in multi else 1)
    if m == 'sample':
        return poly.lift(1 if multi[0] == i else 0)
    if m == 'marked_bootstrap':
        return mult(multi[0])
    out = poly.ONE
    for x in sorted(set(multi)):
        out = out * mult(x)
    return out


def selection(ck, rep, cls, m, meth):
    dc, fn = cls.find(meth, 'methods')
    k = 3 if cls.issub('Corr3') else 2
    fl = Flow(rep, maxdepth=6, loop_paths=True, prop_opaque=('_ok',))
    fl.types[SELF] = cls
    r = fl.run_fn(dc.mod, fn, {}, cls, dc, SELF, State())
    ck.saw_flow(fl)
    where = '%s.py:%d' % (dc.mod.name, fn.lineno)
    if r is None:
        raise AnalysisBroken('%s has no normal exit' % meth)
    pos = [a.arg for a in fn.args.args[1:]]
    reader = instance_reader(rep, cls, fl, ck)
    n = NP + (k == 3)
    for multi in itertools.product((True, False), repeat=k):
        if not any(multi):
            continue
        np_ = tuple(n if x else 1 for x in multi)
        allk = set(itertools.product(*[range(x) for x in np_]))
        for text, holes in (('', set()), ('with missing results', {t for i, t in enumerate(sorted(allk)) if i % 3 == 1})):
            keys = allk - holes
            values = {T('attr', SELF, 'npatch%d' % (i + 1)): x for i, x in enumerate(np_)}
            multis = {}
            idx = T('param', pos[0]) if pos else None
            if idx is not None:
                multis[idx] = [(x, sym('m_%d' % x)) for x in range(n)]
            sm = Small({SELF: 'd'}, {'d': keys}, values, multis, collect=reader)
            nm = '%s.%s npatch=%s %s' % (cls.name, meth, ','.join('n' if x else '1' for x in multi), text)
            try:
                if idx is None:
                    rows_ = sm_rows(sm, r, fl)
                    if len(rows_) != n:
                        ck.ob('selection', nm, False, 'selects %d times for %d patches' % (len(rows_), n), where)
                        continue
                    todo = list(enumerate(rows_))
                else:
                    todo = [(None, sm.enum_result(r, fl) if False else top_enum(sm, r[0], fl, {}))]
            except KeyError as e:
                ck.ob('selection', nm, False, 'uses %s, which does not exist' % e, where)
                continue
            except (Open, TypeError, IndexError) as e:
                dbg(nm, e)
                continue
            bad = None
            for i, got in todo:
                got = dict(merge(got))
                for t in sorted(keys | set(got), key=str):
                    w = expected(m, t, np_, i) if t in keys else poly.ZERO
                    g = got.get(t, poly.ZERO)
                    if not (g - w).is_zero():
                        bad = 'combination %s is used %s times instead of %s%s' % (
                            t, poly.text(g), poly.text(w), '' if i is None else ' in row %d' % i)
                        break
                if bad:
                    break
            ck.ob('selection', nm, bad is None, bad or '', where)


def merge(vs):
    out = {}
    for v, c in vs:
        out[v] = out.get(v, poly.ZERO) + c
    return out


def top_enum(sm, t, fl, env):
    return sm.enum(t, env)


def sm_rows(sm, r, fl):
    """[[(key, count)]] of a method that returns one selection for each patch"""
    t = r[0]
    while t.op == 'phi' and t.args[0].op != 'loop':
        t = t.args[1] if sm.truth(t.args[0], {}) else t.args[2]
    out = []
    if t.op == 'comp' and t.args[0] in ('list', 'gen'):
        for env, c in sm.gens(t.args[2], 0, {}):
            out += [sm.enum(t.args[1][0], env)] * int(c.const())
        return out
    if t.op in ('list', 'tuple'):
        return [sm.enum(x, {}) for x in t.args[0]]
    if t.op == 'phi':
        lid, it = t.args[0].args
        body, init = t.args[1], t.args[2]
        if init.op == 'list' and not init.args[0] and body.op == 'list' and len(body.args[0]) == 1:
            for v, c in sm.enum(it, {}):
                out.append(sm.enum(body.args[0][0], {T('elem', lid, it): v}))
            return out
    if t.op == 'call' and fname(t.args[0])[1] in ('list', 'tuple') and len(t.args[1]) == 1:
        return sm_rows(sm, (t.args[1][0],), fl)
    raise Open('rows of %s' % show(t)[:160])
