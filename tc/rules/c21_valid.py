"""C21: invalid combinations of inputs are refused before results change.

The constructors and the checks they call are interpreted once, which gives every error with the condition under
which it is raised.  The conditions are then decided for small universes of combinations (which columns are given,
which are in the file, which sign and order the numbers have, how long the arrays are): for every combination the
documentation rules out an error must certainly be raised, and for every combination it allows no error may
certainly be raised.  Results must not be stored before an error that depends on the inputs.
"""
import itertools

from ..common import *
from ..pyrepo import AnalysisBroken
from ..world import World, Num, Arr, Known, Unk, stops

PROP = 'C21'
POS = Num(1)
BIG = 10 ** 9
SCALARS = ('w', 'wpos', 'flag', 'k', 'patch')
FIELDS = 'zvgtq'


def check(ck):
    rep = repo()
    arrays(ck, rep)
    columns(ck, rep)
    bins2(ck, rep)
    bins3(ck, rep)
    metrics(ck, rep)
    adding(ck, rep)
    order(ck, rep)


def judge(ck, rule, what, want, world, evs, where):
    """want: must some error be raised in this combination?"""
    s, e = stops(world, evs)
    if want:
        ck.ob(rule, what + ('' if s != 'unknown' else ' (undecided)'), s != 'no',
              'nothing refuses %s' % what, where)
    else:
        ck.ob(rule, what + ('' if s != 'unknown' else ' (undecided)'), s != 'yes',
              '%s is valid but refused: %s' % (what, show(e.value)[:100] if e is not None and s == 'yes' else ''),
              where)


def raises(fl):
    return [e for e in fl.events if e.kind == 'raise']


# ------------------------------------------------------------------------------------------------ catalog arrays

def params_of(cls, name):
    fn = cls.method(name)[1]
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def arrays(ck, rep):
    cls = rep.cls('Catalog')
    keep = ('merge_config', 'setup_logger', '_check_file', '_finish_input', '_set_npatch', 'makeArray',
            '_apply_xyz_units', '_apply_radec_units', 'read_patch_centers', 'parse_file_type', 'get_from_list',
            'get', '_pandas_warning', 'load')
    fl = Flow(rep, opaque=keep, prop_opaque=('patches', 'field'))
    if fl.run_method(cls, '__init__', None) is None:
        raise AnalysisBroken('Catalog.__init__ could not be interpreted')
    ck.saw_flow(fl)
    evs = raises(fl)
    names = params_of(cls, '__init__')
    cols = ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'flag', 'k', 'patch'] + \
        [f + i for f in FIELDS for i in '12']
    cols = [c for c in cols if c in names]
    if len(cols) < 12:
        raise AnalysisBroken('the columns of Catalog.__init__ were not found')
    ck.rule('columns-given', 'a catalog made from arrays needs one complete set of positions and both partners of '
            'every two-component field, and refuses contradictory positions', 20)
    ck.rule('lengths', 'every array given has as many elements as the positions', 12)
    ck.rule('units-given', 'units are required for ra and dec and refused without the coordinates they belong to', 6)
    ck.rule('rows', 'impossible row ranges and patch settings are refused', 5)

    def world(have, lens=None, cfg=None, **more):
        p = {n: None for n in names if n != 'self'}
        p['num'] = 0
        p['is_rand'] = False
        for c in have:
            p[c] = Arr(c, (lens or {}).get(c, 5))
        p.update(more)
        d = {}
        if 'ra' in have or 'dec' in have:
            d = {'ra_units': 'deg', 'dec_units': 'deg'}
        d.update(cfg or {})
        w = World(p, d, exc=True)
        return w

    W = 'Catalog.__init__'

    def text(have, more=''):
        return ('arrays ' + ','.join(have) if have else 'no arrays') + more

    base = [c for c in ('x', 'y', 'ra', 'dec', 'z', 'r') if c in cols]
    for n in range(len(base) + 1):
        for have in itertools.combinations(base, n):
            h = set(have)
            for xyz in (False, True):
                flat, sky = {'x', 'y'} <= h, {'ra', 'dec'} <= h
                bad = not flat and not sky or ('x' in h) != ('y' in h) or ('ra' in h) != ('dec' in h)
                bad = bad or not xyz and flat and (h & {'ra', 'dec', 'r'})
                bad = bad or 'z' in h and not flat
                if not bad and 'r' in h and not sky:
                    continue            # r without ra, dec: only possible with allow_xyz; not documented
                judge(ck, 'columns-given', text(have, ' allow_xyz' if xyz else ''), bool(bad),
                      world(have, cfg={'allow_xyz': xyz}), evs, W)
    for pos in (('x', 'y'), ('ra', 'dec')):
        for f in FIELDS:
            for have in ((), (f + '1',), (f + '2',), (f + '1', f + '2')):
                judge(ck, 'columns-given', text(pos + have), len(have) == 1, world(pos + have), evs, W)
        for c in cols:
            if c in ('x', 'y', 'ra', 'dec'):
                continue
            if c == 'r' and pos == ('x', 'y') or c == 'z' and pos == ('ra', 'dec'):
                continue
            have = pos + ((c,) if c[-1] not in '12' else (c[:-1] + '1', c[:-1] + '2'))
            judge(ck, 'lengths', text(have), False, world(have), evs, W)
            every = pos + tuple(x for x in cols if x not in ('x', 'y', 'ra', 'dec', 'r', 'z')) + \
                (('z',) if 'x' in pos else ('r',))
            for n in (4, 6):
                judge(ck, 'lengths', text(have, ' with %s of another length' % c), True,
                      world(have, {c: n}), evs, W)
                judge(ck, 'lengths', 'all arrays with %s, %s of another length' % (pos[0], c), True,
                      world(every, {c: n}), evs, W)
        judge(ck, 'lengths', 'all arrays with ' + pos[0], False, world(every), evs, W)
        for i in (0, 1):
            judge(ck, 'lengths', text(pos, ' with %s of another length' % pos[i]), True,
                  world(pos, {pos[i]: 4}), evs, W)
        judge(ck, 'lengths', text(pos, ' of zero length'), True, world(pos, {p: 0 for p in pos}), evs, W)
    # arrays in addition to a file
    for c in cols:
        judge(ck, 'columns-given', 'a file name and array ' + c, True,
              world((c,), file_name='file'), evs, W)
    # units
    sky = ('ra', 'dec')
    for u in ('ra_units', 'dec_units'):
        cfg = {u: None}
        w = world(sky)
        del w.config.d[u]
        judge(ck, 'units-given', 'arrays ra,dec without ' + u, True, w, evs, W)
        judge(ck, 'units-given', 'arrays x,y with ' + u, True, world(('x', 'y'), cfg={u: 'deg'}), evs, W)
    judge(ck, 'units-given', 'arrays ra,dec with their units', False, world(sky), evs, W)
    judge(ck, 'units-given', 'arrays x,y with x_units and y_units', False,
          world(('x', 'y'), cfg={'x_units': 'deg', 'y_units': 'deg'}), evs, W)
    for u in ('x_units', 'y_units'):
        judge(ck, 'units-given', 'arrays x,y with only ' + u, True, world(('x', 'y'), cfg={u: 'deg'}), evs, W)
        judge(ck, 'units-given', 'arrays ra,dec with ' + u, True, world(sky, cfg={u: 'deg'}), evs, W)
    # rows and patches
    xy = ('x', 'y')
    for d, bad in (({'first_row': 0}, True), ({'first_row': -1}, True), ({'first_row': 1}, False),
                   ({'first_row': 5, 'last_row': 4}, True), ({'first_row': 5, 'last_row': 5}, False),
                   ({'every_nth': 0}, True), ({'every_nth': 3}, False),
                   ({'npatch': 0}, True), ({'npatch': -2}, True), ({'npatch': 3}, False)):
        judge(ck, 'rows', 'arrays x,y with ' + ', '.join('%s=%s' % i for i in d.items()), bad,
              world(xy, cfg=d), evs, W)
    judge(ck, 'rows', 'a patch array together with patch_centers', True,
          world(xy + ('patch',), patch_centers=Known('centers')), evs, W)
    judge(ck, 'rows', 'patch_col together with patch_centers', True,
          world(xy, patch_centers=Known('centers'), cfg={'patch_col': 'p'}), evs, W)


# --------------------------------------------------------------------------------------------------- file columns

def columns(ck, rep):
    cls = rep.cls('Catalog')
    if cls.method('_check_file')[1] is None:
        raise AnalysisBroken('Catalog._check_file not found')
    fl = Flow(rep, opaque=('get_from_list', 'isKColRequired', 'isZColRequired', 'isVColRequired',
                           'isGColRequired', 'isTColRequired', 'isQColRequired'))
    fl.run_method(cls, '_check_file', None)
    ck.saw_flow(fl)
    evs = raises(fl)
    W = 'Catalog._check_file'
    ck.rule('file-positions', 'a catalog file needs one complete set of position columns that are in the file', 20)
    ck.rule('file-pairs', 'both components of a field are named, by column or expression, or neither; the columns '
            'named are in the file', 60)
    ck.rule('file-columns', 'every column named is in the file', 8)
    ck.rule('file-required', 'a column a statistic needs is refused when it is not named', 5)

    def world(cfg, need=''):
        names = [v for v in cfg.values() if isinstance(v, str) and v.startswith('in_')]

        def hook(w, t):
            if t.op == 'call':
                f = t.args[0]
                n = f.args[1] if f.op == 'attr' else f.args[0] if f.op == 'global' else ''
                if isinstance(n, str) and n.endswith('ColRequired'):
                    return (n == 'is%sColRequired' % need.upper(),)
                if n == 'names':
                    return (names,)
            return None
        p = {'file_name': 'file', 'reader': Known('reader'), 'num': 0, 'is_rand': False}
        return World(p, dict(cfg), hook=hook)

    STATES = {'': {}, 'column': {'col': 'in'}, 'missing column': {'col': 'out'}, 'expression': {'eval': 1},
              'column and expression': {'col': 'in', 'eval': 1}}

    def cfg(c, s):
        d = {}
        if 'col' in STATES[s]:
            d[c + '_col'] = '%s_%s' % (STATES[s]['col'], c)
        if 'eval' in STATES[s]:
            d[c + '_eval'] = 'expr'
        return d

    xy = {'x_col': 'in_x', 'y_col': 'in_y'}
    for f in FIELDS:
        for a, b in itertools.product(STATES, STATES):
            d = dict(xy, **cfg(f + '1', a))
            d.update(cfg(f + '2', b))
            bad = bool(a) != bool(b) or 'missing' in a or 'missing' in b
            judge(ck, 'file-pairs', '%s1 by %s and %s2 by %s' % (f, a or 'nothing', f, b or 'nothing'), bad,
                  world(d), evs, W)
    three = ('', 'column', 'missing column', 'expression')
    for a, b in itertools.product(three, three):
        for p, q in (('x', 'y'), ('ra', 'dec')):
            d = cfg(p, a)
            d.update(cfg(q, b))
            miss = 'missing' in a or 'missing' in b
            bad = not a or not b
            if miss and not bad and 'expression' in (a, b):
                continue            # found when the column is read
            judge(ck, 'file-positions', '%s by %s and %s by %s' % (p, a or 'nothing', q, b or 'nothing'),
                  bad or miss, world(d), evs, W)
    sky = {'ra_col': 'in_ra', 'dec_col': 'in_dec'}
    for extra in ('ra_col', 'dec_col', 'r_col', 'ra_eval', 'dec_eval', 'r_eval'):
        for xyz in (False, True):
            if xyz and not extra.startswith('r_'):
                continue
            if xyz:
                continue
            judge(ck, 'file-positions', 'x_col, y_col and ' + extra, True,
                  world(dict(xy, **{extra: 'in_' + extra})), evs, W)
    judge(ck, 'file-positions', 'all position columns with allow_xyz', False,
          world(dict(xy, z_col='in_z', r_col='in_r', allow_xyz=True, **sky)), evs, W)
    for extra in ('z_col', 'z_eval'):
        judge(ck, 'file-positions', 'ra_col, dec_col and ' + extra, True,
              world(dict(sky, **{extra: 'in_z'})), evs, W)
    for pos, cs in ((xy, ('z',) + SCALARS), (sky, ('r',) + SCALARS)):
        for c in cs:
            for s in ('column', 'missing column', 'expression'):
                judge(ck, 'file-columns', '%s with %s by %s' % (','.join(pos), c, s), 'missing' in s,
                      world(dict(pos, **cfg(c, s))), evs, W)
    for f in 'k' + FIELDS:
        cs = ('k',) if f == 'k' else (f + '1', f + '2')
        judge(ck, 'file-required', 'no %s column where a statistic needs it' % f, True, world(xy, need=f), evs, W)
        d = dict(xy)
        for c in cs:
            d.update(cfg(c, 'expression'))
        judge(ck, 'file-required', '%s by expression where a statistic needs it' % f, False,
              world(d, need=f), evs, W)


# ------------------------------------------------------------------------------------------------------------ bins

def built(ck, rep, base, extra=()):
    cls = rep.cls(base)
    fl = Flow(rep, opaque=('merge_config', 'setup_logger', 'get') + extra)
    if fl.run_method(cls, '__init__', None) is None:
        raise AnalysisBroken('%s.__init__ could not be interpreted' % base)
    ck.saw_flow(fl)
    return raises(fl)


def binworld(cfg):
    def hook(w, t):
        if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'get' and len(t.args[1]) > 1:
            k = t.args[1][1]
            if k.is_const and isinstance(k.value, str) and k.value.endswith('_units'):
                return (1.,)
        if t.op == 'attr' and t.args[1] == 'max' and t.args[0].op == 'attr' and t.args[0].args[1] == 'float_info':
            return (Num(1, BIG),)
        return None
    return World({'config': None, 'logger': None, 'rng': None}, cfg, hook=hook)


def spec(vals):
    return ', '.join('%s %s' % (k, v if isinstance(v, (Num, str)) else v) for k, v in vals.items()) or 'nothing'


RADIAL = ('min_sep', 'max_sep', 'nbins', 'bin_size')


def radial(ck, rule, evs, bts, more, W):
    good = {'min_sep': Num(1, 1), 'max_sep': Num(1, 2), 'nbins': POS, 'bin_size': POS}
    for bt in bts:
        for n in range(5):
            for have in itertools.combinations(RADIAL, n):
                h = set(have)
                if bt == 'TwoD':
                    m = h - {'min_sep'}
                    bad = len(m) != 2 if 'min_sep' not in h else len(m) != 2
                else:
                    bad = len(h) != 3
                d = {k: good[k] for k in have}
                judge(ck, rule, '%s with %s' % (bt, ', '.join(have) or 'no bin settings'), bad,
                      binworld(dict(d, bin_type=bt, **more.get(bt, {}))), evs, W)
                if bad:
                    continue
                for k in have:
                    for v in (Num(0, 0), Num(-1, -1)):
                        if k == 'min_sep' and v.sign == 0 and bt in ('Linear', 'TwoD'):
                            want = False
                        else:
                            want = True
                        judge(ck, rule, '%s with %s and %s %s' % (bt, ', '.join(have), k, v), want,
                              binworld(dict(d, bin_type=bt, **dict(more.get(bt, {}), **{k: v}))), evs, W)
                if {'min_sep', 'max_sep'} <= h:
                    for lo in (2, 3):
                        judge(ck, rule, '%s with %s and min_sep %s max_sep' % (
                            bt, ', '.join(have), 'equal to' if lo == 2 else 'above'), True,
                            binworld(dict(d, bin_type=bt, **dict(more.get(bt, {}), min_sep=Num(1, lo)))), evs, W)


def bins2(ck, rep):
    evs = built(ck, rep, 'Corr2')
    W = 'Corr2.__init__'
    ck.rule('bins-2pt', 'an under- or over-specified, non-positive or reversed two-point binning is refused, every '
            'complete one accepted', 40)
    radial(ck, 'bins-2pt', evs, ('Log', 'Linear', 'TwoD'), {}, W)
    d = {'min_sep': Num(1, 1), 'max_sep': Num(1, 2), 'nbins': POS, 'bin_type': 'Log'}
    for lo, hi, bad in ((2, 1, True), (1, 2, False), (1, None, False), (None, 1, False)):
        e = dict(d)
        if lo:
            e['min_rpar'] = Num(1, lo)
        if hi:
            e['max_rpar'] = Num(1, hi)
        judge(ck, 'bins-2pt', 'min_rpar %s max_rpar %s' % (lo, hi), bad, binworld(e), evs, W)


def bins3(ck, rep):
    evs = built(ck, rep, 'Corr3')
    W = 'Corr3.__init__'
    ck.rule('bins-3pt', 'an under- or over-specified, non-positive, reversed or inapplicable three-point binning is '
            'refused, every complete one accepted', 60)
    mult = {'LogMultipole': {'max_n': POS}}
    radial(ck, 'bins-3pt', evs, ('LogRUV', 'LogSAS', 'LogMultipole'), mult, W)
    base = {'min_sep': Num(1, 1), 'max_sep': Num(1, 2), 'nbins': POS}
    own = {'LogRUV': [('u', ('min_u', 'max_u', 'nubins', 'ubin_size')), ('v', ('min_v', 'max_v', 'nvbins', 'vbin_size'))],
           'LogSAS': [('phi', ('min_phi', 'max_phi', 'nphi_bins', 'phi_bin_size'))], 'LogMultipole': []}
    every = sorted({k for l in own.values() for _, ks in l for k in ks})
    for bt, groups in own.items():
        d0 = dict(base, bin_type=bt, **mult.get(bt, {}))
        mine = [k for _, ks in groups for k in ks]
        for k in every + ['max_n']:
            if k in mine or k == 'max_n' and bt in mult or k == 'max_n' and bt == 'LogSAS':
                continue
            judge(ck, 'bins-3pt', '%s with %s' % (bt, k), True, binworld(dict(d0, **{k: POS})), evs, W)
        for name, (lo, hi, n, s) in groups:
            # inside the allowed range: concrete values below 1 (and below pi)
            good = {lo: 0.25, hi: 0.5, n: POS, s: POS}
            for m in range(5):
                for have in itertools.combinations((lo, hi, n, s), m):
                    bad = len(have) == 4
                    judge(ck, 'bins-3pt', '%s with %s' % (bt, ', '.join(have) or 'no settings of ' + name), bad,
                          binworld(dict(d0, **{k: good[k] for k in have})), evs, W)
            for k, v in ((n, 0), (n, -1), (s, 0.), (s, -0.5), (lo, -0.25), (hi, 1.5 if bt == 'LogRUV' else 3.5)):
                d = {k: v}
                judge(ck, 'bins-3pt', '%s with %s %s' % (bt, k, v), True, binworld(dict(d0, **d)), evs, W)
            for a, b in ((0.5, 0.25), (0.5, 0.5)):
                judge(ck, 'bins-3pt', '%s with %s %s and %s %s' % (bt, lo, a, hi, b), True,
                      binworld(dict(d0, **{lo: a, hi: b})), evs, W)
    d0 = dict(base, bin_type='LogMultipole')
    judge(ck, 'bins-3pt', 'LogMultipole without max_n', True, binworld(d0), evs, W)
    judge(ck, 'bins-3pt', 'LogMultipole with max_n -1', True, binworld(dict(d0, max_n=-1)), evs, W)
    judge(ck, 'bins-3pt', 'LogMultipole with max_n 0', False, binworld(dict(d0, max_n=0)), evs, W)


# --------------------------------------------------------------------------------------------------------- metrics

METRICS = ('Euclidean', 'Arc', 'Rperp', 'OldRperp', 'FisherRperp', 'Rlens', 'Periodic', 'Bogus')
COORDS = ('flat', 'spherical', '3d')


def bad_pair(m, cs):
    """documented: which metric and coordinates go together; returns (refused, resulting coordinates)"""
    first, rest = cs[0], [c for c in cs[1:] if c is not None]
    auto = cs[1] is None if len(cs) > 1 else True
    if m == 'Bogus':
        return True, None
    c = first
    if not auto:
        if m == 'Rlens':
            rest = ['3d' if x == 'spherical' else x for x in rest]
        if m == 'Arc':
            if 'flat' in [c] + rest:
                return True, None
            c = '3d' if all(x == '3d' for x in [c] + rest) else 'spherical'
        elif any(x != c for x in rest):
            return True, None
    if m in ('Rperp', 'OldRperp', 'FisherRperp', 'Rlens') and c != '3d':
        return True, None
    if m == 'Rlens' and auto or m == 'Arc' and c == 'flat' or m == 'Periodic' and c == 'spherical':
        return True, None
    return False, c


def metrics(ck, rep):
    ck.rule('metric-2pt', 'a metric, coordinate system or option that does not fit the others is refused when two '
            'points are correlated', 60)
    ck.rule('metric-3pt', 'the same for three points', 40)
    for base, rule in (('Corr2', 'metric-2pt'), ('Corr3', 'metric-3pt')):
        cls = corr_leaves(rep, base)[0]
        dc, fn = cls.method('_set_metric')
        if fn is None:
            raise AnalysisBroken('%s._set_metric not found' % base)
        fl = Flow(rep, opaque=('get',))
        fl.run_method(cls, '_set_metric', None)
        ck.saw_flow(fl)
        evs = raises(fl)
        ps = [p for p in params_of(cls, '_set_metric') if p != 'self']
        where = dc.name + '._set_metric'
        nc = 2 if base == 'Corr2' else 3

        def hook(w, t):
            if t.op == 'attr' and t.args[1] == 'max' and t.args[0].op == 'attr' and \
                    t.args[0].args[1] == 'float_info':
                return (Num(1, BIG),)
            if t.op == 'attr' and t.args[0].op == 'attr' and t.args[0].args[1] == '_ro' and \
                    t.args[1] in w.attrs:
                return (w.attrs[t.args[1]],)
            return None

        def world(m, cs, **kw):
            a = {'min_rpar': Num(-1, -BIG), 'max_rpar': Num(1, BIG), 'bin_type': 'Log', 'sep_units': '',
                 'xperiod': 0, 'yperiod': 0, 'zperiod': 0, 'coords': None, 'metric': None}
            a.update(kw)
            p = dict(zip(ps, [m] + list(cs) + [None] * 3))
            return World(p, {}, attrs=a, hook=hook)

        per = {'xperiod': Num(1, 5), 'yperiod': Num(1, 6), 'zperiod': Num(1, 7)}
        combos = list(itertools.product(COORDS, (None,) + COORDS))
        if nc == 3:
            combos = [(a, None, None) for a in COORDS] + list(itertools.product(COORDS, COORDS, COORDS))
        for m in METRICS:
            for cs in combos:
                bad, c = bad_pair(m, cs)
                if nc == 3 and m not in ('Euclidean', 'Arc', 'Periodic'):
                    bad = True
                kw = per if m == 'Periodic' else {}
                what = 'metric %s for %s' % (m, ' and '.join(x for x in cs if x))
                judge(ck, rule, what, bad, world(m, cs, **kw), evs, where)
                if bad:
                    continue
                bare = tuple(cs)
                if m == 'Periodic':
                    for k in per:
                        if k == 'zperiod' and c != '3d':
                            continue
                        judge(ck, rule, what + ' without ' + k, True, world(m, bare, **dict(per, **{k: 0})), evs,
                              where)
                else:
                    for k in per:
                        judge(ck, rule, what + ' with ' + k, True, world(m, bare, **{k: per[k]}), evs, where)
                if nc == 2:
                    for k in ('min_rpar', 'max_rpar'):
                        judge(ck, rule, what + ' with ' + k, c != '3d', world(m, bare, **dict(kw, **{k: Num(1, 3)})),
                              evs, where)
                    judge(ck, rule, what + ' and bin_type TwoD', c != 'flat' or m != 'Euclidean',
                          world(m, bare, **dict(kw, bin_type='TwoD')), evs, where)
                    judge(ck, rule, what + ' with sep_units', c == '3d' and m != 'Arc',
                          world(m, bare, **dict(kw, sep_units='arcmin')), evs, where)


# ---------------------------------------------------------------------------------------------------------- adding

BIN2 = {'Log': ('nbins', 'min_sep', 'max_sep'), 'Linear': ('nbins', 'min_sep', 'max_sep'),
        'TwoD': ('nbins', 'min_sep', 'max_sep')}
BIN3 = {'LogRUV': ('nbins', 'min_sep', 'max_sep', 'nubins', 'min_u', 'max_u', 'nvbins', 'min_v', 'max_v'),
        'LogSAS': ('nbins', 'min_sep', 'max_sep', 'nphi_bins', 'min_phi', 'max_phi'),
        'LogMultipole': ('nbins', 'min_sep', 'max_sep', 'max_n')}
ALIAS = {'nphi_bins': 'nubins', 'min_phi': 'min_u', 'max_phi': 'max_u', 'max_n': 'nubins'}


def adding(ck, rep):
    ck.rule('adding', 'correlation objects of different kind or binning are refused when added', 40)
    for base, kinds in (('Corr2', BIN2), ('Corr3', BIN3)):
        done = set()
        for cls in corr_leaves(rep, base):
            dc, fn = cls.method('__iadd__')
            if fn is None:
                raise AnalysisBroken('%s has no __iadd__' % cls.name)
            if id(fn) in done:
                continue
            done.add(id(fn))
            fl = Flow(rep, opaque=('_set_metric', 'get'))
            fl.run_method(cls, '__iadd__', None)
            ck.saw_flow(fl)
            evs = raises(fl)
            for bt, names in kinds.items():
                all_names = set().union(*kinds.values())
                common = {n: Num(1, 10 + i) for i, n in enumerate(sorted(all_names | {
                    '_nbins', 'bin_size', 'ubin_size', 'vbin_size', 'phi_bin_size', '_min_sep', '_max_sep',
                    '_bin_size'}))}
                common.update({k: common[v] for k, v in ALIAS.items() if v in common})

                def world(diff, other_bt=bt, same=True, other=99):
                    o = dict(common)
                    for k in diff:
                        o[k] = Num(1, other)
                        for a, b in ALIAS.items():
                            if k == a:
                                o[b] = o[k]
                    if 'nbins' in diff:
                        o['_nbins'] = Num(1, other)
                    mine = dict(common, bin_type=bt, coords='flat', metric='Euclidean', sep_units='', _sep_units=1,
                                phi_units='', _phi_units=1)
                    oth = dict(o, bin_type=other_bt, coords='flat', metric='Euclidean', sep_units='', _sep_units=1,
                               phi_units='', _phi_units=1)

                    def hook(w, t):
                        if t.op == 'attr':
                            b, a = t.args
                            r = b
                            if b.op == 'attr' and b.args[1] == '_ro':
                                r = b.args[0]
                            if r.op == 'param' and r.args[0] in ('self', 'other'):
                                d = mine if r.args[0] == 'self' else oth
                                return (d[a],) if a in d else None
                        if t.op == 'call' and t.args[0].op in ('global', 'builtin') and \
                                t.args[0].args[0] == 'isinstance':
                            return (same,)
                        return None
                    return World({'self': Known('self'), 'other': Known('other')}, {}, hook=hook)

                w = '%s.__iadd__' % dc.name
                ck_name = '%s %s' % (base if len(corr_leaves(rep, base)) > 1 else cls.name, bt)
                judge(ck, 'adding', ck_name + ' and an equal one', False, world(()), evs, w)
                judge(ck, 'adding', ck_name + ' and an object of another class', True, world((), same=False), evs, w)
                for n in names:
                    for v, more in ((99, 'larger'), (1, 'smaller')):
                        judge(ck, 'adding', '%s and one with a %s %s' % (ck_name, more, n), True,
                              world((n,), other=v), evs, w)
                for other in kinds:
                    if other != bt:
                        judge(ck, 'adding', '%s and one with bin_type %s' % (ck_name, other), True,
                              world((), other_bt=other), evs, w)


# ----------------------------------------------------------------------------------------------------------- order

HEAVY = ('_process_all_auto', '_process_all_cross', '_process_all_cross12', 'estimate_cov', 'copy', 'finalize',
         '_calculateVar1', '_calculateVar2', '_calculateVar3', 'get_patches', 'toSAS', 'write', 'get', 'merge_config',
         'parse_metric', 'coord_enum', 'metric_enum', '_set_metric', '_set_num_threads', 'setup_logger')
SETTINGS = ('coords', 'metric', '_coords', '_metric', 'logger', '_rng', 'config')


def excluded(g1, g2):
    """two guard lists that cannot both hold"""
    s = set(g1)
    return any((g, not b) in s for g, b in g2)


def order(ck, rep):
    ck.rule('before-changes', 'an error about the arguments is raised before results are cleared or stored', 15)
    seen = set()
    for cls in corr_leaves(rep):
        for meth in sorted({n for k in cls.mro for n in k.methods}):
            if meth.startswith('_') and meth != '__iadd__' or meth.startswith('read') or meth.startswith('write') or \
                    meth in ('from_file', 'estimate_cov', 'build_cov_design_matrix', 'copy'):
                continue
            dc, fn = cls.method(meth)
            key = (dc.name, meth)
            if key in seen or fn is None:
                continue
            if not any(isinstance(x, ast.Raise) for k in cls.mro if meth in k.methods
                       for x in ast.walk(k.methods[meth])):
                if 'Xi' not in meth and 'Zeta' not in meth and not meth.startswith('process'):
                    continue
            seen.add(key)
            fl = Flow(rep, opaque=tuple(h for h in HEAVY if h != meth))
            if fl.run_method(cls, meth, None) is None:
                continue
            ck.saw_flow(fl)
            changes = []
            for e in fl.events:
                if e.kind == 'store' and e.obj is SELF and e.attr not in SETTINGS and not e.attr.startswith('_ok'):
                    changes.append((e, 'self.%s is replaced' % e.attr))
                elif e.kind == 'call' and e.name in ('clear', '_clear') and e.data['fn'].op == 'attr' and \
                        e.data['fn'].args[0] is SELF:
                    changes.append((e, 'the results are cleared'))
                elif e.kind == 'setitem':
                    if rooted(e):
                        changes.append((e, 'results are overwritten'))
                elif e.kind == 'raise':
                    if not about_args(e):
                        continue
                    bad = [m for c, m in changes if not excluded(c.guards, e.guards)]
                    ck.ob('before-changes', '%s.%s: %s' % (cls.name, meth, show(e.value)[:60]), not bad,
                          '%s before this error is raised' % (bad[0] if bad else ''), e.where)


def rooted(e):
    o = e.recv
    while isinstance(o, T) and o.op in ('attr', 'idx', 'call'):
        if o.op == 'call' and not (o.args[0].op == 'attr' and o.args[0].args[1] in ('ravel', 'reshape', 'view')):
            return False
        o = o.args[0]
    return o is SELF


def about_args(e):
    return any(x.op == 'param' for g, b in e.guards for x in subterms(g))
