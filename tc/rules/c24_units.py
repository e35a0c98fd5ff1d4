"""C24: separations are converted between user and internal units once on the way in and once on the way out.

Unit inference (tc.dims) over the exit values of the constructors, the arguments of every compiled call, the values
returned or written, and the values handed to new catalogs.
"""
from ..common import *
from ..pyrepo import AnalysisBroken
from ..dims import Dims, m, ZERO, ANY, NIL, UNK, text
from ..cases import Pick, Open
from ..bind import table
from .c06_slots import collect, compiled_recv
from .c17_norm import finals, expected, is_unit_attr, accept, wtext, where
from .. import poly

PROP = 'C24'
OP = {'merge_config', 'get', 'get_from_list', 'setup_logger', 'parse_metric', 'coord_enum', 'metric_enum'}
BT2 = ('Log', 'Linear', 'TwoD')
BT3 = ('LogRUV', 'LogSAS', 'LogMultipole')
SEP = m(sep=-1)
LSEP = ('l', SEP[1])
PUBLIC = {'min_sep': SEP, 'max_sep': SEP, 'rnom': SEP, 'rnom1d': SEP, 'left_edges': SEP, 'right_edges': SEP,
          'bottom_edges': SEP, 'top_edges': SEP, 'dxnom': SEP, 'dynom': SEP, 'd2nom': SEP, 'd3nom': SEP,
          'logr': LSEP, 'logr1d': LSEP, 'logd2': LSEP, 'logd3': LSEP,
          '_min_sep': ZERO, '_max_sep': ZERO, '_bin_size': ZERO, 'b': ZERO, 'bu': ZERO, 'bv': ZERO,
          'min_u': ZERO, 'max_u': ZERO, 'ubin_size': ZERO, 'phi1d': ZERO, 'phi': ZERO, 'angle_slop': ZERO,
          'bin_slop': ZERO, '_sep_units': m(sep=1), '_log_sep_units': ('l', m(sep=1)[1]), '_phi_units': m(phi=1)}
ARRAYS = {'mean'}


def config_key(t):
    """(key, default term) of a read of a configuration value"""
    if t.op == 'call':
        f, a, kw = t.args
        if f.op == 'attr' and f.args[1] == 'get' and a and a[0].is_const:
            return a[0].value, a[1] if len(a) > 1 else None
        if f.op == 'global' and str(f.args[0]).split('.')[-1] in ('get', 'get_from_list') and len(a) > 1 and a[1].is_const:
            i = 3 if str(f.args[0]).endswith('.get') or f.args[0] == 'get' else 4
            return a[1].value, a[i] if len(a) > i else None
    if t.op == 'idx' and t.args[1].is_const and isinstance(t.args[1].value, str):
        return t.args[1].value, None
    return None, None


def bt_cond(bt):
    def isbt(y):
        if y.op == 'attr':
            return y.args[1] == 'bin_type'
        return config_key(y)[0] == 'bin_type'

    def cond(c):
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if x.is_const and isinstance(x.value, str) and isbt(y):
                    return (x.value == bt) == (c.args[0] == '==')
        if c.op == 'in' or (c.op == 'cmp' and c.args[0] in ('in', 'not in')):
            a, b = c.args[-2:]
            if b.op in ('list', 'tuple', 'set') and isbt(a):
                vs = [x.value for x in b.args[0] if x.is_const]
                return (bt in vs) == (c.args[0] != 'not in')
        return None
    return cond


def init_dims(bt):
    keys = {'min_sep': SEP, 'max_sep': SEP, 'min_phi': m(phi=-1), 'max_phi': m(phi=-1),
            'bin_size': SEP if bt in ('Linear', 'TwoD') else ZERO}
    un = {'sep_units': m(sep=1), 'phi_units': m(phi=1)}

    def env(t):
        k, dflt = config_key(t)
        if isinstance(k, str):
            if k in un:
                return un[k]
            if k in keys:
                s = {keys[k]}
                if dflt is not None:
                    s |= d.dims(dflt)
                return s
            return ZERO
        return None
    d = Dims(env, bt_cond(bt))
    return d


def bad_of(d):
    seen = set()
    for t, msg in d.bad:
        if msg not in seen:
            seen.add(msg)
            yield t, msg


def spec(ck, cls):
    """{bin type: {attribute: set of dims}} of the specification after construction; judged"""
    fl = Flow(cls.repo, maxdepth=7, opaque=OP)
    r = fl.run_method(cls, '__init__')
    if r is None:
        raise AnalysisBroken('__init__ of %s has no normal exit' % cls.name)
    ck.saw_flow(fl)
    ro = r[1].heap.get((SELF, '_ro'))
    out = {}
    wh = where(cls, '__init__')
    for bt in (BT3 if cls.issub('Corr3') else BT2):
        d = init_dims(bt)
        tab = {}
        for (o, a), v in r[1].heap.items():
            if o is ro or o == ro or (o is SELF and not a.startswith('_')):
                tab[a] = d.dims(v)
        out[bt] = tab
        for a, want in sorted(PUBLIC.items()):
            got = tab.get(a)
            if got is None or got <= {UNK, NIL}:
                continue
            bad = [x for x in got if x not in (want, ANY, UNK, NIL)]
            ck.ob('specification', '%s %s %s' % (cls.name, bt, a), not bad,
                  'has %s but should be in %s' % (' or '.join(text(x) for x in bad), text(want)), wh)
        for t, msg in bad_of(d):
            ck.ob('specification', '%s %s' % (cls.name, bt), False, '%s in %s' % (msg, show(t)[:160]), wh)
    return out


def method_dims(cls, tab, bt, params=None, extra=None):
    params = params or {}

    def env(t):
        if extra:
            r = extra(t)
            if r is not None:
                return r
        if t.op == 'attr':
            o, a = t.args
            if o is SELF or (o.op == 'attr' and o.args[1] == '_ro' and o.args[0] is SELF):
                if a in tab:
                    return tab[a]
        if t.op == 'param' and t.args[0] in params:
            return params[t.args[0]]
        return None
    return Dims(env, bt_cond(bt))


PARAMS = {'min_sep': SEP, 'max_sep': SEP, 'R': SEP}


def check(ck):
    rep = repo()
    ck.rule('specification', 'the binning specification holds user units under the public names, internal units under the '
            'underscored ones, and never mixes the two', 80)
    ck.rule('compiled', 'every separation handed to compiled code or used as a limit of tree sizes is in internal units', 400)
    ck.rule('reported', 'every mean separation reported after finalize() is converted to user units once (logarithms by a '
            'subtraction), nothing else is', 900)
    ck.rule('sampled', 'the separations returned for sampled pairs are in user units', 1)
    ck.rule('angle', 'trigonometric functions are applied to angles in radians', 4)
    ck.rule('catalog', 'positions given with units are converted by the unit of their own column exactly once, and '
            'converted back by it when they are written', 12)
    ck.rule('derived', 'catalogs made from the positions of another catalog, and patch files, declare those positions to '
            'be in radians', 6)
    specs = {}
    by_init = {}
    for cls in corr_leaves(rep):
        # classes that share their constructor code share the specification
        key = tuple(c.name for c in cls.mro if '__init__' in c.methods)[-1:]
        if key not in by_init:
            by_init[key] = spec(ck, cls)
        specs[cls.name] = by_init[key]
    compiled(ck, rep, specs)
    sizes(ck, rep, specs)
    reported(ck, rep)
    sampled(ck, rep, specs)
    angles(ck, rep, specs)
    catalog(ck, rep)
    derived(ck, rep)


def users(rep, dc):
    return [c for c in corr_leaves(rep) if dc in c.mro]


def compiled(ck, rep, specs):
    tab = table()
    for e, b, label in collect(_Quiet(), rep, tab):
        cn = label.split('.')[0].split(' ')[0]
        dc = rep.classes.get(cn)
        if dc is None or not dc.mro or not any(x.name in ('Corr2', 'Corr3') for x in dc.mro):
            continue
        leaf = dc if dc.name in specs else (users(rep, dc) or [None])[0]
        if leaf is None:
            continue
        for bt, ro in specs[leaf.name].items():
            d = method_dims(leaf, ro, bt, PARAMS)
            for p, a in zip(b.params, e.args):
                got = d.dims(a)
                if got <= {UNK, NIL}:
                    continue
                bad = [x for x in got if x not in (ZERO, ANY, UNK, NIL)]
                ck.ob('compiled', '%s %s argument %s' % (label, bt, p.name), not bad,
                      '%s is passed in %s' % (show(a)[:80], ' or '.join(text(x) for x in bad)), e.where)
            for t, msg in bad_of(d):
                ck.ob('compiled', '%s %s' % (label, bt), False, '%s in %s' % (msg, show(t)[:160]), e.where)


class _Quiet:
    def saw_flow(self, f):
        pass


def sizes(ck, rep, specs):
    seen = set()
    for cls in corr_leaves(rep):
        dc, fn = cls.find('_get_minmax_size', 'methods')
        if fn is None or dc in seen:
            continue
        seen.add(dc)
        fl = Flow(rep, maxdepth=3)
        r = fl.run_method(cls, '_get_minmax_size')
        ck.saw_flow(fl)
        for bt, ro in specs[cls.name].items():
            d = method_dims(cls, ro, bt)

            def elems(t):
                if t.op == 'phi':
                    k = d.known(t.args[0])
                    if k is not None:
                        return elems(t.args[1] if k else t.args[2])
                    return elems(t.args[1]) + elems(t.args[2])
                return list(t.args[0]) if t.op in ('tuple', 'list') else [t]
            for i, x in enumerate(elems(r[0])):
                got = d.dims(x)
                bad = [y for y in got if y not in (ZERO, ANY, UNK, NIL)]
                ck.ob('compiled', '%s cell size limit %s #%d' % (dc.name, bt, i), not bad,
                      'is in %s' % ' or '.join(text(y) for y in bad), where(cls, '_get_minmax_size'))
            for t, msg in bad_of(d):
                ck.ob('compiled', '%s cell size limits %s' % (dc.name, bt), False,
                      '%s in %s' % (msg, show(t)[:160]), where(cls, '_get_minmax_size'))


def has_unit(p):
    return '_units' in poly.text(p)


def reported(ck, rep):
    for f in finals(rep):
        ck.saw_flow(f.fl)
        for case in f.cases():
            for a in f.acc:
                if not f.present(a, case.bt):
                    continue
                want = expected(case, a)
                if want is None:
                    continue
                got, prob = f.value(case, a)
                if got is None:
                    continue       # judged by C17
                c = '%s %s %s' % (f.cls.name, case.text(), a)
                ws = want if isinstance(want, tuple) else (want,)
                if is_unit_attr(case, a):
                    ck.ob('reported', c, accept(got, want),
                          'is %s, expected %s' % (poly.text(got)[:120], wtext(want)[:120]), where(f.cls, 'finalize'))
                else:
                    ck.ob('reported', c, not has_unit(got), 'is scaled by a unit: %s' % poly.text(got)[:120],
                          where(f.cls, 'finalize'))


def sampled(ck, rep, specs):
    tab = table()
    seen = set()
    for cls in corr_leaves(rep, 'Corr2'):
        dc, fn = cls.find('sample_pairs', 'methods')
        if fn is None or dc in seen:
            continue
        seen.add(dc)
        fl = Flow(rep, maxdepth=4)
        r = fl.run_method(cls, 'sample_pairs')
        ck.saw_flow(fl)
        outs = {}
        for e in fl.events:
            if e.kind == 'call' and e.name == 'samplePairs':
                b = tab.of_call(e)
                for p, a in zip(b.params if b else (), e.args):
                    if 'sep' in p.name and 'array' in p.type:
                        outs[a] = ZERO
        if not outs:
            raise AnalysisBroken('the array sampled separations are returned in is not found')
        for bt, ro in specs[cls.name].items():
            d = method_dims(cls, ro, bt, PARAMS, lambda t: outs.get(t))
            pk = Pick(lambda c: None)
            t = r[0]
            items = t.args[0] if t.op in ('tuple', 'list') else []
            hit = False
            for x in items:
                if made_of(x, outs):
                    hit = True
                    got = d.dims(x)
                    bad = [y for y in got if y not in (SEP, UNK)]
                    ck.ob('sampled', '%s.sample_pairs %s' % (dc.name, bt), not bad and SEP in got,
                          'returned in %s' % ' or '.join(text(y) for y in bad), where(cls, 'sample_pairs'))
            if not hit:
                ck.ob('sampled', '%s.sample_pairs %s' % (dc.name, bt), False, 'the sampled separations are not returned',
                      where(cls, 'sample_pairs'))


def made_of(x, outs):
    if x in outs:
        return True
    if x.op == 'phi':
        return made_of(x.args[1], outs) or made_of(x.args[2], outs)
    if x.op in ('idx', 'upd', 'copyof'):
        return made_of(x.args[0], outs)
    if x.op == 'bin':
        return made_of(x.args[1], outs) or made_of(x.args[2], outs)
    if x.op == 'call' and x.args[0].op == 'attr':
        return made_of(x.args[0].args[0], outs) or any(made_of(a, outs) for a in x.args[1])
    return False


TRIG = {'sin', 'cos', 'tan', 'exp'}


def mentions_phi(fn):
    return any(isinstance(x, ast.Attribute) and x.attr in ('meanphi', 'meanu', 'phi', 'phi1d', 'min_phi', 'max_phi',
                                                           'phi_bin_size') for x in ast.walk(fn))


def angles(ck, rep, specs):
    """trigonometric functions of angles, in every method that reads one"""
    for cls in sorted(set(corr_leaves(rep, 'Corr3')) | {rep.classes['Corr3']}, key=lambda c: c.name):
        for nm, fn in sorted(cls.methods.items()):
            if nm in ('__init__', '_apply_units', '_undo_units') or not mentions_phi(fn):
                continue
            leaf = cls if cls.name in specs else users(rep, cls)[0]
            fl = Flow(rep, maxdepth=3)
            fl.run_method(leaf, nm)
            ck.saw_flow(fl)
            ro = specs[leaf.name]['LogSAS']

            def extra(t):
                if t.op == 'attr' and t.args[1] in ('meanphi', 'meanu'):
                    return m(phi=-1)
                if t.op == 'attr' and t.args[1] in ('phi', 'phi1d', 'min_phi', 'max_phi', '_phi_units', 'phi_bin_size',
                                                    'min_u', 'max_u', 'ubin_size'):
                    return PUBLIC.get(t.args[1], ZERO)
                if t.op == 'attr' and t.args[1] in ('n', 'n1d', 'max_n', 'nubins'):
                    return ZERO
                return None
            d = method_dims(leaf, ro, 'LogSAS', PARAMS, extra)
            seen = set()
            for e in fl.events:
                for root in event_terms(e):
                    for t in subterms(root):
                        if t in seen or t.op != 'call':
                            continue
                        seen.add(t)
                        f, a, kw = t.args
                        if f.op == 'attr' and f.args[1] in TRIG and a and f.args[0].op == 'global':
                            n = len(d.bad)
                            got = d.dims(a[0])
                            bad = [y for y in got if y[0] == 'm' and any(k == 'phi' for k, v in y[1])]
                            if got <= {UNK} and len(d.bad) == n and not any(
                                    s.op == 'attr' and s.args[1] in ('meanphi', 'meanu', 'phi', 'phi1d')
                                    for s in subterms(a[0])):
                                continue
                            ck.ob('angle', '%s.%s %s' % (cls.name, nm, show(t)[:60]), not bad,
                                  'angle in %s' % ' or '.join(text(y) for y in bad), e.where)


def event_terms(e):
    if e.kind == 'call':
        return list(e.args) + list(dict(e.kw).values()) + ([e.recv] if e.recv is not None else [])
    return [v for v in e.data.values() if isinstance(v, T)]


POS = ('x', 'y', 'ra', 'dec')


def cat_units_env(t):
    """dims of catalog inputs: position columns in the units given for them"""
    k, dflt = config_key(t)
    if isinstance(k, str) and k.endswith('_units') and k[:-6] in POS and t.op == 'call':
        s = {m(**{k[:-6]: 1})}
        return s
    if t.op == 'param' and t.args[0] in POS:
        return m(**{t.args[0]: -1})
    if t.op == 'attr' and t.args[1].endswith('_units') and t.args[1][:-6] in POS:
        return m(**{t.args[1][:-6]: 1})
    if t.op == 'idx':
        k, dflt = config_key(t.args[1])
        if isinstance(k, str) and k.endswith('_col') and k[:-4] in POS:
            return m(**{k[:-4]: -1})
    if t.op == 'call' and t.args[0].op in ('global', 'closure'):
        for a in t.args[1]:
            k, dflt = config_key(a)
            if isinstance(k, str) and k.endswith('_eval') and k[:-5] in POS:
                return m(**{k[:-5]: -1})
    return None


def catalog(ck, rep):
    cat = rep.classes['Catalog']
    op = OP | {'parse_file_type', '_finish_input', 'read_patch_centers', 'math_eval', '_check_file', '_set_npatch'}
    for nm in ('__init__', '_read_file'):
        fl = Flow(rep, maxdepth=8, opaque=op)
        r = fl.run_method(cat, nm)
        ck.saw_flow(fl)
        if r is None:
            raise AnalysisBroken('%s of Catalog has no normal exit' % nm)

        def cond(c):
            # the default column '0' stands for an absent column
            return None
        for a in POS:
            v = r[1].heap.get((SELF, '_' + a))
            if v is None:
                raise AnalysisBroken('Catalog._%s is not set by %s' % (a, nm))
            nones = {'file_name': True, 'patch': True, 'patch_centers': True, 'npatch': True}
            nones.update((q, q not in (('ra', 'dec', 'r') if a in ('ra', 'dec', 'r') else ('x', 'y', 'z'))) for q in POS)
            d = Dims(cat_units_env, nones=nones if nm == '__init__' else None)
            got = d.dims(v)
            bad = [x for x in got if x not in (ZERO, ANY, NIL, UNK)]
            ck.ob('catalog', 'Catalog.%s _%s' % (nm, a), not bad and ZERO in got,
                  'is left in %s' % (' or '.join(text(x) for x in bad) or 'units that are not converted'), where(cat, nm))
            for t, msg in bad_of(d):
                ck.ob('catalog', 'Catalog.%s _%s' % (nm, a), False, '%s in %s' % (msg, show(t)[:160]), where(cat, nm))
    # write
    fl = Flow(rep, maxdepth=4, opaque=OP | {'load', 'make_writer'})
    fl.run_method(cat, 'write')
    ck.saw_flow(fl)
    done = 0
    for e in fl.events:
        if e.kind != 'call' or e.name != 'write' or len(e.args) < 2:
            continue
        for absent in (('_ra', '_dec', '_r'), ()):
            def decide(c):
                if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE and c.args[1].op == 'attr' and \
                        c.args[1].args[0] is SELF:
                    return c.args[1].args[1] in absent
                return None
            pk = Pick(decide, default=True)
            names, cols = pk.items(e.args[0]), pk.items(e.args[1])
            if names is None or cols is None:
                continue
            for n, c in zip(names, cols):
                n = pk.top(n)
                if not n.is_const:
                    continue
                want = m(**{n.value: -1}) if n.value in POS else ZERO
                d = Dims(lambda t: ZERO if t.op == 'attr' and t.args[0] is SELF and not t.args[1].endswith('_units')
                         else cat_units_env(t))
                got = d.dims(pk.top(c))
                bad = [x for x in got if x not in (want, UNK)] if n.value in POS else \
                    [x for x in got if x[0] == 'm' and x[1]]
                done += n.value in POS
                ck.ob('catalog', 'Catalog.write %s (%s)' % (n.value, 'x,y' if absent else 'ra,dec'), not bad,
                      'is written in %s instead of %s' % (' or '.join(text(x) for x in bad), text(want)), e.where)
    if done < 4:
        raise AnalysisBroken('the position columns written by Catalog.write are not found')


RAD = ('rad', 'radians', 'radian', 'radi')


def derived(ck, rep):
    """positions of an existing catalog are in radians: catalogs made from them must say so"""
    sites = 0
    for c in sorted(rep.classes.values(), key=lambda c: c.name):
        for nm, fn in sorted(c.methods.items()):
            if not any(isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in ('Catalog', 'cls')
                       for x in ast.walk(fn)):
                continue
            fl = Flow(rep, maxdepth=3, opaque={'load', '_read_file', '_finish_input', 'setup_logger', 'merge_config'})
            fl.run_method(c, nm)
            ck.saw_flow(fl)
            for e in fl.events:
                if e.kind != 'call' or e.name != 'Catalog' or dict(e.kw).get('config') is not None:
                    continue
                for pre in ('ra', 'x'):
                    kws = call_kw(e, pre)
                    if kws is None:
                        continue
                    isfile = 'file_name' in kws or (e.args and len(e.args) > 0)
                    for a, b in (('ra', 'dec'),) if pre == 'ra' else (('x', 'y'),):
                        has = (a in kws and kws[a] is not NONE) or (a + '_col' in kws)
                        if not has:
                            continue
                        sites += 1
                        for q in (a, b):
                            u = kws.get(q + '_units')
                            if u is None:
                                ok = q in ('x', 'y')
                                msg = 'positions in radians are passed as %s without %s_units' % (q, q)
                            else:
                                ok = u.is_const and str(u.value) in RAD
                                msg = 'positions in radians are passed as %s with %s_units=%s' % (q, q, show(u)[:60])
                            ck.ob('derived', '%s.%s %s' % (c.name, nm, q) + (' (file)' if isfile else ''), ok, msg, e.where)
    # files of patches are read without units: they must be written so
    cat = rep.classes['Catalog']
    for kind, attrs in (('ra,dec', ('ra_units', 'dec_units')), ('x,y', ('x_units', 'y_units'))):
        fl = Flow(rep, maxdepth=2, opaque={'get_patches', 'get_patch_file_names'})
        fl.run_method(cat, 'write_patches')
        ck.saw_flow(fl)
        writes = [e for e in fl.events if e.kind == 'call' and e.name == 'write' and e.recv is not None]
        if not writes:
            raise AnalysisBroken('write_patches does not write patches')
        for e in writes:
            pos = list(fl.events).index(e)
            p = e.recv
            val = {}
            for s in list(fl.events)[:pos]:
                if s.kind == 'store' and s.data['obj'] == p:
                    if same_branch(s, e):
                        val[s.data['attr']] = s.data['value']
            # which positions the path writes
            side = branch_of(e)
            if side is not None and side != kind:
                continue
            ck.ob('derived', 'Catalog.write_patches (%s)' % kind,
                  all(a in val and val[a].is_const and val[a].value == 1 for a in attrs),
                  'a patch is written in its own units but read back in radians', e.where)


def same_branch(s, e):
    """the store happens on every path that reaches e"""
    ps, pe = conj(s), conj(e)
    return ps <= pe


def conj(e):
    out = set()
    for c in e.guards:
        out.add(c)
    return out


def branch_of(e):
    """'ra,dec' or 'x,y' if the path says whether ra is None"""
    for c in conj(e):
        pos = True
        if isinstance(c, tuple):
            c, pos = c
        if c.op == 'not':
            c, pos = c.args[0], not pos
        if c.op == 'cmp' and c.args[0] in ('is', 'is not') and c.args[2] is NONE:
            x = c.args[1]
            if c.args[0] == 'is not':
                pos = not pos
            n = show(x)
            if n.endswith(('.ra', '._ra', '.dec', '._dec')):
                return 'x,y' if pos else 'ra,dec'
            if n.endswith(('.x', '._x')):
                return 'ra,dec' if pos else 'x,y'
    return None


def call_kw(e, pre):
    """constant-key keyword arguments of a call, in the case that positions are given as `pre`"""
    other = ('_ra', 'ra', '_dec', 'dec', '_r', 'r') if pre == 'x' else ()

    def decide(c):
        if c.op == 'cmp' and c.args[0] in ('is', 'is not') and c.args[2] is NONE:
            x = c.args[1]
            n = x.args[1] if x.op == 'attr' else None
            if n is not None and (n in other):
                return c.args[0] == 'is'
            if n is not None and n.lstrip('_') in ('x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'k'):
                return c.args[0] != 'is'
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            for y in c.args[1:]:
                k, dflt = config_key(y)
                if isinstance(k, str) and k.endswith('_col'):
                    return (k[:-4] in [o.lstrip('_') for o in other]) == (c.args[0] == '==')
        return None
    pk = Pick(decide, default=True)
    out = {}
    for k, v in dict(e.kw).items():
        if k == '**':
            d = pk.dict(v)
            if d is None:
                d = loop_dict(pk, v)
            if d is None:
                return None
            out.update(d)
        else:
            out[k] = pk.top(v)
    return out


def loop_dict(pk, v):
    return None
