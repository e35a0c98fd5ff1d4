"""C07: results written to a file read back as the same quantities.

Columns: the lists of column names and column values of every class are read for each bin type (and each choice of
randoms) as terms; the values a reader stores are composed with the column written under the same name and compared, in
normal form, with the attribute itself.  Headers, patch results, covariances and the three file formats are matched the
same way: every record and header entry read is one written, under the same name, from the same object.
"""
from ..common import *
from ..pyrepo import AnalysisBroken, params_of
from ..cases import Pick, Open
from ..pyflow import subst
from ..elem import Elem, Undecided, fname
from .. import poly
from ..poly import sym
from .c02_merge import ONLY, live, allocated, Parts
from .c24_units import bt_cond, BT2, BT3

PROP = 'C07'
DATA, PARAMS = T('param', 'data'), T('param', 'params')
VIEW = {'flatten', 'ravel', 'reshape', 'copy', 'astype', 'squeeze', 'tolist', 'strip', 'rstrip', 'lstrip'}


def dbg(*a):
    import os
    if os.environ.get('TC_DEBUG'):
        print('  undecided', *[str(x)[:400] for x in a])


def check(ck):
    rep = repo()
    ck.rule('columns', 'column names and column values have the same number and no name is used twice', 20)
    ck.rule('round trip', 'what the reader stores in an attribute is, composed with the column or header entry written '
            'under that name, the attribute itself', 100)
    ck.rule('complete', 'every accumulated quantity, total, metric and coordinate system is restored by the reader', 100)
    ck.rule('records', 'every record and header entry the reader looks for is written under the same name, and patch '
            'results are stored under their own keys', 4)
    ck.rule('handed', 'every write method passes its options on to the shared writer, and randoms are written and read '
            'under the same names', 15)
    ck.rule('format', 'in each file format a column is stored and found under its own name, and arrays under the same '
            'name', 5)
    ck.rule('catalog', 'each column of a catalog file holds the attribute it is named for', 10)
    ck.rule('table', 'the columns of derived tables hold the documented statistics', 3)
    for cls in corr_leaves(rep):
        columns(ck, cls)
    for base in ('Corr2', 'Corr3'):
        cs = {c.name: c for c in corr_leaves(rep, base)}
        for n in ('KKCorrelation', 'NNCorrelation', 'KKKCorrelation', 'NNNCorrelation'):
            if n in cs:
                records(ck, rep, cs[n])
    for cls in corr_leaves(rep):
        handed(ck, cls)
    formats(ck, rep)
    catalog(ck, rep)
    tables(ck, rep)


# ---------------------------------------------------------------------- helpers
def where(cls, m, kind='methods'):
    dc, fn = cls.find(m, kind)
    return '%s:%d (%s)' % (cls.repo.where(dc.mod, fn).rsplit(':', 1)[0], fn.lineno, m) if fn is not None else cls.name


class Case:
    def __init__(self, cls, bt, given=None):
        self.cls, self.bt = cls, bt
        self.given = given          # (rr given, dr given, rd given, xi there) or None
        self.btc = bt_cond(bt)
        self.pick = Pick(self.decide)

    def decide(self, c):
        r = self.btc(c)
        if r is not None:
            return r
        if c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!=') and NONE in c.args[1:]:
            x = c.args[1] if c.args[2] is NONE else c.args[2]
            pos = c.args[0] in ('is', '==')
            r = self.isnone(x)
            if r is not None:
                return r == pos
        if c.op == 'call' and fname(c.args[0])[1] == 'hasattr':
            return self.has_xi()
        if c.op == 'attr':
            if c.args[1] == 'size' and c.args[0].op == 'attr' and c.args[0].args[0] is SELF:
                return c.args[0].args[1] in used(self.cls, self.bt)
            r = self.isnone(c)
            if r is not None:
                return not r
        if c.op == 'in' or (c.op == 'cmp' and c.args[0] == 'in'):
            a, b = c.args[-2:]
            if a.is_const and b.op == 'attr' and b.args[1] == 'names' and self.cols is not None:
                return a.value in self.cols
            if a.is_const and b is PARAMS and self.params is not None:
                return a.value in self.params
        return None
    cols = None
    params = None

    def has_xi(self):
        return bool(self.given and self.given[3])

    def isnone(self, x):
        if x.op == 'attr' and x.args[0] is SELF:
            n = x.args[1].split('_')[-1]
            if x.args[1].startswith('_write_'):
                if self.given:
                    k = roles(self.cls)
                    if n in k:
                        return not self.given[k.index(n)]
                return True
            if n in ('xi', 'zeta') and not x.args[1].startswith('_'):
                return not self.has_xi()
            if x.args[1].startswith(('_var', '_raw_var', 'var')):
                return False
        return None


def roles(cls):
    out = []
    for c in cls.mro:
        for n, fn in c.methods.items():
            if n == 'write':
                out = [p for p in params_of(fn)[0] + params_of(fn)[1] if set(p) <= set('rd') and len(p) > 1]
                if out:
                    return out
    return out


def cases(cls):
    bts = BT3 if cls.issub('Corr3') else BT2
    rl = roles(cls)
    for bt in bts:
        if not rl:
            yield Case(cls, bt)
        else:
            for g in [(0, 0, 0, 0), (0, 0, 0, 1)] + ([(1, 0, 0, 1), (1, 1, 0, 1), (1, 1, 1, 1), (1, 0, 1, 1)]
                                                     if bt != 'LogMultipole' else []):
                if cls.issub('Corr3') and g[1] != g[2]:
                    continue
                yield Case(cls, bt, g)


def cname(cs):
    s = cs.cls.name + ' ' + cs.bt
    if cs.given:
        g = [r for r, x in zip(roles(cs.cls), cs.given) if x]
        s += ' with ' + ','.join(g) if g else (' estimated' if cs.given[3] else '')
    return s


def pdict(pk, t):
    """the header as {key: term}, None standing for entries that are not known by name"""
    t = pk.top(t)
    if t.op == 'upd' and t.args[2] == '=':
        d = dict(pdict(pk, t.args[0]))
        k = pk.top(t.args[1])
        d[k.value if k.is_const else None] = t.args[3]
        return d
    d = pk.dict(t)
    return d if d is not None else {None: t}


def strip(t):
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in VIEW:
        t = t.args[0].args[0]
    while t.op == 'call' and fname(t.args[0])[0] == 'np' and fname(t.args[0])[1] in ('ravel', 'reshape', 'asarray',
                                                                                     'array') and t.args[1]:
        t = t.args[1][0]
    return t


def items(t, pk):
    """elements of a list term, also of a one-generator comprehension over a list"""
    t = pk.top(t)
    if t.op == 'comp' and t.args[0] in ('list', 'gen') and len(t.args[2]) == 1:
        g = t.args[2][0]
        if g.args[1].op == 'and' and not g.args[1].args[0]:
            it = items(g.args[0], pk)
            if it is not None:
                return [subst(t.args[1][0], {g.args[2]: x}) for x in it]
    if t.op == 'bin' and t.args[0] == '+':
        a, b = items(t.args[1], pk), items(t.args[2], pk)
        return None if a is None or b is None else a + b
    return pk.items(t)


CANON = {}


def canon(cls, name, bt):
    """the attribute a plain property reads"""
    k = (cls.name, name, bt)
    if k not in CANON:
        CANON[k] = name
        dc, fn = cls.prop(name)
        if fn is not None:
            fl = Flow(cls.repo, maxdepth=3)
            r = fl.run_method(cls, name, kind='props')
            if r is not None and isinstance(r[0], T):
                try:
                    v = Case(cls, bt).pick.top(r[0])
                    if v.op == 'attr' and v.args[0] is SELF:
                        CANON[k] = canon(cls, v.args[1], bt)
                except Open:
                    pass
    return CANON[k]


def element(cs, extra=None):
    """element-wise reading of arrays of the object in case cs"""
    def name(t, el):
        if extra is not None:
            r = extra(t, el)
            if r is not None:
                return r
        if t.op == 'attr' and t.args[0] is SELF:
            return sym(canon(cs.cls, t.args[1], cs.bt))
        if t.op == 'attr' and t.args[0].op == 'phi':
            b = cs.pick.top(t.args[0])
            if b.op != 'phi':
                return el.ev(T('attr', b, t.args[1]))
        if t.op == 'attr' and t.args[0].op == 'attr' and t.args[0].args[0] is SELF:
            return sym(t.args[0].args[1] + '.' + t.args[1])
        if t.op == 'idx' and t.args[1].is_const and isinstance(t.args[1].value, int) and t.args[0].op == 'call':
            return sym(show(t))
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in VIEW:
            return el.ev(strip(t))
        return None

    def cond(c, el):
        r = cs.decide(c)
        return r
    return Elem(cond, name)


# ---------------------------------------------------------------------- columns
VARS = ('varxi', 'varxip', 'varxim', 'varzeta', 'vargam0', 'vargam1', 'vargam2', 'vargam3', 'cov', 'corr')


def prop_terms(ck, cls, names, opaque):
    out = []
    for n in names:
        fl = Flow(cls.repo, maxdepth=6, prop_opaque=VARS, opaque=opaque)
        dc, fn = cls.prop(n)
        if fn is None:
            raise AnalysisBroken('%s has no %s' % (cls.name, n))
        r = fl.run_method(cls, n, kind='props')
        ck.saw_flow(fl)
        out.append(r[0] if r is not None else None)
    return out


def columns(ck, cls):
    names, data, params = prop_terms(ck, cls, ('_write_col_names', '_write_data', '_write_params'),
                                     ('calculateXi', 'calculateZeta', 'getWeight', 'getStat'))
    fl = Flow(cls.repo, maxdepth=6)
    r = fl.run_method(cls, '_read_from_data', {'data': DATA, 'params': PARAMS})
    ck.saw_flow(fl)
    if r is None:
        raise AnalysisBroken('%s._read_from_data has no normal exit' % cls.name)
    heap = {a: v for (o, a), v in r[1].heap.items() if o is SELF}
    wr, rd = where(cls, '_write_data', 'props'), where(cls, '_read_from_data')
    done = False
    for cs in cases(cls):
        who = cname(cs)
        try:
            cols = items(names, cs.pick)
            vals = items(data, cs.pick)
            pars = pdict(cs.pick, params)
        except Open as e:
            dbg(who, e)
            continue
        if cols is None or vals is None or not all(c.is_const for c in map(cs.pick.top, cols)):
            dbg(who, cols, vals)
            continue
        cols = [cs.pick.top(c).value for c in cols]
        done = True
        ck.ob('columns', who, len(cols) == len(vals) and len(set(cols)) == len(cols),
              '%d names for %d columns%s' % (len(cols), len(vals), '' if len(set(cols)) == len(cols) else
                                             ', a name is used twice'), wr)
        if len(cols) != len(vals):
            continue
        cs.cols = cols
        cs.params = pars if pars is not None and None not in pars else None
        el = element(cs, est_name(cls))
        written = {}
        for c, v in zip(cols, vals):
            try:
                written[c] = el.ev(strip(cs.pick.top(v)))
            except (Undecided, Open) as e:
                dbg(who, c, e)
                written[c] = None
        restored(ck, cs, who, heap, written, pars, wr, rd)
    if not done:
        dbg('no case of', cls.name)


def est_name(cls):
    """the estimate made while writing is the estimate of the object"""
    def name(t, el):
        if t.op == 'idx' and t.args[0].op == 'call' and t.args[1].is_const and t.args[1].value in (0, 1):
            k, n, r = fname(t.args[0].args[0])
            if n == 'calculateXi':
                return sym(('xi', 'varxi')[t.args[1].value])
            if n == 'calculateZeta':
                return sym(('zeta', 'varzeta')[t.args[1].value])
        return None
    return name


def restored(ck, cs, who, heap, written, pars, wr, rd):
    cls = cs.cls
    missing = []

    def name(t, el):
        if t.op == 'idx' and t.args[0] is DATA and t.args[1].is_const:
            c = t.args[1].value
            if c not in written:
                missing.append(c)
                raise Undecided('column %s' % c)
            if written[c] is None:
                raise Undecided('column %s not read' % c)
            return written[c]
        p = param_read(t, cs)
        if p is not None and pars is not None:
            key, dflt = p
            if key in pars:
                return el.ev(pars[key])
        return None
    el = element(cs, name)
    got = set()
    for a, v in sorted(heap.items()):
        if a in ('results', '_cov', '_ok'):
            continue
        del missing[:]
        v = top(cs, v)
        if v is None or v is NONE or v.op == 'absent':
            continue
        if a in ('coords', 'metric') or (strip(v).op in ('idx', 'call') and param_read(strip(v), cs)):
            if pars is None:
                continue
            p = param_read(strip(v), cs)
            if p is None:
                continue
            key, dflt = p
            got.add(a)
            if key not in pars:
                if None in pars and key in record_keys(cls):
                    continue
                # only written with patch results, then a default is needed
                ck.ob('round trip', '%s %s' % (who, a), dflt is not None and key in record_keys(cls),
                      'is read from the header entry %s, which is never written' % key, rd)
                continue
            w = strip(top(cs, pars[key]) or pars[key])
            if w.op == 'call' and fname(w.args[0])[1] in ('str', 'bool', 'int', 'float') and w.args[1]:
                w = w.args[1][0]
            ok = w.op == 'attr' and w.args[0] is SELF and canon(cls, w.args[1], cs.bt) == canon(cls, a, cs.bt)
            ck.ob('round trip', '%s %s' % (who, a), ok, 'is read from the header entry %s, which holds %s' %
                  (key, show(w)[:60]), rd)
            continue
        try:
            p = el.ev(v)
        except (Undecided, Open) as e:
            if missing:
                ck.ob('round trip', '%s %s' % (who, a), False, 'is read from column %s, which is not written' %
                      missing[0], rd)
            else:
                dbg(who, a, e, show(v)[:200])
            continue
        want = sym(canon(cls, a, cs.bt))
        if v is T('attr', SELF, a) or (v.op == 'attr' and v.args[0] is SELF and v.args[1] == a):
            continue                # not restored in this case
        got.add(a)
        turned = [x for x in subterms(v) if x.op == 'attr' and x.args[1] in ('T', 'transpose', 'swapaxes') or
                  x.op == 'const' and x.args[0] == 'F' and not TURN]
        ok = poly.equal(p, want) and not turned
        if not ok:
            # a random-subtracted quantity stands for the raw one
            for x in rawof(cls, a, cs.bt):
                ok = ok or poly.equal(p, sym(x))
        if not ok and cs.given and a in ('_rr_weight',):
            continue
        ck.ob('round trip', '%s %s' % (who, a), ok, 'gets the column that holds %s' % poly.text(p)[:80], rd)
    need = sorted(used(cls, cs.bt)) + ['coords', 'metric']
    for a in need:
        ck.ob('complete', '%s %s' % (who, a), a in got or any(canon(cls, x, cs.bt) == a for x in got),
              'is not restored by the reader', rd)


TURN = False
KEYS = {}


def record_keys(cls):
    """header entries written by _write_params or _write in some case"""
    if cls.name not in KEYS:
        out = set()
        for m, kind in (('_write', 'methods'), ('_write_params', 'props')):
            fl = Flow(cls.repo, maxdepth=6, opaque=OPQ, prop_opaque=VARS)
            r = fl.run_method(cls, m, kind=kind)
            for e in fl.events:
                if e.kind == 'setitem' and e.key.is_const:
                    out.add(e.key.value)
            if r and kind == 'props':
                out |= set(keyset(r[0], {}))
        KEYS[cls.name] = out
    return KEYS[cls.name]


def stores_tot(cls):
    return 'tot' in used(cls, 'Log')


_US = {}


def used(cls, bt):
    """the accumulated quantities that exist for this kind of bins, and running totals"""
    if cls.name not in _US:
        _US[cls.name] = live(cls, [a for a in accumulators(cls) if a])
    init, tots = _US[cls.name]
    P = Parts(cls, bt)
    return {a for a, v in init.items() if bt in ONLY.get(a, (bt,)) and allocated(v, P) and
            not (a == 'meanu' and bt == 'LogMultipole')} | tots


def rawof(cls, a, bt):
    """names of the compensated quantities the raw attribute a stands behind"""
    out = []
    if a.startswith('_raw_'):
        out += [a[4:], a[5:], canon(cls, a[5:], bt), '_' + a[5:]]
    for c in cls.mro:
        for n in c.props:
            if n.startswith('raw_') and canon(cls, n, bt) == canon(cls, a, bt):
                out += [n[4:], '_' + n[4:], canon(cls, n[4:], bt)]
    if a.startswith('_var') or a.startswith('var'):
        out += [a.lstrip('_'), '_' + a.lstrip('_')]
    return out


def top(cs, v):
    try:
        v = cs.pick.top(v)
        while v.op == 'fill':
            v = cs.pick.top(v.args[0])
        s = strip(v)
        if s.op == 'phi' or s.op == 'fill':
            return top(cs, s)
        return v
    except Open:
        return None


def param_read(t, cs=None):
    """(header key, default term or None) of a read of a header entry"""
    t = strip(t)
    if t.op == 'phi' and cs is not None:
        # x or None
        if t.args[0] == t.args[1] and (t.args[2] is NONE):
            return param_read(t.args[1], cs)
        return None
    if t.op == 'idx' and is_params(t.args[0]) and t.args[1].is_const:
        return t.args[1].value, None
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'get' and is_params(t.args[0].args[0]) and \
            t.args[1] and t.args[1][0].is_const:
        return t.args[1][0].value, t.args[1][1] if len(t.args[1]) > 1 else NONE
    return None


def is_params(t):
    if t is PARAMS:
        return True
    if t.op == 'call':
        return fname(t.args[0])[1] == 'read_params'
    return t.op == 'phi' and any(is_params(x) for x in phi_leaves(t))


# ---------------------------------------------------------------------- records of one file
def template(t):
    """the constant text of a name built from parts, '*' for numbers and '{}' for the name of the object"""
    if t.is_const:
        return str(t.value)
    if t.op == 'phi':
        xs = {template(x) for x in (t.args[1], t.args[2])}
        xs.discard('None')
        if len(xs) == 1:
            return xs.pop()
        if xs == {'main', '{}'}:
            return '{}'
        return '|'.join(sorted(xs))
    if t.op == 'param' and t.args[0] == 'name':
        return '{}'
    if t.op == 'fstr':
        return ''.join(template(x) if x.is_const or isname(x) else '*' for x in t.args[0])
    if t.op == 'bin' and t.args[0] == '+':
        return template(t.args[1]) + template(t.args[2])
    if t.op == 'bin' and t.args[0] == '%' and t.args[1].is_const:
        return percent(t.args[1].value, t.args[2])
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'format' and t.args[0].args[0].is_const:
        out, i = '', 0
        for piece in re_split(t.args[0].args[0].value):
            if piece is None:
                x = t.args[1][i] if i < len(t.args[1]) else None
                i += 1
                out += template(x) if x is not None and (x.is_const or isname(x)) else '*'
            else:
                out += piece
        return out
    if t.op == 'call' and fname(t.args[0])[1] == 'str':
        return '*'
    return '*'


def re_split(s):
    import re
    out = []
    for p in re.split(r'(\{[^}]*\})', s):
        out.append(None if p.startswith('{') else p)
    return [x for x in out if x != '']


def percent(fmt, arg):
    import re
    args = list(arg.args[0]) if arg.op == 'tuple' and isinstance(arg.args[0], tuple) else [arg]
    i = 0
    out = ''
    for p in re.split(r'(%[-0-9.]*[a-zA-Z])', fmt):
        if p.startswith('%') and len(p) > 1:
            x = args[i] if i < len(args) else None
            i += 1
            out += template(x) if x is not None and (x.is_const or isname(x)) else '*'
        else:
            out += p
    return out


def isname(x):
    return all(l is NONE or l.is_const or (l.op == 'param' and l.args[0] == 'name') for l in phi_leaves(x))


OPQ = ('_read_from_data', 'copy', '_zero_copy', 'estimate_cov')
POPQ = VARS + ('_write_col_names', '_write_data', '_write_params')


def argof(e, i, name, dflt=None):
    if name in e.kw:
        return e.kw[name]
    return e.args[i] if i is not None and len(e.args) > i else dflt


def keyset(t, out):
    """header keys put into a params term: {template: value}"""
    if t.op == 'phi':
        keyset(t.args[1], out)
        keyset(t.args[2], out)
    elif t.op == 'upd' and t.args[2] == '=':
        keyset(t.args[0], out)
        out.setdefault(template(t.args[1]), []).append(t.args[3])
    elif t.op == 'dict':
        for x in t.args[0]:
            k, v = x if isinstance(x, tuple) else (x.args[0], x.args[1])
            if k is not None:
                out.setdefault(template(k), []).append(v)
    return out


def elem_of(t, part):
    """the loop element whose key (0) or value (1) t is"""
    t = strip(t)
    if t.op == 'idx' and t.args[1].is_const and t.args[1].value == part:
        return t.args[0]
    return None


def records(ck, rep, cls):
    wf = Flow(rep, maxdepth=3, opaque=OPQ, prop_opaque=POPQ)
    wf.run_method(cls, '_write')
    rf = Flow(rep, maxdepth=3, opaque=OPQ, prop_opaque=POPQ)
    rr = rf.run_method(cls, '_read')
    ck.saw_flow(wf)
    ck.saw_flow(rf)
    wr, rd = where(cls, '_write'), where(cls, '_read')
    who = cls.name
    tabs, arrays, keys = {}, {}, {}
    for e in wf.events:
        if e.kind != 'call':
            continue
        if e.name == 'write' and e.recv is T('param', 'writer'):
            ext = argof(e, 3, 'ext', NONE)
            cn, dt, pm = argof(e, 0, 'col_names'), argof(e, 1, 'columns'), argof(e, 2, 'params', NONE)
            t = template(ext)
            tabs.setdefault(t, []).append((e, cn, dt, pm))
            keys.setdefault(t, {})
            for k, v in keyset(pm, {}).items():
                keys[t].setdefault(k, []).extend(v)
        if e.name == 'write_array' and e.recv is T('param', 'writer'):
            arrays[template(argof(e, 1, 'ext', NONE))] = argof(e, 0, 'data')
    if not tabs:
        raise AnalysisBroken('%s._write writes no table' % who)
    # each table comes from one object, with that object's names, values and header
    for t, lst in sorted(tabs.items()):
        for e, cn, dt, pm in lst:
            owners = set()
            for x, a in ((cn, '_write_col_names'), (dt, '_write_data'), (pm, '_write_params')):
                for l in ([base_of(x)] if x is not None else []):
                    if l is not None and l.op == 'attr' and l.args[1] == a:
                        owners.add(l.args[0])
                    else:
                        owners.add(show(l)[:60] if l is not None else None)
            ck.ob('records', '%s table %s' % (who, t), len(owners) == 1 and all(isinstance(o, T) for o in owners),
                  'names, values and header come from different objects: %s' %
                  ', '.join(sorted(show(o)[:60] if isinstance(o, T) else str(o) for o in owners)), wr)
            for o in owners:
                if isinstance(o, T) and o is not SELF:
                    ks = keyset(pm, {}).get('key', [])
                    src = elem_of(o, 1)
                    ok = bool(ks)
                    for k in ks:
                        k = k.args[1][0] if k.op == 'call' and fname(k.args[0])[1] in ('repr', 'str') else k
                        ok = ok and src is not None and elem_of(k, 0) == src
                    if src is None:
                        # results[key] looked up
                        ok = bool(ks) and o.op == 'idx' and all(
                            (k.args[1][0] if k.op == 'call' else k) == o.args[1] for k in ks)
                    ck.ob('records', '%s key of %s' % (who, t), ok, 'the header does not hold the key of the result '
                          'that is written', wr)
    # reads
    nread = 0
    for e in rf.events:
        if e.kind != 'call':
            continue
        if e.name in ('read_data', 'read_params') and e.recv is T('param', 'reader'):
            t = template(argof(e, None, 'ext', NONE))
            nread += 1
            ck.ob('records', '%s %s %s' % (who, e.name, t), t in tabs, 'no such table is written (written: %s)' %
                  ', '.join(sorted(tabs)), rd)
        if e.name == 'read_array' and e.recv is T('param', 'reader'):
            t = template(argof(e, None, 'ext', NONE))
            nread += 1
            ck.ob('records', '%s read_array %s' % (who, t), t in arrays, 'no such array is written (written: %s)' %
                  ', '.join(sorted(arrays)), rd)
    if not nread:
        raise AnalysisBroken('%s._read reads nothing' % who)
    allkeys = set()
    for v in keys.values():
        allkeys |= set(v)
    allkeys |= {template(e.key) for e in wf.events if e.kind == 'setitem'}
    for k, where_ in sorted(header_reads(rf, rr).items()):
        if k in ('*',):
            continue
        ck.ob('records', '%s header %s' % (who, k), k in allkeys, 'is read but never written', rd)
    # attributes restored from the header are written with them
    fl = Flow(rep, maxdepth=6)
    r = fl.run_method(cls, '_read_from_data', {'data': DATA, 'params': PARAMS})
    for (o, a), v in (r[1].heap.items() if r else ()):
        if o is not SELF:
            continue
        for l in phi_leaves(v):
            p = param_read(strip(l)) if l.op in ('idx', 'call') else None
            if p is None or p[0] not in allkeys:
                continue
            for w in [x for kk in keys.values() for x in kk.get(p[0], [])]:
                w = base_of(strip(w))
                if w is not None and w.op == 'attr' and w.args[1] != a and w.args[1] != a.lstrip('_') and \
                        w.args[0] is SELF:
                    ck.ob('records', '%s header %s' % (who, p[0]), False, 'holds %s but is read into %s' %
                          (show(w)[:60], a), wr)
    numbering(ck, cls, wf, rf)
    sequential(ck, cls, wf, rf)
    # flags in the header are those of the attribute they are read into
    fp = Flow(rep, maxdepth=6, prop_opaque=VARS)
    p = fp.run_method(cls, '_write_params', kind='props')
    written = keyset(p[0], {}) if p else {}
    for (o, a), v in (r[1].heap.items() if r else ()):
        if o is not SELF:
            continue
        for l in phi_leaves(v):
            q = param_read(strip(l)) if l.op in ('idx', 'call') else None
            for w in (written.get(q[0], []) if q else []):
                attrs = {x.args[1] for x in subterms(w) if x.op == 'attr' and
                         (x.args[0] is SELF or x.args[0] == T('attr', SELF, '_ro'))} - {'_ro'}
                if len(attrs) == 1:
                    x = attrs.pop()
                    ck.ob('records', '%s header %s into %s' % (who, q[0], a), x.lstrip('_') == a.lstrip('_'),
                          'holds %s but is read into %s' % (show(w)[:60], a), wr)
    # patch results: read with the header of the same table and stored under the key in it
    ex = [e for e in rf.events if e.kind == 'setitem' and e.data.get('cell') and e.data['cell'][1] == 'results']
    for e in ex:
        calls = [c for c in rf.events if c.kind == 'call' and c.name == '_read_from_data' and c.recv == e.value]
        k = e.key
        if calls:
            pm = argof(calls[0], 1, 'params')
            dt = argof(calls[0], 0, 'data')
            ok = k.op == 'call' and fname(k.args[0])[1] in ('eval', 'literal_eval') and \
                param_read(k.args[1][0]) is not None and param_read(k.args[1][0])[0] == 'key' and \
                strip(k.args[1][0]).args[0] == pm
            ck.ob('records', '%s results' % who, ok, 'patch results are not stored under the key in their own header', rd)
            te, tp = ext_of(dt), ext_of(pm)
            ck.ob('records', '%s result header' % who, te is not None and te == tp,
                  'the header and the data of a patch result are read from different tables', rd)
        else:
            zk = [x for x in subterms(k) if x.op == 'idx' and x.args[1].is_const is False]
            dbg(who, 'zero results', show(k)[:200]) if not zk else None
    return


def offset(t):
    """(number of the first round, loop id) of a table number counting the rounds of a loop, or None"""
    if t.op == 'bin' and t.args[0] in '+-' and t.args[2].is_const:
        o = offset(t.args[1])
        d = t.args[2].value
        return o and (o[0] + (d if t.args[0] == '+' else -d), o[1])
    if t.op == 'bin' and t.args[0] == '+' and t.args[1].is_const:
        o = offset(t.args[2])
        return o and (o[0] + t.args[1].value, o[1])
    if t.op == 'loopv' and t.args[-1].is_const:
        return t.args[-1].value, 'loop'
    if t.op == 'elem' and t.args[-1].op == 'call' and fname(t.args[-1].args[0])[1] == 'range':
        a = t.args[-1].args[1]
        if len(a) == 1:
            return 0, 'range'
        return (a[0].value, 'range') if a[0].is_const else None
    if t.op == 'idx' and t.args[1].is_const and t.args[1].value == 0 and t.args[0].op == 'elem':
        z = t.args[0].args[-1]
        if z.op == 'call' and fname(z.args[0])[1] == 'enumerate':
            a = z.args[1]
            st = a[1] if len(a) > 1 else dict(z.args[2]).get('start', C(0))
            return (st.value, 'enum') if st.is_const else None
    return None


def number_of(t):
    """{template: (first number, kind)} of numbered table names in t"""
    out = {}
    for x in subterms(t):
        if x.op == 'bin' and x.args[0] == '%' and x.args[1].is_const and isinstance(x.args[1].value, str):
            a = x.args[2]
            a = a.args[0][0] if a.op == 'tuple' and len(a.args[0]) == 1 else a
            o = offset(a)
            if o:
                out[template(x)] = o
        elif x.op in ('fstr', 'joined', 'format'):
            for y in subterms(x):
                o = offset(y) if y.op in ('loopv', 'elem', 'idx', 'bin') else None
                if o:
                    out[template(x)] = o
    return out


def truth(c, env):
    """truth of a guard under an assignment of its atoms"""
    if c.is_const:
        return bool(c.value)
    if c.op == 'not':
        return not truth(c.args[0], env)
    if c.op in ('and', 'or'):
        xs = c.args[0] if isinstance(c.args[0], (list, tuple)) else c.args
        return (all if c.op == 'and' else any)([truth(x, env) for x in xs])
    if c.op == 'phi':
        return truth(c.args[1] if truth(c.args[0], env) else c.args[2], env)
    return env[unloop(c)]


def atoms(c, out):
    if c.is_const:
        return out
    if c.op == 'not':
        return atoms(c.args[0], out)
    if c.op in ('and', 'or'):
        for x in (c.args[0] if isinstance(c.args[0], (list, tuple)) else c.args):
            atoms(x, out)
        return out
    if c.op == 'phi':
        for x in c.args:
            atoms(x, out)
        return out
    out.add(unloop(c))
    return out


def unloop(c):
    if c.op == 'attr':
        return T('attr', T('result', 0), c.args[1]) if any(x.op == 'elem' for x in subterms(c)) else c
    return c


def over(t):
    """(condition on rounds, ok) of a loop over t: the filters of comprehensions it runs over"""
    while t.op == 'call' and fname(t.args[0])[1] in ('enumerate', 'list', 'tuple', 'sorted', 'iter') and t.args[1]:
        t = t.args[1][0]
    if t.op == 'comp' and len(t.args[2]) == 1:
        it, cond, var = t.args[2][0]
        return subst(cond, {var: T('elem', 0, it)}), over(it)[1]
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('items', 'keys', 'values'):
        t = t.args[0].args[0]
    return None, t.op == 'attr'


def isloop(g):
    return isinstance(g, T) and g.op == 'loop'


def numbering(ck, cls, wf, rf):
    """table numbers start alike on both sides; each result is written either as a table or in the header, and the
    numbers of tables and header entries in the header follow"""
    import itertools
    who, wr = cls.name, where(cls, '_write')
    wn, rn = {}, {}
    tabs, heads, counts = [], [], {}
    for fl, out in ((wf, wn), (rf, rn)):
        for e in fl.events:
            for v in list(e.data.values()):
                vs = list(v.values()) if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else [v]
                for x in vs:
                    if isinstance(x, T):
                        for k, o in number_of(x).items():
                            out.setdefault(k[k.find('_'):], set()).add(o[0])
    for k in sorted(set(wn) & set(rn)):
        ck.ob('records', '%s numbers of %s' % (who, k), wn[k] == rn[k], 'written from number %s but read from %s' %
              (sorted(wn[k]), sorted(rn[k])), wr)
    for e in wf.events:
        if e.kind == 'call' and e.name == 'write' and e.recv is T('param', 'writer'):
            ext = argof(e, 3, 'ext', NONE)
            if number_of(ext):
                tabs.append(e)
        if e.kind == 'setitem' and number_of(e.key):
            heads.append(e)
            v = e.value
            if v.op == 'call' and fname(v.args[0])[1] in ('repr', 'str'):
                v = v.args[1][0]
            if v.op == 'tuple' and len(v.args[0]) == 2:
                k, t = v.args[0]
                src = elem_of(k, 0)
                if src is not None:
                    ok = t.op == 'attr' and t.args[1] == 'tot' and elem_of(t.args[0], 1) == src
                    ck.ob('records', '%s empty result' % who, ok, 'the header does not hold the key of the result and '
                          'its tot: %s' % show(v)[:160], wr)
        if e.kind == 'setitem' and e.key.is_const and str(e.key.value).startswith(('num_patch', 'num_zero')):
            counts['num_zero_patch' if 'zero' in e.key.value else 'num_patch_pairs'] = e
    if not tabs or not heads:
        return
    gs = []
    ats = set()
    for e in (tabs[0], heads[0]):
        g = [(c, p) for c, p in e.guards if not isloop(c)]
        for c, p in e.guards:
            if isloop(c):
                f, known = over(c.args[-1])
                if not known:
                    dbg(who, 'loop over', show(c)[:200])
                    return
                if f is not None:
                    g.append((f, True))
        for c, p in g:
            atoms(c, ats)
        gs.append(g)
    ats = sorted(ats, key=show)
    kinds = {}
    for a in ats:           # several names of one flag: not a statement about the same result
        kinds.setdefault(a.args[1] if a.op == 'attr' else show(a), set()).add(a)
    if len(ats) > 6 or any(len(v) > 1 for v in kinds.values()):
        dbg(who, 'conditions', *[show(a) for a in ats])
        return
    wpr = T('param', 'write_patch_results')
    bad = []
    for vals in itertools.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, vals))
        if not env.get(wpr, True):
            continue
        a, b = (all(truth(c, env) == p for c, p in g) for g in gs)
        if a == b:
            bad.append(('both' if a else 'neither') + ' when ' + ', '.join(
                '%s%s' % ('' if v else 'not ', show(k)[:40]) for k, v in env.items()))
        for nm, ev in counts.items():
            st = step(ev.value, env)
            want = {'num_patch_pairs': -1 if b else 0, 'num_zero_patch': 1 if b else 0}[nm]
            if st is not None and st != want and all(truth(c, env) == p for c, p in ev.guards if not isloop(c) and
                                                      atoms(c, set()) <= set(ats)):
                bad.append('%s changes by %d when %s' % (nm, st, ', '.join(
                    '%s%s' % ('' if v else 'not ', show(k)[:40]) for k, v in env.items())))
    ck.ob('records', '%s each result once' % who, not bad, 'a patch result is written as table and header entry: %s' %
          '; '.join(bad[:2]), wr)


def sequential(ck, cls, wf, rf):
    """formats without named tables: the number of rows is recorded whenever something follows the data, and the name of
    the tables is known on reading whenever there are numbered ones"""
    import itertools
    who, wr, rd = cls.name, where(cls, '_write'), where(cls, '_read')
    outs = [e for e in wf.events if e.kind == 'call' and e.name in ('write', 'write_array') and
            e.recv is T('param', 'writer')]
    # headers, and the patch results that are read with the number of rows of the main table
    mains = [e for e in outs if not any(isloop(c) for c, p in e.guards) and e.name == 'write']
    after = [e for e in outs if e not in mains]
    rows = [e for e in wf.events if e.kind == 'setitem' and e.key.is_const and e.key.value == 'num_rows']
    used_ = [e for e in rf.events if e.kind == 'call' and e.name == 'read_data' and argof(e, None, 'max_rows', NONE) is not NONE]
    if rows and after and used_:
        flags = {T('param', 'write_patch_results'), T('param', 'write_cov')}
        bad = []
        for vals in itertools.product((False, True), repeat=2):
            env = dict(zip(sorted(flags, key=show), vals))

            def on(e):
                for c, p in e.guards:
                    if not isloop(c) and atoms(c, set()) <= flags and truth(c, env) != p:
                        return False
                return True
            if any(on(e) for e in after) and not any(on(e) for e in rows):
                bad.append(', '.join(('' if v else 'not ') + show(k) for k, v in env.items()))
        ck.ob('records', '%s number of rows' % who, not bad, 'is not recorded although more follows the data, when ' +
              '; '.join(bad), wr)
    for e in rf.events:
        if e.kind != 'call' and e.kind != 'setitem':
            continue
        loops = [c for c, p in e.guards if isloop(c)]
        if not loops or loops[-1].args[-1].op != 'call' or fname(loops[-1].args[-1].args[0])[1] != 'range':
            continue
        count = loops[-1].args[-1].args[1][-1]
        for v in [x for x in ([e.key] if e.kind == 'setitem' else list(e.kw.values()) + list(e.args)) if isinstance(x, T)]:
            for x in subterms(v):
                if x.op == 'bin' and x.args[0] == '+' and number_of(x.args[2]):
                    ok = named(x.args[1], count)
                    if ok is not None:
                        ck.ob('records', '%s name of %s' % (who, template(x)[template(x).find('_'):]), ok,
                              'without a named table the name may be None although there are numbered ones', rd)


def named(t, count):
    """whether name t is a string whenever count is not zero (None: not decided)"""
    class Unknown(Exception):
        pass

    def val(t, env):
        while t.op == 'phi':
            t = t.args[1] if cond(t.args[0], env) else t.args[2]
        return t

    def cond(c, env):
        if c == count:
            return True
        if c.is_const:
            return bool(c.value)
        if c.op == 'not':
            return not cond(c.args[0], env)
        if c.op in ('and', 'or'):
            xs = c.args[0] if isinstance(c.args[0], (list, tuple)) else c.args
            return (all if c.op == 'and' else any)([cond(x, env) for x in xs])
        if c.op == 'phi':
            return cond(c.args[1] if cond(c.args[0], env) else c.args[2], env)
        if c.op == 'cmp' and c.args[0] in ('is', 'is not') and c.args[2] is NONE:
            v = val(c.args[1], env)
            isn = v is NONE or v is T('param', 'name')
            return isn == (c.args[0] == 'is')
        if c.op == 'in' or (c.op == 'cmp' and c.args[0] in ('in', 'not in')):
            return env['in'] == (c.op == 'in' or c.args[0] == 'in')
        if c.op == 'call':
            return env['other']
        raise Unknown
    try:
        for a in (False, True):
            for b in (False, True):
                v = val(t, {'in': a, 'other': b})
                if v is NONE or v is T('param', 'name'):
                    return False
        return True
    except Unknown:
        return None


def step(t, env):
    """by how much a round of its loop changes a counter"""
    if t.op == 'phi':
        if isloop(t.args[0]):
            return None if t.args[1].op == 'loopv' else step(t.args[1], env)    # a plain loopv stands for any value
        try:
            return step(t.args[1] if truth(t.args[0], env) else t.args[2], env)
        except KeyError:
            return None
    if t.op == 'loopv':
        return 0
    if t.op == 'bin' and t.args[0] in '+-' and t.args[2].is_const:
        s = step(t.args[1], env)
        return None if s is None else s + (t.args[2].value if t.args[0] == '+' else -t.args[2].value)
    if t.is_const or t.op == 'call':
        return 0
    return None


def ext_of(t):
    if t is None or t.op != 'call':
        return None
    for k, v in t.args[2]:
        if k == 'ext':
            return v
    return None


def base_of(t):
    while t.op in ('upd', 'copyof') or (t.op == 'call' and fname(t.args[0])[1] in ('copy', 'dict') and t.args[1]):
        t = t.args[0] if t.op != 'call' else t.args[1][0]
    if t.op == 'phi':
        xs = {base_of(x) for x in (t.args[1], t.args[2])}
        return xs.pop() if len(xs) == 1 else t
    return t


def header_reads(fl, r):
    """{header key template} of all reads of header entries in the events of fl"""
    out = {}
    terms = []
    for e in fl.events:
        for k, v in e.data.items():
            if isinstance(v, T):
                terms.append(v)
            elif isinstance(v, (list, tuple)):
                terms += [x for x in v if isinstance(x, T)]
            elif isinstance(v, dict):
                terms += [x for x in v.values() if isinstance(x, T)]
    seen = set()
    for t in terms:
        for x in subterms(t, seen):
            if x.op == 'idx' and is_params(x.args[0]):
                out.setdefault(template(x.args[1]), x)
            elif x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' and \
                    is_params(x.args[0].args[0]) and x.args[1]:
                out.setdefault(template(x.args[1][0]), x)
    return out


# ---------------------------------------------------------------------- write methods
def handed(ck, cls):
    rep = cls.repo
    dc, fn = cls.find('write', 'methods')
    if fn is None:
        raise AnalysisBroken('%s has no write' % cls.name)
    _, wfn = cls.find('_write', 'methods')
    fl = Flow(rep, maxdepth=3, opaque=('_write', 'calculateXi', 'calculateZeta'), prop_opaque=POPQ)
    r = fl.run_method(cls, 'write')
    ck.saw_flow(fl)
    own = set(params_of(fn)[0] + params_of(fn)[1])
    if r is None:
        raise AnalysisBroken('%s.write has no normal exit' % cls.name)
    who = '%s.write' % cls.name
    wh = where(cls, 'write')
    exts = {}
    for e in fl.events:
        if e.kind == 'call' and e.name == '_write':
            b = fl.bind(wfn, e.args, e.kw, True)
            if b is None:
                continue
            ext = template(b.get('name', NONE))
            obj = e.recv
            if obj is not SELF:
                exts.setdefault(ext, []).append(obj)
            for p in ('write_patch_results', 'write_cov'):
                if p in own and (obj is SELF or p == 'write_patch_results'):
                    v = b.get(p)
                    ok = v is not None and (v is T('param', p) or (v is TRUE and any(
                        g == (T('param', p), True) for g in e.guards)))
                    ck.ob('handed', '%s %s %s' % (who, ext, p), ok, 'the writer gets %s' %
                          (show(v)[:40] if v is not None else None), wh)
            if stores_tot(cls):
                v = b.get('zero_tot')
                ck.ob('handed', '%s %s zero_tot' % (who, ext), v is TRUE, 'patch results that are zero are not recorded '
                      'with their totals', wh)
        if e.kind == 'call' and e.name == 'make_writer':
            f = rep.resolve_func(cls.mod, 'make_writer')
            b = None
            for m in rep.modules.values() if hasattr(rep, 'modules') else []:
                g = m.funcs.get('make_writer') if hasattr(m, 'funcs') else None
                if g is not None:
                    b = fl.bind(g, e.args, e.kw, False)
            if b is not None:
                for p in ('file_name', 'file_type'):
                    if p in own:
                        ck.ob('handed', '%s %s' % (who, p), b.get(p) is T('param', p), 'the file is opened with %s' %
                              show(b.get(p))[:40], wh)
    # the randoms: written as what they are, and read back into the same attribute
    if exts:
        rl = Flow(rep, maxdepth=3, opaque=('_read', 'copy'), prop_opaque=POPQ)
        dc, fn2 = cls.find('_do_read', 'methods')
        name = '_do_read' if fn2 is not None else 'read'
        rl.run_method(cls, name)
        rexts = {}
        _, rfn = cls.find('_read', 'methods')
        for e in rl.events:
            if e.kind == 'call' and e.name == '_read':
                b = rl.bind(rfn, e.args, e.kw, True)
                if b is None or b.get('name') is None or not b['name'].is_const or b['name'] is NONE:
                    continue
                st = [s for s in rl.events if s.kind == 'store' and s.obj is SELF and s.value == e.recv]
                rexts[template(b['name'])] = {s.attr for s in st}
        for ext, objs in sorted(exts.items()):
            for o in objs:
                names = {l.args[-1] for l in phi_leaves(o) if l.op in ('param', 'attr')}
                ck.ob('handed', '%s %s' % (who, ext), all(n.lstrip('_') == ext.lstrip('_') for n in names),
                      'holds %s' % ', '.join(sorted(names)), wh)
            ck.ob('handed', '%s %s read' % (who, ext), rexts.get(ext) == {ext}, 'is read into %s' %
                  (', '.join(sorted(rexts[ext])) if rexts.get(ext) else 'nothing'), where(cls, name))


# ---------------------------------------------------------------------- file formats
def formats(ck, rep):
    """each writer stores column i under name i; the reader of the format finds the arrays where they were put"""
    pairs = [('AsciiWriter', 'AsciiReader'), ('FitsWriter', 'FitsReader'), ('HdfWriter', 'HdfReader')]
    A, B, Cc = T('param', 'c0'), T('param', 'c1'), T('param', 'c2')
    for w, rdr in pairs:
        if w not in rep.classes or rdr not in rep.classes:
            raise AnalysisBroken('%s or %s not found' % (w, rdr))
        wc, rc = rep.classes[w], rep.classes[rdr]
        fl = Flow(rep, maxdepth=3)
        cols = T('list', (A, B, Cc))
        names = T('list', tuple(C(x) for x in NAMES))
        r = fl.run_method(wc, 'write', {'columns': cols, 'col_names': names})
        ck.saw_flow(fl)
        wh = where(wc, 'write')
        pos = []
        for e in fl.events:
            if e.kind == 'setitem' and e.value in (A, B, Cc) and e.op == '=':
                pos.append((e.key, e.value))
            if e.kind == 'call' and e.name == 'create_dataset':
                v = argof(e, None, 'data') or (e.args[-1] if len(e.args) > 1 else None)
                if v in (A, B, Cc) and e.args:
                    pos.append((e.args[0], v))
        got = []
        for k, c in pos:
            if k.op == 'tuple':
                k = k.args[0][-1]
            got.append((k.value if k.is_const else None, c))
        if got and all(k is not None for k, c in got):
            want = [{(i, c), (NAMES[i], c)} for i, c in enumerate((A, B, Cc))]
            ok = all(any(g in x for g in got) for x in want) and all(any(g in x for x in want) for g in got)
            ck.ob('format', '%s.write' % w, ok, 'a column is stored under another name or position: %s' %
                  ', '.join('%s at %s' % (c.args[0], k) for k, c in got), wh)
        else:
            dbg(w, pos)
        # names handed on
        for e in fl.events:
            if e.kind == 'call' and e.name in ('write', 'create_group', 'update') and w != 'AsciiWriter':
                if e.name == 'write' and e.recv.op == 'attr':
                    ok = argof(e, None, 'extname') is T('param', 'ext') and argof(e, None, 'header') is T('param', 'params')
                    ck.ob('format', '%s header and extension' % w, ok, 'the table is not written with its header and '
                          'extension name', wh)
                if e.name == 'create_group':
                    ck.ob('format', '%s group' % w, bool(e.args) and e.args[0] is T('param', 'ext'), 'the group is not '
                          'named for the extension', wh)
                if e.name == 'update':
                    ck.ob('format', '%s header' % w, bool(e.args) and e.args[0] is T('param', 'params'),
                          'the header is not stored', wh)
        if w == 'AsciiWriter':
            out = [e for e in fl.events if e.kind == 'call' and e.name in ('write', 'savetxt')]
            txt = [any(x is T('param', 'params') for a in e.args for x in subterms(a)) for e in out]
            nm = [any(x.is_const and x.value == NAMES[1] for a in e.args for x in subterms(a)) for e in out]
            ck.ob('format', 'AsciiWriter header', any(txt) and any(nm), 'the header or the column names are not written', wh)
        # arrays
        fa = Flow(rep, maxdepth=3)
        fa.run_method(wc, 'write_array')
        ra = Flow(rep, maxdepth=3)
        q = ra.run_method(rc, 'read_array')
        ck.saw_flow(fa)
        ck.saw_flow(ra)
        if w == 'HdfWriter':
            wn = [e.args[0].value for e in fa.events if e.kind == 'call' and e.name == 'create_dataset' and e.args and
                  e.args[0].is_const]
            vals = [v for (k, v) in ([(None, q[0])] if q else [])] + [e.value for e in ra.events if e.kind == 'setitem'] + \
                [e.data.get('value') for e in ra.events if e.kind == 'store']
            rn = {x.args[1].value for v in vals if isinstance(v, T) for x in subterms(v)
                  if x.op == 'idx' and x.args[1].is_const and isinstance(x.args[1].value, str)}
            if wn:
                ck.ob('format', 'Hdf array', rn == set(wn), 'arrays are written as %s and read as %s' %
                      (wn, sorted(rn)), where(rc, 'read_array'))
        if rdr in ('HdfReader', 'AsciiReader'):
            # covariances of complex correlations are complex: no cast on the way
            cast = [c for c in ra.events if c.kind == 'call' and
                    (c.name in ('empty', 'zeros', 'ones', 'genfromtxt', 'loadtxt'))
                    and len(c.args) < 2 and 'dtype' not in c.kw]
            ck.ob('format', '%s complex arrays' % rdr, not cast, 'complex arrays are read through %s of the default type' %
                  ', '.join(sorted({c.name for c in cast})), where(rc, 'read_array'))
        # reading by name
        fr = Flow(rep, maxdepth=3)
        q = fr.run_method(rc, 'read_data')
        ck.saw_flow(fr)
        if rdr == 'HdfReader':
            for e in fr.events:
                if e.kind == 'setitem' and e.op == '=' and isinstance(e.value, T):
                    k, v = e.key, strip(e.value)
                    while v.op == 'idx' and v.args[1].op == 'slice':
                        v = v.args[0]
                    dbg('hdf read_data', show(k)[:120], show(v)[:120])
                    hk, hv = hdf_pair(k, v)
                    if hk is not None:
                        ck.ob('format', 'HdfReader.read_data', hk, 'a column is filled from another one', where(rc, 'read_data'))
        if rdr == 'AsciiReader':
            for e in fr.events:
                if e.kind == 'call' and e.name == 'genfromtxt':
                    n = argof(e, None, 'names')
                    ck.ob('format', 'AsciiReader.read_data', n is not None and n is T('attr', SELF, 'col_names'),
                          'the columns are not named by the header', where(rc, 'read_data'))
        # read(): {col: its own column}
        fr = Flow(rep, maxdepth=3)
        q = fr.run_method(rc, 'read', {'cols': T('list', tuple(C(x) for x in NAMES))})
        ck.saw_flow(fr)
        if q is None:
            continue
        for l in phi_leaves(q[0]):
            if l.op == 'dict' and isinstance(l.args[0], tuple) and len(l.args[0]) == 3:
                bad = []
                for i, x in enumerate(l.args[0]):
                    k, v = x if isinstance(x, tuple) else (x.args[0], x.args[1])
                    idx = [y.args[1] for y in subterms(v) if y.op == 'idx']
                    cons = []
                    for y in idx:
                        if y.op == 'tuple':
                            y = y.args[0][-1]
                        if y.is_const and (isinstance(y.value, int) and not isinstance(y.value, bool) or
                                           y.value in NAMES):
                            cons.append(y.value)
                    if cons and cons[0] not in (i, NAMES[i]):
                        bad.append('%s from %s' % (k.value, cons[0]))
                ck.ob('format', '%s.read' % rdr, not bad, 'column %s' % ', '.join(bad), where(rc, 'read'))


NAMES = ('nb', 'na', 'nc')        # not in sorted order


def hdf_pair(k, v):
    """whether key k and value v come from the same position of names and values; None if not recognised"""
    def split(t):
        if t.op == 'idx' and t.args[1].is_const and t.args[0].op == 'elem':
            return t.args[0], t.args[1].value
        return None
    a, b = split(k), split(v)
    if a is None or b is None:
        if v.op == 'idx' and v.args[1] == k:
            return True, None
        return None, None
    if a[0] != b[0] or a[0].args[-1].op != 'call':
        return None, None
    z = a[0].args[-1]
    fn = fname(z.args[0])[1]
    if fn == 'items':
        return (a[1], b[1]) == (0, 1), None
    if fn == 'zip' and len(z.args[1]) > max(a[1], b[1]):
        x, y = strip2(z.args[1][a[1]]), strip2(z.args[1][b[1]])
        return x == 'keys' and y == 'values', None
    return None, None


def strip2(t):
    while t.op == 'call' and fname(t.args[0])[1] in ('list', 'tuple') and t.args[1]:
        t = t.args[1][0]
    return fname(t.args[0])[1] if t.op == 'call' else None


# ---------------------------------------------------------------------- catalogs and tables
def tables_of(fl):
    for e in fl.events:
        if e.kind == 'call' and e.name == 'write' and (len(e.args) >= 2 or 'columns' in e.kw):
            yield argof(e, 0, 'col_names'), argof(e, 1, 'columns')


def catalog(ck, rep):
    cls = rep.classes.get('Catalog')
    if cls is None:
        raise AnalysisBroken('Catalog not found')
    fl = Flow(rep, maxdepth=3, prop_opaque=set(cls.props))
    fl.run_method(cls, 'write')
    ck.saw_flow(fl)
    wh = where(cls, 'write')
    OPT = ('r', 'z', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2', 'patch')
    seen = set()
    n = 0
    for names, cols in tables_of(fl):
        for cfg in [('flat', ())] + [('flat', OPT), ('sph', OPT), ('sph', ()), ('flat', OPT[::2]), ('sph', OPT[1::2]),
                                     ('flat', ('z', 'w')), ('sph', ('r', 'w', 'k'))]:
            def decide(c, cfg=cfg):
                if c.op == 'cmp' and NONE in c.args[1:]:
                    x = c.args[1] if c.args[2] is NONE else c.args[2]
                    if x.op == 'attr' and x.args[0] is SELF:
                        a = x.args[1].lstrip('_')
                        if a in ('ra', 'dec'):
                            has = cfg[0] == 'sph'
                        elif a in ('x', 'y'):
                            has = True
                        elif a == 'r':
                            has = cfg[0] == 'sph' and 'r' in cfg[1]
                        else:
                            has = a in cfg[1]
                        return has == (c.args[0] in ('is not', '!='))
                if c.op == 'attr' and 'nontrivial_w' in c.args[1]:
                    return 'w' in cfg[1]
                return None
            pk = Pick(decide)
            try:
                ns, vs = items(names, pk), items(cols, pk)
            except Open as e:
                dbg('catalog', e)
                continue
            if ns is None or vs is None:
                dbg('catalog', show(names)[:200], show(cols)[:200])
                continue
            ns = [pk.top(x).value if pk.top(x).is_const else None for x in ns]
            n += 1
            ck.ob('catalog', 'number %s' % cfg[0], len(ns) == len(vs) and len(set(ns)) == len(ns),
                  '%d names for %d columns' % (len(ns), len(vs)), wh)
            if len(ns) != len(vs):
                continue
            for a, v in zip(ns, vs):
                v = strip(pk.top(v))
                src = {x.args[1].lstrip('_') for x in subterms(v) if x.op == 'attr' and x.args[0] is SELF}
                src -= {s for s in src if s.endswith('_units')}
                ck.ob('catalog', 'column %s' % a, src == {a}, 'holds %s' % ', '.join(sorted(src)), wh)
            want = {x for x in cfg[1] if not (cfg[0] == 'flat' and x == 'r') and not (cfg[0] == 'sph' and x == 'z')}
            want |= {'x', 'y'} if cfg[0] == 'flat' else {'ra', 'dec'}
            for a in sorted(want):
                ck.ob('catalog', 'all columns: %s' % a, a in ns, 'is not written when it is present', wh)
    # patch centres
    if cls.find('write_patch_centers', 'methods')[1] is not None:
        fl = Flow(rep, maxdepth=3, prop_opaque=set(cls.props))
        fl.run_method(cls, 'write_patch_centers')
        rf = Flow(rep, maxdepth=3)
        q = rf.run_method(cls, 'read_patch_centers')
        ck.saw_flow(fl)
        ck.saw_flow(rf)
        for names, cols in tables_of(fl):
            for flat in (True, False):
                pk = Pick(lambda c: (('flat' in [x.value for x in c.args[1:] if x.is_const]) and
                                     flat == (c.args[0] == '==')) if c.op == 'cmp' and c.args[0] in ('==', '!=') else None)
                try:
                    ns = items(names, pk)
                except Open:
                    continue
                if ns is None:
                    continue
                ns = [x.value for x in ns if x.is_const]
                want = ['patch', 'x', 'y'] + ([] if flat else ['z'])
                ck.ob('catalog', 'patch centres %s' % ('flat' if flat else 'not flat'), ns == want,
                      'the columns are %s' % ns, where(cls, 'write_patch_centers'))
        if q is not None:
            for l in phi_leaves(q[0]):
                got = [x.args[1].value for x in subterms_order(l) if x.op == 'idx' and x.args[1].is_const and
                       isinstance(x.args[1].value, str)]
                if got:
                    ck.ob('catalog', 'patch centres read %d' % len(got), got in (['x', 'y'], ['x', 'y', 'z']),
                          'the centres are made of %s' % got, where(cls, 'read_patch_centers'))


def subterms_order(t):
    """subterms in order of appearance"""
    if isinstance(t, T):
        if t.op == 'idx':
            yield t
        for a in t.args:
            yield from subterms_order(a)
    elif isinstance(t, tuple):
        for a in t:
            yield from subterms_order(a)


# documented statistics of derived tables: column -> (function, position in its result)
TABLES = {'writeMapSq': {'Mapsq': ('calculateMapSq', 0), 'Mxsq': ('calculateMapSq', 2), 'MMxa': ('calculateMapSq', 1),
                         'MMxb': ('calculateMapSq', 3), 'sig_map': ('calculateMapSq', 4, 'sqrt'),
                         'Gamsq': ('calculateGamSq', 0), 'sig_gam': ('calculateGamSq', 1, 'sqrt')},
          'writeNMap': {'NMap': ('calculateNMap', 0), 'NMx': ('calculateNMap', 1), 'sig_nmap': ('calculateNMap', 2, 'sqrt')},
          'writeNorm': {'NMap': ('calculateNMap', 0), 'NMx': ('calculateNMap', 1), 'sig_nmap': ('calculateNMap', 2, 'sqrt'),
                        'Napsq': ('calculateNapSq', 0), 'sig_napsq': ('calculateNapSq', 1, 'sqrt'),
                        'Mapsq': ('calculateMapSq', 0), 'sig_mapsq': ('calculateMapSq', 4, 'sqrt')},
          'writeMap3': {'Map3': ('calculateMap3', 0), 'Map2Mx': ('calculateMap3', 1), 'MapMx2': ('calculateMap3', 4),
                        'Mx3': ('calculateMap3', 7), 'sig_map': ('calculateMap3', 8, 'sqrt')}}
OWNER = {'writeNorm': {'calculateNMap': 'self', 'calculateNapSq': 'dd', 'calculateMapSq': 'gg'}}


def tables(ck, rep):
    for m, spec in sorted(TABLES.items()):
        for cls in corr_leaves(rep):
            dc, fn = cls.find(m, 'methods')
            if dc is not cls:
                continue
            fl = Flow(rep, maxdepth=3, opaque=('calculateMapSq', 'calculateGamSq', 'calculateNMap', 'calculateNapSq',
                                               'calculateMap3'))
            fl.run_method(cls, m)
            ck.saw_flow(fl)
            wh = where(cls, m)
            pk = Pick(lambda c: None, default=True)
            found = False
            for names, cols in tables_of(fl):
                ns, vs = items(names, pk), items(cols, pk)
                if ns is None or vs is None:
                    dbg(m, show(names)[:100])
                    continue
                found = True
                ns = [pk.top(x).value for x in ns]
                ck.ob('table', m, len(ns) == len(vs), '%d names for %d columns' % (len(ns), len(vs)), wh)
                vals = dict(zip(ns, vs))
                for a, s in sorted(spec.items()):
                    if a not in vals:
                        ck.ob('table', '%s %s' % (m, a), False, 'the column is missing', wh)
                        continue
                    el = Elem(lambda c, e: None, lambda t, e: tname(t, m))
                    try:
                        p = el.ev(strip(vals[a]))
                    except Undecided as e:
                        dbg(m, a, e)
                        continue
                    want = sym('%s.%d' % (s[0], s[1]))
                    if len(s) > 2:
                        want = poly.sqrt(want)
                    ok = poly.equal(p, want) or (a == 'MMxb' and poly.equal(p, -want))
                    ck.ob('table', '%s %s' % (m, a), ok, 'holds %s' % poly.text(p)[:60], wh)
                    if m == 'writeNorm' and a in ('NMap_norm',):
                        pass
                if m == 'writeNorm':
                    el = Elem(lambda c, e: None, lambda t, e: tname(t, m))
                    N, V, S, VS, M, VM = [sym(x) for x in ('calculateNMap.0', 'calculateNMap.2', 'calculateNapSq.0',
                                                           'calculateNapSq.1', 'calculateMapSq.0', 'calculateMapSq.4')]
                    nm = N * N / (S * M)
                    nn = S / M
                    for a, want in (('NMap_norm', nm), ('Nsq_Mapsq', nn),
                                    ('sig_norm', nm * nm * (4 * V / (N * N) + VS / (S * S) + VM / (M * M))),
                                    ('sig_nn_mm', nn * nn * (VS / (S * S) + VM / (M * M)))):
                        if a not in vals:
                            continue
                        try:
                            p = el.ev(strip(vals[a]))
                        except Undecided as e:
                            dbg(m, a, e)
                            continue
                        if a.startswith('sig'):
                            p = p * p
                        ck.ob('table', '%s %s' % (m, a), poly.equal(p, want), 'is %s' % poly.text(p)[:80], wh)


def tname(t, m):
    if t.op == 'idx' and t.args[0].op == 'call' and t.args[1].is_const:
        k, n, r = fname(t.args[0].args[0])
        if n.startswith('calculate'):
            o = OWNER.get(m, {}).get(n, 'self')
            if r is not None and r.op == 'param' and r.args[0] != o:
                return sym('%s of %s' % (n, r.args[0]))
            return sym('%s.%s' % (n, t.args[1].value))
    if t.op in ('param', 'attr') or t.op == 'phi':
        return sym(show(t)[:60])
    return None
