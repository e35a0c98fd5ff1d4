"""C20: the command-line drivers compute each requested output from the right inputs.

The drivers are interpreted abstractly once, giving the calls they make and the conditions of each.  The
conditions are then read for every combination of one requested output (and all of them together), second
catalog, randoms and statistic; what is written, computed from what, is compared with the documentation.
"""
import ast
import itertools
import os

from ..common import *
from ..pyrepo import AnalysisBroken
from .c08_config import declared, lit

PROP = 'C20'
OPAQUE = ('process', '__init__', 'check_config', 'setup_logger', 'set_omp_threads', 'read_catalogs', 'print_params',
          'get_patches')
# what the derived outputs are: correlation, method, what it needs
DERIVED = {'m2': ('GG', 'writeMapSq'), 'nm': ('NG', 'writeNMap'), 'norm': ('NG', 'writeNorm'), 'm3': ('GGG', 'writeMap3')}
SOURCES = {'cat1': ('file_name', 'file_list', 0), 'cat2': ('file_name2', 'file_list2', 1),
           'rand1': ('rand_file_name', 'rand_file_list', 0), 'rand2': ('rand_file_name2', 'rand_file_list2', 1)}
RULES = [
    ('catalogs', 'the input catalogs are read from the parameters naming them, with the number of their field', 5),
    ('written', 'a requested output is written to the file named for it by the correlation it is for', 20),
    ('inputs', 'what is written was computed from the documented catalogs', 20),
    ('estimator', 'the random correlations required by the statistic, and only those, are made and handed over', 20),
    ('refused', 'what cannot be computed is refused with an explicit error', 15),
    ('columns', 'the columns of a field are required exactly for the outputs using them', 12),
    ('configured', 'every correlation is made with the configuration', 20),
    ('settings', 'variables and configuration files of every type are read into the configuration whole', 6),
    ('script', 'the command-line scripts hand the configuration file and every variable to the driver', 2),
]


class Unk(Exception):
    pass


class Missing(Exception):
    pass


CFG = ('CFG',)


class Scenario:
    def __init__(self, keys, have, values, defaults):
        self.keys, self.have, self.values, self.defaults = keys, have, values, defaults
        self.memo = {}

    def text(self):
        s = ', '.join(sorted(self.keys)) if len(self.keys) < 4 else 'all outputs'
        s += ' with ' + ' '.join(c for c in ('cat1', 'cat2', 'rand1', 'rand2') if c in self.have)
        st = {k: v for k, v in self.values.items()}
        if st:
            s += ' statistic ' + '/'.join(sorted({str(v) for v in st.values()}))
        return s

    def has(self, k):
        return k in self.keys or k in self.values or self.defaults.get(k) is not None or \
            any(SOURCES[c][0] == k for c in self.have)

    def value(self, k):
        if k in self.values:
            return self.values[k]
        if self.defaults.get(k) is not None and not k.endswith('form'):
            return self.defaults[k]
        return ('cfg', k)

    def ev(self, t):
        if t not in self.memo:
            try:
                self.memo[t] = ('v', self._ev(t))
            except (Unk, Missing) as e:
                self.memo[t] = ('e', e)
        k, v = self.memo[t]
        if k == 'e':
            raise v
        return v

    def true(self, t):
        v = self.ev(t)
        if isinstance(v, tuple) and v and v[0] in ('obj', 'CFG'):
            return True
        if isinstance(v, tuple) and v and v[0] == 'cats':
            return v[1] in self.have
        if isinstance(v, tuple) and v and v[0] in ('cfg', 'param'):
            raise Unk()
        return bool(v)

    def _ev(self, t):
        o, a = t.op, t.args
        if o == 'const':
            return a[0]
        if o == 'param':
            return CFG if a[0] == 'config' else ('param', a[0])
        if o == 'global':
            return ('global', a[0])
        if o == 'phi':
            try:
                return self.ev(a[1] if self.true(a[0]) else a[2])
            except Unk:
                x, y = self.ev(a[1]), self.ev(a[2])
                if x == y:
                    return x
                raise
        if o == 'upd':
            b = self.ev(a[0])
            if b == CFG:
                return CFG
            if isinstance(b, dict) and len(a) > 3 and isinstance(a[3], T):
                d = dict(b)
                d[self.ev(a[1])] = self.ev(a[3])
                return d
            raise Unk()
        if o == 'obj':
            return ('obj', a[0] if isinstance(a[0], str) else show(a[0]), a[1])
        if o == 'not':
            return not self.true(a[0])
        if o == 'and':
            return self.junction(a[0], False)
        if o == 'or':
            return self.junction(a[0], True)
        if o == 'cmp':
            op = a[0]
            if op in ('in', 'not in'):
                k = self.ev(a[1])
                c = self.ev(a[2])
                r = self.has(k) if c == CFG else (k in c)
                return r if op == 'in' else not r
            x, y = self.ev(a[1]), self.ev(a[2])
            if op in ('is', '==', 'is not', '!='):
                if isinstance(x, tuple) and x[:1] == ('cfg',) and y is not None or \
                        isinstance(y, tuple) and y[:1] == ('cfg',) and x is not None:
                    raise Unk()
                eq = x == y if not (x is None or y is None) else x is y
                if isinstance(x, tuple) and x[:1] == ('cats',) and y is None or \
                        isinstance(y, tuple) and y[:1] == ('cats',) and x is None:
                    eq = False
                return eq if op in ('is', '==') else not eq
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Unk()
            return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        if o in ('tuple', 'list', 'set'):
            return [self.ev(x) for x in a[0]] if o != 'tuple' else ('tup',) + tuple(self.ev(x) for x in a[0])
        if o == 'dict':
            return {self.ev(k): self.ev(v) for k, v in (p.args[0] if isinstance(p, T) else p for p in a[0])}
        if o == 'bin':
            x, y = self.ev(a[1]), self.ev(a[2])
            if a[0] == '+' and isinstance(x, str) and isinstance(y, str):
                return x + y
            if a[0] == '%' and isinstance(x, str):
                return x % (y[1:] if isinstance(y, tuple) and y[:1] == ('tup',) else y)
            raise Unk()
        if o == 'idx':
            b = self.ev(a[0])
            k = self.ev(a[1])
            if b == CFG:
                if not self.has(k):
                    raise Missing(k)
                return self.value(k)
            try:
                return b[k + 1] if isinstance(b, tuple) and b[:1] == ('tup',) else b[k]
            except Exception:
                raise Unk()
        if o == 'call':
            return self.call(t)
        raise Unk()

    def junction(self, xs, stop):
        unk = False
        for x in xs:
            try:
                if self.true(x) == stop:
                    return stop
            except Unk:
                unk = True
        if unk:
            raise Unk()
        return not stop

    def call(self, t):
        fn, args, kw = t.args[0], t.args[1], dict(t.args[2])
        name = fn.args[1] if fn.op == 'attr' else fn.args[0] if fn.op == 'global' else None
        if name == 'check_config':
            return CFG
        if name == 'read_catalogs':
            return ('cats', self.source(args, kw)[0])
        if fn.op == 'attr':
            r = self.ev(fn.args[0])
            if r == CFG:
                if name == 'copy':
                    return CFG
                if name == 'get':
                    k = self.ev(args[0])
                    return self.value(k) if self.has(k) else self.ev(args[1]) if len(args) > 1 else None
            if isinstance(r, str) and name in ('lower', 'upper', 'strip', 'format', 'endswith', 'startswith'):
                return getattr(r, name)(*[self.ev(x) for x in args])
            if isinstance(r, tuple) and r[:1] == ('cats',) and name == 'copy':
                return r
            raise Unk()
        if name == 'get' and args and self.ev(args[0]) == CFG:
            k = self.ev(args[1])
            d = args[3] if len(args) > 3 else kw.get('default')
            return self.value(k) if self.has(k) else self.ev(d) if d is not None else None
        if name == 'dict':
            if args:
                b = self.ev(args[0])
                if b == CFG:
                    return CFG
                if isinstance(b, list):
                    return dict(b)
            return {k: self.ev(v) for k, v in kw.items()}
        vals = [self.ev(x) for x in args]
        if name in ('len', 'bool', 'any') and len(vals) == 1:
            v = vals[0]
            n = (1 if v[1] in self.have else 0) if isinstance(v, tuple) and v[:1] == ('cats',) else \
                len(v) if isinstance(v, (list, str, dict)) else None
            if n is None:
                raise Unk()
            return n if name == 'len' else bool(n)
        if name == 'list' and len(vals) == 1 and isinstance(vals[0], tuple) and vals[0][:1] == ('cats',):
            return vals[0]
        raise Unk()

    def source(self, args, kw):
        names = ['config', 'key', 'list_key', 'num', 'logger', 'is_rand']
        b = dict(zip(names, args))
        b.update(kw)
        try:
            key = self.ev(b['key']) if 'key' in b else None
            lk = self.ev(b['list_key']) if 'list_key' in b else None
            num = self.ev(b['num']) if 'num' in b else 0
            ir = self.ev(b['is_rand']) if 'is_rand' in b else None
        except KeyError:
            raise Unk()
        for c, (k, l, n) in SOURCES.items():
            if key == k or (key is None and lk == l):
                bad = None
                if lk != l:
                    bad = 'the list of names is taken from %s' % lk
                elif num != n:
                    bad = 'its columns are those of catalog number %s' % num
                elif ir is not None and bool(ir) != c.startswith('rand'):
                    bad = 'is_rand is %s' % ir
                return c, bad
        raise Unk()


def spread(kw):
    """keyword arguments with **dictionary written out; None for the key '**' that cannot be"""
    out = {}
    for k, v in kw.items():
        if k != '**':
            out[k] = v
            continue
        todo, items = v, {}
        while todo.op == 'upd' and len(todo.args) > 3 and todo.args[1].is_const:
            items.setdefault(todo.args[1].value, todo.args[3])
            todo = todo.args[0]
        if todo.op == 'dict':
            for p in todo.args[0]:
                a, b = p.args[0] if isinstance(p, T) else p
                if a.is_const:
                    items.setdefault(a.value, b)
        elif todo.op == 'call' and todo.args[0] == T('global', 'dict') and not todo.args[1]:
            for a, b in todo.args[2]:
                items.setdefault(a, b)
        else:
            out['**'] = v
            continue
        out.update(items)
    return out


def events(ck, rep, drv):
    mod = next((m for m in rep.modules.values() if drv in m.funcs and drv + '_valid_params' in m.globals), None)
    if mod is None:
        raise AnalysisBroken('driver %s not found' % drv)
    writers = {n for c in corr_leaves(rep) for k in c.mro for n in k.methods if n.startswith('write')}
    fl = Flow(rep, opaque=tuple(writers) + OPAQUE, maxdepth=6)
    fl.run_function(mod.name, drv)
    ck.saw_flow(fl)
    return mod, fl.events, writers


def active(sc, e):
    """True, False or None when it cannot be told"""
    r = True
    for g, b in e.guards:
        try:
            if sc.true(g) != b:
                return False
        except Unk:
            r = None
        except Missing as m:
            return m
    return r


def check(ck):
    for r in RULES:
        ck.rule(*r)
    rep = repo()
    decl = declared(rep)
    for drv in ('corr2', 'corr3'):
        driver(ck, rep, drv, decl)
    catalogs(ck, rep)
    columns(ck, rep, decl)
    scripts(ck, rep)
    settings(ck, rep)
    ck.assumptions += ['the configuration has been checked: declared parameters with a default are present',
                       'what process and the writing methods do with their arguments is decided by the other properties']


def driver(ck, rep, drv, decl):
    mod, evs, writers = events(ck, rep, drv)
    own = decl[drv]
    inputs = {x for s in SOURCES.values() for x in s[:2]}
    outs = [k for k in own if k.endswith('_file_name') and k not in inputs]
    if not outs:
        raise AnalysisBroken('no outputs declared for ' + drv)
    defaults = {k: lit(p.default)[1] for k, p in decl[drv + '*'].items()}
    leaf = {c.name[:-len('Correlation')]: c for c in corr_leaves(rep) if c.name.endswith('Correlation')}
    what = {}
    for k in outs:
        s = k[:-len('_file_name')]
        if s in DERIVED:
            what[k] = DERIVED[s]
        elif s.upper() in leaf:
            what[k] = (s.upper(), 'write')
        else:
            ck.ob('written', '%s %s' % (drv, k), True, '(undecided)')
    stats = [k for k in own if k.endswith('_statistic')]
    sets = ['cat1']
    combos = [['cat1'] + list(x) for x in ([], ['rand1'], ['cat2'], ['cat2', 'rand1'], ['cat2', 'rand1', 'rand2'])] \
        if drv == 'corr2' else [['cat1'], ['cat1', 'rand1']]
    # sources
    base = Scenario(set(), {'cat1', 'cat2', 'rand1', 'rand2'}, {}, defaults)
    seen = {}
    for e in evs:
        if e.kind == 'call' and e.name == 'read_catalogs':
            try:
                c, bad = base.source(tuple(e.args), e.kw)
            except (Unk, Missing):
                ck.ob('catalogs', '%s line %d' % (drv, e.node.lineno), True, '(undecided)')
                continue
            seen[c] = 1
            ck.ob('catalogs', '%s %s' % (drv, c), bad is None, 'the catalogs of %s: %s' % (SOURCES[c][0], bad), e.where)
    for c, (k, l, n) in SOURCES.items():
        if k in own:
            ck.ob('catalogs', '%s reads %s' % (drv, k), c in seen, 'the parameter %s is accepted but its catalogs are not read' % k,
                  drv)
    for e in evs:
        if e.kind == 'call' and e.name in [c.name for c in leaf.values()]:
            c = e.args[0] if e.args else e.kw.get('config')
            try:
                ok = c is not None and base.ev(c) == CFG
            except (Unk, Missing):
                ok = True
            ck.ob('configured', '%s %s' % (drv, e.name), ok, 'is made without the configuration', e.where)
    # an empty input
    sc = Scenario(set(what), set(), {}, defaults)
    first = outcome(sc, evs)
    ck.ob('refused', drv + ' no input', first[0] in ('raise', '?'), 'goes on when no input catalog is given', drv)
    for k, (cls, meth) in sorted(what.items()):
        for have in combos:
            for st in (None, 'simple', 'compensated'):
                vals = {x: st for x in stats} if st else {}
                for keys in ({k}, set(what)):
                    sc = Scenario(keys, set(have), vals, defaults)
                    one(ck, drv, sc, evs, k, cls, meth, leaf, len(keys) == 1, writers)


def outcome(sc, evs, stop=None):
    """what the driver does: ('raise', event) | ('done', events) | ('?', ...) in order"""
    acts = []
    sure = True
    for e in evs:
        if e.kind not in ('call', 'raise'):
            continue
        a = active(sc, e)
        if isinstance(a, Missing):
            return 'missing', a.args[0], e
        if a is False:
            continue
        if a is None:
            if e.kind == 'raise':
                sure = False
                continue
        if e.kind == 'raise':
            return 'raise', e, acts
        acts.append((e, a))
    return 'done' if sure else '?', None, acts


def one(ck, drv, sc, evs, key, cls, meth, leaf, alone, writers):
    nm = '%s %s' % (drv, key)
    s = key[:-len('_file_name')]
    kind, x, acts = outcome(sc, evs)
    txt = sc.text()
    stat = lambda p: sc.values.get(p, sc.defaults.get(p))
    # what has to be refused
    must, may = refused(s, sc, stat)
    if not alone and kind == 'raise':
        return
    if kind == '?':
        ck.ob('refused', nm, True, '(undecided)')
        return
    if kind == 'missing':
        ck.ob('written', nm, False, 'uses the parameter %s, which may not be given (%s)' % (x, txt), acts.where)
        return
    if must:
        if alone:
            ck.ob('refused', nm + ': ' + must, kind == 'raise', 'is not refused although %s (%s)' % (must, txt), drv)
        if kind != 'raise':
            return
    if kind == 'raise':
        if not must and not may:
            ck.ob('refused', nm, False, 'is refused although it can be computed (%s)' % txt, x.where)
        return
    # find the write
    objs = {}
    writes = []
    for i, (e, a) in enumerate(acts):
        if e.kind != 'call':
            continue
        if e.name == 'process' and e.recv is not None:
            try:
                o = sc.ev(e.recv)
                args = [sc.ev(y) for y in e.args]
                kw = {q: sc.ev(v) for q, v in e.kw.items()}
            except Unk:
                ck.ob('inputs', nm, True, '(undecided)')
                return
            except Missing:
                continue
            for q in ('cat1', 'cat2', 'cat3'):
                if q in kw:
                    args.append(kw.pop(q))
            while args and args[-1] is None:
                args.pop()
            objs.setdefault(o, []).append((i, [y[1] if isinstance(y, tuple) and y[:1] == ('cats',) else y for y in args], kw, e))
        elif e.name in writers and e.recv is not None:
            try:
                f = sc.ev(e.args[0]) if e.args else sc.ev(e.kw['file_name'])
                o = sc.ev(e.recv)
                kw = {}
                for q, v in e.kw.items():
                    v = sc.ev(v) if q in ('rr', 'dr', 'rd', 'rrr', 'drr', 'rdd', 'gg', 'dd', '**', 'm2_uform') or \
                        (q[:1] == 'r' and len(q) == 2) else None
                    if q == '**':
                        kw.update(v)
                    else:
                        kw[q] = v
            except (Unk, KeyError):
                ck.ob('written', nm, True, '(undecided)')
                return
            except Missing as m:
                ck.ob('written', nm, False, 'uses the parameter %s, which may not be given (%s)' % (m.args[0], txt), e.where)
                return
            if f == ('cfg', key):
                writes.append((i, e, o, kw))
    if not writes:
        ck.ob('written', nm, False, 'is requested but nothing is written to it (%s)' % txt, drv)
        return
    ck.ob('written', nm + ' once', len(writes) == 1, 'is written more than once (%s)' % txt, writes[-1][1].where)
    i, e, o, kw = writes[0]
    ck.ob('written', nm, isinstance(o, tuple) and o[:2] == ('obj', cls + 'Correlation') and e.name == meth,
          'is written by %s.%s instead of %sCorrelation.%s (%s)' % (o[1] if isinstance(o, tuple) and len(o) > 1 else o, e.name,
                                                                    cls, meth, txt), e.where)

    def made(o, want, who, rule='inputs', before=i, obcls=None, wantkw=None):
        ps = objs.get(o, [])
        ok = len(ps) == 1 and ps[0][0] < before and ps[0][1] == want and \
            all(ps[0][2].get(q) == v for q, v in (wantkw or {}).items())
        why = 'is not computed before it is used' if not ps or ps[0][0] > before else \
            'is computed more than once' if len(ps) > 1 else \
            'is computed from (%s%s) instead of (%s%s)' % (', '.join(map(str, ps[0][1])), ''.join(
                ', %s=%s' % q for q in ps[0][2].items()), ', '.join(want), ''.join(', %s=%s' % q for q in (wantkw or {}).items()))
        ck.ob(rule, '%s %s' % (nm, who), ok, '%s %s (%s)' % (who, why, txt), ps[0][3].where if ps else e.where)
        if obcls:
            ck.ob(rule, '%s %s class' % (nm, who), isinstance(o, tuple) and o[:2] == ('obj', obcls + 'Correlation'),
                  '%s is %s instead of a %sCorrelation' % (who, o[1] if isinstance(o, tuple) else o, obcls), e.where)
    made(o, primary(s, sc), 'result')
    for q, (c2, want, wkw) in needed(s, sc, stat).items():
        v = kw.get(q)
        if c2 is None:
            ck.ob('estimator', '%s without %s' % (nm, q), v is None, '%s is given although it should not be (%s)' % (q, txt),
                  e.where)
            continue
        ck.ob('estimator', '%s with %s' % (nm, q), v is not None, '%s is not given (%s)' % (q, txt), e.where)
        if v is not None:
            made(v, want, q, 'estimator', i, c2, wkw)
    if 'm2_uform' in kw:
        ck.ob('written', nm + ' m2_uform', kw['m2_uform'] in (None, ('cfg', 'm2_uform')), 'the m2_uform given is not the one '
              'of the configuration', e.where)


def field(s):
    return {'m2': 'gg', 'nm': 'ng', 'norm': 'ng', 'm3': 'ggg'}.get(s, s)


def primary(s, sc):
    f = field(s)
    if len(f) == 3 or f[0] == f[1] and 'cat2' not in sc.have:
        return ['cat1']
    return ['cat1', 'cat2']


def refused(s, sc, stat):
    """(why it must be refused, whether it may be)"""
    f = field(s)
    if len(f) == 3:
        return None, False
    if f[0] != f[1] and 'cat2' not in sc.have:
        return 'there is no second catalog', True
    if f == 'nn' and 'cat2' in sc.have and 'rand1' in sc.have and 'rand2' not in sc.have:
        return 'there are no randoms for the second catalog', True
    if f[0] == 'n' != f[1] and 'rand1' not in sc.have and sc.values.get(f + '_statistic') == 'compensated':
        return 'there are no randoms for the compensated statistic', True
    if s == 'norm' and 'rand1' not in sc.have:
        return 'there are no randoms for the number counts', True
    return None, False


def needed(s, sc, stat):
    f = field(s)
    out = {}
    if s in ('m2', 'm3') or 'n' not in f:
        return out
    rand = 'rand1' in sc.have
    if f == 'nnn':
        comp = rand and stat('nnn_statistic') == 'compensated'
        out['rrr'] = ('NNN', ['rand1'], {}) if rand else (None, None, None)
        out['drr'] = ('NNN', ['cat1', 'rand1'], {'ordered': False}) if comp else (None, None, None)
        out['rdd'] = ('NNN', ['rand1', 'cat1'], {'ordered': False}) if comp else (None, None, None)
    elif f == 'nn':
        two = 'cat2' in sc.have
        comp = rand and stat('nn_statistic') == 'compensated'
        out['rr'] = ('NN', ['rand1', 'rand2'] if two else ['rand1'], {}) if rand else (None, None, None)
        out['dr'] = ('NN', ['cat1', 'rand2' if two else 'rand1'], {}) if comp else (None, None, None)
        out['rd'] = ('NN', ['rand1', 'cat2'], {}) if comp and two else (None, None, None)
    else:
        comp = rand and sc.values.get(f + '_statistic', 'compensated') == 'compensated'
        out['r' + f[1]] = (f.upper(), ['rand1', 'cat2'], {}) if comp else (None, None, None)
        if s == 'norm':
            c2 = stat('nn_statistic') == 'compensated'
            out['gg'] = ('GG', ['cat2'], {})
            out['dd'] = ('NN', ['cat1'], {})
            out['rr'] = ('NN', ['rand1'], {})
            out['dr'] = ('NN', ['cat1', 'rand1'], {}) if c2 else (None, None, None)
    return out


# ---- reading -----------------------------------------------------------------------------------------------

def catalogs(ck, rep):
    mod = next((m for m in rep.modules.values() if 'read_catalogs' in m.funcs), None)
    if mod is None:
        raise AnalysisBroken('read_catalogs not found')
    fl = Flow(rep, opaque=('get_patches', '__init__', 'setup_logger', 'get'), maxdepth=4)
    fl.run_function(mod.name, 'read_catalogs')
    ck.saw_flow(fl)
    P = lambda n: T('param', n)
    made = [e for e in fl.events if e.kind == 'call' and e.name == 'Catalog']
    if not made:
        ck.ob('catalogs', 'read_catalogs', True, '(undecided)')
        return
    for e in made:
        names = ['file_name', 'config']
        b = dict(zip(names, e.args))
        b.update(spread(e.kw))
        if '**' in b:
            ck.ob('catalogs', 'read_catalogs', True, '(undecided)')
            continue
        ck.ob('catalogs', 'read_catalogs num', b.get('num') == P('num'),
              'the number of the catalog is %s' % (show(b['num'])[:60] if 'num' in b else 'not handed on'), e.where)
        ck.ob('catalogs', 'read_catalogs config', b.get('config') is not None and P('config') in set(subterms(b['config'])),
              'the configuration is not handed on', e.where)
        ir = b.get('is_rand')
        ck.ob('catalogs', 'read_catalogs is_rand', ir is not None and P('is_rand') in set(subterms(ir)),
              'is_rand is not handed on', e.where)
        if ir is not None:
            for key, want in (('file_name', False), ('rand_file_name', True)):
                sc = Scenario(set(), set(SOURCES), {}, {})
                sc.memo[P('is_rand')] = ('v', None)
                sc.memo[P('key')] = ('v', key)
                sc.memo[P('list_key')] = ('v', key.replace('name', 'list'))
                try:
                    ok = bool(sc.true(ir)) == want
                except (Unk, Missing):
                    ok = True
                ck.ob('catalogs', 'read_catalogs is_rand of ' + key, ok, 'is_rand is %s for %s' % (not want, key), e.where)
        ks = set(subterms(b['file_name'])) if 'file_name' in b else set()
        for k in ('key', 'list_key'):
            ck.ob('catalogs', 'read_catalogs ' + k, T('idx', P('config'), P(k)) in ks,
                  'the files named by config[%s] are not read' % k, e.where)
        extra = [show(g)[:80] for g, bb in e.guards if any(x.op == 'elem' for x in subterms(g)) and g.op != 'loop']
        ck.ob('catalogs', 'read_catalogs all', not extra, 'files are left out when %s' % '; '.join(extra), e.where)
    used = [e for e in fl.events if e.kind == 'call' and e.name == 'get_patches']
    ck.ob('catalogs', 'read_catalogs patches', bool(used), 'the patches of the catalogs are not used', 'read_catalogs')


# ---- required columns --------------------------------------------------------------------------------------

def columns(ck, rep, decl):
    mod = next((m for m in rep.modules.values() if 'isGColRequired' in m.funcs), None)
    if mod is None:
        ck.ob('columns', 'isGColRequired', True, '(undecided)')
        return
    outs = {k: k[:-len('_file_name')] for k in decl['corr2'] if k.endswith('_file_name') and k not in
            {x for s in SOURCES.values() for x in s[:2]}}
    funcs = {n: f for n, f in mod.funcs.items() if n.startswith('is') and n.endswith('ColRequired')}
    for n, f in sorted(funcs.items()):
        L = n[2:-len('ColRequired')].lower()
        fl = Flow(rep)
        r = fl.run_function(mod.name, n)
        ck.saw_flow(fl)
        for k, s in sorted(outs.items()):
            for num in (0, 1):
                sc = Scenario({k}, {'cat1', 'cat2'}, {}, {})
                sc.memo[T('param', 'num')] = ('v', num)
                try:
                    got = bool(sc.true(r[0]))
                except (Unk, Missing):
                    ck.ob('columns', '%s %s %d' % (n, k, num), True, '(undecided)')
                    continue
                f2 = field(s)
                want = f2[num] == L
                ck.ob('columns', '%s %s of catalog %d' % (n, k, num + 1), got == want,
                      'the %s columns of catalog %d are %s for %s' % (L, num + 1, 'required' if got else 'not required', k), n)
    for m in rep.modules.values():
        par = None
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in funcs:
                if par is None:
                    par = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
                L = x.func.id[2:-len('ColRequired')].lower()
                seen = set()
                y = x
                near = None
                while y in par and not isinstance(y, ast.FunctionDef):
                    p = par[y]
                    if isinstance(p, ast.If) and y in p.body + p.orelse:
                        ls = {z.id[0] for z in ast.walk(p.test) if isinstance(z, ast.Name) and
                              z.id[1:].lstrip('12') in ('_col', '_eval') and z.id[0] in 'kzvgtq'}
                        if ls and near is None:
                            near = ls
                    y = p
                if near:
                    ck.ob('columns', '%s for %s line %d' % (x.func.id, '/'.join(sorted(near)), x.lineno), near == {L},
                          'whether the %s columns are required is decided by %s' % ('/'.join(sorted(near)), x.func.id),
                          '%s line %d' % (m.name, x.lineno))


# ---- scripts -----------------------------------------------------------------------------------------------

def dotted(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else ''


def scripts(ck, rep):
    root = os.environ.get('TC_REPO', '/repo')
    for drv in ('corr2', 'corr3'):
        p = os.path.join(root, 'scripts', drv)
        if not os.path.exists(p):
            ck.ob('script', drv, True, '(undecided)')
            continue
        tree = ast.parse(open(p).read())
        ck.saw('scripts/' + drv)
        par = {c: q for q in ast.walk(tree) for c in ast.iter_child_nodes(q)}
        calls = [x for x in ast.walk(tree) if isinstance(x, ast.Call)]
        runs = [x for x in calls if dotted(x.func) in ('corr2', 'corr3') and not (
            isinstance(x.func, ast.Name) and any(isinstance(f, ast.FunctionDef) and f.name == x.func.id for f in ast.walk(tree)))]
        ck.ob('script', drv + ' runs', any(dotted(x.func) == drv for x in runs) and len({dotted(x.func) for x in runs}) == 1,
              'the script does not run %s' % drv, 'scripts/' + drv)

        def conds(x):
            out = []
            while x in par:
                q = par[x]
                if isinstance(q, ast.If) and x not in (q.test,):
                    if not (isinstance(q.test, ast.Compare) and isinstance(q.test.left, ast.Name) and q.test.left.id == '__name__'):
                        out.append(ast.unparse(q.test))
                x = q
            return out
        for x in runs:
            ck.ob('script', drv + ' runs always', not conds(x), 'the driver only runs when %s' % '; '.join(conds(x)),
                  'scripts/%s line %d' % (drv, x.lineno))
        rd = [x for x in calls if dotted(x.func) == 'read_config']
        ck.ob('script', drv + ' reads', bool(rd) and any('config_file' in ast.unparse(x.args[0]) for x in rd if x.args),
              'the configuration file is not read', 'scripts/' + drv)
        for x in rd:
            has = len(x.args) > 1 or any(k.arg == 'file_type' for k in x.keywords)
            ck.ob('script', drv + ' file type', has, 'the type of the configuration file given is not used', 'scripts/' + drv)
        pv = [x for x in calls if dotted(x.func) == 'parse_variable']
        good = []
        why = 'the additional variables are not parsed'
        for x in pv:
            y, loop = x, None
            while y in par:
                y = par[y]
                if isinstance(y, (ast.For, ast.comprehension)):
                    loop = y
                    break
            if loop is None or 'variables' not in ast.unparse(loop.iter):
                why = 'the additional variables are not all parsed'
            elif isinstance(loop.iter, ast.Subscript):
                why = 'only some of the additional variables are parsed: %s' % ast.unparse(loop.iter)
            elif [c for c in conds(x) if 'variables' not in c]:
                why = 'additional variables are only used when %s' % '; '.join(conds(x))
            elif len(x.args) > 1 and isinstance(loop.target, ast.Name) and ast.unparse(x.args[1]) != loop.target.id and \
                    not any(isinstance(z, ast.Name) and z.id == loop.target.id for z in ast.walk(x.args[1])):
                why = 'the variable parsed is %s' % ast.unparse(x.args[1])
            else:
                good.append(x)
        ck.ob('script', drv + ' variables', bool(good), why, 'scripts/' + drv)
        # the same configuration is read, changed and run
        names = set()
        for x in good:
            names.add(ast.unparse(x.args[0]))
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef):
                inside = set(ast.walk(f))
                if any(x in inside for x in good) and any(x in inside for x in runs):
                    r = [x for x in runs if x in inside][0]
                    g = [x for x in good if x in inside]
                    ck.ob('script', drv + ' same configuration', bool(r.args) and ast.unparse(r.args[0]) in names,
                          'the variables are put into %s but %s is run' % (', '.join(names), ast.unparse(r.args[0]) if r.args else
                                                                           'nothing'), 'scripts/' + drv)
                    ck.ob('script', drv + ' order', all(x.lineno < r.lineno for x in g),
                          'the variables are parsed after the driver has run', 'scripts/' + drv)


# ---- configuration files and variables ---------------------------------------------------------------------

def settings(ck, rep):
    mod = next((m for m in rep.modules.values() if 'read_config' in m.funcs and 'parse_variable' in m.funcs), None)
    if mod is None:
        raise AnalysisBroken('read_config and parse_variable not found')
    readers = {}
    for n, f in mod.funcs.items():
        for t in ('yaml', 'json', 'params'):
            if t in n.lower() and 'read' in n.lower():
                readers[n] = t
    fl = Flow(rep, opaque=tuple(readers))
    fl.run_function(mod.name, 'read_config')
    ck.saw_flow(fl)
    for ft in ('yaml', 'json', 'params', 'auto yaml', 'auto json', 'auto params'):
        t = ft.split()[-1]
        sc = Scenario(set(), set(), {}, {})
        sc.memo[T('param', 'file_type')] = ('v', ft.split()[0])
        sc.memo[T('param', 'file_name')] = ('v', 'run.' + (t if ft != t else 'conf'))
        got = []
        for e in fl.events:
            if e.kind == 'call' and e.name in readers and active(sc, e) is True:
                got.append(readers[e.name])
        und = any(e.kind == 'call' and e.name in readers and active(sc, e) is None for e in fl.events)
        if not got and not any(e.kind == 'raise' and active(sc, e) for e in fl.events):
            und = True
        ck.ob('settings', 'read_config ' + ft, und or not readers or got == [t],
              'a file of type %s is read as %s' % (t, ', '.join(got) or 'nothing'), 'config.read_config')
    fl = Flow(rep, opaque=tuple(readers))
    fl.run_function(mod.name, 'parse_variable')
    ck.saw_flow(fl)
    cfg, v = T('param', 'config'), T('param', 'v')
    sets = [e for e in fl.events if e.kind == 'setitem' and e.recv == cfg]
    ck.ob('settings', 'parse_variable sets', bool(sets), 'the variable is not put into the configuration', 'config.parse_variable')
    for e in sets:
        for what, t in (('key', e.key), ('value', e.value)):
            parts = []
            for x in subterms(t):
                if x.op == 'idx' and x.args[1].is_const:
                    y = x.args[0]
                    if y.op == 'idx' and not y.args[1].is_const:      # a slice of the parts
                        y = y.args[0]
                    if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[0] == v:
                        parts.append(T('idx', y, x.args[1]))
            if not parts:
                ck.ob('settings', 'parse_variable ' + what, v in set(subterms(t)),
                      'the %s does not come from the variable' % what, e.where)
                continue
            for x in parts:
                f, args = x.args[0].args[0].args[1], x.args[0].args[1]
                i = x.args[1].value if x.args[1].is_const else None
                if f == 'split' and isinstance(i, int):
                    kw = dict(x.args[0].args[2])
                    mx = args[1] if len(args) > 1 else kw.get('maxsplit')
                    ok = i == 0 if what == 'key' else (i == 1 and mx == C(1)) or i not in (0, 1)
                    ck.ob('settings', 'parse_variable ' + what, ok,
                          'the key is not the first part' if what == 'key' else
                          'the value is %s: a value containing = is cut' % show(x) if i == 1 else 'the value is the key', e.where)
                else:
                    ck.ob('settings', 'parse_variable ' + what, True, '(undecided)')
    # all lines of a parameter file
    for n, t in readers.items():
        if t != 'params':
            continue
        fl = Flow(rep, opaque=('parse_variable', 'read_config'))
        fl.run_function(mod.name, n)
        pv = [e for e in fl.events if e.kind == 'call' and e.name == 'parse_variable']
        ck.ob('settings', n + ' variables', bool(pv), 'the lines of a parameter file are not parsed', n)
        inc = [e for e in fl.events if e.kind == 'call' and e.name == 'read_config']
        upd = [e for e in fl.events if e.kind == 'call' and e.name == 'update']
        ck.ob('settings', n + ' included files', bool(inc) and bool(upd) or not inc,
              'the configuration of an included file is not used', n)
