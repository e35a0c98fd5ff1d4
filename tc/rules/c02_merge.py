"""C02: merging partial results adds every accumulated quantity exactly once; clearing resets all.

Python: exit values of __iadd__, _sum and _clear of every correlation class (abstract interpretation)
are reduced to a multiset of contributions per accumulated quantity and compared with the definition.
C++: the loops of operator+=, operator=, clear, the copying constructor and the destructor (and the
add/copy/clear/new/delete functions of the estimator blocks) are matched with the pointer fields.
"""
from ..common import *
from ..pyrepo import AnalysisBroken
from ..cxx import load_sources
from ..cxxflow import CFlow, THIS

PROP = 'C02'
BINS = ('LogRUV', 'LogSAS', 'LogMultipole', 'Log', 'Linear', 'TwoD')
# the only quantities that exist for one kind of bins alone
ONLY = {'meanv': ('LogRUV',), 'weighti': ('LogMultipole',)}
OTHER = T('param', 'other')
OTHERS = T('param', 'others')


class Bad(Exception):
    pass


class Parts:
    """contributions that make up a value"""

    def __init__(self, cls, bt, strict=False):
        self.cls, self.bt, self.strict = cls, bt, strict
        self.alias = {}

    def canon(self, name):
        if name not in self.alias:
            dc, fn = self.cls.prop(name)
            self.alias[name] = name
            if fn is not None:
                fl = Flow(self.cls.repo, maxdepth=3)
                r = fl.run_method(self.cls, name, kind='props')
                v = strip(r[0]) if r is not None and r[0] is not None else None
                if v is not None:
                    lv = {strip(x) for x in self.live_leaves(v)}
                    if len(lv) == 1:
                        v = lv.pop()
                        if v.op == 'attr' and v.args[0] is SELF:
                            self.alias[name] = v.args[1]
        return self.alias[name]

    def live_leaves(self, v):
        if v.op != 'phi':
            return [v]
        c = self.atom(v.args[0])
        if c is True:
            return self.live_leaves(v.args[1])
        if c is False:
            return self.live_leaves(v.args[2])
        return self.live_leaves(v.args[1]) + self.live_leaves(v.args[2])

    def atom(self, c):
        """True, False, 'part' (other has something to add), 'loop' or None"""
        if c.is_const:
            return bool(c.value)
        if c.op == 'not':
            v = self.atom(c.args[0])
            return (not v) if isinstance(v, bool) else ('no' + v if isinstance(v, str) else None)
        if c.op in ('==', '!=') or (c.op == 'cmp'):
            a, b = c.args[-2:]
            for x, y in ((a, b), (b, a)):
                if x.is_const and x.value in BINS and 'bin_type' in show(y):
                    return (x.value == self.bt) == (c.op != '!=')
        if c.op == 'in' and 'bin_type' in show(c.args[0]) and c.args[1].op in ('list', 'tuple'):
            vals = [x.value for x in (c.args[1].args[0] if isinstance(c.args[1].args[0], tuple) else c.args[1].args)
                    if x.is_const]
            return self.bt in vals
        if c.op in ('and', 'or'):
            items = c.args[0] if isinstance(c.args[0], tuple) else c.args
            vs = [self.atom(x) for x in items]
            if c.op == 'and':
                if any(v is False for v in vs):
                    return False
                vs = [v for v in vs if v is not True]
                return vs[0] if len(vs) == 1 else (True if not vs else ('part' if all(v in ('part', 'loop') for v in vs)
                                                                        else None))
            if any(v is True for v in vs):
                return True
            vs = [v for v in vs if v is not False]
            return vs[0] if len(vs) == 1 else (False if not vs else None)
        if c.op == 'loop':
            return 'loop'
        if c.op == 'attr' and c.args[1] in ('nonzero', '_nonzero'):
            return 'part'
        if c.op == 'call':
            f = c.args[0]
            x = None
            if show(f) in ('np.any', 'any', 'numpy.any', 'np.count_nonzero', 'bool'):
                x = c.args[1][0] if isinstance(c.args[1], tuple) else c.args[1]
            elif f.op == 'attr' and f.args[1] == 'any':
                x = f.args[0]
            if x is not None and strip(x).op == 'attr' and strip(x).args[1] in ('npairs', 'ntri'):
                return 'part'
            if x is not None and show(f) == 'bool':
                return self.atom(x)
        s = show(c)
        if s.startswith('(len(') and '== 0' in s and 'others' in s:
            return 'nopart'
        if c.op == 'call' and show(c.args[0]) == 'len' or c is OTHERS or c.op == 'comp':
            return 'part'
        return None

    def parts(self, t):
        t = strip(t)
        if t.op == 'phi':
            c, a, b = t.args
            v = self.atom(c)
            if v is True:
                return self.parts(a)
            if v is False:
                return self.parts(b)
            if v in ('nopart', 'noloop'):
                a, b = b, a
                v = v[2:]
            pa, pb = self.parts(a), self.parts(b)
            if v == 'loop':
                return pa if len(pa) >= len(pb) else pb
            if v == 'part':
                if self.strict and pa != pb:
                    raise Bad('is left out unless %s' % show(c)[:80])
                # nothing to add: what remains is what does not come from the other objects
                if pb != [x for x in pa if x[0] == 'self']:
                    raise Bad('is %s when there is nothing to add' % fmt(pb))
                return pa
            if pa == pb:
                return pa
            raise Bad('depends on %s' % show(c)[:100])
        if t.op == 'bin' and t.args[0] in ('+', 'Add'):
            return sorted(self.parts(t.args[1]) + self.parts(t.args[2]))
        if t.op in ('+', 'add', 'Add'):
            return sorted(sum((self.parts(x) for x in t.args), []))
        if t.op == 'fill':
            v = t.args[0]
            if v.is_const and v.value == 0:
                return []
            return self.parts(v)
        if t.is_const and isinstance(t.value, (int, float)) and t.value == 0:
            return []
        if t.op == 'call' and show(t.args[0]) in ('np.zeros_like', 'np.zeros', 'numpy.zeros', 'numpy.zeros_like'):
            return []
        if t.op == 'attr':
            o, nm = t.args
            if o is SELF:
                return [('self', self.canon(nm))]
            if o is OTHER:
                return [('other', self.canon(nm))]
            if o.op == 'elem':
                self.seq(o.args[1])
                return [('each', self.canon(nm))]
            if o.op == 'bv' or show(o).startswith('b1') or o.op == 'bound':
                return [('each', self.canon(nm))]
        if t.op == 'call' and show(t.args[0]) in ('np.sum', 'numpy.sum', 'sum', 'math.fsum', 'np.add.reduce'):
            x = t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1]
            if x.op == 'call' and show(x.args[0]) in ('np.array', 'np.stack', 'list', 'tuple'):
                x = x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]
            if x.op == 'comp':
                elt, gens = x.args[1], x.args[2]
                elt = elt[0] if isinstance(elt, tuple) else elt
                if len(gens) != 1:
                    raise Bad('is %s' % show(t)[:100])
                self.seq(gens[0].args[0])
                self.filter(gens[0].args[1])
                if not self.strict and show(t.args[0]) != 'sum':
                    kw = dict(t.args[2]) if len(t.args) > 2 and t.args[2] else {}
                    ax = kw.get('axis')
                    if ax is None and isinstance(t.args[1], tuple) and len(t.args[1]) > 1:
                        ax = t.args[1][1]
                    if ax is None or not (ax.is_const and ax.value == 0):
                        raise Bad('is summed over the bins as well: %s' % show(t)[:100])
                return self.parts(elt)
        raise Bad('is %s' % show(t)[:120])

    def filter(self, c):
        if c.op == 'and':
            items = c.args[0] if isinstance(c.args[0], tuple) else c.args
        else:
            items = [c]
        for x in items:
            if x.op == 'list':
                continue
            v = self.atom(x)
            if v is True:
                continue
            if v == 'part' and not self.strict:
                continue
            raise Bad('is summed only over those with %s' % show(x)[:80])

    def seq(self, s):
        s = strip(s)
        if s is OTHERS:
            return
        if s.op == 'phi':
            for l in phi_leaves(s):
                self.seq(l)
            return
        if s.op == 'comp':
            elt, gens = s.args[1], s.args[2]
            elt = elt[0] if isinstance(elt, tuple) else elt
            if len(gens) == 1 and elt.op != 'attr':
                self.seq(gens[0].args[0])
                self.filter(gens[0].args[1])
                return
        if s.op == 'call' and show(s.args[0]) in ('list', 'tuple', 'iter'):
            return self.seq(s.args[1][0] if isinstance(s.args[1], tuple) else s.args[1])
        raise Bad('is summed over %s' % show(s)[:80])


def fmt(p):
    return ' + '.join('%s.%s' % x for x in p) or '0'


def strip(t):
    while True:
        if t.op == 'idx' and all(x.op in ('slice',) or show(x) == 'Ellipsis' or show(x) in ('...',)
                                 for x in ([t.args[1]] if t.args[1].op != 'tuple' else list(t.args[1].args[0])
                                           if isinstance(t.args[1].args[0], tuple) else list(t.args[1].args))) and \
                'slice(None, None, None)' in show(t.args[1]):
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in \
                ('ravel', 'reshape', 'view', 'copy', 'flatten'):
            t = t.args[0].args[0]
        else:
            return t


def live(cls, acc):
    """accumulators that are allocated, and the running totals the processing functions add to"""
    fl = Flow(cls.repo, maxdepth=6)
    r = fl.run_method(cls, '__init__')
    heap = r[1].heap
    out = {}
    for a in acc:
        v = heap.get((SELF, a))
        if v is None:
            raise AnalysisBroken('%s.%s is handed to the C++ code but not allocated' % (cls.name, a))
        out[a] = v
    tots = set()
    for m in ('_process_auto', 'process_auto', 'process_cross', 'process_cross12'):
        dc, fn = cls.method(m)
        if fn is None:
            continue
        f2 = Flow(cls.repo, maxdepth=3)
        f2.run_method(cls, m)
        for e in f2.events:
            if e.kind == 'store' and e.obj is SELF and e.data.get('aug') == 'Add':
                tots.add(e.attr)
    return out, tots


def allocated(v, P):
    for l in P.live_leaves(v):
        s = show(l.args[0]) if l.op == 'call' else ''
        if s in ('np.zeros_like', 'np.zeros', 'numpy.zeros', 'np.full', 'np.empty', 'np.empty_like', 'np.zeros_like'):
            return True
    return False


def python(ck):
    rep = repo()
    ck.rule('iadd', 'self += other adds every accumulated quantity of other exactly once', 200)
    ck.rule('sum', '_sum sets every accumulated quantity to the sum over the given objects', 200)
    ck.rule('clear', '_clear sets every accumulated quantity to zero', 200)
    ck.rule('pure', 'merging does not change the contributing objects', 40)
    for cls in corr_leaves(rep):
        acc = [a for a in accumulators(cls) if a]
        init, tots = live(cls, acc)
        bts = ('LogRUV', 'LogSAS', 'LogMultipole') if 'Corr3' in [c.name for c in cls.mro] else ('Log',)
        runs = {}
        for m in ('__iadd__', '_sum', '_clear'):
            dc, fn = cls.method(m)
            if fn is None:
                raise AnalysisBroken('%s has no %s' % (cls.name, m))
            fl = Flow(cls.repo, maxdepth=7, types={OTHER: cls})
            ps = [a.arg for a in fn.args.args][1:]
            r = fl.run_method(cls, m, args=({ps[0]: OTHER if m == '__iadd__' else OTHERS} if ps else None))
            if r is None:
                raise AnalysisBroken('%s.%s has no normal exit' % (cls.name, m))
            runs[m] = (fl, r, fn)
            ck.saw_flow(fl)
            bad = None
            if m != '_clear':
                for e in fl.events:
                    if e.kind == 'store' and not e.data.get('lazy'):
                        if any(l is OTHER or l.op in ('elem', 'bv') and 'others' in show(l)
                               for l in phi_leaves(e.obj)) and e.attr in set(acc) | tots | {'results', '_cov', 'config'}:
                            bad = bad or (e, e.attr)
                    if e.kind == 'call' and e.name in ('clear', '_clear', '__iadd__', '_sum') and e.recv is not None \
                            and (e.recv is OTHER or e.recv.op == 'elem'):
                        bad = bad or (e, e.name)
                ck.ob('pure', '%s.%s' % (cls.name, m), bad is None,
                      'changes %s of the contributing object' % bad[1] if bad else '', bad[0].where if bad else '')
        for bt in bts:
            P = Parts(cls, bt)
            need = []
            for a, v in init.items():
                if a in ONLY and bt not in ONLY[a]:
                    continue
                if allocated(v, P):
                    need.append(a)
            for a in need + sorted(tots):
                for m, rule, want in (('__iadd__', 'iadd', sorted([('self', a), ('other', a)])),
                                      ('_sum', 'sum', [('each', a)]), ('_clear', 'clear', [])):
                    fl, r, fn = runs[m]
                    v = r[1].heap.get((SELF, a))
                    Q = Parts(cls, bt, strict=a in tots)
                    where = '%s (%s.%s)' % (cls.method(m)[0].mod.name if hasattr(cls.method(m)[0].mod, 'name') else '',
                                            cls.method(m)[0].name, m)
                    con = '%s.%s %s%s' % (cls.name, m, a, ' ' + bt if len(bts) > 1 else '')
                    if v is None:
                        ck.ob(rule, con, False, '%s is not changed' % a, where)
                        continue
                    try:
                        got = Q.parts(v)
                        ck.ob(rule, con, got == want, '%s becomes %s' % (a, fmt(got)), where)
                    except Bad as x:
                        ck.ob(rule, con, False, '%s %s' % (a, x), where)


# ---------------------------------------------------------------------------- C++

MODES = {'add': 'add', 'operator+=': 'add', 'copy': 'copy', 'operator=': 'copy', 'clear': 'clear',
         'new_data': 'new', 'delete_data': 'delete'}
WORD = {'add': 'added', 'copy': 'copied', 'clear': 'set to zero', 'new': 'allocated', 'delete': 'released'}


def cxx(ck):
    S = load_sources()
    ck.rule('cxx', 'every accumulator array of a C++ result is added, copied, cleared, allocated and released '
                   'exactly once, over all its elements', 100)
    ck.rule('cxx-block', 'the estimator block of a C++ result is added, copied, cleared, allocated and released '
                         'together with the other arrays', 8)
    for c in S.classes:
        ptrs = [f[1] for f in c.fields if f[0].replace(' ', '') == 'double*']
        fns = [f for f in S.functions if f.cls == c.name and owner(f, c, S)]
        modes = {}
        for f in fns:
            m = MODES.get(f.name)
            if f.name == c.name and any('copy_data' == p.name or c.name in p.type for p in f.params):
                m = 'new'
            if f.name.startswith('~'):
                m = 'delete'
            if m and f.body is not None:
                modes.setdefault(m, []).append(f)
        if not ptrs or 'add' not in modes or 'clear' not in modes:
            continue
        label = c.name + ('<%s>' % ','.join(c.targs) if c.targs else '')
        for m, fs in sorted(modes.items()):
            for f in fs:
                one(ck, S, c, label, ptrs, m, f)


def owner(f, c, S):
    if f in c.methods:
        return True
    same = [k for k in S.classes if k.name == c.name]
    return len(same) == 1 or (f.ctargs is not None and c.targs and [x.strip() for x in f.ctargs] ==
                              [x.strip() for x in c.targs])


def exists(c, fld):
    """boolean fields that say whether the array exists: initialised by a null test of the argument it is set from"""
    out = set()
    for f in load_sources().functions:
        if f.cls == c.name and f.name == c.name and f.inits and (f in c.methods or len(
                [k for k in load_sources().classes if k.name == c.name]) == 1):
            src_ = {nm: [x for x in (a if isinstance(a, (list, tuple)) else [a])] for nm, a in f.inits}
            ptr = src_.get(fld)
            if not ptr or len(ptr) != 1 or ptr[0].k != 'name':
                continue
            for nm, a in src_.items():
                if len(a) == 1 and a[0].k == 'bin' and a[0].a[0] == '!=':
                    names = [x.a[0] for x in a[0].a[1:] if x.k == 'name']
                    if ptr[0].a[0] in names:
                        out.add(nm)
    return out


def null_test(g, fld, flags=()):
    """the guard only asks whether the array exists"""
    t, v = g
    while t.op == 'not':
        t, v = t.args[0], not v
    if t.op == '==' and any(x.is_const or show(x) in ('global(nullptr)', 'nullptr') for x in t.args):
        t = t.args[0] if t.args[1].is_const or 'nullptr' in show(t.args[1]) else t.args[1]
        v = not v
    return v and t.op == 'field' and (t.args[1] == fld or t.args[1] in flags)


def one(ck, S, c, label, ptrs, m, f):
    fl = CFlow(follow='all', stop=('clear', 'add', 'copy', 'new_data', 'delete_data', 'operator=', 'operator+='))
    fl.run(f)
    ck.saw(f.qual)
    con = '%s::%s' % (label, f.name)
    size = None
    for p in f.params:
        if p.type.strip() in ('int', 'long', 'size_t', 'const int'):
            size = T('param', p.name)
    RHS = None
    for p in f.params:
        if c.name in p.type:
            RHS = T('param', p.name)
    done = {}
    bad = {}
    sizes = set()
    for e in fl.events:
        if e.kind == 'write' and m in ('add', 'copy', 'clear'):
            lv = e.lv
            if lv.op != 'idx' or lv.args[0].op != 'field' or lv.args[0].args[1] not in ptrs:
                continue
            fld = lv.args[0].args[1]
            if lv.args[0].args[0] is not THIS:
                bad[fld] = (e, 'writes %s of the other object' % fld)
                continue
            i = lv.args[1]
            L = e.loops[-1] if e.loops else None
            if L is None or L['var'] is not i or not (L['lo'] is C(0)) or L['cond'].op != '<' or \
                    L['cond'].args[0] is not i:
                bad[fld] = (e, '%s is not written over the whole array' % fld)
                continue
            sizes.add(L['cond'].args[1])
            if m == 'clear':
                okr = e.op == '=' and e.rhs.is_const and e.rhs.value == 0
            else:
                src = T('idx', T('field', RHS, fld), i) if RHS is not None else None
                okr = src is not None and (
                    (e.op == ('+=' if m == 'add' else '=') and e.rhs is src) or
                    (m == 'add' and e.op == '=' and e.rhs.op == 'bin' and e.rhs.args[0] == '+' and
                     set(e.rhs.args[1:]) == {lv, src}))
            if not okr:
                bad[fld] = (e, '%s[i] %s %s' % (fld, e.op, show(e.rhs)[:100]))
                continue
            if not all(null_test(g, fld, exists(c, fld)) for g in e.guards):
                bad[fld] = (e, '%s is %s only under a condition' % (fld, WORD[m]))
                continue
            done[fld] = done.get(fld, 0) + 1
        elif e.kind == 'write' and m in ('new',):
            lv = e.lv
            if lv.op == 'field' and lv.args[0] is THIS and lv.args[1] in ptrs and e.op == '=':
                fld = lv.args[1]
                for l in phi_leaves(e.rhs):
                    if l.op == 'newobj':
                        sizes.add(l.args[2])
                        if all(null_test(g, fld, exists(c, fld)) for g in e.guards):
                            done[fld] = done.get(fld, 0) + 1
        elif e.kind == 'delete' and m == 'delete':
            t = e.target
            if t.op == 'field' and t.args[1] in ptrs:
                done[t.args[1]] = done.get(t.args[1], 0) + 1
        elif e.kind == 'call' and e.name in ('fill', 'fill_n', 'copy', 'copy_n', 'memset', 'memcpy') and e.recv is None:
            dst = {'fill': 0, 'fill_n': 0, 'copy': 2, 'copy_n': 2, 'memset': 0, 'memcpy': 0}[e.name]
            if dst < len(e.args):
                t = e.args[dst]
                if t.op == 'field' and t.args[0] is THIS and t.args[1] in ptrs:
                    want = {'fill': 'clear', 'fill_n': 'clear', 'memset': 'clear'}.get(e.name, 'copy')
                    if m == want:
                        done[t.args[1]] = done.get(t.args[1], 0) + 1
    for fld in ptrs:
        k = done.get(fld, 0)
        if fld in bad:
            ck.ob('cxx', '%s %s' % (con, fld), False, bad[fld][1], bad[fld][0].where)
        else:
            ck.ob('cxx', '%s %s' % (con, fld), k == 1,
                  '%s is %s %s' % (fld, 'not' if k == 0 else '%d times' % k, WORD[m]),
                  '%s:%s' % (f.fname, f.line) if hasattr(f, 'line') else '')
    if len(sizes) > 1:
        ck.ob('cxx', con + ' extent', False, 'arrays are treated with different lengths: %s' %
              ', '.join(sorted(show(s) for s in sizes)), '')
    # blocks
    blocks = [x[1] for x in c.fields if any(k.name == x[0].split('<')[0].strip() for k in S.classes) and
              any(d.name == 'add' for k in S.classes if k.name == x[0].split('<')[0].strip() for d in k.methods)]
    want = {'add': 'add', 'copy': 'copy', 'clear': 'clear', 'new': 'new_data', 'delete': 'delete_data'}[m]
    for b in blocks:
        calls = [e for e in fl.events if e.kind == 'call' and e.name == want and e.recv is T('field', THIS, b)]
        ok = len(calls) == 1 and not calls[0].loops
        if ok and m in ('add', 'copy'):
            ok = calls[0].args[0] is T('field', RHS, b)
        if ok and sizes and len(calls[0].args) > 0 and m != 'delete':
            ok = calls[0].args[-1] in sizes
        ck.ob('cxx-block', '%s %s' % (con, b), ok, '%s is not %s exactly once with its full length' % (b, WORD[m]),
              calls[0].where if calls else '')


def check(ck):
    python(ck)
    cxx(ck)
