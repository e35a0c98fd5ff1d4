"""C05: patch-based processing covers every patch combination once, on one worker."""
import itertools
from collections import Counter
from fractions import Fraction

from ..common import *
from ..pyrepo import AnalysisBroken
from .. import poly
from ..poly import lift
from ..elem import fname
from ..coll import Small, Open, NOTHING

PROP = 'C05'

OPAQUE = ('_clear', '__iadd__', 'process_auto', 'process_cross', 'process_cross12', 'copy', '_set_metric',
          '_make_expanded_patch', '_add_tot', 'unload', 'load', '_trivially_zero', 'clear')
JOBS = ('process_auto', 'process_cross', 'process_cross12')


class Bad(Exception):
    pass


def dbg(*a):
    import os
    if os.environ.get('TC_DEBUG'):
        print('  undecided', *[str(x)[:500] for x in a])


def check(ck):
    rep = repo()
    ck.rule('coverage', 'the events extracted from each patch loop, read over small numbers of patches: every required '
            'combination is computed once from the right catalogs, stored under its own key and added to the total, or '
            'skipped because it is out of range with its total counted', 3)
    ck.rule('workers', 'with the jobs divided among 1 to 4 workers every combination is done by exactly one of them and '
            'the first worker merges the results of all others once', 3)
    ck.rule('existing', 'when results of an earlier call exist under the same key, the new ones are added on a copy and '
            'nothing is lost', 3)
    ck.rule('local', 'local processing treats every patch of the first catalog once with the expanded patches of the '
            'others, and repeats it for the other catalogs when the order is free', 3)
    ck.rule('direct', 'catalogs without patches are processed directly, once', 3)
    ck.rule('npatch', 'the recorded numbers of patches are those of the catalogs, and catalogs divided differently are '
            'refused', 3)
    ck.rule('total', 'a skipped combination adds the product of its total weights to the total and to the entry of its '
            'key', 1)
    ck.rule('dispatch', 'process hands the patches of each catalog to the loop for the number of catalogs given, in '
            'order', 3)
    for base in ('Corr2', 'Corr3'):
        cls = leaf_of(rep, base)
        meths = loop_methods(rep, cls)
        for m in meths:
            Loop(ck, rep, cls, base, m).run()
        dispatch(ck, rep, cls, base, meths)
    for cls in corr_leaves(rep):
        dc, fn = cls.find('_add_tot', 'methods')
        if dc is cls:
            total(ck, rep, cls)


def leaf_of(rep, base):
    want = {'Corr2': 'KKCorrelation', 'Corr3': 'KKKCorrelation'}[base]
    ls = {c.name: c for c in corr_leaves(rep, base)}
    return ls.get(want) or sorted(ls.values(), key=lambda c: c.name)[0]


def loop_methods(rep, cls):
    out = []
    for n in ('_process_all_auto', '_process_all_cross12', '_process_all_cross'):
        dc, fn = cls.find(n, 'methods')
        if fn is not None:
            out.append(n)
    if len(out) < 2:
        raise AnalysisBroken('patch loops of %s not found' % cls.name)
    return out


# ---------------------------------------------------------------------- the abstract state
class World:
    """One small configuration: which catalogs, how they are numbered, what is out of range, which worker."""

    def __init__(self, ncats, sizes, single, local=False, ordered=True, comm=None, tz='no', nz='all', existing=None,
                 empty=False, low_mem=False, catnp=None):
        self.sizes = sizes              # number of patches of each catalog
        self.cats = {a: tuple(('cat', a, i) for i in range(n)) for a, n in sizes.items()}
        self.single = single            # {catalog: list of patch numbers or None}
        self.catnp = catnp or {}
        self.local, self.ordered, self.comm = local, ordered, comm
        self.tz, self.nz, self.existing, self.empty, self.low_mem = tz, nz, existing, empty, low_mem

    def number(self, cat):
        s = self.single.get(cat[1])
        return cat[2] if s is None else s[cat[2]]

    def far(self, cats):
        if self.empty and any(c[0] == 'exp' for c in cats):
            return True
        if self.tz == 'no':
            return False
        nums = [self.number(c[1] if c[0] == 'exp' else c) + c[1][1] * 0 if c[0] == 'exp' else self.number(c)
                for c in cats]
        if len(set(nums)) == 1 and self.tz != 'all':
            return False
        return self.tz == 'all' or (sum(set(nums)) % 2 == 0)

    def filled(self, job):
        if job == 'old':
            return True
        if self.nz == 'all':
            return True
        if self.nz == 'none':
            return False
        return hash_of(job) % 2 == 0


def hash_of(job):
    h = 0
    for c in job[1]:
        h = h * 7 + (c[2] if c[0] == 'cat' else c[1][2] + 3) + 1
    return h + len(job[0])


class Machine:
    def __init__(self, loop, world, others=None):
        self.L, self.w = loop, world
        self.objs = {'self': Counter()}
        self.results = {}
        self.fresh = set()              # keys whose entry was made in this call
        self.tots = Counter()           # keys whose total was added by _add_tot
        self.tot_cats = {}
        self.log = []                   # jobs in order
        self.pending = {}
        self.bound = {}
        self.cache = {}
        self.sent = None
        self.recvd = []
        self.others = others or {}
        self.stored = Counter()
        self.raised = None
        if world.existing:
            for k, kind in world.existing.items():
                self.results[k] = Counter({('old', k): 1}) if kind == 'full' else Counter({('zero', k): 1})
                if kind == 'full':
                    self.objs['self'][('old', k)] += 1
                else:
                    self.objs['self'][('zero', k)] += 1
        self.cleared = {'self'}
        self.names = {SELF: 'self'}
        s = loop
        vals = {T('attr', SELF, 'npatch1'): 1, T('attr', SELF, 'npatch2'): 1, T('attr', SELF, 'npatch3'): 1,
                T('param', 'local'): bool(world.local), T('param', 'low_mem'): world.low_mem}
        vals[T('param', 'comm')] = ('comm',) if world.comm else None
        vals[T('param', 'ordered')] = world.ordered
        for a in world.cats:
            vals[T('param', 'cat%d' % a)] = world.cats[a]
        self.small = Small({}, {}, values=vals, more=self.more, decide=self.decide, static=loop.static)

    # ---- values
    def more(self, t, s, env):
        o, a = t.op, t.args
        if o == 'attr':
            if a[1] in ('_single_patch', 'npatch', 'name', 'coords'):
                c = s.try_val(a[0], env)
                if isinstance(c, tuple) and c[:1] == ('cat',):
                    if a[1] == '_single_patch':
                        v = self.w.single.get(c[1])
                        return NOTHING if v is None else v[c[2]]
                    if a[1] == 'npatch':
                        return self.w.catnp.get(c[1], 1)
                    return a[1] + str(c)
            return None
        if o != 'call':
            return None
        f, args, kw = a
        k, n, r = fname(f)
        if k == 'meth' and n in ('Get_size', 'Get_rank') and s.try_val(r, env) == ('comm',):
            return self.w.comm[1] if n == 'Get_size' else self.w.comm[0]
        if n in ('arange', 'list', 'range', 'tuple', 'reversed', 'sorted', 'enumerate') and k in ('fn', 'np'):
            xs = tuple(v for v, c in s._enum(t, env))
            if n == 'sorted':
                xs = tuple(sorted(xs))
            if n == 'reversed':
                xs = xs[::-1]
            return xs
        if n == 'set' and k == 'fn' and len(args) == 1:
            return frozenset(s.val(args[0], env))
        if n in ('sum', 'count_nonzero') and len(args) == 1 and k in ('fn', 'np'):
            xs = [(v, c.const()) for v, c in s._enum(args[0], env)]
            if all(c is not None for v, c in xs):
                return sum(int(v) * int(c) for v, c in xs)
        if n == '_trivially_zero':
            return self.out_of_range(args, s, env)
        if n == '_make_expanded_patch' and args:
            b = self.L.expand_args(args, kw)
            c1, cs = s.val(b['cat1'], env), s.val(b['cat2'], env)
            for x in self.w.cats:
                if cs == self.w.cats[x]:
                    return ('exp', c1, x)
            raise Open('expanded patch of other catalogs')
        return None

    def decide(self, t, s, env):
        o, a = t.op, t.args
        if o == 'attr' and a[1] in ('nonzero', '_nonzero'):
            ct = self.content(a[0], env)
            if ct is None:
                return None
            return any((j[0] == 'old') or (j[0] != 'zero' and self.w.filled(j)) for j in ct)
        if o == 'call':
            k, n, r = fname(a[0])
            if k == 'fn' and n == 'isinstance' and len(a[1]) == 2:
                c = s.try_val(a[1][0], env)
                if isinstance(c, tuple) and c[:1] in (('cat',), ('exp',)):
                    return c[0] == 'exp' and self.w.empty
        if o == 'cmp' and a[0] in ('is', 'is not') and a[2] is NONE:
            c = s.try_val(a[1], env)
            if isinstance(c, tuple) and c[:1] == ('exp',):
                isn = self.w.empty and self.L.exp_none
                return isn == (a[0] == 'is')
        key, pos = None, True
        if o == 'cmp' and a[0] in ('in', 'not in') and self.is_results(s.strip_keys(a[2])):
            key, pos = a[1], a[0] == 'in'
        elif o == 'cmp' and a[0] in ('is', 'is not') and a[2] is NONE and self.stored_for(a[1]) is not None:
            key, pos = self.stored_for(a[1]), a[0] == 'is not'
        if key is not None:
            ck = (key, t, self.where(env))
            if ck not in self.cache:
                self.cache[ck] = s.val(key, env) in self.results
            return self.cache[ck] == pos
        return None

    def out_of_range(self, args, s, env):
        cs = tuple(s.val(x, env) for x in args)
        if not all(isinstance(c, tuple) and c and c[0] in ('cat', 'exp') for c in cs):
            raise Open('range test of %s' % (cs,))
        if any(c[0] == 'exp' and self.w.empty for c in cs):
            raise Bad('an expanded patch without objects is used')
        return self.w.far(cs)

    def stored_for(self, t):
        """the key term when t is results.get(key)"""
        if t.op == 'call':
            k, n, r = fname(t.args[0])
            if k == 'meth' and n == 'get' and self.is_results(r) and (
                    len(t.args[1]) == 1 or t.args[1][1] is NONE):
                return t.args[1][0]
        return None

    def where(self, env):
        return frozenset((k, v) for k, v in env.items() if isinstance(k, T))

    def is_results(self, t):
        while True:
            if t.op == 'upd':
                t = t.args[0]
            elif t.op == 'loopv':
                t = t.args[-1]
            elif t.op == 'phi':
                t = t.args[2]
            elif t.op == 'attr':
                return t.args[1] == 'results' and t.args[0] is SELF
            else:
                return False

    # ---- objects
    def content(self, t, env):
        """the multiset of jobs an object holds"""
        if t is SELF:
            return self.objs['self']
        if t.op == 'phi':
            return self.content(t.args[1] if self.small.truth(t.args[0], env) else t.args[2], env)
        if t.op == 'copyof' or (t.op == 'call' and fname(t.args[0])[1] == 'copy'):
            src = t.args[0] if t.op == 'copyof' else fname(t.args[0])[2]
            if self.pending.get(src) is not None:
                self.bound[t] = self.pending.pop(src)
            elif t not in self.bound:
                c = self.content(src, env)
                if c is None:
                    return None
                self.bound[t] = Counter(c)
            return self.bound[t]
        if t.op == 'idx' and self.is_results(t.args[0]):
            k = self.small.val(t.args[1], env)
            if k not in self.results:
                raise Bad('the result of %s is used before it exists' % (k,))
            return self.results[k]
        if t.op == 'call' and fname(t.args[0])[0] == 'meth' and fname(t.args[0])[1] == 'get' and \
                self.is_results(fname(t.args[0])[2]):
            k = self.small.val(t.args[1][0], env)
            return self.results.get(k)
        if t.op == 'call' and fname(t.args[0])[1] == 'recv':
            p = self.source(t, env)
            return Counter(self.others[p].objs['self']) if p in self.others else None
        if t.op == 'upd':
            return self.content(t.args[0], env)
        return None

    def source(self, t, env):
        kw = dict(t.args[2])
        x = kw.get('source') or (t.args[1][0] if t.args[1] else None)
        if x is None:
            raise Open('source of recv')
        return self.small.val(x, env)

    # ---- running
    def run(self, events):
        for e, env in self.small.trace(events):
            self.step(e, env)
            if self.raised:
                break
        return self

    def step(self, e, env):
        s = self.small
        if e.kind == 'raise':
            self.raised = e
            return
        if e.kind == 'setitem' and self.is_results(e.recv):
            k = s.val(e.key, env)
            if e.op == '=':
                v = e.value
                c = self.content(v, env)
                if c is None:
                    raise Open('stored result %s' % show(v)[:200])
                if not self.independent(v):
                    raise Bad('the result of %s shares the arrays that the next combination is written into (%s)' % (
                        k, e.where))
                self.results[k] = Counter(c)
                self.fresh.add(k)
                self.stored[k] += 1
                return
            if e.op in ('Add', '+='):
                if k not in self.results:
                    raise Bad('%s is added to before it exists (%s)' % (k, e.where))
                if k not in self.fresh:
                    raise Bad('the existing result of %s is modified in place (%s)' % (k, e.where))
                self.results[k] = self.results[k] + self.need(e.value, env)
                return
            raise Open('results[...] %s' % e.op)
        if e.kind != 'call':
            return
        n, r = e.data.get('name'), e.data.get('recv')
        if n in OPAQUE or n in ('send', 'recv', 'update', 'copy', 'pop', 'setdefault'):
            getattr(self, 'do_' + n.strip('_'), lambda *a: None)(e, r, env)

    def independent(self, v):
        return all(x.op == 'copyof' or (x.op == 'call' and fname(x.args[0])[1] == 'copy') for x in phi_leaves(v)) and \
            not any(x.op == 'copyof' and x.args[0] is SELF for x in phi_leaves(v))

    def need(self, t, env):
        c = self.content(t, env)
        if c is None:
            raise Open('object %s' % show(t)[:200])
        return c

    def do_copy(self, e, r, env):
        if r is None:
            return
        c = self.content(r, env)
        if c is not None:
            self.pending[r] = Counter(c)

    def do_clear(self, e, r, env):
        if r is None:
            return
        c = self.content(r, env)
        if c is None:
            return
        if r is SELF:
            raise Bad('the accumulated total is cleared in the loop (%s)' % e.where)
        c.clear()
        self.cache = {}

    def job(self, e, r, env):
        c = self.content(r, env)
        if c is None:
            raise Open('processing object %s' % show(r)[:200])
        fn = self.L.sig(e.name)
        b = bind_call(fn, e.args, e.kw)
        names = [x for x in ('cat1', 'cat2', 'cat3', 'cat') if x in b]
        cats = tuple(self.small.val(b[x], env) for x in names)
        o = b.get('ordered')
        ordv = self.small.val(o, env) if o is not None else True
        m = b.get('metric')
        if m is not T('param', 'metric'):
            raise Bad('%s is not given the metric (%s)' % (e.name, e.where))
        if b.get('num_threads') is not T('param', 'num_threads'):
            raise Bad('%s is not given num_threads (%s)' % (e.name, e.where))
        for x in cats:
            if not (isinstance(x, tuple) and x and x[0] in ('cat', 'exp')):
                raise Open('catalog %s' % (x,))
            if x[0] == 'exp' and self.w.empty:
                raise Bad('an expanded patch without objects is processed (%s)' % e.where)
        j = (e.name, cats, ordv)
        self.log.append(j)
        c[j] += 1
        self.cache = {}

    do_process_auto = do_process_cross = do_process_cross12 = job

    def do_iadd(self, e, r, env):
        if r is None:
            return
        c = self.content(r, env)
        if c is None:
            raise Open('addition to %s' % show(r)[:200])
        if r.op == 'idx':
            k = self.small.val(r.args[1], env)
            if k not in self.fresh:
                raise Bad('the existing result of %s is modified in place (%s)' % (k, e.where))
        x = e.args[0]
        if x.op == 'call' and fname(x.args[0])[1] == 'recv':
            self.recvd.append(('sum', self.source(x, env)))
        c.update(self.need(x, env))

    def do_add_tot(self, e, r, env):
        k = self.small.val(e.args[0], env)
        cats = tuple(self.small.val(x, env) for x in e.args[1:])
        if r is not SELF:
            raise Bad('the total of %s is added to another object (%s)' % (k, e.where))
        self.tots[k] += 1
        self.tot_cats[k] = cats

    def do_send(self, e, r, env):
        if self.small.try_val(r, env) == ('comm',):
            if e.args[0] is not SELF:
                raise Bad('something other than the result is sent (%s)' % e.where)
            d = e.kw.get('dest') or (e.args[1] if len(e.args) > 1 else None)
            self.sent = self.small.val(d, env)

    def do_update(self, e, r, env):
        if r is None or not self.is_results(r):
            return
        x = e.args[0]
        if x.op == 'attr' and x.args[1] == 'results' and x.args[0].op == 'call' and \
                fname(x.args[0].args[0])[1] == 'recv':
            p = self.source(x.args[0], env)
            self.recvd.append(('results', p))
            if p in self.others:
                for k, v in self.others[p].results.items():
                    self.results[k] = Counter(v)
                    self.fresh.add(k)
                for k, v in self.others[p].tots.items():
                    self.tots[k] += v
            return
        raise Open('results.update(%s)' % show(x)[:100])


def bind_call(fn, args, kw):
    names = [a.arg for a in fn.args.posonlyargs + fn.args.args][1:]
    out = dict(zip(names, args))
    out.update({k: v for k, v in kw.items()})
    return out


# ---------------------------------------------------------------------- one loop
class Loop:
    def __init__(self, ck, rep, cls, base, meth):
        self.ck, self.rep, self.cls, self.base, self.meth = ck, rep, cls, base, meth
        self.kind = meth.replace('_process_all_', '')
        self.ncat = {'auto': 1, 'cross12': 2, 'cross': 2 if base == 'Corr2' else 3}[self.kind]
        self.npt = 2 if base == 'Corr2' else 3
        flow = Flow(rep, maxdepth=8, loop_paths=True, opaque=OPAQUE, prop_opaque=('nonzero', '_nonzero'))
        flow.types[SELF] = cls
        flow.run_method(cls, meth)
        ck.saw_flow(flow)
        self.events = [e for e in flow.events if e.kind in ('call', 'setitem', 'raise')]
        self.statics = {}
        self.name = '%s.%s' % (base, meth)
        dc, fn = cls.find(meth, 'methods')
        self.where = 'treecorr/%s.py:%d (%s)' % (dc.mod.name, fn.lineno, meth)
        owners = [c for c in [cls] + [rep.cls('Corr2'), rep.cls('Corr3')]
                  if c.find('_make_expanded_patch', 'methods')[1] is not None]
        if not owners:
            raise AnalysisBroken('_make_expanded_patch not found')
        self.expander = owners[0].find('_make_expanded_patch', 'methods')
        f2 = Flow(rep, maxdepth=2)
        r = f2.run_method(owners[0], '_make_expanded_patch')
        self.exp_none = any(x is NONE for v in ([r] if isinstance(r, T) else []) for x in phi_leaves(v))

    def sig(self, name):
        dc, fn = self.cls.find(name, 'methods')
        if fn is None:
            raise AnalysisBroken('%s has no %s' % (self.cls.name, name))
        return fn

    def static(self, g):
        if g not in self.statics:
            self.statics[g] = not any(
                (x.op == 'attr' and x.args[1] in ('nonzero', '_nonzero', 'results')) or x.op == 'copyof'
                for x in subterms(g))
        return self.statics[g]

    def expand_args(self, args, kw):
        return bind_call(self.expander[1], args, dict(kw))

    def run(self):
        self.ob('coverage', self.coverage)
        self.ob('workers', self.workers)
        self.ob('existing', self.existing)
        self.ob('local', self.local)
        self.ob('direct', self.direct)
        self.ob('npatch', self.npatch)

    def ob(self, rule, fn):
        try:
            msg = fn()
        except (Open, TypeError, KeyError, IndexError, ValueError, AttributeError, ZeroDivisionError) as e:
            dbg(self.name, rule, type(e).__name__, e)
            return
        except Bad as e:
            msg = str(e)
        self.ck.ob(rule, self.name, msg is None, msg or '', self.where)

    # ---- requirements
    def required(self, w):
        """{key: (Counter of jobs, cats for the total)} of the patch combinations (global method)"""
        out = {}
        num = w.number
        A = w.cats
        if self.npt == 2 and self.kind == 'auto':
            for c in A[1]:
                out[(num(c),) * 2] = [('process_auto', (c,), True)]
            for c, d in itertools.combinations(sorted(A[1], key=num), 2):
                out[(num(c), num(d))] = [('process_cross', (c, d), True)]
        elif self.npt == 2:
            for c in A[1]:
                for d in A[2]:
                    out[(num(c), num(d))] = [('process_cross', (c, d), True)]
        elif self.kind == 'auto':
            cs = sorted(A[1], key=num)
            for c in cs:
                out[(num(c),) * 3] = [('process_auto', (c,), True)]
            for c, d in itertools.combinations(cs, 2):
                out[(num(c), num(d), num(d))] = [('process_cross12', (c, d), False)]
                out[(num(c), num(c), num(d))] = [('process_cross12', (d, c), False)]
            for c, d, e in itertools.combinations(cs, 3):
                out[(num(c), num(d), num(e))] = [('process_cross', (c, d, e), False)]
        elif self.kind == 'cross12':
            for c in A[1]:
                for d in A[2]:
                    out[(num(c), num(d), num(d))] = [('process_cross12', (c, d), w.ordered)]
                for d, e in itertools.combinations(sorted(A[2], key=num), 2):
                    # the pair is only used in one order, so the order of 2 and 3 has to stay free
                    out[(num(c), num(d), num(e))] = [('process_cross', (c, d, e), 1 if w.ordered else False)]
        else:
            for c in A[1]:
                for d in A[2]:
                    for e in A[3]:
                        out[(num(c), num(d), num(e))] = [('process_cross', (c, d, e), w.ordered)]
        return out

    def required_local(self, w):
        out = {}

        def add(c, others, o):
            j = ('process_cross12', (c, ('exp', c, others[0])), o) if self.npt == 3 and len(others) == 1 else \
                ('process_cross', (c,) + tuple(('exp', c, x) for x in others), o)
            out.setdefault((w.number(c),) * self.npt, []).append(j)
        if self.kind == 'auto':
            for c in w.cats[1]:
                add(c, (1,), 1)
        elif self.npt == 2:
            for c in w.cats[1]:
                add(c, (2,), 1)
        elif self.kind == 'cross12':
            for c in w.cats[1]:
                add(c, (2,), 1)
            if not w.ordered:
                for c in w.cats[2]:
                    add(c, (1, 2), 1)
        else:
            for c in w.cats[1]:
                add(c, (2, 3), w.ordered if w.ordered else 1)
            if not w.ordered:
                for c in w.cats[2]:
                    add(c, (1, 3), 1)
                for c in w.cats[3]:
                    add(c, (1, 2), 1)
        return out

    def norm(self, job):
        """jobs that do the same thing"""
        name, cats, o = job
        if self.npt == 2:
            o = 1
            if self.kind == 'auto' and name == 'process_cross' and all(c[0] == 'cat' for c in cats):
                cats = tuple(sorted(cats))
        elif name == 'process_auto':
            o = 0
        elif name == 'process_cross12':
            o = 1 if o else 0
        else:
            o = 3 if o is True or o == 3 else (int(o) if o else 0)
            if o == 0:
                # every order is used
                cats = tuple(sorted(cats))
        return (name, cats, o)

    # ---- checks of one configuration
    def compare(self, w, m, req):
        if m.raised:
            return 'raises for %s (%s)' % (self.describe(w), m.raised.where)
        norm = self.norm
        have = Counter(norm(j) for j in m.log)
        total = Counter()
        for k, jobs in sorted(req.items()):
            want = Counter(norm(j) for j in jobs)
            got = Counter(norm(j) for j in m.results.get(k, {}) if j[0] not in ('old', 'zero')
                          for _ in range(m.results[k][j]))
            skipped = 0
            for j in jobs:
                n = norm(j)
                cats = j[1]
                # what has to be in range
                far = w.far(cats if j[0] != 'process_cross12' else cats + cats[1:]) if j[0] != 'process_auto' else False
                cnt = have[n]
                if cnt > 1:
                    return 'combination %s is computed %d times %s' % (k, cnt, self.describe(w))
                if cnt == 0 and not far:
                    return 'combination %s is not computed %s' % (k, self.describe(w))
                if cnt == 1 and far and w.empty:
                    return 'combination %s is computed although nothing is in range %s' % (k, self.describe(w))
                filled = cnt == 1 and w.filled(j)
                rec = got[n]
                if filled and rec != 1:
                    return 'the result of combination %s is recorded %d times under its key %s' % (k, rec, self.describe(w))
                intot = m.objs['self']
                nt = sum(v for jj, v in intot.items() if jj[0] not in ('old', 'zero') and norm(jj) == n)
                if filled and nt != 1:
                    return 'the result of combination %s is added %d times to the total %s' % (k, nt, self.describe(w))
                if not filled and (nt > 1 or rec > 1 or (nt != rec)):
                    return 'the empty result of combination %s is added %d times to the total and %d times to its ' \
                        'entry %s' % (k, nt, rec, self.describe(w))
                if nt == 0:
                    skipped += 1
            if m.tots[k] != skipped:
                return 'the total weight of combination %s is counted %s %s' % (
                    k, 'twice' if m.tots[k] > skipped else 'nowhere', self.describe(w))
            if skipped and len(jobs) == 1:
                cats = jobs[0][1] if jobs[0][0] != 'process_cross12' else jobs[0][1] + jobs[0][1][1:]
                if sorted(m.tot_cats.get(k, cats)) != sorted(cats):
                    return 'the total weight of combination %s is that of other patches %s' % (k, self.describe(w))
            extra = Counter(got)
            extra.subtract(want)
            if any(v > 0 for v in extra.values()):
                return 'the entry of combination %s holds the result of another one (%s) %s' % (
                    k, [x[:2] for x, v in extra.items() if v > 0][0], self.describe(w))
            if not skipped and k not in m.results:
                return 'nothing is stored for combination %s %s' % (k, self.describe(w))
            if self.must_exist(w, k) and k not in m.results and not w.local:
                return 'nothing is stored for combination %s although other results are completed from it %s' % (
                    k, self.describe(w))
        more = set(m.results) - set(req)
        if w.existing:
            more -= set(w.existing)
        if more:
            return 'a result is stored under %s, which is no combination to compute %s' % (sorted(more)[0],
                                                                                         self.describe(w))
        all_jobs = {norm(j) for js in req.values() for j in js}
        for n in have:
            if n not in all_jobs:
                return '%s of %s (ordered=%s) is computed but not needed %s' % (n[0], n[1], n[2], self.describe(w))
        return None

    def must_exist(self, w, k):
        return len(set(k)) == 1 and len(set(w.sizes.values())) == 1

    def describe(self, w):
        return '(patches %s%s%s%s%s)' % (
            ', '.join(str(n) for a, n in sorted(w.sizes.items())),
            ', numbered %s' % (w.single[1],) if w.single.get(1) else '',
            ', local' if w.local else '',
            ', ordered=%s' % w.ordered if self.npt == 3 and self.kind != 'auto' else '',
            ', worker %d of %d' % w.comm if w.comm else '')

    def universes(self, local=False):
        n = 4 if self.ncat < 3 else 3
        perm = [2, 0, 3, 1][:n] if n == 4 else [2, 0, 1]
        sizes = [{a: n for a in range(1, self.ncat + 1)}]
        if self.ncat > 1:
            for mask in itertools.product((1, n), repeat=self.ncat):
                if 1 in mask and n in mask:
                    sizes.append(dict(zip(range(1, self.ncat + 1), mask)))
        for sz in sizes:
            for numbering in ('index', 'own'):
                single = {a: (perm if numbering == 'own' and sz[a] == n else None) for a in sz}
                for o in ((True, False) if self.npt == 3 and self.kind != 'auto' else (True,)):
                    yield dict(ncats=self.ncat, sizes=sz, single=single, ordered=o)

    def coverage(self):
        for u in self.universes():
            for tz in ('no', 'some'):
                for nz in ('all', 'some', 'none'):
                    w = World(tz=tz, nz=nz, **u)
                    msg = self.compare(w, Machine(self, w).run(self.events), self.required(w))
                    if msg:
                        return msg
        return None

    def existing(self):
        for u in self.universes():
            for nz in ('all', 'some'):
                for full in ('full', 'zero'):
                    w0 = World(**u)
                    req = self.required(w0)
                    ex = {k: full for k in req}
                    for tz in ('no', 'some'):
                        w = World(nz=nz, tz=tz, existing=ex, **u)
                        m = Machine(self, w).run(self.events)
                        msg = self.compare(w, m, req)
                        if msg:
                            return msg + ' when results exist'
                        for k in req:
                            if not any(j[0] in ('old', 'zero') for j in m.results[k]):
                                return 'the %s result that existed for combination %s is dropped %s' % (
                                    'counts of the' if full == 'full' else 'empty', k, self.describe(w))
                            if sum(v for j, v in m.results[k].items() if j[0] in ('old', 'zero')) != 1:
                                return 'the result that existed for combination %s is used twice %s' % (
                                    k, self.describe(w))
                        if sum(v for j, v in m.objs['self'].items() if j[0] in ('old', 'zero')) != len(req):
                            return 'the earlier total is not kept as it was %s' % self.describe(w)
        return None

    def local(self):
        for u in self.universes(local=True):
            for empty in (False, True):
                w = World(local=True, empty=empty, **u)
                m = Machine(self, w).run(self.events)
                msg = self.compare(w, m, self.required_local(w))
                if msg:
                    return msg
        return None

    def workers(self):
        n = 5
        base = [{a: n for a in range(1, self.ncat + 1)}]
        if self.ncat > 1:
            base += [dict(zip(range(1, self.ncat + 1), mask)) for mask in itertools.product((1, n), repeat=self.ncat)
                     if 1 in mask and n in mask]
        if self.ncat == 3:
            base = [{a: min(v, 3) for a, v in b.items()} for b in base]
        for sz in base:
            top = max(sz.values())
            perm = [3, 0, 4, 1, 2] if top == 5 else [2, 0, 1]
            for single in ({a: None for a in sz}, {a: (perm if sz[a] == top else None) for a in sz}):
                for size in (1, 2, 3, 4):
                    for local in (False, True):
                        for o in ((True, False) if self.npt == 3 and self.kind != 'auto' else (True,)):
                            msg = self.team(sz, single, size, local, o)
                            if msg:
                                return msg
        return None

    def team(self, sz, single, size, local, ordered):
        ms = {}
        for rank in list(range(1, size)) + [0]:
            w = World(ncats=self.ncat, sizes=sz, single=single, ordered=ordered, local=local, comm=(rank, size))
            m = Machine(self, w, others=ms if rank == 0 else None)
            m.run(self.events)
            if m.raised:
                return 'raises %s' % self.describe(w)
            if rank > 0 and m.sent != 0:
                return 'the results of worker %d are not sent to the first one' % rank
            ms[rank] = m
        m0 = ms[0]
        for p in range(1, size):
            for what in ('sum', 'results'):
                if m0.recvd.count((what, p)) != 1:
                    return 'the %s of worker %d are merged %d times' % (what, p, m0.recvd.count((what, p)))
        w = m0.w
        req = self.required_local(w) if local else self.required(w)
        own = {}
        for r, m in ms.items():
            for j in m.log:
                own.setdefault(self.norm(j), []).append(r)
        for k, jobs in req.items():
            for j in jobs:
                rs = own.get(self.norm(j), [])
                if len(rs) != 1:
                    return 'combination %s is done by %s %s' % (
                        k, 'no worker' if not rs else 'workers %s' % sorted(rs), self.describe(w).replace(
                            'worker 0 of', 'workers:'))
        m0.log = [j for r in ms.values() for j in r.log]
        if local and len({tuple(sorted(map(str, req)))}) and any(len(js) > 1 for js in req.values()):
            return None         # a key may be shared between workers there: only the division is decided
        return self.compare(w, m0, req)

    def direct(self):
        for o in ((True, False) if self.npt == 3 and self.kind != 'auto' else (True,)):
            w = World(ncats=self.ncat, sizes={a: 1 for a in range(1, self.ncat + 1)},
                      single={a: None for a in range(1, self.ncat + 1)}, ordered=o)
            m = Machine(self, w).run(self.events)
            if m.raised:
                return 'raises for catalogs without patches'
            want = ('process_' + self.kind, tuple(w.cats[a][0] for a in range(1, self.ncat + 1)), o)
            if [self.norm(j) for j in m.log] != [self.norm(want)]:
                return 'catalogs without patches are processed as %s' % (m.log,)
            if m.results:
                return 'catalogs without patches leave patch results'
            if m.objs['self'] != Counter({m.log[0]: 1}):
                return 'the result of catalogs without patches is not accumulated once'
        return None

    def npatch(self):
        stores = {}
        flow = Flow(self.rep, maxdepth=8, loop_paths=True, opaque=OPAQUE, prop_opaque=('nonzero', '_nonzero'))
        flow.types[SELF] = self.cls
        flow.run_method(self.cls, self.meth)
        sts = [e for e in flow.events if e.kind == 'store' and e.obj is SELF and e.attr in
               ('npatch1', 'npatch2', 'npatch3')]
        evs = [e for e in flow.events if e.kind in ('call', 'setitem', 'raise') or e in sts]
        n = 3
        for mask in itertools.product((1, n, 'many'), repeat=self.ncat):
            if all(x == 1 for x in mask) and True:
                continue
            sz, catnp = {}, {}
            for a, x in enumerate(mask, 1):
                sz[a] = n if x == n else 1
                if x == 'many':
                    catnp[a] = n
                elif x == n:
                    catnp[a] = n
            for a in list(sz):
                if mask[a - 1] == n:
                    # patches of a catalog know how many there are
                    catnp[a] = n
            w = World(ncats=self.ncat, sizes=sz, single={a: ([0, 1, 2] if sz[a] == n else None) for a in sz},
                      catnp=catnp)
            m = Machine(self, w)
            final = {}
            for e, env in m.small.trace([e for e in evs if e in sts or e.kind == 'raise']):
                if e.kind == 'raise':
                    return 'refuses catalogs with the same patches (%s)' % e.where
                final[e.attr] = m.small.val(e.value, env)
            for i in range(1, self.npt + 1):
                a = i if self.ncat == self.npt else (1 if self.ncat == 1 else min(i, 2))
                want = catnp.get(a, 1)
                if final.get('npatch%d' % i, 1) != want:
                    return 'npatch%d is %s for catalogs with %s patches' % (i, final.get('npatch%d' % i, 1), [
                        catnp.get(x, 1) for x in sz])
        if self.ncat > 1:
            for mask in itertools.product((1, 3, 4), repeat=self.ncat):
                if not (3 in mask and 4 in mask):
                    continue
                w = World(ncats=self.ncat, sizes=dict(zip(range(1, 4), mask)),
                          single={a: (list(range(x)) if x > 1 else None) for a, x in enumerate(mask, 1)},
                          catnp=dict(zip(range(1, 4), mask)))
                m = Machine(self, w)
                hit = False
                for e, env in m.small.trace([e for e in evs if e.kind == 'raise' or (e.kind == 'call' and
                                                                                    e.name in JOBS)]):
                    if e.kind == 'raise':
                        hit = True
                        break
                    return 'catalogs with %s patches are processed' % (list(mask),)
                if not hit:
                    return 'catalogs with %s patches are accepted' % (list(mask),)
        return None


# ---------------------------------------------------------------------- totals
def total(ck, rep, cls):
    dc, fn = cls.find('_add_tot', 'methods')
    names = [a.arg for a in fn.args.args]
    npt = len(names) - 2
    flow = Flow(rep, maxdepth=4, opaque=('copy', '_zero_copy'))
    flow.types[SELF] = cls
    flow.run_method(cls, '_add_tot')
    ck.saw_flow(flow)
    name = '%s._add_tot' % cls.name
    where = 'treecorr/%s.py:%d (%s)' % (cls.mod.name, fn.lineno, name)
    cats = [T('param', n) for n in names[2:]]
    key = T('param', names[1])
    try:
        for has in (False, True):
            for same in ((False, True) if npt == 3 else (False,)):
                msg = total_case(flow, cats, key, has, same)
                if msg:
                    ck.ob('total', name, False, msg, where)
                    return
    except Open as e:
        dbg(name, e)
        return
    ck.ob('total', name, True)


def total_case(flow, cats, key, has, same):
    S = [poly.sym('w%d' % (i + 1)) for i in range(len(cats))]
    if same:
        S[2] = S[1]
    want = S[0]
    for x in S[1:]:
        want = want * x
    if same:
        want = want * lift(Fraction(1, 2))
    old, entry = poly.sym('total'), poly.sym('entry')
    ident = list(range(len(cats)))
    if same:
        ident[2] = 1

    def is_res(t):
        while t.op in ('upd', 'phi', 'loopv'):
            t = t.args[0] if t.op == 'upd' else t.args[-1]
        return t.op == 'attr' and t.args[1] == 'results' and t.args[0] is SELF

    def is_entry(t):
        if t.op in ('copyof',):
            return is_entry(t.args[0])
        if t.op == 'call' and fname(t.args[0])[1] == 'copy':
            return is_entry(fname(t.args[0])[2])
        return t.op == 'idx' and is_res(t.args[0]) and t.args[1] is key

    def truth(t):
        if t.op == 'not':
            return not truth(t.args[0])
        if t.op in ('and', 'or'):
            vs = [truth(x) for x in t.args[0]]
            return all(vs) if t.op == 'and' else any(vs)
        if t.op == 'cmp':
            op, a, b = t.args
            if op in ('in', 'not in') and a is key and is_res(b):
                return has == (op == 'in')
            if a in cats and b in cats and op in ('is', 'is not', '==', '!='):
                return (ident[cats.index(a)] == ident[cats.index(b)]) == (op in ('is', '=='))
        raise Open('condition %s' % show(t)[:100])

    def ev(t):
        if t.is_const and isinstance(t.value, (int, float)):
            return lift(Fraction(t.value))
        if t.op == 'attr':
            if t.args[1] in ('sumw', '_sumw') and t.args[0] in cats:
                return S[cats.index(t.args[0])]
            if t.args[0] in cats:
                return poly.sym('%s.%s' % (t.args[0].args[0], t.args[1]))
            if t.args[1] == 'tot' and t.args[0] is SELF:
                return state['self']
            if t.args[1] == 'tot' and is_entry(t.args[0]):
                return state['entry']
        if t.op == 'phi':
            return ev(t.args[1] if truth(t.args[0]) else t.args[2])
        if t.op == 'bin':
            a, b = ev(t.args[1]), ev(t.args[2])
            o = t.args[0]
            if o in ('+', 'Add'):
                return a + b
            if o in ('-', 'Sub'):
                return a - b
            if o in ('*', 'Mult'):
                return a * b
            if o in ('/', 'Div') and b.const():
                return a * lift(1 / Fraction(b.const()))
        raise Open('total %s' % show(t)[:150])

    state = {'self': old, 'entry': entry if has else None}
    final = dict(state)
    shared = has
    for e in flow.events:
        if not all(truth(g) == pol for g, pol in e.guards if g.op != 'loop'):
            continue
        if e.kind == 'store' and e.attr == 'tot':
            # the flow writes the value in terms of what was there on entry
            if e.obj is SELF:
                final['self'] = ev(e.value)
            else:
                if shared and is_entry(e.obj) and e.obj.op == 'idx' and e.obj.args[0].op == 'attr':
                    return 'the entry of an earlier call is changed in place'
                final['entry'] = ev(e.value)
        elif e.kind == 'setitem' and is_res(e.recv):
            if e.key is not key:
                return 'the total is recorded under another key'
            v = e.value
            while v.op == 'phi':
                v = v.args[1] if truth(v.args[0]) else v.args[2]
            if v.op == 'call' and fname(v.args[0])[1] == '_zero_copy':
                final['entry'] = ev(v.args[1][0])
                shared = False
            elif is_entry(v):
                shared = v.op == 'idx' and v.args[0].op == 'attr'
            else:
                raise Open('entry %s' % show(v)[:100])
    if (final['self'] - old - want).is_zero() is False:
        return 'the total grows by %s instead of %s' % (final['self'] - old, want)
    we = want + entry if has else want
    if final['entry'] is None:
        return 'no entry is made for the skipped combination'
    if not (final['entry'] - we).is_zero():
        return 'the entry of the skipped combination has the total %s instead of %s%s' % (
            final['entry'], we, ' (earlier result present)' if has else '')
    return None


# ---------------------------------------------------------------------- dispatch
def dispatch(ck, rep, cls, base, meths):
    flow = Flow(rep, maxdepth=5, opaque=OPAQUE + tuple(meths) + (
        'finalize', '_calculateVar1', '_calculateVar2', '_calculateVar3', 'get_patches', 'toSAS', 'process'))
    flow.types[SELF] = cls
    flow.run_method(cls, 'process')
    ck.saw_flow(flow)
    dc, fn = cls.find('process', 'methods')
    where = 'treecorr/%s.py:%d (process)' % (dc.mod.name, fn.lineno)
    npt = 2 if base == 'Corr2' else 3
    for ncat in range(1, npt + 1):
        name = '%s.process with %d catalog%s' % (base, ncat, 's' if ncat > 1 else '')
        want = '_process_all_' + ('auto' if ncat == 1 else 'cross' if ncat == npt else 'cross12')
        msg = None
        try:
            for mode in dispatch_modes(npt):
                for islist in itertools.product((False, True), repeat=ncat):
                    msg = dispatch_case(flow, cls, npt, ncat, islist, mode, want)
                    if msg:
                        break
                if msg:
                    break
        except Open as e:
            dbg(name, e)
            continue
        ck.ob('dispatch', name, msg is None, msg or '', where)


def dispatch_modes(npt):
    if npt == 2:
        for pm in ('global', 'local'):
            yield dict(patch_method=pm, bin_type='Log', algo=None, conv=False, local=pm == 'local')
        return
    for bt, algo, pm, conv, local in (
            ('LogRUV', None, None, False, False), ('LogRUV', 'triangle', 'local', False, True),
            ('LogSAS', 'triangle', None, False, False), ('LogSAS', 'triangle', 'global', False, False),
            ('LogSAS', 'triangle', 'local', False, True), ('LogSAS', None, None, True, None),
            ('LogSAS', 'multipole', 'local', True, None),
            ('LogMultipole', None, None, False, True), ('LogMultipole', 'multipole', 'local', False, True)):
        yield dict(bin_type=bt, algo=algo, patch_method=pm, conv=conv, local=local)


def dispatch_case(flow, cls, npt, ncat, islist, mode, want):
    cats = {a: ('list' if a <= ncat and islist[a - 1] else 'one', a) if a <= ncat else None for a in range(1, npt + 1)}
    vals = {T('param', 'cat%d' % a): v for a, v in cats.items()}
    for p in ('metric', 'num_threads', 'comm', 'low_mem', 'ordered', 'initialize', 'finalize'):
        vals[T('param', p)] = ('param', p)
    vals[T('param', 'patch_method')] = mode['patch_method']
    vals[T('param', 'algo')] = mode['algo']
    vals[T('param', 'max_n')] = None

    def more(t, s, env):
        if t.op == 'attr' and t.args[1] == 'bin_type':
            return mode['bin_type']
        if t.op == 'call':
            k, n, r = fname(t.args[0])
            if n == 'get_patches':
                c = s.val(r, env)
                kw = dict(t.args[2])
                lm = kw.get('low_mem') or (t.args[1][0] if t.args[1] else None)
                if not (isinstance(c, tuple) and c and c[0] == 'one'):
                    return ('patches of', c)
                return ('list', c[1]) if lm is T('param', 'low_mem') else ('wrong low_mem', c[1])
        return None

    def decide(t, s, env):
        if t.op == 'call':
            k, n, r = fname(t.args[0])
            if k == 'fn' and n == 'isinstance':
                c = s.try_val(t.args[1][0], env)
                if isinstance(c, tuple) and c and c[0] in ('list', 'one') and show(t.args[1][1]) in (
                        'list', "list('list')", 'tuple([list, tuple])'):
                    return c[0] == 'list'
        if t in (T('param', 'initialize'), T('param', 'finalize'), T('param', 'low_mem'), T('param', 'ordered')):
            return True
        return None

    small = Small({}, {}, values=vals, more=more, decide=decide)
    loops = [n for n in flow.opaque if str(n).startswith('_process_all')]
    got = []
    for e, env in small.trace([e for e in flow.events if e.kind == 'raise' or (
            e.kind == 'call' and (e.name in loops or e.name in ('process', 'toSAS')))]):
        if e.kind == 'raise':
            return 'raises for %s (%s)' % (describe_mode(mode, islist), e.where)
        got.append((e, env))
    if mode['conv']:
        if [e.name for e, env in got] != ['process', 'toSAS']:
            return 'does not convert from a multipole calculation for %s' % describe_mode(mode, islist)
        e, env = got[0]
        dc, fn = cls.find('process', 'methods')
        b = bind_call(fn, e.args, e.kw)
        for p in ['cat%d' % a for a in range(1, npt + 1)] + ['metric', 'ordered', 'num_threads', 'comm', 'low_mem',
                                                             'patch_method']:
            if p not in b and p.startswith('cat') and cats[int(p[3:])] is None:
                continue
            if p not in b or small.val(b[p], env) != vals[T('param', p)]:
                return 'the multipole calculation is not given %s' % p
        return None
    if [e.name for e, env in got] != [want]:
        return 'uses %s instead of %s for %s' % ([e.name for e, env in got], want, describe_mode(mode, islist))
    e, env = got[0]
    dc, fn = cls.find(want, 'methods')
    b = bind_call(fn, e.args, e.kw)
    for a in range(1, ncat + 1):
        v = small.val(b['cat%d' % a], env)
        if v != ('list', a):
            return '%s gets %s for cat%d' % (want, v, a)
    for p in ('metric', 'num_threads', 'comm', 'low_mem', 'ordered'):
        if p in [x.arg for x in fn.args.args]:
            if p not in b or b[p] is not T('param', p):
                return '%s is not given %s' % (want, p)
    loc = small.val(b['local'], env)
    if bool(loc) != mode['local']:
        return '%s is %scalled with the local method for %s' % (want, '' if loc else 'not ', describe_mode(mode, islist))
    return None


def describe_mode(mode, islist):
    return 'patch_method=%s, bin_type=%s, algo=%s, lists=%s' % (mode['patch_method'], mode['bin_type'], mode['algo'],
                                                                list(islist))
