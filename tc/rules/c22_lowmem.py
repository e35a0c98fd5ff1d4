"""C22: patches loaded on demand are used and released like patches in memory."""
import ast
from collections import Counter

from ..common import *
from ..pyrepo import AnalysisBroken
from ..coll import Open
from .c05_patches import Loop, Machine, World, Bad, leaf_of, loop_methods, dbg
from .c12_copy import cls_props
from .c10_rows import row_columns, fn_of, col_of, ctor_kw, config_keys, Swap
from .c25_cache import strip_enter

PROP = 'C22'


# ---------------------------------------------------------------------- patch loops
class MemMachine(Machine):
    """a patch loop read with the set of patches that are in memory"""

    def __init__(self, loop, world, others=None):
        super().__init__(loop, world, others)
        self.mem = set()
        self.last = {}
        self.unloads = Counter()

    def use(self, c, e):
        if isinstance(c, tuple) and c[:1] == ('cat',):
            self.mem.add(c)
            self.last[c] = e

    def step(self, e, env):
        n = e.data.get('name') if e.kind == 'call' else None
        super().step(e, env)
        if n in ('process_auto', 'process_cross', 'process_cross12', '_trivially_zero', '_add_tot'):
            for a in list(e.args) + list(e.kw.values()):
                self.use(self.small.try_val(a, env), e)
        elif n == '_make_expanded_patch':
            b = self.L.expand_args(e.args, e.kw)
            c1, cs = self.small.val(b['cat1'], env), self.small.val(b['cat2'], env)
            low = b.get('low_mem')
            low = self.small.val(low, env) if low is not None else False
            self.use(c1, e)
            for c in cs:
                if not low:
                    self.use(c, e)
                elif c != c1:
                    self.mem.discard(c)

    def do_unload(self, e, r, env):
        c = self.small.val(r, env) if r is not None else None
        if isinstance(c, tuple) and c[:1] == ('cat',):
            self.mem.discard(c)
            self.unloads[c] += 1


class MemLoop(Loop):
    def run(self):
        self.ob('released', self.released)
        self.ob('same', self.same)

    def worlds(self):
        for u in self.universes():
            for tz in ('no', 'some'):
                yield dict(tz=tz, **u)
        for u in self.universes(local=True):
            yield dict(local=True, **u)

    def released(self):
        for u in self.worlds():
            try:
                m = MemMachine(self, World(low_mem=True, **u)).run(self.events)
            except (Open, Bad):
                if u.get('local'):
                    continue
                raise
            if m.mem and max(u['sizes'].values()) > 1:
                left = sorted(c for c in m.mem if u['sizes'][c[1]] > 1)
                if left:
                    c = left[0]
                    return 'patch %d of catalog %d, last used at %s, stays in memory in low-memory mode %s' % (
                        c[2], c[1], m.last[c].where, self.describe(World(**u)))
        return None

    def same(self):
        for u in self.worlds():
            try:
                a = MemMachine(self, World(low_mem=True, **u)).run(self.events)
                b = MemMachine(self, World(low_mem=False, **u)).run(self.events)
            except (Open, Bad):
                if u.get('local'):
                    continue
                raise
            if Counter(a.log) != Counter(b.log):
                d = list((Counter(a.log) - Counter(b.log)) + (Counter(b.log) - Counter(a.log)))[0]
                return '%s of %s depends on low_mem %s' % (d[0], d[1], self.describe(World(**u)))
            if {k: sorted(map(str, v.elements())) for k, v in a.results.items()} != \
                    {k: sorted(map(str, v.elements())) for k, v in b.results.items()} or a.tots != b.tots or \
                    a.objs['self'] != b.objs['self']:
                return 'what is stored depends on low_mem %s' % self.describe(World(**u))
            if b.unloads:
                return 'patches are unloaded although low_mem is not set %s' % self.describe(World(**u))
        return None


def check_loops(ck, rep):
    for base in ('Corr2', 'Corr3'):
        cls = leaf_of(rep, base)
        for m in loop_methods(rep, cls):
            MemLoop(ck, rep, cls, base, m).run()


# ---------------------------------------------------------------------- low_mem handed on
def functions(rep):
    for mod in rep.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.ClassDef):
                for f in node.body:
                    if isinstance(f, ast.FunctionDef):
                        yield mod, node.name, f
        for f in mod.tree.body:
            if isinstance(f, ast.FunctionDef):
                yield mod, None, f


def params(f):
    return [a.arg for a in f.args.posonlyargs + f.args.args], [a.arg for a in f.args.kwonlyargs]


def check_pass(ck, rep):
    takes = {}
    for mod, cls, f in functions(rep):
        p, k = params(f)
        if 'low_mem' in p + k:
            if cls and p and p[0] in ('self', 'cls'):
                p = p[1:]
            takes.setdefault(f.name, []).append(p.index('low_mem') if 'low_mem' in p else None)
    # other names for them
    for mod in rep.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                v = node.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'staticmethod' and v.args:
                    v = v.args[0]
                n = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
                if n in takes and node.targets[0].id != n:
                    takes.setdefault(node.targets[0].id, []).extend(takes[n])
    for mod, cls, f in functions(rep):
        p, k = params(f)
        if 'low_mem' not in p + k:
            continue
        own = {'low_mem'}
        for x in ast.walk(f):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in own for y in ast.walk(x.value)):
                own |= {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
        where = '%s:%d (%s)' % (mod.path if hasattr(mod, 'path') else mod.name, f.lineno, f.name)
        for x in ast.walk(f):
            if not isinstance(x, ast.Call):
                continue
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if n not in takes:
                continue
            if any(isinstance(a, ast.Starred) for a in x.args) or any(q.arg is None for q in x.keywords):
                ck.ob('pass', '%s %s (undecided)' % (f.name, n), True)
                continue
            v = [q.value for q in x.keywords if q.arg == 'low_mem']
            if not v:
                v = [x.args[i] for i in set(takes[n]) if i is not None and i < len(x.args)]
            ok = any(isinstance(y, ast.Name) and y.id in own for q in v for y in ast.walk(q)) and \
                not any(isinstance(y, ast.Not) for q in v for y in ast.walk(q))
            ck.ob('pass', '%s%s calls %s' % (cls + '.' if cls else '', f.name, n), ok,
                  '%s at line %d is not given low_mem' % (n, x.lineno), where)


# ---------------------------------------------------------------------- loaded before use
class Typestate:
    """which names hold a catalog that is loaded, along the statements of a function"""

    def __init__(self, gone, props, methods):
        self.gone, self.props, self.methods = gone, props, methods
        self.memo = {}

    def summary(self, fn):
        if fn in self.memo:
            return self.memo[fn]
        self.memo[fn] = ([], False)          # cycles: nothing needed, nothing ensured
        r = Run(self, fn)
        st = r.block(fn.body, frozenset())
        ens = 'self' in (st if st is not None else r.exit if r.exit is not None else frozenset())
        if r.exit is not None and st is not None:
            ens = 'self' in st and 'self' in r.exit
        self.memo[fn] = (r.need, ens)
        return self.memo[fn]


class Run:
    def __init__(self, ts, fn):
        self.ts, self.fn = ts, fn
        self.need = []
        self.exit = None

    def join(self, a, b):
        return b if a is None else a if b is None else a & b

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            yes, no = asked_loaded(s.test)
            return self.join(self.block(s.body, st | yes), self.block(s.orelse, st | no))
        if isinstance(s, (ast.For, ast.While)):
            st = self.expr(s.iter if isinstance(s, ast.For) else s.test, st)
            if isinstance(s, ast.For):
                st = st - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            out = self.block(s.body, st)
            st = self.join(st, out)
            return self.block(s.orelse, st)
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            a = self.block(s.body, st)
            for h in s.handlers:
                a = self.join(a, self.block(h.body, st))
            a = self.block(s.orelse, a) if a is not None else None
            return self.block(s.finalbody, a) if a is not None else None
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.expr(s.value, st)
            self.exit = st if self.exit is None else self.exit & st
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            return None
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is not None:
                st = self.expr(s.value, st)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and not isinstance(s, ast.AugAssign):
                    if t.attr in self.ts.gone:
                        st = st | {(t.value.id, t.attr)}
                else:
                    st = self.expr(t, st)
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        st = frozenset(q for q in st if q != x.id and not (isinstance(q, tuple) and q[0] == x.id))
            return st
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                st = self.expr(x, st)
        return st

    def expr(self, e, st):
        if isinstance(e, ast.Lambda):
            return st
        if isinstance(e, ast.BoolOp):
            st = self.expr(e.values[0], st)
            # a presence test that also asks the settings does not rely on what is in memory
            cur = st
            for prev, v in zip(e.values, e.values[1:]):
                cur = cur | asked_loaded(prev)[0 if isinstance(e.op, ast.And) else 1]
                cur = self.expr(v, cur)
            return st
        if isinstance(e, ast.IfExp):
            st = self.expr(e.test, st)
            yes, no = asked_loaded(e.test)
            a, b = self.expr(e.body, st | yes), self.expr(e.orelse, st | no)
            return a & b
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            st = self.expr(e.generators[0].iter, st)
            inner = st
            for g in e.generators[1:]:
                inner = self.expr(g.iter, inner)
            for g in e.generators:
                for c in g.ifs:
                    inner = self.expr(c, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                inner = self.expr(x, inner)
            return st
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
            for a in list(e.args) + [k.value for k in e.keywords]:
                st = self.expr(a, st)
            n, m = e.func.value.id, e.func.attr
            if m == 'load':
                return st | {n}
            if m == 'unload':
                return frozenset(q for q in st if q != n and not (isinstance(q, tuple) and q[0] == n))
            if m in self.ts.methods:
                need, ens = self.ts.summary(self.ts.methods[m])
                if n == 'self' and n not in st:
                    for attr, line, via in need:
                        if (n, attr) not in st:
                            self.need.append((attr, line, via or m))
                if ens:
                    st = st | {n}
            return st
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and isinstance(e.ctx, ast.Load):
            n = e.value.id
            if e.attr in self.ts.gone:
                if n not in st and (n, e.attr) not in st:
                    self.need.append((e.attr, e.lineno, n if n != 'self' else None))
                return st
            if e.attr in self.ts.props and self.ts.summary(self.ts.props[e.attr])[1]:
                return st | {n}
            return st
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                st = self.expr(x, st)
            elif isinstance(x, ast.keyword):
                st = self.expr(x.value, st)
        return st


def asked_loaded(test):
    """names known to be loaded where the test holds, where it does not"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        a, b = asked_loaded(test.operand)
        return b, a
    if isinstance(test, ast.BoolOp):
        ps = [asked_loaded(v) for v in test.values]
        if isinstance(test.op, ast.And):
            return frozenset().union(*[p[0] for p in ps]), frozenset()
        return frozenset(), frozenset().union(*[p[1] for p in ps])
    if isinstance(test, ast.Attribute) and test.attr == 'loaded' and isinstance(test.value, ast.Name):
        return frozenset({test.value.id}), frozenset()
    return frozenset(), frozenset()


def strip_asked(fn, gone):
    """fn without the presence tests that also ask the settings"""
    import copy

    class Drop(ast.NodeTransformer):
        def visit_BoolOp(self, e):
            self.generic_visit(e)
            if isinstance(e.op, ast.Or):
                other = [v for v in e.values if not any(isinstance(x, ast.Attribute) and x.attr in gone for x in ast.walk(v))]
                if other and any(isinstance(x, (ast.Call, ast.Attribute)) for v in other for x in ast.walk(v)):
                    return ast.BoolOp(e.op, other) if len(other) > 1 else other[0]
            return e
    return Drop().visit(copy.deepcopy(fn))


def check_load(ck, rep, cat, cols):
    un = fn_of(cat, 'unload')
    gone = set()
    for x in ast.walk(un):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is None:
            gone |= {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
    if len(gone) < 10:
        # released in another way
        gone = {'_' + c for c in cols}
    gone -= {'_patches'}
    # the loader itself
    loader = {'load', 'unload', 'loaded', '__init__', '__getstate__', '__setstate__', '__repr__', '__copy__'}
    props, methods = {}, {}
    for c in cat.mro[::-1]:
        for n, f in c.methods.items():
            methods[n] = strip_asked(f[0] if isinstance(f, (list, tuple)) else f, gone)
        for n, f in c.props.items():
            props[n] = strip_asked(f[0] if isinstance(f, (list, tuple)) else f, gone)
    # helpers called by the loading methods only
    calls = {}
    for mod, cls, f in functions(rep):
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                calls.setdefault(x.func.attr, set()).add((cls, f.name))
    inner = {'_read_file', '_finish_input'} | loader
    more = True
    while more:
        more = False
        for n in methods:
            if n not in inner and calls.get(n) and all(c == 'Catalog' and m in inner for c, m in calls[n]):
                inner.add(n)
                more = True
    loader |= inner
    ts = Typestate(gone, props, methods)
    # a property returning one column is asked for its own column only
    for n, f in sorted(list(props.items()) + list(methods.items())):
        if n in loader or n.startswith('_') and not n.startswith('__'):
            continue
        need, ens = ts.summary(f)
        need = [x for x in need if x[2] is None or x[2] in methods]
        ck.ob('load', 'Catalog.' + n, not need, '%s is used%s without the catalog being loaded' % (
            need[0][0], ' (in %s)' % need[0][2] if need[0][2] else '') if need else '', 'treecorr/catalog.py:%d' % f.lineno)
    # catalogs other than self
    for mod, cls, f in functions(rep):
        r = Run(ts, strip_asked(f, gone))
        r.block(r.fn.body, frozenset())
        for attr, line, n in r.need:
            if n and n not in methods and n not in ('self', 'cls', 'other', 'ret', 'rhs', 'd', 'new') and attr in gone:
                if any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n and x.attr in props
                       for x in ast.walk(f)) or n.startswith('cat') or n.startswith('c1'):
                    ck.ob('load', '%s %s.%s' % (f.name, n, attr), False, '%s of %s is used without it being loaded' % (attr, n),
                          '%s:%d' % (mod.name, line))


# ---------------------------------------------------------------------- patches from files
def cond_of(t):
    """[(condition, wanted value of it)] under which t is not None, or None"""
    t = strip_enter(t)
    if t.op == 'phi':
        a, b = strip_enter(t.args[1]), strip_enter(t.args[2])
        if b is NONE:
            return [t.args[0]] + (cond_of(a) or [])
        if a is NONE:
            return [t.args[0]] + (cond_of(b) or [])
    return []


def check_files(ck, rep, cat, cols, P):
    from .c10_rows import lookup
    fl = Flow(rep, maxdepth=3, prop_opaque=P, opaque={'load', 'get_patch_file_names', 'get', 'get_from_list'})
    fl.run_method(cat, 'read_patches')
    ck.saw_flow(fl)
    where = 'Catalog.read_patches'
    evs = [e for e in fl.events if e.kind == 'call' and e.name == 'Catalog' and e.recv is None]
    if not evs:
        ck.ob('files', 'read_patches (undecided)', True)
        return
    e = evs[-1]
    groups = {}
    for c in cols:
        v = ctor_kw(e, c + '_col')
        if v is False:
            ck.ob('files', c + ' (undecided)', True)
            continue
        groups[c] = v
    n = 0
    for c in sorted(groups):
        v = groups[c]
        if c in ('patch', 'flag'):
            continue
        if v is None or v is NONE:
            ck.ob('files', c, False, '%s is not read from the patch files' % c, where)
            continue
        leaves = [strip_enter(x) for x in phi_leaves(v)]
        vals = {x.value for x in leaves if x.is_const and x.value not in (None, '0')}
        if not vals:
            ck.ob('files', c + ' (undecided)', True)
            continue
        n += 1
        ck.ob('files', c + ' name', vals == {c}, '%s is read from the column %s' % (c, '/'.join(sorted(map(str, vals)))), where)
        gs = conds_all(v)
        mem = {col_of(x, cols) for g in gs for x in subterms(g)} - {None}
        keys = {k for g in gs for k in config_keys(g)}
        first = {'y': 'x', 'dec': 'ra', 'z2': 'z1', 'v2': 'v1', 'g2': 'g1', 't2': 't1', 'q2': 'q1'}.get(c, c)
        if c in ('x', 'y'):
            continue            # what remains when there is no ra
        ck.ob('files', c + ' in memory', bool(mem & {c, first}), 'whether %s is in memory is not asked' % c, where)
        for suffix in ('_col', '_eval'):
            ck.ob('files', c + suffix, bool(keys & {c + suffix, first + suffix}),
                  '%s%s is not asked: a catalog not yet loaded loses %s in low-memory mode' % (c, suffix, c), where)
    if n < 10:
        ck.ob('files', 'columns (undecided)', True)


def conds_all(t):
    t = strip_enter(t)
    if t.op == 'phi':
        return [t.args[0]] + conds_all(t.args[1]) + conds_all(t.args[2])
    return []


WANT = {'num': '_num', 'is_rand': '_is_rand', 'file_name': 'file_name', 'config': 'config', 'patch_centers': '_centers'}


def check_settings(ck, rep, cat, cols, P):
    for m in ('get_patches', 'read_patches'):
        fl = Flow(rep, maxdepth=3, prop_opaque=P, opaque={'load', 'get_patch_file_names', 'get', 'get_from_list', 'write_patches',
                  'read_patches'})
        fl.run_method(cat, m)
        ck.saw_flow(fl)
        where = 'Catalog.' + m
        for e in fl.events:
            if e.kind != 'call' or e.name != 'Catalog' or e.recv is not None:
                continue
            cfg = ctor_kw(e, 'config')
            fn = ctor_kw(e, 'file_name')
            if fn is None and e.args:
                fn = e.args[0]
            if cfg is not None and cfg is not False:
                kind = 'from the original file'
            elif fn is not None and fn is not False:
                kind = 'from patch files'
            else:
                kind = 'in memory'
            name = '%s %s' % (m, kind)
            for k in ('patch', 'npatch', 'rng'):
                v = ctor_kw(e, k)
                if v is False:
                    continue
                ck.ob('settings', '%s %s' % (name, k), v is not None and v is not NONE, 'patches %s are made without %s' %
                      (kind, k), where)
                if v is None or v is NONE:
                    continue
                if k in ('npatch', 'rng'):
                    xs = {x.args[1].lstrip('_') for x in subterms(v) if x.op == 'attr' and x.args[0] is SELF}
                    ck.ob('settings', '%s %s of self' % (name, k), k in xs or not xs and not v.is_const,
                          '%s of patches %s is %s' % (k, kind, show(v)[:60]), where)
            if kind == 'from the original file':
                for k, a in WANT.items():
                    v = ctor_kw(e, k)
                    if v is False:
                        continue
                    ok = v is not None and any(x.op == 'attr' and x.args[0] is SELF and x.args[1] in (a, k) for x in subterms(v))
                    ck.ob('settings', '%s %s' % (name, k), ok, 'patches %s are made %s' % (
                        kind, 'without %s' % k if v is None else 'with %s=%s' % (k, show(v)[:60])), where)
            else:
                v = ctor_kw(e, 'keep_zero_weight')
                if v is not False:
                    ck.ob('settings', name + ' keep_zero_weight', v is not None and not (v.is_const and not v.value),
                          'objects of zero weight that the catalog keeps are dropped from patches %s' % kind, where)


def check(ck):
    ck.rule('pass', 'every call of a function with a low-memory mode from one is given the same mode', 20)
    ck.rule('load', 'no method uses data that unload discards before loading them', 30)
    ck.rule('files', 'patches are read back with every column the catalog has or would have when loaded', 1)
    ck.rule('settings', 'patches from memory, from patch files and from the original file carry the same settings', 5)
    ck.rule('released', 'in the events of each patch loop read over small numbers of patches with low_mem, every patch is '
            'released after its last use', 3)
    ck.rule('same', 'the computations and what is stored do not depend on low_mem', 3)
    rep = repo()
    check_loops(ck, rep)
    cat = rep.cls('Catalog')
    cols = row_columns(cat)
    P = set(cls_props(cat))
    check_pass(ck, rep)
    check_load(ck, rep, cat, cols)
    check_files(ck, rep, cat, cols, P)
    check_settings(ck, rep, cat, cols, P)
    ck.assumptions += ['the patch files are those write_patches wrote', 'a patch is loaded by any computation using it']
