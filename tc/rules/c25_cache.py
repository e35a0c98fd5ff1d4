"""C25: cached search trees are reused only for the settings they were built with.

For each kind of field the chain from the getter over the cache to the constructor of the field is followed by
abstract interpretation: the function given to the cache is interpreted with one marker per argument, so each
constructor parameter is known to come from a key argument, a non-key argument or a constant; the getter is
interpreted to see which of its parameters fills which key argument.  The cache class itself is reduced to the
values it returns, stores and deletes.  Discarding data must clear every cache; the correlation classes must
ask for fields with every setting.
"""
import ast
import re

from ..common import *
from ..pyrepo import AnalysisBroken
from .c12_copy import columns, cls_props, self_attr

PROP = 'C25'
FREE = ('rng', 'logger')            # do not decide what tree is built from given settings (documented)


def field_classes(rep):
    return {c.name: c for c in rep.subclasses('Field')}


def cache_props(rep, cat, ck=None):
    """{property: (cache attribute, cache class)}: properties storing a cache object over a local function"""
    out = {}
    names = {c.name for c in cache_class(rep)}
    for prop in sorted(cls_props(cat)):
        dc, fn = cat.prop(prop)
        if not reaches(cat, fn, names):
            continue
        fl, made = run_cache_prop(rep, cat, prop)
        if not made:
            continue
        kept = {e.attr for e in fl.events if e.kind == 'store' and e.obj is SELF and e.value.op == 'cacheobj'}
        asked = {e.args[1].value for e in fl.events if e.kind == 'call' and e.name in ('hasattr', 'getattr') and
                 len(e.args) > 1 and e.args[0] is SELF and e.args[1].is_const}
        read = {x.args[1] for x in subterms(fl.result[0]) if x.op == 'attr' and x.args[0] is SELF} - {'__dict__'}
        if len(kept) == 1:
            out[prop] = (list(kept)[0], made, fl)
            if ck:
                for what, s in (('asked for', asked), ('returned', read)):
                    ck.ob('own-cache', '%s %s' % (prop, what), not s or s == kept,
                          'the cache is kept in %s but %s in %s' % (', '.join(kept), what, ', '.join(sorted(s))),
                          'Catalog.' + prop)
    return out


def reaches(cat, fn, names, depth=3):
    fn = fn[0] if isinstance(fn, (list, tuple)) else fn
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in names:
            return True
        if depth and isinstance(x, ast.Call) and self_attr(x.func):
            f = cat.method(self_attr(x.func))[1]
            if f is not None and f is not fn and reaches(cat, f, names, depth - 1):
                return True
    return False


def cache_class(rep):
    """classes that keep results of a function by its positional arguments: __call__(self, *key, ...) defined"""
    out = []
    for nm in rep.classes:
        try:
            c = rep.cls(nm)
        except Exception:
            continue
        fn = c.methods.get('__call__')
        if isinstance(fn, (list, tuple)):
            fn = fn[0]
        if fn is not None and fn.args.vararg is not None:
            out.append(c)
    return out


def run_cache_prop(rep, cat, prop):
    names = {c.name for c in cache_class(rep)}
    made = []
    fields = set(field_classes(rep))

    def hook(flow, recv, nm, args, kw, st, node):
        if recv is None and nm in names and args:
            n = nslots(flow, args[0])
            slots = [T('slot', i) for i in range(n if n is not None else 12)]
            free = {k: T('free', k) for k in kwonly(flow, args[0], len(slots))}
            k = len(flow.events)
            flow.call_value(args[0], slots, free, st, node)
            made.append((nm, flow.events[k:], slots))
            return T('cacheobj', prop)
        return None
    fl = Flow(rep, maxdepth=5, prop_opaque=set(cls_props(cat)) - {prop}, opaque=fields | {'load', '_read_file'},
              call_hook=hook)
    fl.result = fl.run_method(cat, prop, kind='props')
    return fl, made


def node_of(flow, v):
    if v.op == 'closure':
        return flow.closures[v.args[0]].node
    return None


def nslots(flow, v):
    """positional arguments of the function that are settings: those without default that are not free ones"""
    n = node_of(flow, v)
    if n is None:
        return None
    a = n.args
    k = len(a.args) - len(a.defaults)
    names = [x.arg for x in a.args[:k]]
    while names and names[-1] in FREE:
        names.pop()
    return len(names)


def kwonly(flow, v, used):
    n = node_of(flow, v)
    if n is None:
        return []
    a = n.args
    return [x.arg for x in a.args[used:]] + [x.arg for x in a.kwonlyargs]


def ctor_args(rep, events):
    """(field class, its __init__, {parameter: term}) of the field constructions among the events"""
    fields = field_classes(rep)
    out = []
    for e in events:
        if e.kind != 'call' or e.name not in fields or e.recv is not None:
            continue
        c = fields[e.name]
        dc, fn = c.method('__init__')
        pos = [a.arg for a in fn.args.args][1:]
        args = dict(zip(pos, e.args))
        args.update({k: v for k, v in e.kw.items() if k and k != '**'})
        out.append((c, fn, args))
    return out


def check_chain(ck, rep, cat):
    props = cache_props(rep, cat, ck)
    if len(props) < 5:
        raise AnalysisBroken('only %d field caches found' % len(props))
    getters = {}
    for nm in sorted({n for c in cat.mro for n in c.methods}):
        m = re.match(r'get([A-Z])Field$', nm)
        if m:
            getters[nm] = m.group(1)
    if len(getters) < 5:
        raise AnalysisBroken('only %d field getters found' % len(getters))
    attrs = {}
    for p, (a, made, fl) in props.items():
        attrs.setdefault(a, []).append(p)
        ck.saw_flow(fl)
    for a, ps in attrs.items():
        ck.ob('own-cache', a, len(ps) == 1, 'the caches of %s are kept in one attribute' % ' and '.join(ps), 'Catalog.' + ps[0])
    for g, letter in sorted(getters.items()):
        dc, fn = cat.method(g)
        want = letter + 'Field'
        P = set(cls_props(cat))
        fl = Flow(rep, maxdepth=4, prop_opaque=P, opaque={'load', '_read_file', 'get'})
        fl.run_method(cat, g)
        ck.saw_flow(fl)
        calls = [e for e in fl.events if e.kind == 'call' and e.data['fn'].op == 'attr' and e.data['fn'].args[0] is SELF and
                 e.data['fn'].args[1] in props]
        where = 'Catalog.%s' % g
        direct = [e for e in fl.events if e.kind == 'call' and e.name in field_classes(rep)]
        if not calls:
            if direct:
                # no cache is used: always a new tree
                ck.ob('key', g, True)
            continue
        for e in calls:
            prop = e.data['fn'].args[1]
            attr, made, fp = props[prop]
            for fc, fi, args, slots in [x + (sl,) for nm, ev, sl in made for x in ctor_args(rep, ev)]:
                ck.ob('kind', g, fc.name == want, '%s returns a %s' % (g, fc.name), where)
                first = [a.arg for a in fi.args.args][1]
                ck.ob('source', g, args.get(first) is SELF, 'the tree is built from %s, not from the catalog itself' %
                      show(args.get(first, NONE))[:80], 'Catalog.' + prop)
                key = dict(zip(slots, e.args))
                params = [a.arg for a in fn.args.args[1:] + fn.args.kwonlyargs]
                for p in params:
                    if p in FREE:
                        continue
                    v = args.get(p)
                    con = '%s %s' % (g, p)
                    if v is None:
                        ck.ob('key', con, False, '%s is accepted but not handed to the tree' % p, where)
                        continue
                    used = {x for x in subterms(v) if x.op in ('slot', 'free')}
                    if any(x.op == 'free' for x in used):
                        ck.ob('key', con, False, '%s of the tree is not part of the key of the cache' % p, 'Catalog.' + prop)
                        continue
                    src = set()
                    for s in used:
                        if s in key:
                            src |= {x.args[0] for x in subterms(key[s]) if x.op == 'param' and x is not SELF}
                        else:
                            src.add('?')
                    if '?' in src:
                        ck.ob('key', con, False, 'the getter gives the cache no value for %s' % p, where)
                        continue
                    ck.ob('key', con, src == {p}, '%s of the tree is %s' %
                          (p, 'the request\'s ' + '/'.join(sorted(src)) if src else 'not taken from the request'), where)
                for p, v in sorted(args.items()):
                    if p in FREE or p in params or p == first:
                        continue
                    ck.ob('key', '%s %s' % (g, p), not any(x.op == 'free' for x in subterms(v)),
                          '%s of the tree is not part of the key' % p, 'Catalog.' + prop)
    return props


def strip_enter(t):
    while t.op == 'enter':
        t = t.args[0]
    return t


def cleared(ck, rep, cat, method, props, by_attr, P):
    fl = Flow(rep, maxdepth=4, prop_opaque=P, opaque={'load', '_read_file'})
    fl.run_method(cat, method)
    ck.saw_flow(fl)
    out, other = {}, []
    for e in fl.events:
        if e.kind == 'call' and e.name in ('clear', 'resize') and e.recv is not None:
            r = strip_enter(e.recv)
            if r.op == 'attr' and r.args[0] is SELF:
                p = r.args[1] if r.args[1] in props else by_attr.get(r.args[1])
                if p:
                    out.setdefault((p, e.name), []).append(e.guards)
        elif e.kind == 'store' and e.obj is SELF and (e.value is ABSENT or e.value is NONE) and e.attr in by_attr:
            out.setdefault((by_attr[e.attr], 'clear'), []).append(e.guards)
        elif e.kind == 'store' and e.obj is SELF:
            other.append(e)
    for x in ast.walk(cat.method(method)[1]):
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if self_attr(t) in by_attr:
                    out.setdefault((by_attr[self_attr(t)], 'clear'), []).append(())
    return fl, out, other


def exists_only(g, attr, by_attr):
    """the guard only asks whether the cache has been made"""
    c, v = g
    if c.op == 'not':
        c, v = c.args[0], not v
    t = show(c)
    return "'%s'" % attr in t and all("'%s'" % a not in t for a in by_attr if a != attr)


def check_clear(ck, rep, cat, props):
    P = set(cls_props(cat))
    by_attr = {a: p for p, (a, m, f) in props.items()}

    for m, what in (('clear_cache', 'clear'), ('resize_cache', 'resize')):
        fl, out, other = cleared(ck, rep, cat, m, props, by_attr, P)
        for p, (a, made, fp) in sorted(props.items()):
            gs = out.get((p, what))
            ok = gs is not None and any(all(exists_only(g, a, by_attr) for g in gg) for gg in gs)
            ck.ob('clear', '%s %s' % (m, p), ok, '%s is not %s by %s' %
                  (p, 'cleared' if what == 'clear' else 'resized', m) if gs is None else
                  '%s is %s only under %s' % (p, 'cleared' if what == 'clear' else 'resized',
                                              '; '.join(show(g[0]) for g in gs[0])), 'Catalog.' + m)
        if m == 'clear_cache':
            ok = any(e.attr == '_field' and not e.guards for e in other)
            weak = weak_attr(cat)
            for w in sorted(weak):
                ck.ob('clear', '%s %s' % (m, w), any(e.attr == w and not e.guards for e in other),
                      'the reference %s to the last tree survives' % w, 'Catalog.' + m)
    # discarding the data
    fl, out, other = cleared(ck, rep, cat, 'unload', props, by_attr, P)
    cols = {'_' + c for c in columns(cat)}
    guards = [e.guards for e in other if e.attr in cols and e.value is NONE]
    base = guards[0] if guards else ()
    for p, (a, made, fp) in sorted(props.items()):
        gs = out.get((p, 'clear'))
        ok = gs is not None and any(all(exists_only(g, a, by_attr) or g in base for g in gg) for gg in gs)
        ck.ob('discard', 'unload %s' % p, ok, 'trees of %s outlive the data they were built from' % p, 'Catalog.unload')
    ok = any(e.attr == '_patches' for e in other) or any(
        e.kind == 'call' and e.name in ('unload', 'clear_cache') and e.recv is not None and
        any(x.op == 'attr' and x.args == (SELF, '_patches') for x in subterms(e.recv)) for e in fl.events)
    ck.ob('discard', 'unload patches', ok, 'the trees of the patches outlive the data', 'Catalog.unload')


def weak_attr(cat):
    """attributes holding a weak reference to the last tree"""
    out = set()
    for c in cat.mro:
        for name, fn in c.methods.items():
            if isinstance(fn, (list, tuple)):
                fn = fn[0]
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and \
                        getattr(x.value.func, 'attr', getattr(x.value.func, 'id', '')) == 'ref':
                    out |= {self_attr(t) for t in x.targets} - {None}
    return out


def check_changes(ck, rep, cat, props):
    """public operations that replace columns (other than loading what is absent and building the catalog)"""
    cols = {'_' + c for c in columns(cat)}
    body = {}
    for c in cat.mro:
        for nm, fn in c.methods.items():
            body.setdefault(nm, fn[0] if isinstance(fn, (list, tuple)) else fn)
        for nm, fn in c.props.items():
            body.setdefault(nm, fn)
    P = set(cls_props(cat))
    by_attr = {a: p for p, (a, m, f) in props.items()}
    stores, calls, onarg = {}, {}, {}
    for nm, fn in body.items():
        s, k = set(), set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for y in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(y, ast.Subscript):
                            y = y.value
                        if self_attr(y) in cols:
                            s.add(self_attr(y))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and self_attr(x.func) in body:
                k.add(self_attr(x.func))
                # given one of the columns to work on: a step of the building of the catalog
                onarg.setdefault(self_attr(x.func), []).append(any(self_attr(y) in cols for y in x.args))
        stores[nm], calls[nm] = s, k
    for nm in sorted(body):
        if nm.startswith('_') or nm in ('load', 'unload') or all(onarg.get(nm, [False])):
            continue
        seen, todo, hit = set(), [nm], set()
        while todo:
            f = todo.pop()
            if f in seen or f in ('load', '__init__'):
                continue
            seen.add(f)
            hit |= stores.get(f, set()) - {'_patch'}
            todo += calls.get(f, ())
        if not hit:
            ck.ob('change', nm, True)
            continue
        fl, out, other = cleared(ck, rep, cat, nm, props, by_attr, P)
        guards = [set(e.guards) for e in other if e.attr in cols]
        for p, (a, made, fp) in sorted(props.items()):
            gs = out.get((p, 'clear'), ())
            ok = any(all(exists_only(g, a, by_attr) or all(g in b for b in guards) for g in gg) for gg in gs)
            ck.ob('change', '%s %s' % (nm, p), ok, '%s replaces %s but keeps trees of %s built from the old values' %
                  (nm, ', '.join(sorted(hit)), p), 'Catalog.' + nm)


def check_lru(ck, rep):
    for c in cache_class(rep):
        fl = Flow(rep, maxdepth=2)
        r = fl.run_method(c, '__call__')
        ck.saw_flow(fl)
        fn = c.methods['__call__']
        KEY = T('param', fn.args.vararg.arg)
        where = '%s.__call__' % c.name
        user = [e for e in fl.events if e.kind == 'call' and e.data['fn'].op == 'attr' and e.data['fn'].args[0] is SELF and
                KEY in {x for a in e.args for x in subterms(a)} and e.name not in ('get',)]
        if not user:
            ck.ob('lru', c.name + ' (undecided)', True)
            continue
        ck.ob('lru', c.name + ' compute', all(len(e.args) >= 1 and (e.args[0] is KEY or e.args[0].op == 'starred' and e.args[0].args[0] is KEY)
                                              for e in user),
              'the function is not called with all of the key', where)
        # what is looked up
        looks = [e for e in fl.events if e.kind == 'call' and e.name == 'get' and e.recv is not None and
                 e.recv.op == 'attr' and e.recv.args[0] is SELF]
        looks = [(strip_enter(e.recv), e.args[0]) for e in looks if e.args]
        for t in subterms(r[0]):
            if t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[0] is SELF and KEY in set(subterms(t.args[1])):
                looks.append((t.args[0], t.args[1]))
        for table, k in looks:
            ck.ob('lru', c.name + ' lookup', k is KEY, 'results are looked up by %s, not by all of the arguments' %
                  show(k)[:80], where)
        tables = {t for t, k in looks}
        sets = [e for e in fl.events if e.kind == 'setitem' and strip_upd(e.recv) in tables and e.op == '=']
        keyed = [e for e in sets if KEY in set(subterms(e.key))]
        ck.ob('lru', c.name + ' store', all(e.key is KEY for e in keyed) if keyed else not sets or all(
            not e.guards for e in sets), 'results are stored under %s' % (show(sets[0].key)[:80] if sets else ''), where)
        # a hit returns one entry of what is kept: that entry has to be the result of the call
        hit = set()
        for t in phi_leaves(r[0]):
            if t.op == 'idx' and t.args[1].is_const and any(
                    x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'get' for x in subterms(t)):
                hit.add(t.args[1].value)
        reused = False
        for e in keyed:
            reused = reused or (e.value.op == 'upd' and strip_upd(e.value).op in ('attr', 'idx'))
            for h in hit:
                v = entry(e.value, h)
                if v is None:
                    continue
                ck.ob('lru', c.name + ' result', v.op == 'call' and KEY in {x for a in v.args[1] for x in subterms(a)},
                      'a hit returns entry %s, which is %s' % (h, show(v)[:80]), where)
        names = {t.args[1] for t in tables if t.op == 'attr'}
        if reused:
            # the entry was in use for another key, which must go
            gone = any(isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) and self_attr(t.value) in names
                                                         for t in x.targets) for x in ast.walk(fn)) or \
                any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'popitem') and
                    self_attr(x.func.value) in names for x in ast.walk(fn))
            ck.ob('lru', c.name + ' evict', gone, 'an entry is used again without removing the key it was kept under', where)
        for m in ('clear',):
            f = c.methods.get(m)
            if f is None or not names:
                continue
            fl = Flow(rep, maxdepth=2)
            fl.run_method(c, m)
            done = {e.recv.args[1] for e in fl.events if e.kind == 'call' and e.name == 'clear' and e.recv is not None and
                    e.recv.op == 'attr' and not e.guards}
            done |= {e.attr for e in fl.events if e.kind == 'store' and e.obj is SELF and not e.guards and
                     strip_upd(e.value).op != 'attr'}
            ck.ob('lru', '%s %s' % (c.name, m), names <= done, 'the kept results are not removed', '%s.%s' % (c.name, m))


def entry(v, k):
    while v.op in ('upd', 'enter'):
        if v.op == 'upd' and len(v.args) == 4 and v.args[1].is_const and v.args[1].value == k:
            return v.args[3]
        v = v.args[0]
    if v.op in ('list', 'tuple') and isinstance(v.args[0], tuple) and isinstance(k, int) and -len(v.args[0]) <= k < len(v.args[0]):
        return v.args[0][k]
    return None


def strip_upd(t):
    while t.op in ('upd', 'enter'):
        t = t.args[0]
    return t


def check_requests(ck, rep, cat):
    getters = {n: f for c in cat.mro for n, f in c.methods.items() if re.match(r'get[A-Z]Field$', n)}
    for cls in corr_leaves(rep):
        for m in sorted({n for c in cls.mro for n in c.methods}):
            if not (m.startswith('process') or m.startswith('_process') or m == 'sample_pairs') or m == 'process':
                continue
            dc, fn = cls.method(m)
            if not mentions_getter(cls, fn):
                continue
            fl = Flow(rep, maxdepth=3, opaque={'_set_metric', '_set_num_threads', '_process_all_auto'},
                      prop_opaque={'corr'})
            try:
                fl.run_method(cls, m)
            except AnalysisBroken:
                continue
            ck.saw_flow(fl)
            cats = [a.arg for a in fn.args.args[1:] if a.arg.startswith('cat')]
            for e in fl.events:
                if e.kind != 'call':
                    continue
                ft = e.data['fn']
                if ft.op != 'attr' or ft.args[1] not in getters:
                    continue
                g = getters[ft.args[1]]
                g = g[0] if isinstance(g, (list, tuple)) else g
                params = [a.arg for a in g.args.args[1:] + g.args.kwonlyargs if a.arg not in FREE]
                con = '%s.%s %s' % (cls.name, m, show(ft.args[0])[:20])
                if any(k is None or k == '**' for k in e.kw):
                    continue
                missing = [p for p in params if p not in e.kw]
                ck.ob('request', con, not missing, 'the tree is asked for without %s' % ', '.join(missing),
                      '%s.%s' % (dc.name, m))
                for p in params:
                    v = e.kw.get(p)
                    if v is None or p in ('min_size', 'max_size'):
                        continue
                    if any(x.op == 'phi' for x in subterms(v)):
                        continue            # chosen by cases: not decided
                    at = {x.args[1].lstrip('_') for x in subterms(v) if x.op == 'attr' and x.args[0] in (
                        SELF, T('attr', SELF, '_ro'))} - {'ro', 'config'}
                    if not at and not (v.is_const or any(x.op == 'attr' for x in subterms(v))):
                        continue            # handed in by the caller
                    ck.ob('request', '%s %s' % (con, p), p in at, '%s is asked for with %s' % (p, show(v)[:80]),
                          '%s.%s' % (dc.name, m))
                # brute = k asks for brute force on the k-th catalog only
                v = e.kw.get('brute')
                if v is not None and ft.args[0].op == 'param' and ft.args[0].args[0] in cats and len(cats) > 1:
                    k = {y.value for x in subterms(v) if x.op == 'cmp' and x.args[0] == '==' for y in x.args[1:]
                         if y.is_const and type(y.value) is int}
                    n = cats.index(ft.args[0].args[0]) + 1
                    ck.ob('request', con + ' brute number', not k or k == {n},
                          'catalog %d is done by brute force when brute is %s' % (n, sorted(k)), '%s.%s' % (dc.name, m))
                a, b = e.kw.get('min_size'), e.kw.get('max_size')
                if a is not None and b is not None:
                    ck.ob('request', con + ' sizes', a is not b, 'the smallest and largest sizes are the same value',
                          '%s.%s' % (dc.name, m))


def check_last(ck, rep, cat):
    """the tree used last may have other settings: a read of it outside the catalog has to compare all of them"""
    weak = weak_attr(cat)
    P = {nm for c in cat.mro for nm, fn in c.props.items() if any(
        self_attr(x) in weak for x in ast.walk(fn[0] if isinstance(fn, (list, tuple)) else fn))}
    settings = {'min_size', 'max_size', 'split_method', 'brute', 'min_top', 'max_top', 'coords'}
    n = 0
    for cls in [rep.cls('Corr2'), rep.cls('Corr3')] + corr_leaves(rep):
        for nm, fn in list(cls.methods.items()) + list(cls.props.items()):
            fn = fn[0] if isinstance(fn, (list, tuple)) else fn
            n += 1
            uses = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and x.attr in P | weak and
                    isinstance(x.ctx, ast.Load) and not (isinstance(x.value, ast.Name) and x.value.id == 'self')]
            if not uses:
                continue
            cmp_ = {y.attr.lstrip('_') for x in ast.walk(fn) if isinstance(x, ast.Compare) for y in ast.walk(x)
                    if isinstance(y, ast.Attribute)}
            miss = sorted(settings - cmp_)
            ck.ob('last', '%s.%s' % (cls.name, nm), not miss,
                  'the tree built last for a catalog is used without comparing its %s' % ', '.join(miss),
                  '%s.%s' % (cls.name, nm))
    ck.ob('last', 'methods', n > 50)


def mentions_getter(cls, fn, depth=3, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(fn, (list, tuple)):
        fn = fn[0]
    if fn is None or fn in seen or depth < 0:
        return False
    seen.add(fn)
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and re.match(r'get[A-Z]Field$', x.attr):
            return True
        if isinstance(x, ast.JoinedStr) and 'Field' in ast.unparse(x):
            return True
        if isinstance(x, ast.Call) and self_attr(x.func):
            f = cls.method(self_attr(x.func))[1]
            if f is not None and mentions_getter(cls, f, depth - 1, seen):
                return True
    return False


def check(ck):
    ck.rule('kind', 'each getter returns its own kind of tree', 1)
    ck.rule('source', 'trees are built from the catalog they are kept with', 1)
    ck.rule('key', 'every setting of a tree is part of the key it is kept under, in its own place', 7)
    ck.rule('own-cache', 'each kind of tree has its own cache', 3)
    ck.rule('clear', 'clearing and resizing reach every cache', 7)
    ck.rule('discard', 'discarding the data of a catalog discards its trees', 3)
    ck.rule('change', 'operations that replace columns discard trees', 10)
    ck.rule('lru', 'the cache looks up, computes and stores by all of its arguments', 1)
    ck.rule('request', 'correlations ask for trees with all their settings', 20)
    ck.rule('last', 'a tree is not used merely because it was built last', 1)
    rep = repo()
    cat = rep.cls('Catalog')
    props = check_chain(ck, rep, cat)
    check_clear(ck, rep, cat, props)
    check_changes(ck, rep, cat, props)
    check_lru(ck, rep)
    check_requests(ck, rep, cat)
    check_last(ck, rep, cat)
    ck.assumptions += ['columns are replaced only through methods of Catalog',
                       'the random numbers used by the random split method are not a setting (documented)']
