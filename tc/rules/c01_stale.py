"""C01: derived results never outlive the accumulated data they were computed from.

For every correlation class the caches are discovered from the source: attributes that a
property getter stores on self and whose value depends on accumulated data, plus the attributes
the estimator (calculateXi / calculateZeta) publishes.  Every operation that replaces the
accumulated data is abstractly interpreted from an arbitrary entry state and its exit state must
not contain a surviving entry value of any cache.
"""
from ..common import *
from ..pyrepo import AnalysisBroken
from ..pyflow import State

PROP = 'C01'
OPAQUE = ('estimate_cov', 'estimate_multi_cov')
SHAPE_ONLY = ('zeros_like', 'ones_like', 'empty_like')


def data_dependent(t, data):
    """Does value term t read accumulated data of self (not merely its shape)?"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in SHAPE_ONLY:
            continue
        if x.op == 'attr' and x.args[1] in ('shape', 'size', 'ndim', 'dtype'):
            continue
        if x.op == 'attr' and x.args[0] is SELF and x.args[1] in data:
            return True
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0] is SELF and x.args[0].args[1] in OPAQUE:
            return True
        stack.extend(a for a in x.args if isinstance(a, (T, tuple)))
    return False


def caches_of(cls, ck=None):
    """{attribute: property} of caches holding data-dependent values."""
    acc = {a for a in accumulators(cls) if a}
    data = acc | {'results', 'tot'}
    out = {}
    ptr = set()
    changed = True
    names = []
    seen = set()
    for c in cls.mro:
        for n in c.props:
            if n not in seen:
                seen.add(n)
                names.append((n, n in c.lazy))
    info = []
    for n, lazy in names:
        flow = Flow(cls.repo, opaque=OPAQUE, lazy_opaque=True)
        r = flow.run_method(cls, n, kind='props')
        if ck is not None:
            ck.saw_flow(flow)
        if r is None:
            continue
        if lazy:
            info.append((n, n, r[0]))
        for e in flow.events:
            if e.kind == 'store' and e.obj is SELF:
                info.append((e.attr, n, e.value))
    builder_attr = None
    for a, n, v in info:
        if v.op == 'call' and '_builder' in show(v.args[0]) or v.op == 'call' and '_treecorr' in show(v.args[0]):
            builder_attr = a
    while changed:
        changed = False
        for a, n, v in info:
            if a in out or a == builder_attr or a in acc or a == 'results':
                continue
            if a != '_var_num' and data_dependent(v, data | set(out)):
                out[a] = n
                changed = True
    caches_of.readers = {}
    for a, n, v in info:
        if a in out:
            caches_of.readers.setdefault(a, set()).add(n)
    return out, builder_attr, acc


def entry_survivors(t, attr, allowed=()):
    """Leaves of t that still are the entry value of self.<attr>."""
    ini = T('attr', SELF, attr)
    return ini in phi_leaves(t)


def reset_ok(st, attr):
    k = (SELF, attr)
    if k not in st.heap:
        return False, 'is not reset'
    v = st.heap[k]
    for leaf in phi_leaves(v):
        if leaf is T('attr', SELF, attr):
            return False, 'survives on some path (%s)' % show(v)[:160]
    return True, show(v)[:80]


def lazily(cls):
    return {n for c in cls.mro for n in c.lazy}


def published(cls, flow, st, acc):
    out = []
    for (o, a), v in st.heap.items():
        if o is SELF and a not in acc and a not in ('results',):
            out.append(a)
    return out


def check(ck):
    rep = repo()
    ck.rule('clear', 'clear() leaves no cached or published result of the old data', 80)
    ck.rule('sum', 'replacing the accumulators by a sum of patch results resets the cached variances and covariance', 30)
    ck.rule('read', 'reading a file replaces or resets every cached or published result', 60)
    ck.rule('process', 'processing with initialize set clears the object before anything is accumulated', 42)
    ck.rule('mask', 'adding patch results while estimating discards the patch-pair mask before it is used again', 4)
    ck.rule('publish', 'every published estimator value is recomputed on every normal path of the estimator', 12)
    ck.rule('pointer', 'no operation rebinds an accumulator array while keeping the C++ object built on the old one', 150)
    ck.rule('memo', 'a cached result is recomputed from current data whenever it is unset', 40)
    ck.assumptions.append('objects are changed only through the public interface; adding unfinalized data to an '
                          'object whose results were already used is misuse documented by the package')
    for cls in corr_leaves(rep):
        caches, ptr, acc = caches_of(cls, ck)
        if not caches or ptr is None:
            raise AnalysisBroken('%s: caches %s, C++ handle %s' % (cls.name, sorted(caches), ptr))
        lazy = lazily(cls)
        # what the estimator publishes
        est = next((m for m in ('calculateXi', 'calculateZeta') if cls.method(m)[1] is not None), None)
        pub = set()
        if est:
            flow = Flow(rep, opaque=OPAQUE)
            r = flow.run_method(cls, est)
            ck.saw_flow(flow)
            if r is None:
                raise AnalysisBroken('%s.%s never returns' % (cls.name, est))
            pub = {a for (o, a), v in r[1].heap.items() if o is SELF} - acc - {'results', '_var_num', '_ok'} - lazy
            pub -= {a for a in pub if not data_dependent(r[1].heap[(SELF, a)], acc | {'results', 'tot'}) and
                    not any(l.op == 'param' for l in phi_leaves(r[1].heap[(SELF, a)]))}
            estimator(ck, cls, est, flow, r[1], pub, lazy, acc)
        # clear
        flow = Flow(rep, opaque=OPAQUE)
        r = flow.run_method(cls, 'clear')
        ck.saw_flow(flow)
        fn = cls.method('clear')
        wh = rep.where(fn[0].mod, fn[1])
        for a in sorted(set(caches) | pub):
            ok, why = reset_ok(r[1], a)
            ck.ob('clear', '%s.%s' % (cls.name, a), ok, 'after clear() the value of %s computed from the old data %s'
                  % (a, why), wh)
        for a in sorted(acc) + ['results']:
            ok, why = reset_ok(r[1], a)
            if not ok:      # conditional arrays: only those unused for the bin type may stay
                v = r[1].heap.get((SELF, a))
                ok = v is not None and v.op == 'phi' and 'bin_type' in show(v.args[0])
            ck.ob('clear', '%s.%s' % (cls.name, a), ok, 'after clear() accumulated data %s %s' % (a, why), wh)
        # _sum
        for m, rule in (('_sum', 'sum'),):
            flow = Flow(rep, opaque=OPAQUE)
            r = flow.run_method(cls, m)
            if r is None:
                raise AnalysisBroken('%s.%s' % (cls.name, m))
            ck.saw_flow(flow)
            fn = cls.method(m)
            for a in sorted(set(caches) - lazy - pub):
                ok, why = reset_ok(r[1], a)
                ck.ob(rule, '%s.%s' % (cls.name, a), ok, 'after %s the value of %s computed from the previous data %s'
                      % (m, a, why), rep.where(fn[0].mod, fn[1]))
            pointer(ck, cls, m, flow, r[1], acc, ptr)
        # reading
        m = '_do_read' if cls.method('_do_read')[1] is not None else '_read'
        flow = Flow(rep, opaque=OPAQUE, maxdepth=8)
        r = flow.run_method(cls, m)
        if r is None:
            raise AnalysisBroken('%s.%s' % (cls.name, m))
        ck.saw_flow(flow)
        fn = cls.method(m)
        for a in sorted(set(caches) | pub):
            ok, why = reset_ok(r[1], a)
            ck.ob('read', '%s.%s' % (cls.name, a), ok, 'after reading a file the value of %s computed from the '
                  'previous contents %s' % (a, why), rep.where(fn[0].mod, fn[1]))
        pointer(ck, cls, m, flow, r[1], acc, ptr)
        for m in ('_clear', '__iadd__', 'finalize', '_calculate_xi_from_pairs'):
            flow = Flow(rep, opaque=OPAQUE)
            r = flow.run_method(cls, m)
            if r is not None:
                ck.saw_flow(flow)
                pointer(ck, cls, m, flow, r[1], acc, ptr)
        process(ck, cls)
        memo(ck, cls, caches, lazy)


def pointer(ck, cls, m, flow, st, acc, ptr):
    fn = cls.method(m)
    for a in sorted(acc):
        bad = [e for e in flow.events if e.kind == 'store' and e.obj is SELF and e.attr == a and
               not e.data.get('inplace') and not e.data.get('weak')]
        if bad:
            v = st.heap.get((SELF, ptr), T('attr', SELF, ptr))
            ok = all(l is NONE or l is ABSENT for l in phi_leaves(v))
            ck.ob('pointer', '%s.%s:%s' % (cls.name, m, a), ok,
                  '%s rebinds %s but keeps the C++ object that writes into the old array' % (m, a), bad[0].where)
        else:
            ck.ob('pointer', '%s.%s:%s' % (cls.name, m, a), True, '', '')


def estimator(ck, cls, est, flow, st, pub, lazy, acc):
    fn = cls.method(est)
    wh = cls.repo.where(fn[0].mod, fn[1])
    for a in sorted(pub):
        if a.startswith('_') and not (a == '_cov'):
            continue
        v = st.heap[(SELF, a)]
        leaf_old = T('attr', SELF, a) in phi_leaves(v)
        if a == '_cov':
            continue
        ck.ob('publish', '%s.%s' % (cls.name, a), not leaf_old,
              '%s returns on some path without recomputing %s' % (est, a), wh)
    # results gaining keys: the mask of existing pairs must be dropped before anything uses it
    res = T('attr', SELF, 'results')
    for i, e in enumerate(flow.events):
        if not (e.kind == 'setitem' and (e.recv is res or e.data.get('cell') == (SELF, 'results'))):
            continue
        implied = set(e.guards)
        for g, v in e.guards:
            if g.op == 'loop' and v:
                # the body runs only if the iterated collection is not empty
                ln = T('call', T('global', 'len'), (g.args[1],), ())
                implied |= {(T('cmp', '<', C(0), ln), True), (T('cmp', '==', ln, C(0)), False), (ln, True),
                            (g.args[1], True), (T('cmp', '==', C(0), ln), False)}
        ok = False
        for j, d in enumerate(flow.events):
            if d.kind == 'store' and d.obj is SELF and d.attr == '_ok' and d.value is ABSENT and \
                    set(d.guards) <= implied:
                a, b = min(i, j), max(i, j)
                if not [x for x in flow.events[a:b] if x.kind == 'call' and x.name in OPAQUE]:
                    ok = True
        ck.ob('mask', '%s.%s' % (cls.name, est), ok,
              '%s adds entries to results but the cached patch-pair mask can survive' % est, e.where)


def process(ck, cls):
    rep = cls.repo
    stop = {'_process_all_auto', '_process_all_cross', '_process_all_cross12', '_process_auto', 'process_auto',
            'process_cross', 'process_cross12', '_process_cross12', 'clear', 'finalize', '_calculateVar1',
            '_calculateVar2', '_calculateVar3', 'estimate_cov'}
    flow = Flow(rep, opaque=stop, maxdepth=5)
    r = flow.run_method(cls, 'process', args={'initialize': TRUE, 'max_n': NONE, 'algo': T('param', 'algo')})
    if r is None:
        raise AnalysisBroken('%s.process never returns' % cls.name)
    ck.saw_flow(flow)
    cleared = {}
    n = 0
    for e in flow.events:
        if e.kind != 'call':
            continue
        if e.name == 'clear' and e.recv is not None and flow.types.get(e.recv) is not None:
            if e.recv not in cleared:
                cleared[e.recv] = e.guards
        if e.name and e.name.startswith('_process_all') and e.recv is not None:
            n += 1
            g = cleared.get(e.recv)
            ok = g is not None and set(g) <= set(e.guards)
            ck.ob('process', '%s.%s' % (cls.name, e.name), ok,
                  'process(initialize=True) can accumulate into an object that was not cleared first', e.where)
    if n == 0:
        raise AnalysisBroken('%s.process dispatches to nothing' % cls.name)


def memo(ck, cls, caches, lazy):
    readers = caches_of.readers
    for a in sorted(caches):
        if a in lazy:
            continue
        for p in sorted(readers[a]):
            st = State()
            st.heap[(SELF, a)] = NONE
            flow = Flow(cls.repo, opaque=OPAQUE)
            r = flow.run_method(cls, p, kind='props', state=st)
            ok = r is not None and not any(l is NONE for l in phi_leaves(r[0]))
            fn = cls.prop(p)
            ck.ob('memo', '%s.%s:%s' % (cls.name, p, a), ok, 'property %s returns an unset cache %s' % (p, a),
                  cls.repo.where(fn[0].mod, fn[1]))
