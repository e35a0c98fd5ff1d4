"""C06: every argument handed to compiled code arrives in the slot of the same meaning."""
import ast
import re

from ..pyrepo import AnalysisBroken
from ..pyflow import Flow, T, C, NONE, phi_leaves, show, subterms
from ..common import repo, corr_leaves, builder_call, SELF
from ..bind import table
from ..cxx import load_sources, walk, src, children, N, split_q
from ..cxxutil import base

PROP = 'C06'

# names used for one thing in the two languages (canonical spelling on the right)
SYN = {'angleslop': 'a', 'outputdots': 'dots', 'bintype': 'bintype', 'coords': 'coords', 'cen': 'centers',
       'patches': 'patch', 'p': 'patch', 'weightr': 'weight', 'weighti': 'weightim', 'weightip': 'weightim', 'ntrip': 'ntri',
       'field1': 'field1', 'f1': 'field1', 'f2': 'field2', 'f3': 'field3', 'numpatch': 'npatch', 'splitmethod': 'sm',
       'xperiod': 'xp', 'yperiod': 'yp', 'zperiod': 'zp', 'minsep': 'minsep', 'singlepatch': 'patch', 'use': 'use',
       'weightp': 'weight', 'npairsp': 'npairs', 'zx': 'z', 'wpx': 'wpos', 'rx': 'r'}


def canon(s):
    """spelling-independent form of a name: no underscores, array suffix p dropped"""
    s = s.replace('_', '').lower()
    return SYN.get(s, s)


def canon_c(s, types=''):
    t = s.replace('_', '').lower()
    if 'array' in types and t.endswith('p') and len(t) > 1:
        t = t[:-1]
    return SYN.get(t, t)


def arg_names(t):
    """names an argument term goes by: its attribute or variable names, through array views"""
    out = set()
    for l in phi_leaves(t):
        x = l
        while x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('ravel', 'reshape', 'view', 'astype'):
            x = x.args[0].args[0]
        if x.op == 'attr':
            if x.args[1] == 'data' and x.args[0].op in ('attr', 'param', 'local', 'call'):
                x = x.args[0]
                if x.op == 'attr':
                    out.add(x.args[1])
                elif x.op == 'param':
                    out.add(x.args[0])
            else:
                out.add(x.args[1])
        elif x.op == 'param':
            out.add(x.args[0])
        elif x.is_const:
            pass
    return out


def check(ck):
    rep = repo()
    S = load_sources()
    tab = table()
    ck.rule('exists', 'Every compiled class, function and enumerator Python names is exported, and every method called '
            'on a compiled object is an exported method.', 120)
    ck.rule('arity', 'Each call of a compiled function passes as many arguments as its parameter list has.', 55)
    ck.rule('slot', 'No argument is passed in a slot that carries the name of a different argument of the same call '
            '(names compared without underscores, prefixes and array suffixes).', 650)
    ck.rule('component', 'The array Python reports under a name is the one the compiled class accumulates in the field '
            'of that name, and arrays are allocated for exactly the components the compiled class has.', 150)
    ck.rule('relay', 'Inside the compiled wrappers each parameter is handed on to the parameter or field of the same '
            'name.', 2000)
    ck.rule('field', 'The field in each slot of a compiled correlation is built from the catalog of that number, with '
            'the data type and the brute-force flag of that number.', 10)
    calls = collect(ck, rep, tab)
    for e, b, label in calls:
        slots(ck, e, b, label)
        fields(ck, e, b, label)
    names(ck, rep, tab)
    components(ck, rep, tab, S)
    relay(ck, S, tab)
    ck.assumptions.append('a parameter name in the compiled sources or an attribute name in Python denotes the same '
                          'quantity wherever both name it')


def mentions(fn, words):
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and x.attr in words:
            return True
    return False


def collect(ck, rep, tab):
    """every call event reaching a compiled callable"""
    words = {b.name for b in tab.bound if b.name != '__init__'} | {b.owner for b in tab.bound if b.name == '__init__'}
    out = []
    for cls in corr_leaves(rep):
        dc, fn, e, flow = builder_call(cls)
        ck.saw_flow(flow)
        out.append((e, ctor_of(rep, tab, cls), cls.name + ' builder'))
    seen = set()
    units = []
    for c in sorted(rep.classes.values(), key=lambda c: c.name):
        for kind, t in (('methods', c.methods), ('props', c.props)):
            for nm, fn in sorted(t.items()):
                if mentions(fn, words):
                    units.append((c, nm, kind, fn))
    for m in rep.modules.values():
        for nm, fn in sorted(m.funcs.items()):
            if mentions(fn, words):
                units.append((m, nm, None, fn))
    for o, nm, kind, fn in units:
        flow = Flow(rep, maxdepth=1)
        if kind:
            flow.run_method(o, nm, kind=kind)
        else:
            flow.run_function(o.name, nm)
        ck.saw_flow(flow)
        for e in flow.events:
            if e.kind != 'call':
                continue
            f = e.data['fn']
            direct = f.op == 'attr' and f.args[0].op == 'global' and f.args[0].args[0] == '_treecorr'
            if not direct and not (e.recv is not None and e.name in words and compiled_recv(e.recv)):
                continue
            b = tab.of_call(e)
            key = (e.where, id(b))
            if b is None or key in seen:
                continue
            seen.add(key)
            out.append((e, b, '%s.%s:%s' % (o.name, nm, b.name if b.is_method else b.owner or b.name)))
    return out


def ctor_of(rep, tab, cls):
    b = builder_name(cls)
    c = tab.ctor(b)
    if c is None:
        raise AnalysisBroken('the compiled class of %s is not found (%s)' % (cls.name, b))
    return c


def builder_name(cls):
    for c in cls.mro:
        if '_builder' in c.attrs:
            v = c.attrs['_builder']
            if isinstance(v, ast.Attribute):
                return v.attr
            if isinstance(v, ast.Name):
                return v.id
    return None


def compiled_recv(r):
    """the receiver is a compiled object: x.data, x.corr, self._corr or what a builder returned"""
    for l in phi_leaves(r):
        if l.op == 'attr' and l.args[1] in ('data', 'corr', '_corr'):
            return True
        if l.op == 'call' and ('_treecorr' in show(l.args[0]) or '_builder' in show(l.args[0])):
            return True
    return False


def slots(ck, e, b, label):
    ps = b.params
    fs = [f for f in b.funcs]
    n = len(e.args)
    counts = {len(f.params) - (1 if b.is_method and not f.cls else 0) for f in fs}
    star = any(a.op == 'star' for a in e.args)
    ck.ob('arity', label, star or (n in counts and not e.kw),
          'passes %d arguments to %s, which takes %s' % (n, b.cname, sorted(counts)), e.where)
    if star or n not in counts:
        return
    slotn = [canon_c(p.name, p.type) for p in ps]
    argn = [{canon(x) for x in arg_names(a)} for a in e.args]
    for i, a in enumerate(e.args):
        q = slotn[i]
        bad = None
        if re.match(r'(xi|zeta)\d$', q):
            continue            # judged by the component rule
        mine = argn[i]
        if mine and q not in mine:
            other = [m for m in mine if m in slotn]
            if other:
                bad = 'argument %s is passed as %s' % (show(a)[:60], ps[i].name)
            elif any(q in argn[j] for j in range(n) if j != i):
                bad = '%s is passed where %s is expected' % (show(a)[:60], ps[i].name)
        elif not mine and any(q in argn[j] for j in range(n) if j != i):
            bad = '%s is passed where %s is expected' % (show(a)[:60], ps[i].name)
        if bad is None and mine and not (q in mine):
            # a numbered name: f1 for field1, xi1 for xi0
            d = {re.sub(r'\D', '', m) for m in mine}
            qd = re.sub(r'\D', '', q)
            stem = re.sub(r'\d', '', q)
            same = [j for j in range(n) if re.sub(r'\d', '', slotn[j]) == stem and j != i]
            if qd and len(d) == 1 and list(d)[0] and same:
                k = int(list(d)[0]) - int(qd)
                for j in same:
                    dj = {re.sub(r'\D', '', m) for m in argn[j]}
                    if len(dj) == 1 and list(dj)[0] and int(list(dj)[0]) - int(re.sub(r'\D', '', slotn[j])) != k:
                        bad = '%s is passed as %s but %s as %s' % (show(a)[:40], ps[i].name, show(e.args[j])[:40],
                                                                  ps[j].name)
        ck.ob('slot', '%s %s' % (label, ps[i].name), bad is None, bad or '', e.where)


def fields(ck, e, b, label):
    """field slot k of a correlation comes from catalog k"""
    ps = [p for p in b.params]
    if len(ps) != len(e.args):
        return
    n = 0
    slots = [(p, a) for p, a in zip(ps, e.args) if 'Field' in p.type]
    for p, a in slots:
        n += 1
        got = {}
        for t in subterms(a):
            if t.op == 'param' and re.match(r'cat\d$', t.args[0]):
                got['catalog'] = got.get('catalog', set()) | {int(t.args[0][3:])}
            elif t.op == 'attr' and re.match(r'_letter\d$', t.args[1]):
                got['letter'] = got.get('letter', set()) | {int(t.args[1][7:])}
            elif t.op in ('eq', '==', 'cmp') and 'brute' in show(t):
                for c in subterms(t):
                    if c.is_const and type(c.args[0]) is int:
                        got['brute flag'] = got.get('brute flag', set()) | {c.args[0]}
        if not got.get('catalog') and not got.get('letter'):
            continue
        for what, v in sorted(got.items()):
            ck.ob('field', '%s %s %s' % (label, p.name, what), v == {n},
                  'field %d is built from the %s of number %s' % (n, what, sorted(v)), e.where)


def names(ck, rep, tab):
    members = {m for en in tab.enums for m, c in tab.enums[en]}
    known = members | {b.owner for b in tab.bound if b.owner} | {b.name for b in tab.bound if b.owner is None} | set(tab.classes)
    methods = {b.name for b in tab.bound if b.is_method}
    for m in rep.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == '_treecorr' \
                    and not x.attr.startswith('__'):
                ck.ob('exists', '_treecorr.' + x.attr, x.attr in known, 'nothing of that name is exported',
                      rep.where(m, x))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute):
                v = x.func.value
                if v.attr == 'corr' and isinstance(v.value, ast.Name) and v.value.id in ('self', 'corr', 'c'):
                    ck.ob('exists', '.corr.%s()' % x.func.attr, x.func.attr in methods,
                          'not an exported method', rep.where(m, x))
                if v.attr == 'data' and m.name == 'field':
                    ck.ob('exists', '.data.%s()' % x.func.attr, x.func.attr in methods,
                          'not an exported method', rep.where(m, x))
    for cls in corr_leaves(rep):
        nm = builder_name(cls)
        b = tab.ctor(nm)
        # the class built is the one of the same letters
        ck.ob('exists', cls.name + ' builds ' + str(nm), b is not None and letters(nm) == letters(cls.name),
              '%s is built as %s' % (cls.name, nm), cls.name)
        env = b.env if b is not None else {}
        ck.ob('exists', cls.name + ' data types', letter_env(env, cls) , 'compiled with %s' % env, cls.name)


def letters(s):
    m = re.match(r'([NKZVGTQ]+?)(Corr|Correlation)', s or '')
    return m.group(1) if m else None


def letter_env(env, cls):
    want = letters(cls.name)
    got = ''.join({'NData': 'N', 'KData': 'K', 'GData': 'G', 'ZData': 'Z', 'VData': 'V', 'TData': 'T',
                   'QData': 'Q'}.get(env[k], '?') for k in sorted(env) if re.match(r'D\d$', k))
    return got == want if got else True


def components(ck, rep, tab, S):
    for cls in corr_leaves(rep):
        dc, fn, e, flow = builder_call(cls)
        b = ctor_of(rep, tab, cls)
        fields = data_fields(S, b)
        pos = [i for i, p in enumerate(b.params) if re.match(r'(xi|zeta)\d', p.name)]
        attrs = []
        for i in pos:
            a = e.args[i]
            attrs.append(a.args[1] if a.op == 'attr' and a.args[0] is SELF else None)
        alloc = allocated(rep, cls)
        pubs = published(rep, cls)
        for i, at in zip(range(len(pos)), attrs):
            want = fields.get(i)
            if at is None:
                raise AnalysisBroken('%s: component argument %d is not an attribute' % (cls.name, i))
            has = alloc.get(at)
            ck.ob('component', '%s %s allocated' % (cls.name, at),
                  bool(has) == (want is not None) or has == 'maybe',
                  'the compiled class %s component %d, the array is %s' % (
                      'has field %s for' % want if want else 'has no', i, 'allocated' if has else 'empty'), e.where)
            if want is None:
                continue
            got = pubs.get(at, set())
            ok = want in got or not got or not any(g in fields.values() for g in got) and want not in sum(
                [list(v) for v in pubs.values()], [])
            ck.ob('component', '%s %s' % (cls.name, at), ok,
                  'reported as %s but accumulated as %s' % (sorted(got), want), e.where)
            for g in got:
                ck.ob('component', '%s.%s' % (cls.name, g), g == want or g not in fields.values(),
                      '%s is accumulated in the compiled field %s' % (g, want), e.where)


def data_fields(S, b):
    """{component number: field of XiData/ZetaData it is stored in} for the compiled class b"""
    D = [b.env.get(k) for k in sorted(b.env) if re.match(r'D\d$', k)]
    if not D:
        raise AnalysisBroken('data types of %s not found' % b)
    return fields_of(S, 'XiData' if len(D) == 2 else 'ZetaData', D)


def targ_list(k):
    t = k.targs
    return [x.strip() for x in (t.split(',') if isinstance(t, str) else (t or []))]


def fields_of(S, kname, D, depth=0):
    best = None
    for k in S.classes:
        if k.name != kname:
            continue
        targs = targ_list(k)
        if not targs or not targs[0]:
            cand = (0, k)           # the primary template
        elif len(targs) == len(D) and all(t == c or re.match(r'D\d$', t) for t, c in zip(targs, D)):
            cand = (1 + sum(t == c for t, c in zip(targs, D)), k)
        else:
            continue
        if best is None or cand[0] > best[0]:
            best = cand
    if best is None:
        raise AnalysisBroken('%s for %s not found' % (kname, D))
    k = best[1]
    fs = [f for f in S.functions if f.cls == kname and f.name == kname and norm(f.ctargs) == norm(k.targs)]
    fs = [f for f in fs if len(f.params) >= 4]
    if not fs:
        raise AnalysisBroken('constructor of %s<%s> not found' % (kname, k.targs))
    f = fs[0]
    out = {}
    ptr = {x[1] for x in k.fields if x[0].strip().endswith('*')}
    ini = {nm: (a[0] if isinstance(a, (list, tuple)) and a else a) for nm, a in f.inits or []}
    for n in walk(f.body) if f.body is not None else ():
        if n.k == 'assign' and n.a[1].k == 'name':
            ini[n.a[1].a[0]] = n.a[2]

    def param_in(a):
        for i, p in enumerate(f.params):
            if p.name and isinstance(a, N) and any(x.k == 'name' and x.a[0] == p.name for x in walk(a)):
                return i
    for nm, a in ini.items():
        i = param_in(a)
        if nm in ptr and i is not None:
            out[i] = nm
    for bs in k.bases or []:
        if base(bs) != kname or depth > 3:
            continue
        m = re.search(r'<(.*)>', bs)
        sub = dict((t, d) for t, d in zip(targ_list(k), D) if re.match(r'D\d$', t))
        D2 = [sub.get(x.strip(), x.strip()) for x in m.group(1).split(',')]
        inner = fields_of(S, kname, D2, depth + 1)
        for nm, a in f.inits or []:
            if base(nm) == kname and isinstance(a, (list, tuple)):
                for j, x in enumerate(a):
                    i = param_in(x)
                    if i is not None and j in inner:
                        out[i] = inner[j]
    return out


def norm(t):
    if not t:
        return ''
    if not isinstance(t, str):
        t = ','.join(str(x) for x in t)
    return t.replace(' ', '')


def allocated(rep, cls):
    """{array attribute: True if the constructor gives it a shape, False if an empty array}"""
    flow = Flow(rep)
    flow.run_method(cls, '__init__')
    out = {}
    for e in flow.events:
        if e.kind == 'store' and e.obj is SELF and re.match(r'_(xi|z)\d$', e.attr or ''):
            kinds = set()
            for v in phi_leaves(e.value):
                empty = v.op == 'call' and (v.args[0].op == 'attr' and v.args[0].args[1] == 'array' or
                                            show(v.args[0]).endswith('array'))
                kinds.add(not empty)
            k = True if kinds == {True} else False if kinds == {False} else 'maybe'
            old = out.get(e.attr)
            out[e.attr] = k if old is None or old == k or not e.guards else 'maybe'
    if not out:
        raise AnalysisBroken('%s: no accumulator arrays found' % cls.name)
    return out


def published(rep, cls):
    """{array attribute: names of the properties that return it unchanged}"""
    out = {}
    seen = set()
    for c in cls.mro:
        for nm in c.props:
            if nm in seen or nm.startswith('_'):
                continue
            seen.add(nm)
            fn = cls.prop(nm)[1]
            txt = [x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute)]
            if not any(re.match(r'_(xi|z)\d$', a) for a in txt):
                continue
            rets = [x for x in ast.walk(fn) if isinstance(x, ast.Return)]
            for r in rets:
                v = r.value
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' and \
                        re.match(r'_(xi|z)\d$', v.attr):
                    n = nm[4:] if nm.startswith('raw_') else nm
                    out.setdefault(v.attr, set()).add(n)
    return out


# ---------------------------------------------------------------------------
# inside the compiled wrappers

def relay(ck, S, tab):
    done = set()
    todo = []
    for b in tab.bound:
        for f in b.funcs:
            todo.append(f)
    seen = set()
    ctors = {}
    for f in S.functions:
        ctors.setdefault(f.name, []).append(f)
    while todo:
        f = todo.pop()
        if f in seen or f.body is None:
            continue
        seen.add(f)
        ck.saw(f.qual)
        alias = aliases(f)
        params = [p.name for p in f.params if p.name]
        # constructor initialisers
        if f.cls and f.name == f.cls:
            flds = [x[1] for k in S.classes if k.name == f.cls for x in k.fields]
            vecs = {x[1] for k in S.classes if k.name == f.cls for x in k.fields if 'vector' in x[0]}
            cf = {canon_c(x): x for x in flds}
            for nm, a in f.inits or []:
                al = a if isinstance(a, (list, tuple)) else [a]
                if base(nm) in ctors and nm not in flds:
                    todo += passed(ck, f, base(nm), al, alias, ctors, done, nm)
                    continue
                if len(al) == 1 and isinstance(al[0], N) and al[0].k == 'name':
                    p = al[0].a[0]
                    if nm in vecs and 'vector' not in ptype(f, p):
                        continue        # a size
                    bad = canon_c(nm) != canon_c(p) and (canon_c(nm) in [canon_c(x) for x in params] or
                                                         canon_c(p) in cf)
                    ck.ob('relay', '%s::%s' % (f.qual, nm), not bad, 'the field %s is set from %s' % (nm, p), f.where)
        for n in walk(f.body):
            nm = None
            args = None
            if n.k == 'call' and n.a[0].k == 'name':
                nm, args = base(n.a[0].a[0]), n.a[1]
                if nm in ('make_shared', 'make_unique'):
                    m = re.search(r'<(.*)>', n.a[0].a[0])
                    nm = base(m.group(1)) if m else nm
            elif n.k == 'call' and n.a[0].k == 'member':
                nm, args = base(n.a[0].a[1]), n.a[1]
            elif n.k == 'new':
                nm = base(n.a[0])
                args = n.a[1] if len(n.a) > 1 and isinstance(n.a[1], (list, tuple)) else None
            elif n.k == 'decl':
                for d, init, dim in n.a[1]:
                    if isinstance(init, list):
                        t2 = passed(ck, f, base(n.a[0].replace('const ', '').strip()), init, alias, ctors, done, d)
                        todo += [g for g in t2 if relayer(g)]
                continue
            if nm and args:
                t2 = passed(ck, f, nm, args, alias, ctors, done, nm)
                todo += [g for g in t2 if relayer(g)]


def relayer(g):
    """a wrapper hands work on; the recursion over cells does the work and may relabel freely"""
    return not any('Cell<' in p.type and 'vector' not in p.type for p in g.params)


def aliases(f):
    """locals that are a view of exactly one parameter"""
    ps = {p.name for p in f.params if p.name}
    out = {p: p for p in ps}
    for n in walk(f.body):
        if n.k == 'decl':
            for d, init, dim in n.a[1]:
                i = init[0] if isinstance(init, list) and len(init) == 1 else init
                if isinstance(i, N):
                    m = {x.a[0] for x in walk(i) if x.k == 'name' and x.a[0] in ps}
                    plain = n.a[0].rstrip().endswith(('*', '&')) and all(x.k in ('name', 'cast', 'call', 'member', 'cond', 'bin', 'num') for x in walk(i))
                    if len(m) == 1 and plain and d not in ps:
                        out[d] = list(m)[0]
                elif i is None and d not in ps:
                    out[d] = d
    return out


def passed(ck, f, nm, args, alias, ctors, done, label):
    fs = [g for g in ctors.get(nm, ()) if len(g.params) >= len(args) and
          all(p.default is not None for p in g.params[len(args):]) or
          g.name == nm and len(g.params) == len(args)] if nm in ctors else []
    if not fs:
        return []
    verdicts = [slots_of(f, g, args, alias) for g in fs]
    # among overloads of one arity the call is right if it is right for one of them
    for g, v in zip(fs, verdicts):
        same = [w for h, w in zip(fs, verdicts) if len(h.params) == len(g.params)]
        if any(not any(w.values()) for w in same):
            v = {i: False for i in v}
        for i, bad in v.items():
            if bad and permuted(f, nm, g, args, i):
                bad = False
            ck.ob('relay', '%s -> %s %s' % (f.qual, g.qual, g.params[i].name), not bad,
                  '%s is handed on as %s' % (src(args[i]), g.params[i].name), f.where)
    return fs


def slots_of(f, g, args, alias):
    """{argument number: it carries the name of another parameter} for the arguments that are names"""
    ps = [canon_c(p.name or '', p.type) for p in g.params]
    mine = [canon_c(alias.get(a.a[0], a.a[0]), ptype(f, alias.get(a.a[0], a.a[0]))) if a.k == 'name' else None
            for a in args]
    out = {}
    if len([m for m in mine if m]) < 2:
        return out
    for i, a in enumerate(args):
        if mine[i] is None or not ps[i]:
            continue
        bad = mine[i] != ps[i] and mine[i] in ps and not (ps.count(ps[i]) > 1)
        if bad and ps[i] in mine and relabel(f, g):
            bad = False
        if not bad and mine[i] != ps[i]:
            # d1 given from k: fine; but numbered arguments keep their order
            d, q = re.sub(r'\D', '', mine[i]), re.sub(r'\D', '', ps[i])
            stem = re.sub(r'\d', '', ps[i])
            for j in range(len(args)):
                if j != i and mine[j] and re.sub(r'\d', '', ps[j]) == stem and q and d and \
                        re.sub(r'\d', '', mine[j]) == re.sub(r'\d', '', mine[i]):
                    dj, qj = re.sub(r'\D', '', mine[j]), re.sub(r'\D', '', ps[j])
                    if dj and qj and (int(d) - int(q)) != (int(dj) - int(qj)):
                        bad = True
        out[i] = bad
    return out


def permuted(f, nm, g, args, i):
    """f deliberately calls nm several times with different orders of its fields or cells"""
    if not re.search(r'Field|Cell', g.params[i].type):
        return False
    orders = {}
    for n in walk(f.body):
        if n.k == 'call' and len(n.a[1]) == len(args):
            h = n.a[0]
            hn = base(h.a[0]) if h.k == 'name' else base(h.a[1]) if h.k == 'member' else None
            if hn == nm:
                orders.setdefault(src(h), set()).add(
                    tuple(src(a) for a, p in zip(n.a[1], g.params) if re.search(r'Field|Cell', p.type)))
    return any(len(os) > 1 or any(len(set(o)) < len(o) for o in os) for os in orders.values()
               if any(src(args[i]) in o for o in os) and tuple(
                   src(a) for a, p in zip(args, g.params) if re.search(r'Field|Cell', p.type)) in os)


def ptype(f, nm):
    for p in f.params:
        if p.name == nm:
            return p.type
    return ''


def relabel(f, g):
    return any('Cell<' in p.type for p in g.params)
