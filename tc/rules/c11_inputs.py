"""C11: what the caller passes in is left as it was.

The ownership analysis of tc/own.py gives, for every function of the package, the in-place changes it
makes to objects reachable from its parameters, with helpers and constructors composed in.  The rules:

 inputs    no public function or method changes a parameter, or a value reachable from it, in place
 kept      an attribute that may go on referring to an object of the caller is never changed in place
           by any method of the class (the two-step form: stored without a copy, changed later)
 compiled  the compiled layer takes a writable pointer only to arrays it is meant to fill, and never
           casts constness away
"""
import re

from .. import own as own_mod
from ..own import Own, FRESH, V
from ..pyrepo import Repo, AnalysisBroken
from ..bind import table
from ..cxx import walk, src

PROP = 'C11'

# documented outputs: (function, parameter) -> why
OUTPUTS = {
    ('toSAS', 'target'): 'documented: the object to write the result to',
    ('kmeans_refine_centers', 'centers'): 'documented: modified by this function',
    ('merge_config', 'kwargs'): 'the keyword dictionary the merged values are returned in',
    ('parse_variable', 'config'): 'documented: the dict to add the parsed item to',
    ('parse_xyzsep', 'kwargs'): 'the keyword dictionary of the calling function, consumed as it is parsed',
    ('checkForNaN', 'col'): 'a column of the catalog itself',
    ('__get__', 'obj'): 'the attribute a lazy property is replaced by',
    ('__set__', 'obj'): 'descriptor protocol',
    ('__deepcopy__', 'memo'): 'the memo dictionary of the copy protocol',
    ('__setstate__', 'd'): 'the state dictionary made for this object',
}
INTERNAL = {'LRU_Cache'}        # the cache of fields: its links are its own
CONST_PARAMS = {'logger', 'comm', 'rng'}


def written_table():
    """exported name -> list of (number of parameters, positions written to)"""
    T = table()
    out = {}
    rows = []
    for b in T.bound:
        ps = b.params
        pos = []
        for i, p in enumerate(ps):
            if 'py::array' not in p.type:
                continue
            w = False
            for f in b.funcs:
                fp = list(f.params)
                off = len(fp) - len(ps)
                nm = fp[i + off].name
                for n in walk(f.body):
                    if n.k == 'member' and n.a[0].k == 'name' and n.a[0].a[0] == nm and \
                            n.a[1].startswith('mutable'):
                        w = True
                    if n.k in ('call', 'cast') and 'const_cast' in src(n)[:12]:
                        w = True
            if w:
                pos.append(i)
            rows.append((b, i, p, w))
        key = b.name if b.name != '__init__' else b.owner
        cur = out.setdefault(key, [])
        if (len(ps), tuple(pos)) not in cur:
            cur.append((len(ps), tuple(pos)))
    return out, rows


def value_attrs(repo):
    """what equality and the documented results of the package's objects look at"""
    import ast
    eq = set()
    for c in repo.classes.values():
        f = c.methods.get('__eq__')
        if f is not None:
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'other':
                    eq.add(n.attr)
    if 'w' not in eq or len(eq) < 10:
        raise AnalysisBroken('the attributes compared by __eq__ were not found')
    return eq


def concern(path, kind, eq):
    """the change is visible to the caller: not one of a private cache"""
    attrs = [c[1:] for c in path if c.startswith('.')]
    own = kind[5:] if kind.startswith('attr:') else None
    if own is not None:
        if own == '_patches':
            return False            # the cache itself; what its patches hold still counts
        attrs.append(own)
    for a in attrs:
        if a.startswith('__'):
            continue
        if a.startswith('_') and a not in ('_patches',) and a not in eq and a[1:] not in eq and a != '_ro':
            return False
    return True


def public(f):
    n = f.name
    if n.startswith('__') and n.endswith('__'):
        return True
    return not n.startswith('_')


def excused(f, root, path):
    names = [root]
    for c in path:
        if c.startswith('[='):
            names.append(c[2:-1])
    return any((f.name, x) in OUTPUTS for x in names) or root in CONST_PARAMS or \
        any(x == 'target' for x in names if x != root)


def describe(root, path):
    return root + ''.join('' if c == '[]' else c for c in path)


def check(ck):
    ck.rule('inputs', 'for every public function and every parameter, composing the in-place changes of all functions '
            'it reaches: no object the caller passed is changed, other than documented outputs', 150)
    ck.rule('kept', 'an attribute that may refer to an object of the caller is not changed in place by any method', 20)
    ck.rule('compiled', 'arrays are handed to the compiled layer through const pointers unless they are outputs', 30)
    repo = Repo()
    eq = value_attrs(repo)
    wt, rows = written_table()

    def written(name, nargs):
        out = set()
        for n, pos in wt.get(name, ()):
            if n == nargs or len(wt[name]) == 1:
                out |= set(pos)
        return out

    O = Own(repo, written=written, quiet={'Catalog.load', 'Catalog.unload'})
    for k in O.fns:
        ck.saw('.'.join(str(x) for x in k if x))
    if O.unsettled:
        raise AnalysisBroken('no fixed point for %s' % sorted(O.unsettled, key=str)[:3])
    if O.calls_seen < 1000:
        raise AnalysisBroken('only %d calls analysed' % O.calls_seen)
    bad = {}
    for key, f in sorted(O.fns.items(), key=lambda x: str(x[0])):
        if not public(f) or f.kind == 'setter':
            continue
        s = O.sums[key]
        roots = list(f.params) + (['*' + f.vararg] if f.vararg else []) + (['**' + f.kwarg] if f.kwarg else [])
        for r in roots:
            hits = []
            for (rr, p, kind), site in s.effects.items():
                if rr != r or excused(f, r, p) or not concern(p, kind, eq):
                    continue
                hits.append((p, kind, site))
            if not hits:
                ck.ob('inputs', '%s(%s)' % (f.qual, r), True, where=repo.where(f.mod, f.node))
                continue
            for p, kind, site in sorted(hits, key=str)[:3]:
                ck.ob('inputs', '%s(%s) changed in %s' % (f.qual, describe(r, p), site[0]), False,
                      '%s changes %s given by the caller of %s in place (%s)' % (
                          site[2], describe(r, p), f.qual, kind), site[1])
    # ---- attributes that keep the caller's object
    fam = {}
    for key, f in O.fns.items():
        if f.cls is None or f.kind == 'prop' or f.cls.name in INTERNAL:
            continue
        if not (public(f) or f.kind == 'setter'):
            continue
        for a, v in O.sums[key].stores.items():
            o = [(r, p) for r, p in v.o if r != 'self']
            e = [(r, p) for r, p in v.e if r != 'self']
            if o or e:
                fam.setdefault((f.cls, a), []).append((f, V(o, e)))
    for (c, a), lst in sorted(fam.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        users = [c] + O.subs(c) + [d for d in c.mro if d is not c]
        done = set()
        for key, g in O.fns.items():
            # private methods that no public one calls on self work on scratch copies
            if g.cls not in users or g.name in ('__setstate__',) or not (public(g) or g.kind != 'method'):
                continue
            for (rr, p, kind), site in O.sums[key].effects.items():
                if rr != 'self' or p[:1] != ('.' + a,):
                    continue
                for f, v in lst:
                    x = v
                    for comp in p[1:]:
                        x = x.items() if comp == '[]' else V(x.ext(comp))
                    for r, pp in x.o:
                        if excused(f, r, pp) or not concern(pp, kind, eq):
                            continue
                        k = (f.qual, r, site[0])
                        if k in done:
                            continue
                        done.add(k)
                        ck.ob('kept', '%s.%s keeps %s of %s' % (c.qual, a, describe(r, pp), f.qual), False,
                              '%s in %s changes it in place (%s)' % (site[2], site[0], kind), site[1])
        if not done:
            ck.ob('kept', '%s.%s keeps %s' % (c.qual, a, ', '.join(sorted({'%s of %s' % (r, f.qual)
                  for f, v in lst for r, p in v.o | v.e}))[:120]), True)
    # ---- the compiled layer
    seen = set()
    for b, i, p, w in rows:
        k = (b.cname, i)
        if k in seen:
            continue
        seen.add(k)
        casts = [n for f in b.funcs for n in walk(f.body) if n.k == 'name' and str(n.a[0]).startswith('const_cast')]
        ck.ob('compiled', '%s parameter %d (%s)' % (b.cname, i, 'filled' if w else 'read only'), not casts,
              'constness is cast away', b.where)
    ck.assumptions += [
        'functions of other packages return fresh objects and change nothing, except the numpy, dict and list '
        'operations listed in tc/own.py',
        'reading an attribute or calling Catalog.load/unload changes no value of the catalog (C22)',
        'private attributes that __eq__ does not compare are internal caches',
    ]
