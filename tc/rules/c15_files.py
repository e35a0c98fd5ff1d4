"""C15: files are closed, and temporary state is put back, on every path.

A typestate analysis over the syntax trees.  Classes with __enter__/__exit__ (the readers and writers) are
examined once: what opens, what closes, what may run between the two, which operations need the file open and
whether they refuse to run otherwise.  Then every use of such an object anywhere is required to happen inside
a `with` for it; a function using one it was given needs it open, which its call sites must provide.
"""
import ast

from ..common import *
from ..pyrepo import AnalysisBroken
from .c12_copy import cls_props  # noqa: F401

PROP = 'C15'
OPENERS = {'open', 'FITS', 'File', 'memmap', 'fdopen', 'TemporaryFile', 'NamedTemporaryFile', 'ZipFile', 'HDFStore',
           'ParquetFile'}
RULES = [
    ('opened', 'what opens a file is the subject of a with statement, or the last step of an __enter__', 5),
    ('exit-closes', '__exit__ closes what __enter__ opened whatever happened, marks it closed and hides no error', 5),
    ('guarded', 'the operations of a reader or writer refuse to run when the file is not open', 15),
    ('with', 'a reader or writer is only used inside a with statement for it', 15),
    ('restored', 'attributes changed for the duration of an operation are put back in a finally clause', 0),
]


def call_name(x):
    return x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ''


def is_opener(x):
    if not isinstance(x, ast.Call) or call_name(x) not in OPENERS:
        return False
    if isinstance(x.func, ast.Attribute) and call_name(x) == 'open':
        return isinstance(x.func.value, ast.Name) and x.func.value.id in ('io', 'gzip', 'bz2', 'os', 'codecs', 'lzma')
    return True


def pairs(x):
    """(target, value) of an assignment, element by element for tuples"""
    for t in x.targets:
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and \
                len(t.elts) == len(x.value.elts):
            yield from zip(t.elts, x.value.elts)
        else:
            yield t, x.value


def self_name(n):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' else None


def parents_of(f):
    return {ch: p for p in ast.walk(f) for ch in ast.iter_child_nodes(p)}


def chain(n, par):
    """(child, ancestor) pairs going up"""
    while n in par:
        yield n, par[n]
        n = par[n]


class Ctx:
    """a class whose objects are context managers over a file"""

    def __init__(self, cl):
        self.cl = cl
        self.enter = cl.method('__enter__')[1]
        self.exit = cl.method('__exit__')[1]
        self.enter_attrs = stored(self.reach(self.enter))
        init = cl.method('__init__')[1]
        self.init_attrs = stored(self.reach(init)) if init is not None else set()
        ex = self.reach(self.exit)
        self.res = set()
        for f in ex:
            for x in ast.walk(f):
                if isinstance(x, ast.Assign):
                    self.res |= {self_name(t) for t, v in pairs(x) if self_name(t) and
                                 isinstance(v, ast.Constant) and v.value is None}
                elif isinstance(x, ast.Delete):
                    self.res |= {self_name(t) for t in x.targets if self_name(t)}
        self.res &= self.enter_attrs
        # attributes of the kind `self._file = open(...)`
        self.opened = set()
        for f in self.reach(self.enter):
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and is_opener(x.value):
                    self.opened |= {self_name(t) for t in x.targets if self_name(t)}
        self.guards = {}
        for p in props_of(cl):
            fn = cl.prop(p)[1]
            if fn is not None and any(self_name(y) in (self.res | self.opened) for y in ast.walk(fn)):
                self.guards[p] = fn

    def reach(self, f, depth=4):
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            if g is None or g in out:
                continue
            out.append(g)
            for x in ast.walk(g):
                if isinstance(x, ast.Call) and self_name(x.func):
                    todo.append(self.cl.method(self_name(x.func))[1])
        return out

    def methods(self):
        seen = {}
        for c in self.cl.mro:
            for n, f in c.methods.items():
                seen.setdefault(n, (c, f[1] if isinstance(f, tuple) else f))
        return seen


def props_of(cl):
    return {p for c in cl.mro for p in c.props}


def stored(fns):
    out = set()
    for f in fns:
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and self_name(x):
                out.add(x.attr)
    return out


def raises_if_unset(fn, attrs):
    """the function raises when the attribute is None"""
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and any(self_name(y) in attrs or (isinstance(y, ast.Name)) for y in ast.walk(x.test)):
            if any(isinstance(y, ast.Raise) for s in x.body + x.orelse for y in ast.walk(s)):
                return True
        if isinstance(x, ast.Assert):
            return True
    # if set: return it; then raise
    last = fn.body[-1]
    return isinstance(last, ast.Raise)


def check(ck):
    for r in RULES:
        ck.rule(*r)
    rep = repo()
    classes = []
    for m in rep.modules.values():
        for n in m.classes:
            cl = rep.find_class(n, m)
            if cl.method('__enter__')[1] is not None and cl.method('__exit__')[1] is not None:
                classes.append(Ctx(cl))
    files = [c for c in classes if c.opened or c.res]
    if not files:
        raise AnalysisBroken('no reader or writer class found')
    for c in files:
        ck.saw(c.cl.name)
        exits(ck, c)
        guarded(ck, c)
    openers(ck, rep, files)
    uses(ck, rep, files)
    restored(ck, rep)
    ck.assumptions += ['the file libraries close what their close methods are called on',
                       'log handlers live as long as the logger (they are kept for reuse by name)']


def all_functions(rep):
    for m in rep.modules.values():
        for f in m.funcs.values():
            yield m, None, f
        for n in m.classes:
            cl = rep.find_class(n, m)
            for d in (cl.methods, cl.props, cl.setters):
                for f in d.values():
                    yield m, cl, f[1] if isinstance(f, tuple) else f
            for i in cl.inner.values():
                for d in (i.methods, i.props):
                    for f in d.values():
                        yield m, i, f


# ---- opening -----------------------------------------------------------------------------------------------

def openers(ck, rep, files):
    enters = {}
    for c in files:
        for f in c.reach(c.enter):
            enters[f] = c
    for m, cl, f in all_functions(rep):
        par = None
        for x in ast.walk(f):
            if not is_opener(x):
                continue
            if call_name(x) == 'File' and not (isinstance(x.func, ast.Attribute) or 'h5py' in str(m.imports.get('File'))):
                continue
            par = par or parents_of(f)
            nm = '%s:%s%s %s' % (m.name, cl.name + '.' if cl is not None else '', f.name, call_name(x))
            ok, why = opened_ok(x, f, par, enters.get(f))
            ck.ob('opened', nm, ok, why, '%s:%s line %d' % (m.name, f.name, x.lineno))


def opened_ok(x, f, par, ctx):
    p = par.get(x)
    if isinstance(p, ast.withitem):
        return True, ''
    if isinstance(p, ast.Call) and call_name(p) in ('enter_context', 'closing'):
        return True, ''
    if isinstance(p, ast.Return):
        # a helper that opens: whoever calls it has to close
        return ctx is not None, 'returns an open file'
    if not isinstance(p, ast.Assign):
        return False, 'a file is opened and never closed'
    t = p.targets[0]
    if self_name(t):
        if ctx is None:
            return False, 'a file is opened outside __enter__, so nothing makes sure it is closed'
        # nothing may fail between opening and returning
        for g in ctx.reach(ctx.enter):
            bad = after(p, g)
            for y in bad:
                if not in_closing_try(y, parents_of(g)):
                    return False, '__enter__ goes on after opening (line %d): a failure there leaves the file open' % y.lineno
        return True, ''
    if isinstance(t, ast.Name):
        # closed in a finally clause, or used in a with statement, or nothing in between
        for y in ast.walk(f):
            if isinstance(y, ast.With) and any(t.id == getattr(i.context_expr, 'id', None) or
                                               any(isinstance(z, ast.Name) and z.id == t.id for z in ast.walk(i.context_expr))
                                               for i in y.items):
                return True, ''
            if isinstance(y, ast.Try) and any(isinstance(z, ast.Call) and call_name(z) == 'close' and
                                              isinstance(z.func, ast.Attribute) and
                                              getattr(z.func.value, 'id', None) == t.id
                                              for s in y.finalbody for z in ast.walk(s)):
                return True, ''
            if isinstance(y, ast.Assign) and isinstance(y.value, ast.Name) and y.value.id == t.id and \
                    any(self_name(u) for u in y.targets) and ctx is not None:
                return True, ''
        return False, 'the file is not closed when an error occurs before it is closed'
    return False, 'a file is opened and kept where nothing closes it'


def after(st, f):
    """calls made after statement st in function f (same or enclosing blocks)"""
    par = parents_of(f)
    if st not in par:
        return []
    out = []
    n = st
    while n in par:
        p = par[n]
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and n in b:
                for s in b[b.index(n) + 1:]:
                    out += [y for y in ast.walk(s) if isinstance(y, (ast.Call, ast.Raise))
                            and not quiet(y)]
        n = p
    return out


def quiet(y):
    """logging does not fail"""
    return isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and \
        y.func.attr in ('debug', 'info', 'warning', 'error')


def in_closing_try(n, par):
    for ch, p in chain(n, par):
        if isinstance(p, ast.Try) and ch in p.body:
            for s in p.finalbody + [s for h in p.handlers for s in h.body]:
                if any(isinstance(z, ast.Call) and call_name(z) in ('close', '__exit__') for z in ast.walk(s)):
                    return True
    return False


# ---- closing -----------------------------------------------------------------------------------------------

def exits(ck, c):
    nm = c.cl.name
    fn = c.exit
    where = '%s.__exit__ line %d' % (nm, fn.lineno)
    names = set(c.opened) | set(c.guards)
    for a in sorted(c.opened):
        ok, why = closes(c, fn, names)
        ck.ob('exit-closes', '%s closes %s' % (nm, a), ok, why, where)
    for a in sorted(c.opened | c.res):
        ck.ob('exit-closes', '%s marks %s closed' % (nm, a), a in c.res and unconditional_reset(c, fn, a),
              'after __exit__ the object still takes itself for open', where)
    truthy = [x for x in ast.walk(fn) if isinstance(x, ast.Return) and x.value is not None and
              not (isinstance(x.value, ast.Constant) and not x.value.value)]
    ck.ob('exit-closes', '%s hides no error' % nm, not truthy,
          '__exit__ returns a value: errors inside the with statement are lost', where)


def always(body):
    """statements that run whatever happens inside the function: (stmt, may_be_skipped_by_error)"""
    risky = False
    for s in body:
        if isinstance(s, ast.Try):
            for t in s.finalbody:
                yield t, risky
            if not s.finalbody:
                for t, r in always(s.body):
                    yield t, r or risky
            else:
                for t, r in always(s.body):
                    yield t, r or risky
            if any(isinstance(y, (ast.Call, ast.Raise)) and not quiet(y) for t in s.finalbody for y in ast.walk(t)):
                risky = True
            continue
        yield s, risky
        if isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
            if any(isinstance(y, (ast.Return, ast.Raise)) for y in ast.walk(s)):
                risky = True
        if isinstance(s, (ast.Return, ast.Raise)):
            return
        if any(isinstance(y, ast.Call) and not quiet(y) for y in ast.walk(s)):
            risky = True


def not_none_test(t, names):
    """the condition only says that there is something to close"""
    return (isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and
            (self_name(t.left) in names or isinstance(t.left, ast.Name))) or self_name(t) in names


def closes(c, fn, names, depth=3):
    local = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) for t, v in pairs(x)
             if self_name(v) in names and isinstance(t, ast.Name)}

    def closing(s):
        if isinstance(s, ast.If) and not_none_test(s.test, names):
            return any(closing(t) for t in s.body)
        if isinstance(s, ast.With):
            return any(self_name(i.context_expr) in names for i in s.items)
        for y in ast.walk(s) if isinstance(s, (ast.Expr, ast.Assign)) else []:
            if isinstance(y, ast.Call) and call_name(y) in ('close', '__exit__') and isinstance(y.func, ast.Attribute) and \
                    (self_name(y.func.value) in names or getattr(y.func.value, 'id', None) in local):
                return True
            if isinstance(y, ast.Call) and self_name(y.func) and depth:
                g = c.cl.method(self_name(y.func))[1]
                if g is not None and g is not fn and closes(c, g, names, depth - 1)[0]:
                    return True
        return False
    late = False
    for s, risky in always(fn.body):
        if closing(s):
            if not risky:
                return True, ''
            late = True
    some = any(isinstance(y, ast.Call) and call_name(y) == 'close' for y in ast.walk(fn))
    return False, 'something that may fail comes before closing the file' if late else \
        ('the file is only closed under a condition' if some else 'the file is not closed')


def unconditional_reset(c, fn, a):
    for f in c.reach(fn):
        for s, risky in always(f.body):
            for y in ([s] if isinstance(s, (ast.Assign, ast.Delete)) else
                      list(s.body) if isinstance(s, ast.If) and not_none_test(s.test, {a}) else []):
                if isinstance(y, (ast.Assign, ast.Delete)) and a in [self_name(t) for t in y.targets]:
                    return True
                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Tuple) and a in [self_name(u) for u in t.elts]
                                                     for t in y.targets):
                    return True
    return False


# ---- operations --------------------------------------------------------------------------------------------

def guarded(ck, c):
    nm = c.cl.name
    res = c.res | c.opened
    for p, fn in sorted(c.guards.items()):
        ck.ob('guarded', '%s.%s' % (nm, p), raises_if_unset(fn, res),
              'gives the file without checking that it is open', '%s.%s' % (nm, p))
    # what __enter__ sets up and __init__ does not
    late = (c.enter_attrs - c.init_attrs) | res
    skip = {'__init__', '__enter__', '__exit__', '__del__'}
    helpers = {g.name for f in (c.enter, c.exit) for g in c.reach(f)}
    for n, (d, f) in sorted(c.methods().items()):
        if n in skip or n in helpers:
            continue
        used = sorted({y.attr for g in c.reach(f) for y in ast.walk(g)
                       if self_name(y) in late and isinstance(y.ctx, ast.Load)})
        raw = sorted({call_name(y) for g in c.reach(f) for y in ast.walk(g) if isinstance(y, ast.Call) and
                      any(self_name(z) == 'file_name' for a in y.args for z in [a]) and
                      (call_name(y).startswith(('read', 'gen', 'load')) or is_opener(y))})
        if not used and not raw:
            continue
        ok = any(self_name(y) in c.guards for g in c.reach(f) for y in ast.walk(g)) or \
            any(raises_if_unset(g, res) and any(self_name(y) in res for y in ast.walk(g)) for g in c.reach(f))
        ck.ob('guarded', '%s.%s' % (nm, n), ok,
              'uses %s without checking that the file is open' % ', '.join(used or raw), '%s.%s' % (d.name, n))


# ---- uses --------------------------------------------------------------------------------------------------

def uses(ck, rep, files):
    names = {c.cl.name for c in files}
    needs, attrs = set(), set()
    for c in files:
        for n, (d, f) in c.methods().items():
            if n in ('__init__', '__enter__', '__exit__'):
                continue
            if any(self_name(y) in (set(c.guards) | c.res | c.opened) for g in c.reach(f) for y in ast.walk(g)):
                needs.add(n)
        attrs |= set(c.guards)
    free = {n for c in files for n in c.methods()} - needs
    funcs = [(m, cl, f) for m, cl, f in all_functions(rep) if cl is None or cl.name not in names]
    # functions returning such an object
    makers = set(names)
    for _ in range(3):
        for m, cl, f in funcs:
            for x in ast.walk(f):
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and call_name(x.value) in makers:
                    makers.add(f.name)
                elif isinstance(x, ast.Return) and isinstance(x.value, ast.Name):
                    if any(isinstance(y, ast.Assign) and isinstance(y.value, ast.Call) and call_name(y.value) in makers and
                           any(getattr(t, 'id', None) == x.value.id for t in y.targets) for y in ast.walk(f)):
                        makers.add(f.name)
    makers -= {'__init__'}
    by_name = {}
    for m, cl, f in funcs:
        by_name.setdefault(f.name, []).append((m, cl, f))
    kept = set()
    for m, cl, f in funcs:
        for x in ast.walk(f):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and call_name(x.value) in makers:
                kept |= {self_name(t) for t in x.targets if self_name(t)}
    PAR = {f: parents_of(f) for m, cl, f in funcs}

    def params(f):
        return [a.arg for a in f.args.posonlyargs + f.args.args] + [a.arg for a in f.args.kwonlyargs]

    def bound_args(x, g):
        ps = [a.arg for a in g.args.posonlyargs + g.args.args]
        off = 1 if ps and ps[0] in ('self', 'cls') and isinstance(x.func, ast.Attribute) else 0
        out = {}
        for i, a in enumerate(x.args):
            if isinstance(a, ast.Starred):
                return {}
            if i + off < len(ps):
                out[ps[i + off]] = a
        for k in x.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out

    holders = {}

    def is_obj(e, f):
        """the expression is such an object in function f"""
        if isinstance(e, ast.Call):
            return call_name(e) in makers
        if self_name(e):
            return e.attr in kept
        if isinstance(e, ast.Name):
            return e.id in holders.get(f, ())
        return False

    changed = True
    while changed:
        changed = False
        for m, cl, f in funcs:
            h = holders.setdefault(f, set())
            n0 = len(h)
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and (is_obj(x.value, f) or (
                        isinstance(x.value, ast.Call) and call_name(x.value) == 'enter_context' and x.value.args and
                        is_obj(x.value.args[0], f))):
                    h |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                elif isinstance(x, ast.With):
                    for i in x.items:
                        if is_obj(i.context_expr, f) and isinstance(i.optional_vars, ast.Name):
                            h.add(i.optional_vars.id)
            changed |= len(h) != n0
            for x in ast.walk(f):
                if isinstance(x, ast.Call):
                    for m2, c2, g in by_name.get(call_name(x), ()):
                        for p, a in bound_args(x, g).items():
                            if is_obj(a, f) and p in params(g) and p not in holders.setdefault(g, set()):
                                holders[g].add(p)
                                changed = True

    def inside(n, e, f):
        """node n lies in a with statement for e"""
        key = ast.unparse(e)
        for ch, p in chain(n, PAR[f]):
            if isinstance(p, ast.With) and ch in p.body:
                for i in p.items:
                    if ast.unparse(i.context_expr) == key or (i.optional_vars is not None and
                                                              ast.unparse(i.optional_vars) == key):
                        return True
                    v = i.optional_vars
                    if v is not None and any(isinstance(y, ast.Call) and call_name(y) == 'enter_context' and y.args and
                                             (ast.unparse(y.args[0]) == key or any(
                                                 isinstance(z, ast.Assign) and z.value is y and
                                                 ast.unparse(z.targets[0]) == key for z in ast.walk(p)))
                                             for y in ast.walk(p)):
                        return True
            if isinstance(p, ast.Try) and ch in p.body and \
                    any(isinstance(y, ast.Call) and call_name(y) == '__exit__' and ast.unparse(y.func.value) == key
                        for s in p.finalbody for y in ast.walk(s)):
                return True
        return False

    required = {}          # function -> parameters it needs open
    changed = True
    while changed:
        changed = False
        for m, cl, f in funcs:
            for n, e, what in use_sites(f, needs, attrs, holders, is_obj, by_name, bound_args, required):
                if inside(n, e, f):
                    continue
                if isinstance(e, ast.Name) and e.id in params(f) and not rebound(e.id, f):
                    r = required.setdefault(f, set())
                    if e.id not in r:
                        r.add(e.id)
                        changed = True
    for m, cl, f in funcs:
        for n, e, what in use_sites(f, needs, attrs, holders, is_obj, by_name, bound_args, required):
            ok = inside(n, e, f) or (isinstance(e, ast.Name) and e.id in params(f) and not rebound(e.id, f))
            ck.ob('with', '%s:%s%s %s %s' % (m.name, cl.name + '.' if cl is not None else '', f.name, ast.unparse(e)[:40], what),
                  ok, '%s is used for %s outside a with statement for it' % (ast.unparse(e)[:40], what),
                  '%s:%s line %d' % (m.name, f.name, n.lineno))
        # entered by hand
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and call_name(x) == '__enter__' and isinstance(x.func, ast.Attribute) and \
                    is_obj(x.func.value, f):
                key = ast.unparse(x.func.value)
                ok = any(isinstance(p, ast.Try) and any(
                    isinstance(y, ast.Call) and call_name(y) == '__exit__' and ast.unparse(y.func.value) == key
                    for s in p.finalbody for y in ast.walk(s)) for p in ast.walk(f))
                ck.ob('with', '%s:%s %s entered by hand' % (m.name, f.name, key), ok,
                      '%s is opened without a with statement and not closed when an error occurs' % key,
                      '%s:%s line %d' % (m.name, f.name, x.lineno))


def rebound(n, f):
    return any(isinstance(x, ast.Assign) and any(getattr(t, 'id', None) == n for t in x.targets) for x in ast.walk(f))


def use_sites(f, needs, attrs, holders, is_obj, by_name, bound_args, required):
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in needs and \
                is_obj(x.func.value, f):
            yield x, x.func.value, x.func.attr
        elif isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and '__contains__' in needs and \
                is_obj(x.comparators[0], f):
            yield x, x.comparators[0], 'in'
        elif isinstance(x, ast.Attribute) and x.attr in attrs and isinstance(x.ctx, ast.Load) and is_obj(x.value, f):
            yield x, x.value, x.attr
        if isinstance(x, ast.Call):
            for m2, c2, g in by_name.get(call_name(x), ()):
                if g in required:
                    for p, a in bound_args(x, g).items():
                        if p in required[g] and is_obj(a, f):
                            yield x, a, 'the argument %s of %s' % (p, g.name)


# ---- temporary attributes ----------------------------------------------------------------------------------

def restored(ck, rep):
    n = 0
    for m in rep.modules.values():
        for cn in m.classes:
            cl = rep.find_class(cn, m)
            init = cl.method('__init__')[1]
            if init is None:
                continue
            base = {}
            for k in cl.mro:
                f = k.methods.get('__init__')
                f = f[1] if isinstance(f, tuple) else f
                for x in ast.walk(f) if f is not None else []:
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant):
                        for t in x.targets:
                            if self_name(t):
                                base.setdefault(self_name(t), ast.dump(x.value))
            for mn, f in cl.methods.items():
                f = f[1] if isinstance(f, tuple) else f
                if mn in ('__init__', '__enter__', '__exit__'):
                    continue
                par = None
                st = {}
                for x in ast.walk(f):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if self_name(t) in base:
                                st.setdefault(self_name(t), []).append(x)
                for a, xs in sorted(st.items()):
                    xs.sort(key=lambda x: x.lineno)
                    resets = [x for x in xs if ast.dump(x.value) == base[a]]
                    sets = [x for x in xs if ast.dump(x.value) != base[a]]
                    if not resets or not sets or resets[-1].lineno < sets[0].lineno:
                        continue
                    par = par or parents_of(f)
                    first, last = sets[0], resets[-1]
                    if not straight(first, par) or not (straight(last, par)):
                        continue          # alternatives, not a change that is undone
                    calls = [y for y in ast.walk(f) if isinstance(y, ast.Call) and not quiet(y) and
                             first.lineno < y.lineno < last.lineno]
                    if not calls:
                        continue
                    n += 1
                    ok = any(isinstance(p, ast.Try) and ch in p.finalbody for ch, p in chain(last, par))
                    ck.ob('restored', '%s.%s %s' % (cl.name, mn, a), ok,
                          '%s is changed for the duration of the call but not put back when an error occurs' % a,
                          '%s.%s line %d' % (cl.name, mn, last.lineno))
    # the same at module level or through the configuration of a library
    for m, cl, f in all_functions(rep):
        par = parents_of(f)
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and call_name(x) in ('seterr', 'simplefilter', 'filterwarnings', 'set_printoptions',
                                                            'chdir', 'umask'):
                ok = any(isinstance(p, ast.With) for ch, p in chain(x, par)) or \
                    any(isinstance(p, ast.Try) and p.finalbody for p in ast.walk(f))
                ck.ob('restored', '%s:%s %s' % (m.name, f.name, call_name(x)), ok,
                      'a global setting is changed and not put back', '%s:%s line %d' % (m.name, f.name, x.lineno))


def straight(n, par):
    """not under a condition or loop (try and with are fine)"""
    return not any(isinstance(p, (ast.If, ast.For, ast.While)) for ch, p in chain(n, par))
