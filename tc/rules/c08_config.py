"""C08: configuration parameters are recognised, checked and honoured consistently.

The declarations (`_valid_params` of the classes, the dictionaries of the drivers) are evaluated from the
syntax tree.  Every place that reads a configuration is found by a query over all functions; the key it reads
is folded to a constant or to a pattern with holes (a variable is followed to the literal sequence a loop runs
over, a parameter to the arguments of its call sites).  Reads and declarations are then compared as sets.
check_config and merge_config are interpreted abstractly and their raise, store and call events judged.
"""
import ast
import re

from ..common import *
from ..pyrepo import AnalysisBroken

PROP = 'C08'
HOLE = '\0'


# ---- declarations ------------------------------------------------------------------------------------------

class Param:
    __slots__ = ('key', 'type', 'may_list', 'default', 'valid', 'line', 'node')


def dict_entries(node, where, resolve):
    out = {}
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'dict' and node.args:
        out.update(dict_entries(node.args[0], where, resolve))
        return out
    if isinstance(node, (ast.Name, ast.Attribute)):
        return dict(resolve(node))
    if not isinstance(node, ast.Dict):
        raise AnalysisBroken('%s is not a literal dictionary' % where)
    for k, v in zip(node.keys, node.values):
        if k is None:
            out.update(dict_entries(v, where, resolve))
            continue
        if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
            raise AnalysisBroken('%s has a key that is not a literal' % where)
        p = Param()
        p.key, p.line, p.node = k.value, k.lineno, v
        e = v.elts if isinstance(v, ast.Tuple) else []
        if len(e) < 4:
            raise AnalysisBroken('%s[%r] is not a tuple of at least four entries' % (where, k.value))
        p.type = ast.unparse(e[0])
        p.may_list = e[1].value if isinstance(e[1], ast.Constant) else None
        p.default, p.valid = e[2], e[3]
        out[p.key] = p
    return out


def lit(node):
    try:
        return True, ast.literal_eval(node)
    except Exception:
        return False, None


def declared(rep):
    def cls_params(c):
        for k in c.mro:
            if '_valid_params' in k.attrs:
                return dict_entries(k.attrs['_valid_params'], k.name + '._valid_params',
                                    lambda n: cls_params(rep.cls(n.value.id)) if isinstance(n, ast.Attribute) and
                                    isinstance(n.value, ast.Name) else {})
        raise AnalysisBroken('%s has no _valid_params' % c.name)
    out = {n: cls_params(rep.cls(n)) for n in ('Catalog', 'Corr2', 'Corr3')}
    for drv, cls in (('corr2', 'Corr2'), ('corr3', 'Corr3')):
        mod = next((m for m in rep.modules.values() if drv in m.funcs and drv + '_valid_params' in m.globals), None)
        if mod is None:
            raise AnalysisBroken('driver %s not found' % drv)
        nm = drv + '_valid_params'
        own = dict_entries(mod.globals[nm], nm, lambda n: out.get(n.value.id, {})
                           if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) else {})
        full = dict(own)
        for st in ast.walk(ast.Module(mod.tree.body, [])):
            if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr == 'update' and \
                    isinstance(st.func.value, ast.Name) and st.func.value.id == nm and st.args and \
                    isinstance(st.args[0], ast.Attribute) and st.args[0].attr == '_valid_params' and \
                    isinstance(st.args[0].value, ast.Name):
                who = st.args[0].value.id
                if who in out:
                    full.update(out[who])
                else:
                    for lp in ast.walk(mod.tree):
                        if isinstance(lp, ast.For) and isinstance(lp.target, ast.Name) and lp.target.id == who and \
                                isinstance(lp.iter, (ast.List, ast.Tuple)):
                            for e in lp.iter.elts:
                                if isinstance(e, ast.Name) and e.id in out:
                                    full.update(out[e.id])
        out[drv] = own
        out[drv + '*'] = full
    return out


# ---- reads -------------------------------------------------------------------------------------------------

class Read:
    __slots__ = ('keys', 'how', 'mod', 'fn', 'node', 'family', 'recv', 'type', 'default', 'used', 'cls')


def functions(rep):
    """(module, class or None, outermost function)"""
    for m in rep.modules.values():
        for f in m.funcs.values():
            yield m, None, f
        seen = []
        for c in m.classes:
            cl = rep.find_class(c, m) if hasattr(rep, 'find_class') else rep.cls(c)
            if cl is None or cl in seen:
                continue
            seen.append(cl)
            for d in (cl.methods, cl.props, cl.setters):
                for f in d.values():
                    yield m, cl, f[1] if isinstance(f, tuple) else f


class Folder:
    """constant folding of key expressions to strings with holes"""

    def __init__(self, rep, funcs):
        self.rep, self.funcs = rep, funcs
        self.calls = {}
        for m, c, f in funcs:
            for x in ast.walk(f):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else \
                        x.func.id if isinstance(x.func, ast.Name) else None
                    if n:
                        self.calls.setdefault(n, []).append((x, f))

    def fold(self, n, fn, depth=4):
        """set of patterns"""
        if depth == 0 or n is None:
            return {HOLE}
        if isinstance(n, ast.Constant):
            return {n.value} if isinstance(n.value, str) else {str(n.value)}
        if isinstance(n, ast.JoinedStr):
            return self.cat([self.fold(v, fn, depth) for v in n.values])
        if isinstance(n, ast.FormattedValue):
            return self.fold(n.value, fn, depth)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.cat([self.fold(n.left, fn, depth), self.fold(n.right, fn, depth)])
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            l = self.fold(n.left, fn, depth)
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            a = [self.fold(x, fn, depth) for x in args]
            out = set()
            for f in l:
                parts = re.split('%[sd]', f)
                if len(parts) != len(a) + 1:
                    return {HOLE}
                seq = [{parts[0]}]
                for x, p in zip(a, parts[1:]):
                    seq += [x, {p}]
                out |= self.cat(seq)
            return out
        if isinstance(n, ast.IfExp):
            return self.fold(n.body, fn, depth) | self.fold(n.orelse, fn, depth)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            l = self.fold(n.func.value, fn, depth)
            return {re.sub(r'\{[^}]*\}', HOLE, f) for f in l}
        if isinstance(n, ast.Name):
            return self.name(n.id, fn, depth)
        return {HOLE}

    @staticmethod
    def cat(seq):
        out = {''}
        for s in seq:
            out = {a + b for a in out for b in s}
            if len(out) > 2000:
                return {HOLE}
        return out

    def seq(self, it, tgt, name, fn, depth):
        """values a loop target takes"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('zip', 'enumerate') and \
                isinstance(tgt, ast.Tuple):
            args = ([None] + it.args) if it.func.id == 'enumerate' else it.args
            for t, a in zip(tgt.elts, args):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                    return self.seq(a, t, name, fn, depth) if a is not None else {HOLE}
        if isinstance(it, ast.Name):
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in x.targets):
                    it = x.value
                    break
        if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for e in it.elts:
                if isinstance(tgt, ast.Name):
                    out |= self.fold(e, fn, depth - 1)
                elif isinstance(tgt, ast.Tuple) and isinstance(e, (ast.Tuple, ast.List)):
                    for t, a in zip(tgt.elts, e.elts):
                        if isinstance(t, ast.Name) and t.id == name:
                            out |= self.fold(a, fn, depth - 1)
                else:
                    return {HOLE}
            return out or {HOLE}
        return {HOLE}

    def name(self, name, fn, depth):
        out, found = set(), False
        for x in ast.walk(fn):
            if isinstance(x, (ast.For, ast.comprehension)) and \
                    any(isinstance(t, ast.Name) and t.id == name for t in ast.walk(x.target)):
                found = True
                out |= self.seq(x.iter, x.target, name, fn, depth)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        found = True
                        out |= self.fold(x.value, fn, depth - 1)
        # a parameter: of the function itself or of a function defined inside
        for f in ast.walk(fn):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                ps = [a.arg for a in f.args.posonlyargs + f.args.args]
                ks = [a.arg for a in f.args.kwonlyargs]
                if name in ps + ks:
                    found = True
                    out |= self.param(f, name, ps, depth)
        return out if found else {HOLE}

    def param(self, f, name, ps, depth):
        if isinstance(f, ast.Lambda):
            return {HOLE}
        out = set()
        dfl = dict(zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults))
        dfl.update({a.arg: d for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None})
        sites = self.calls.get(f.name, [])
        if not sites:
            return {HOLE}
        off = 1 if ps and ps[0] in ('self', 'cls') else 0
        for c, g in sites:
            v = next((k.value for k in c.keywords if k.arg == name), None)
            if v is None and name in ps:
                i = ps.index(name) - (off if isinstance(c.func, ast.Attribute) else 0)
                if 0 <= i < len(c.args):
                    v = c.args[i]
            if v is None:
                v = dfl.get(name)
            if v is None or (isinstance(v, ast.Constant) and v.value is None):
                continue
            out |= self.fold(v, g, depth - 1)
        return out or {HOLE}


ALIAS = set()           # names bound to a configuration in the function being read


def config_names(f, fold):
    out = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and is_config(x.value):
            out |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        elif isinstance(x, ast.FunctionDef):
            ps = [a.arg for a in x.args.posonlyargs + x.args.args]
            off = 1 if ps and ps[0] in ('self', 'cls') else 0
            for c, g in fold.calls.get(x.name, []):
                o = off if isinstance(c.func, ast.Attribute) else 0
                out |= {ps[i + o] for i, a in enumerate(c.args) if is_config(a) and i + o < len(ps)}
                out |= {k.arg for k in c.keywords if k.arg in ps and is_config(k.value)}
    return out


def is_config(n):
    if isinstance(n, ast.Name):
        return 'config' in n.id and not n.id[0].isupper() or n.id in ALIAS
    if isinstance(n, ast.Attribute):
        return 'config' in n.attr
    return False


def family(mod, cls):
    for n in ('Catalog', 'Corr2', 'Corr3'):
        if cls is not None and cls.issub(n):
            return n
    return None


def find_reads(rep, funcs, fold):
    out = []
    conf = next((m for m in rep.modules.values() if 'get_from_list' in m.funcs and 'check_config' in m.funcs), None)
    if conf is None:
        raise AnalysisBroken('the module with get_from_list and check_config is gone')
    helpers = {}
    for nm in ('get', 'get_from_list'):
        f = conf.funcs.get(nm)
        if f is None:
            raise AnalysisBroken('config.%s is gone' % nm)
        helpers[nm] = [a.arg for a in f.args.args]
    for m, c, f in funcs:
        if m is conf and f.name in ('get', 'get_from_list', 'check_config', 'merge_config', 'make_minimal_config',
                                    'print_params', 'convert', 'parse_variable'):
            continue
        ALIAS.clear()
        ALIAS.update(config_names(f, fold))
        parents = {ch: p for p in ast.walk(f) for ch in ast.iter_child_nodes(p)}
        for x in ast.walk(f):
            key = recv = typ = dflt = how = None
            if isinstance(x, ast.Call):
                g = x.func
                nm = g.attr if isinstance(g, ast.Attribute) else g.id if isinstance(g, ast.Name) else ''
                if nm in helpers and not (isinstance(g, ast.Attribute) and is_config(g.value)
                                          and g.value is not None and nm == 'get'):
                    if isinstance(g, ast.Name) and m.imports.get(nm, ('', '', 0))[1] != nm and m is not conf:
                        continue
                    b = dict(zip(helpers[nm], x.args))
                    b.update({k.arg: k.value for k in x.keywords if k.arg})
                    if 'config' not in b or not is_config(b['config']):
                        if isinstance(g, ast.Attribute) or 'config' not in b:
                            continue
                    key, recv, typ, dflt, how = b.get('key'), b['config'], b.get('value_type'), b.get('default'), nm
                elif nm in ('get', 'pop', 'setdefault') and isinstance(g, ast.Attribute) and is_config(g.value) and x.args:
                    key, recv, how = x.args[0], g.value, 'dict'
                    dflt = x.args[1] if len(x.args) > 1 else None
            elif isinstance(x, ast.Subscript) and is_config(x.value) and isinstance(x.ctx, ast.Load):
                key, recv, how = x.slice, x.value, 'dict'
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and \
                    is_config(x.comparators[0]):
                key, recv, how = x.left, x.comparators[0], 'in'
            if key is None:
                continue
            r = Read()
            r.keys, r.how, r.mod, r.fn, r.node, r.cls = fold.fold(key, f), how, m, f, x, c
            r.recv = recv.attr if isinstance(recv, ast.Attribute) else recv.id if isinstance(recv, ast.Name) else '?'
            r.type = ast.unparse(typ) if typ is not None else None
            r.default = dflt
            r.family = None if r.recv != 'config' or not (isinstance(recv, ast.Attribute)) else family(m, c)
            r.used = used(x, f, parents)
            out.append(r)
    ALIAS.clear()
    return out


def used(x, f, parents):
    """(True, '') or (False, the name the value is put in and never read from); ('attr', name) for attributes"""
    p = parents.get(x)
    while isinstance(p, (ast.IfExp, ast.BoolOp)):
        x, p = p, parents.get(p)
    if isinstance(p, ast.Expr):
        return False, 'nothing'
    if isinstance(p, ast.Assign) and len(p.targets) == 1:
        t = p.targets[0]
        if isinstance(t, ast.Name):
            for y in ast.walk(f):
                if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load):
                    return True, ''
                if isinstance(y, (ast.Global, ast.Nonlocal)) and t.id in y.names:
                    return True, ''
            return False, t.id
        if isinstance(t, ast.Attribute):
            return 'attr', t.attr
    return True, ''


def rx(p):
    return re.compile('.*'.join(re.escape(s) for s in p.split(HOLE)) + r'\Z')


def matches(p, keys):
    if HOLE not in p:
        return {p} & set(keys)
    if not p.replace(HOLE, ''):
        return set()
    r = rx(p)
    return {k for k in keys if r.match(k)}


# ---- the check ---------------------------------------------------------------------------------------------

RULES = [
    ('read-declared', 'every parameter read from the configuration of a class is declared by that class', 60),
    ('declared-read', 'every declared parameter is read somewhere and its value goes somewhere', 100),
    ('read-type', 'a parameter is read with the type it is declared with', 20),
    ('read-list', 'a parameter that may be a list is read entry by entry', 20),
    ('read-default', 'the places reading a parameter without declared default agree on the default', 1),
    ('declared-default', 'declared defaults have the declared type and are among the valid values', 5),
    ('declared-valid', 'the valid values have the declared type', 5),
    ('driver-accepts', 'the drivers accept every parameter of the classes they use', 2),
    ('documented-default', 'the default of a parameter is the documented one', 5),
    ('choice-handled', 'the declared choices are values some code knows', 1),
    ('choice-declared', 'values a parameter is tested for are among its choices', 1),
    ('unknown-refused', 'check_config refuses every parameter that is not declared', 1),
    ('value-refused', 'check_config refuses every value outside the declared choices', 2),
    ('all-checked', 'the checking of parameters does not stop early', 0),
    ('list-values', 'the entries of a list are judged one by one', 0),
    ('defaults', 'declared defaults fill in what is not given', 1),
    ('alias', 'aliases stand for declared parameters', 2),
    ('merge-checks', 'the merged configuration is checked with the given declarations and aliases', 2),
    ('kwargs-win', 'keyword values are kept when the configuration has the same parameter', 0),
    ('entry-checks', 'every constructor and driver checks its configuration against its own declarations', 5),
]


def check(ck):
    for r in RULES:
        ck.rule(*r)
    rep = repo()
    decl = declared(rep)
    funcs = list(functions(rep))
    fold = Folder(rep, funcs)
    reads = find_reads(rep, funcs, fold)
    written = set()
    for m, c, f in funcs:
        for x in ast.walk(f):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and is_config(x.value):
                written |= {k for k in fold.fold(x.slice, f) if HOLE not in k}
    every = set().union(*[set(d) for d in decl.values()])
    internal = written - every
    loads = set()
    for m in rep.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                loads.add(x.attr)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'hasattr') and \
                    len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                loads.add(x.args[1].value)
    ck.saw(*('%s.%s' % (r.mod.name, r.fn.name) for r in reads))

    # 1: what is read is declared
    vague = {}
    seen = {}
    for r in reads:
        own = set(decl[r.family]) if r.family else every
        fam = r.family or 'any'
        for k in r.keys:
            got = matches(k, own | internal)
            if HOLE in k and not got:
                vague.setdefault(r.family, []).append(r)
                continue
            seen.setdefault((fam, k.replace(HOLE, '*')), []).append((r, bool(got)))
    for (fam, k), rs in sorted(seen.items()):
        bad = [r for r, ok in rs if not ok]
        ck.ob('read-declared', '%s %s' % (fam, k), not bad,
              'reads the parameter %r, which is not among the parameters declared for %s' % (k, fam),
              where(bad[0]) if bad else where(rs[0][0]))
    # 2: what is declared is read (and the value goes somewhere)
    honour = {}
    for r in reads:
        for k in r.keys:
            for d in matches(k, every):
                honour.setdefault(d, []).append(r)
    for fam in ('Catalog', 'Corr2', 'Corr3', 'corr2', 'corr3'):
        for k, p in sorted(decl[fam].items()):
            rs = [r for r in honour.get(k, []) if r.how != 'in' and
                  (r.family in (fam, None) or fam in ('corr2', 'corr3'))]
            live = [r for r in rs if r.used[0] is True or (r.used[0] == 'attr' and r.used[1] in loads)]
            if not live and (vague.get(fam) or vague.get(None)):
                ck.ob('declared-read', '%s %s' % (fam, k), True, '(undecided: keys that are not constant are read)')
                continue
            why = 'is declared for %s but no code reads it' % fam if not rs else \
                'is read but its value goes nowhere (%s)' % ', '.join(sorted({r.used[1] for r in rs}))
            ck.ob('declared-read', '%s %s' % (fam, k), bool(live), 'the parameter %r %s' % (k, why),
                  '%s:%d' % (fam, p.line))
    read_types(ck, decl, reads)
    declarations(ck, rep, decl)
    doc_defaults(ck, rep, decl, honour)
    choices(ck, rep, decl, reads)
    checker(ck, rep)
    merger(ck, rep)
    entries(ck, rep, decl)


def where(r):
    return '%s:%s line %d' % (r.mod.name, r.fn.name, r.node.lineno)


def read_types(ck, decl, reads):
    dfl = {}
    for r in reads:
        if r.how not in ('get', 'get_from_list'):
            continue
        for k in r.keys:
            if HOLE in k:
                continue
            for fam in ([r.family] if r.family else list(decl)):
                p = decl[fam].get(k)
                if p is None:
                    continue
                t = r.type or 'str'
                simple = t in ('str', 'int', 'float', 'bool', 'list')
                if not simple:
                    continue
                ck.ob('read-type', '%s %s in %s' % (fam, k, r.fn.name), t == p.type,
                      'the parameter %r is declared as %s but read as %s' % (k, p.type, t), where(r))
                if p.may_list:
                    ck.ob('read-list', '%s %s in %s' % (fam, k, r.fn.name), r.how == 'get_from_list',
                          'the parameter %r may be a list (one entry per catalog) but is read as a single value' % k,
                          where(r))
                ok, v = lit(r.default) if r.default is not None else (True, None)
                if ok and lit(p.default) == (True, None):
                    dfl.setdefault((fam, k), {}).setdefault(repr(v), []).append(r)
                break
    for (fam, k), d in sorted(dfl.items()):
        d = {v: rs for v, rs in d.items() if v != 'None'}
        if d:
            ck.ob('read-default', '%s %s' % (fam, k), len(d) == 1,
                  'the parameter %r has different defaults where it is read: %s' % (k, ', '.join(
                      '%s in %s' % (v, rs[0].fn.name) for v, rs in sorted(d.items()))),
                  where(list(d.values())[0][0]))


TYPES = {'str': str, 'int': int, 'float': (int, float), 'bool': (bool, int), 'list': (list, tuple)}


def declarations(ck, rep, decl):
    for fam in ('Catalog', 'Corr2', 'Corr3', 'corr2', 'corr3'):
        for k, p in sorted(decl[fam].items()):
            okd, d = lit(p.default)
            okv, v = lit(p.valid)
            if okd and d is not None:
                if p.type in TYPES:
                    ck.ob('declared-default', '%s %s type' % (fam, k), isinstance(d, TYPES[p.type]),
                          'the default %r of %r is not of the declared type %s' % (d, k, p.type), '%s:%d' % (fam, p.line))
                if okv and v is not None:
                    ck.ob('declared-default', '%s %s valid' % (fam, k), d in v,
                          'the default %r of %r is not one of its valid values %s' % (d, k, v), '%s:%d' % (fam, p.line))
            if okv and isinstance(v, (list, tuple)) and p.type in TYPES:
                for c in v:
                    ck.ob('declared-valid', '%s %s %r' % (fam, k, c), isinstance(c, TYPES[p.type]),
                          'the valid value %r of %r can never be given: the parameter has type %s' % (c, k, p.type),
                          '%s:%d' % (fam, p.line))
    for drv, cls in (('corr2', 'Corr2'), ('corr3', 'Corr3')):
        for c in ('Catalog', cls):
            miss = set(decl[c]) - set(decl[drv + '*'])
            ck.ob('driver-accepts', '%s %s' % (drv, c), not miss,
                  'the driver refuses parameters of %s: %s' % (c, ', '.join(sorted(miss))), drv)


def doc_defaults(ck, rep, decl, honour):
    pat = re.compile(r'^\s*([a-z_0-9]+)(?: \([^)]*\))?:\s', re.M)
    for fam in ('Catalog', 'Corr2', 'Corr3'):
        cl = rep.cls(fam)
        doc = ast.get_docstring(cl.node) or ''
        hits = list(pat.finditer(doc))
        for i, h in enumerate(hits):
            k = h.group(1)
            if k not in decl[fam]:
                continue
            body = doc[h.end():hits[i + 1].start() if i + 1 < len(hits) else len(doc)]
            m = re.search(r'\(default:\s*([^)\s]+)\)', ' '.join(body.split()))
            if not m:
                continue
            try:
                want = ast.literal_eval(m.group(1).strip('`'))
            except Exception:
                want = m.group(1).strip('`')
            okd, d = lit(decl[fam][k].default)
            if not okd:
                continue
            if d is None and want is not None:
                # the default comes from where the parameter is read
                vals = {lit(r.default)[1] for r in honour.get(k, [])
                        if r.how in ('get', 'get_from_list') and r.family == fam and r.default is not None
                        and lit(r.default)[0] and not isinstance(lit(r.default)[1], (list, dict))} - {None}
                if len(vals) != 1:
                    continue
                d = vals.pop()
            ck.ob('documented-default', '%s %s' % (fam, k), same(want, d),
                  'the default of %r is documented as %r but is %r' % (k, want, d), '%s:%d' % (fam, decl[fam][k].line))


def same(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b or a.startswith(b) or b.startswith(a)
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return a == b


def choices(ck, rep, decl, reads):
    """every declared choice is a value that some code tests for, and every value tested for is a choice"""
    text = {}
    for m in rep.modules.values():
        skip = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Assign) and any('valid_params' in ast.unparse(t) for t in x.targets):
                skip |= {id(y) for y in ast.walk(x)}
        for x in ast.walk(m.tree):
            if id(x) not in skip and isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 60:
                text.setdefault(x.value.lower(), set()).add(m.name)
    known = {}
    for fam in ('Catalog', 'Corr2', 'Corr3', 'corr2', 'corr3'):
        for k, p in decl[fam].items():
            ok, v = lit(p.valid)
            if not ok or not v or p.type != 'str':
                continue
            known.setdefault(k, set()).update(v)
            # one choice may be what is done when no other is given
            missing = [c for c in v if c.lower() not in text]
            ck.ob('choice-handled', '%s %s' % (fam, k), len(missing) < 2,
                  'the choices %s of %r occur nowhere in the code' % (missing, k), '%s:%d' % (fam, p.line))
    attrs = {}
    for r in reads:
        if r.used[0] == 'attr':
            for k in r.keys:
                if k in known:
                    attrs.setdefault(r.used[1], set()).add(k)
    for m, c, f in functions(rep):
        for x in ast.walk(f):
            if not (isinstance(x, ast.Compare) and len(x.ops) == 1):
                continue
            ks = None
            l = x.left
            if isinstance(l, ast.Attribute) and l.attr in attrs and len(attrs[l.attr]) == 1:
                ks = list(attrs[l.attr])[0]
            elif isinstance(l, ast.Subscript) and is_config(l.value) and isinstance(l.slice, ast.Constant):
                ks = l.slice.value
            elif isinstance(l, ast.Call) and isinstance(l.func, ast.Attribute) and l.func.attr == 'get' and \
                    is_config(l.func.value) and l.args and isinstance(l.args[0], ast.Constant):
                ks = l.args[0].value
            if ks not in known:
                continue
            ok, v = lit(x.comparators[0])
            if not ok:
                continue
            vs = v if isinstance(v, (list, tuple, set)) and isinstance(x.ops[0], (ast.In, ast.NotIn)) else [v]
            for val in vs:
                if isinstance(val, str):
                    ck.ob('choice-declared', '%s %r in %s' % (ks, val, f.name), val in known[ks],
                          'tests the parameter %r for %r, which is not one of its choices %s' % (
                              ks, val, sorted(known[ks])), '%s:%s line %d' % (m.name, f.name, x.lineno))


def atoms(gs):
    """(atom, value) of a list of guards, loops dropped"""
    for g in gs:
        if isinstance(g, tuple) and len(g) == 2:
            t, v = g
        else:
            t, v = g, True
        if t.op == 'tuple' and len(t.args) == 2 and t.args[1].is_const:
            t, v = t.args[0], bool(t.args[1].value)
        yield from split(t, v)


def split(t, v):
    while t.op == 'not' and len(t.args) == 1:
        t, v = t.args[0], not v
    if v and t.op == 'and' or (not v and t.op == 'or'):
        for a in (t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args):
            if isinstance(a, T):
                yield from split(a, v)
        return
    if t.op == 'loop':
        return
    yield t, v


def member_of(t, name):
    """the term is a membership test in the parameter `name`"""
    return t.op in ('in', 'notin', 'cmp') and any(a == T('param', name) for a in t.args if isinstance(a, T)) and \
        show(t).find(' in ') >= 0


def checker(ck, rep):
    fl = Flow(rep, opaque={'parse'}, maxdepth=5)
    mod = next(m for m in rep.modules.values() if 'check_config' in m.funcs)
    ps = [a.arg for a in mod.funcs['check_config'].args.args]
    if len(ps) < 3:
        raise AnalysisBroken('check_config no longer takes config, params, aliases')
    cfg, par, ali = ps[:3]
    r = fl.run_function(mod.name, 'check_config')
    if r is None:
        ck.ob('checker', 'check_config', True, '(undecided)')
        return
    P = T('param', par)

    def about(t, x):
        return any(y == x for y in subterms(t))

    def valid_of(t):
        return any(y.op == 'idx' and any(isinstance(a, T) and a.is_const and a.value == 3 for a in y.args[1:]) and
                   about(y, P) for y in subterms(t))

    def type_of(t):
        return any(y.op == 'idx' and any(isinstance(a, T) and a.is_const and a.value == 0 for a in y.args[1:]) and
                   about(y, P) for y in subterms(t))

    raises = [e for e in fl.events if e.kind == 'raise']
    for lp in ast.walk(mod.funcs['check_config']):
        if isinstance(lp, ast.For):
            stops = [x for x in own_level(lp.body) if isinstance(x, (ast.Break, ast.Return))]
            ck.ob('all-checked', 'check_config line %d' % lp.lineno, not stops,
                  'the loop over the parameters stops early: what comes later is not checked',
                  'config.check_config line %d' % (stops[0].lineno if stops else lp.lineno))
    unknown, badval, unclear = [], [], []
    for e in raises:
        at = list(atoms(e.guards))
        key = [(t, v) for t, v in at if is_in(t, P)]
        val = [(t, v) for t, v in at if valid_of(t)]
        if val:
            badval.append((e, at))
        elif any(t.op not in ('cmp', 'in', 'notin', 'call', 'param', 'phi', 'and', 'or') for t, v in at):
            unclear.append(e)
        elif key and lacking(*key[-1]):
            unknown.append((e, [(t, v) for t, v in at if (t, v) not in key]))
    ok = [e for e, rest in unknown if not rest]
    ck.ob('unknown-refused', 'check_config', bool(ok or (unclear and not unknown)),
          'no error is raised for a parameter that is not declared' if not unknown else
          'a parameter that is not declared is only refused when %s' % show_g(unknown[0][1]),
          'config.check_config')
    ck.ob('value-refused', 'check_config', bool(badval),
          'no error depends on the valid values of a parameter', 'config.check_config')
    if not badval:
        return

    def scenario(at, is_str, is_list):
        for t, v in at:
            if t.op == 'cmp' and type_of(t) and show(t.args[-1]) in ('str', '<class str>'):
                if v != is_str:
                    return False
            if list_test(t):
                if v != is_list:
                    return False
        return True

    for is_str in (True, False):
        for is_list in (True, False):
            comp = [(e, at) for e, at in badval if scenario(at, is_str, is_list)]
            good = []
            for e, at in comp:
                other = [(t, v) for t, v in at if not (about(t, P) or bound(t)) ]
                if not other:
                    good.append(e)
            ck.ob('value-refused', 'check_config %s%s' % ('str' if is_str else 'other type', ', list' if is_list else ''),
                  bool(good), 'a value outside the valid values is not refused for this kind of parameter'
                  if not comp else 'a value outside the valid values is only refused when %s' % show_g(
                      [(t, v) for t, v in comp[0][1] if not (about(t, P) or bound(t))]), 'config.check_config')
    # a list of values is judged entry by entry
    for e in fl.events:
        if e.kind == 'call' and e.name in ('startswith', 'lower', 'upper', 'strip') and isinstance(e.data.get('recv'), T):
            lv = list(phi_leaves(e.recv))
            if not any(x.op == 'comp' for x in [y for l in lv for y in ([l[-1]] if isinstance(l, tuple) else [l])]):
                continue
            safe = any(list_test(t) and not v for t, v in atoms(e.guards))
            ck.ob('list-values', 'check_config', safe,
                  'the entries of a list are not judged one by one: a list is treated as one string',
                  'config.check_config')
    # aliases
    al = [e for e in fl.events if e.kind == 'setitem' and about(e.key, T('param', ali))]
    ck.ob('alias', 'check_config stores', any(about(e.value, T('param', cfg)) for e in al),
          'the value of an alias is not stored under the name it stands for', 'config.check_config')
    # defaults
    def is_default(y):
        return y.op == 'idx' and any(isinstance(a, T) and a.is_const and a.value == 2 for a in y.args[1:]) and about(y, P)

    df = [e for e in fl.events if e.kind == 'setitem' and any(is_default(y) for y in subterms(e.value))]
    if not df and any(is_default(y) for e in fl.events for a in e.data.values() for z in flat(a) for y in subterms(z)):
        ck.ob('defaults', 'check_config', True, '(undecided)')
        return
    ck.ob('defaults', 'check_config', bool(df), 'declared defaults are not filled in', 'config.check_config')
    for e in df:
        g = [(t, v) for t, v in atoms(e.guards)]
        has = [v for t, v in g if in_conf(t, cfg)]
        ck.ob('defaults', 'check_config keeps given values', bool(has) and not any(has),
              'a declared default overwrites a value that was given', 'config.check_config')


def own_level(body):
    for st in body:
        yield st
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            yield from own_level(getattr(st, f, []) or [])
        for h in getattr(st, 'handlers', []) or []:
            yield from own_level(h.body)


def flat(a):
    if isinstance(a, T):
        return [a]
    if isinstance(a, (tuple, list)):
        return [z for x in a for z in flat(x)]
    if isinstance(a, dict):
        return [z for x in a.values() for z in flat(x)]
    return []


def list_test(t):
    return t.op == 'call' and show(t.args[0]) == 'isinstance' and len(t.args[1]) == 2 and \
        'list' in show(t.args[1][1])


def bound(t):
    return any(y.op == 'bv' for y in subterms(t))


def is_in(t, P):
    s = t.op
    if s == 'cmp' and t.args[0] in ('is', 'is not', '==') and isinstance(t.args[2], T) and t.args[2] == NONE:
        a = t.args[1]
        return a.op == 'call' and a.args[0].op == 'attr' and a.args[0].args == (P, 'get')
    return (s in ('in', 'notin') or (s == 'cmp' and t.args and t.args[0] in ('in', 'not in'))) and \
        any(isinstance(a, T) and a == P for a in t.args)


def lacking(t, v):
    """the (membership atom, value) says that the key is not there"""
    if t.op == 'notin' or (t.op == 'cmp' and t.args[0] in ('not in', 'is', '==')):
        return v
    return not v


def in_conf(t, cfg):
    return (t.op in ('in', 'notin') or (t.op == 'cmp' and t.args[0] in ('in', 'not in'))) and \
        any(y == T('param', cfg) for y in subterms(t))


def show_g(gs):
    return ' and '.join('%s%s' % ('' if v else 'not ', show(t)[:80]) for t, v in gs) or 'nothing'


def merger(ck, rep):
    fl = Flow(rep, opaque={'check_config'}, maxdepth=4)
    mod = next(m for m in rep.modules.values() if 'check_config' in m.funcs)
    if 'merge_config' not in mod.funcs:
        raise AnalysisBroken('merge_config is gone')
    ps = [a.arg for a in mod.funcs['merge_config'].args.args]
    cfg, kws, par, ali = ps[:4]
    fl.run_function(mod.name, 'merge_config')
    calls = [e for e in fl.events if e.kind == 'call' and e.name == 'check_config']
    ck.ob('merge-checks', 'merge_config', len(calls) >= 1,
          'the merged configuration is not checked', 'config.merge_config')
    for e in calls:
        a = list(e.args) + [None] * 3
        kw = e.data.get('kw') or {}
        pa = kw.get('params', a[1])
        al = kw.get('aliases', a[2])
        ck.ob('merge-checks', 'merge_config params', pa == T('param', par),
              'the merged configuration is checked against something else than the given parameters', 'config.merge_config')
        ck.ob('merge-checks', 'merge_config aliases', al == T('param', ali),
              'the aliases are not passed on', 'config.merge_config')
    for e in fl.events:
        if e.kind != 'setitem':
            continue
        fromc = any(y == T('param', cfg) for y in subterms(e.value))
        if not fromc:
            continue
        base = [y for y in subterms(e.recv)]
        if not any(y == T('param', kws) for y in base):
            continue
        keep = [(t, v) for t, v in atoms(e.guards) if in_conf(t, kws)]
        ck.ob('kwargs-win', 'merge_config', bool(keep) and not any(v for t, v in keep if t.op != 'notin'),
              'a value of the configuration replaces the one given as keyword', 'config.merge_config')
    for e in fl.events:
        if e.kind == 'call' and e.name == 'update' and isinstance(e.data.get('recv'), T) and e.args:
            rc = any(y == T('param', kws) for y in subterms(e.recv))
            ac = any(y == T('param', cfg) for y in subterms(e.args[0]))
            if rc and ac and not any(y == T('param', cfg) for y in subterms(e.recv)):
                ck.ob('kwargs-win', 'merge_config', False,
                      'values of the configuration replace those given as keywords', 'config.merge_config')


def entries(ck, rep, decl):
    """every entry point checks its configuration against its own declarations"""
    for fam in ('Catalog', 'Corr2', 'Corr3'):
        cl = rep.cls(fam)
        dc, init = cl.method('__init__')
        found = []
        todo, done = [init], set()
        while todo:
            f = todo.pop()
            if id(f) in done:
                continue
            done.add(id(f))
            for x in ast.walk(f):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ''
                    if n in ('merge_config', 'check_config'):
                        found.append((n, x))
                    elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                            x.func.value.id == 'self':
                        g = cl.method(n)[1]
                        if g is not None:
                            todo.append(g)
        ck.ob('entry-checks', fam, bool(found), 'the constructor does not check its configuration', fam + '.__init__')
        for n, x in found:
            a = list(x.args)
            kw = {k.arg: k.value for k in x.keywords}
            v = kw.get('valid_params', kw.get('params', a[2 if n == 'merge_config' else 1]
                                              if len(a) > (2 if n == 'merge_config' else 1) else None))
            s = ast.unparse(v) if v is not None else 'nothing'
            ok = s.split('.')[-1] == '_valid_params' and (s.split('.')[0] in ('self', 'cls', fam, 'type(self)') or
                                                          s.startswith('self.__class__'))
            if isinstance(v, ast.Name):
                ok = True
            ck.ob('entry-checks', fam + ' parameters', ok,
                  'checks its configuration against %s' % s, '%s.__init__ line %d' % (fam, x.lineno))
            if cl.attrs.get('_aliases') is not None:
                al = kw.get('aliases', a[3 if n == 'merge_config' else 2]
                            if len(a) > (3 if n == 'merge_config' else 2) else None)
                ck.ob('entry-checks', fam + ' aliases', al is not None,
                      'checks its configuration without the aliases of the class', '%s.__init__ line %d' % (fam, x.lineno))
        for nm, node in [('_aliases', cl.attrs.get('_aliases'))]:
            alias_targets(ck, fam, node, set(decl[fam]))
    for drv in ('corr2', 'corr3'):
        mod = next(m for m in rep.modules.values() if drv in m.funcs)
        f = mod.funcs[drv]
        fl = Flow(rep, opaque=ALLF(rep, mod), maxdepth=2)
        fl.run_function(mod.name, drv)
        calls = [e for e in fl.events if e.kind == 'call' and e.name == 'check_config']
        ck.ob('entry-checks', drv, bool(calls) and any(not list(atoms(e.guards)) for e in calls),
              'the driver does not check its configuration' if not calls else
              'the driver only checks its configuration when %s' % show_g(list(atoms(calls[0].guards))), mod.name + '.' + drv)
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'check_config' and len(x.args) > 1:
                s = ast.unparse(x.args[1])
                ck.ob('entry-checks', drv + ' parameters', s == drv + '_valid_params' or not s.endswith('valid_params'),
                      'checks its configuration against %s' % s, '%s line %d' % (mod.name, x.lineno))
        alias_targets(ck, drv, mod.globals.get(drv + '_aliases'), set(decl[drv + '*']))


def ALLF(rep, mod):
    return {f for m in rep.modules.values() for f in m.funcs if m is not mod} | {'process', 'write', 'read_catalogs'}


def alias_targets(ck, fam, node, keys):
    if node is None:
        return
    if not isinstance(node, ast.Dict):
        ck.ob('alias', fam, True, '(undecided)')
        return
    for k, v in zip(node.keys, node.values):
        ok, t = lit(v)
        ok2, a = lit(k) if k is not None else (False, None)
        if ok and ok2:
            ck.ob('alias', '%s %s' % (fam, a), t in keys and a not in keys,
                  'the alias %r stands for %r, which is not a declared parameter' % (a, t) if t not in keys else
                  'the alias %r hides a declared parameter' % a, fam)
    ck.ob('alias', fam, True, '')
