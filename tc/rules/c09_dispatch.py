"""C09: each bin type, metric and coordinate choice runs its own implementation.

 own       the compiled entry points are followed for every combination of bin type, metric, coordinates and
           options (switch labels, template arguments and the Valid* helper classes evaluated as constants):
           exactly the implementation of that combination is reached, with the fields in their own places;
 instance  from that implementation on, every helper class selected by bin type or metric is the one chosen;
 accepted  Python lets a metric and coordinates through exactly where the compiled code implements them, for
           every metric it declares valid (constant propagation through the option parsing);
 enum      every option string becomes the enumerator of that meaning, under the name it is exported as;
 exported  every exported class name is bound to the data types and coordinates it names;
 field     the Python field classes build the compiled field of their own kind and of the coordinates in use.
"""
import re

from ..common import *
from ..pyrepo import AnalysisBroken
from ..cxx import load_sources, walk, src, lex, P, N, split_q, split_targs
from ..cxxutil import base
from ..bind import table
from ..cases import Pick, Open
from .c24_units import bt_cond, BT2, BT3

PROP = 'C09'
# option string -> enumerator (documentation: docs/metric.rst, docs/binning.rst, Field.split_method)
METRICS = {'Euclidean': 'Euclidean', 'Rperp': 'Rperp', 'FisherRperp': 'Rperp', 'OldRperp': 'OldRperp',
           'Rlens': 'Rlens', 'Arc': 'Arc', 'Periodic': 'Periodic'}
COORDS = {'flat': 'Flat', 'spherical': 'Sphere', '3d': 'ThreeD'}
SPLITS = {'middle': 'Middle', 'median': 'Median', 'mean': 'Mean', 'random': 'Random'}
METRICS3 = ('Euclidean', 'Arc', 'Periodic')


def dbg(*a):
    import os
    if os.environ.get('TC_DEBUG'):
        print('  undecided', *[str(x)[:300] for x in a])


def check(ck):
    ck.rule('own', 'Every entry point of the compiled code reaches, for every valid combination of bin type, metric, '
            'coordinates, ordering and line-of-sight limits, exactly the implementation of that combination, with '
            'the fields in their own places.', 100)
    ck.rule('instance', 'Below that implementation every bin-type, metric and coordinate helper class is the one of '
            'the combination chosen.', 100)
    ck.rule('accepted', 'Python accepts a metric with a coordinate system exactly if the compiled code implements the '
            'pair, and refuses different coordinate systems except where the metric allows them.', 60)
    ck.rule('enum', 'Each option string is turned into the enumerator of the same meaning, exported under its own '
            'name.', 25)
    ck.rule('exported', 'Each exported class is bound to the data types and the coordinates its name says.', 20)
    ck.rule('field', 'Each Python field class and each field getter builds the field of its own kind in the '
            'coordinates in use.', 30)
    S = load_sources()
    ck.assumptions.append('A failed Assert in the compiled code only prints a message (release build), so a '
                          'combination it guards against has to be refused by Python.')
    d = Dispatch(S)
    valid = cxx_valid(d)
    python_accept(ck, valid)
    enums(ck, S)
    exported(ck, S)
    fields(ck)
    entries(ck, d, valid)


# ---------------------------------------------------------------- constants of the compiled code

class Unknown(Exception):
    pass


_parsed = {}


def parse(text):
    if text not in _parsed:
        p = P(lex(text, '<targ>'), '<targ>')
        try:
            _parsed[text] = p.expr()
        except Exception:
            _parsed[text] = None
    return _parsed[text]


class Dispatch:
    def __init__(self, S):
        self.S = S
        self.enumv = {}
        for en, vs in S.enums.items():
            for v, _ in vs:
                self.enumv[v] = en
        self.byname = {}
        for f in S.functions:
            if f.body is not None:
                self.byname.setdefault(f.name, []).append(f)
        self.classes = {}
        for c in S.classes:
            self.classes.setdefault(c.name, []).append(c)

    # -- constant expressions over enumerators, integers and truth values
    def ev(self, e, env):
        k, a = e.k, e.a
        if k == 'num':
            try:
                return int(a[0], 0)
            except ValueError:
                raise Unknown(a[0])
        if k == 'cast':
            return self.ev(a[1], env)
        if k == 'name':
            nm, ta = a[0], a[1]
            if nm in ('true', 'false'):
                return nm == 'true'
            if nm in env and ta is None:
                v = env[nm]
                if v is None:
                    raise Unknown(nm)
                return v
            if nm in self.enumv:
                return nm
            q = split_q(nm)
            if len(q) > 1 and q[-1] in self.enumv and '<' not in nm:
                return q[-1]
            if len(q) > 1:
                return self.member(q[-2], q[-1], env)
            raise Unknown(nm)
        if k == 'call' and a[0].k == 'name' and base(a[0].a[0]) in ('int', 'bool', 'long') and len(a[1]) == 1:
            return self.ev(a[1][0], env)
        if k == 'call' and a[0].k == 'member':
            r = env.get('.' + base(a[0].a[1]))
            if r is not None:
                return r
            raise Unknown(src(e))
        if k == 'call' and a[0].k == 'name':
            r = env.get('.' + base(a[0].a[0]))
            if r is not None:
                return r
            raise Unknown(src(e))
        if k == 'member':
            r = env.get('.' + base(a[1]))
            if r is not None:
                return r
            raise Unknown(src(e))
        if k == 'un' and a[0] == '!':
            return not self.truth(a[1], env)
        if k == 'cond':
            return self.ev(a[1] if self.truth(a[0], env) else a[2], env)
        if k == 'bin':
            if a[0] == '&&':
                return self.truth(a[1], env) and self.truth(a[2], env)
            if a[0] == '||':
                return self.truth(a[1], env) or self.truth(a[2], env)
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            if a[0] == '==':
                return self.same(x, y)
            if a[0] == '!=':
                return not self.same(x, y)
            if a[0] in ('+', '-', '*') and all(isinstance(z, int) for z in (x, y)):
                return {'+': x + y, '-': x - y, '*': x * y}[a[0]]
            if a[0] in ('<', '<=', '>', '>='):
                x, y = self.num(x), self.num(y)
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[a[0]]
        raise Unknown(src(e))

    def num(self, x):
        if isinstance(x, str):
            return dict(self.S.enums[self.enumv[x]])[x]
        return int(x)

    def same(self, x, y):
        return self.num(x) == self.num(y)

    def truth(self, e, env):
        r = self.ev(e, env)
        return bool(self.num(r))

    def text(self, t, env):
        """value of a template argument given as text"""
        e = parse(t)
        if e is None:
            raise Unknown(t)
        return self.ev(e, env)

    def member(self, cls, name, env):
        """constant `name` of the class (or specialisation) cls, given as text"""
        m = re.match(r'\s*(\w+)\s*(?:<(.*)>)?\s*$', cls)
        if not m:
            raise Unknown(cls)
        cn = m.group(1)
        vals = [self.text(t, env) for t in split_targs(m.group(2))] if m.group(2) else []
        best = None
        for c in self.classes.get(cn, ()):
            pn = [p[1] for p in c.tparams]
            if c.targs:
                if len(c.targs) != len(vals):
                    continue
                e2, spec, ok = {}, 0, True
                for t, v in zip(c.targs, vals):
                    if t.strip() in pn:
                        e2[t.strip()] = v
                    else:
                        spec += 1
                        try:
                            ok = ok and self.same(self.text(t, {}), v)
                        except Unknown:
                            ok = False
                if not ok:
                    continue
            else:
                e2, spec = dict(zip(pn, vals)), -1
            if best is None or spec > best[0]:
                best = (spec, c, e2)
        if best is None:
            raise Unknown(cls)
        _, c, e2 = best
        if name not in c.cexpr:
            raise Unknown(cls + '::' + name)
        v = self.ev(c.cexpr[name], e2)
        return v

    # -- following calls
    @staticmethod
    def own_tparams(g):
        """template parameters of the function itself (not of its class)"""
        ct = {x.strip() for x in (g.ctargs or [])}
        return [p for p in g.tparams if p[1] not in ct]

    def overloads(self, nm, nargs, ntargs, near, member, cls=None):
        out = []
        for g in self.byname.get(nm, ()):
            need = sum(1 for p in g.params if p.default is None)
            if not need <= nargs <= len(g.params):
                continue
            if ntargs > len(self.own_tparams(g)):
                continue
            if member != bool(g.cls):
                continue
            out.append(g)
        if len(out) > 1 and cls:
            c = [g for g in out if g.cls == cls]
            out = c or out
        if len(out) > 1:
            c = [g for g in out if g.where.split(':')[0] == near.where.split(':')[0]]
            out = c or out
        return out

    def bind(self, g, targs, args, env, types):
        """template parameter values of g in this call"""
        e2 = {}
        for (_, pn), t in zip(self.own_tparams(g), targs):
            try:
                e2[pn] = self.text(t, env)
            except Unknown:
                e2[pn] = None
        for p, a in zip(g.params, args):
            at = self.type_of(a, types)
            if at is None:
                continue
            self.deduce(p.type, at, {x[1] for x in g.tparams}, e2, env)
        for _, pn in g.tparams:
            e2.setdefault(pn, None)
        return e2

    def type_of(self, a, types):
        if a.k == 'name':
            return types.get(a.a[0])
        if a.k == 'un' and a.a[0] in ('*', '&'):
            return self.type_of(a.a[1], types)
        return None

    def deduce(self, ptype, atype, names, e2, env):
        pm, am = {}, {}
        for t, d in ((ptype, pm), (atype, am)):
            for m in re.finditer(r'(\w+)\s*<([^<>]*)>', t):
                d.setdefault(m.group(1), split_targs(m.group(2)))
        for cn, ps in pm.items():
            args = am.get(cn)
            if args is None and len(pm) == 1 and len(am) == 1:
                args = list(am.values())[0]     # a derived or base class of the same template
                if len(args) != len(ps):
                    # Field<D,C> given where BaseField<C> is wanted
                    args = args[-len(ps):]
            if args is None:
                continue
            for x, y in zip(ps, args):
                x = x.strip()
                if x in names and e2.get(x) is None:
                    try:
                        e2[x] = self.text(y, env)
                    except Unknown:
                        pass

    def local_types(self, f):
        r = getattr(f, '_c09_types', None)
        if r is None:
            r = {p.name: p.type for p in f.params}
            for n in walk(f.body):
                if n.k == 'decl':
                    for d in n.a[1]:
                        r.setdefault(d[0], n.a[0])
            f._c09_types = r
        return r

    def targs_of(self, fn):
        if fn.k == 'name':
            m = re.match(r'[\w:]*?(\w+)\s*<(.*)>\s*$', fn.a[0])
            if fn.a[1] is not None:
                return base(fn.a[0]), list(fn.a[1])
            if m:
                return m.group(1), split_targs(m.group(2))
            return base(fn.a[0]), []
        ta = fn.a[3]
        return base(fn.a[1]), list(ta) if ta is not None else []


class Stop(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Walk:
    """the calls made by one entry point in one combination; a condition that the combination does not decide lets
    both branches through"""

    def __init__(self, d, leaves, rejects=True):
        self.d = d
        self.leaves = leaves        # (name, owner class or None) of the implementations
        self.reached = []
        self.failed = []
        self.seen = set()
        self.refs = []              # (helper class, value of its first argument)

    def fn(self, f, env, fields, depth=0):
        """fields: {variable: the entry's parameter it holds}"""
        if depth > 12:
            raise AnalysisBroken('%s: dispatch too deep' % f.where)
        self.seen.add(f.qual)
        try:
            self.stmt(f, f.body, dict(env), fields, depth)
        except Ret:
            pass

    def stmt(self, f, n, env, fields, depth):
        if n is None:
            return
        k, a = n.k, n.a
        if k == 'block':
            for x in a[0]:
                self.stmt(f, x, env, fields, depth)
        elif k == 'expr':
            self.expr(f, a[0], env, fields, depth)
        elif k == 'decl':
            for d in a[1]:
                init = d[1]
                es = init if isinstance(init, list) else ([init] if init is not None else [])
                for e in es:
                    self.expr(f, e, env, fields, depth)
                env.pop(d[0], None)
                if len(es) == 1:
                    try:
                        env[d[0]] = self.d.ev(es[0], env)
                    except Unknown:
                        pass
                    if es[0].k == 'name' and es[0].a[0] in fields:
                        fields[d[0]] = fields[es[0].a[0]]
        elif k == 'if':
            try:
                t = self.d.truth(a[0], env)
            except Unknown:
                self.expr(f, a[0], env, fields, depth)
                for b in (a[1], a[2]):
                    try:
                        self.stmt(f, b, dict(env), dict(fields), depth)
                    except (Ret, Brk):
                        pass
                return
            self.stmt(f, a[1] if t else a[2], env, fields, depth)
        elif k == 'switch':
            try:
                v = self.d.ev(a[0], env)
            except Unknown:
                raise AnalysisBroken('%s: what the switch at line %d selects on is not known' % (f.where, n.line))
            body = a[1].a[0]
            start = None
            for i, x in enumerate(body):
                if x is not None and x.k == 'case' and self.d.same(self.d.ev(x.a[0], env), v):
                    start = i
                    break
            if start is None:
                for i, x in enumerate(body):
                    if x is not None and x.k == 'default':
                        start = i
            if start is None:
                return
            try:
                for x in body[start:]:
                    self.stmt(f, x, env, fields, depth)
            except Brk:
                pass
        elif k == 'break':
            raise Brk()
        elif k == 'return':
            if a[0] is not None:
                self.expr(f, a[0], env, fields, depth)
            raise Ret()
        elif k in ('for', 'rfor', 'while', 'do'):
            for x in n.a:
                if isinstance(x, N):
                    try:
                        if x.k in ('block', 'expr', 'if', 'decl', 'switch', 'return', 'break', 'for', 'while'):
                            self.stmt(f, x, dict(env), dict(fields), depth)
                    except (Brk, Ret):
                        pass
        elif k == 'try':
            self.stmt(f, a[0], env, fields, depth)

    def expr(self, f, e, env, fields, depth):
        k, a = e.k, e.a
        if k == 'cond':
            try:
                t = self.d.truth(a[0], env)
            except Unknown:
                self.expr(f, a[1], env, fields, depth)
                self.expr(f, a[2], env, fields, depth)
                return
            self.expr(f, a[1] if t else a[2], env, fields, depth)
            return
        if k == 'call':
            fn, args = a
            if fn.k in ('name', 'member'):
                nm, ta = self.d.targs_of(fn)
                if nm == 'Assert' or nm == 'throw':
                    try:
                        if not self.d.truth(args[0], env):
                            self.failed.append('%s line %d' % (f.qual, e.line))
                            raise Ret()
                    except Unknown:
                        pass
                    return
                self.call(f, fn, nm, ta, args, env, fields, depth, e)
                return
        if k == 'assign' and a[1].k == 'name':
            self.expr(f, a[2], env, fields, depth)
            env.pop(a[1].a[0], None)
            try:
                if a[0] == '=':
                    env[a[1].a[0]] = self.d.ev(a[2], env)
            except Unknown:
                pass
            return
        if k in ('lambda', 'str', 'num', 'name'):
            return
        for x in e.a:
            if isinstance(x, N):
                self.expr(f, x, env, fields, depth)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, N):
                        self.expr(f, y, env, fields, depth)

    def call(self, f, fn, nm, ta, args, env, fields, depth, e):
        member = fn.k == 'member' and not (fn.a[0].k == 'name' and fn.a[0].a[0] == 'this')
        cls = None
        types = self.d.local_types(f)
        if member:
            t = self.d.type_of(fn.a[0], types) or ''
            m = re.search(r'(\w+)\s*(?:<[^<>]*>)?\s*[&*]*\s*$', t)
            cls = m.group(1) if m else None
        if fn.k == 'name':
            m = re.match(r'(BinTypeHelper|MetricHelper)\s*<(.*)>::', fn.a[0])
            if m:
                try:
                    self.refs.append((m.group(1), self.d.text(split_targs(m.group(2))[0], env)))
                except Unknown:
                    self.refs.append((m.group(1), None))
        isleaf = nm in self.leaves
        gs = self.d.overloads(nm, len(args), len(ta), f, member or bool(f.cls and not member and nm in
                              {g.name for g in self.d.S.functions if g.cls == f.cls}), cls or f.cls)
        if not gs and not isleaf:
            for x in args:
                self.expr(f, x, env, fields, depth)
            return
        if isleaf:
            if not gs:
                raise AnalysisBroken('%s: implementation %s called at line %d not found' % (f.where, nm, e.line))
            g = gs[0]
            e2 = self.d.bind(g, ta, args, env, types)
            fl = tuple(fields.get(x.a[0]) if x.k == 'name' else None for x in args)
            vals = {}
            for p, x in zip(g.params, args):
                try:
                    vals[p.name] = self.d.ev(x, env)
                except Unknown:
                    pass
            self.reached.append((g, e2, fl, vals, e.line, f))
            return
        for g in gs[:1]:
            e2 = self.d.bind(g, ta, args, env, types)
            f2 = {}
            for k2, v in env.items():
                if k2.startswith('.'):
                    e2[k2] = v
            for p, x in zip(g.params, args):
                if x.k == 'name' and x.a[0] in fields:
                    f2[p.name] = fields[x.a[0]]
                try:
                    e2[p.name] = self.d.ev(x, env)
                except Unknown:
                    pass
            self.fn(g, e2, f2, depth + 1)


# ---------------------------------------------------------------- what the compiled code implements

def cxx_valid(d):
    """(metric, coordinates) pairs the metric helpers declare their own"""
    out = set()
    for m in d.S.enums['Metric']:
        for c in d.S.enums['Coord']:
            try:
                v = d.member('MetricHelper<%s,0>' % m[0], '_' + c[0], {})
            except Unknown as e:
                raise AnalysisBroken('coordinates of metric %s not known: %s' % (m[0], e))
            if d.same(v, c[0]):
                out.add((m[0], c[0]))
    if len(out) < 8:
        raise AnalysisBroken('only %d metric and coordinate pairs found' % len(out))
    return out


def entries(ck, d, valid):
    bts2 = [b for b in BT2]
    bts3 = [b for b in BT3]
    leaves = {}

    def one(f, name, env, expect, construct):
        w = Walk(d, ('process', 'multipole', 'triviallyZero', 'DoBuildCells'))
        fields = {}
        i = 0
        for p in f.params:
            if 'Field<' in p.type:
                i += 1
                fields[p.name] = i
        vals = dict(env)
        for p in f.params:
            m = re.match(r'(?:const )?(?:enum )?(\w+)', p.type)
            if m and m.group(1) == 'Metric' and '@metric' in env:
                vals[p.name] = env['@metric']
            elif m and m.group(1) == 'Coord' and '@coord' in env:
                vals[p.name] = env['@coord']
            elif p.name == 'ordered' and '@ordered' in env:
                vals[p.name] = env['@ordered']
        for _, pn in f.tparams:
            if '@coord' in env:
                vals[pn] = env['@coord']
        w.fn(f, vals, fields)
        ck.saw(*w.seen)
        got = []
        for g, e2, fl, v, line, caller in w.reached:
            ck.saw(g.qual)
            got.append((g.name, e2.get('B'), e2.get('M'), e2.get('C'), e2.get('P'), e2.get('O'),
                        tuple(x for x in fl if x), v.get('ordered')))
            leaves.setdefault((g, tuple(sorted((k, x) for k, x in e2.items() if x is not None))), construct)
        unknown = [x for x in got if x[1] is None or x[2] is None]
        if unknown:
            dbg(construct, unknown)
            return

        def norm(x):
            return tuple(None if y is None else (d.num(y) if not isinstance(y, tuple) else y) for y in x[1:])
        ok = not w.failed and sorted((x[0],) + norm(x) for x in got) == sorted((x[0],) + norm(x) for x in expect)
        msg = ''
        if not ok:
            msg = 'runs %s%s, not %s' % (', '.join(show_leaf(x) for x in got) or 'nothing',
                                         ' (refused at %s)' % ', '.join(w.failed) if w.failed else '',
                                         ', '.join(show_leaf(x) for x in expect))
        ck.ob('own', construct, ok, msg, f.where)

    def show_leaf(x):
        return '%s<%s>(fields %s%s)' % (x[0], ','.join(str(y) for y in x[1:6] if y is not None),
                                        list(x[6]), ', ordered %s' % x[7] if x[7] is not None else '')

    t = table()

    def funcs(pyname, owner):
        out = []
        for b in t.bound:
            if b.name == pyname and (b.owner or '') == owner:
                for f in b.funcs:
                    if f not in out:
                        out.append(f)
        if not out:
            raise AnalysisBroken('no compiled function behind %s.%s' % (owner, pyname))
        return out

    for pyname, nf in (('processAuto', 1), ('processCross', 2), ('samplePairs', 2)):
        for f in funcs(pyname, 'BaseCorr2'):
            for b in bts2:
                for m, c in sorted(valid):
                    for pp in (False, True):
                        if pp and c != 'ThreeD':
                            continue
                        env = {'@metric': m, '@coord': c, '.getBinType': b, '._bin_type': b, '.nontrivialRPar': pp}
                        one(f, pyname, env, [('process', b, m, c, int(pp), None, tuple(range(1, nf + 1)), None)],
                            'BaseCorr2.%s %s %s %s%s' % (pyname, b, m, c, ' rpar limits' if pp else ''))
    for f in funcs('triviallyZero', 'BaseCorr2'):
        for b in bts2:
            for m, c in sorted(valid):
                env = {'@metric': m, '@coord': c, '.getBinType': b, '._bin_type': b, '.nontrivialRPar': False}
                one(f, 'triviallyZero', env, [('triviallyZero', b, m, c, None, None, (), None)],
                    'BaseCorr2.triviallyZero %s %s %s' % (b, m, c))
    v3 = [(m, c) for m, c in sorted(valid) if m in METRICS3]
    for pyname, nf, orders in (('processAuto', 1, (None,)), ('processCross12', 2, (0, 1)),
                               ('processCross', 3, (0, 1, 3))):
        for f in funcs(pyname, 'BaseCorr3'):
            for b in bts3:
                for m, c in v3:
                    for o in orders:
                        env = {'@metric': m, '@coord': c, '.getBinType': b, '._bin_type': b}
                        if o is not None:
                            env['@ordered'] = o
                        fl = tuple(range(1, nf + 1))
                        if b != 'LogMultipole':
                            exp = [('process', b, m, c, None, o, fl, None)]
                        else:
                            def mp(fs, oo):
                                return ('multipole', 'Log', m, c, None, None, fs, oo)
                            if nf == 1:
                                exp = [mp((1,), None)]
                            elif nf == 2:
                                exp = [mp((1, 2), None)]
                                if o == 0:
                                    exp.append(mp((2, 1, 2), 1))
                            else:
                                exp = [mp((1, 2, 3), 3 if o == 3 else 1)]
                                if o == 0:
                                    exp += [mp((2, 1, 3), 1), mp((3, 1, 2), 1)]
                        one(f, pyname, env, exp, 'BaseCorr3.%s %s %s %s%s' % (
                            pyname, b, m, c, ' ordered=%d' % o if o is not None else ''))
    for f in d.S.fns('BuildCells'):
        if not f.cls or f.body is None or not any(x.k == 'switch' or x.k == 'if' for x in walk(f.body)):
            continue
        for sm in d.S.enums['SplitMethod']:
            w = Walk(d, ('DoBuildCells',))
            env = {'._sm': sm[0], '_sm': sm[0], '.size': 1}
            env.update({pn: None for _, pn in f.tparams})
            w.fn(f, env, {})
            got = [e2.get('SM') for g, e2, fl, v, l, c in w.reached]
            got2 = [x for x in got if x is not None]
            if len(got2) != len(got):
                dbg('BuildCells', sm[0], got)
                continue
            ck.ob('own', '%s %s' % (f.qual, sm[0]), got2 == [sm[0]], 'builds cells with %s' % got2, f.where)
    for f in d.S.functions:
        if f.body is None or not any(re.match(r'(const )?BinType\b', p.type) for p in f.params):
            continue
        own = bts3 if 'Corr3' in f.where else bts2 if 'Corr2' in f.where else None
        if own is None or not any(x.k == 'name' and x.a[0].startswith('BinTypeHelper') for x in walk(f.body)):
            continue
        for b in own:
            w = Walk(d, ())
            env = {p.name: b for p in f.params if re.match(r'(const )?BinType\b', p.type)}
            w.fn(f, env, {})
            got = [v for _, v in w.refs]
            if None in got:
                dbg(f.qual, b, got)
                continue
            ck.ob('instance', '%s %s' % (f.qual, b), bool(got) and set(got) == {b} and not w.failed,
                  'uses BinTypeHelper<%s>' % ','.join(got) if got else 'has no case for it', f.where)
    closure(ck, d, leaves)


def closure(ck, d, leaves):
    """helper classes used below each implementation reached"""
    want = {'BinTypeHelper': 'B', 'MetricHelper': 'M'}
    ref = re.compile(r'\b(BinTypeHelper|MetricHelper)\s*<([^<>]*)>')
    for (g, e), construct in sorted(leaves.items(), key=lambda x: (x[1], x[0][0].qual)):
        e0 = dict(e)
        if 'M' not in e0 or 'B' not in e0:
            continue
        todo, seen = [(g, e0)], set()
        nref, bad = 0, []
        while todo:
            f, env = todo.pop()
            key = (f, tuple(sorted((k, str(v)) for k, v in env.items())))
            if key in seen or len(seen) > 400:
                continue
            seen.add(key)
            types = d.local_types(f)
            env = dict(env)
            for x in walk(f.body):
                texts = []
                if x.k == 'decl':
                    texts.append(x.a[0])
                    tt = re.match(r'(?:const |static )*(?:bool|int)$', x.a[0].strip())
                    for dd in x.a[1]:
                        if tt and isinstance(dd[1], N):
                            try:
                                env.setdefault(dd[0], d.ev(dd[1], env))
                            except Unknown:
                                pass
                elif x.k == 'name':
                    texts.append(src(x))
                elif x.k == 'call' and x.a[0].k in ('name', 'member'):
                    fn, args = x.a
                    nm, ta = d.targs_of(fn)
                    member = fn.k == 'member' and not (fn.a[0].k == 'name' and fn.a[0].a[0] == 'this')
                    q = split_q(fn.a[0]) if fn.k == 'name' else []
                    if len(q) > 1:
                        continue
                    cands = d.byname.get(nm, ())
                    gs = [h for h in cands if sum(1 for p in h.params if p.default is None) <= len(args) <=
                          len(h.params) and len(ta) <= len(d.own_tparams(h)) and (h.cls or not member)]
                    for h in gs:
                        if not h.tparams or not ta and not any('<' in p.type for p in h.params):
                            continue
                        e2 = d.bind(h, ta, args, env, types)
                        if not {pn for _, pn in h.tparams} & {'B', 'M'} and not any(
                                e2.get(pn) in ('Log',) for _, pn in h.tparams):
                            pass
                        todo.append((h, {k: v for k, v in e2.items() if v is not None}))
                for t in texts:
                    for m in ref.finditer(t):
                        a = split_targs(m.group(2))
                        try:
                            v = d.text(a[0], env)
                        except Unknown:
                            continue
                        nref += 1
                        w = e0[want[m.group(1)]]
                        if not d.same(v, w):
                            bad.append('%s uses %s<%s>' % (f.qual, m.group(1), v))
                        elif m.group(1) == 'MetricHelper' and len(a) > 1 and e0.get('P') is not None:
                            try:
                                pv = d.text(a[1], env)
                            except Unknown:
                                continue
                            if d.num(pv) != d.num(e0['P']):
                                bad.append('%s uses MetricHelper<%s,%s>' % (f.qual, v, pv))
        for f, _ in seen:
            ck.saw(f.qual)
        if nref == 0:
            dbg('no helper class below', g.qual, e0)
            continue
        ck.ob('instance', construct, not bad, '; '.join(sorted(set(bad))[:3]), g.where)


# ---------------------------------------------------------------- Python option parsing

def const_tuple(v):
    if v is None or v.op != 'tuple' or not isinstance(v.args[0], tuple) or not all(x.is_const for x in v.args[0]):
        return None
    return tuple(x.value for x in v.args[0])


def declared(rep, clsname, opt):
    """the values a class declares valid for an option"""
    import ast
    c = rep.cls(clsname)
    for k in c.mro:
        node = k.attrs.get('_valid_params')
        if node is None:
            continue
        for x in ast.walk(node):
            if isinstance(x, ast.Dict):
                for kk, vv in zip(x.keys, x.values):
                    if isinstance(kk, ast.Constant) and kk.value == opt and isinstance(vv, (ast.Tuple, ast.List)):
                        for z in vv.elts:
                            if isinstance(z, (ast.List, ast.Tuple)):
                                vals = [y.value for y in z.elts if isinstance(y, ast.Constant)]
                                if vals and all(isinstance(y, str) for y in vals):
                                    return vals
    return None


def accept(rep, m, c1, c2, c3=None):
    fl = Flow(rep)
    r = fl.run_function('util', 'parse_metric', {'metric': C(m), 'coords': C(c1), 'coords2': C(c2), 'coords3': C(c3)})
    if r is None:
        return False
    v = const_tuple(r[0])
    if v is None or open_guards(r, fl):
        return None
    return v


def open_guards(r, fl):
    """an exit or an exception hangs on a condition on the options that was not decided"""
    gs = list(r[1].guards)
    for e in fl.events:
        if e.kind in ('raise', 'noreturn'):
            gs.extend(e.guards)
    for g, v in gs:
        if not any(s == SELF or s.op == 'param' for s in subterms(g)):
            return True
    return False


def python_accept(ck, valid):
    rep = repo()
    ck.saw('util.parse_metric', 'Corr2._set_metric', 'Corr3._set_metric')
    for cn, bt in (('Corr2', 2), ('Corr3', 3)):
        ms = declared(rep, cn, 'metric')
        if not ms:
            raise AnalysisBroken('%s: metrics declared valid not found' % cn)
        cls = rep.cls(cn)
        allm = sorted(set(METRICS) | set(ms))
        for m in allm:
            if m not in METRICS:
                ck.ob('enum', '%s metric %s' % (cn, m), False, 'declared valid, but no implementation is documented')
                continue
            some = False
            und = False
            for c, cc in sorted(COORDS.items()):
                for n in (1, 2) + ((3,) if bt == 3 else ()):
                    args = {'metric': C(m), 'coords1': C(c), 'coords2': C(c if n >= 2 else None)}
                    if bt == 3:
                        args['coords3'] = C(c if n == 3 else None)
                    impl0 = (METRICS[m], cc) in valid
                    if bt == 3:
                        impl0 = impl0 and METRICS[m] in METRICS3
                    if m == 'Rlens' and n == 1:
                        impl0 = False       # documented: only for cross-correlations
                    for b, got in sorted(set_metric(rep, cls, args, BT2 if bt == 2 else BT3).items()):
                        # documented: TwoD binning only with flat coordinates and the Euclidean metric
                        impl = impl0 and (b != 'TwoD' or (m, c) == ('Euclidean', 'flat'))
                        if got == 'unknown':
                            und = True
                            dbg(cn, m, c, n)
                            continue
                        construct = '%s._set_metric %s %s %s %d catalog%s' % (cn, b, m, c, n, 's' if n > 1 else '')
                        if got is None:
                            ck.ob('accepted', construct, not impl, 'refused although it is implemented')
                            continue
                        some = True
                        ck.ob('accepted', construct, impl,
                              'accepted although there is no implementation of it')
                        if not impl:
                            continue
                        enumm, enumc, sm, sc = got
                        ck.ob('enum', construct, enumm == METRICS[m] and enumc == cc and (sm, sc) == (m, c),
                              'selects %s with %s coordinates (recorded as %s, %s)' % (enumm, enumc, sm, sc))
            if m in ms and not und:
                ck.ob('accepted', '%s metric %s usable' % (cn, m), some, 'declared valid but always refused')
    # different coordinate systems
    for m in sorted(METRICS):
        for c1 in sorted(COORDS):
            for c2 in sorted(COORDS):
                for c3 in (None,) + tuple(sorted(COORDS)):
                    if len({c1, c2} | ({c3} if c3 else set())) == 1:
                        continue
                    got = accept(rep, m, c1, c2, c3)
                    if got is None:
                        dbg('parse_metric', m, c1, c2, c3)
                        continue
                    rest = {c2} | ({c3} if c3 else set())
                    if m == 'Rlens':
                        want = ('3d', m) if c1 == '3d' and rest <= {'spherical', '3d'} else False
                    elif m == 'Arc':
                        want = ('spherical', m) if {c1} | rest <= {'spherical', '3d'} else False
                    else:
                        want = False
                    ck.ob('accepted', 'parse_metric %s %s %s %s' % (m, c1, c2, c3 or '-'), got == want,
                          'gives %s, documented %s' % (got or 'an error', want or 'an error'))
    for junk in ('Flat', 'euclidean', 'nosuchmetric'):
        got = accept(rep, junk, 'flat', None)
        if got is not None:
            ck.ob('accepted', 'parse_metric %s' % junk, got is False, 'an unknown metric is accepted')


def refused_for(r, bt):
    """no normal exit for this bin type"""
    pk = Pick(bt_cond(bt))
    for g, v in r[1].guards:
        try:
            if pk.truth(g) != v:
                return True
        except Open:
            pass
    return False


def set_metric(rep, cls, args, bts):
    """{bin type: what is selected, None if refused, 'unknown'}"""
    fl = Flow(rep)
    r = fl.run_method(cls, '_set_metric', args)
    res = {}
    for bt in bts:
        if r is None or refused_for(r, bt) or any(
                e.kind == 'noreturn' and not e.guards for e in fl.events):
            res[bt] = None
            continue
        h = {k[1]: v for k, v in r[1].heap.items() if k[0] is SELF or k[0] == SELF}
        out = []
        for a in ('_metric', '_coords', 'metric', 'coords'):
            v = h.get(a)
            try:
                v = enum_name(Pick(bt_cond(bt)).top(v), rep) if v is not None else None
            except Open:
                v = None
            out.append(v)
        res[bt] = 'unknown' if None in out or open_guards(r, fl) else tuple(out)
    return res


def module_const(rep, name):
    import ast
    vals = []
    for m in rep.modules.values():
        for x in m.tree.body:
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and any(
                    isinstance(t, ast.Name) and t.id == name for t in x.targets):
                vals.append(x.value.value)
    return vals[0] if len(vals) == 1 else None


def enum_name(v, rep=None, depth=0):
    """constant or enumerator name of a term"""
    if v.is_const:
        return v.value
    if v.op == 'attr' and v.args[0].op == 'global' and v.args[0].args[0] == '_treecorr':
        return v.args[1]
    if v.op == 'call' and rep is not None and depth < 3 and len(v.args[1]) == 1:
        # an option resolved through another one (an alias)
        fn = v.args[0].args[0] if v.args[0].op == 'global' else None
        a = v.args[1][0]
        c = a.value if a.is_const else (module_const(rep, a.args[0]) if a.op == 'global' else None)
        if c is not None and fn in rep.mod('util').funcs:
            f = rep.mod('util').funcs[fn]
            r = Flow(rep).run_function('util', fn, {f.args.args[0].arg: C(c)})
            if r is not None:
                return enum_name(r[0], rep, depth + 1)
    return None


def enums(ck, S):
    rep = repo()
    t = table()
    for en, vs in sorted(t.enums.items()):
        for py, c in vs:
            ck.ob('enum', 'exported %s.%s' % (en, py), py == c, 'is the compiled %s' % c)
        have = {c for _, c in vs}
        if en in S.enums:
            miss = {v for v, _ in S.enums[en]} - have
            ck.ob('enum', 'exported %s complete' % en, not miss, 'not exported: %s' % sorted(miss))
    for s, want in sorted(SPLITS.items()):
        fl = Flow(rep)
        r = fl.run_function('field', '_parse_split_method', {'split_method': C(s)})
        if r is None:
            ck.ob('enum', 'split_method %s' % s, False, 'refused')
            continue
        v = enum_name(r[0])
        if v is None:
            dbg('split', s, show(r[0]))
            continue
        ck.ob('enum', 'split_method %s' % s, v == want, 'becomes %s' % v)
    fl = Flow(rep)
    r = fl.run_function('field', '_parse_split_method', {'split_method': C('nosuchmethod')})
    ck.ob('enum', 'split_method unknown', r is None, 'an unknown split method is accepted')
    for cn, bts in (('Corr2', BT2), ('Corr3', BT3)):
        ms = declared(rep, cn, 'bin_type')
        if ms is None:
            raise AnalysisBroken('%s: bin types declared valid not found' % cn)
        ck.ob('enum', '%s bin types' % cn, set(ms) == set(bts), 'declared %s, implemented %s' % (sorted(ms), sorted(bts)))
        cls = rep.cls(cn)
        fl = Flow(rep, opaque={'_setup', 'setup_logger'})
        r = fl.run_method(cls, '__init__')
        if r is None:
            raise AnalysisBroken('%s.__init__ always raises' % cn)
        v = None
        for k, x in r[1].heap.items():
            if k[1] == '_bintype':
                v = x
        if v is None:
            raise AnalysisBroken('%s: _bintype not found' % cn)
        for b in bts:
            pk = Pick(bt_cond(b))
            try:
                w = enum_name(pk.top(v))
            except Open as e:
                dbg(cn, b, e)
                continue
            if w is None:
                dbg(cn, b, show(v))
                continue
            ck.ob('enum', '%s bin_type %s' % (cn, b), w == b, 'becomes %s' % w)
        ck.saw_flow(fl)


LETTER = {'N': 'NData', 'K': 'KData', 'Z': 'ZData', 'V': 'VData', 'G': 'GData', 'T': 'TData', 'Q': 'QData'}


def exported(ck, S):
    rep = repo()
    t = table()
    n = 0
    for nm, (ty, env) in sorted(t.classes.items()):
        m = re.match(r'([A-Z]{2,3})Corr$', nm)
        if m and not nm.startswith('Base'):
            c = re.search(r'Corr[23]\s*<([^<>]*)>', ty)
            if not c:
                dbg('exported', nm, ty)
                continue
            got = [env.get(x.strip(), x.strip()) for x in split_targs(c.group(1))]
            ck.ob('exported', nm, got == [LETTER.get(x) for x in m.group(1)], 'is Corr<%s>' % ','.join(got))
        m = re.match(r'([A-Z])?Field(Flat|Sphere|ThreeD)$', nm)
        if m:
            c = re.search(r'\bField\s*<([^<>]*)>', ty) if m.group(1) else re.search(r'\bBaseField\s*<([^<>]*)>', ty)
            if not c:
                dbg('exported', nm, ty)
                continue
            got = [env.get(x.strip(), x.strip()) for x in split_targs(c.group(1))]
            want = ([LETTER[m.group(1)]] if m.group(1) else []) + [m.group(2)]
            ck.ob('exported', nm, got == want, 'is Field<%s>' % ','.join(got))
    for b in t.bound:
        # methods bound once per coordinate system: all three must be there
        pass
    for cls in corr_leaves(rep):
        m = re.match(r'([A-Z]{2,3})Correlation$', cls.name)
        if not m:
            continue
        dc, fn, call, flow = builder_call(cls)
        txt = show(call.data['fn'])
        got = re.findall(r'([A-Z]{2,3})Corr\b', txt)
        if not got:
            v = None
            for k in cls.mro:
                if '_builder' in k.attrs:
                    import ast
                    v = ast.unparse(k.attrs['_builder'])
                    break
            got = re.findall(r'([A-Z]{2,3})Corr\b', v or '')
        if len(got) != 1:
            dbg('builder', cls.name, txt)
            continue
        ck.ob('exported', '%s builder' % cls.name, got[0] == m.group(1), 'builds a compiled %sCorr' % got[0])


def fields(ck):
    rep = repo()
    coord = {v: k for k, v in COORDS.items()}
    for cls in rep.subclasses('Field'):
        m = re.match(r'([A-Z])Field$', cls.name)
        if not m:
            continue
        fl = Flow(rep)
        r = fl.run_method(cls, '__init__')
        if r is None:
            raise AnalysisBroken('%s.__init__ always raises' % cls.name)
        ck.saw_flow(fl)
        v = None
        for k, x in r[1].heap.items():
            if k[1] == 'data':
                v = x
        if v is None:
            raise AnalysisBroken('%s: compiled field not found' % cls.name)
        for cc, cs in sorted(coord.items()):
            def decide(c, cc=cc, cs=cs):
                if c.op == 'cmp' and c.args[0] in ('==', '!=', 'is', 'is not'):
                    pos = c.args[0] in ('==', 'is')
                    for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                        e = enum_name(a)
                        if e in COORDS.values() and not a.is_const:
                            return (e == cc) == pos
                        if a.is_const and a.value in COORDS and not b.is_const:
                            return (a.value == cs) == pos
                return None
            pk = Pick(decide)
            try:
                x = pk.top(v)
            except Open as e:
                dbg(cls.name, cc, e)
                continue
            e = enum_name(x.args[0]) if x.op == 'call' else None
            if e is None:
                dbg(cls.name, cc, show(x))
                continue
            ck.ob('field', '%s %s' % (cls.name, cs), e == m.group(1) + 'Field' + cc, 'builds a compiled %s' % e)
    cat = rep.cls('Catalog')
    allprops = {p for c in cat.mro for p in list(c.props) + list(c.lazy)}
    kept = {x: '%sfields' % x.lower() for x in LETTER}
    for L in LETTER:
        nm = 'get%sField' % L
        if cat.method(nm)[1] is None:
            raise AnalysisBroken('Catalog.%s not found' % nm)
        fl = Flow(rep, opaque={x + 'Field' for x in LETTER}, prop_opaque=allprops)
        r = fl.run_method(cat, nm)
        ck.saw_flow(fl)
        names = set()
        for x in [r[0]] + [e.data['fn'] for e in fl.events if e.kind == 'call']:
            for s in subterms(x):
                if s.op == 'attr' and s.args[0] == SELF and s.args[1] in kept.values():
                    names.add([k for k, v in kept.items() if v == s.args[1]][0])
                if s.op == 'global' and str(s.args[0]) in {x + 'Field' for x in LETTER}:
                    names.add(s.args[0][0])
        if not names:
            dbg(nm)
        else:
            ck.ob('field', 'Catalog.%s' % nm, names == {L}, 'gives fields of kind %s' % sorted(names - {L} or names))
        # what the cache of that kind builds
        dc, fn = cat.prop(kept[L])
        if fn is None:
            dbg('no', kept[L])
            continue
        import ast
        todo, seen, got = [fn], set(), set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for x in ast.walk(f):
                n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if n in {y + 'Field' for y in LETTER}:
                    got.add(n[0])
                if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                    cn = x.func.id if isinstance(x.func, ast.Name) else x.func.attr
                    g = dc.mod.funcs.get(cn) or cat.method(cn)[1]
                    if g is not None and len(seen) < 8:
                        todo.append(g)
        if got:
            ck.ob('field', 'Catalog.%s' % kept[L], got == {L}, 'keeps fields of kind %s' % sorted(got))
        else:
            dbg(kept[L])
