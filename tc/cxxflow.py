"""Flow-sensitive value numbering of C++ function bodies (over the syntax trees of tc.cxx).

Locals are mapped to hash-consed terms (pyflow.T); states are joined with phi terms where control
flow merges; every call, write and return becomes an event carrying the conditions and loops it is
control dependent on.  Helper functions that resolve to one definition are followed into.  Nothing
is executed and no paths are enumerated.
"""
import re

from .pyflow import T, C, subterms, show, phi_leaves
from .cxx import load_sources, walk, src, children, N, split_q, split_targs
from .cxxutil import base, callgraph
from .pyrepo import AnalysisBroken

THIS = T('this')
TRUE, FALSE = C(True), C(False)
DEBUG = ('dbg', 'xdbg', 'xxdbg')
ASSERTS = ('Assert', 'XAssert', 'XXAssert', 'assert')


class Ev:
    __slots__ = ('kind', 'node', 'guards', 'loops', 'fn', 'data', 'where')

    def __init__(self, kind, node, guards, loops, fn, data, where):
        self.kind, self.node, self.guards, self.loops, self.fn = kind, node, guards, loops, fn
        self.data, self.where = data, where

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s %s | %s | %s' % (self.kind, {k: (show(v) if isinstance(v, T) else v) for k, v in self.data.items()},
                                    [(show(g)[:60], b) for g, b in self.guards], [show(l['var']) for l in self.loops])


class Loop(dict):
    pass


def num(s):
    t = s.rstrip('uUlLfF') if not s.lower().startswith('0x') else s
    try:
        return int(t, 0)
    except ValueError:
        try:
            v = float(t)
            return int(v) if v == int(v) and abs(v) < 1e15 else v
        except ValueError:
            return None


_enum = None


def enum_values():
    global _enum
    if _enum is None:
        _enum = {}
        for name, members in load_sources().enums.items():
            for m, v in members:
                _enum[m] = (name, v)
    return _enum


class CFlow:
    def __init__(self, stop=(), depth=4, tenv=None, follow=True, statics=None):
        self.S = load_sources()
        self.cg = callgraph()
        self.stop = set(stop)
        self.depth = depth
        self.events = []
        self.tenv = dict(tenv or {})
        self.follow = follow
        self.n = 0
        self.seen = set()
        self.stack = []
        self.order = 0
        self.loops = {}

    # ------------------------------------------------------------------
    def run(self, f, args=None):
        """interpret f with its parameters symbolic (or as given); returns the returned term"""
        env = {}
        for i, p in enumerate(f.params):
            if p.name:
                env[p.name] = args[i] if args and i < len(args) and args[i] is not None else T('param', p.name)
        return self.body(f, env, (), (), THIS)

    def body(self, f, env, guards, loops, this):
        self.seen.add(f)
        fr = Frame(self, f, env, this)
        self.stack.append(f)
        for nm, a in f.inits or []:
            al = a if isinstance(a, (list, tuple)) else [a]
            vals = [fr.ev(x, guards, loops) for x in al if isinstance(x, N)]
            self.emit('init', f.body, guards, loops, f, {'name': nm, 'args': vals}, f)
        if f.body is not None:
            fr.stmt(f.body, list(guards), loops)
        self.stack.pop()
        if not self.stack:
            self.final = fr.env
        return fr.ret

    def emit(self, kind, node, guards, loops, f, data, where):
        line = getattr(node, 'line', None)
        self.events.append(Ev(kind, node, tuple(guards), tuple(loops), f, data,
                              '%s:%s (%s)' % (f.fname if hasattr(f, 'fname') else '?', line, f.qual)))


class Frame:
    def __init__(self, flow, f, env, this):
        self.fl, self.f, self.env, self.this = flow, f, env, this
        self.ret = None
        self.types = {p.name: p.type for p in f.params if p.name}
        self.tp = {p[1] for p in f.tparams} if f.tparams else set()
        self.fields = None

    # -- statements ----------------------------------------------------
    # stmt returns True when control does not continue after it
    def stmt(self, n, guards, loops):
        k = n.k
        if k == 'block':
            return self.block(n.a[0], guards, loops)
        if k == 'decl':
            for d, init, dim in n.a[1]:
                ty = n.a[0]
                self.types[d] = ty
                if isinstance(init, list):
                    vals = [self.ev(x, guards, loops) for x in init]
                    v = T('new', base(ty.replace('const ', '').strip()), tuple(vals))
                    self.fl.emit('construct', n, guards, loops, self.f, {'type': ty, 'name': d, 'args': vals}, self.f)
                    if len(vals) == 1 and scalar(ty):
                        v = vals[0]
                elif init is None:
                    v = T('undef', d, dimtext(dim))
                    if dim is not None and isinstance(dim, N):
                        self.ev(dim, guards, loops)
                else:
                    v = self.ev(init, guards, loops)
                if listed(v) is not None and self.element_written(d):
                    v = T('undef', d, dimtext(dim))
                self.env[d] = v
            return False
        if k == 'expr':
            if n.a[0] is not None and not is_debug(n.a[0]):
                self.ev(n.a[0], guards, loops)
            return False
        if k == 'return':
            v = self.ev(n.a[0], guards, loops) if n.a[0] is not None else None
            self.fl.emit('return', n, guards, loops, self.f, {'value': v}, self.f)
            if v is not None:
                own = tuple(guards)
                if self.ret is None:
                    self.ret = v
                else:
                    self.ret = T('phi', conj(own), v, self.ret) if v is not self.ret else v
            return True
        if k in ('break', 'continue'):
            self.fl.emit(k, n, guards, loops, self.f, {}, self.f)
            return True
        if k == 'throw':
            self.fl.emit('throw', n, guards, loops, self.f, {}, self.f)
            return True
        if k == 'if':
            return self.if_(n, guards, loops)
        if k in ('for', 'while', 'do', 'rfor'):
            self.loop(n, guards, loops)
            return False
        if k == 'switch':
            return self.switch(n, guards, loops)
        if k == 'try':
            self.stmt(n.a[0], list(guards), loops)
            return False
        if k in ('pragma', 'case', 'default', 'null', 'empty', 'label', 'using'):
            return False
        # something else that contains statements or expressions
        for c in children(n):
            if isinstance(c, N):
                self.ev(c, guards, loops)
        return False

    def block(self, ss, guards, loops):
        for s in ss:
            if s is None:
                continue
            if self.stmt(s, guards, loops):
                return True
        return False

    def if_(self, n, guards, loops):
        c, a, b = n.a
        if isinstance(c, N) and c.k == 'decl':
            self.stmt(c, guards, loops)
            ct = self.env[c.a[1][0][0]]
        else:
            ct = truth(self.ev(c, guards, loops))
        if ct is TRUE:
            return self.stmt(a, guards, loops) if a is not None else False
        if ct is FALSE:
            return self.stmt(b, guards, loops) if b is not None else False
        env0 = dict(self.env)
        ga = list(guards) + split(ct, True)
        d1 = self.stmt(a, ga, loops) if a is not None else False
        env1 = self.env
        self.env = dict(env0)
        gb = list(guards) + split(ct, False)
        d2 = self.stmt(b, gb, loops) if b is not None else False
        env2 = self.env
        if d1 and d2:
            return True
        if d1:
            self.env = env2
            guards[len(guards):] = gb[len(guards):]
            return False
        if d2:
            self.env = env1
            guards[len(guards):] = ga[len(guards):]
            return False
        # a branch may have ended part of its paths: keep what it established only if common
        out = {}
        for v in env1:
            if v in env2:
                x, y = env1[v], env2[v]
                out[v] = x if x is y else T('phi', ct, x, y)
        for v in env1:
            if v not in env2:
                out[v] = env1[v]
        for v in env2:
            if v not in env1:
                out[v] = env2[v]
        self.env = out
        ea, eb = set(ga[len(guards) + len(split(ct, True)):]), set(gb[len(guards) + len(split(ct, False)):])
        for g in ga[len(guards) + len(split(ct, True)):]:
            guards.append((T('or', T('not', ct), lit(g)), True))
        for g in gb[len(guards) + len(split(ct, False)):]:
            guards.append((T('or', ct, lit(g)), True))
        return False

    def element_written(self, d):
        for x in walk(self.f.body):
            t = x.a[1] if x.k == 'assign' or x.k in ('un', 'post') and x.a[0] in ('++', '--') else None
            if t is not None and t.k == 'index' and t.a[0].k == 'name' and t.a[0].a[0] == d:
                return True
        return False

    def assigned(self, n):
        out = set()
        for x in walk(n):
            if x.k == 'assign' and x.a[1].k == 'name':
                out.add(x.a[1].a[0])
            elif x.k in ('post', 'un') and x.a[0] in ('++', '--') and x.a[1].k == 'name':
                out.add(x.a[1].a[0])
            elif x.k == 'call':
                for i, a in enumerate(x.a[1]):
                    if isinstance(a, N) and a.k == 'name' and a.a[0] in self.env and self.out_param(x, i):
                        out.add(a.a[0])
        return out

    def loop(self, n, guards, loops):
        fl = self.fl
        fl.n += 1
        lid = fl.n
        L = Loop(kind=n.k, id=lid, node=n, var=None, lo=None, cond=None, step=None, seq=None)
        if n.k == 'rfor':
            ty, nm, e, body = n.a
            seq = self.ev(e, guards, loops)
            items = listed(seq)
            if items is not None and not escapes(body):
                for x in items:
                    self.env[nm] = x
                    self.types[nm] = ty
                    self.stmt(body, list(guards), loops)
                return
            var = T('elem', seq, lid)
            L.update(var=var, seq=seq)
            hav = self.assigned(body)
            for v in hav & set(self.env):
                self.env[v] = T('loopvar', v, lid)
            self.env[nm] = var
            self.types[nm] = ty
            self.stmt(body, list(guards), loops + (L,))
        else:
            if n.k == 'for':
                init, cond, step, body = n.a
                if isinstance(init, N):
                    self.stmt(init, guards, loops)
            elif n.k == 'while':
                cond, body = n.a
                init = step = None
            else:
                body, cond = n.a
                init = step = None
            hav = self.assigned(body)
            if n.k == 'for' and self.unroll(init, cond, step, body, hav, guards, loops):
                return
            if isinstance(step, N):
                hav |= self.assigned(step)
            main = None
            if n.k == 'for':
                cand = [d for d, i, _ in init.a[1]] if isinstance(init, N) and init.k == 'decl' else \
                    [x.a[1].a[0] for x in walk(init) if x.k == 'assign' and x.a[1].k == 'name'] \
                    if isinstance(init, N) else []
                stepped = self.assigned(step) if isinstance(step, N) else set()
                main = next((d for d in cand if d in stepped), None)
            else:
                # while (i < n) { ...; ++i; }
                names = [x.a[0] for x in walk(cond) if x.k == 'name' and x.a[0] in hav] if isinstance(cond, N) else []
                main = names[0] if len(set(names)) == 1 else None
            if main is not None:
                L['lo'] = self.env.get(main)
                L['name'] = main
            start = {v: self.env[v] for v in hav & set(self.env)}
            L['start'] = start
            for v in hav & set(self.env):
                self.env[v] = T('loopvar', v, lid)
            if main is not None:
                L['var'] = self.env[main] = T('bv', 'L%d' % lid)
            else:
                L['var'] = T('bv', 'L%d' % lid)
            ct = truth(self.ev(cond, guards, loops + (L,))) if isinstance(cond, N) else TRUE
            L['cond'] = ct
            if isinstance(step, N):
                L['step'] = step
            g2 = list(guards)
            if n.k != 'do' and ct is not TRUE:
                pass
            self.stmt(body, g2, loops + (L,))
            if isinstance(step, N):
                self.ev(step, g2, loops + (L,))
        L['end'] = {v: self.env[v] for v in hav & set(self.env)}
        fl.loops[lid] = L
        for v in hav & set(self.env):
            self.env[v] = T('after', v, lid)

    def unroll(self, init, cond, step, body, hav, guards, loops):
        """for (int i=0; i<2; ++i) over a fixed small range"""
        if not (isinstance(init, N) and init.k == 'decl' and len(init.a[1]) == 1 and isinstance(cond, N) and
                cond.k == 'bin' and cond.a[0] in ('<', '<=') and cond.a[1].k == 'name' and isinstance(step, N) and
                step.k in ('un', 'post') and step.a[0] == '++' and step.a[1].k == 'name'):
            return False
        nm = init.a[1][0][0]
        if cond.a[1].a[0] != nm or step.a[1].a[0] != nm or nm in hav or escapes(body):
            return False
        lo, hi = self.env.get(nm), self.ev(cond.a[2], guards, loops)
        if not (lo is not None and lo.is_const and hi.is_const and isinstance(lo.value, int) and
                isinstance(hi.value, int)):
            return False
        hi = hi.value + (1 if cond.a[0] == '<=' else 0)
        if not 0 < hi - lo.value <= 8:
            return False
        for i in range(lo.value, hi):
            self.env[nm] = C(i)
            self.stmt(body, list(guards), loops)
        return True

    def switch(self, n, guards, loops):
        e = self.ev(n.a[0], guards, loops)
        ss = n.a[1].a[0]
        labels = []
        env0 = dict(self.env)
        outs = []
        cur = None
        every = []
        for s in ss:
            if s.k == 'case':
                every.append(self.ev(s.a[0], guards, loops))
        fall = False
        dead = True
        for s in ss:
            if s.k in ('case', 'default'):
                lab = self.ev(s.a[0], guards, loops) if s.k == 'case' else T('default')
                if dead:
                    labels = [lab]
                    self.env = dict(env0)
                else:
                    labels = labels + [lab]
                dead = False
                continue
            if dead:
                continue
            if e.is_const and all(l.is_const or l.op == 'default' for l in labels):
                hit = e in labels or (T('default') in labels and e not in every)
                if not hit:
                    if s.k in ('break', 'return', 'continue', 'throw'):
                        dead = True
                    continue
                g = list(guards)
            else:
                g = list(guards) + [(T('case', e, tuple(labels), tuple(every)), True)]
            if s.k == 'break':
                outs.append(self.env)
                dead = True
                continue
            if self.stmt(s, g, loops):
                dead = True
        # join
        if not dead:
            outs.append(self.env)
        env = dict(env0)
        for o in outs:
            for v in env:
                if v in o and o[v] is not env[v]:
                    env[v] = T('phi', T('case', e, (), tuple(every)), o[v], env[v])
        self.env = env
        return False

    # -- expressions ---------------------------------------------------
    def ev(self, n, guards, loops):
        fl = self.fl
        k = n.k
        if k == 'num':
            v = num(n.a[0]) if isinstance(n.a[0], str) else n.a[0]
            return C(v) if v is not None else T('numtext', str(n.a[0]))
        if k == 'str':
            return T('str', str(n.a[0]))
        if k == 'name':
            return self.name(n)
        if k == 'cast':
            return self.ev(n.a[1], guards, loops)
        if k == 'member':
            r = self.ev(n.a[0], guards, loops)
            if r.op == 'object' and (r, n.a[1]) in self.env:
                return self.env[(r, n.a[1])]
            return T('field', r, n.a[1])
        if k == 'index':
            b = self.ev(n.a[0], guards, loops)
            i = self.ev(n.a[1], guards, loops)
            items = listed(b)
            if items is not None and i.is_const and isinstance(i.value, int) and 0 <= i.value < len(items):
                return items[i.value]
            return T('idx', b, i)
        if k == 'un':
            op = n.a[0]
            if op in ('*', '&'):
                return self.ev(n.a[1], guards, loops)
            if op in ('++', '--'):
                return self.assign_to(n.a[1], op[0] + '=', C(1), n, guards, loops)
            v = self.ev(n.a[1], guards, loops)
            if op == '!':
                return neg(truth(v))
            if op == '-':
                if v.is_const and isinstance(v.value, (int, float)):
                    return C(-v.value)
                return T('neg', v)
            if op == '+':
                return v
            return T('un', op, v)
        if k == 'post':
            old = self.ev(n.a[1], guards, loops)
            self.assign_to(n.a[1], n.a[0][0] + '=', C(1), n, guards, loops)
            return old
        if k == 'bin':
            op = n.a[0]
            if op in ('&&', '||'):
                a = truth(self.ev(n.a[1], guards, loops))
                if a is (FALSE if op == '&&' else TRUE):
                    return a
                g = list(guards) + split(a, op == '&&')
                b = truth(self.ev(n.a[2], g, loops))
                if a is (TRUE if op == '&&' else FALSE):
                    return b
                if b is (FALSE if op == '&&' else TRUE):
                    return b
                if b is (TRUE if op == '&&' else FALSE):
                    return a
                return T('and' if op == '&&' else 'or', a, b)
            a = self.ev(n.a[1], guards, loops)
            b = self.ev(n.a[2], guards, loops)
            if op == ',':
                return b
            return binop(op, a, b)
        if k == 'cond':
            c = truth(self.ev(n.a[0], guards, loops))
            if c is TRUE:
                return self.ev(n.a[1], guards, loops)
            if c is FALSE:
                return self.ev(n.a[2], guards, loops)
            a = self.ev(n.a[1], list(guards) + split(c, True), loops)
            b = self.ev(n.a[2], list(guards) + split(c, False), loops)
            return a if a is b else T('phi', c, a, b)
        if k == 'assign':
            op, l, r = n.a
            v = self.ev(r, guards, loops)
            return self.assign_to(l, op, v, n, guards, loops)
        if k == 'call':
            return self.call(n, guards, loops)
        if k == 'new':
            ty, args, dim = n.a
            vals = [self.ev(a, guards, loops) for a in (args or []) if isinstance(a, N)]
            d = self.ev(dim, guards, loops) if isinstance(dim, N) else None
            fl.n += 1
            fl.emit('new', n, guards, loops, self.f, {'type': ty, 'args': vals, 'dim': d}, self.f)
            return T('newobj', base(ty), tuple(vals), d if d is not None else C(None), fl.n)
        if k == 'delete':
            v = self.ev(n.a[1], guards, loops)
            fl.emit('delete', n, guards, loops, self.f, {'target': v}, self.f)
            return v
        if k == 'init':
            return T('list', tuple(self.ev(x, guards, loops) for x in n.a[0]))
        if k == 'throw':
            fl.emit('throw', n, guards, loops, self.f, {}, self.f)
            return T('thrown')
        if k == 'lambda':
            return T('lambda', id(n))
        if k == 'decl':
            self.stmt(n, guards, loops)
            return T('void')
        vals = [self.ev(c, guards, loops) for c in children(n) if isinstance(c, N)]
        return T('node', k, tuple(vals))

    def name(self, n):
        nm = n.a[0]
        if nm == 'this':
            return self.this
        if nm == 'true':
            return TRUE
        if nm == 'false':
            return FALSE
        if nm in self.env:
            return self.env[nm]
        if nm in self.fl.tenv:
            v = self.fl.tenv[nm]
            return v if isinstance(v, T) else C(v)
        if nm in self.tp:
            return T('tparam', nm)
        b = nm.split('::')[-1]
        if b in enum_values():
            return T('enum', b)
        if '::' not in nm and nm in self.class_fields():
            return T('field', self.this, nm)
        v = static_value(self.fl, nm)
        if v is not None:
            return v
        return T('global', nm)

    def class_fields(self):
        if self.fields is None:
            self.fields = set()
            if self.f.cls:
                fam = self.fl.cg.up(self.f.cls)
                for c in self.fl.S.classes:
                    if c.name in fam:
                        self.fields |= {x[1] for x in c.fields}
        return self.fields

    def assign_to(self, l, op, v, n, guards, loops):
        fl = self.fl
        while l.k == 'cast' or (l.k == 'un' and l.a[0] in ('*', '&')):
            l = l.a[1]
        if l.k == 'name' and l.a[0] in self.env:
            old = self.env[l.a[0]]
            ty = self.types.get(l.a[0], '')
            new = v if op == '=' else binop(op[:-1], old, v)
            if '&' in ty and old.op in ('field', 'idx'):
                fl.emit('write', n, guards, loops, self.f, {'lv': old, 'op': op, 'rhs': v}, self.f)
                return new
            fl.emit('local', n, guards, loops, self.f, {'name': l.a[0], 'op': op, 'rhs': v, 'new': new}, self.f)
            self.env[l.a[0]] = new
            return new
        lv = self.ev(l, guards, loops)
        fl.emit('write', n, guards, loops, self.f, {'lv': lv, 'op': op, 'rhs': v}, self.f)
        return v if op == '=' else binop(op[:-1], lv, v)

    def callee_name(self, n):
        f = n.a[0]
        if f.k == 'name':
            return base(f.a[0]), None
        if f.k == 'member':
            return base(f.a[1]), f.a[0]
        return None, None

    def candidates(self, n):
        nm, recv = self.callee_name(n)
        if nm is None:
            return []
        f = n.a[0]
        if f.k == 'name':
            q = split_q(f.a[0])
            site = ('q', base(q[-2]), nm) if len(q) > 1 else ('f', None, nm)
        else:
            site = ('f' if recv.k == 'name' and recv.a[0] == 'this' else 'm', None, nm)
        cs = self.fl.cg.resolve(site, self.f)
        k = len(n.a[1])
        if f.k == 'name' and len(split_q(f.a[0])) > 1:
            cs = self.specialised(split_q(f.a[0])[-2], cs)
        out = []
        for c in cs:
            need = len([p for p in c.params if p.default is None])
            if len(c.params) >= k and (need <= k or any(
                    p[0] == c.name and len(p[1]) == len(c.params) for p in ()) or self.defaults(c) <= k):
                out.append(c)
        return out

    def bound(self, q):
        """values of the template arguments of a class qualifier such as Helper<algo,D1,D2>, or None"""
        q = q.strip()
        if '<' not in q or not q.endswith('>'):
            return None
        vals = [self.targ(x) for x in split_targs(q[q.index('<') + 1:-1])]
        return None if any(v is None or v.op not in ('const', 'enum') for v in vals) else vals

    def specialised(self, q, cs):
        """the most specific class template specialisation that the qualifier selects (when it is known)"""
        vals = self.bound(q)
        if vals is None:
            return cs
        best = []
        for c in cs:
            ct = c.ctargs or []
            if ct and len(ct) != len(vals):
                return cs
            sc = 0
            for t, v in zip(ct, vals):
                if any(t == p[1] for p in c.tparams or ()):
                    continue
                w = T('enum', t) if t in enum_values() else C(num(t)) if re.match(r'^-?\d', t) else None
                if w is None:
                    return cs
                if w is not v:
                    sc = None
                    break
                sc += 1
            if sc is not None:
                best.append((sc, c))
        if not best:
            return cs
        top = max(s for s, c in best)
        return [c for s, c in best if s == top]

    def class_env(self, q, g):
        """template parameters of the class of g as the qualifier binds them"""
        vals = self.bound(q)
        if vals is None:
            return {}
        if g.ctargs:
            return {t: v for t, v in zip(g.ctargs, vals) if any(t == p[1] for p in g.tparams or ())}
        for k in self.fl.S.classes:
            if k.name == g.cls and not k.targs and k.tparams and len(k.tparams) == len(vals):
                return {p[1]: v for p, v in zip(k.tparams, vals)}
        return {}

    def defaults(self, c):
        """number of parameters without a default in any declaration"""
        need = len([p for p in c.params if p.default is None])
        for k in self.fl.S.classes:
            if k.name == c.cls:
                for d in k.decls:
                    if d[0] == c.name and len(d[1]) == len(c.params):
                        need = min(need, len([p for p in d[1] if p.default is None]))
        for p in self.fl.S.protos:
            if p[0] == c.name and len(p[1]) == len(c.params):
                need = min(need, len([q for q in p[1] if q.default is None]))
        return need

    def out_param(self, n, i):
        for c in self.candidates(n):
            if i < len(c.params):
                t = c.params[i].type
                if '&' in t and 'const' not in t.split('&')[0]:
                    return True
        nm, recv = self.callee_name(n)
        return nm in ('swap',)

    def call(self, n, guards, loops):
        fl = self.fl
        nm, recv = self.callee_name(n)
        fnode = n.a[0]
        if nm in ASSERTS:
            return T('void')
        if nm == 'swap' and len(n.a[1]) == 2:
            a, b = n.a[1]
            va, vb = self.ev(a, guards, loops), self.ev(b, guards, loops)
            fl.emit('call', n, guards, loops, self.f, {'name': 'swap', 'recv': None, 'args': [va, vb], 'targs': [],
                                                       'cands': []}, self.f)
            if a.k == 'name' and a.a[0] in self.env and b.k == 'name' and b.a[0] in self.env:
                self.env[a.a[0]], self.env[b.a[0]] = vb, va
            return T('void')
        rt = None
        if recv is not None:
            rt = self.ev(recv, guards, loops)
        elif nm is None:
            rt = self.ev(fnode, guards, loops)
        args = [self.ev(a, guards, loops) for a in n.a[1]]
        targs = []
        if fnode.k == 'name':
            targs = fnode.a[1] or []
        elif fnode.k == 'member':
            targs = fnode.a[3] or []
        cands = self.candidates(n)
        qual = fnode.a[0] if fnode.k == 'name' else None
        # casts written as calls, complex parts, min/max
        if recv is None and nm in ('double', 'int', 'long', 'float', 'size_t', 'bool') and len(args) == 1:
            return args[0]
        data = {'name': nm, 'recv': rt, 'args': args, 'targs': targs, 'cands': cands, 'qual': qual}
        g = self.follows(n, nm, recv, cands)
        if g is not None:
            env = {}
            ok = True
            for i, p in enumerate(g.params):
                if not p.name:
                    continue
                if i < len(args):
                    env[p.name] = args[i]
                elif p.default is not None:
                    env[p.name] = self.ev(p.default, guards, loops)
                else:
                    env[p.name] = T('default', p.name)
            save = fl.tenv
            cenv = self.class_env(split_q(qual)[-2], g) if qual and len(split_q(qual)) > 1 else {}
            tvals = [self.targ(tv) for tv in targs]
            fl.tenv = dict(save)
            fl.tenv.update(cenv)
            for (kind, tn), v in zip([p for p in g.tparams if p[1] not in (g.ctargs or []) and p[1] not in cenv]
                                     if g.tparams else [], tvals):
                if v is not None:
                    fl.tenv[tn] = v
                else:
                    fl.tenv.pop(tn, None)
            this = rt if rt is not None and rt is not THIS and g.cls and not g.static else self.this
            fr_guards = tuple(guards)
            sub = Frame(fl, g, env, this)
            fl.seen.add(g)
            fl.stack.append(g)
            sub.stmt(g.body, list(fr_guards), loops)
            fl.stack.pop()
            fl.tenv = save
            # reference parameters carry changes back
            for i, p in enumerate(g.params):
                if p.name and i < len(n.a[1]) and '&' in p.type and 'const' not in p.type.split('&')[0]:
                    a = n.a[1][i]
                    while a.k == 'cast':
                        a = a.a[1]
                    if a.k == 'name' and a.a[0] in self.env:
                        self.env[a.a[0]] = sub.env.get(p.name, self.env[a.a[0]])
            return sub.ret if sub.ret is not None else T('void')
        fl.emit('call', n, guards, loops, self.f, data, self.f)
        term = T('ccall', nm or '?', rt if rt is not None else T('none'), tuple(args), tuple(self.targ_text(t) for t in targs))
        for i, a in enumerate(n.a[1]):
            x = a
            while x.k in ('cast',) or (x.k == 'un' and x.a[0] in ('*', '&')):
                x = x.a[1]
            if x.k == 'name' and x.a[0] in self.env and self.out_param(n, i):
                self.env[x.a[0]] = T('out', term, i)
        return simplify_call(term)

    def targ_text(self, text):
        v = self.env.get(str(text).strip())
        return str(v.args[0]) if v is not None and v.op in ('const', 'enum') else str(text)

    def targ(self, text):
        t = str(text).strip()
        if t in self.env:
            return self.env[t]
        if t in self.fl.tenv:
            v = self.fl.tenv[t]
            return v if isinstance(v, T) else C(v)
        v = num(t) if re.match(r'^-?\d', t) else None
        if v is not None:
            return C(v)
        if t in ('true', 'false'):
            return C(t == 'true')
        if t in enum_values():
            return T('enum', t)
        return self.targ_expr(t)

    def targ_expr(self, t):
        """an arithmetic template argument such as R*(D1==D2), when every name in it is known"""
        if re.match(r'^\w+$', t) or not re.match(r'^[\w\s*+\-()=!<>&|]+$', t):
            return None
        known = True

        def val(m):
            nonlocal known
            v = self.targ(m.group(0))
            if v is not None and v.op == 'enum' and v.args[0] in enum_values():
                return repr(enum_values()[v.args[0]][1])
            if v is not None and v.op == 'const':
                return repr(int(v.args[0]))
            known = False
            return '0'
        x = re.sub(r'[A-Za-z_]\w*', val, t)
        if not known or re.search(r'[A-Za-z_]', x):
            return None
        try:
            return C(int(eval(x.replace('&&', ' and ').replace('||', ' or '), {'__builtins__': {}}, {})))
        except Exception:
            return None

    def follows(self, n, nm, recv, cands):
        fl = self.fl
        if not fl.follow or nm in fl.stop or len(cands) != 1:
            return None
        g = cands[0]
        if g.body is None or g in fl.stack or len(fl.stack) > fl.depth or g.virtual:
            return None
        if recv is not None and not (recv.k == 'name' and recv.a[0] == 'this') and fl.follow != 'all':
            return None
        return g


# ---------------------------------------------------------------------------

def listed(t):
    """the elements of a braced list"""
    if t.op == 'list' and len(t.args[0]) <= 8:
        return t.args[0]
    if t.op == 'new' and len(t.args[1]) == 1 and t.args[1][0].op == 'list':
        return listed(t.args[1][0])
    return None


def escapes(body):
    return any(x.k in ('break', 'return', 'throw') for x in walk(body))


def scalar(ty):
    t = ty.replace('const', '').replace('static', '').strip()
    return t in ('int', 'long', 'double', 'float', 'bool', 'size_t', 'long long', 'unsigned')


def dimtext(d):
    if d is None:
        return ''
    return src(d) if isinstance(d, N) else str(d)


def is_debug(n):
    x = n
    while x.k == 'bin' and x.a[0] == '<<':
        x = x.a[1]
    if x.k == 'name' and x.a[0] in DEBUG:
        return True
    if x.k == 'call' and x.a[0].k == 'name' and base(x.a[0].a[0]) in ASSERTS + ('Error',):
        return base(x.a[0].a[0]) in ASSERTS
    return False


def truth(t):
    if t.is_const:
        return C(bool(t.value))
    return t


def neg(t):
    if t.is_const:
        return C(not t.value)
    if t.op == 'not':
        return t.args[0]
    return T('not', t)


def lit(g):
    return g[0] if g[1] else neg(g[0])


def conj(gs):
    r = TRUE
    for g in gs:
        x = lit(g)
        r = x if r is TRUE else T('and', r, x)
    return r


def split(c, v):
    """guards stating that c is v"""
    if c.op == 'not':
        return split(c.args[0], not v)
    if c.op == 'and' and v:
        return split(c.args[0], True) + split(c.args[1], True)
    if c.op == 'or' and not v:
        return split(c.args[0], False) + split(c.args[1], False)
    return [(c, v)]


def binop(op, a, b):
    if a.is_const and b.is_const and isinstance(a.value, (int, float, bool)) and isinstance(b.value, (int, float, bool)):
        x, y = a.value, b.value
        try:
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '==': lambda: x == y,
                 '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y,
                 '>=': lambda: x >= y}[op]()
            return C(r)
        except KeyError:
            pass
    if op in ('==', '!=') and a.op == 'enum' and b.op == 'enum':
        return C((a is b) == (op == '=='))
    if op in ('<', '>', '<=', '>=') and a.op == 'enum' and b.op == 'enum':
        ea, eb = enum_values().get(a.args[0]), enum_values().get(b.args[0])
        if ea and eb and isinstance(ea[1], int) and isinstance(eb[1], int):
            return binop(op, C(ea[1]), C(eb[1]))
    if op in ('==', '!='):
        # bool compared with a constant
        for x, y in ((a, b), (b, a)):
            if y is TRUE or y is FALSE:
                return x if (y is TRUE) == (op == '==') else neg(x)
        if show(a) > show(b):
            a, b = b, a
        t = T('==', a, b)
        return t if op == '==' else T('not', t)
    if op == '>':
        return T('<', b, a)
    if op == '>=':
        return T('not', T('<', a, b))
    if op == '<=':
        return T('not', T('<', b, a))
    if op == '<':
        return T('<', a, b)
    return T('bin', op, a, b)


def simplify_call(t):
    return t


_static = {}


def static_value(fl, nm):
    """value of a static constant such as BinTypeHelper<B>::sort_d123 when the template argument is known"""
    q = split_q(nm)
    if len(q) < 2:
        return None
    m = re.match(r'(\w+)<(.*)>$', q[-2].strip())
    if not m:
        return None
    cls, ta = m.group(1), [x.strip() for x in m.group(2).split(',')]
    vals = []
    for x in ta:
        v = fl.tenv.get(x)
        if v is None:
            vals.append(x)
        else:
            vals.append(v.args[0] if isinstance(v, T) and v.op == 'enum' else
                        str(int(v.value)) if isinstance(v, T) and v.is_const else str(v))
    for c in fl.S.classes:
        targs = [t.strip() for t in (c.targs or [])]
        if c.name == cls and targs == vals:
            if q[-1] in c.consts:
                return C(c.consts[q[-1]])
    return T('static', cls, tuple(vals), q[-1])


def order_of(events, e):
    return events.index(e)


# ---------------------------------------------------------------------------
# evaluation of conditions under an assignment of their atoms

def atoms_of(t, out):
    if t.is_const:
        return out
    if t.op in ('and', 'or', 'not') and not isinstance(t.args[0], tuple):
        for x in t.args:
            atoms_of(x, out)
    elif t.op == 'phi':
        for x in t.args:
            if boolean(x):
                atoms_of(x, out)
        if not all(boolean(x) for x in t.args[1:]):
            out.setdefault(t, None)
    else:
        out.setdefault(t, None)
    return out


def boolean(x):
    return x.op in ('and', 'or', 'not', '==', '<', 'ccall', 'out', 'phi', 'field', 'param', 'case') or x.is_const


def holds(t, asg):
    """truth value of t under asg (atom -> bool); None when undetermined"""
    if t in asg:
        return asg[t]
    if t.is_const:
        return bool(t.value)
    if t.op == 'not':
        v = holds(t.args[0], asg)
        return None if v is None else not v
    if t.op in ('and', 'or') and not isinstance(t.args[0], tuple):
        a, b = holds(t.args[0], asg), holds(t.args[1], asg)
        k = t.op == 'or'
        if a is k or b is k:
            return k
        if a is None or b is None:
            return None
        return not k
    if t.op == 'phi':
        c = holds(t.args[0], asg)
        if c is None:
            a, b = holds(t.args[1], asg), holds(t.args[2], asg)
            return a if a is b else None
        return holds(t.args[1 if c else 2], asg)
    return None


def resolve(t, asg):
    """t with the phis decided by asg removed (top level)"""
    while t.op == 'phi':
        c = holds(t.args[0], asg)
        if c is None:
            return t
        t = t.args[1 if c else 2]
    return t


def active(e, asg):
    """the event happens under asg"""
    for g, v in e.guards:
        x = holds(g, asg)
        if x is None or x is not v:
            return False
    return True


def assignments(events, limit=16):
    """all assignments of the atoms the events depend on"""
    out = {}
    for e in events:
        for g, v in e.guards:
            atoms_of(g, out)
    ats = list(out)
    if len(ats) > limit:
        raise AnalysisBroken('%d independent conditions in %s' % (len(ats), events[0].fn.qual))
    for m in range(1 << len(ats)):
        yield {a: bool(m >> i & 1) for i, a in enumerate(ats)}
