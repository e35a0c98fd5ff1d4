"""C03: threads share nothing they write, merge private results once, and start them from zero."""
import re

from ..pyrepo import AnalysisBroken
from ..cxx import load_sources, walk, src, children, N, split_q
from ..cxxutil import base, called, callgraph, regions

PROP = 'C03'

STD_MUT = {'push_back', 'resize', 'insert', 'erase', 'clear', 'reserve', 'assign', 'pop_back', 'swap', 'reset',
           'emplace_back'}
STD_CONST = {'size', 'begin', 'end', 'empty', 'data', 'get', 'real', 'imag', 'front', 'back', 'cbegin', 'cend'}
PURE_STD = {'sqrt', 'sin', 'cos', 'log', 'exp', 'abs', 'min', 'max', 'norm', 'conj', 'floor', 'pow', 'atan2', 'move',
            'real', 'imag', 'arg', 'polar', 'hypot', 'isnan', 'isinf', 'omp_get_thread_num', 'SQR', 'asin', 'acos',
            'tan', 'fabs', 'long', 'int', 'double', 'size_t', 'bool', 'float', 'complex', 'endl', 'flush', 'forward',
            'omp_get_num_threads', 'make_pair', 'MAX', 'cast'}
STD_OUT = {'sincos': (1, 2), 'swap': (0, 1), 'partition': (0, 1), 'nth_element': (0, 1, 2), 'sort': (0, 1)}


def cwalk(n):
    """walk without debugging statements"""
    if n.k == 'expr' and is_debug(n):
        return
    yield n
    for c in children(n):
        yield from cwalk(c)


def drawing(cg):
    """classes whose own methods draw random numbers: C14 shows they are processed with one thread only"""
    helper = {f.name for f in cg.S.functions if f.body is not None and
              any(x.k == 'call' and x.a[0].k == 'name' and base(x.a[0].a[0]) in ('rand', 'srand', 'random', 'drand48')
                  for x in walk(f.body))}
    return helper, {f.cls for f in cg.S.functions if f.cls and not f.static and called(f.body) & helper}


def strip(n):
    while n.k in ('cast',):
        n = n.a[-1] if isinstance(n.a[-1], N) else n.a[0]
    return n


def is_debug(n):
    """a debugging statement: dbg<<..., Assert(...)"""
    x = n
    if x.k == 'expr':
        x = x.a[0]
    while x.k == 'bin' and x.a[0] == '<<':
        x = x.a[1]
    if x.k == 'name' and x.a[0] in ('dbg', 'xdbg', 'xxdbg'):
        return True
    return x.k == 'call' and x.a[0].k == 'name' and x.a[0].a[0] in ('Assert', 'XAssert', 'assert', 'set_verbose')


class Reg:
    """ownership of everything a parallel region touches"""

    def __init__(self, ck, f, text, stm, where, cg):
        self.ck, self.f, self.text, self.stm, self.where, self.cg = ck, f, text, stm, where, cg
        self.S = cg.S
        self.own = {}           # local name -> 'private' | 'elem' | 'shared'
        self.ptr = {}           # local pointer/handle name -> ownership of what it points to
        self.loopvar = None
        self.merges = []
        self.bad = []
        self.nwrites = 0
        self.src_shared = {}
        for m in re.finditer(r'\b(?:first)?private\s*\(([^)]*)\)|\blastprivate\s*\(([^)]*)\)|\breduction\s*\([^:]*:([^)]*)\)', text):
            for v in re.split(r'[,\s]+', (m.group(1) or m.group(2) or m.group(3) or '').strip()):
                if v:
                    self.own[v] = 'private'
        self.nowait = False
        self.loop_seen = False
        self.after_loop = False

    # ---- ownership of an lvalue
    def root(self, n):
        n = strip(n)
        k = n.k
        if k == 'name':
            nm = n.a[0]
            if nm == 'this':
                return 'shared'
            return self.own.get(nm, 'shared')
        if k == 'member':
            arrow = len(n.a) > 2 and n.a[2] == '->'
            if n.a[0].k == 'name' and n.a[0].a[0] == 'this':
                return 'shared'
            return self.pointee(n.a[0]) if arrow else self.root(n.a[0])
        if k == 'index':
            r = self.pointee(n.a[0]) if self.is_pointer(n.a[0]) else self.root(n.a[0])
            if r == 'shared' and self.loopvar and n.a[1].k == 'name' and n.a[1].a[0] == self.loopvar:
                return 'elem'
            return r
        if k == 'un' and n.a[0] == '*':
            return self.pointee(n.a[1])
        if k == 'un' and n.a[0] == '&':
            return self.root(n.a[1])
        if k in ('un', 'post'):
            return self.root(n.a[1] if isinstance(n.a[1], N) else n.a[0])
        if k == 'cond':
            rs = {self.root(n.a[1]), self.root(n.a[2])}
            return 'shared' if 'shared' in rs else rs.pop()
        if k == 'call':
            f = n.a[0]
            nm = base(f.a[0]) if f.k == 'name' else base(f.a[1]) if f.k == 'member' else ''
            if nm in ('make_unique', 'make_shared') or makes_fresh(self.cg, nm):
                return 'private'
            if f.k == 'member':
                return self.root(f.a[0])
            if f.k == 'name' and any(fn.name == nm and fn.ret and '&' not in fn.ret and '*' not in fn.ret
                                     for fn in self.S.functions):
                return 'private'        # returned by value
            return 'shared'
        if k in ('num', 'str', 'bin', 'lambda', 'init', 'new'):
            return 'private'
        if k == 'assign':
            return self.root(n.a[1])
        return 'shared'

    def is_pointer(self, n):
        n = strip(n)
        return n.k == 'name' and n.a[0] in self.ptr

    def pointee(self, n):
        n = strip(n)
        if n.k == 'name':
            if n.a[0] in self.ptr:
                return self.ptr[n.a[0]]
            return self.own.get(n.a[0], 'shared') if self.own.get(n.a[0]) != 'private' else self.ptr.get(n.a[0], 'private')
        if n.k == 'un' and n.a[0] == '&':
            return self.root(n.a[1])
        if n.k == 'new':
            return 'private'
        return self.root(n)

    def flag(self, n, why):
        self.bad.append((src(n)[:120], why))

    # ---- statements
    def run(self):
        self.stmt(self.stm, False)

    def stmts(self, ss, crit):
        i = 0
        while i < len(ss):
            x = ss[i]
            if x.k == 'pragma' and x.a[0].split()[:1] == ['omp']:
                words = x.a[0].split()
                nxt = ss[i + 1]
                if words[1] in ('critical', 'atomic'):
                    self.stmt(nxt, True)
                elif words[1] in ('for',):
                    if 'nowait' in words:
                        self.nowait = True
                    self.ompfor(nxt, x)
                elif words[1] in ('single', 'master', 'barrier', 'parallel', 'sections', 'task'):
                    if words[1] == 'barrier':
                        i += 1
                        continue
                    raise AnalysisBroken('%s: OpenMP directive not handled: %s' % (self.where, x.a[0]))
                else:
                    raise AnalysisBroken('%s: OpenMP directive not handled: %s' % (self.where, x.a[0]))
                i += 2
                continue
            self.stmt(x, crit)
            i += 1

    def ompfor(self, n, pragma):
        if n.k != 'for':
            raise AnalysisBroken('%s: omp for without a for loop' % self.where)
        init = n.a[0]
        d = init if init is not None and init.k == 'decl' else None
        if d is None or not d.a[1]:
            # variable declared outside: OpenMP makes the loop variable private
            e = init.a[0] if init is not None and init.k == 'expr' else init
            if e is None or e.k != 'assign' or e.a[1].k != 'name':
                raise AnalysisBroken('%s: loop variable of omp for not found' % self.where)
            v = e.a[1].a[0]
        else:
            v = d.a[1][0][0]
        old = self.loopvar
        self.loopvar = v
        self.own[v] = 'private'
        self.stmt(n.a[3], False)
        for x in walk(n.a[3]):
            if x.k == 'assign' and x.a[1].k == 'name' and x.a[1].a[0] == v or \
                    x.k in ('post',) and x.a[-1].k == 'name' and x.a[-1].a[0] == v if x.k != 'post' else False:
                self.flag(x, 'changes the variable of the parallel loop')
        self.loopvar = old
        self.loop_seen = True

    def stmt(self, n, crit):
        if n is None:
            return
        if is_debug(n):
            return
        k = n.k
        if k == 'block':
            self.stmts(n.a[0], crit)
            return
        if k == 'decl':
            self.decl(n, crit)
            return
        if k in ('if', 'for', 'rfor', 'while', 'do', 'switch', 'case', 'default', 'label', 'return', 'expr', 'try'):
            if k == 'rfor':
                # for (T x : range)
                d = n.a[0]
                self.rfor(n, crit)
                return
            for c in children(n):
                if c.k in ('block', 'if', 'for', 'rfor', 'while', 'do', 'expr', 'decl', 'return', 'switch', 'case',
                           'default', 'break', 'continue', 'try'):
                    self.stmt(c, crit)
                else:
                    self.expr(c, crit)
            return
        if k in ('break', 'continue', 'empty', 'null', 'pragma', 'using', 'typedef', 'goto'):
            return
        self.expr(n, crit)

    def rfor(self, n, crit):
        cs = list(children(n))
        name = None
        typ = ''
        for a in n.a:
            if isinstance(a, str):
                if re.match(r'[A-Za-z_]\w*$', a) and name is None and typ:
                    name = a
                elif not typ:
                    typ = a
        if len(n.a) >= 4 and isinstance(n.a[1], str):
            typ, name = n.a[0], n.a[1]
        if name:
            r = self.root(cs[0]) if cs else 'shared'
            if typ.rstrip().endswith('&') and 'const' not in typ:
                self.own[name] = r
            else:
                self.own[name] = 'private'
            if '*' in typ:
                self.ptr[name] = r
        for c in cs:
            if c.k in ('block', 'if', 'for', 'rfor', 'while', 'do', 'expr', 'decl', 'return', 'switch'):
                self.stmt(c, crit)
            else:
                self.expr(c, crit)

    def decl(self, n, crit):
        t = n.a[0]
        for name, init, dim in n.a[1]:
            ini = init
            if isinstance(ini, (list, tuple)):
                inis = list(ini)
            else:
                inis = [ini] if ini is not None else []
            for x in inis:
                if isinstance(x, N):
                    self.expr(x, crit)
            first = inis[0] if inis else None
            tt = t.replace(' ', '')
            if t.startswith('static '):
                const = 'const' in t
                self.own[name] = 'private' if const else 'shared'
                if any(isinstance(x, N) and x.k not in ('num', 'str') for x in inis):
                    self.flag(n, 'a static local is shared by the threads')
                continue
            if tt.endswith('&'):
                self.own[name] = self.root(first) if first is not None else 'shared'
                if first is not None and strip(first).k == 'un' and strip(first).a[0] == '*':
                    self.own[name] = self.pointee(strip(first).a[1])
            elif tt.endswith('*') or re.search(r'(shared|unique)_ptr', tt) or dim and False:
                self.own[name] = 'private'
                if first is None:
                    self.ptr[name] = 'private'
                else:
                    f = strip(first)
                    self.ptr[name] = self.pointee(f)
            else:
                self.own[name] = 'private'

    def write(self, lhs, n, crit):
        self.nwrites += 1
        r = self.root(lhs)
        if crit:
            if r == 'shared' and not is_stream(lhs):
                self.merges.append(('write', n))
            return
        if r == 'shared':
            self.flag(n, 'written by every thread without exclusion')

    def expr(self, n, crit):
        if n is None or not isinstance(n, N):
            return
        if is_debug(n):
            return
        k = n.k
        if k == 'lambda':
            return
        if k == 'assign':
            self.expr(n.a[2], crit)
            self.sub(n.a[1], crit)
            # reassigned pointers take over what they now point to
            l = strip(n.a[1])
            if n.a[0] == '=' and l.k == 'name' and l.a[0] in self.ptr:
                p = self.pointee(strip(n.a[2]))
                if p != self.ptr[l.a[0]]:
                    self.ptr[l.a[0]] = 'shared' if 'shared' in (p, self.ptr[l.a[0]]) else p
            self.write(n.a[1], n, crit)
            return
        if k == 'un' and n.a[0] in ('++', '--') or k == 'post':
            t = n.a[1] if isinstance(n.a[1], N) else n.a[0]
            self.sub(t, crit)
            self.write(t, n, crit)
            return
        if k == 'delete':
            for c in children(n):
                if self.pointee(c) == 'shared' and not crit:
                    self.flag(n, 'deletes shared storage')
            return
        if k == 'bin' and n.a[0] in ('<<', '>>') and is_stream(n):
            if not crit:
                self.flag(n, 'writes to a shared stream without exclusion')
            return
        if k == 'call':
            self.call(n, crit)
            return
        for c in children(n):
            self.expr(c, crit)

    def sub(self, n, crit):
        for c in children(n):
            self.expr(c, crit)

    def call(self, n, crit):
        f = n.a[0]
        args = n.a[1]
        for a in args:
            self.expr(a, crit)
        recv = None
        if f.k == 'member':
            recv = f.a[0]
            self.expr(recv, crit)
            nm = base(f.a[1])
        elif f.k == 'name':
            nm = base(f.a[0])
        else:
            self.expr(f, crit)
            return
        fs = [g for g in self.S.functions if g.name == nm and fits(g, len(args))]
        if f.k == 'name':
            q = split_q(f.a[0])
            fam = self.cg.family(self.f.cls) if self.f.cls else set()
            if len(q) > 1:
                fs = [g for g in fs if g.cls == base(q[-2]) or not g.cls]
            else:
                fs = [g for g in fs if not g.cls or g.cls in fam or g.name == g.cls]
            implicit = [g for g in fs if g.cls and g.cls in fam and not g.static and g.name != g.cls]
        else:
            fs = [g for g in fs if g.cls]
            implicit = []
        rr = None
        if recv is not None:
            isptr = len(f.a) > 2 and f.a[2] == '->'
            rr = self.pointee(recv) if isptr else self.root(recv)
            if recv.k == 'name' and recv.a[0] == 'this':
                implicit = fs
        elif implicit:
            rr = 'shared'
        if crit:
            if rr == 'shared' and (implicit or recv is not None) and not is_stream(recv):
                if any(not g.const for g in fs):
                    self.merges.append(('call', n))
            return
        # receiver
        if rr == 'shared':
            if fs and nm not in STD_CONST:
                w = [g for g in fs if not g.const and writes_this(self.cg, g)]
                w += [g for g in fs if g.const and writes_mutable(self.cg, g)]
                if w:
                    self.flag(n, '%s changes an object shared by the threads' % w[0].qual)
            elif nm in STD_MUT:
                self.flag(n, 'changes a container shared by the threads')
        # arguments
        if not fs:
            outs = STD_OUT.get(nm, ())
            for i in outs:
                if i < len(args) and self.pointee(args[i]) == 'shared' and self.root(args[i]) == 'shared':
                    self.flag(n, '%s writes a shared argument' % nm)
            return
        for i, a in enumerate(args):
            r = None
            for g in fs:
                if i >= len(g.params):
                    continue
                t = g.params[i].type.replace(' ', '')
                if not is_out_type(g.params[i].type):
                    continue
                sa = strip(a)
                if t.endswith('&') and not t.endswith('*&'):
                    r = self.root(a)
                else:
                    r = self.pointee(sa)
                if r != 'shared':
                    continue
                if not writes_param(self.cg, g, i):
                    continue
                if self.partition(g, i, args):
                    continue
                self.flag(n, 'hands shared %s to %s, which may change it' % (src(a)[:40], g.qual))
                break

    def partition(self, g, i, args):
        """the argument is a container worked on in one range per iteration: the callee touches it only inside
        the range given by two other arguments, each the loop's element of an array of bounds"""
        idx = [j for j, a in enumerate(args)
               if a.k == 'index' and self.loopvar and a.a[1].k == 'name' and a.a[1].a[0] == self.loopvar and
               j < len(g.params) and g.params[j].type.replace('const', '').strip() in ('size_t', 'long', 'int')]
        if len(idx) != 2:
            return False
        lo, hi = idx
        arrs = [src(args[lo].a[0]), src(args[hi].a[0])]
        if arrs[0] == arrs[1]:
            return False
        return ranged(self.cg, g, i, lo, hi, set())


_mf = {}


def makes_fresh(cg, nm):
    """every function of this name returns a newly made object"""
    if nm in _mf:
        return _mf[nm]
    _mf[nm] = False
    fs = [f for f in cg.by.get(nm, ()) if f.body is not None]
    ok = bool(fs)
    for f in fs:
        rets = [list(children(n)) for n in walk(f.body) if n.k == 'return']
        vals = [r[0] for r in rets if r]
        ok = ok and bool(vals) and '_ptr' in (f.ret or '')
        for v in vals:
            if v.k == 'name':
                # a local holding the new object
                inits = [i[0] if isinstance(i, (list, tuple)) and i else i for n in walk(f.body) if n.k == 'decl'
                         for d, i, _ in n.a[1] if d == v.a[0]]
                v = inits[0] if inits and isinstance(inits[0], N) else v
            ok = ok and any(x.k == 'new' or x.k == 'call' and x.a[0].k == 'name' and
                            base(x.a[0].a[0]) in ('make_unique', 'make_shared') for x in [v] + list(walk(v)))
    _mf[nm] = ok
    return ok


def is_stream(n):
    if n is None:
        return False
    while n.k == 'bin' and n.a[0] in ('<<', '>>'):
        n = n.a[1]
    return n.k == 'name' and base(n.a[0]) in ('cout', 'cerr', 'clog')


_req = {}


def fits(g, n):
    """can g be called with n arguments?  (default values may stand in any declaration of it)"""
    if g not in _req:
        S = load_sources()
        reqs = [len([p for p in h.params if p.default is None]) for h in S.functions
                if h.name == g.name and h.cls == g.cls and len(h.params) == len(g.params)]
        for k in S.classes:
            if k.name == g.cls:
                for d in k.decls:
                    if d[0] == g.name and len(d[1]) == len(g.params):
                        reqs.append(len([p for p in d[1] if p.default is None]))
        for d in S.protos:
            if not g.cls and base(d[0]) == g.name and len(d[1]) == len(g.params):
                reqs.append(len([p for p in d[1] if p.default is None]))
        _req[g] = min(reqs)
    return _req[g] <= n <= len(g.params)


def is_out_type(t):
    tt = t.strip()
    if tt.endswith('&&'):
        return False
    if tt.endswith('&'):
        return not re.match(r'^(typename\s+)?const\b', tt) and not re.search(r'\bconst\s*&$', tt)
    if tt.endswith('*') or re.search(r'\*\s*const$', tt):
        return not re.match(r'^const\b', tt) and not re.search(r'\bconst\s*\*', tt)
    return False


_wt = {}


def writes_this(cg, g):
    """may the method g change its own object (fields, or through methods it calls on itself)?"""
    if g in _wt:
        return _wt[g]
    _wt[g] = False
    flds = set()
    for c in cg.up(g.cls):
        for k in cg.S.classes:
            if k.name == c:
                flds |= {x[1] for x in k.fields}
    loc = {p.name for p in g.params}
    res = False
    if g.body is None:
        res = True
    else:
        for n in walk(g.body):
            if n.k == 'decl':
                loc |= {d[0] for d in n.a[1]}
        for n in walk(g.body):
            t = None
            if n.k == 'assign':
                t = n.a[1]
            elif n.k == 'un' and n.a[0] in ('++', '--'):
                t = n.a[1]
            elif n.k == 'post':
                t = n.a[1] if isinstance(n.a[1], N) else n.a[0]
            if t is not None:
                r = lroot(t)
                if r == 'this' or r in flds and r not in loc:
                    res = True
            if n.k == 'call':
                f = n.a[0]
                nm = base(f.a[0]) if f.k == 'name' else base(f.a[1]) if f.k == 'member' else ''
                own = f.k == 'name' or f.k == 'member' and f.a[0].k == 'name' and f.a[0].a[0] == 'this'
                if own:
                    fam = cg.family(g.cls)
                    for h in cg.by.get(nm, ()):
                        if h.cls in fam and not h.static and not h.const and h.name != h.cls and h is not g and \
                                writes_this(cg, h):
                            res = True
                elif f.k == 'member':
                    r = lroot(f.a[0])
                    if r in flds and r not in loc:
                        hs = [h for h in cg.by.get(nm, ()) if h.cls]
                        if nm in STD_MUT and not hs or any(not h.const for h in hs):
                            res = True
    _wt[g] = res
    return res


def writes_mutable(cg, g):
    """const methods that write mutable fields: only idempotent memos of Position are accepted"""
    if g.body is None:
        return False
    mut = set()
    for c in cg.up(g.cls):
        for k in cg.S.classes:
            if k.name == c:
                mut |= k.mutable
    if not mut:
        return False
    for h in [g]:
        for n in walk(h.body):
            if n.k == 'assign' and lroot(n.a[1]) in mut:
                if not memo_write(h, n, lroot(n.a[1])):
                    return True
    # one level of self calls
    for nm in {base(n.a[0].a[0]) for n in walk(g.body) if n.k == 'call' and n.a[0].k == 'name'}:
        for h in cg.by.get(nm, ()):
            if h.cls in cg.family(g.cls) and h is not g and h.const and h.body is not None:
                for n in walk(h.body):
                    if n.k == 'assign' and lroot(n.a[1]) in mut and not memo_write(h, n, lroot(n.a[1])):
                        return True
                    if n.k == 'call' and n.a[0].k == 'member' and base(n.a[0].a[1]) in STD_MUT and \
                            lroot(n.a[0].a[0]) in mut:
                        return True
    return False


def memo_write(f, n, name):
    """name = <expression of constant-after-construction fields>, under 'if (name == 0.)' style guards"""
    for x in walk(f.body):
        if x.k == 'if' and any(y is n for y in walk(x.a[1])):
            c = x.a[0]
            if any(y.k == 'name' and y.a[0] == name for y in walk(c)):
                # the value must not depend on anything but the object's own state
                params = {p.name for p in f.params}
                return not any(y.k == 'name' and y.a[0] in params for y in walk(n.a[2]))
    return False


def lroot(n):
    n = strip(n)
    while True:
        if n.k == 'name':
            return n.a[0]
        if n.k == 'member':
            if n.a[0].k == 'name' and n.a[0].a[0] == 'this':
                return base(n.a[1])
            n = strip(n.a[0])
        elif n.k in ('index', ):
            n = strip(n.a[0])
        elif n.k == 'un':
            n = strip(n.a[1])
        elif n.k == 'post':
            n = strip(n.a[1] if isinstance(n.a[1], N) else n.a[0])
        elif n.k == 'call' and n.a[0].k == 'member':
            n = strip(n.a[0].a[0])
        elif n.k == 'call' and n.a[0].k == 'name' and n.a[0].a[0] == '*':
            n = n.a[1][0]
        else:
            return ''


_wp = {}


def writes_param(cg, g, i):
    """may g change what its i-th parameter refers to?  (assignment through it, mutating call, or handing it on)"""
    key = (g, i)
    if key in _wp:
        return _wp[key]
    _wp[key] = False
    name = g.params[i].name
    res = False
    if g.body is None:
        res = True
    elif not name:
        res = False
    else:
        alias = {name}
        for n in walk(g.body):
            if n.k == 'decl':
                t = n.a[0].replace(' ', '')
                if (t.endswith('&') or t.endswith('*')) and not t.startswith('const'):
                    for nm, init, dim in n.a[1]:
                        ini = init[0] if isinstance(init, (list, tuple)) and init else init
                        if isinstance(ini, N) and lroot(ini) in alias:
                            alias.add(nm)
        isptr = g.params[i].type.strip().endswith('*')
        for n in walk(g.body):
            t = None
            if n.k == 'assign':
                t = n.a[1]
            elif n.k == 'un' and n.a[0] in ('++', '--'):
                t = n.a[1]
            elif n.k == 'post':
                t = n.a[1] if isinstance(n.a[1], N) else n.a[0]
            elif n.k == 'delete':
                t = list(children(n))[0]
                if lroot(t) in alias:
                    res = True
                continue
            if t is not None and lroot(t) in alias and not (isptr and strip(t).k == 'name'):
                res = True
            if n.k == 'call':
                f = n.a[0]
                nm = base(f.a[0]) if f.k == 'name' else base(f.a[1]) if f.k == 'member' else ''
                if f.k == 'member' and lroot(f.a[0]) in alias:
                    hs = [h for h in cg.by.get(nm, ()) if h.cls]
                    if nm in STD_MUT or (hs and nm not in STD_CONST and any(not h.const and writes_this(cg, h) for h in hs)):
                        res = True
                for j, a in enumerate(n.a[1]):
                    if lroot(a) in alias:
                        hs = [h for h in cg.by.get(nm, ()) if fits(h, len(n.a[1]))]
                        if not hs and nm in STD_OUT and j in STD_OUT[nm]:
                            res = True
                        for h in hs:
                            if j < len(h.params) and is_out_type(h.params[j].type) and (h, j) != key and \
                                    writes_param(cg, h, j):
                                res = True
    _wp[key] = res
    return res


def ranged(cg, g, v, lo, hi, seen):
    """does g touch its container parameter v only at indices in [params[lo], params[hi]) ?"""
    key = (g, v, lo, hi)
    if key in seen:
        return True
    seen.add(key)
    if g.body is None:
        return False
    V, LO, HI = (g.params[j].name for j in (v, lo, hi))
    inside = {LO, HI}
    # locals derived from the bounds: a mid point returned by a ranged function, an average, a loop variable over it
    changed = True
    while changed:
        changed = False
        for n in cwalk(g.body):
            ds = []
            if n.k == 'decl':
                ds = [(d[0], d[1][0] if isinstance(d[1], (list, tuple)) and d[1] else d[1]) for d in n.a[1]]
            for nm, ini in ds:
                if nm in inside or not isinstance(ini, N):
                    continue
                names = {x.a[0] for x in walk(ini) if x.k == 'name'}
                if names & inside and (ok_index(cg, ini, inside, V, seen) or in_range_call(ini, V, inside)):
                    inside.add(nm)
                    changed = True
    for n in cwalk(g.body):
        if n.k == 'expr' and is_debug(n):
            continue
        if n.k == 'index' and n.a[0].k == 'name' and n.a[0].a[0] == V:
            if not ok_index(cg, n.a[1], inside, V, seen):
                return False
        if n.k == 'call':
            f = n.a[0]
            if f.k == 'member' and f.a[0].k == 'name' and f.a[0].a[0] == V:
                if base(f.a[1]) not in ('size', 'begin', 'end'):
                    return False
                continue
            for j, a in enumerate(n.a[1]):
                if a.k == 'name' and a.a[0] == V:
                    nm = base(f.a[0]) if f.k == 'name' else base(f.a[1]) if f.k == 'member' else ''
                    hs = [h for h in cg.by.get(nm, ()) if fits(h, len(n.a[1])) and j < len(h.params)]
                    if not hs:
                        return False
                    for h in hs:
                        if not is_out_type(h.params[j].type):
                            continue
                        ii = [m for m, b in enumerate(n.a[1]) if b.k == 'name' and b.a[0] in inside]
                        if len(ii) != 2 or not ranged(cg, h, j, ii[0], ii[1], seen):
                            return False
    # iterators: V.begin()+x with x inside, never V.begin() alone or V.end() in a call
    def it(n, parent):
        if n.k == 'expr' and is_debug(n):
            return True
        if n.k == 'call' and n.a[0].k == 'member' and n.a[0].a[0].k == 'name' and n.a[0].a[0].a[0] == V and \
                base(n.a[0].a[1]) in ('begin', 'end'):
            if base(n.a[0].a[1]) == 'end':
                return False
            if parent is None or parent.k != 'bin':
                return False
            if parent.a[0] == '+':
                return ok_index(cg, parent.a[2], inside, V, seen)
            return parent.a[0] == '-'
        return all(it(c, n) for c in children(n))
    body = [s for s in cwalk(g.body) if s.k == 'block']
    for b in body[:1]:
        if not it(N('block', [[s for s in b.a[0] if not is_debug(s)]]), None):
            return False
    return True


def in_range_call(ini, V, inside):
    """a position returned by a function that is given the container and the range (checked to stay inside it)"""
    i = strip(ini)
    return i.k == 'call' and any(a.k == 'name' and a.a[0] == V for a in i.a[1]) and \
        sum(1 for a in i.a[1] if a.k == 'name' and a.a[0] in inside) >= 2


def ok_index(cg, e, inside, V, seen):
    for x in walk(e):
        if x.k == 'name' and x.a[0] not in inside and x.a[0] != V and not re.match(r'^[A-Z]\w*|select_random|size_t', base(x.a[0])):
            return False
    return True


# ---------------------------------------------------------------------------

def check(ck):
    ck.rule('exclusive', 'Inside a parallel region every write outside a critical section reaches storage declared in '
            'the region, or the element of a shared array selected by the loop variable; the objects and arguments '
            'handed to functions that may change them likewise.', 12)
    ck.rule('merge', 'Each thread\'s private result is merged into the shared one exactly once, unconditionally, in a '
            'critical section after the shared loop.', 9)
    ck.rule('zero', 'The private accumulators start from zero: the per-thread copy is made with its data cleared, or '
            'the copied object is freshly constructed or reset first.', 4)
    ck.rule('private copy', 'The per-thread copy allocates its own storage for every pointer it writes through and '
            'copies every parameter.', 20)
    ck.rule('shared state', 'No function reachable from a parallel region writes a global or an initialised static '
            'local, casts const away, or changes a mutable field except an idempotent memo.', 12)
    ck.rule('thread count', 'A change of the number of threads made inside compiled code is undone before returning.', 1)
    S = load_sources()
    cg = callgraph()
    dups = set()
    nreg = 0
    regs = []
    for f in S.functions:
        if f.body is None:
            continue
        for text, line, stm in regions(f):
            if 'parallel' not in text.split():
                continue
            nreg += 1
            where = '%s line %d' % (f.where, line)
            r = Reg(ck, f, text, stm, where, cg)
            ck.saw(f.qual)
            if 'for' in text.split():
                r.ompfor(stm, None)
            else:
                r.run()
            label = region_label(f, nreg)
            regs.append((f, r, stm, text, where, label))
            ck.ob('exclusive', label, not r.bad, '; '.join('%s: %s' % b for b in r.bad[:4]), where)
            if 'for' not in text.split():
                merge(ck, cg, f, r, stm, where, label)
            reach(ck, cg, f, r, stm, where, label)
    if nreg < 12:
        raise AnalysisBroken('only %d parallel regions found' % nreg)
    zero(ck, cg, S, regs)
    copies(ck, cg, S)
    threads(ck, cg, S)
    ck.assumptions.append('parallel regions are entered only through the functions analysed; std:: functions not '
                          'listed as writing their arguments do not write them')


_lab = {}


def region_label(f, n):
    key = f.qual + '(' + ','.join(p.type.split('<')[0].strip() for p in f.params) + ')'
    k = _lab.get(key, 0)
    _lab[key] = k + 1
    return 'region %d of %s' % (k + 1, key)


def merge(ck, cg, f, r, stm, where, label):
    """statements of the region in order"""
    ss = stm.a[0]
    privs = [(d, nm) for d in ss if d.k == 'decl' for nm, i, _ in d.a[1]
             if isinstance(i, (N, list, tuple)) and copy_source(r, d, i)]
    merges = []
    top = []
    i = 0
    pos = None
    while i < len(ss):
        x = ss[i]
        if x.k == 'pragma':
            w = x.a[0].split()
            if w[:2] == ['omp', 'for']:
                pos = i
            if w[:2] == ['omp', 'critical']:
                for c in walk(ss[i + 1]):
                    if c.k == 'call' or c.k == 'assign':
                        top.append((i, c))
            i += 2
            continue
        i += 1
    allcrit = [c for k, c in r.merges]
    # merging statements: a call or += in a critical section with a shared receiver and a private argument
    good = []
    for j, c in top:
        if c.k == 'call':
            args = c.a[1]
            if len(args) == 1 and r.root(args[0]) == 'private' and any(x is c for x in allcrit):
                good.append((j, c))
        elif c.k == 'assign' and c.a[0] == '+=' and r.root(c.a[1]) == 'shared' and r.root(c.a[2]) == 'private':
            good.append((j, c))
    reds = [] if 'reduction' not in r.text else ['reduction']
    ok = len(good) == 1 and len(allcrit) == 1 and pos is not None and good[0][0] > pos
    why = ''
    if not ok:
        why = 'merged %d times after the loop (%d changes of shared objects under exclusion)' % (len(good), len(allcrit))
    else:
        c = good[0][1]
        # unconditional: a direct statement of the critical block
        blk = ss[good[0][0] + 1]
        direct = [s for s in (blk.a[0] if blk.k == 'block' else [blk])]
        if not any(s.k == 'expr' and s.a[0] is c for s in direct):
            ok, why = False, 'merged only under a condition'
        for s in direct:
            if s.k == 'expr' and s.a[0] is c:
                break
            if s.k in ('if', 'return', 'break', 'continue'):
                ok, why = False, 'merged only under a condition'
        # the thing merged is the per-thread object the loop worked on
        arg = c.a[1][0] if c.k == 'call' else c.a[2]
        loop = ss[pos + 1]
        nm = lroot(arg)
        if ok and not any(y.k == 'name' and y.a[0] == nm for y in walk(loop)):
            ok, why = False, 'the merged object %s is not the one the loop fills' % nm
        if ok and c.k == 'call':
            ok, why = additive(cg, f, c)
    if r.nowait:
        # another thread may still be copying the shared object
        if not any('duplicate' in src_decl(d) for d in ss if d.k == 'decl'):
            ok, why = False, 'nowait: merging may start while other threads still copy the shared object'
    ck.ob('merge', label, ok, why, where)


def src_decl(d):
    return ' '.join(src(x) for x in walk(d) if x.k in ('call',))


def copy_source(r, d, i):
    return True


def additive(cg, f, c):
    """the merging function adds: addData does *this += static_cast<..>(arg); combineWith adds element by element"""
    fn = c.a[0]
    nm = base(fn.a[0]) if fn.k == 'name' else base(fn.a[1])
    hs = [h for h in cg.by.get(nm, ()) if len(h.params) == 1 and h.cls]
    if not hs:
        return False, 'merging function %s not found' % nm
    dcls = drawing(cg)[1]
    for h in hs:
        if h.body is None or h.cls in dcls:
            continue
        p = h.params[0].name
        n = 0
        for x in walk(h.body):
            if x.k == 'assign' and any(y.k == 'name' and y.a[0] == p for y in walk(x.a[2])):
                if x.a[0] not in ('+=',):
                    ok = x.a[0] == '=' and any(y.k == 'bin' and y.a[0] == '+' for y in walk(x.a[2]))
                    if not ok:
                        return False, '%s assigns instead of adding: %s' % (h.qual, src(x)[:80])
                n += 1
            if x.k == 'call' and x.a[0].k == 'member' and base(x.a[0].a[1]) in ('insert',) and \
                    any(y.k == 'name' and y.a[0] == p for a in x.a[1] for y in walk(a)):
                n += 1
        if not n and not disjoint_writer(cg, h.cls):
            return False, '%s does not add its argument' % h.qual
        # everything the functor's run() accumulates must be combined
        run = [g for g in cg.by.get('run', ()) if g.cls == h.cls and g.cls and g.body is not None]
        if nm == 'combineWith':
            for g in run:
                acc = {lroot(t) for t in accumulated(g)}
                comb = {lroot(x.a[1]) for x in walk(h.body) if x.k == 'assign'} | \
                       {lroot(x.a[0].a[0]) for x in walk(h.body) if x.k == 'call' and x.a[0].k == 'member'}
                miss = acc - comb - disjoint_fields(cg, h.cls)
                if miss:
                    return False, '%s leaves out %s' % (h.qual, sorted(miss))
    return True, ''


def accumulated(g):
    for x in walk(g.body):
        if x.k == 'assign':
            t = x.a[1]
            if not is_local(g, lroot(t)):
                yield t
        if x.k == 'call' and x.a[0].k == 'member' and base(x.a[0].a[1]) in STD_MUT:
            if not is_local(g, lroot(x.a[0].a[0])):
                yield x.a[0].a[0]


def is_local(g, nm):
    return nm in {p.name for p in g.params} or any(nm == d[0] for x in walk(g.body) if x.k == 'decl' for d in x.a[1])


def disjoint_fields(cg, cls):
    """pointer fields of a functor: its copies write the same array, each at positions given by the cell's own
    object indices, which no two cells share"""
    out = set()
    for k in cg.S.classes:
        if k.name == cls:
            for t, nm, dim in k.fields:
                if t.strip().endswith('*'):
                    out.add(nm)
    ok = set()
    for g in cg.by.get('run', ()):
        if g.cls != cls or g.body is None:
            continue
        for x in walk(g.body):
            if x.k == 'assign' and lroot(x.a[1]) in out:
                i = strip(x.a[1])
                cellvars = {p.name for p in g.params if 'Cell' in p.type}
                if i.k == 'index' and from_cell(g, i.a[1], cellvars):
                    ok.add(lroot(x.a[1]))
    return ok


def from_cell(g, e, cells):
    names = {x.a[0] for x in walk(e) if x.k == 'name'}
    for nm in list(names):
        if nm in cells:
            return True
        for x in walk(g.body):
            if x.k == 'decl':
                for d, ini, _ in x.a[1]:
                    if d == nm:
                        i = ini[0] if isinstance(ini, (list, tuple)) and ini else ini
                        if isinstance(i, N) and d not in {y.a[0] for y in walk(i) if y.k == 'name'} and \
                                from_cell(g, i, cells):
                            return True
            if x.k == 'rfor' and nm in [a for a in x.a if isinstance(a, str)]:
                for c in children(x):
                    if c.k not in ('block', 'expr') and from_cell(g, c, cells):
                        return True
    return False


def disjoint_writer(cg, cls):
    fl = disjoint_fields(cg, cls)
    for g in cg.by.get('run', ()):
        if g.cls == cls and g.body is not None:
            acc = {lroot(t) for t in accumulated(g)}
            return bool(acc) and acc <= fl
    return False


def reach(ck, cg, f, r, stm, where, label):
    helper, dcls = drawing(cg)
    fs = cg.reach(stm, f, skip=dcls)
    fs = {g for g in fs if g.name not in helper}        # random numbers: C14
    ck.saw(*[g.qual for g in fs])
    S = cg.S
    glob = {g[1]: g for g in S.globals if 'const' not in g[0]}
    bad = []
    for g in fs:
        if g.body is None or g.name in ('set_verbose', 'get_verbose'):
            continue
        loc = {p.name for p in g.params}
        statics = set()
        for n in walk(g.body):
            if n.k == 'decl':
                names = {d[0] for d in n.a[1]}
                if n.a[0].startswith('static ') and 'const' not in n.a[0]:
                    statics |= names
                elif n.a[0].startswith('static '):
                    for d, ini, _ in n.a[1]:
                        i = ini[0] if isinstance(ini, (list, tuple)) and ini else ini
                        if isinstance(i, N) and any(x.k == 'name' and x.a[0] in loc for x in walk(i)):
                            bad.append('%s keeps a static value computed from its arguments (%s)' % (g.qual, d))
                else:
                    loc |= names
        for n in walk(g.body):
            if n.k == 'expr' and is_debug(n):
                continue
            t = None
            if n.k == 'assign':
                t = n.a[1]
            elif n.k == 'un' and n.a[0] in ('++', '--'):
                t = n.a[1]
            elif n.k == 'post':
                t = n.a[1] if isinstance(n.a[1], N) else n.a[0]
            if t is not None:
                nm = lroot(t)
                if nm in statics:
                    bad.append('%s writes its static local %s' % (g.qual, nm))
                elif nm in glob and nm not in loc and not field_of(cg, g, nm):
                    bad.append('%s writes the global %s' % (g.qual, nm))
            if n.k == 'cast' and any(isinstance(a, str) and 'const_cast' in a for a in n.a):
                bad.append('%s casts const away' % g.qual)
        if g.const and g.cls and writes_mutable_any(cg, g):
            for n in walk(g.body):
                if n.k == 'assign' and lroot(n.a[1]) in mutables(cg, g.cls):
                    nm = lroot(n.a[1])
                    if memo_write(g, n, nm):
                        continue
                    # not idempotent: the object must be private to the thread
                    if not class_private(cg, f, stm, g):
                        bad.append('%s changes the mutable %s of an object shared by the threads' % (g.qual, nm))
    ck.ob('shared state', label, not bad, '; '.join(sorted(set(bad))[:4]), where)


def mutables(cg, cls):
    out = set()
    for k in cg.S.classes:
        if k.name == cls:
            out |= k.mutable
    return out


def writes_mutable_any(cg, g):
    return bool(mutables(cg, g.cls))


def targ_list(t):
    if not t:
        return []
    if not isinstance(t, str):
        return [str(x).strip() for x in t]
    return [x.strip() for x in t.split(',')]


def class_private(cg, f, stm, g):
    """every object of g's class the region uses is declared inside it (or no dispatch in the file selects the
    specialisation g belongs to)"""
    for n in walk(stm):
        if n.k == 'decl' and base(n.a[0].replace('const ', '').strip()) == g.cls and not n.a[0].strip().endswith(('&', '*')):
            return True
    first = (targ_list(g.ctargs) or [None])[0]
    insts = instantiations(cg, f)
    names = {v for e in cg.S.enums.values() for v in enum_names(e)}
    return first in names and first not in insts


def enum_names(e):
    return [x[0] if isinstance(x, (list, tuple)) else x for x in (e if isinstance(e, (list, tuple)) else e.keys())]


def instantiations(cg, f):
    """metric names the file's dispatch code instantiates the function with"""
    out = set()
    for g in cg.S.functions:
        if g.fname != f.fname or g.body is None:
            continue
        for n in walk(g.body):
            if n.k == 'case':
                out.add(src(list(children(n))[0]))
    return out


def field_of(cg, g, nm):
    if not g.cls:
        return False
    for c in cg.up(g.cls):
        for k in cg.S.classes:
            if k.name == c and any(x[1] == nm for x in k.fields):
                return True
    return False


def zero(ck, cg, S, regs):
    # duplicate(): every override makes a copy without data
    dups = [f for f in S.functions if f.name == 'duplicate' and f.cls.startswith('Corr')]
    if len(dups) < 2:
        raise AnalysisBroken('duplicate() of Corr2/Corr3 not found')
    used = {}
    for f, r, stm, text, where, label in regs:
        for n in walk(stm):
            if n.k == 'call' and (n.a[0].k == 'name' and base(n.a[0].a[0]) == 'duplicate' or
                                  n.a[0].k == 'member' and base(n.a[0].a[1]) == 'duplicate'):
                used[f.qual] = True
    ctor_default = {}
    for f in dups:
        made = None
        for n in walk(f.body):
            if n.k == 'new':
                made = (base(n.a[0]), n.a[1] if len(n.a) > 1 else [])
            if n.k == 'call' and n.a[0].k == 'name' and base(n.a[0].a[0]) in ('make_shared', 'make_unique'):
                m = re.search(r'<(.*)>$', n.a[0].a[0].strip(), re.S)
                made = (base(m.group(1) if m else f.cls), n.a[1])
        if made is None:
            raise AnalysisBroken('%s: what duplicate() makes is not found' % f.where)
        args = made[1] or []
        if isinstance(args, N):
            args = [args]
        if len(args) >= 1 and src(args[0]) in ('*this', '(*this)'):
            cc = [g for g in S.functions if g.cls == made[0] and g.name == made[0] and g.params and
                  g.params[0].name == 'rhs' or g.cls == made[0] and g.name == made[0] and g.params and
                  g.params[0].type.replace(' ', '').startswith('const' + made[0])]
            cc = [g for g in cc if len(g.params) == 2]
            if not cc:
                raise AnalysisBroken('copy constructor of %s not found' % made[0])
            g = cc[0]
            flag = g.params[1].name
            if len(args) > 1:
                val = src(args[1])
            else:
                d = g.params[1].default
                if d is None:
                    d = decl_default(S, made[0], g)
                val = src(d) if isinstance(d, N) else str(d)
            cleared = clears(g, flag, val)
            ck.ob('zero', 'duplicate() of ' + f.cls, cleared,
                  'the copy starts with %s = %s and is not cleared' % (flag, val), f.where)
        else:
            ck.ob('zero', 'duplicate() of ' + f.cls, False, 'makes something that is not a copy of this', f.where)
    # functors: each call of the templated driver is given a fresh or reset functor
    drivers = {f.name for f, r, stm, text, where, label in regs
               if 'for' not in text.split() and any(d.k == 'decl' and len(d.a[1]) == 1 and
                                                    copies_param(f, d) for d in walk(stm))}
    for f in S.functions:
        if f.body is None:
            continue
        for blk in walk(f.body):
            if blk.k != 'block':
                continue
            for i, s in enumerate(blk.a[0]):
                if s.k != 'expr' or s.a[0].k != 'call' or s.a[0].a[0].k != 'name' or \
                        base(s.a[0].a[0].a[0]) not in drivers:
                    continue
                c = s.a[0]
                tgt = driver_arg(S, drivers, c)
                if tgt is None:
                    continue
                nm = lroot(tgt)
                if nm in {p.name for p in f.params}:
                    continue        # the recursion hands on its own argument
                prev = blk.a[0][:i]
                fresh = any(x.k == 'decl' and any(d[0] == nm for d in x.a[1]) for x in prev)
                reset = False
                for x in prev:
                    if x.k == 'expr' and x.a[0].k == 'call' and x.a[0].a[0].k == 'member':
                        m = x.a[0].a[0]
                        if lroot(m.a[0]) == nm and base(m.a[1]) == 'reset':
                            reset = True
                    if x.k == 'expr' and x.a[0].k == 'call' and x.a[0].a[0].k == 'name' and \
                            base(x.a[0].a[0].a[0]) in drivers and lroot(driver_arg(S, drivers, x.a[0]) or x) == nm:
                        reset, fresh = False, False
                ck.ob('zero', '%s given to %s in %s' % (nm, base(c.a[0].a[0]), f.qual), fresh or reset,
                      'the functor copied by every thread still holds earlier results', f.where)
    # reset() resets everything run() accumulates
    for g in S.functions:
        if g.name == 'run' and g.cls and g.body is not None:
            rs = [h for h in S.functions if h.name == 'reset' and h.cls == g.cls]
            if not rs:
                continue
            acc = {lroot(t) for t in accumulated(g)} - disjoint_fields(cg, g.cls)
            h = rs[0]
            done = {lroot(x.a[1]) for x in walk(h.body) if x.k == 'assign'} | \
                   {lroot(x.a[0].a[0]) for x in walk(h.body) if x.k == 'call' and x.a[0].k == 'member' and
                    base(x.a[0].a[1]) in ('clear', 'assign')}
            ck.ob('zero', 'reset of ' + g.cls, acc <= done, 'reset leaves %s' % sorted(acc - done), h.where)


def copies_param(f, d):
    ps = {p.name for p in f.params}
    for nm, init, _ in d.a[1]:
        i = init[0] if isinstance(init, (list, tuple)) and init else init
        if isinstance(i, N) and i.k == 'name' and i.a[0] in ps and not d.a[0].strip().endswith(('&', '*')) and \
                not re.match(r'^(const )?(int|long|double|bool|size_t)', d.a[0]):
            return True
    return False


def driver_arg(S, drivers, c):
    nm = base(c.a[0].a[0])
    for g in S.functions:
        if g.name == nm and any('parallel' in t.split() for t, _, _ in regions(g)) and fits(g, len(c.a[1])):
            for n in walk(g.body):
                if n.k == 'decl' and copies_param(g, n):
                    init = n.a[1][0][1]
                    i = init[0] if isinstance(init, (list, tuple)) and init else init
                    j = [p.name for p in g.params].index(i.a[0])
                    return c.a[1][j] if j < len(c.a[1]) else None
    return None


def decl_default(S, cls, g):
    for k in S.classes:
        if k.name == cls:
            for d in k.decls:
                if d[0] == cls and len(d[1]) == len(g.params) and d[1][-1].default is not None:
                    return d[1][-1].default
    return None


def clears(g, flag, val):
    """with flag == val, is clear() called (on every such path)?"""
    for n in walk(g.body):
        if n.k == 'if':
            c = src(n.a[0])
            neg = c in ('!' + flag, '(!%s)' % flag, '!(%s)' % flag)
            if c == flag or neg:
                v = {'true': True, 'false': False}.get(val)
                if v is None:
                    return False
                br = n.a[1] if v != neg else n.a[2]
                return br is not None and any(x.k == 'call' and x.a[0].k == 'name' and x.a[0].a[0] == 'clear'
                                              for x in walk(br))
    return any(x.k == 'call' and x.a[0].k == 'name' and x.a[0].a[0] == 'clear' for x in walk(g.body)) and \
        not any(x.k == 'assign' and src(x.a[1]) in ('*this', '(*this)') for x in walk(g.body))


def copies(ck, cg, S):
    for k in S.classes:
        cc = [g for g in S.functions if g.cls == k.name and g.name == k.name and g.params and
              re.match(r'const\s*%s\b' % k.name, g.params[0].type) and g.params[0].type.strip().endswith('&')]
        if not cc or not re.match(r'(Base)?Corr\d$|BaseMultipoleScratch|MultipoleScratch', k.name):
            continue
        for g in cc:
            if (g.ctargs or '') != (k.targs or '') and k.name == 'MultipoleScratch':
                continue
            rhs = g.params[0].name
            inits = dict((nm, a) for nm, a in (g.inits or []))
            copied = {}
            for nm, a in inits.items():
                for x in a:
                    if any(y.k == 'name' and y.a[0] == rhs for y in walk(x)):
                        copied[nm] = src(x)
            body = g.body
            alloc = set()
            if body is not None:
                for n in walk(body):
                    if n.k == 'assign':
                        l = lroot(n.a[1])
                        if any(x.k == 'new' for x in walk(n.a[2])):
                            alloc.add(l)
                        elif any(y.k == 'name' and y.a[0] == rhs for y in walk(n.a[2])):
                            copied[l] = src(n.a[2])
                    if n.k == 'call' and n.a[0].k == 'member' and base(n.a[0].a[1]) == 'new_data':
                        alloc.add(lroot(n.a[0].a[0]))
            for t, nm, dim in k.fields:
                if t.startswith('static '):
                    continue
                tt = t.strip()
                if tt.endswith('*') or re.match(r'(XiData|ZetaData)\b', tt):
                    ck.ob('private copy', '%s::%s' % (k.name, nm), nm in alloc,
                          'the per-thread copy does not allocate its own %s' % nm, g.where)
                elif re.match(r'bool$', tt) and nm.startswith('_owns'):
                    v = inits.get(nm)
                    ok = bool(v) and src(v[0]) == 'true'
                    ck.ob('private copy', '%s::%s' % (k.name, nm), ok, 'the copy does not own its storage', g.where)
                else:
                    ok = nm in copied and re.search(r'\b%s\b' % re.escape(nm), copied[nm]) is not None
                    ck.ob('private copy', '%s::%s' % (k.name, nm), ok,
                          '%s is %s' % (nm, 'set from ' + copied[nm] if nm in copied else 'not copied'), g.where)


def threads(ck, cg, S):
    setters = {'SetOMPThreads', 'omp_set_num_threads'}
    n = 0
    for f in S.functions:
        if f.body is None or f.name in setters:
            continue
        calls = [x for x in walk(f.body) if x.k == 'call' and x.a[0].k == 'name' and base(x.a[0].a[0]) in setters]
        if not calls:
            continue
        n += 1
        ck.saw(f.qual)
        saved = {d[0] for x in walk(f.body) if x.k == 'decl' for d in x.a[1]
                 if 'GetOMPThreads' in src_list(d[1]) or 'omp_get_max_threads' in src_list(d[1])}
        last = calls[-1]
        ok = len(last.a[1]) == 1 and last.a[1][0].k == 'name' and last.a[1][0].a[0] in saved
        # saved before the first change
        if ok:
            order = [x for x in walk(f.body) if x is calls[0] or x.k == 'decl' and any(d[0] == last.a[1][0].a[0] for d in x.a[1])]
            ok = order and order[0].k == 'decl'
        # and no return in between
        if ok:
            seen = False
            for x in walk(f.body):
                if x is calls[0]:
                    seen = True
                if x is last:
                    break
                if seen and x.k == 'return':
                    ok = False
            blk = f.body.a[0]
            ok = ok and any(s.k == 'expr' and s.a[0] is last for s in blk)
        ck.ob('thread count', f.qual, bool(ok), 'the number of threads set here is not restored on every path', f.where)
    py = S.globals
    return n


def src_list(i):
    if i is None:
        return ''
    if isinstance(i, (list, tuple)):
        return ' '.join(src(x) for x in i if isinstance(x, N))
    return src(i) if isinstance(i, N) else str(i)
