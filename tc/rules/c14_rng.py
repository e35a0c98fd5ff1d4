"""C14: all randomness comes from the generator the caller can supply.

 * no use of a global or hidden generator anywhere in the package (syntax tree of every module, tokens of
   every C++ source);
 * a default generator is made only where the supplied one is known to be absent (flow);
 * only methods that legacy and new-style numpy generators share are called on a generator (flow);
 * wherever a generator is at hand, it is handed on to every package function that takes one (flow);
 * every seed given to the compiled code comes from the generator, and every compiled function that
   takes a seed uses it.
"""
import ast
import os
import re

from ..common import *
from ..pyrepo import AnalysisBroken, params_of
from ..cxx import load_sources, walk, src
from ..bind import table
from ..cxxutil import callgraph, regions, called, base

PROP = 'C14'
# numpy.random: methods that exist on both RandomState and Generator (numpy API documentation)
BOTH = {'beta', 'binomial', 'bytes', 'chisquare', 'choice', 'dirichlet', 'exponential', 'f', 'gamma', 'geometric',
        'gumbel', 'hypergeometric', 'laplace', 'logistic', 'lognormal', 'logseries', 'multinomial',
        'multivariate_normal', 'negative_binomial', 'noncentral_chisquare', 'noncentral_f', 'normal', 'pareto',
        'permutation', 'poisson', 'power', 'random', 'rayleigh', 'shuffle', 'standard_cauchy',
        'standard_exponential', 'standard_gamma', 'standard_normal', 'standard_t', 'triangular', 'uniform',
        'vonmises', 'wald', 'weibull', 'zipf'}
MAKERS = {'default_rng', 'RandomState', 'Generator', 'PCG64', 'MT19937', 'SeedSequence', 'BitGenerator'}
CXX_RANDOM = {'rand', 'srand', 'random_device', 'mt19937', 'mt19937_64', 'default_random_engine', 'drand48',
              'srand48', 'lrand48', 'rand_r', 'minstd_rand', 'arc4random', 'random_shuffle', 'random'}


def is_rng_term(t):
    for l in phi_leaves(t):
        if l.op == 'attr' and l.args[1] in ('_rng', 'rng'):
            return True
        if l.op == 'param' and l.args[0] == 'rng':
            return True
    return False


def none_guard(e):
    """the event happens only where some generator is None"""
    for g, v in e.guards:
        if v and g.op == 'cmp' and g.args[0] == 'is' and g.args[2] is NONE and is_rng_term(g.args[1]):
            return True
        if not v and g.op == 'not' and g.args[0].op == 'cmp' and g.args[0].args[2] is NONE and \
                is_rng_term(g.args[0].args[1]):
            return True
        if not v and is_rng_term(g):
            return True
    return False


def maker_of(fnterm):
    if fnterm.op == 'attr' and fnterm.args[1] in MAKERS:
        return fnterm.args[1]
    if fnterm.op == 'global' and fnterm.args[0] in MAKERS:
        return fnterm.args[0]


def check(ck):
    rep = repo()
    ck.rule('global', 'no module uses a global, module-level or operating-system source of random numbers', 30)
    ck.rule('default', 'a new generator is made only where none was supplied, and is not given a fixed seed', 2)
    ck.rule('method', 'methods called on a generator exist on both kinds of numpy generator', 10)
    ck.rule('handed-on', 'a generator at hand is handed on to every package function that takes one', 14)
    ck.rule('seed', 'each seed passed to compiled code is drawn from the supplied generator', 12)
    ck.rule('cxx', 'compiled code draws random numbers only through its one seeded helper, and functions given a '
                   'seed use it', 10)
    ck.rule('schedule', 'no random number is drawn inside a parallel region', 15)
    # ---- global sources
    for m in rep.modules.values():
        bad = None
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split('.')[0] in ('random', 'secrets', 'uuid') or a.name == 'numpy.random':
                        bad = (x, 'imports %s' % a.name)
            elif isinstance(x, ast.ImportFrom):
                if x.module and (x.module.split('.')[0] in ('random', 'secrets') and not x.level):
                    bad = (x, 'imports from %s' % x.module)
                if x.module in ('numpy.random',) and any(a.name not in MAKERS for a in x.names):
                    bad = (x, 'imports numpy.random functions')
            elif isinstance(x, ast.Attribute):
                v = x.value
                if isinstance(v, ast.Attribute) and v.attr == 'random' and isinstance(v.value, ast.Name) and \
                        v.value.id in ('np', 'numpy') and x.attr not in MAKERS:
                    bad = (x, 'uses the global numpy generator: np.random.%s' % x.attr)
                if x.attr == 'urandom':
                    bad = (x, 'uses operating system randomness')
        # generator made at module or class level, or as a default argument
        for x in module_level_calls(m.tree):
            f = x.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
            if nm in MAKERS:
                bad = (x, 'keeps a hidden module-level generator')
        ck.ob('global', m.name, bad is None, bad[1] if bad else '', rep.where(m, bad[0]) if bad else '')
    # ---- flows
    takers = {}
    for m in rep.modules.values():
        for nm, fn in m.funcs.items():
            if 'rng' in sum((list(a) for a in params_of(fn)[:2]), []):
                takers[nm] = (fn, False)
    meth = {}
    for c in rep.classes.values():
        for nm, fn in c.methods.items():
            if 'rng' in sum((list(a) for a in params_of(fn)[:2]), []):
                if nm == '__init__':
                    takers[c.name] = (fn, True)
                else:
                    meth[nm] = (fn, nm not in c.static)
    ctor_takers = set()
    for c in rep.classes.values():
        dc, fn = c.method('__init__')
        if fn is not None and 'rng' in sum((list(a) for a in params_of(fn)[:2]), []):
            ctor_takers.add(c.name)
            takers[c.name] = (fn, True)
    done = set()
    for c in sorted(rep.classes.values(), key=lambda c: c.name):
        has = 'rng' in [e for d in c.mro for e in stored_attrs(d)] or '_rng' in [e for d in c.mro for e in
                                                                              stored_attrs(d)]
        for kind, tbl in (('methods', c.methods), ('props', c.props)):
            for nm, fn in sorted(tbl.items()):
                ps = sum((list(a) for a in params_of(fn)[:2]), [])
                src = has and nm not in c.static and nm not in c.classm
                if not src and 'rng' not in ps and not mentions_random(fn):
                    continue
                if (id(fn)) in done:
                    continue
                done.add(id(fn))
                # a class method may do different things for the base class and for its descendants
                users = [c]
                if nm in c.classm:
                    users += [d for d in corr_leaves(rep) if d is not c and d.method(nm)[1] is fn][:1]
                for d in users:
                    flow = Flow(rep, maxdepth=2)
                    flow.run_method(d, nm, kind=kind)
                    ck.saw_flow(flow)
                    events(ck, rep, flow, '%s.%s' % (d.name, nm), src or 'rng' in ps, takers, meth, ctor_takers)
    for m in rep.modules.values():
        for nm, fn in sorted(m.funcs.items()):
            ps = sum((list(a) for a in params_of(fn)[:2]), [])
            if 'rng' not in ps and not mentions_random(fn):
                continue
            flow = Flow(rep, maxdepth=1)
            flow.run_function(m.name, nm)
            ck.saw_flow(flow)
            events(ck, rep, flow, '%s.%s' % (m.name, nm), 'rng' in ps, takers, meth, ctor_takers)
    cxx(ck)


def seeded(rep, t):
    """an object made with the generator: by a call that is given it, or by a method that uses self's"""
    for x in subterms(t):
        if x.op == 'call':
            if any(is_rng_term(a) for a in list(x.args[1]) + [v for k, v in x.args[2]]):
                return True
            f = x.args[0]
            if f.op == 'attr' and f.args[0] is SELF:
                for c in rep.classes.values():
                    fn = c.methods.get(f.args[1])
                    if fn is not None and mentions_random(fn):
                        return True
    return False


def stored_attrs(c):
    fn = c.methods.get('__init__')
    if fn is None:
        return []
    return [x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)]


def mentions_random(fn):
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and (x.attr in ('_rng', 'rng', 'random') or x.attr in MAKERS):
            return True
        if isinstance(x, ast.Name) and x.id in ('rng', 'seed'):
            return True
    return False


def module_level_calls(tree):
    """calls evaluated at import time: module and class bodies, decorators and default arguments"""
    out = []

    def visit(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in ch.args.defaults + [k for k in ch.args.kw_defaults if k] + ch.decorator_list:
                    visit2(d)
                continue
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, ast.Call):
                out.append(ch)
            visit(ch)

    def visit2(d):
        for x in ast.walk(d):
            if isinstance(x, ast.Call):
                out.append(x)
    visit(tree)
    return out


def events(ck, rep, flow, who, source, takers, meth, ctor_takers):
    presets = {}
    for e in flow.events:
        if e.kind == 'call' and e.name in ('setdefault', 'update') and e.args and e.args[0] is C('rng') and e.recv is not None:
            presets[e.recv] = e.args[1]
        if e.kind == 'setitem' and e.key is C('rng'):
            presets[e.recv] = e.value
        if e.kind != 'call':
            continue
        f = e.data['fn']
        mk = maker_of(f)
        if mk:
            ok = none_guard(e)
            why = 'makes a generator although one may have been supplied'
            if ok and (e.args or e.kw):
                ok = all(is_rng_term(a) or not a.is_const or a is NONE for a in list(e.args) + list(e.kw.values()))
                why = 'makes a default generator with a fixed seed'
            ck.ob('default', '%s:%s' % (e.fn, mk), ok, why, e.where)
            continue
        if e.recv is not None and is_rng_term(e.recv) and e.name:
            ck.ob('method', '%s:%s' % (e.fn, e.name), e.name in BOTH,
                  '%s() does not exist on both kinds of generator' % e.name, e.where)
        # global numpy functions reached through an alias
        if f.op == 'attr' and f.args[0].op == 'attr' and f.args[0].args[1] == 'random' and \
                f.args[0].args[0].op == 'global':
            ck.ob('global', '%s:%s' % (e.fn, f.args[1]), f.args[1] in MAKERS, 'uses the global numpy generator', e.where)
        # compiled code given a seed: anything drawn by .random() etc. reaching C++ is fine; a constant is not
        target = None
        nm = e.name
        if nm in takers and (e.recv is None):
            target = takers[nm]
        elif f.op == 'global' and f.args[0] in takers:
            target = takers[f.args[0]]
        elif e.recv is not None and nm in meth:
            target = meth[nm]
        elif f is SELF or f.op == 'param' and f.args[0] == 'cls' or f.op == 'attr' and f.args[1] == '__class__':
            target = takers.get('Corr2')
        if target is None or not source:
            continue
        fn, isM = target
        ps = params_of(fn)[0][1 if isM else 0:]
        v = e.kw.get('rng')
        if v is None and 'rng' in ps and ps.index('rng') < len(e.args):
            v = e.args[ps.index('rng')]
        if v is None and '**' in e.kw:
            v = presets.get(e.kw['**'])
        ok = v is not None and is_rng_term(v)
        if not ok and e.recv is not None and e.recv is not SELF and any(seeded(rep, l) for l in phi_leaves(e.recv)):
            ok = True       # the receiver was itself given the generator
        ck.ob('handed-on', '%s:%s' % (e.fn, nm or show(f)[:40]), ok,
              '%s is called without the generator that is at hand' % (nm or show(f)[:60]), e.where)
    # seeds handed to compiled code
    tab = table()
    for e in flow.events:
        if e.kind != 'call':
            continue
        b = tab.of_call(e)
        if b is None:
            continue
        for i, p in enumerate(b.params):
            if p.name != 'seed':
                continue
            if i >= len(e.args):
                raise AnalysisBroken('%s: the seed argument of %s is not found' % (e.where, b))
            a = e.args[i]
            bad = [l for l in phi_conds(a) if not seed_leaf_ok(*l)]
            ck.ob('seed', '%s:%s' % (e.fn, b.name if b.is_method else b.owner), not bad,
                  'the seed %s does not come from the supplied generator' % show(a)[:160], e.where)


def phi_conds(t, conds=()):
    if t.op == 'phi':
        return phi_conds(t.args[1], conds + ((t.args[0], True),)) + phi_conds(t.args[2], conds + ((t.args[0], False),))
    return [(t, conds)]


def seed_leaf_ok(l, conds):
    if l.op == 'param':
        return True     # judged where it is given
    if any(x.op == 'call' and x.args[0].op == 'attr' and is_rng_term(x.args[0].args[0]) for x in subterms(l)):
        return True
    if l is C(0):
        # "seed from the operating system": only when the user gave no generator
        for c, v in conds:
            for x in subterms(c):
                if x.op == 'cmp' and x.args[0] == 'is' and x.args[2] is NONE and is_rng_term(x.args[1]):
                    return v if c is x else (not v if c.op == 'not' else True)
    return False


def cxx(ck):
    srcs = load_sources()
    helper = {}
    for f in srcs.functions:
        names = {t for t in f.body_tokens()}
        direct = calls_in(f) & CXX_RANDOM
        if direct:
            helper[f.name] = direct
    # one helper family: functions using the C generator, all in one file, reachable only from one seeded function
    seeded = [f for f in srcs.functions if f.name in helper and any(p.name == 'seed' for p in f.params)]
    for name, d in sorted(helper.items()):
        fs = [f for f in srcs.functions if f.name == name]
        callers = {g.name for g in srcs.functions if name in calls_in(g) and g.name != name}
        ok = any(p.name == 'seed' for f in fs for p in f.params) or callers <= {g.name for g in seeded} and callers
        ck.ob('cxx', 'uses ' + name, bool(ok), '%s draws from %s outside the seeded helper' % (name, sorted(d)),
              fs[0].where)
    if not seeded:
        raise AnalysisBroken('no seeded random helper found in the C++ sources')
    # no draws in parallel: their order, hence the result of a seeded run, would depend on the thread schedule
    cg = callgraph()
    drawers = [f for f in srcs.functions if f.name in helper]
    # classes whose own methods draw (the pair sampler): their objects are processed with one thread only
    dcls = {f.cls for f in srcs.functions if f.cls and not f.static and called(f.body) & set(helper)}
    for f in srcs.functions:
        for text, line, stm in regions(f):
            if 'parallel' not in text:
                continue
            draws = cg.reach(stm, f, skip=dcls) & set(drawers)
            cond = re.search(r'\bif\s*\((.*)\)', text)
            ok = not draws or (cond is not None and re.search(r'!=\s*Random|Random\s*!=', cond.group(1)))
            ck.ob('schedule', 'parallel region of ' + f.qual, bool(ok),
                  'random numbers are drawn inside a parallel region, so seeded results depend on the schedule',
                  '%s line %d' % (f.where, line))
    for f in srcs.functions:
        made = [d[0] for n in walk(f.body) if n.k == 'decl' and base(n.a[0]) in dcls and not n.a[0].endswith(('&', '*'))
                for d in n.a[1]]
        for v in made:
            single = False
            bad = None
            for n in walk(f.body):
                if n.k != 'call':
                    continue
                if n.a[0].k == 'name' and base(n.a[0].a[0]) == 'SetOMPThreads' and len(n.a[1]) == 1:
                    single = src(n.a[1][0]) == '1'
                elif any(x.k == 'name' and x.a[0] == v for a in n.a[1] for x in walk(a)):
                    if any(regions(g) for g in cg.reach(n, f)) and not single:
                        bad = n
            ck.ob('schedule', 'object %s of %s' % (v, f.qual), bad is None,
                  'the drawing object is processed in parallel: %s' % (src(bad) if bad else ''), f.where)
    for f in srcs.functions:
        for i, p in enumerate(f.params):
            if p.name == 'seed':
                used = 'seed' in f.body_tokens() or 'seed' in f.init_tokens()
                ck.ob('cxx', 'seed of ' + f.qual, used, 'the seed is ignored', f.where)


def calls_in(f):
    toks = f.body_tokens()
    out = set()
    for i in range(len(toks) - 1):
        if toks[i + 1] == '(' and re.match(r'[A-Za-z_]\w*$', toks[i]) and (i == 0 or toks[i - 1] not in ('.', '->')):
            # skip declarations "T name(args)": name preceded by an identifier that is a type
            out.add(toks[i])
        if toks[i] in ('random_device', 'mt19937', 'mt19937_64', 'default_random_engine', 'minstd_rand'):
            out.add(toks[i])
    return out
