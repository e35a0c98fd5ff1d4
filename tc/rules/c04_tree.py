"""C04: tree traversal visits every combination of split cells exactly once.

Each traversal function is interpreted once (value numbering); the calls it makes are then tabulated
for every assignment of the conditions they depend on, and the multiset of visited combinations is
compared with the expansion of the split cells.  Loop nests over top-level cells are compared with the
set of all combinations.
"""
import itertools

from ..pyrepo import AnalysisBroken
from ..pyflow import T, C, show, phi_leaves, subterms
from ..cxx import load_sources
from ..cxxflow import (CFlow, THIS, holds, resolve, active, assignments, enum_values, atoms_of, TRUE)

PROP = 'C04'
STOP = ('process2', 'process3', 'process11', 'process12', 'process111', 'process111Sorted', 'directProcess11',
        'directProcess111', 'multipoleSplit1', 'multipoleFinish', 'calculateGn', 'calculateZeta', 'splitC2Cells',
        'splitC2CellsOrCalculateGn', 'finishProcess', 'samplePairs', 'sampleFrom', 'duplicate', 'addData', 'clear',
        'CalcSplit', 'CalcSplitSq', 'singleBin', 'isTriangleInRange', 'stop111', 'isRSqInRange', 'DistSq')
DISCARD = ('isRParOutsideRange', 'tooSmallS2', 'noAllowedAngles', 'stop111')


def fns(S, name, cls=None):
    return [f for f in S.functions if f.name == name and f.body is not None and (cls is None or f.cls == cls)]


def ccall(t, name=None):
    return t.op == 'ccall' and (name is None or t.args[0] == name)


def part(t):
    """(cell, 'L'/'R'/'') of a cell-valued term"""
    if ccall(t, 'getLeft'):
        return (t.args[1], 'L')
    if ccall(t, 'getRight'):
        return (t.args[1], 'R')
    return (t, '')


def cell_params(f):
    return [T('param', p.name) for p in f.params if 'Cell<' in p.type and 'vector' not in p.type]


def run(f, tenv=None):
    fl = CFlow(stop=STOP, tenv=tenv)
    fl.run(f)
    return fl


def tval(t, flow=None):
    return str(t).replace(' ', '')


# ------------------------------------------------------------------ discarding

def justified(asg, cells):
    """may everything below these cells be discarded (or left unaccumulated) under asg?"""
    small = {'bt': False, 'metric': False}
    large = {'bt': False, 'metric': False}
    sb = out = False
    for a, v in asg.items():
        if v and a.op == '==' and any(x.is_const and x.value == 0 for x in a.args):
            x = a.args[0] if a.args[1].is_const else a.args[1]
            if ccall(x, 'getW') and x.args[1] in cells:
                return True
        if a.op == '<':
            x, y = a.args
            h = T('field', THIS, '_halfminsep')
            if v and y is h and ccall(x, 'getSize') or not v and x is h and ccall(y, 'getSize'):
                return True
        if ccall(a):
            nm = a.args[0]
            if v and nm in DISCARD:
                return True
            who = 'metric' if a.args[1].op != 'none' else 'bt'
            if v and nm == 'tooSmallDist':
                small[who] = True
            if v and nm == 'tooLargeDist':
                large[who] = True
            if nm in ('isRSqInRange', 'isTriangleInRange') and not v:
                out = True
            if nm == 'singleBin' and v:
                sb = True
    return small, large, sb, out


def may_discard(asg, cells, both):
    j = justified(asg, cells)
    if j is True:
        return True
    small, large, sb, out = j
    if both:
        ok = (small['bt'] and small['metric']) or (large['bt'] and large['metric'])
    else:
        ok = small['bt'] or large['bt']
    return ok or (sb and out)


def flag_cells(f, fl, cells):
    """{flag term: cell} for boolean out-arguments of the splitting decision"""
    out = {}
    sizes = {}
    for e in fl.events:
        if e.kind != 'call' or e.name not in ('CalcSplit', 'CalcSplitSq', 'singleBin'):
            continue
        order = []
        for a in e.args:
            c = size_cell(a)
            if c is not None and c in cells and c not in order:
                order.append(c)
        cand = e.cands
        flags = []
        for i in range(len(e.args)):
            if any(i < len(g.params) and g.params[i].type.replace(' ', '') == 'bool&' for g in cand):
                flags.append(i)
        if not flags:
            continue
        if len(flags) != len(order):
            raise AnalysisBroken('%s: %d split flags for %d sizes' % (f.qual, len(flags), len(order)))
        out[id(e)] = (e, flags, order)
    return out


def size_cell(t):
    if ccall(t, 'getSize'):
        return t.args[1]
    if t.op == 'out' and ccall(t.args[0], 'DistSq'):
        a = t.args[0].args[2][t.args[1]]
        return size_cell(a)
    return None


def flag_map(f, fl, cells):
    out = {}
    for e, flags, order in flag_cells(f, fl, cells).values():
        for k, i in enumerate(flags):
            for a in subs_out(fl, e.name, i):
                out[a] = order[k]
    return out


def subs_out(fl, name, i):
    seen = set()
    for e in fl.events:
        for g, v in e.guards:
            for x in subterms(g):
                if x.op == 'out' and x.args[1] == i and ccall(x.args[0], name):
                    seen.add(x)
    return seen


# ------------------------------------------------------------------ recursion

SHAPE = {'process2': (0, 0), 'process3': (0, 0, 0), 'process11': (0, 1), 'process12': (0, 1, 1),
         'process111': (0, 1, 2), 'process111Sorted': (0, 1, 2)}


def combo(name, args, ordered):
    """the set of point combinations a call stands for"""
    ps = [part(a) for a in args]
    c = [ps[k] for k in SHAPE[name]]
    if ordered == 'all':
        return tuple(c)
    if ordered == 'first':
        return (c[0],) + tuple(sorted(c[1:], key=key))
    return tuple(sorted(c, key=key))


def key(p):
    return (show(p[0]), p[1])


def expand(roles, split, ordered):
    """all combinations when the cells in `split` are replaced by their parts; roles: cell per point"""
    choices = [[(c, 'L'), (c, 'R')] if c in split else [(c, '')] for c in roles]
    out = set()
    for ch in itertools.product(*choices):
        if ordered == 'all':
            out.add(tuple(ch))
        elif ordered == 'first':
            out.add((ch[0],) + tuple(sorted(ch[1:], key=key)))
        else:
            out.add(tuple(sorted(ch, key=key)))
    return out


def recursion(ck, S, cls, name, need_flag):
    for f in fns(S, name, cls):
        cells = cell_params(f)
        fl = run(f)
        ck.saw(f.qual)
        con = '%s' % f.qual.replace('<D1,D2>', '').replace('<D1,D2,D3>', '')
        npts = len(SHAPE[name])
        calls = [e for e in fl.events if e.kind == 'call' and e.name in SHAPE and len(SHAPE[e.name]) == npts]
        accs = [e for e in fl.events if e.kind == 'call' and e.name in ('directProcess11', 'directProcess111')]
        if not calls:
            raise AnalysisBroken('%s makes no recursive call' % f.qual)
        for e in calls + accs:
            if e.loops:
                raise AnalysisBroken('%s: call inside a loop' % e.where)
        roles = [cells[k] for k in SHAPE[name]]
        if name in ('process2', 'process3'):
            ordered = 'none'
        elif name in ('process11', 'process111Sorted'):
            ordered = 'all'
        else:
            ordered = 'first'
        flags = flag_map(f, fl, cells) if need_flag else {}
        if need_flag and set(flags.values()) != set(cells):
            raise AnalysisBroken('%s: splitting decision not found' % f.qual)
        both = name == 'process11'
        n = 0
        bad = {}
        for asg in assignments(calls + accs):
            ac = [e for e in calls if active(e, asg)]
            aa = [e for e in accs if active(e, asg)]
            n += 1
            if aa:
                if len(aa) > 1:
                    bad.setdefault('accumulate', (aa[1], 'accumulates the same cells twice'))
                if ac:
                    bad.setdefault('accumulate', (ac[0], 'accumulates the cells and visits their parts as well'))
                if [e for e in aa if [a for a in e.args[:len(cells)]] != cells]:
                    bad.setdefault('accumulate', (aa[0], 'accumulates other cells: %s' %
                                                  ', '.join(show(a) for a in aa[0].args[:len(cells)])))
                continue
            true = {flags[a] for a in flags if asg.get(a)}
            if need_flag and not ac and not true and not any(ccall(a, 'singleBin') and v for a, v in asg.items()):
                if flags and all(a in asg for a in flags):
                    continue        # the splitting decision always asks for at least one
            if not ac:
                if not may_discard(asg, cells, both):
                    bad.setdefault('discard', (calls[0], 'discards the cells when %s' % why(asg)))
                continue
            got = {}
            for e in ac:
                x = combo(e.name, e.args[:len(set(SHAPE[e.name]))], ordered)
                got.setdefault(x, []).append(e)
            split = {p[0] for x in got for p in x if p[1]}
            if true:
                split_want = true
            else:
                split_want = split
            if not split_want & set(cells):
                bad.setdefault('split', (ac[0], 'no cell is split'))
                continue
            want = expand(roles, split_want, ordered)
            for x, es in got.items():
                if x not in want:
                    bad.setdefault('extra', (es[0], 'visits %s, which is not a combination of the parts when %s' % (
                        txt(x), why(asg))))
                if len(es) > 1:
                    bad.setdefault('twice', (es[1], 'visits %s twice when %s' % (txt(x), why(asg))))
            for x in want:
                if x not in got:
                    bad.setdefault('missing', (ac[0], 'does not visit %s when %s' % (txt(x), why(asg))))
        for kind in ('accumulate', 'discard', 'split', 'extra', 'twice', 'missing'):
            b = bad.get(kind)
            ck.ob('visit', '%s %s' % (con, kind), b is None, b[1] if b else '', b[0].where if b else '')
        ck.ob('visit', '%s table' % con, n >= 1, '')
        # the calls hand on the same kind of traversal
        params = [p[1] for p in f.tparams]
        for e in calls:
            if e.name == name:
                own = [p for p in params[:len(e.targs)]]
                ok = [tval(x) for x in e.targs] == own or all(
                    tval(x) == p for x, p in zip(e.targs, [q for q in params if q not in (f.ctargs or [])]))
                ck.ob('kind', '%s -> %s(%s)' % (con, e.name, ','.join(show(a)[-30:] for a in e.args[:3])), ok,
                      'recursion changes the template arguments: <%s> instead of <%s>' % (
                          ','.join(tval(x) for x in e.targs), ','.join(params)), e.where)
            elif name == 'process12' and e.name == 'process111':
                ok = [tval(x) for x in e.targs[:2]] == ['B', 'O']
                ck.ob('kind', '%s -> process111(%s)' % (con, ','.join(show(a)[-30:] for a in e.args[:3])), ok,
                      'the role of the first cell is not handed on', e.where)
            elif name == 'process3':
                ok = [tval(x) for x in e.targs[:2]] == ['B', '0']
                ck.ob('kind', '%s -> %s(%s)' % (con, e.name, ','.join(show(a)[-30:] for a in e.args[:3])), ok,
                      'triples within one cell must be unordered', e.where)
            elif name == 'process2':
                ok = [tval(x) for x in e.targs[:4]] == ['B', 'M', 'P', 'BinTypeHelper<B>::do_reverse']
                ck.ob('kind', '%s -> %s' % (con, e.name), ok,
                      'pairs within one cell must be counted in both directions when the bins need it', e.where)
        # known distances that are handed on belong to cells that were not split
        if name == 'process111Sorted':
            for e in calls:
                ps = [part(a) for a in e.args[:3]]
                for k, (i, j) in enumerate(((1, 2), (0, 2), (0, 1))):
                    if len(e.args) <= 4 + k:
                        continue
                    d = e.args[4 + k]
                    zero = d.is_const and d.value == 0
                    own = d is T('param', f.params[4 + k].name)
                    ck.ob('distance', '%s (%s) d%dsq' % (con, txt(ps), k + 1),
                          zero or (own and not ps[i][1] and not ps[j][1]),
                          'the distance handed on is not that of the cells visited', e.where)


def why(asg):
    s = []
    for a, v in asg.items():
        if ccall(a):
            s.append('%s%s' % ('' if v else 'not ', a.args[0]))
        elif a.op == 'out':
            s.append('%sflag %s of %s' % ('' if v else 'not ', a.args[1], a.args[0].args[0]))
        else:
            s.append('%s%s' % ('' if v else 'not ', show(a)[:40]))
    return ' and '.join(s)[:300]


def txt(x):
    return '(%s)' % ', '.join('%s%s' % (show(p[0]), '.' + p[1] if p[1] else '') for p in x)


# ------------------------------------------------------------------ the dispatch on orderings

def consts(S, b):
    for c in S.classes:
        if c.name == 'BinTypeHelper' and c.targs and c.targs[0].strip() == b:
            return c.consts
    return {}


def dispatch(ck, S):
    f = fns(S, 'process111', 'BaseCorr3')
    if len(f) != 1:
        raise AnalysisBroken('process111 not found')
    f = f[0]
    bts = [c.targs[0].strip() for c in S.classes if c.name == 'BinTypeHelper' and c.targs and 'sort_d123' in c.consts]
    if len(bts) < 3:
        raise AnalysisBroken('three-point bin types not found')
    cells = cell_params(f)
    dpar = [T('param', p.name) for p in f.params[4:7]]
    for b in bts:
        cs = consts(S, b)
        sort, swap = bool(cs['sort_d123']), bool(cs['swap_23'])
        for O in (0, 1, 3):
            fl = run(f, tenv={'B': T('enum', b), 'O': C(O)})
            ck.saw(f.qual)
            calls = [e for e in fl.events if e.kind == 'call' and e.name == 'process111Sorted']
            con = 'process111<%s,%d>' % (b, O)
            if not calls:
                raise AnalysisBroken('%s visits nothing' % con)
            info = []
            bad = None
            for e in calls:
                pi = [cells.index(a) if a in cells else None for a in e.args[:3]]
                if None in pi or sorted(pi) != [0, 1, 2]:
                    bad = bad or (e, 'the three cells are not each passed once')
                    info.append(None)
                    continue
                for k in range(3):
                    d = e.args[4 + k]
                    w = dist_of(d, dpar, cells)
                    if w is None or w != pi[k]:
                        bad = bad or (e, 'side %d is not the distance opposite to the cell passed in place %d' % (k + 1, k + 1))
                o = e.targs[1] if len(e.targs) > 1 else None
                ov = O if o is not None and tval(o) == 'O' else int(tval(o)) if o is not None and tval(o).isdigit() else None
                info.append((tuple(pi), ov))
            ck.ob('permute', con, bad is None, bad[1] if bad else '', bad[0].where if bad else '')
            if bad:
                continue
            # tabulate the visits for every order of the three sides
            msg = None
            n = 0
            evs = [(e, i) for e, i in zip(calls, info)]
            ats = {}
            for e, i in evs:
                for g, v in e.guards:
                    atoms_of(g, ats)
            ws = [a for a in ats if a.op == '==' and ccall(a.args[0] if a.args[1].is_const else a.args[1], 'getW')]
            cmpa = [a for a in ats if a.op == '<']
            ccw = [a for a in ats if ccall(a, 'CCW')]
            oth = [a for a in ats if a not in ws and a not in cmpa and a not in ccw]
            for a in oth:
                # "is the distance known yet"
                if not (a.op == '==' and any(x in dpar for x in a.args)):
                    raise AnalysisBroken('%s: unknown condition %s' % (con, show(a)[:80]))
            orders = list(itertools.permutations((1., 2., 3.)))
            ties = [(1., 1., 2.), (1., 2., 1.), (2., 1., 1.), (2., 2., 1.), (2., 1., 2.), (1., 2., 2.), (1., 1., 1.)]
            for dv in orders + ties:
                for cw in (True, False):
                    asg = {a: False for a in ws}
                    asg.update({a: True for a in oth})
                    for a in cmpa:
                        x, y = [dist_of(t, dpar, cells) for t in a.args]
                        if x is None or y is None:
                            raise AnalysisBroken('%s: comparison of %s' % (con, show(a)[:100]))
                        asg[a] = dv[x] < dv[y]
                    for a in ccw:
                        asg[a] = orient(a, cells) is cw
                    act = [i for e, i in evs if active(e, asg)]
                    n += 1
                    m = expected(act, sort, swap, O, dv, cw, bool(ccw))
                    if m and not msg:
                        msg = '%s when the sides are %s%s' % (m, dv, (' counter-clockwise' if cw else ' clockwise') if ccw else '')
            ck.ob('order', con, msg is None, msg or '', calls[0].where)


def dist_of(t, dpar, cells):
    """which side (0,1,2) a distance term is, by the cells it is measured between"""
    ls = set()
    for l in phi_leaves(t):
        if l in dpar:
            ls.add(dpar.index(l))
        elif ccall(l, 'DistSq'):
            ps = [x.args[1] for x in l.args[2] if ccall(x, 'getPos')]
            idx = [cells.index(p) for p in ps if p in cells]
            if len(set(idx)) != 2:
                return None
            ls.add(({0, 1, 2} - set(idx)).pop())
        else:
            return None
    return ls.pop() if len(ls) == 1 else None


def parity(p):
    return sum(1 for i in range(3) for j in range(i) if p[j] > p[i]) % 2


def orient(a, cells):
    """the orientation of cells (0,1,2) that makes this CCW test true: True = CCW(0,2,1) holds"""
    idx = [cells.index(x.args[1]) for x in a.args[2] if ccall(x, 'getPos') and x.args[1] in cells]
    if sorted(idx) != [0, 1, 2]:
        raise AnalysisBroken('orientation test of %s' % show(a)[:80])
    # CCW(1,3,2) is the reference
    return parity(idx) == parity((0, 2, 1))


def expected(act, sort, swap, O, dv, cw, has_ccw):
    perms = [p for p, o in act]
    os_ = {o for p, o in act}
    if len(set(perms)) != len(perms):
        return 'the same order of cells is visited twice'
    if sort and O in (0, 1):
        if os_ != {O}:
            return 'cells are handed on with the wrong role'
        if len(perms) != 1:
            return '%d orders of the cells are visited instead of 1' % len(perms)
        p = perms[0]
        d = [dv[i] for i in p]
        if O == 0 and not d[0] >= d[1] >= d[2]:
            return 'the sides are not handed on in decreasing order'
        if O == 1 and (p[0] != 0 or not d[1] >= d[2]):
            return 'the second side handed on is not the larger one' if p[0] == 0 else 'the first cell is not first'
    elif swap and O in (0, 1):
        if os_ != {1}:
            return 'cells are handed on with the wrong role'
        want = {(0, 1, 2), (2, 0, 1), (1, 2, 0)} if cw else {(0, 2, 1), (1, 0, 2), (2, 1, 0)}
        if O == 1:
            want = {p for p in want if p[0] == 0}
        if set(perms) != want:
            return 'visits the orders %s' % sorted(perms)
    elif O in (0, 1):
        if os_ != {3}:
            return 'cells are handed on with the wrong role'
        want = set(itertools.permutations(range(3)))
        if O == 1:
            want = {p for p in want if p[0] == 0}
        if set(perms) != want:
            return 'visits the orders %s' % sorted(perms)
    else:
        if perms != [(0, 1, 2)] or os_ != {O}:
            return 'visits the orders %s' % sorted(perms)
    return None


# ------------------------------------------------------------------ top level loops

def count_of(t):
    """the field whose number of top-level cells this is"""
    if ccall(t, 'getNTopLevel'):
        return t.args[1]
    if ccall(t, 'size') and ccall(t.args[1], 'getCells'):
        return t.args[1].args[1]
    return None


def iterate(loops, env, N):
    """all values of the loop variables for N cells per field"""
    if not loops:
        yield dict(env)
        return
    L = loops[0]
    if L['kind'] == 'rfor':
        for i in range(N):
            env[L['var']] = i
            yield from iterate(loops[1:], env, N)
        return
    lo = value(L['lo'], env, N)
    i = lo
    step = 1
    if i is None:
        raise AnalysisBroken('loop start %s' % show(L['lo']))
    for i in range(lo, N + 2):
        env[L['var']] = i
        c = cond(L['cond'], env, N)
        if c is None:
            raise AnalysisBroken('loop condition %s' % show(L['cond']))
        if not c:
            break
        yield from iterate(loops[1:], env, N)
    env.pop(L['var'], None)


def value(t, env, N):
    if t is None:
        return None
    if t in env:
        return env[t]
    if t.is_const and isinstance(t.value, int):
        return t.value
    if count_of(t) is not None:
        return N
    if t.op == 'bin':
        a, b = value(t.args[1], env, N), value(t.args[2], env, N)
        if a is None or b is None:
            return None
        return a + b if t.args[0] == '+' else a - b if t.args[0] == '-' else a * b if t.args[0] == '*' else None
    return None


def cond(t, env, N):
    if t.op == 'not':
        v = cond(t.args[0], env, N)
        return None if v is None else not v
    if t.op == '<' or t.op == '==':
        a, b = value(t.args[0], env, N), value(t.args[1], env, N)
        if a is None or b is None:
            return None
        return a < b if t.op == '<' else a == b
    return None


def cell_at(t, env, N):
    """(field, index)"""
    if t.op == 'idx' and ccall(t.args[0], 'getCells'):
        i = value(t.args[1], env, N)
        if i is None:
            return None
        return (t.args[0].args[1], i)
    if t.op == 'elem' and ccall(t.args[0], 'getCells') and t in env:
        return (t.args[0].args[1], env[t])
    return None


def toplevel(ck, S, cls, name, calls_named, shape_of):
    out = 0
    for f in fns(S, name, cls):
        fields = [T('param', p.name) for p in f.params if 'Field<' in p.type]
        if not fields:
            continue
        fl = run(f)
        ck.saw(f.qual)
        calls = [e for e in fl.events if e.kind == 'call' and e.name in calls_named]
        con = '%s(%d fields)' % (f.qual, len(fields))
        if not calls:
            raise AnalysisBroken('%s visits no cells' % con)
        out += 1
        N = 5
        got = {}
        msg = None
        nf = len(fields)
        for e in calls:
            for env in iterate(list(e.loops), {}, N):
                skip = False
                for g, v in e.guards:
                    if not any(x in env for x in subterms(g)):
                        continue
                    c = cond(g, env, N)
                    if c is None and may_discard({g: not v}, list(e.args), False):
                        continue        # nothing to be found in these cells
                    if c is None and any(x in e.args for x in subterms(g)):
                        msg = msg or (e, 'the cells are skipped unless %s' % why({g: v}))
                        continue
                    if c is None:
                        raise AnalysisBroken('%s: visit depends on %s' % (e.where, show(g)[:80]))
                    if c is not v:
                        skip = True
                if skip:
                    continue
                cs = [cell_at(a, env, N) for a in e.args[:len(set(SHAPE[e.name])) if e.name in SHAPE else 1]]
                if None in cs:
                    raise AnalysisBroken('%s: cells %s' % (e.where, ', '.join(show(a)[:60] for a in e.args[:3])))
                pts = [cs[k] for k in SHAPE[e.name]] if e.name in SHAPE else cs
                for (fi, i) in pts:
                    if not 0 <= i < N:
                        msg = msg or (e, 'visits cell %d of %d' % (i, N))
                x = canon(pts, fields)
                got.setdefault(x, []).append(e)
        npts = len(SHAPE[calls[0].name]) if calls[0].name in SHAPE else 1
        if npts == 1:
            want = {((fields[0], i),) for i in range(N)}
        else:
            roles = {1: [0] * npts, 2: [0] + [1] * (npts - 1), 3: [0, 1, 2]}[nf]
            want = {canon([(fields[r], i) for r, i in zip(roles, ix)], fields)
                    for ix in itertools.product(range(N), repeat=npts)}
        for x, es in got.items():
            if len(es) > 1:
                msg = msg or (es[1], 'visits the cells %s %d times' % (idxs(x), len(es)))
            if x not in want:
                msg = msg or (es[0], 'visits the cells %s' % idxs(x))
        for x in want:
            if x not in got:
                msg = msg or (calls[0], 'never visits the cells %s' % idxs(x))
        ck.ob('toplevel', con, msg is None, msg[1] if msg else '', msg[0].where if msg else '')
        # the order of the roles
        for e in calls:
            if e.name in ('process12', 'process111', 'process11') and len(e.targs) > 1:
                t = tval(e.targs[-1] if e.name == 'process11' else e.targs[1])
                if e.name == 'process11':
                    ok = t == ('BinTypeHelper<B>::do_reverse' if nf == 1 else 'false')
                else:
                    ok = t == ('0' if nf == 1 else 'O')
                ck.ob('kind', '%s -> %s' % (con, e.name), ok, 'visited with the order argument %s' % t, e.where)
    return out


def canon(pts, fields):
    if len(fields) == 1:
        return tuple(sorted(pts, key=lambda p: (show(p[0]), p[1])))
    if len(fields) == 2 and len(pts) == 3:
        return (pts[0],) + tuple(sorted(pts[1:], key=lambda p: (show(p[0]), p[1])))
    return tuple(pts)


def idxs(x):
    return ', '.join('%s[%d]' % (show(f), i) for f, i in x)


# ------------------------------------------------------------------ multipole lists

def lists(ck, S):
    for name in ('splitC2Cells', 'splitC2CellsOrCalculateGn'):
        for f in fns(S, name):
            fl = run(f)
            ck.saw(f.qual)
            vec = [T('param', p.name) for p in f.params if 'vector' in p.type]
            if len(vec) != 2:
                raise AnalysisBroken('%s: lists not found' % f.qual)
            src, dst = vec
            ev = [e for e in fl.events if e.loops and (
                (e.kind == 'call' and e.name in ('push_back', 'emplace_back') and e.recv is dst) or
                (e.kind == 'call' and e.name == 'calculateGn'))]
            con = f.qual
            msg = None
            n = 0
            for e in ev:
                if len(e.loops) != 1 or e.loops[0].get('seq') is not src and not over(e.loops[0], src):
                    raise AnalysisBroken('%s: not a loop over the list' % e.where)
            if len(ev) < 1:
                raise AnalysisBroken('%s: nothing is handed on' % con)
            for asg in assignments(ev):
                n += 1
                act = [e for e in ev if active(e, asg)]
                el = elem(ev[0].loops[0], src)
                kinds = []
                for e in act:
                    if e.name == 'calculateGn':
                        kinds.append('acc' if e.args[1] is el else 'other')
                    else:
                        p = part(e.args[0])
                        kinds.append(p[1] or 'self' if p[0] is el else 'other')
                kinds.sort()
                if kinds in (['acc'], ['self'], ['L', 'R']):
                    continue
                if not kinds and may_discard(asg, [el], True):
                    continue
                msg = msg or (act[0] if act else ev[0],
                              'a cell of the list is %s when %s' % (
                                  ' and '.join({'acc': 'accumulated', 'self': 'kept', 'L': 'replaced by its left part',
                                                'R': 'replaced by its right part', 'other': 'replaced by another'}[k]
                                               for k in kinds) or 'dropped', why(asg)))
            ck.ob('list', con, msg is None, msg[1] if msg else '', msg[0].where if msg else '')


def over(L, src):
    return L['kind'] != 'rfor' and L['lo'] is C(0) and L['cond'].op == '<' and L['cond'].args[0] is L['var'] and \
        ccall(L['cond'].args[1], 'size') and L['cond'].args[1].args[1] is src


def elem(L, src):
    return L['var'] if L['kind'] == 'rfor' else T('idx', src, L['var'])


def multipole(ck, S):
    for name in ('multipoleSplit1', 'multipoleFinish'):
        fs = fns(S, name)
        if len(fs) < 2:
            raise AnalysisBroken('%s not found' % name)
        for f in fs:
            fl = run(f)
            ck.saw(f.qual)
            c1 = cell_params(f)[0]
            vec = [T('param', p.name) for p in f.params if 'vector' in p.type]
            scr = [T('param', p.name) for p in f.params if 'Scratch' in p.type]
            nl = len(vec)
            con = '%s(%d lists)' % (f.qual, nl)
            rec = [e for e in fl.events if e.kind == 'call' and e.name == name]
            fin = [e for e in fl.events if e.kind == 'call' and e.name == 'multipoleFinish' and name != e.name]
            zeta = [e for e in fl.events if e.kind == 'call' and e.name == 'calculateZeta']
            clr = [e for e in fl.events if e.kind == 'call' and e.name == 'clear' and own([e.recv], scr)]
            split = [e for e in fl.events if e.kind == 'call' and e.name.startswith('splitC2Cells')]
            # each list is pruned once, into its own new list, with its own scratch
            got = {}
            for e in split:
                ci = [i for i, a in enumerate(e.args) if a in vec]
                if len(ci) != 1 or e.args[0] is not c1:
                    ck.ob('multipole', con + ' pruning', False, 'the list is not pruned for the current cell', e.where)
                    continue
                new = e.args[3]
                got.setdefault(e.args[ci[0]], []).append((new, own(e.args, scr)))
            new = []
            for k, v in enumerate(vec):
                g = got.get(v, [])
                ok = len(g) == 1
                ck.ob('multipole', '%s %s' % (con, show(v)), ok, 'the list is pruned %d times' % len(g),
                      split[0].where if split else '')
                if ok:
                    new.append(g[0][0])
                    if g[0][1]:
                        ck.ob('multipole', '%s %s scratch' % (con, show(v)), g[0][1] == [scr[k]],
                              'accumulates into the scratch of another list', split[0].where)
            if len(new) != len(vec) or len(set(new)) != len(new):
                ck.ob('multipole', con + ' lists', False, 'the pruned lists are not kept apart', '')
                continue
            pos = {p.name: i for i, p in enumerate(f.params)}
            base = {}
            msg = None
            cnt = 0
            allv = rec + fin + zeta + clr
            for asg in assignments(allv):
                r = [e for e in rec if active(e, asg)]
                fi = [e for e in fin if active(e, asg)]
                z = [e for e in zeta if active(e, asg)]
                c = [e for e in clr if active(e, asg)]
                cnt += 1
                for e in r:
                    la = [e.args[pos[show(v)]] for v in vec]
                    if not same_lists(la, new):
                        msg = msg or (e, 'goes on with the lists %s' % ', '.join(show(x)[:40] for x in la))
                ps = sorted(part(e.args[0])[1] for e in r if part(e.args[0])[0] is c1)
                if len(ps) != len(r):
                    msg = msg or (r[0], 'goes on with another cell')
                    continue
                if name == 'multipoleSplit1':
                    if r and (fi or ps != ['L', 'R']):
                        msg = msg or (r[0], 'visits the parts %s of the cell' % ps)
                    if not r:
                        if len(fi) != 1 or fi[0].args[0] is not c1:
                            msg = msg or ((fi + allv)[0], 'the cell is finished %d times' % len(fi))
                        elif {own([e.recv], scr)[0] for e in c} != set(scr) or any(order(fl, e) > order(fl, fi[0]) for e in c):
                            msg = msg or (fi[0], 'scratch arrays are not cleared before use')
                        else:
                            la = [fi[0].args[i] for i in range(1, 1 + nl)]
                            if not same_lists(la, new):
                                msg = msg or (fi[0], 'goes on with the lists %s' % ', '.join(show(x)[:40] for x in la))
                            sc = own(fi[0].args, scr)
                            if sc != scr:
                                msg = msg or (fi[0], 'scratch arrays are exchanged')
                            mk = [a for a in fi[0].args if a is T('field', THIS, '_nbins')]
                            if not mk:
                                msg = msg or (fi[0], 'does not start from the last bin')
                else:
                    mk = [i for i, p in enumerate(f.params) if 'mink' in p.name]
                    if len(mk) != 1:
                        raise AnalysisBroken('%s: lowest finished bin' % con)
                    mk = mk[0]
                    pm = T('param', f.params[mk].name)
                    cur = pm
                    for e in sorted(z, key=lambda e: order(fl, e)):
                        lo, hi = resolve(e.args[-2], asg), resolve(e.args[-1], asg)
                        if e.args[0] is not c1:
                            msg = msg or (e, 'finishes another cell')
                        if hi is not cur:
                            msg = msg or (e, 'finishes the bins up to %s, not those up to %s' % (show(hi)[:50], show(cur)[:50]))
                        cur = lo
                        if own(e.args, scr) != scr:
                            msg = msg or (e, 'uses other scratch arrays')
                    if r:
                        if ps not in (['L', 'R'], ['']):
                            msg = msg or (r[0], 'visits the parts %s of the cell' % ps)
                        for e in r:
                            if resolve(e.args[mk], asg) is not cur:
                                msg = msg or (e, 'goes on from bin %s instead of %s' % (show(e.args[mk])[:60], show(cur)[:60]))
                        # separate scratch for each part
                        ss = []
                        for e in sorted(r, key=lambda e: order(fl, e)):
                            sc = [e.args[pos[show(s)]] for s in scr]
                            for k, x in enumerate(sc):
                                if not (own([x], scr) == [scr[k]] or (ccall(strip_ptr(x), 'duplicate') and
                                                                      own([strip_ptr(x).args[1]], scr) == [scr[k]])):
                                    msg = msg or (e, 'passes other scratch arrays')
                            ss += [(own([x], scr) or [x])[0] for x in sc]
                        if len(set(ss)) != len(ss):
                            msg = msg or (r[0], 'both parts accumulate into the same scratch array')
                        for x in ss:
                            if ccall(strip_ptr(x), 'duplicate'):
                                k = [e for e in fl.events if e.kind == 'call' and e.name == 'duplicate' and
                                     e.recv is strip_ptr(x).args[1] and active(e, asg)]
                                if not k or order(fl, k[0]) > min(order(fl, e) for e in r):
                                    msg = msg or (r[0], 'scratch arrays are copied after they were changed')
                    elif not (cur.is_const and cur.value == 0):
                        msg = msg or ((z or allv)[0], 'bins below %s are never finished' % show(cur)[:50])
            ck.ob('multipole', con, msg is None, msg[1] if msg else '', msg[0].where if msg else '')


def own(args, scr):
    return [r for r in (root(a) for a in args) if r in scr]


def strip_ptr(t):
    while ccall(t, 'get') or t.op == 'new' and len(t.args[1]) == 1:
        t = t.args[1] if ccall(t) else t.args[1][0]
    return t


def same_lists(got, new):
    return list(got) == list(new) or all(
        g is n or (g.op == 'out' and n.op == 'undef') or show(root(g)) == show(root(n)) for g, n in zip(got, new))


def root(t):
    """the variable an object passed on by reference started as"""
    while True:
        if t.op == 'out':
            t = t.args[0].args[2][t.args[1]]
        elif t.op == 'phi':
            r = {root(x) for x in phi_leaves(t)}
            return r.pop() if len(r) == 1 else t
        else:
            return t


def order(fl, e):
    return fl.events.index(e)


def check(ck):
    S = load_sources()
    ck.rule('visit', 'the recursive calls made under each condition are exactly the combinations of the parts', 30)
    ck.rule('kind', 'recursive calls keep the bin type, metric and role of the cells', 30)
    ck.rule('distance', 'a known distance is handed on only with the two cells it belongs to', 10)
    ck.rule('permute', 'cells and opposite sides are permuted together', 9)
    ck.rule('order', 'for each order and orientation of the sides exactly the required orders of cells are visited', 9)
    ck.rule('toplevel', 'the loops over top-level cells visit every combination once', 8)
    ck.rule('list', 'each cell of a list is dropped for a reason, accumulated, kept, or replaced by both parts', 2)
    ck.rule('multipole', 'the multipole recursion visits both parts with their own scratch arrays and finishes '
                         'every bin once', 12)
    recursion(ck, S, 'BaseCorr2', 'process2', False)
    recursion(ck, S, 'BaseCorr2', 'process11', True)
    recursion(ck, S, 'BaseCorr3', 'process3', False)
    recursion(ck, S, 'BaseCorr3', 'process12', False)
    recursion(ck, S, 'BaseCorr3', 'process111Sorted', True)
    dispatch(ck, S)
    n = toplevel(ck, S, 'BaseCorr2', 'process', ('process2', 'process11'), None)
    n += toplevel(ck, S, 'BaseCorr3', 'process', ('process3', 'process12', 'process111'), None)
    n += toplevel(ck, S, 'BaseCorr3', 'multipole', ('multipoleSplit1',), None)
    lists(ck, S)
    multipole(ck, S)
