"""C10: the columns of a catalog stay aligned row by row.

The row columns are the constructor parameters that can also be read from a file.  Each operation that fills,
trims, splits or joins them is reduced by abstract interpretation to one term per column; each term must take
its rows from its own column only, with the one selection used for all of them.
"""
import ast
import copy
import re

from ..common import *
from ..pyrepo import AnalysisBroken
from .c12_copy import cls_props, self_attr
from .c25_cache import strip_enter

PROP = 'C10'
INTS = ('patch', 'flag')


def fn_of(cls, name):
    dc, fn = cls.method(name)
    return fn[0] if isinstance(fn, (list, tuple)) else fn


def row_columns(cat):
    fn = fn_of(cat, '__init__')
    params = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
    keys = set()
    for c in cat.mro:
        node = c.attrs.get('_valid_params')
        if isinstance(node, ast.Dict):
            keys |= {k.value for k in node.keys if isinstance(k, ast.Constant)}
    out = [p for p in params if p + '_col' in keys]
    if len(out) < 15:
        raise AnalysisBroken('only %d columns found' % len(out))
    return out


def own(c):
    return (T('attr', SELF, '_' + c), T('attr', SELF, c))


def col_of(t, cols):
    if t.op == 'attr' and t.args[0] is SELF:
        n = t.args[1]
        n = n[1:] if n.startswith('_') else n
        if n in cols:
            return n
    return None


def picks(t, cols):
    """[(column, selection)] for the non-None cases of a term choosing rows, None where it is something else"""
    out = []
    for leaf in phi_leaves(t):
        leaf = strip_enter(leaf)
        if leaf is NONE:
            continue
        if leaf.op == 'idx' and col_of(leaf.args[0], cols):
            out.append((col_of(leaf.args[0], cols), leaf.args[1]))
        elif leaf.op == 'idx' and leaf.args[0].op in ('phi', 'idx', 'enter'):
            # rows of what was chosen before
            inner = picks(leaf.args[0], cols)
            if inner is None:
                return None
            out += [(c, leaf.args[1] if s is None else T('tuple', (s, leaf.args[1]))) for c, s in inner]
        elif leaf.op == 'call' and leaf.args[0].op == 'attr' and leaf.args[0].args[1] in ('take', 'compress') and \
                col_of(leaf.args[0].args[0], cols) and leaf.args[1]:
            out.append((col_of(leaf.args[0].args[0], cols), leaf.args[1][0]))
        elif col_of(leaf, cols):
            out.append((col_of(leaf, cols), None))
        else:
            return None
    return out


def conds(t):
    """the conditions of the case distinctions at the top of t"""
    if t.op == 'phi':
        return [t.args[0]] + conds(t.args[1]) + conds(t.args[2])
    return []


def uniform(ck, rule, op, where, terms, cols, need, extra=()):
    """each column in need: own rows, selected as the others are"""
    sels = {}
    und = []
    for c in need:
        t = terms.get(c)
        if t is None:
            ck.ob(rule, '%s %s' % (op, c), False, '%s is not trimmed with the other columns' % c, where)
            continue
        p = picks(t, cols)
        if p is None:
            und.append(c)
            continue
        if not p:
            # always absent
            ck.ob(rule, '%s %s' % (op, c), False, '%s is dropped' % c, where)
            continue
        ck.ob(rule, '%s %s' % (op, c), {x for x, s in p} == {c}, '%s takes the values of %s' %
              (c, '/'.join(sorted({x for x, s in p} - {c}))), where)
        asked = {col_of(x, cols) for g in conds(t) for x in subterms(g)} - {None, c} - set(extra)
        if c != 'w' and any(x.op == 'attr' and x.args[0] is SELF and x.args[1].lstrip('_') == 'nontrivial_w'
                            for g in conds(t) for x in subterms(g)):
            asked.add('w')
        ck.ob(rule, '%s %s presence' % (op, c), not asked, 'whether %s is kept depends on the presence of %s' %
              (c, '/'.join(sorted(asked))), where)
        for x, s in p:
            sels.setdefault(s, []).append(c)
    for c in und:
        ck.ob(rule, '%s %s (undecided)' % (op, c), True)
    if sels:
        best = max(sels, key=lambda s: len(sels[s]))
        for s, cs in sels.items():
            for c in sorted(set(cs)):
                ck.ob(rule, '%s %s rows' % (op, c), s is best, '%s has the rows %s, the others %s' %
                      (c, 'unchanged' if s is None else show(s)[:80], 'unchanged' if best is None else show(best)[:80]), where)
        return best
    return None


def stores(fl, obj=SELF):
    """last value stored per attribute, following the events"""
    out = {}
    for e in fl.events:
        if e.kind == 'store' and e.obj is obj:
            out[e.attr] = e.value
    return out


def check_trim(ck, rep, cat, cols, P):
    n = 0
    for m in ('select', '_select_patch'):
        if cat.method(m)[1] is None:
            continue
        fl = Flow(rep, maxdepth=4, prop_opaque=P, opaque={'load', 'clear_cache', '_get_patch_index'})
        fl.run_method(cat, m)
        ck.saw_flow(fl)
        terms = {}
        dropped = set()
        for e in fl.events:
            if e.kind == 'store' and e.obj is SELF and e.attr[1:] in cols and e.attr[0] == '_':
                if e.value is NONE:
                    dropped.add(e.attr[1:])
                    continue
                terms[e.attr[1:]] = e.value
        if len(terms) < 10:
            ck.ob('trim', m + ' (undecided)', True)
            continue
        n += 1
        uniform(ck, 'trim', m, 'Catalog.' + m, terms, cols, [c for c in cols if c in terms or not (c == 'patch' and c in dropped)])


def ctor_kw(e, key):
    """the argument key of a construction, also through ** of a dict built here; None: not given, False: unknown"""
    if key in e.kw:
        return e.kw[key]
    for k in ('**', None):
        if k in e.kw:
            return lookup(e.kw[k], key)
    return None


def lookup(t, key):
    t = strip_enter(t)
    if t.op == 'phi':
        a, b = lookup(t.args[1], key), lookup(t.args[2], key)
        if a is False or b is False:
            return False
        if a is b:
            return a
        return T('phi', t.args[0], a if a is not None else NONE, b if b is not None else NONE)
    if t.op == 'upd':
        if not t.args[1].is_const:
            return False
        if t.args[1].value == key:
            return t.args[3]
        return lookup(t.args[0], key)
    if t.op == 'dict' and isinstance(t.args[0], tuple):
        for kv in t.args[0]:
            if kv[0].is_const and kv[0].value == key:
                return kv[1]
        return None
    if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'dict':
        for k, v in t.args[2]:
            if k == key:
                return v
        return None
    return False


def check_split(ck, rep, cat, cols, P):
    fl = Flow(rep, maxdepth=3, prop_opaque=P, opaque={'load', 'write_patches', 'read_patches', 'clear_cache'})
    fl.run_method(cat, 'get_patches')
    ck.saw_flow(fl)
    where = 'Catalog.get_patches'
    done = False
    for e in fl.events:
        if e.kind != 'call' or e.name != 'Catalog' or e.recv is not None:
            continue
        terms = {}
        for c in cols:
            v = ctor_kw(e, c)
            if v is not None and v is not False:
                terms[c] = v
        pv = terms.pop('patch', None)
        if len(terms) < 10:
            continue
        done = True
        sel = uniform(ck, 'split', 'get_patches', where, terms, cols,
                      [c for c in cols if c not in INTS], extra=())
        if sel is not None and pv is not None:
            # the number given to the piece is the one its rows were chosen by
            ck.ob('split', 'get_patches patch', pv in set(subterms(sel)),
                  'the piece is numbered %s but its rows are %s' % (show(pv)[:60], show(sel)[:80]), where)
            ck.ob('split', 'get_patches chosen', any(col_of(x, cols) == 'patch' for x in subterms(sel)),
                  'the rows of a patch are not chosen by the patch numbers', where)
    if not done:
        ck.ob('split', 'get_patches (undecided)', True)


class Swap:
    """cat.methods[name] replaced for the time of a block"""

    def __init__(self, cls, name, node):
        self.cls, self.name, self.node = cls, name, node

    def __enter__(self):
        self.tab = self.cls.method(self.name)[0].methods
        self.old = self.tab[self.name]
        self.tab[self.name] = type(self.old)([self.node]) if isinstance(self.old, (list, tuple)) else self.node

    def __exit__(self, *a):
        self.tab[self.name] = self.old


def column_lists(fn, cols):
    return [x for x in ast.walk(fn) if isinstance(x, (ast.List, ast.Tuple)) and len(x.elts) > 5 and
            all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in x.elts) and
            sum(e.value in cols for e in x.elts) > 5]


def check_join(ck, rep, cat, cols, P):
    fn = fn_of(cat, 'combine')
    where = 'Catalog.combine'
    lists = column_lists(fn, cols)
    need = [c for c in cols if c not in INTS]
    if not lists:
        ck.ob('join', 'combine (undecided)', True)
        return
    for lst in lists:
        names = {e.value for e in lst.elts}
        for c in need:
            ck.ob('join', 'combine %s listed' % c, c in names, '%s is not carried over' % c, where)
    params = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
    CATS = T('param', params[1] if params[0] in ('cls', 'self') else params[0])
    masks = [p for p in params if 'mask' in p]
    for c in need:
        node = copy.deepcopy(fn)
        for x in column_lists(node, cols):
            x.elts = [ast.Constant(c)]
        with Swap(cat, 'combine', node):
            fl = Flow(rep, maxdepth=3, prop_opaque=P, opaque={'load', 'unload', 'clear_cache'})
            fl.run_method(cat, 'combine')
        ck.saw_flow(fl)
        n = 0
        seen = set()
        for e in fl.events:
            vals = []
            if e.kind == 'setitem' and e.key.is_const and e.key.value == c and e.op == '=':
                vals.append(e.value)
            elif e.kind == 'call' and e.name in ('append', 'extend', 'insert') and e.args:
                vals.append(e.args[-1])
            for v in vals:
                if v in seen:
                    continue
                seen.add(v)
                n += join_value(ck, v, c, cols, CATS, [T('param', m) for m in masks], where)
        if not n:
            ck.ob('join', 'combine %s (undecided)' % c, True)


def reads_col(t, CATS):
    """(column name or None, catalog) if t reads a column of one of the catalogs"""
    if t.op == 'attr' and CATS in set(subterms(t.args[0])):
        return t.args[1], t.args[0]
    if t.op == 'call' and t.args[0].op == 'global' and t.args[0].args[0] == 'getattr' and len(t.args[1]) >= 2 and \
            CATS in set(subterms(t.args[1][0])):
        k = t.args[1][1]
        return (k.value if k.is_const else None), t.args[1][0]
    return None


def position(cat, CATS):
    """the term for the position of the catalog in the list"""
    if cat.op == 'idx' and cat.args[0] is CATS:
        return cat.args[1]
    if cat.op == 'idx' and cat.args[0].op == 'elem' and cat.args[1].is_const and cat.args[1].value == 1:
        it = cat.args[0].args[1]
        if it.op == 'call' and it.args[0].op == 'global' and it.args[0].args[0] == 'enumerate':
            start = it.args[1][1] if len(it.args[1]) > 1 else dict(it.args[2]).get('start', C(0)) if it.args[2] else C(0)
            over, first = it.args[1][0], 0
            if over.op == 'idx' and over.args[1].op == 'slice' and over.args[0] is CATS:
                sl = over.args[1].args
                if not sl[0].is_const or len(sl) > 2 and sl[2] is not NONE:
                    return None
                over, first = CATS, sl[0].value or 0
            if over is CATS and start.is_const:
                n = T('idx', cat.args[0], C(0))
                return n if start.value == first else T('bin', '+', n, C(first - start.value))
    return None


def same_pos(p, q):
    return p is q or linear(p) == linear(q)


def linear(t):
    """{atom: coefficient} of a sum"""
    if t.is_const and isinstance(t.value, int):
        return {None: t.value} if t.value else {}
    if t.op in ('+', '-', 'bin'):
        op = t.op if t.op != 'bin' else t.args[0]
        args = [x for x in t.args if isinstance(x, T)]
        if op in ('+', '-') and len(args) == 2:
            out = dict(linear(args[0]))
            for k, v in linear(args[1]).items():
                out[k] = out.get(k, 0) + (v if op == '+' else -v)
            return {k: v for k, v in out.items() if v}
    return {t: 1}


def join_value(ck, v, c, cols, CATS, MASKS, where):
    n = 0
    todo = [v]
    while todo:
        t = todo.pop()
        if t.op in ('list', 'tuple') and isinstance(t.args[0], tuple):
            todo += t.args[0]
            continue
        if t.op == 'phi':
            about = [x for x in subterms(t.args[0]) if x in MASKS]
            if about and t.args[0].op == 'cmp' or t.args[0].op == 'not':
                pass
            todo += [t.args[1], t.args[2]]
            # with masks every catalog is masked
            if about:
                bare = [x for x in (t.args[1], t.args[2]) if reads_col(x, CATS)]
                cut = [x for x in (t.args[1], t.args[2]) if x.op == 'idx' and reads_col(x.args[0], CATS)]
                ck.ob('join', 'combine %s masked' % c, len(cut) == 1 and len(bare) == 1,
                      'the mask is not applied to %s' % c, where)
            continue
        col = reads_col(t, CATS)
        if col:
            n += 1
            ck.ob('join', 'combine %s from' % c, col[0] in (c, '_' + c, None), '%s is joined with the values of %s' %
                  (c, col[0]), where)
            continue
        if t.op == 'idx' and reads_col(t.args[0], CATS):
            n += 1
            name, cat = reads_col(t.args[0], CATS)
            ck.ob('join', 'combine %s from' % c, name in (c, '_' + c, None), '%s is joined with the values of %s' %
                  (c, name), where)
            m = t.args[1]
            if m.op == 'idx' and m.args[0] in MASKS:
                p = position(cat, CATS)
                if p is not None:
                    ck.ob('join', 'combine %s mask' % c, same_pos(p, m.args[1]),
                          'catalog %s is cut with the mask of catalog %s' % (show(p)[:40], show(m.args[1])[:40]), where)
    return n


def check_take(ck, rep, cat, cols, P):
    """the arrays given to the constructor"""
    fl = Flow(rep, maxdepth=4, prop_opaque=P, opaque={'load', '_finish_input', '_select_patch', '_check_file', 'merge_config',
              'get_from_list', 'get', 'read_patch_centers', '_set_npatch', 'setup_logger', '_pandas_warning', '_apply_xyz_units',
              '_apply_radec_units'})
    fl.run_method(cat, '__init__')
    ck.saw_flow(fl)
    where = 'Catalog.__init__'
    sels, first = {}, {}
    for e in fl.events:
        if e.kind == 'store' and e.obj is SELF and e.attr[:1] == '_' and e.attr[1:] in cols and e.value is not NONE:
            c = e.attr[1:]
            ps = {x.args[0] for x in subterms(e.value) if x.op == 'param' and x is not SELF and x.args[0] in cols}
            if c not in first and ps:
                first[c] = (e.value, ps)
    for c in cols:
        if c not in first:
            ck.ob('take', c, False, 'the array given for %s is not kept' % c, where)
            continue
        v, ps = first[c]
        ck.ob('take', c, ps == {c}, '%s is filled from the argument %s' % (c, '/'.join(sorted(ps))), where)
        for x in subterms(v):
            if x.op == 'idx' and x.args[1].op == 'slice':
                sels.setdefault(x.args[1], set()).add(c)
    if sels:
        best = max(sels, key=lambda s: len(sels[s]))
        for s, cs in sels.items():
            for c in sorted(cs):
                ck.ob('take', c + ' rows', s is best, 'the rows taken of %s are %s, of the others %s' %
                      (c, show(s)[:80], show(best)[:80]), where)
        for c in cols:
            if c in first:
                ck.ob('take', c + ' range', c in sels[best], 'the range of rows asked for is not applied to %s' % c, where)
    # equal lengths
    ref = {'x', 'ra'}
    have = set()
    for e in fl.events:
        if e.kind != 'raise' or not e.guards:
            continue
        g = e.guards[-1][0]
        lens = {x for x in subterms(g) if x.op == 'call' and x.args[0].op == 'global' and x.args[0].args[0] == 'len'}
        ps = {x.args[0] for l in lens for x in subterms(l) if x.op == 'param' and x.args[0] in cols}
        if ps - ref and ps & ref:
            have |= ps - ref
        # a loop over the columns: the columns it runs over
        for x in subterms(g):
            if x.op == 'elem':
                have |= {y.args[0] for y in subterms(x.args[1]) if y.op == 'param' and y.args[0] in cols}
                have |= {y.args[1][1:] for y in subterms(x.args[1]) if y.op == 'attr' and y.args[0] is SELF}
                have |= {y.value for y in subterms(x.args[1]) if y.is_const and y.value in cols}
    if not have:
        ck.ob('length', 'arrays (undecided)', True)
        return
    for c in cols:
        if c not in ref:
            ck.ob('length', c, c in have, 'an array of another length is accepted for %s' % c, where)


def config_keys(t):
    out = set()
    for x in subterms(t):
        if x.op == 'call' and x.args[0].op in ('global', 'attr') and len(x.args[1]) >= 1:
            for a in x.args[1][:2]:
                if a.is_const and isinstance(a.value, str):
                    out.add(a.value)
        if x.op == 'idx' and x.args[1].is_const and isinstance(x.args[1].value, str):
            out.add(x.args[1].value)
    return out


def value_leaves(t):
    for leaf in phi_leaves(strip_enter(t)):
        leaf = strip_enter(leaf)
        if leaf.op == 'call' and leaf.args[0].op == 'attr' and leaf.args[0].args[1] in ('astype', 'copy'):
            yield from value_leaves(leaf.args[0].args[0])
        elif leaf.op == 'phi':
            yield from value_leaves(leaf)
        else:
            yield leaf


def check_file(ck, rep, cat, cols, P):
    fl = Flow(rep, maxdepth=3, prop_opaque=P, opaque={'load', 'get_from_list', 'get', '_set_npatch', '_select',
              '_get_patch_index', '_apply_xyz_units', '_apply_radec_units', 'select'})
    fl.run_method(cat, '_read_file')
    ck.saw_flow(fl)
    where = 'Catalog._read_file'
    n = 0
    got = {}
    for e in fl.events:
        if not (e.kind == 'store' and e.obj is SELF and e.attr[:1] == '_' and e.attr[1:] in cols):
            continue
        c = e.attr[1:]
        keys = set()
        for leaf in value_leaves(e.value):
            if leaf.op == 'idx':
                for k in phi_leaves(leaf.args[1]):
                    keys |= {k for k in config_keys(k) if k.endswith('_col')}
            elif leaf.op == 'call':
                for a in leaf.args[1]:
                    for k in phi_leaves(a):
                        if k.op == 'call':
                            keys |= {y.value for y in k.args[1] if y.is_const and isinstance(y.value, str) and
                                     y.value.endswith('_eval')}
        if not keys:
            continue
        n += 1
        got.setdefault(c, set()).update(keys)
        ck.ob('file', c, keys <= {c + '_col', c + '_eval'}, '%s is read from %s' % (c, '/'.join(sorted(keys))), where)
    for c in cols:
        if n > 10:
            ck.ob('file', c + ' read', c in got, '%s is never read' % c, where)
            if c != 'patch' and c in got:
                miss = {c + '_col', c + '_eval'} - got[c]
                ck.ob('file', c + ' both', not miss, '%s is not read from %s' % (c, '/'.join(sorted(miss))), where)
    # tables pairing columns with extensions
    for e in fl.events:
        if e.kind == 'call' and e.name == 'zip' and len(e.args) == 2:
            ls = []
            for a in e.args:
                a = strip_enter(a)
                if a.op in ('list', 'tuple') and isinstance(a.args[0], tuple):
                    ls.append([config_keys(x) & {p + s for p in cols for s in ('_col', '_ext')} for x in a.args[0]])
            if len(ls) != 2 or len(ls[0]) < 10:
                continue
            ck.ob('file', 'extensions', len(ls[0]) == len(ls[1]), 'the lists of columns and extensions differ in length', where)
            for a, b in zip(*ls):
                if len(a) == 1 and len(b) == 1:
                    x, y = list(a)[0], list(b)[0]
                    ck.ob('file', 'extension ' + x[:-4], x[:-4] == y[:-4], '%s is looked for in %s' % (x, y), where)
    check_file_rows(ck, fl, where)


def check_file_rows(ck, fl, where):
    """a single patch: rows chosen among the rows read first are read from the rest with the same rows"""
    reads = [e for e in fl.events if e.kind == 'call' and e.name == 'read' and len(e.args) >= 2]
    if len(reads) < 2:
        return
    base = reads[0].args[1]
    later = reads[-1].args[1]
    for e in reads:
        ok = e.args[1] in (base, later)
        ck.ob('file', 'rows %d' % (reads.index(e)), ok, 'columns are read with the rows %s, others with %s' %
              (show(e.args[1])[:80], show(base)[:80]), where)
    use = set()
    for e in fl.events:
        if e.kind == 'call' and e.name in ('_select', 'select') and e.args:
            use.add(e.args[0])
    if len(use) != 1:
        return
    use = list(use)[0]

    def walk(t, path):
        t = strip_enter(t)
        if t is base:
            yield t, path
        elif t.op == 'phi':
            yield from walk(t.args[1], path + [(t.args[0], True)])
            yield from walk(t.args[2], path + [(t.args[0], False)])
        else:
            yield t, path
    for leaf, path in walk(later, []):
        if leaf is base:
            # all the rows, unless rows were chosen
            continue
        if leaf is use:
            ok = any(g.op == 'cmp' and base in g.args for g, v in path) or not any(
                base in set(subterms(g)) for g, v in path) and False
            ck.ob('file', 'rows chosen of all', any(base in set(subterms(g)) for g, v in path),
                  'the rows chosen among those read first are used as rows of the whole file', where)
            continue
        a = affine(leaf, use)
        if a is not None and a[1] is None:
            ck.ob('file', 'rows chosen of a range', False, 'row i of those read first is read as row %s + i of the file, '
                  'also where only some of the rows were asked for' % show(a[0])[-40:], where)
            continue
        if a is None:
            ck.ob('file', 'rows chosen (undecided)', True)
            continue
        off, step = a
        ok = off.op == 'attr' and off.args[1] == 'start' and step.op == 'attr' and step.args[1] == 'step' and \
            off.args[0] is step.args[0] is base
        ck.ob('file', 'rows chosen of a range', ok, 'row i of those read first is read as row %s + %s i of the file' %
              (show(off)[-40:], show(step)[-40:]), where)


def affine(t, use):
    """(offset, step) of offset + step * use, also as (arange(start, _, step))[use]"""
    if t.op == 'idx' and t.args[1] is use and t.args[0].op == 'call' and t.args[0].args[0].op == 'attr' and \
            t.args[0].args[0].args[1] == 'arange' and len(t.args[0].args[1]) == 3:
        a = t.args[0].args[1]
        return a[0], a[2]
    if t.op in ('+', 'add') or t.op == 'bin':
        args = [x for x in t.args if isinstance(x, T)]
        if len(args) != 2:
            return None
        for i in (0, 1):
            m, o = args[i], args[1 - i]
            if m is use and use not in set(subterms(o)):
                return o, None
            f = [x for x in m.args if isinstance(x, T)] if m.op in ('*', 'mul', 'bin') else []
            if len(f) == 2 and use in f and use not in set(subterms(o)):
                return o, f[1 - f.index(use)]
    return None


def check_finish(ck, rep, cat, cols, P):
    fl = Flow(rep, maxdepth=3, prop_opaque=P, opaque={'load', 'get_from_list', 'get', 'run_kmeans', 'getNField', '_set_npatch',
              '_select', 'select', '_assign_patches', '_generate_xyz'})
    fl.run_method(cat, '_finish_input')
    ck.saw_flow(fl)
    where = 'Catalog._finish_input'
    flips, nans, wnan = {}, {}, set()
    flagged = {}
    for e in fl.events:
        if e.kind == 'setitem':
            # the column reached through another name
            a = nan_col(e.key, cols)
            c = base_col(e.recv, cols) if a and e.recv is not None else None
            if c and c == a:
                nans.setdefault(c, set()).add(a)
        if not (e.kind == 'store' and e.obj is SELF and e.attr[:1] == '_' and e.attr[1:] in cols):
            continue
        c = e.attr[1:]
        v = strip_enter(e.value)
        g = e.guards[-1][0] if e.guards else None
        gk = set()
        while g is not None and g.op in ('not', 'cmp'):
            g = g.args[0] if g.op == 'not' else next((x for x in g.args if isinstance(x, T) and not x.is_const), None)
        if g is not None and g.op == 'call':
            gk = {x.value for x in g.args[1] if x.is_const and isinstance(x.value, str) and x.value.startswith('flip_')}
        if gk:
            src = {col_of(x, cols) for x in subterms(v)} - {None}
            flips[c] = True
            ck.ob('flip', c, gk == {'flip_' + c}, '%s is flipped when %s is asked for' % (c, '/'.join(sorted(gk))), where)
            ck.ob('flip', c + ' value', src == {c}, '%s flipped is taken from %s' % (c, '/'.join(sorted(src))), where)
            ck.ob('flip', c + ' sign', v is not own(c)[0], '%s is not flipped' % c, where)
        if v.op == 'upd':
            key = v.args[1]
            a = nan_col(key, cols)
            isnan = a is not None
            if isnan:
                if c == 'w' and a != 'w':
                    wnan.add(a)
                else:
                    if a == 'w':
                        wnan.add('w')
                    nans.setdefault(c, set()).add(a)
            fk = [x for x in subterms(key) if x.op == 'attr' and x.args[0] is SELF and x.args[1] == '_flag']
            if fk and not isnan:
                flagged.setdefault(c, []).append(key)
    for c in cols:
        if c in INTS:
            continue
        if nans:
            ck.ob('nan', c, nans.get(c) == {c}, 'undefined values of %s are not removed' % c if c not in nans else
                  '%s is reset where %s is undefined' % (c, nans[c]), where)
            ck.ob('nan', c + ' weight', c in wnan, 'rows with an undefined %s keep their weight' % c, where)
    if not nans:
        ck.ob('nan', 'undefined values (undecided)', True)
    if flagged:
        for c in ('w', 'wpos'):
            if c in cols:
                ck.ob('flag', c, c in flagged, 'flagged rows keep their %s' % c, where)
        ks = {flag_cond(k) for c in flagged for k in flagged[c]}
        ck.ob('flag', 'same rows', len(ks) == 1, 'w and wpos are reset in different rows', where)
    else:
        ck.ob('flag', 'flags (undecided)', True)
    pairs = [c for c in cols if c[-1] in '12']
    keys = set()
    for c in cat.mro:
        node = c.attrs.get('_valid_params')
        if isinstance(node, ast.Dict):
            keys |= {k.value for k in node.keys if isinstance(k, ast.Constant)}
    for c in pairs:
        if 'flip_' + c in keys and flips:
            ck.ob('flip', c + ' honoured', c in flips, 'flip_%s has no effect' % c, where)
    if not flips:
        ck.ob('flip', 'flips (undecided)', True)


def nan_col(key, cols):
    """the column whose undefined values key selects"""
    for x in subterms(key):
        if x.op == 'call' and x.args[0].op in ('attr', 'global') and x.args[0].args[-1] == 'isnan' and x.args[1]:
            return base_col(x.args[1][0], cols) or '?'
    return None


def flag_cond(t):
    return show(t)


def base_col(t, cols):
    t = strip_enter(t)
    while True:
        if t.op in ('upd', 'enter'):
            t = t.args[0]
            continue
        if t.op == 'phi':
            cs = {base_col(x, cols) for x in phi_leaves(t)} - {None}
            return list(cs)[0] if len(cs) == 1 else None
        if t.op in ('neg', 'usub'):
            t = t.args[-1]
            continue
        c = col_of(t, cols)
        if c:
            return c
        cs = {col_of(x, cols) for x in subterms(t)} - {None}
        return list(cs)[0] if len(cs) == 1 else ('w' if t.op == 'call' and 'w' in cols and not cs - {'w'} else
                                                 None)


def check_access(ck, rep, cat, cols, P):
    n = 0
    for c in cols:
        if c not in P:
            continue
        fl = Flow(rep, maxdepth=2, prop_opaque=P - {c}, opaque={'load', 'clear_cache'})
        r = fl.run_method(cat, c, kind='props')
        if r is None:
            continue
        ck.saw_flow(fl)
        got = {col_of(x, cols) for leaf in phi_leaves(r[0]) for x in subterms(leaf)} - {None}
        if not got:
            ck.ob('access', c + ' (undecided)', True)
            continue
        n += 1
        ck.ob('access', c, got == {c}, 'the attribute %s gives %s' % (c, '/'.join(sorted(got))), 'Catalog.' + c)
    # discarding
    fl = Flow(rep, maxdepth=2, prop_opaque=P, opaque={'load', '_read_file', 'clear_cache'})
    fl.run_method(cat, 'unload')
    gone = {e.attr[1:] for e in fl.events if e.kind == 'store' and e.obj is SELF and e.value is NONE}
    for c in cols:
        ck.ob('access', 'unload ' + c, c in gone, 'the values of %s remain when the data are discarded' % c, 'Catalog.unload')


def check_readers(ck, rep):
    """each reader: columns asked for together come from the same rows, each under its own name"""
    for nm in sorted(rep.classes):
        try:
            c = rep.cls(nm)
        except Exception:
            continue
        if not nm.endswith('Reader') or 'read' not in c.methods:
            continue
        fn = fn_of(c, 'read')
        ps = [a.arg for a in fn.args.args][1:]
        if len(ps) < 2:
            continue
        fl = Flow(rep, maxdepth=2, opaque={'_update_ext', '_group'})
        r = fl.run_method(c, 'read')
        if r is None:
            continue
        ck.saw_flow(fl)
        where = nm + '.read'
        COLS, S = T('param', ps[0]), T('param', ps[1])
        leaves = phi_leaves(r[0])
        frames = [e for e in fl.events if e.kind == 'call' and e.name in ('read_csv', 'read_table')]
        for leaf in leaves:
            if S in set(subterms(leaf)) or frames or any(S in set(subterms(e.guards[-1][0])) or S in {
                    y for a in list(e.args) + list(e.kw.values()) for y in subterms(a)} for e in fl.events
                    if e.kind == 'call' and e.guards):
                ck.ob('reader', nm + ' rows', True)
            else:
                ck.ob('reader', nm + ' rows', False, 'the rows asked for are not used', where)
        frame_attr = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith('read_') and
                         self_name(x.func.value) == 'pandas' for k, f in c.methods.items()
                         for x in ast.walk(f[0] if isinstance(f, (list, tuple)) else f))
        if frame_attr:
            for leaf in leaves:
                for x in subterms(leaf):
                    # frame[several columns][rows] would look the rows up among the columns
                    if x.op == 'idx' and x.args[1] is S and x.args[0].op == 'idx' and COLS in set(subterms(x.args[0].args[1])):
                        ck.ob('reader', nm + ' row lookup', False, 'rows of a data frame are looked up among its columns', where)
                    if x.op == 'idx' and x.args[1] is S:
                        ck.ob('reader', nm + ' row lookup', x.args[0].op != 'idx', 'rows of a data frame are looked up by label', where)
        # columns picked by position are those asked for at that position
        used = {x.args[2][0].args[0] for e in fl.events if e.kind == 'call' and 'usecols' in e.kw for x in phi_leaves(e.kw['usecols'])
                if x.op == 'comp' and len(x.args[2]) == 1}
        for leaf in leaves:
            if leaf.op != 'comp' or len(leaf.args[2]) != 1 or len(used) != 1:
                continue
            it = leaf.args[2][0].args[0]
            if it.op == 'call' and it.args[0].op == 'global' and it.args[0].args[0] == 'enumerate' and len(it.args[1]) == 1:
                ck.ob('reader', nm + ' column order', it.args[1][0] is list(used)[0], 'columns read in the order of %s are '
                      'named in the order of %s' % (show(list(used)[0])[:60], show(it.args[1][0])[:60]), where)
        if frames:
            # usecols keeps the order of the file, so columns have to be picked by label
            for leaf in leaves:
                for x in subterms(leaf):
                    if x.op == 'idx' and x.args[0].op == 'attr' and x.args[0].args[1] in ('iloc', 'values') or \
                            x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0].op == 'attr' and \
                            x.args[0].args[0].args[1] == 'to_numpy':
                        k = x.args[1]
                        k = k.args[0][-1] if k.op == 'tuple' else k
                        ck.ob('reader', nm + ' column order', k.is_const,
                              'columns are picked by position among those read, which are in the order of the file', where)


def self_name(x):
    return x.id if isinstance(x, ast.Name) else None


def check(ck):
    ck.rule('trim', 'trimming a catalog applies one selection to every column', 20)
    ck.rule('split', 'patches take the same rows of every column', 1)
    ck.rule('join', 'combining catalogs joins every column with its own mask', 1)
    ck.rule('take', 'arrays given are kept under their own name with one range of rows', 20)
    ck.rule('length', 'arrays of different lengths are refused', 1)
    ck.rule('file', 'columns are read from their own settings with the same rows', 20)
    ck.rule('flip', 'flips change their own column', 1)
    ck.rule('nan', 'undefined values in any column remove the row', 1)
    ck.rule('flag', 'flagged rows lose both weights', 1)
    ck.rule('access', 'each column is given back and discarded as itself', 20)
    ck.rule('reader', 'readers return the columns asked for from the rows asked for', 1)
    rep = repo()
    cat = rep.cls('Catalog')
    cols = row_columns(cat)
    P = set(cls_props(cat))
    check_trim(ck, rep, cat, cols, P)
    check_split(ck, rep, cat, cols, P)
    check_join(ck, rep, cat, cols, P)
    check_take(ck, rep, cat, cols, P)
    check_file(ck, rep, cat, cols, P)
    check_finish(ck, rep, cat, cols, P)
    check_access(ck, rep, cat, cols, P)
    check_readers(ck, rep)
    ck.assumptions += ['numpy indexing, concatenation and the file libraries keep the order of rows',
                       'columns of a file have equal lengths']
