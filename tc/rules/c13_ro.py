"""C13: the binning specification never changes after construction.

The specification is the set of attributes the constructor of a correlation class records on its
shared specification object (discovered: an object that __init__ creates and whose attributes only
__init__ assigns).  Every method, property and setter of every class is interpreted; any store
through that object, rebinding of it to something that is not another object's specification, or in-place change
of one of its arrays outside construction is a violation.
"""
import ast

from ..common import *
from ..pyrepo import AnalysisBroken
from ..pyflow import State

PROP = 'C13'
MUTATORS = ('sort', 'resize', 'put', 'fill', 'itemset', 'partition', 'byteswap', 'setfield', 'setflags', 'append',
            'extend', 'update', 'pop', 'setdefault', 'clear', 'remove', 'insert')
CTOR = ('__init__',)


def spec_attr(cls):
    """The attribute holding the shared specification object: bound in the base constructor to a
    fresh namespace object and then given attributes."""
    flow = Flow(cls.repo, maxdepth=6)
    base = cls.mro[-1]
    r = flow.run_method(cls, '__init__')
    count = {}
    for e in flow.events:
        if e.kind == 'store':
            o = e.obj
            for leaf in phi_leaves(o):
                if leaf is not SELF:
                    count[leaf] = count.get(leaf, 0) + 1
    holder = {}
    for e in flow.events:
        if e.kind == 'store' and e.obj is SELF and e.value in count:
            holder[e.attr] = count[e.value]
    if not holder:
        raise AnalysisBroken('%s: no specification object found in the constructor' % cls.name)
    a = max(holder, key=lambda k: holder[k])
    return a, holder[a], flow, r


def mentions_ro(t, name):
    """t is <x>.<spec> or an attribute reached from it, at top level (through views)."""
    while True:
        if t.op == 'attr':
            if t.args[1] == name:
                return True
            t = t.args[0]
        elif t.op == 'idx':
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in \
                ('ravel', 'reshape', 'view', 'flatten_view', 'swapaxes', 'transpose'):
            t = t.args[0].args[0]
        else:
            return False


def via_spec(t, name):
    return any(mentions_ro(l, name) for l in phi_leaves(t))


def spec_array(t, name, arrays):
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('ravel', 'reshape', 'view', 'transpose') \
            or t.op == 'idx' and t.args[1].op == 'slice':
        t = t.args[0].args[0] if t.op == 'call' else t.args[0]
    return t.op == 'attr' and t.args[1] in arrays and mentions_ro(t.args[0], name)


def arrayish(v):
    return any(x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0].op == 'global' and
               x.args[0].args[0].args[0] in ('np', 'numpy') for x in subterms(v))


def check(ck):
    rep = repo()
    ck.rule('store', 'no method other than the constructor assigns through the specification object', 100)
    ck.rule('array', 'no method changes an array of the specification in place', 100)
    ck.rule('config', 'no method other than the constructor changes the configuration of the object', 100)
    ck.rule('copy', 'copies and unpickled objects keep the specification of the original', 20)
    for cls in corr_leaves(rep):
        name, n, flow, r = spec_attr(cls)
        if n < 20:
            raise AnalysisBroken('%s: specification object self.%s has only %d attributes' % (cls.name, name, n))
        ck.saw_flow(flow)
        spec_obj = next(e.value for e in flow.events if e.kind == 'store' and e.obj is SELF and e.attr == name)
        arrays = set()
        if r is not None:
            for (o, a), v in r[1].heap.items():
                if o is spec_obj and arrayish(v):
                    arrays.add(a)
        seen = set()
        for c in cls.mro:
            for kind, tbl in (('methods', c.methods), ('props', c.props), ('setters', c.setters)):
                for m in sorted(tbl):
                    if (kind, m) in seen:
                        continue
                    seen.add((kind, m))
                    if m in CTOR:
                        continue
                    one(ck, cls, kind, m, name, arrays)


def one(ck, cls, kind, m, name, arrays):
    flow = Flow(cls.repo, maxdepth=4, opaque=('__init__',))
    # opaque constructor: a freshly made object configures itself
    flow.run_method(cls, m, kind=kind)
    ck.saw_flow(flow)
    who = '%s.%s' % (cls.name, m)
    bad = []
    cfg = []
    arr = []
    reb = []
    for e in flow.events:
        if e.kind == 'store':
            if via_spec(e.obj, name):
                if e.data.get('inplace') and e.attr not in arrays:
                    continue
                (arr if e.data.get('inplace') else bad).append((e, '%s.%s' % (show(e.obj), e.attr)))
            elif not e.data.get('inplace') and any(spec_array(l, name, arrays) for l in phi_leaves(e.value)):
                arr.append((e, '%s becomes the same array as %s' % (e.attr, show(e.value)[:80])))
            elif e.attr == name:
                if not all(l.op == 'attr' and l.args[1] == name for l in phi_leaves(e.value)):
                    reb.append((e, '%s is rebound to %s' % (name, show(e.value)[:80])))
            elif e.attr == 'config' and not e.data.get('inplace') and e.obj is SELF:
                if not all(l.op == 'attr' and l.args[1] == 'config' for l in phi_leaves(e.value)) and \
                        not ('copy' in show(e.value)):
                    cfg.append((e, 'config is rebound'))
        elif e.kind in ('setitem', 'delitem'):
            if via_spec(e.recv, name) and not (e.data.get('cell')):
                arr.append((e, show(e.recv)))
            if e.recv is T('attr', SELF, 'config'):
                cfg.append((e, 'config[%s]' % show(e.data.get('key', NONE))))
            if mentions_ro(e.recv, name) and e.recv.op == 'attr' and e.recv.args[1] == '__dict__':
                bad.append((e, show(e.recv)))
        elif e.kind == 'call' and e.name in MUTATORS and e.recv is not None:
            if via_spec(e.recv, name):
                arr.append((e, '%s.%s()' % (show(e.recv), e.name)))
            if e.recv is T('attr', SELF, 'config'):
                cfg.append((e, 'config.%s()' % e.name))
        elif e.kind == 'call' and e.name in ('setattr', 'delattr') and e.args and via_spec(e.args[0], name):
            bad.append((e, show(e.args[0])))
    ck.ob('store', who, not (bad + reb), 'assigns %s outside construction' % (bad + reb)[0][1] if bad + reb else '',
          (bad + reb)[0][0].where if bad + reb else '')
    ck.ob('array', who, not arr, 'changes %s in place' % arr[0][1] if arr else '', arr[0][0].where if arr else '')
    ck.ob('config', who, not cfg, 'changes the shared configuration: %s' % cfg[0][1] if cfg else '',
          cfg[0][0].where if cfg else '')
    if m in ('copy', '_zero_copy', '__setstate__'):
        ck.ob('copy', who, not (bad + reb), 'the copy does not keep the specification', '')
