"""Scripted user functions: the same spec as a real callable and as a model function."""
from . import model as m
from .enc import lib, to_model, to_m, build


def model_cb(spec):
    k = spec[0]
    if k == 'const':
        v = to_m(spec[1])
        return lambda *a: v
    if k == 'id':
        return lambda x: x
    if k == 'pair':
        return lambda x: ('c', x, x)
    if k == 'wrap':
        return lambda x: m.S([x])
    if k == 'kind':
        return lambda x: m.A(x[0])
    if k == 'card':
        return lambda x: m.A(len(x[1]) if x[0] == 's' else (sum(n for _, n in x[1]) if x[0] == 'm' else -1))
    if k == 'rawcard':
        return lambda x: m.A(len(x[1]) if x[0] == 's' else (sum(n for _, n in x[1]) if x[0] == 'm' else -1))
    if k == 'at':            # rights at a left (undefined if absent)
        left = to_m(spec[1])
        return lambda x: (m.r_rights_for_left(x, left) if m.is_rel(x) else m.NONE)
    if k == 'at0':           # the same, but an empty set where there are none
        left = to_m(spec[1])
        return lambda x: (m.r_rights_for_left(x, left) if m.is_rel(x) else m.EMPTY)
    if k == 'atundef':       # the single right at a left, undefined otherwise
        left = to_m(spec[1])
        return lambda x: (m.r_get_right(x, left) if m.is_rel(x) else m.NONE)
    if k == 'lib':           # a registered unary library operation
        from . import ops as O
        o = O.OPS[spec[1]]
        return lambda x: O.model_apply(o, [x])
    if k == 'lib2':
        from . import ops as O
        o = O.OPS[spec[1]]
        return lambda x, y: O.model_apply(o, [x, y])
    if k == 'pair2':
        return lambda x, y: ('c', x, y)
    if k == 'first':
        return lambda x, y: x
    if k == 'undef_eq':
        return lambda x, y: m.NONE if x == y else ('c', x, y)
    if k == 'in':
        s = {to_m(e) for e in spec[1]}
        return lambda x: x in s
    if k == 'query':
        from . import ops as O
        o = O.OPS[spec[1]]
        return lambda x: O.model_apply(o, [x]) is True
    if k == 'not':
        f = model_cb(spec[1])
        return lambda x: not f(x)
    if k == 'fail':          # spec[1]: inner, spec[2]: call number that raises
        return model_cb(spec[1])
    raise ValueError(spec)


class CallbackFault(Exception):
    pass


def real_cb(spec):
    L = lib()
    mo, ud = L['mo'], L['ud']
    k = spec[0]
    if k == 'const':
        v = build(spec[1])
        return lambda *a: v
    if k == 'id':
        return lambda x: x
    if k == 'pair':
        return lambda x: mo.Couplet(x, x)
    if k == 'wrap':
        return lambda x: mo.Set(x)
    if k == 'kind':
        return lambda x: mo.Atom('a' if x.is_atom else 'c' if x.is_couplet else 's' if x.is_set else 'm')
    if k == 'card':
        return lambda x: mo.Atom(x.cardinality if x.is_set or x.is_multiset else -1)
    if k == 'rawcard':
        return lambda x: x.cardinality if x.is_set or x.is_multiset else -1
    if k == 'at':
        left = build(spec[1])
        return lambda x: x[left] if L['relations'].is_member(x) else ud.Undef()
    if k == 'at0':
        left = build(spec[1])
        return lambda x: x[left] if L['relations'].is_member(x) else mo.Set()
    if k == 'atundef':
        left = build(spec[1])
        return lambda x: L['relations'].get_right(x, left)
    if k in ('lib', 'lib2'):
        from . import ops as O
        o = O.OPS[spec[1]]
        return lambda *a: o.real(a)
    if k == 'pair2':
        return lambda x, y: mo.Couplet(x, y)
    if k == 'first':
        return lambda x, y: x
    if k == 'undef_eq':
        return lambda x, y: ud.Undef() if x == y else mo.Couplet(x, y)
    if k == 'in':
        s = [build(e) for e in spec[1]]
        s = frozenset(s)
        return lambda x: x in s
    if k == 'query':
        from . import ops as O
        o = O.OPS[spec[1]]
        return lambda x: o.real((x,)) is True
    if k == 'not':
        f = real_cb(spec[1])
        return lambda x: not f(x)
    if k == 'fail':
        f = real_cb(spec[1])
        left = [spec[2]]

        def g(*a):
            left[0] -= 1
            if left[0] == 0:
                raise CallbackFault('scripted failure')
            return f(*a)
        return g
    raise ValueError(spec)


def _register():
    from . import ops as O

    def part_model(a, f):
        d = {}
        for e in m.elems(a):
            d.setdefault(f(e), []).append(e)
        if a[0] == 's':
            return {k: m.S(v) for k, v in d.items()}
        n = dict(a[1])
        return {k: m.M({e: n[e] for e in v}) for k, v in d.items()}

    O.op('sets.restrict', 'P18', 'set cb', lambda a, f: m.S(e for e in a[1] if f(e)), unchecked=False)
    O.op('partition.partition', 'P18', 'coll cb', lambda a, f: m.S(part_model(a, f).values()), unchecked=False, level_exempt=True)
    O.op('partition.make_labeled_partition', 'P18', 'coll cb', lambda a, f: m.S(('c', k, v) for k, v in part_model(a, f).items()), unchecked=False, level_exempt=True)
    O.op('extension.binary_extend', 'P18', 'set set cb', lambda a, b, f: m.ext2(a, b, f))
    O.op('extension.unary_extend', 'P18', 'set cb', lambda a, f: m.ext1(a, f))
    O.op('extension.binary_multi_extend', 'P18', 'mset mset cb', lambda a, b, f: m.mext2(a, b, f))
    O.op('extension.unary_multi_extend', 'P18', 'coll cb', lambda a, f: m.mext1(a, f))


_register()
