"""Literals <-> JSON, literals -> real objects (several construction routes), real objects -> model values."""
from . import model as m

_lib = {}


def lib():
    """The library under test, imported lazily (PYTHONPATH=/repo)."""
    if not _lib:
        import algebraixlib.mathobjects as mo
        import algebraixlib.undef as ud
        from algebraixlib.algebras import (couplets, sets, relations, clans, multisets, multiclans, properties)
        import algebraixlib.extension as extension
        import algebraixlib.partition as partition
        import algebraixlib.util.rdf as rdf
        import algebraixlib.util.miscellaneous as misc
        import algebraixlib.util.mathobjectprinter as printer
        import collections
        _lib.update(mo=mo, ud=ud, couplets=couplets, sets=sets, relations=relations, clans=clans, multisets=multisets,
                    multiclans=multiclans, properties=properties, extension=extension, partition=partition, rdf=rdf,
                    misc=misc, printer=printer, Counter=collections.Counter)
    return _lib


# --- plain Python values in atoms ---------------------------------------------------------------
def val_dec(s):
    if isinstance(s, dict):
        t, v = s['t'], s['v']
        if t == 'tuple':
            return tuple(val_dec(x) for x in v)
        if t == 'list':
            return [val_dec(x) for x in v]
        if t == 'frozenset':
            return frozenset(val_dec(x) for x in v)
        if t == 'bytes':
            return bytes.fromhex(v)
        if t == 'complex':
            return complex(v[0], v[1])
        if t == 'range':
            return range(*v)
        if t == 'inf':
            return float('inf')
        if t in ('uri', 'bnode'):
            import rdflib
            return rdflib.URIRef(v) if t == 'uri' else rdflib.BNode(v)
        if t == 'dec':
            import decimal
            return decimal.Decimal(v)
        if t == 'date':
            import datetime
            return datetime.date(*v)
        raise ValueError(s)
    return s


def val_enc(v):
    if v is None or isinstance(v, (bool, int, str)) and type(v) in (bool, int, str):
        return v
    if type(v) is float:
        return {'t': 'inf', 'v': 0} if v == float('inf') else v
    if isinstance(v, tuple):
        return {'t': 'tuple', 'v': [val_enc(x) for x in v]}
    if isinstance(v, list):
        return {'t': 'list', 'v': [val_enc(x) for x in v]}
    if isinstance(v, frozenset):
        return {'t': 'frozenset', 'v': [val_enc(x) for x in v]}
    if isinstance(v, bytes):
        return {'t': 'bytes', 'v': v.hex()}
    if isinstance(v, complex):
        return {'t': 'complex', 'v': [v.real, v.imag]}
    if isinstance(v, range):
        return {'t': 'range', 'v': [v.start, v.stop, v.step]}
    return {'t': 'repr', 'v': repr(v)}


# --- literals -----------------------------------------------------------------------------------
def to_m(e):
    """Literal -> model value."""
    k = e[0]
    if k == 'A':
        return m.A(val_dec(e[1]))
    if k == 'C':
        return ('c', to_m(e[1]), to_m(e[2]))
    if k == 'S':
        return ('s', frozenset(to_m(x) for x in e[1]))
    if k == 'M':
        d = {}
        for x, n in e[1]:
            x = to_m(x)
            d[x] = d.get(x, 0) + n
        return m.M(d)
    raise ValueError(e)


def skey(v):
    """Deterministic sort key for model values."""
    return _canon(v)


def outcome(got):
    """Printable outcome of a real call."""
    if got is lib()['ud'].Undef():
        return 'undefined'
    if isinstance(got, lib()['mo'].MathObject):
        return show(to_model(got))
    return repr(got)


def _canon(v):
    if v[0] == 'a':
        x = v[2]
        if isinstance(x, frozenset):
            x = sorted(map(repr, x))
        return 'a:%s:%r' % (v[1], x)
    if v[0] == 'c':
        return 'c(%s>%s)' % (_canon(v[1]), _canon(v[2]))
    if v[0] == 's':
        return 's{%s}' % ','.join(sorted(_canon(e) for e in v[1]))
    return 'm{%s}' % ','.join(sorted('%s*%r' % (_canon(e), n) for e, n in v[1]))


def from_m(v, rng=None):
    """Model value -> literal, elements sorted or (with rng) in random order."""
    if v[0] == 'a':
        return ['A', val_enc(v[2])]
    if v[0] == 'c':
        return ['C', from_m(v[1], rng), from_m(v[2], rng)]
    if v[0] == 's':
        es = sorted(v[1], key=_canon)
        if rng:
            rng.shuffle(es)
        return ['S', [from_m(e, rng) for e in es]]
    es = sorted(v[1], key=lambda p: (_canon(p[0]), p[1]))
    if rng:
        rng.shuffle(es)
    return ['M', [[from_m(e, rng), n] for e, n in es]]


def show(v):
    """Short readable form of a model value or outcome."""
    if isinstance(v, tuple) and v and v[0] in ('a', 'c', 's', 'm'):
        if v[0] == 'a':
            return repr(v[2])
        if v[0] == 'c':
            return '%s->%s' % (show(v[1]), show(v[2]))
        if v[0] == 's':
            return '{%s}' % ', '.join(sorted(show(e) for e in v[1]))
        return '[%s]' % ', '.join(sorted('%s:%s' % (show(e), n) for e, n in v[1]))
    return repr(v)


# --- real objects -------------------------------------------------------------------------------
ROUTES = 5


def build(e, route=0):
    """Literal -> real object. The route picks constructor and calling convention, not contents."""
    L = lib()
    mo = L['mo']
    k = e[0]
    if k == 'A':
        return mo.Atom(val_dec(e[1]))
    if k == 'C':
        l, r = build(e[1], route), build(e[2], route)
        if route in (1, 3):
            return mo.Couplet(left=l, right=r, direct_load=True)
        if route == 2 and to_m(e[1]) == to_m(e[2]):
            return mo.Couplet(l)
        if route == 4 and e[1][0] == 'A' and e[2][0] == 'A' and e[2][1] is not None:
            return mo.Couplet(val_dec(e[1][1]), val_dec(e[2][1]))
        return mo.Couplet(l, r)
    if k == 'S':
        es = [build(x, route) for x in e[1]]
        if route == 1:
            return mo.Set(es, direct_load=True)
        if route == 2 and len(es) != 1:
            return mo.Set(*es)
        if route == 3:
            return mo.Set((x for x in es), direct_load=True)
        if route == 4 and all(x[0] == 'A' for x in e[1]):
            return mo.Set([val_dec(x[1]) for x in e[1]])
        return mo.Set(es)
    if k == 'M':
        d = {}
        for x, n in e[1]:
            o = build(x, route)
            d[o] = d.get(o, 0) + n
        if route == 1:
            return mo.Multiset(L['Counter'](d), direct_load=True)
        if route == 2:
            return mo.Multiset([x for x, n in d.items() for _ in range(n)])
        if route == 3:
            return mo.Multiset(L['Counter'](d))
        return mo.Multiset(d)
    raise ValueError(e)


def val_from_lit(e):
    """A literal as the user might write it: plain value for atoms when possible."""
    if e[0] == 'A' and len(e) > 2:
        return val_dec(e[1])
    return build(e)


def build_poisoned(e, route, res, where):
    """Like build for the outermost collection, but hands over mutable containers and changes them afterwards.

    Reports P07 if the library changed the user's container; a link to the container shows up as changed contents."""
    L = lib()
    mo = L['mo']
    if e[0] == 'M' and route in (0, 1, 3):
        d = {}
        for x, n in e[1]:
            o = build(x, route)
            d[o] = d.get(o, 0) + n
        c = L['Counter'](d) if route != 0 else dict(d)
        r = mo.Multiset(c, direct_load=True) if route == 1 else mo.Multiset(c)
        res.checks += 1
        if dict(c) != d:
            res.bad('P07', 'the dictionary given to Multiset() was modified', where)
        for k in list(c):
            c[k] += 7
        c[mo.Atom('poison')] = 3
        return r
    if e[0] == 'M' and route == 2 or e[0] == 'S' and route in (0, 1):
        if e[0] == 'M':
            es = [o for o, n in [(build(x, route), n) for x, n in e[1]] for _ in range(n)]
        else:
            es = [build(x, route) for x in e[1]]
        c = list(es)
        r = mo.Multiset(c) if e[0] == 'M' else (mo.Set(c, direct_load=True) if route == 1 else mo.Set(c))
        res.checks += 1
        if len(c) != len(es) or any(x is not y for x, y in zip(c, es)):
            res.bad('P07', 'the list given to the constructor was modified', where)
        c.append(mo.Atom('poison'))
        del c[0]
        return r
    if e[0] == 'S' and route == 4 and not all(x[0] == 'A' for x in e[1]):
        c = set(build(x, route) for x in e[1])
        r = mo.Set(c)
        c.add(mo.Atom('poison'))
        return r
    return build(e, route)


class Bad(Exception):
    pass


def to_model(o):
    """Real object -> model value, reading contents only (never remembered state)."""
    mo = lib()['mo']
    if isinstance(o, mo.Atom):
        v = o.value
        return ('a', type(v).__name__, v)
    if isinstance(o, mo.Couplet):
        return ('c', to_model(o.left), to_model(o.right))
    if isinstance(o, mo.Set):
        d = o.data
        r = frozenset(to_model(e) for e in d)
        if len(r) != len(d):
            raise Bad('a set holds two equal elements: %s' % sorted(map(show, map(to_model, d))))
        return ('s', r)
    if isinstance(o, mo.Multiset):
        d = o.data
        r = frozenset((to_model(e), n) for e, n in d.items())
        if len({e for e, _ in r}) != len(d):
            raise Bad('a multiset holds two equal keys')
        if any(n <= 0 for _, n in r):
            raise Bad('a multiset holds a multiplicity below one: %s' % show(('m', r)))
        return ('m', r)
    raise Bad('not a MathObject: %r of %s' % (o, type(o)))


def nested_objs(o, seen=None):
    """All distinct (by identity) objects reachable from o."""
    mo = lib()['mo']
    if seen is None:
        seen = {}
    if id(o) in seen:
        return seen
    seen[id(o)] = o
    if isinstance(o, mo.Couplet):
        nested_objs(o.left, seen)
        nested_objs(o.right, seen)
    elif isinstance(o, (mo.Set, mo.Multiset)):
        for e in o.data:
            nested_objs(e, seen)
    return seen
