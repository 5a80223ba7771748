"""Executable reference model of the documented definitions, on plain tuples.

Values:  ('a', typename, value)  ('c', left, right)  ('s', frozenset)  ('m', frozenset of (elem, count))
Nothing here imports the library under test.
"""
from itertools import combinations


class U:
    """Undefined outcome. why: 'kind' (operand of the wrong kind), 'undef' (operand undefined), 'none'."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, other):
        return isinstance(other, U)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'U(%s)' % self.why


class DC:
    """Outcome on which no property takes a position."""

    def __repr__(self):
        return 'DC'


DONTCARE = DC()
KIND, UNDEF, NONE = U('kind'), U('undef'), U('none')
UNKNOWN, IS, IS_NOT, NA = 0, 1, 2, 3
EMPTY = ('s', frozenset())
MEMPTY = ('m', frozenset())


# --- construction -------------------------------------------------------------------------------
def A(v):
    return ('a', type(v).__name__, v)


def C(l, r):
    return ('c', l, r)


def S(it):
    return ('s', frozenset(it))


def M(d):
    return ('m', frozenset((k, n) for k, n in d.items() if n > 0))


def md(m):
    return dict(m[1])


def size(m):
    """Number of nodes, counting the first copies of an element and ruling out very many."""
    if m[0] == 'a':
        return 1
    if m[0] == 'c':
        return 1 + size(m[1]) + size(m[2])
    if m[0] == 's':
        return 1 + sum(size(e) for e in m[1])
    return 1 + sum(size(e) + (min(n, 8) if n <= 3000 else n) for e, n in m[1])


def elems(m):
    if m[0] == 's':
        return list(m[1])
    return [e for e, _ in m[1]]


def nested(m):
    yield m
    if m[0] == 'c':
        yield from nested(m[1])
        yield from nested(m[2])
    elif m[0] == 's':
        for e in m[1]:
            yield from nested(e)
    elif m[0] == 'm':
        for e, _ in m[1]:
            yield from nested(e)


# --- kinds --------------------------------------------------------------------------------------
def is_atom(m):
    return m[0] == 'a'


def is_couplet(m):
    return m[0] == 'c'


def is_set(m):
    return m[0] == 's'


def is_mset(m):
    return m[0] == 'm'


def is_rel(m):
    return m[0] == 's' and all(e[0] == 'c' for e in m[1])


def is_clan(m):
    return m[0] == 's' and all(is_rel(e) for e in m[1])


def is_mclan(m):
    return m[0] == 'm' and all(is_rel(e) for e, _ in m[1])


INF = 10 ** 6


def levels(m):
    """(lo, hi): the k for which m is in P^k(M x M); None if there is none."""
    if m[0] == 'c':
        return (0, 0)
    if m[0] != 's':
        return None
    lo, hi = 0, INF
    for e in m[1]:
        r = levels(e)
        if r is None:
            return None
        lo, hi = max(lo, r[0]), min(hi, r[1])
    if lo > hi:
        return None
    return (lo + 1, min(hi + 1, INF))


def is_horde(m):
    """A set of (sets of ...) clans that is neither relation nor clan."""
    r = levels(m)
    return r is not None and m[0] == 's' and r[1] >= 3 and not is_rel(m) and not is_clan(m)


def ambiguous(m):
    """Not applicable by definition, but contains a nested empty set (whose level is open)."""
    return m[0] in 'sm' and levels(m) is None and any(n == EMPTY for n in nested(m))


# --- properties ---------------------------------------------------------------------------------
def lefts(m):
    return frozenset(c[1] for c in m[1])


def rights(m):
    return frozenset(c[2] for c in m[1])


def left_set(m):
    """Left set of a relation / clan / multiclan / horde (as frozenset)."""
    if is_rel(m):
        return lefts(m)
    out = frozenset()
    for e in elems(m):
        out |= left_set(e)
    return out


def right_set(m):
    if is_rel(m):
        return rights(m)
    out = frozenset()
    for e in elems(m):
        out |= right_set(e)
    return out


def _functional(r):
    return len(lefts(r)) == len(r[1])


def _right_functional(r):
    return len(rights(r)) == len(r[1])


def _reflexive(r):
    return all(('c', x, x) in r[1] for x in lefts(r) | rights(r))


def _symmetric(r):
    return all(('c', c[2], c[1]) in r[1] for c in r[1])


def _transitive(r):
    by = {}
    for c in r[1]:
        by.setdefault(c[1], []).append(c[2])
    return all(('c', c[1], z) in r[1] for c in r[1] for z in by.get(c[2], ()))


_BASE = dict(functional=_functional, right_functional=_right_functional, reflexive=_reflexive,
             symmetric=_symmetric, transitive=_transitive)


def prop(name, m):
    """True / False / NONE (does not apply) / DONTCARE, for the generic query."""
    if name == 'bijective':
        f = prop('functional', m)
        if f is not True:
            return f
        return prop('right_functional', m)
    if name == 'equivalence_relation':
        for n in ('symmetric', 'transitive', 'reflexive'):
            v = prop(n, m)
            if v is not True:
                return v
        return True
    if name == 'reflexive' and is_couplet(m):
        return m[1] == m[2]
    if name in ('regular', 'right_regular'):
        return _regular(m, name == 'right_regular')
    if is_rel(m):
        return _BASE[name](m)
    if is_clan(m) or is_mclan(m):
        return all(_BASE[name](r) for r in elems(m))
    if is_horde(m):
        return all(prop(name, e) for e in m[1])
    return DONTCARE if ambiguous(m) else NONE


def _regular(m, mirror):
    f = _right_functional if mirror else _functional
    side = rights if mirror else lefts
    if is_clan(m) or is_mclan(m):
        es = elems(m)
        return all(f(r) for r in es) and len({side(r) for r in es}) <= 1
    if is_rel(m):
        return NONE
    if is_horde(m):
        s = right_set if mirror else left_set
        es = elems(m)
        return all(_regular(e, mirror) is True for e in es) and len({s(e) for e in es}) <= 1
    return DONTCARE if ambiguous(m) else NONE


def absolute(m):
    """True/False/DONTCARE: what a remembered 'absolute' may say."""
    if is_atom(m):
        return True
    if is_couplet(m):
        return is_atom(m[1]) and is_atom(m[2])
    es = elems(m)
    if not es:
        return True
    if is_rel(m):
        return all(absolute(e) for e in es)
    if is_clan(m) or is_mclan(m):
        return all(absolute(e) for e in es)
    if is_horde(m):
        return DONTCARE
    if is_set(m) and ambiguous(m):
        return DONTCARE
    return all(is_atom(e) for e in es)


def flags_allowed(m):
    """{flag: allowed known status or None (any)}."""
    st = lambda b: IS if b else IS_NOT
    d = dict(relation=st(is_rel(m)), clan=st(is_clan(m)), multiclan=st(is_mclan(m)))
    a = absolute(m)
    d['absolute'] = None if a is DONTCARE else st(a)
    for n in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular', 'right_regular'):
        v = prop(n, m)
        if v is DONTCARE:
            d[n] = None
        elif v is NONE:
            d[n] = NA
            if m[0] == 'm' and not is_mclan(m):
                d[n] = NA
        else:
            d[n] = st(v)
    return d


# --- set / multiset operations ------------------------------------------------------------------
def set_union(a, b):
    return ('s', a[1] | b[1])


def set_intersect(a, b):
    return ('s', a[1] & b[1])


def set_minus(a, b):
    return ('s', a[1] - b[1])


def set_sub(a, b):
    return a[1] <= b[1]


def ms_union(a, b):
    x, y = md(a), md(b)
    return M({k: max(x.get(k, 0), y.get(k, 0)) for k in set(x) | set(y)})


def ms_intersect(a, b):
    x, y = md(a), md(b)
    return M({k: min(x.get(k, 0), y.get(k, 0)) for k in set(x) | set(y)})


def ms_minus(a, b):
    x, y = md(a), md(b)
    return M({k: x[k] - y.get(k, 0) for k in x})


def ms_add(a, b):
    x, y = md(a), md(b)
    return M({k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)})


def ms_sub(a, b):
    x, y = md(a), md(b)
    return all(x[k] <= y.get(k, 0) for k in x)


def power_set(a):
    es = list(a[1])
    return S(S(c) for n in range(len(es) + 1) for c in combinations(es, n))


# --- extension ----------------------------------------------------------------------------------
def ext2(a, b, f):
    out = set()
    for x in a[1]:
        for y in b[1]:
            r = f(x, y)
            if not isinstance(r, U):
                out.add(r)
    return ('s', frozenset(out))


def ext1(a, f):
    out = set()
    for x in a[1]:
        r = f(x)
        if not isinstance(r, U):
            out.add(r)
    return ('s', frozenset(out))


def mext2(a, b, f):
    d = {}
    for x, n in a[1]:
        for y, k in b[1]:
            r = f(x, y)
            if not isinstance(r, U):
                d[r] = d.get(r, 0) + n * k
    return M(d)


def mext1(a, f):
    d = {}
    for x, n in (a[1] if a[0] == 'm' else [(e, 1) for e in a[1]]):
        r = f(x)
        if not isinstance(r, U):
            d[r] = d.get(r, 0) + n
    return M(d)


# --- couplets / relations -----------------------------------------------------------------------
def c_transpose(c):
    return ('c', c[2], c[1])


def c_compose(c1, c2):
    return ('c', c2[1], c1[2]) if c1[1] == c2[2] else NONE


def r_transpose(r):
    return ext1(r, c_transpose)


def r_compose(a, b):
    return ext2(a, b, c_compose)


def r_functional_union(a, b):
    u = set_union(a, b)
    return u if _functional(u) else NONE


def r_right_functional_union(a, b):
    u = set_union(a, b)
    return u if _right_functional(u) else NONE


def r_rights_for_left(r, left):
    return S(c[2] for c in r[1] if c[1] == left)


def r_get_right(r, left):
    x = [c[2] for c in r[1] if c[1] == left]
    return x[0] if len(x) == 1 else NONE


def r_get_left(r, right):
    x = [c[1] for c in r[1] if c[2] == right]
    return x[0] if len(x) == 1 else NONE


def diag(*vals):
    return S(C(v, v) for v in vals)


def r_fill_lefts(r, ren):
    return set_union(ren, diag(*(lefts(r) - rights(ren))))


def r_rename(r, ren):
    return r_compose(r, r_fill_lefts(r, ren))


def r_swap(r, sw):
    return r_rename(r, set_union(sw, r_transpose(sw)))


def r_functional_add(r, c):
    if c[1] in lefts(r):
        return NONE
    return set_union(r, S([c]))


def r_defined_at(r, left):
    return r if left in lefts(r) else NONE


# --- clans --------------------------------------------------------------------------------------
def cl_cross_union(a, b):
    return ext2(a, b, set_union)


def cl_cfu(a, b):
    return ext2(a, b, r_functional_union)


def cl_crfu(a, b):
    return ext2(a, b, r_right_functional_union)


def cl_lhs_cfu(a, b):
    return set_union(cl_cfu(a, b), S(t for t in a[1] if not cl_cfu(S([t]), b)[1]))


def substrict(x, y):
    return x if x[1] <= y[1] else NONE


def superstrict(x, y):
    return x if x[1] >= y[1] else NONE


def cl_project(a, *ls):
    return ext2(a, S([diag(*ls)]), r_compose)


def cl_defined_at(a, left):
    r = S(x for x in a[1] if left in lefts(x))
    return r if r[1] else NONE


# --- multiclans ---------------------------------------------------------------------------------
def mc_filter(a, b, rel):
    y = [e for e, _ in b[1]]
    return M({e: n for e, n in a[1] if any(rel(e, x) for x in y)})


def mc_rights_for_left(a, left):
    d = {}
    for r, n in a[1]:
        for c in r[1]:
            if c[1] == left:
                d[c[2]] = d.get(c[2], 0) + n
    return M(d)


def mc_project(a, *ls):
    return mext2(a, M({diag(*ls): 1}), r_compose)


def mc_defined_at(a, left):
    r = M({x: n for x, n in a[1] if left in lefts(x)})
    return r if r[1] else NONE


# --- lookups ------------------------------------------------------------------------------------
def call(m, left):
    if is_rel(m) and _functional(m):
        return r_get_right(m, left)
    return NONE


def getitem(m, left):
    if m[0] == 's':
        if is_rel(m):
            return r_rights_for_left(m, left)
        if is_clan(m):
            return S(c[2] for r in m[1] for c in r[1] if c[1] == left)
        return NONE
    if m[0] == 'm':
        if all(e[0] == 'c' for e, _ in m[1]):
            d = {}
            for c, n in m[1]:
                if c[1] == left:
                    d[c[2]] = d.get(c[2], 0) + n
            return M(d)
        if is_mclan(m):
            return mc_rights_for_left(m, left)
    return NONE


def get_left_set(m, mirror=False):
    if m == MEMPTY:
        return DONTCARE
    if is_rel(m) or is_clan(m) or is_mclan(m) or is_horde(m):
        return ('s', (right_set if mirror else left_set)(m))
    return DONTCARE if ambiguous(m) else NONE
