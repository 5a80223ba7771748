"""Registry of the operations and queries under test: real call + reference model + the property they belong to."""
from . import model as m
from .enc import lib, to_model, to_m, build, val_dec

KINDPRED = dict(couplet=m.is_couplet, set=m.is_set, rel=m.is_rel, clan=m.is_clan, mset=m.is_mset, mclan=m.is_mclan,
                any=lambda v: True)

OPS = {}
GROUPS_BY_PROP = {}


class Op:
    def __init__(self, name, prop, kinds, model, real=None, unchecked=True, var=None, cost=None, undef_left=None,
                 level_exempt=False):
        self.name, self.prop, self.kinds, self.model = name, prop, kinds.split(), model
        self._real = real
        self.unchecked = unchecked      # has a _checked parameter
        self.var = var                  # kind of trailing varargs
        self.cost = cost                # rough size of the result from sizes of args
        self.undef_left = undef_left    # model outcome when a 'left' argument is undefined (None: not specified)
        self.level_exempt = level_exempt  # the raise-level rule is not stated for this function (takes no operands of a kind)

    def real(self, args, unchecked=False):
        f = self._real
        if f is None:
            mod, fn = self.name.rsplit('.', 1)
            f = getattr(lib()[mod], fn)
        if unchecked:
            return f(*args, _checked=False)
        return f(*args)


def op(name, prop, kinds, model, **kw):
    OPS[name] = Op(name, prop, kinds, model, **kw)
    GROUPS_BY_PROP.setdefault(prop, []).append(name)


def _attr(name):
    return lambda o, *a: getattr(o, name)(*a)


def _b(f):
    return lambda *a: f(*a)


# --- sets (P03) ---------------------------------------------------------------------------------
op('sets.union', 'P03', 'set set', m.set_union)
op('sets.intersect', 'P03', 'set set', m.set_intersect)
op('sets.minus', 'P03', 'set set', m.set_minus)
op('sets.substrict', 'P03', 'set set', m.substrict)
op('sets.superstrict', 'P03', 'set set', m.superstrict)
op('sets.is_subset_of', 'P03', 'set set', m.set_sub)
op('sets.is_superset_of', 'P03', 'set set', lambda a, b: m.set_sub(b, a))
op('sets.multify', 'P03', 'set', lambda a: m.M({e: 1 for e in a[1]}))


def _big(f, kind, empty):
    def g(a):
        es = list(a[1])
        if not all(kind(e) for e in es):
            return m.NONE
        if not es:
            return empty
        r = es[0]
        for e in es[1:]:
            r = f(r, e)
        return r
    return g


op('sets.big_union', 'P03', 'set', _big(m.set_union, m.is_set, m.EMPTY))
op('sets.big_intersect', 'P03', 'set', _big(m.set_intersect, m.is_set, m.EMPTY))
op('sets.single', 'P03', 'set', lambda a: next(iter(a[1])) if len(a[1]) == 1 else m.NONE, unchecked=False)
op('sets.some', 'P03', 'set', lambda a: ('oneof', frozenset(a[1])) if a[1] else m.NONE, unchecked=False)
op('sets.power_set', 'P03', 'set', m.power_set, unchecked=False, cost='pow')
op('sets.power_up', 'P03', 'set', lambda a: m.S(m.S([e]) for e in a[1]), unchecked=False)

op('multisets.union', 'P03', 'mset mset', m.ms_union)
op('multisets.intersect', 'P03', 'mset mset', m.ms_intersect)
op('multisets.minus', 'P03', 'mset mset', m.ms_minus)
op('multisets.add', 'P03', 'mset mset', m.ms_add)
op('multisets.substrict', 'P03', 'mset mset', lambda a, b: a if m.ms_sub(a, b) else m.NONE)
op('multisets.superstrict', 'P03', 'mset mset', lambda a, b: a if m.ms_sub(b, a) else m.NONE)
op('multisets.is_subset_of', 'P03', 'mset mset', m.ms_sub)
op('multisets.is_superset_of', 'P03', 'mset mset', lambda a, b: m.ms_sub(b, a))
op('multisets.demultify', 'P03', 'mset', lambda a: m.S(e for e, _ in a[1]))
op('multisets.big_union', 'P03', 'set', _big(m.ms_union, m.is_mset, m.DONTCARE))
op('multisets.big_intersect', 'P03', 'set', _big(m.ms_intersect, m.is_mset, m.DONTCARE))
op('multisets.single', 'P03', 'mset', lambda a: next(iter(a[1]))[0] if sum(n for _, n in a[1]) == 1 else m.NONE, unchecked=False)
op('multisets.some', 'P03', 'mset', lambda a: ('oneof', frozenset(e for e, _ in a[1])) if a[1] else m.NONE, unchecked=False)

# --- couplets, relations (P04) ------------------------------------------------------------------
op('couplets.transpose', 'P04', 'couplet', m.c_transpose)
op('couplets.compose', 'P04', 'couplet couplet', m.c_compose)
op('relations.transpose', 'P04', 'rel', m.r_transpose)
op('relations.compose', 'P04', 'rel rel', m.r_compose)
op('relations.functional_union', 'P04', 'rel rel', m.r_functional_union)
op('relations.right_functional_union', 'P04', 'rel rel', m.r_right_functional_union)
op('relations.get_lefts', 'P04', 'rel', lambda a: ('s', m.lefts(a)))
op('relations.get_rights', 'P04', 'rel', lambda a: ('s', m.rights(a)))
op('relations.get_rights_for_left', 'P04', 'rel left', m.r_rights_for_left, undef_left=m.EMPTY)
op('relations.get_right', 'P04', 'rel left', m.r_get_right, undef_left=m.UNDEF)
op('relations.get_left', 'P04', 'rel left', m.r_get_left, undef_left=m.UNDEF)
op('relations.fill_lefts', 'P04', 'rel rel', m.r_fill_lefts)
op('relations.rename', 'P04', 'rel rel', m.r_rename)
op('relations.swap', 'P04', 'rel rel', m.r_swap)
op('relations.functional_add', 'P04', 'func couplet', m.r_functional_add, unchecked=False)
op('relations.diag', 'P04', '', lambda *a: m.diag(*a), unchecked=False, var='left')
op('relations.defined_at', 'P04', 'rel left', m.r_defined_at, undef_left=m.UNDEF)

# --- clans (P05) --------------------------------------------------------------------------------
op('clans.transpose', 'P05', 'clan', lambda a: m.ext1(a, m.r_transpose))
op('clans.compose', 'P05', 'clan clan', lambda a, b: m.ext2(a, b, m.r_compose))
op('clans.cross_union', 'P05', 'clan clan', m.cl_cross_union)
op('clans.cross_functional_union', 'P05', 'clan clan', m.cl_cfu)
op('clans.lhs_cross_functional_union', 'P05', 'clan clan', m.cl_lhs_cfu)
op('clans.cross_right_functional_union', 'P05', 'clan clan', m.cl_crfu)
op('clans.cross_intersect', 'P05', 'clan clan', lambda a, b: m.ext2(a, b, m.set_intersect))
op('clans.substrict', 'P05', 'clan clan', lambda a, b: m.ext2(a, b, m.substrict))
op('clans.superstrict', 'P05', 'clan clan', lambda a, b: m.ext2(a, b, m.superstrict))
op('clans.get_lefts', 'P05', 'clan', lambda a: ('s', m.left_set(a)))
op('clans.get_rights', 'P05', 'clan', lambda a: ('s', m.right_set(a)))
op('clans.project', 'P05', 'clan', m.cl_project, unchecked=False, var='left')
op('clans.from_set', 'P05', 'left', lambda l, *v: m.S(m.S([m.C(l, x)]) for x in v), unchecked=False, var='left')
op('clans.diag', 'P05', '', lambda *a: m.S([m.diag(*a)]), unchecked=False, var='left')
op('clans.defined_at', 'P05', 'clan left', m.cl_defined_at, undef_left=m.UNDEF)

# --- multiclans (P06) ---------------------------------------------------------------------------
op('multiclans.transpose', 'P06', 'mclan', lambda a: m.mext1(a, m.r_transpose))
op('multiclans.compose', 'P06', 'mclan mclan', lambda a, b: m.mext2(a, b, m.r_compose))
op('multiclans.cross_union', 'P06', 'mclan mclan', lambda a, b: m.mext2(a, b, m.set_union))
op('multiclans.cross_functional_union', 'P06', 'mclan mclan', lambda a, b: m.mext2(a, b, m.r_functional_union))
op('multiclans.cross_right_functional_union', 'P06', 'mclan mclan', lambda a, b: m.mext2(a, b, m.r_right_functional_union))
op('multiclans.cross_intersect', 'P06', 'mclan mclan', lambda a, b: m.mext2(a, b, m.set_intersect))
op('multiclans.substrict', 'P06', 'mclan mclan', lambda a, b: m.mc_filter(a, b, lambda x, y: x[1] <= y[1]))
op('multiclans.superstrict', 'P06', 'mclan mclan', lambda a, b: m.mc_filter(a, b, lambda x, y: x[1] >= y[1]))
op('multiclans.get_lefts', 'P06', 'mclan', lambda a: ('s', m.left_set(a)) if a[1] else m.DONTCARE)
op('multiclans.get_rights', 'P06', 'mclan', lambda a: ('s', m.right_set(a)) if a[1] else m.DONTCARE)
op('multiclans.get_rights_for_left', 'P06', 'mclan left', m.mc_rights_for_left)
op('multiclans.project', 'P06', 'mclan', m.mc_project, unchecked=False, var='left')
op('multiclans.diag', 'P06', '', lambda *a: m.M({m.diag(*a): 1}), unchecked=False, var='left')
op('multiclans.defined_at', 'P06', 'mclan left', m.mc_defined_at, undef_left=m.UNDEF)

# --- queries (P02) ------------------------------------------------------------------------------
op('couplets.is_member', 'P02', 'any', m.is_couplet, unchecked=False)
op('sets.is_member', 'P02', 'any', m.is_set, unchecked=False)
op('multisets.is_member', 'P02', 'any', m.is_mset, unchecked=False)
op('relations.is_member', 'P02', 'any', m.is_rel, unchecked=False)
op('clans.is_member', 'P02', 'any', m.is_clan, unchecked=False)
op('multiclans.is_member', 'P02', 'any', m.is_mclan, unchecked=False)
op('couplets.is_absolute_member', 'P02', 'any', lambda a: m.is_couplet(a) and m.absolute(a), unchecked=False)
op('relations.is_absolute_member', 'P02', 'any', lambda a: m.is_rel(a) and m.absolute(a), unchecked=False)
op('clans.is_absolute_member', 'P02', 'any', lambda a: m.is_clan(a) and m.absolute(a), unchecked=False)
op('multiclans.is_absolute_member', 'P02', 'any', lambda a: m.is_mclan(a) and m.absolute(a), unchecked=False)


def _abs_set(kind):
    def f(a):
        if not kind(a):
            return False
        if not a[1]:
            return m.DONTCARE      # the empty set is also an (absolute) relation; the code answers False
        return all(m.is_atom(e) for e in m.elems(a))
    return f


op('sets.is_absolute_member', 'P02', 'any', _abs_set(m.is_set), unchecked=False)
op('multisets.is_absolute_member', 'P02', 'any', _abs_set(m.is_mset), unchecked=False)

op('couplets.is_reflexive', 'P02', 'couplet', lambda a: a[1] == a[2])
for _p in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive'):
    for _mod, _k in (('relations', 'rel'), ('clans', 'clan'), ('multiclans', 'mclan')):
        op('%s.is_%s' % (_mod, _p), 'P02', _k, lambda a, _p=_p: m.prop(_p, a))
for _p in ('regular', 'right_regular'):
    for _mod, _k in (('clans', 'clan'), ('multiclans', 'mclan')):
        op('%s.is_%s' % (_mod, _p), 'P02', _k, lambda a, _p=_p: m.prop(_p, a))
for _p in ('functional', 'right_functional', 'bijective', 'reflexive', 'symmetric', 'transitive',
           'equivalence_relation', 'regular', 'right_regular'):
    op('properties.is_%s' % _p, 'P02', 'any', lambda a, _p=_p: m.prop(_p, a))

# --- lookups (P21) ------------------------------------------------------------------------------
op('obj.call', 'P21', 'any left', m.call, real=lambda o, l: o(l), unchecked=False)
op('obj.getitem', 'P21', 'any left', m.getitem, real=lambda o, l: o[l], unchecked=False)
op('obj.left_set', 'P21', 'any', lambda a: m.get_left_set(a), real=lambda o: o.get_left_set(), unchecked=False)
op('obj.right_set', 'P21', 'any', lambda a: m.get_left_set(a, True), real=lambda o: o.get_right_set(), unchecked=False)

# --- contents (P08) -----------------------------------------------------------------------------
op('obj.eq', 'P08', 'any any', lambda a, b: a == b, real=lambda a, b: a == b, unchecked=False)
op('obj.ne', 'P08', 'any any', lambda a, b: a != b, real=lambda a, b: a != b, unchecked=False)
op('obj.hash_eq', 'P08', 'any any', lambda a, b: True if a == b else m.DONTCARE, real=lambda a, b: hash(a) == hash(b), unchecked=False)
op('obj.len', 'P08', 'coll', lambda a: len(a[1]) if a[0] == 's' else sum(n for _, n in a[1]), real=lambda a: len(a), unchecked=False)
op('obj.cardinality', 'P08', 'coll', lambda a: len(a[1]) if a[0] == 's' else sum(n for _, n in a[1]), real=lambda a: a.cardinality, unchecked=False)
op('obj.is_empty', 'P08', 'any', lambda a: a[0] in 'sm' and not a[1], real=lambda a: a.is_empty, unchecked=False)
op('obj.contains', 'P08', 'coll any', lambda a, b: b in m.elems(a), real=lambda a, b: b in a, unchecked=False)
op('obj.has_element', 'P08', 'coll any', lambda a, b: b in m.elems(a), real=lambda a, b: a.has_element(b), unchecked=False)
op('obj.multiplicity', 'P08', 'mset any', lambda a, b: dict(a[1]).get(b, 0), real=lambda a, b: a.get_multiplicity(b), unchecked=False)
op('obj.iter', 'P08', 'coll', lambda a: ('bag', a if a[0] == 'm' else m.M({e: 1 for e in a[1]})), real=lambda a: ('iter', list(a)), unchecked=False)
op('obj.in_dict', 'P08', 'any any', lambda a, b: a == b, real=lambda a, b: b in {a: 1} and b in frozenset([a]), unchecked=False)

# --- text (P20; here only run for its effect on remembered state) --------------------------------
op('obj.repr', 'P20', 'any', lambda a: m.DONTCARE, real=lambda a: (repr(a), None)[1], unchecked=False)
op('obj.str', 'P20', 'any', lambda a: m.DONTCARE, real=lambda a: (str(a), None)[1], unchecked=False)
op('obj.hash', 'P08', 'any', lambda a: m.DONTCARE, real=lambda a: (hash(a), None)[1], unchecked=False)
op('obj.ground_set', 'P07', 'any', lambda a: m.DONTCARE, real=lambda a: (a.get_ground_set(), None)[1], unchecked=False)

KINDPRED['func'] = lambda v: m.is_rel(v) and m._functional(v)
KINDPRED['coll'] = lambda v: v[0] in 'sm'

UNDEFARG = 'UNDEFARG'


def model_apply(o, margs):
    """Reference outcome for model arguments (an argument may be UNDEFARG)."""
    for k, a in zip(o.kinds, margs):
        if k == 'left':
            if a is UNDEFARG:
                return m.DONTCARE if o.undef_left is None else o.undef_left
            continue
        if a is UNDEFARG:
            return m.UNDEF
        if k in KINDPRED and not KINDPRED[k](a):
            return m.KIND
    for a in margs[len(o.kinds):]:
        if a is UNDEFARG:
            return m.UNDEF
    return o.model(*margs)


def match(got, exp):
    """Does a real outcome match the reference outcome? got: real object / bool / Undef() / ..."""
    if exp is m.DONTCARE:
        return True
    L = lib()
    undef = got is L['ud'].Undef()
    if isinstance(exp, m.U):
        return undef
    if undef:
        return False
    if isinstance(exp, (bool, int)):
        return type(got) in (bool, int) and got == exp
    if exp[0] == 'oneof':
        return to_model(got) in exp[1]
    if exp[0] == 'bag':
        if not (isinstance(got, tuple) and got[0] == 'iter'):
            return False
        d = {}
        for e in got[1]:
            e = to_model(e)
            d[e] = d.get(e, 0) + 1
        return m.M(d) == exp[1]
    return to_model(got) == exp


# --- construction from a mapping ----------------------------------------------------------------
op('relations.from_dict', 'P04', 'dict', lambda d: m.S(m.C(k, v) for k, v in d), unchecked=False, level_exempt=True)
op('clans.from_dict', 'P05', 'dict', lambda d: m.S([m.S(m.C(k, v) for k, v in d)]), unchecked=False, level_exempt=True)
op('multiclans.from_dict', 'P06', 'dict', lambda d: m.M({m.S(m.C(k, v) for k, v in d): 1}), unchecked=False, level_exempt=True)
