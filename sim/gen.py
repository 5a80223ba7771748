"""Random literals and histories. Everything is decided from the given random.Random alone."""
from . import model as m
from . import ops as O
from . import callbacks as _cb      # noqa: registers further operations
from .enc import to_m, from_m, skey, val_dec

KINDS = ['atom', 'couplet', 'aset', 'rel', 'clan', 'horde', 'mset', 'mclan', 'mixed', 'setofmset', 'mrel', 'setofmclan']


class Dom:
    """A small alphabet; small so that coincidences happen."""

    def __init__(self, rng, profile=None):
        self.profile = p = rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 4]) if profile is None else profile
        A = lambda *v: [['A', x] for x in v]
        n = rng.choice([1, 2, 2, 3])
        k = rng.choice([1, 2, 2, 3])
        if p == 0:
            self.l, self.r = A(*'abc'[:n]), A(1, 2, 3)[:k]
        elif p == 1:
            self.l = self.r = A(*'abc'[:max(n, 2)])
        elif p == 2:
            self.l = self.r = A('a', 'b')
        elif p == 3:
            vals = [1, 1.0, True, '1', 0, False, '', None, 2, 'a', {'t': 'tuple', 'v': [1, 2]}, {'t': 'bytes', 'v': '31'}]
            self.l = A(*rng.sample(vals, 3))
            self.r = self.l if rng.random() < .3 else A(*rng.sample(vals, 3))
        elif p in (5, 6, 7):      # all kinds of values / text-like values / many text values in any order
            T = lambda t, v: {'t': t, 'v': v}
            if p == 5:
                vals = [T('tuple', [1, T('tuple', [2, 'x'])]), T('tuple', []), T('frozenset', [1, T('tuple', [1, 2])]), T('bytes', '00ff41'),
                        T('bytes', ''), T('complex', [1.5, -2.0]), T('complex', [0.0, 1.0]), T('range', [0, 5, 2]), T('range', [3, 0, -1]),
                        T('inf', 0), None, True, False, 0, -1, 10 ** 20, 1e-7, 2.5, '', 'a', '\u20ac', '\ud800', '\n"\\', '__cls__', 'Atom',
                        T('tuple', [T('bytes', '31'), None, T('range', [0, 2, 1])]), T('frozenset', []), T('tuple', [T('frozenset', ['a'])]),
                        T('frozenset', [T('bytes', '6162'), T('complex', [0.0, 2.0])]), T('tuple', [T('tuple', [])])]
            elif p == 6:
                vals = ['a', 'b', 'B', "it's", 'say "x"', 'new\nline', '', ' ', 'a b', '\u00e9', '\u20ac', '\\', '{', '1', 'Atom', "a', 'b",
                        T('bytes', '61'), T('bytes', '00'), True, False]
            else:
                vals = list(range(0, 120, 7)) if rng.random() < .4 else [.5 * i - 3 for i in range(15)] if rng.random() < .5 else \
                    [c + d for c in 'abcdefgh' for d in ('', '1', '_')]
            self.l = A(*rng.sample(vals, rng.choice([3, 5, 8])))
            self.r = self.l if rng.random() < .3 else A(*rng.sample(vals, rng.choice([3, 5])))
        else:
            base = A('a', 'b')
            nest = [['S', []], ['S', [['A', 'a']]], ['C', ['A', 'a'], ['A', 'b']], ['S', [['C', ['A', 'a'], ['A', 'b']]]],
                    ['M', [[['A', 'a'], 2]]], ['M', []], ['S', [['S', []]]]]
            self.l = base + rng.sample(nest, 1)
            self.r = base + rng.sample(nest, 2)

    def left(self, rng):
        return rng.choice(self.l)

    def right(self, rng):
        return rng.choice(self.r)


def dedupe(es):
    out, seen = [], set()
    for e in es:
        k = to_m(e)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def times(rng):
    """A multiplicity; now and then a large one."""
    return rng.choice([1, 1, 2, 2, 3, 5]) if rng.random() < .97 else rng.choice([7, 8, 10, 16, 32, 50, 64, 100, 127, 128, 255, 256, 300])


def gen(rng, dom, kind, depth=0):
    """A literal of the given kind."""
    n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4]) if depth == 0 else rng.choice([0, 1, 1, 1, 2, 2, 2, 3])
    if kind == 'any':
        kind = rng.choice(KINDS)
    if kind == 'atom':
        a = rng.choice(dom.l + dom.r)
        return a if a[0] == 'A' else ['A', 'a']
    if kind == 'left':
        return dom.left(rng) if rng.random() < .85 else ['A', 'zz']
    if kind == 'couplet':
        return ['C', dom.left(rng), dom.right(rng)]
    if kind in ('aset', 'set1'):
        return ['S', dedupe([x for x in (rng.choice(dom.l + dom.r) for _ in range(n)) if x[0] == 'A'])]
    if kind == 'rel':
        return ['S', rel_body(rng, dom, n)]
    if kind == 'func':
        es, seen = [], set()
        for c in rel_body(rng, dom, n):
            k = to_m(c[1])
            if k not in seen:
                seen.add(k)
                es.append(c)
        return ['S', es]
    if kind == 'clan':
        return ['S', dedupe(clan_body(rng, dom, n))]
    if kind == 'horde':
        es = dedupe([gen(rng, dom, 'clan', depth + 1) for _ in range(max(1, min(n, 2)))])
        if depth == 0 and rng.random() < .2:
            return ['S', [['S', es]]]
        return ['S', es]
    if kind == 'mset':
        es = dedupe([gen(rng, dom, rng.choice(['atom', 'atom', 'atom', 'couplet', 'rel', 'aset']), depth + 1) for _ in range(n)])
        return ['M', [[e, times(rng)] for e in es]]
    if kind == 'mrel':
        return ['M', [[e, times(rng)] for e in rel_body(rng, dom, n)]]
    if kind == 'mclan':
        return ['M', [[e, times(rng)] for e in dedupe(clan_body(rng, dom, n))]]
    if kind == 'setofmset':
        return ['S', dedupe([gen(rng, dom, 'mset', depth + 1) for _ in range(min(n, 3))])]
    if kind == 'setofmclan':
        return ['S', dedupe([gen(rng, dom, 'mclan', depth + 1) for _ in range(min(n, 3))])]
    if kind == 'setofset':
        return ['S', dedupe([gen(rng, dom, rng.choice(['aset', 'rel', 'aset']), depth + 1) for _ in range(min(n, 3))])]
    if kind == 'mixed':
        if depth >= 2:
            return gen(rng, dom, 'atom')
        ks = rng.sample(['atom', 'couplet', 'aset', 'rel', 'clan', 'mset', 'mclan', 'mixed', 'horde'], 2)
        return ['S', dedupe([gen(rng, dom, rng.choice(ks), depth + 1) for _ in range(max(n, 1))])]
    if kind == 'set':
        return gen(rng, dom, rng.choice(['aset', 'rel', 'rel', 'clan', 'clan', 'horde', 'mixed', 'setofmset', 'setofset']), depth)
    if kind == 'coll':
        return gen(rng, dom, rng.choice(['set', 'mset', 'mclan', 'mrel']), depth)
    raise ValueError(kind)


def rel_body(rng, dom, n):
    style = rng.random()
    if style < .2:      # closed under something
        vals = dedupe([dom.left(rng) for _ in range(n)])
        es = [['C', v, v] for v in vals]
        if rng.random() < .5 and vals:
            a, b = rng.choice(vals), rng.choice(vals)
            es += [['C', a, b], ['C', b, a]]
        return dedupe(es)
    if style < .3:      # transitive-ish chain
        vals = dedupe([dom.left(rng) for _ in range(max(n, 1))])
        return dedupe([['C', vals[i], vals[j]] for i in range(len(vals)) for j in range(i + rng.choice([0, 1]), len(vals))])
    return dedupe([['C', dom.left(rng), dom.right(rng)] for _ in range(n)])


def clan_body(rng, dom, n):
    style = rng.random()
    if style < .35:     # table-like: same lefts
        ls = dedupe([dom.left(rng) for _ in range(rng.choice([1, 2, 2, 3]))])
        return [['S', [['C', l, dom.right(rng)] for l in ls]] for _ in range(n)]
    if style < .5:      # same rights
        rs = dedupe([dom.right(rng) for _ in range(rng.choice([1, 2, 2]))])
        return [['S', dedupe([['C', dom.left(rng), r] for r in rs])] for _ in range(n)]
    return [gen(rng, dom, 'rel', 1) for _ in range(n)]


LOOKALIKE = [1, 1.0, True, '1', {'t': 'bytes', 'v': '31'}, 0, 0.0, False, '', '0', None, {'t': 'tuple', 'v': []},
             {'t': 'tuple', 'v': [1]}, {'t': 'tuple', 'v': [True]}, {'t': 'tuple', 'v': [1.0]}]


def lookalike(rng, e):
    """Another literal that Python (or its text) confuses with e, if there is one."""
    if e[0] == 'A':
        v = val_dec(e[1])
        c = [x for x in LOOKALIKE if val_dec(x) == v or str(val_dec(x)) == str(v)]
        c += [int(v), float(v)] if type(v) in (bool, int, float) and v in (0, 1) else []
        c += [float(v)] if type(v) is int and abs(v) < 1000 else [int(v)] if type(v) is float and v == v // 1 and abs(v) < 1000 else []
        return ['A', rng.choice(c)] if c else e
    if e[0] == 'C':
        return ['C', lookalike(rng, e[1]), lookalike(rng, e[2])]
    if e[0] == 'S':
        return ['S', dedupe([lookalike(rng, x) if rng.random() < .5 else x for x in e[1]])]
    return e


def mirror(rng, e, p):
    """The same contents with couplets turned round (which keeps many hashes)."""
    if e[0] == 'C':
        return ['C', e[2], e[1]] if rng.random() < p else e
    if e[0] == 'S':
        return ['S', dedupe([mirror(rng, x, p) for x in e[1]])]
    if e[0] == 'M':
        out, seen = [], set()
        for x, n in e[1]:
            x = mirror(rng, x, p)
            if to_m(x) not in seen:
                seen.add(to_m(x))
                out.append([x, n])
        return ['M', out]
    return e


def related(rng, dom, v, kind):
    """A literal near the model value v (sub/superset, one element changed), of the same kind if possible."""
    e = from_m(v, rng)
    x = rng.random()
    if x < .08:
        return mirror(rng, e, rng.choice([.5, 1, 1]))
    if x < .14:
        return lookalike(rng, e)
    if e[0] not in 'SM':
        return e
    body = list(e[1])
    act = rng.random()
    if act < .45 and body:
        for _ in range(rng.choice([1, 1, 2])):
            if body:
                body.pop(rng.randrange(len(body)))
    elif act < .75:
        sub = dict(rel='couplet', func='couplet', clan='rel', mclan='rel', horde='clan', aset='atom').get(kind, 'atom')
        x = gen(rng, dom, sub, 1)
        body.append([x, rng.choice([1, 2])] if e[0] == 'M' else x)
    if e[0] == 'M':
        if rng.random() < .6 and body:
            i = rng.randrange(len(body))
            body[i] = [body[i][0], max(1, body[i][1] + rng.choice([-2, -1, 1, 2]))]
        seen, out = set(), []
        for x, n in body:
            k = to_m(x)
            if k not in seen:
                seen.add(k)
                out.append([x, n])
        body = out
    else:
        body = dedupe(body)
    # clan-like: sometimes shrink / grow one member instead
    if kind in ('clan', 'mclan') and body and rng.random() < .4:
        i = rng.randrange(len(body))
        mem = body[i][0] if e[0] == 'M' else body[i]
        mem2 = related(rng, dom, to_m(mem), 'rel')
        if e[0] == 'M':
            body[i] = [mem2, body[i][1]]
            d = {}
            for x, n in body:
                d.setdefault(to_m(x), (x, n))
            body = [[x, n] for x, n in d.values()]
        else:
            body[i] = mem2
            body = dedupe(body)
    return [e[0], body]


MAXSIZE = 90


class Hist:
    """Builds an explicit history, tracking model values so that most steps are meaningful."""

    def __init__(self, rng, profile=None):
        self.rng = rng
        self.dom = Dom(rng, profile)
        self.lits, self.steps = [], []
        self.pool = {}
        self.next = 0
        self.maxsize = MAXSIZE

    def nid(self):
        self.next += 1
        return self.next - 1

    def add_lit(self, e, route=None):
        i = self.nid()
        self.lits.append(dict(id=i, e=e, route=self.rng.randrange(5) if route is None else route))
        self.pool[i] = to_m(e)
        return i

    def pick(self, kind, fresh=.15, rel=.2):
        """An id of the given kind, possibly creating a literal."""
        rng = self.rng
        pred = O.KINDPRED[kind]
        c = [i for i, v in self.pool.items() if pred(v)]
        x = rng.random()
        if c and x > fresh + rel:
            # favour recent results: they carry propagated state
            if rng.random() < .5:
                c = c[-4:]
            return rng.choice(c)
        if c and x < rel:
            v = self.pool[rng.choice(c)]
            e = related(rng, self.dom, v, {'any': 'mixed', 'coll': 'mixed'}.get(kind, kind))
            if pred(to_m(e)):
                return self.add_lit(e)
        for _ in range(5):
            e = gen(rng, self.dom, kind)
            if pred(to_m(e)):
                return self.add_lit(e)
        return self.add_lit(e)

    def left_arg(self):
        rng = self.rng
        e = gen(rng, self.dom, 'left')
        if rng.random() < .12:
            e = lookalike(rng, e)
        if e[0] == 'A' and rng.random() < .5:
            return {'raw': e[1]}
        return {'l': e}

    def element_of(self, v, raw):
        """An element of the (multi)set v, or something easily taken for one."""
        rng = self.rng
        es = sorted(m.elems(v), key=skey)
        e = from_m(rng.choice(es), rng) if es else gen(rng, self.dom, 'atom')
        if rng.random() < .6:
            e = lookalike(rng, e) if rng.random() < .7 else mirror(rng, e, .7)
        if raw and e[0] == 'A' and rng.random() < .6:
            return {'raw': e[1]}
        return {'l': e}

    def args(self, o):
        a = []
        for k in o.kinds:
            if k == 'left':
                a.append(self.left_arg())
            elif k == 'cb':
                a.append({'cb': self.callback(o)})
            elif k == 'dict':
                a.append({'d': self.mapping()})
            elif o.cost == 'pow' and self.rng.random() < .2:
                n = self.rng.choice([5, 5, 6, 7])
                e = ['S', dedupe(rel_body(self.rng, self.dom, n) + [['A', i] for i in range(n)])[-n:]]
                a.append({'o': self.add_lit(e if self.rng.random() < .5 else ['S', dedupe(rel_body(self.rng, self.dom, n))])})
            elif k == 'any' and o.name in ('obj.contains', 'obj.has_element', 'obj.multiplicity') and self.rng.random() < .5:
                a.append(self.element_of(self.pool[a[0]['o']], o.name == 'obj.contains'))
            elif a and 'o' in a[0] and O.KINDPRED[k](self.pool[a[0]['o']]) and self.rng.random() < .3:
                # near the first operand
                e = related(self.rng, self.dom, self.pool[a[0]['o']], {'any': 'mixed', 'coll': 'mixed'}.get(k, k))
                a.append({'o': self.add_lit(e) if O.KINDPRED[k](to_m(e)) else a[0]['o']})
            else:
                a.append({'o': self.pick(k)})
        if o.var:
            for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3])):
                a.append(self.left_arg())
        return a

    def mapping(self):
        rng, d, seen = self.rng, [], set()
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k, v = self.dom.left(rng), self.dom.right(rng)
            pk = repr(val_dec(k[1])) if k[0] == 'A' else to_m(k)
            if k[0] == 'A' and not isinstance(k[1], (str, dict)):
                pk = 'num'      # 1, 1.0 and True are one key to Python
            if pk in seen or v == ['A', None]:
                continue
            seen.add(pk)
            plain = k[0] == 'A' and rng.random() < .6
            d.append([k + [1] if plain else k, v + [1] if v[0] == 'A' and rng.random() < .5 else v])
        return d

    def callback(self, o):
        rng, dom = self.rng, self.dom
        if o.name in ('extension.binary_extend', 'extension.binary_multi_extend'):
            spec = rng.choice([['pair2'], ['pair2'], ['first'], ['undef_eq'], ['lib2', 'sets.union'],
                               ['lib2', 'relations.compose'], ['lib2', 'relations.functional_union'],
                               ['lib2', 'sets.intersect'], ['lib2', 'sets.substrict']])
        elif o.name in ('extension.unary_extend', 'extension.unary_multi_extend'):
            spec = rng.choice([['id'], ['pair'], ['wrap'], ['kind'], ['card'], ['const', gen(rng, dom, 'any', 1)],
                               ['at', dom.left(rng)], ['atundef', dom.left(rng)], ['lib', 'relations.transpose'],
                               ['lib', 'relations.get_lefts'], ['lib', 'clans.transpose']])
        elif o.name == 'sets.restrict':
            spec = rng.choice([['in', [gen(rng, dom, 'any', 1) for _ in range(3)]], ['query', 'relations.is_functional'],
                               ['query', 'relations.is_member'], ['query', 'relations.is_symmetric'],
                               ['not', ['query', 'clans.is_member']], ['query', 'clans.is_regular']])
        else:
            spec = rng.choice([['const', ['A', 1]], ['id'], ['pair'], ['kind'], ['card'], ['rawcard'],
                               ['at0', dom.left(rng)], ['wrap']])
        if rng.random() < .12:
            spec = ['fail', spec, rng.choice([1, 1, 2, 3])]
        return spec

    def margs(self, args):
        out = []
        for a in args:
            if 'o' in a:
                if a['o'] not in self.pool:
                    return None
                out.append(self.pool[a['o']])
            elif 'raw' in a:
                out.append(m.A(val_dec(a['raw'])))
            elif 'l' in a:
                out.append(to_m(a['l']))
            elif 'u' in a:
                out.append(O.UNDEFARG)
            else:
                from .hist import model_arg
                out.append(model_arg(a))
        return out

    def step(self, name, args=None, **kw):
        o = O.OPS[name]
        if args is None:
            args = self.args(o)
        ma = self.margs(args)
        if ma is None:
            return None
        large = o.cost == 'pow' and ma[0] is not O.UNDEFARG and ma[0][0] == 's' and len(ma[0][1]) > 4
        if large and (len(ma[0][1]) > 7 or self.rng.random() < .6):
            return None
        r = O.model_apply(o, ma)
        if not large and isinstance(r, tuple) and r[0] in 'acsm' and m.size(r) > self.maxsize:
            return None
        i = self.nid()
        st = dict(id=i, op=name, args=args)
        st.update(kw)
        if 'unchecked' not in kw and o.unchecked and self.rng.random() < (.4 if any(a is O.UNDEFARG for a in ma) else .15) and \
                (not isinstance(r, m.U) or not o.var and all(k in ('left', 'cb', 'dict') or a is O.UNDEFARG or O.KINDPRED[k](a)
                                                             for k, a in zip(o.kinds, ma))):
            st['unchecked'] = 1
            # unchecked variants require algebra members as operands; plain Python values are not converted
            st['args'] = [({'l': ['A', a['raw']]} if 'raw' in a else a) for a in args]
        self.steps.append(st)
        if isinstance(r, tuple) and r[0] in ('a', 'c', 's', 'm') and not large:
            self.pool[i] = r
        return i

    def case(self, **kw):
        used = dict(world='hist', lits=self.lits, steps=self.steps)
        used.update(kw)
        return used


GROUPS = O.GROUPS_BY_PROP
EFFECTS = ['obj.repr', 'obj.str', 'obj.hash', 'obj.ground_set']
ALLOPS = sorted(n for p in ('P02', 'P03', 'P04', 'P05', 'P06', 'P08', 'P18', 'P21') for n in GROUPS[p])
RESULTOPS = sorted(n for p in ('P03', 'P04', 'P05', 'P06', 'P18', 'P21') for n in GROUPS[p])
QUERIES = GROUPS['P02']


QUERIES1 = [n for n in QUERIES if len(O.OPS[n].kinds) == 1] + EFFECTS + ['obj.left_set', 'obj.right_set']


def ask(rng, h, args, p):
    """Ask the operands everything they can be asked, with probability p each."""
    for i in sorted({a['o'] for a in args if 'o' in a}):
        v = h.pool.get(i)
        if v is None:
            continue
        for q in QUERIES1:
            if rng.random() < p and O.KINDPRED[O.OPS[q].kinds[0]](v):
                h.step(q, [{'o': i}], quiet=1)
        for q in ('obj.call', 'obj.getitem'):
            if rng.random() < p / 2:
                h.step(q, [{'o': i}, h.left_arg()], quiet=1)


def nofail(spec):
    return spec[1] if spec[0] == 'fail' else spec


def badarg(rng, h, o, args):
    """Replace one operand by one of the wrong kind or by the undefined value."""
    ix = [i for i, k in enumerate(o.kinds) if k in ('set', 'rel', 'clan', 'mset', 'mclan', 'couplet', 'func')]
    if not ix:
        return args
    i = rng.choice(ix)
    args = list(args)
    if rng.random() < .35:
        args[i] = {'u': 1}
    else:
        k = rng.choice(['atom', 'couplet', 'aset', 'rel', 'clan', 'mset', 'mclan', 'horde', 'mixed'])
        args[i] = {'o': h.add_lit(gen(rng, h.dom, k))}
    return args


def history(rng, prop, steps=None, focus=None, profile=None, levels=False, interrupts=0.0, sweep=False):
    """A random history for the given property."""
    h = Hist(rng, profile)
    own = focus or GROUPS.get(prop) or ALLOPS
    if prop in ('P01', 'P07', 'P09', 'P10', 'P11'):
        own = rng.choice([ALLOPS, ALLOPS, GROUPS['P03'], GROUPS['P04'], GROUPS['P05'], GROUPS['P06'], GROUPS['P02'], GROUPS['P18']])
    n = steps or rng.choice([3, 5, 8, 12, 18])
    # in some histories the operands of an operation are asked about themselves first, so that they remember things
    curious = rng.choice([0, 0, .3, .9])
    if curious:
        n = min(n, 8)
    for _ in range(rng.choice([1, 2, 3])):
        h.add_lit(gen(rng, h.dom, rng.choice(KINDS)))
    for _ in range(n):
        x = rng.random()
        if levels and x < .18:
            h.steps.append({'level': rng.choice([0, 1, 1, 2, 2, 3, None])})
            continue
        if x < .55:
            name = rng.choice(own)
        elif x < .75:
            name = rng.choice(QUERIES)
        elif x < .82:
            name = rng.choice(EFFECTS)
        else:
            name = rng.choice(RESULTOPS)
        o = O.OPS[name]
        args = h.args(o)
        kw = {}
        y = rng.random()
        if y < (.3 if levels else .08) and not name.startswith('obj.'):
            args = badarg(rng, h, o, args)
        if curious and name not in QUERIES and rng.random() < curious:
            ask(rng, h, args, rng.choice([.1, .3, .9]))
        if interrupts and rng.random() < interrupts:
            kw['int'] = [rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55, rng.randrange(1, 200)]),
                         rng.choice(['interrupt', 'interrupt', 'memory', 'recursion'])]
        i = h.step(name, args, **kw)
        if i is None:
            continue
        st = h.steps[-1]
        if st.get('unchecked') == 0:
            del st['unchecked']
        if 'int' in st:
            again = {k: v for k, v in st.items() if k not in ('int', 'id')}
            again['id'] = h.nid()
            v = h.pool.pop(st['id'], None)
            if v is not None:
                h.pool[again['id']] = v
            h.steps.append(again)
        elif any('cb' in a and a['cb'][0] == 'fail' for a in st['args']):
            again = dict(st, id=h.nid(), args=[({'cb': a['cb'][1]} if 'cb' in a and a['cb'][0] == 'fail' else a) for a in st['args']])
            h.pool.pop(st['id'], None)
            h.steps.append(again)
            if rng.random() < .5:
                # not the same function again, but another one
                again['args'] = [({'cb': nofail(h.callback(o))} if 'cb' in a else a) for a in again['args']]
    c = h.case(prop=prop)
    if sweep:
        c['sweep'] = 1
    return c


def remembered(rng, prop):
    """Short histories aimed at what an operation concludes from what its operands remember: the operands are near each
    other, are asked about themselves, and only then operated on."""
    h = Hist(rng, rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4]))
    own = rng.choice([ALLOPS, GROUPS['P03'], GROUPS['P04'], GROUPS['P05'], GROUPS['P06'], GROUPS['P18']])
    ops = [n for n in own if n not in QUERIES and not n.startswith('obj.')] or RESULTOPS
    for _ in range(rng.choice([1, 2, 4])):
        o = O.OPS[rng.choice(ops)]
        kinds = o.kinds
        if o.name.startswith(('sets.', 'multisets.')):
            # relations and clans are where most can be remembered
            k = rng.choice(['rel', 'rel', 'clan', 'clan', 'aset', 'horde', 'mixed'] if o.name[0] == 's' else
                           ['mclan', 'mclan', 'mset', 'mrel'])
            if 'big_' in o.name:
                k = 'clan' if o.name[0] == 's' and rng.random() < .7 else 'set'
        else:
            k = None
        first = None
        args = []
        for kind in kinds:
            if kind in ('left', 'cb', 'dict'):
                args.append(h.left_arg() if kind == 'left' else {'cb': h.callback(o)} if kind == 'cb' else {'d': h.mapping()})
                continue
            g = k or {'any': rng.choice(KINDS), 'coll': rng.choice(KINDS[2:])}.get(kind, kind)
            pred = O.KINDPRED[kind]
            for _ in range(8):
                if first is not None and rng.random() < .5:
                    e = related(rng, h.dom, first, {'mixed': 'mixed'}.get(g, g))
                else:
                    e = gen(rng, h.dom, g)
                if pred(to_m(e)):
                    break
            else:
                e = gen(rng, h.dom, kind)
            i = h.add_lit(e)
            if first is None:
                first = h.pool[i]
            args.append({'o': i})
        if o.var:
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                args.append(h.left_arg())
        ask(rng, h, args, rng.choice([.15, .5, 1, 1]))
        r = h.step(o.name, args)
        if r in h.pool and rng.random() < .5:
            ask(rng, h, [{'o': r}], .5)
    return h.case(prop=prop)


def big_lit(rng, kind, n, ints):
    """A literal with about n elements (rows, couplets, ...), often with a property that a single element breaks."""
    K = (lambda i: ['A', i]) if ints else (lambda i: ['A', 'k%d' % i])
    V = (lambda i: ['A', i]) if rng.random() < .5 else (lambda i: ['A', 'v%d' % i])
    C = lambda a, b: ['C', a, b]
    if kind == 'aset':
        return ['S', [K(i) for i in range(n)]]
    if kind == 'mset':
        return ['M', [[K(i), rng.choice([1, 1, 2, 3, 70])] for i in range(n)]]
    if kind in ('rel', 'func', 'mrel'):
        style = rng.randrange(6)
        if kind == 'func' or style == 0:
            es = [C(K(i), V(i if rng.random() < .8 else 0)) for i in range(n)]
            if kind != 'func' and rng.random() < .6:
                es.append(C(K(rng.randrange(n)), V(n)))
        elif style == 1:
            k = rng.choice([1, 2, 7])
            es = [C(K(i % k), V(i)) for i in range(n)]
        elif style == 2:        # reflexive and symmetric but for one
            es = [C(K(i), K(i)) for i in range(n)]
            for _ in range(rng.choice([0, 1, 3])):
                a, b = rng.randrange(n), rng.randrange(n)
                es += [C(K(a), K(b)), C(K(b), K(a))]
            if rng.random() < .6:
                es.pop(rng.randrange(len(es)))
        elif style == 3:        # an equivalence (blocks) but for one
            k = rng.choice([2, 3, 5])
            es = [C(K(i), K(j)) for i in range(n // k) for j in range(n // k) if i % k == j % k][:2 * n]
            if es and rng.random() < .6:
                es.pop(rng.randrange(len(es)))
        elif style == 4:        # a one-to-one map and its mirror image
            es = [C(K(i), K(n + i)) for i in range(n // 2)] + [C(K(n + i), K(i)) for i in range(n // 2)]
            if es and rng.random() < .6:
                es.pop(rng.randrange(len(es)))
        else:
            es = [C(K(rng.randrange(n)), V(rng.randrange(n))) for _ in range(n)]
        es = dedupe(es)
        rng.shuffle(es)
        return ['M', [[e, rng.choice([1, 1, 2, 60])] for e in es]] if kind == 'mrel' else ['S', es]
    # tables: many rows, or few wide ones
    if rng.random() < .75:
        rows = [['S', [C(['A', 'id'], K(i)), C(['A', 'x'], V(i % rng.choice([1, 3, 10]))), C(['A', 'y'], V(i))][:rng.choice([1, 3, 3, 3])]]
                for i in range(n)]
        if rng.random() < .5:
            i = rng.randrange(n)
            rows[i] = ['S', rows[i][1][1:]] if rng.random() < .5 else ['S', rows[i][1] + [C(['A', 'x'], ['A', 'odd'])]]
    else:
        rows = [['S', [C(K(i), V(i % k)) for i in range(n)]] for k in (1, 2, n)[:rng.choice([1, 2, 3])]]
        if rng.random() < .5:
            rows[0][1].pop(rng.randrange(n))
    rows = dedupe(rows)
    if kind == 'horde':
        k = max(1, len(rows) // 3)
        return ['S', dedupe([['S', rows[:k]], ['S', rows[k:2 * k]], ['S', rows[2 * k:]]])]
    if kind == 'mclan':
        return ['M', [[r, rng.choice([1, 1, 2, 3, 40])] for r in rows]]
    return ['S', rows]


def big(rng, prop):
    """A short history over a few large objects (one operand may be small)."""
    h = Hist(rng, 0)
    h.maxsize = 6000
    n = rng.choice([12, 20, 35, 66, 66, 130, 130, 260, 300])
    ints = rng.random() < .6
    own = GROUPS.get(prop)
    if not own or prop in ('P01', 'P07'):
        own = RESULTOPS + QUERIES + GROUPS['P08']
    kinds = [k for k in ('aset', 'mset', 'rel', 'func', 'mrel', 'clan', 'horde', 'mclan')]
    first = h.add_lit(big_lit(rng, rng.choice(kinds), n, ints))
    for _ in range(rng.choice([1, 2, 3, 4])):
        for _ in range(12):
            o = O.OPS[rng.choice(own)]
            if o.cost or o.name in ('obj.in_dict',):
                continue
            k0 = (o.kinds or ['left'])[0]
            if k0 not in ('left', 'dict') and rng.random() < .8 and not any(O.KINDPRED[k0](v) for v in h.pool.values()):
                continue
            break
        args = []
        for k in o.kinds:
            if k == 'left':
                args.append({'l': ['A', rng.randrange(n) if ints else 'k%d' % rng.randrange(n)]} if rng.random() < .6 else
                            {'l': ['A', rng.choice(['id', 'x', 'y'])]})
            elif k == 'cb':
                args.append({'cb': h.callback(o)})
            elif k == 'dict':
                args.append({'d': [[['A', 'k%d' % i], ['A', i]] for i in range(n)]})
            else:
                c = [i for i, v in h.pool.items() if O.KINDPRED[k](v)]
                x = rng.random()
                heavy = args and 'o' in args[0] and o.name.startswith(('clans.', 'multiclans.', 'extension.')) and len(o.kinds) > 1 \
                    and len(h.pool[args[0]['o']][1]) * n > 900
                if c and x < .45 and not heavy:
                    args.append({'o': rng.choice(c)})
                    continue
                g = {'set': rng.choice(['aset', 'rel', 'clan']), 'coll': rng.choice(kinds), 'any': rng.choice(kinds)}.get(k, k)
                if heavy or x > .85 or g == 'couplet':
                    e = gen(rng, h.dom, g)
                    if c and heavy and rng.random() < .5:
                        v = h.pool[rng.choice(c)]
                        e = [from_m(v)[0], from_m(v)[1][:rng.choice([1, 2])]]
                elif c and x < .65:
                    e = related(rng, h.dom, h.pool[rng.choice(c)], g)
                else:
                    e = big_lit(rng, g, rng.choice([n, n - 1, n // 2 + 1]), ints)
                if not O.KINDPRED[k](to_m(e)):
                    e = gen(rng, h.dom, k)
                args.append({'o': h.add_lit(e)})
        if o.var:
            for _ in range(rng.choice([1, 2, 20, n])):
                args.append({'l': ['A', rng.randrange(n) if ints else 'k%d' % rng.randrange(n)]} if rng.random() < .8 else
                            {'l': ['A', rng.choice(['id', 'x', 'y'])]})
        ix = [i for i, a in enumerate(args) if 'o' in a]
        if len(ix) == 2 and rng.random() < .45:
            unbalance(rng, h, o, args, ix)
        if rng.random() < .3:
            ask(rng, h, args, .3)
        h.step(o.name, args)
    c = h.case(prop=prop)
    if rng.random() < .3:
        c['sweep'] = 1
    return c


def unbalance(rng, h, o, args, ix):
    """Let one operand be just a few elements of the other, and perhaps one more."""
    i, j = rng.choice([ix, ix[::-1]])
    e = from_m(h.pool[args[i]['o']])
    if e[0] not in 'SM' or not e[1]:
        return
    e = [e[0], rng.sample(e[1], min(len(e[1]), rng.choice([1, 1, 2, 5])))]
    if rng.random() < .7:
        sub = dict(rel='couplet', func='couplet', mrel='couplet', clan='rel', mclan='rel', horde='clan')
        v = h.pool[args[i]['o']]
        y = gen(rng, h.dom, next((sub[k] for k in ('rel', 'clan', 'mclan') if O.KINDPRED[k](v)), 'atom'), 1)
        e[1].append([y, 1] if e[0] == 'M' else y)
        rng.shuffle(e[1])
        e = [e[0], dedupe(e[1])] if e[0] == 'S' else e
    v = to_m(e)
    if O.KINDPRED[o.kinds[j]](v) and (e[0] == 'S' or len(v[1]) == len(e[1])):
        args[j] = {'o': h.add_lit(e)}


def lookups(rng, prop, interrupts=0.0):
    """Many lookups in few objects, with lefts that are easily confused with one another."""
    h = Hist(rng, rng.choice([0, 1, 2, 3, 3, 3, 4]))
    ids = [h.add_lit(gen(rng, h.dom, rng.choice(['rel', 'func', 'func', 'clan', 'mclan', 'mclan', 'mrel', 'mrel', 'horde', 'mset', 'mixed',
                                                  'setofmclan', 'couplet', 'atom'])))
           for _ in range(rng.choice([1, 1, 2, 3]))]
    lefts = [h.left_arg() for _ in range(rng.choice([1, 2, 3]))]
    for a in list(lefts):
        e = lookalike(rng, ['A', a['raw']] if 'raw' in a else a['l'])
        lefts.append({'raw': e[1]} if e[0] == 'A' and rng.random() < .5 else {'l': e})
    names = GROUPS['P21'] * 2 + ['relations.get_right', 'relations.get_left', 'relations.get_rights_for_left', 'relations.defined_at',
                                 'clans.defined_at', 'multiclans.get_rights_for_left', 'multiclans.defined_at', 'clans.project',
                                 'multiclans.project'] + ['obj.call', 'obj.getitem'] * 4
    for _ in range(rng.choice([4, 8, 14])):
        if rng.random() < .12:
            ask(rng, h, [{'o': rng.choice(ids)}], .3)
        o = O.OPS[rng.choice(names)]
        i = rng.choice(ids)
        if not O.KINDPRED[o.kinds[0]](h.pool[i]):
            o = O.OPS[rng.choice(['obj.call', 'obj.getitem'])]
        args = [{'o': i}] + [rng.choice(lefts) for k in o.kinds[1:]] + [rng.choice(lefts) for _ in range(rng.choice([0, 1, 2]) if o.var else 0)]
        kw = {}
        if interrupts and rng.random() < interrupts:
            kw['int'] = [rng.randrange(1, 40), rng.choice(['interrupt', 'memory', 'recursion'])]
        r = h.step(o.name, args, **kw)
        if kw and r is not None:
            h.pool.pop(r, None)
            h.step(o.name, args)
    return h.case(prop=prop)


def cuts(rng, prop):
    """One operation or query on fresh objects, cut short at many different places; each time it is repeated afterwards."""
    h = Hist(rng, rng.choice([0, 0, 1, 2, 3, 4]))
    own = rng.choice([ALLOPS, QUERIES, QUERIES, QUERIES, QUERIES, GROUPS['P03'], GROUPS['P04'], GROUPS['P05'], GROUPS['P06'], GROUPS['P18'], GROUPS['P21']])
    o = O.OPS[rng.choice(own)]
    first = None
    args = []
    for kind in o.kinds:
        if kind in ('left', 'cb', 'dict'):
            args.append(h.left_arg() if kind == 'left' else {'cb': nofail(h.callback(o))} if kind == 'cb' else {'d': h.mapping()})
            continue
        g = {'any': rng.choice(['rel', 'clan', 'mclan', 'clan', 'mclan', 'horde', 'clan', 'mixed', 'couplet'][: 9 if rng.random() < .5 else 7]), 'coll': rng.choice(KINDS[2:])}.get(kind, kind)
        for _ in range(8):
            e = related(rng, h.dom, first, g) if first is not None and rng.random() < .5 else gen(rng, h.dom, g)
            if O.KINDPRED[kind](to_m(e)):
                break
        else:
            e = gen(rng, h.dom, kind)
        i = h.add_lit(e)
        first = first or h.pool[i]
        args.append({'o': i})
    if o.var:
        for _ in range(rng.choice([0, 1, 2, 3])):
            args.append(h.left_arg())
    if rng.random() < .3:
        ask(rng, h, args, rng.choice([.1, .5]))
    before, h.steps = h.steps, []
    if h.step(o.name, args) is None:
        return cuts(rng, prop)
    act = h.steps.pop()
    act.pop('quiet', None)
    again = dict(act, id=h.nid())
    ask(rng, h, args, rng.choice([0, .2, 1]))
    n = rng.choice([20, 40, 90])
    ks = sorted(set(range(1, n)) if rng.random() < .6 else {rng.randrange(1, 6 * n) for _ in range(n)})
    return dict(world='cuts', prop=prop, lits=h.lits, before=before, act=act, again=again, after=h.steps,
                cuts=[[k, rng.choice(['interrupt', 'interrupt', 'memory', 'recursion'])] for k in ks], sweep=int(rng.random() < .2))
