"""Derived descriptions of objects: ground sets, LaTeX and HTML renderings, and their order; models and checks (P20, P24, P25)."""
import contextlib
import io
import itertools

from . import model as m
from .enc import lib, build, from_m, show, to_model

# --- ground sets ----------------------------------------------------------------------------------
E, A, M, N = ('E',), ('A',), ('M',), ('N',)


def sub(x, y):
    """Is structure x a subset of structure y? (normal forms)"""
    if x == E or y == M and x != N:      # (N is not part of M in this library)
        return True
    if x[0] == 'U':
        return all(sub(e, y) for e in x[1])
    if y[0] == 'U':
        return any(sub(x, e) for e in y[1])
    if x[0] == 'X' and y[0] == 'X':
        return sub(x[1], y[1]) and sub(x[2], y[2])
    if x[0] == 'P' and y[0] == 'P':
        return sub(x[1], y[1])
    return x == y


def union(xs):
    flat = set()
    for x in xs:
        flat |= set(x[1]) if x[0] == 'U' else {x}
    top = [x for x in flat if not any(y != x and sub(x, y) for y in flat)]
    return top[0] if len(top) == 1 else ('U', frozenset(top))


def ground(mv):
    if mv[0] == 'a':
        return A
    if mv[0] == 'c':
        return ('X', ground(mv[1]), ground(mv[2]))
    if mv[0] == 's':
        return ('P', union([ground(e) for e in mv[1]])) if mv[1] else E
    return ('P', ('X', union([ground(e) for e, _ in mv[1]]) if mv[1] else E, N))


def norm(s):
    """Real structure -> normal form, exactly as it stands (a union keeps the members it has)."""
    st = structure()
    t = type(s)
    if t is st.Structure:
        return E
    for c, v in ((st.GenesisSetA, A), (st.GenesisSetM, M), (st.GenesisSetN, N)):
        if t is c:
            return v
    if t is st.CartesianProduct:
        return ('X', norm(s.left), norm(s.right))
    if t is st.PowerSet:
        return ('P', norm(s.base_set))
    if t is st.Union:
        d = [norm(e) for e in s.data]
        return d[0] if len(d) == 1 else ('U', frozenset(d))
    raise ValueError('unknown structure %r' % t)


def structure():
    import algebraixlib.structure as s
    return s


def txt(x):
    if x[0] == 'U':
        return '(%s)' % ' U '.join(sorted(txt(e) for e in x[1]))
    if x[0] == 'X':
        return '(%s x %s)' % (txt(x[1]), txt(x[2]))
    if x[0] == 'P':
        t = txt(x[1])
        return ('P%s' if t[0] in 'P(' else 'P(%s)') % t
    return '{}' if x == E else x[0]


def level(x, y):
    """Number of power set levels between x and y."""
    def rec(s, k):
        if s[0] == 'U':
            ls = {rec(e, k) for e in s[1]}
            return ls.pop() if len(ls) == 1 else 0
        if s[0] != 'P':
            return 0
        return k + 1 if sub(s[1], y) else rec(s[1], k + 1)
    return rec(x, 0) if x[0] == 'P' else 0


def make(spec):
    """A real structure from its description; unions of unions and of one member are built as described."""
    st = structure()
    k = spec[0]
    if k == 'P':
        return st.PowerSet(make(spec[1]))
    if k == 'X':
        return st.CartesianProduct(make(spec[1]), make(spec[2]))
    if k == 'U':
        return st.Union([make(x) for x in spec[1]])
    return dict(E=st.Structure, A=st.GenesisSetA, M=st.GenesisSetM, N=st.GenesisSetN)[k]()


def mspec(spec):
    k = spec[0]
    if k == 'P':
        return ('P', mspec(spec[1]))
    if k == 'X':
        return ('X', mspec(spec[1]), mspec(spec[2]))
    if k == 'U':
        return union([mspec(x) for x in spec[1]])
    return (k,)


def gen_spec(rng, d=0):
    x = rng.random()
    if d > 2 or x < .3:
        return [rng.choice('AAAMAE' if d else 'AAM')]
    if x < .5:
        return ['P', gen_spec(rng, d + 1)]
    if x < .75:
        return ['X', gen_spec(rng, d + 1), gen_spec(rng, d + 1)]
    return ['U', [gen_spec(rng, d + 1) for _ in range(rng.choice([1, 2, 2, 3, 4]))]]


def shuffled(rng, s):
    """Another way to write the same structure."""
    if s[0] == 'U':
        es = [shuffled(rng, e) for e in s[1]]
        rng.shuffle(es)
        if rng.random() < .4:
            es.append(rng.choice(es))
        if rng.random() < .3 and len(es) > 1:
            k = rng.randrange(1, len(es))
            es = [['U', es[:k]]] + es[k:]
        return ['U', es]
    if s[0] in 'PX':
        return [s[0]] + [shuffled(rng, e) for e in s[1:]]
    return ['U', [s]] if rng.random() < .15 else s


ALGEBRAS = dict(couplets=(m.is_couplet, ('X', M, M)), sets=(m.is_set, ('P', M)), relations=(m.is_rel, ('P', ('X', M, M))),
                clans=(m.is_clan, ('P', ('P', ('X', M, M)))), multisets=(m.is_mset, ('P', ('X', M, N))),
                multiclans=(m.is_mclan, ('P', ('X', ('P', ('X', M, M)), N))))


def emptied(mv):
    """Does mv hold or consist of an empty (multi)set anywhere?"""
    if mv[0] == 'a':
        return False
    if mv[0] == 'c':
        return emptied(mv[1]) or emptied(mv[2])
    if not mv[1]:
        return True
    return any(emptied(e) for e in m.elems(mv))


def ground_text(o):
    g = o.get_ground_set()
    return [str(g), repr(g)]


def check_grounds(w, specs):
    """P24 at the end of a stage."""
    res = w.res
    st = structure()
    items = []
    seen = {}
    for i in sorted(w.objs, key=str):
        mv = w.models[i]
        if (mv in seen and seen[mv] > 1) or len(items) > 14:
            continue
        seen[mv] = seen.get(mv, 0) + 1
        o = w.objs[i]
        want = ground(mv)
        fresh = build(from_m(mv)).get_ground_set()
        g = o.get_ground_set()
        res.checks += 4
        got = norm(g)
        if got != want:
            w.bad('the ground set of %s is %s, not %s' % (show(mv), txt(got), txt(want)), 'ground')
            continue
        if not (g == fresh) or g != fresh or hash(g) != hash(fresh) or str(g) != str(fresh) or repr(g) != repr(fresh):
            w.bad('two objects %s have different ground sets: %r, %r' % (show(mv), g, fresh), 'ground')
        if str(g) != txt(want):
            w.bad('the ground set of %s is shown as %s, not %s' % (show(mv), g, txt(want)), 'ground-text')
        items.append((g, want))
        if not emptied(mv):
            for name, (pred, gs) in sorted(ALGEBRAS.items()):
                if m.is_mset(mv) and name == 'sets':
                    continue            # P(A x N) is a subset of P(M)
                alg = lib()[name].get_ground_set()
                res.checks += 2
                if norm(alg) != gs:
                    w.bad('the ground set of %s is %s' % (name, alg), 'algebra')
                elif (g <= alg) is not pred(mv) and (g <= alg) != pred(mv):
                    w.bad('%s is%s in %s, but its ground set %s is%s in %s' % (show(mv), '' if pred(mv) else ' not', name, g,
                                                                            ' not' if pred(mv) else '', alg), 'algebra')
                absolute = lib()[name].get_absolute_ground_set()
                isabs = pred(mv) and (m.absolute(mv) is True if name not in ('sets', 'multisets') else
                                      all(m.is_atom(e) for e in m.elems(mv)))
                if (g <= absolute) != isabs:
                    w.bad('%s is%s an absolute member of %s, but its ground set %s is%s in %s'
                          % (show(mv), '' if isabs else ' not', name, g, '' if g <= absolute else ' not', absolute), 'algebra')
            for base in (m_c, ('P', m_c)):
                k = g.get_powerset_level(make(base))
                if k != level(want, base):
                    w.bad('%s is %d power sets above %s, not %d' % (g, k, txt(base), level(want, base)), 'level')
    for s in specs:
        try:
            g = make(s)
        except Exception as e:
            w.bad('building the structure %s: %r' % (txt(mspec(s)), e), 'build')
            continue
        want = mspec(s)
        res.checks += 2
        if norm(g) != want:
            w.bad('the structure %s is built as %s' % (txt(want), txt(norm(g))), 'build')
            continue
        if str(g) != txt(want):
            w.bad('the structure %s is shown as %s' % (txt(want), g), 'ground-text')
        back = eval(repr(g), vars(st).copy())
        if not (back == g) or norm(back) != want:
            w.bad('the representation of %s evaluates to %s' % (txt(want), back), 'ground-text')
        items.append((g, want))
    for (g, x), (h, y) in itertools.product(items, items):
        res.checks += 1
        if (g == h) != (x == y) or (g != h) == (x == y) or x == y and hash(g) != hash(h):
            w.bad('%r == %r: %r, hashes %s' % (g, h, g == h, 'agree' if hash(g) == hash(h) else 'differ'), 'same')
        elif (g <= h) != sub(x, y) or g.is_subset(h) != sub(x, y):
            w.bad('%s <= %s: %r' % (g, h, g <= h), 'subset')
        elif g.get_powerset_level(h) != (0 if type(g) is st.Union else level(x, y)):    # (0 for any union, by its documentation)
            w.bad('%s is %r power sets above %s, not %d' % (g, g.get_powerset_level(h), h, level(x, y)), 'level')
    for (g, x) in items[:6]:
        for ys in itertools.combinations(items, 2):
            want = union([x] + [y for _, y in ys])
            res.checks += 1
            u = st.Union([g] + [h for h, _ in ys])
            if norm(u) != want:
                w.bad('the union of %s is %s' % (', '.join(map(str, [g] + [h for h, _ in ys])), u), 'union')
                return


m_c = ('X', M, M)


# --- order ----------------------------------------------------------------------------------------
def check_order(w, textual):
    """P20: `<` is a strict order of everything, the same as that of fresh objects."""
    res = w.res
    items, total = [], 0
    for i in sorted(w.objs, key=str):
        n = m.size(w.models[i])
        if items and total + n > 700:      # comparing large objects with everything takes too long
            continue
        if len(items) < 9 and textual(('s', frozenset([w.models[i]] + [mv for mv, _, _ in items]))):
            items.append((w.models[i], w.objs[i], build(from_m(w.models[i]))))
            total += n
    for a, x, x2 in items:
        for b, y, y2 in items:
            res.checks += 1
            lt, gt, eq = x < y, y < x, x == y
            if (lt, gt, eq).count(True) != 1 or (lt, gt, eq).count(False) != 2:
                w.bad('%s < %s: %r, > %r, == %r' % (show(a), show(b), lt, gt, eq), 'order')
            if (x <= y, x >= y, x > y) != (lt or eq, gt or eq, gt):
                w.bad('%s <= %s: %r, >= %r, > %r, but < %r, == %r' % (show(a), show(b), x <= y, x >= y, x > y, lt, eq), 'order')
            if (x2 < y) is not lt or (x < y2) is not lt:
                w.bad('%s < %s is %r, but otherwise for equal objects' % (show(a), show(b), lt), 'order')
    s = sorted(items, key=lambda t: _Key(t[1]))
    for i, j in itertools.combinations(range(len(s)), 2):
        if s[j][1] < s[i][1]:
            w.bad('%s < %s, although sorted the other way round' % (show(s[j][0]), show(s[i][0])), 'order')
    return s


class _Key:
    def __init__(self, o):
        self.o = o

    def __lt__(self, other):
        return self.o < other.o


# --- LaTeX and HTML -------------------------------------------------------------------------------
DEFAULTS = dict(colorize_output=True, short_atom_len=10, short_set_len=4)


def lp():
    import algebraixlib.util.latexprinter as x
    return x


def configure(cfg):
    for k, v in DEFAULTS.items():
        setattr(lp().Config, k, cfg.get(k, v))


def latex(o, short, cfg):
    """Reference rendering of a real object, from its contents, the order of objects and the text of atoms."""
    c = dict(DEFAULTS, **cfg)
    sub = lambda x: latex(x, short, cfg)
    if o.is_atom:
        s = str(o)
        if short and len(s) > c['short_atom_len'] + 3:
            s = s[:c['short_atom_len']] + '...'
        return '\\mbox{%s}' % s
    if o.is_couplet:
        def comp(x, color):
            t = sub(x)
            if c['colorize_output']:
                t = '\\color{%s}{%s}' % (color, t)
            return t if x.is_atom else '\\left(%s\\right)' % t
        return '%s{\\mapsto}{%s}' % (comp(o.left, 'red'), comp(o.right, 'blue'))
    es = sorted(o.data)
    nested = any(e.is_set or e.is_multiset for e in es)
    shown, rest = es, ''
    sep = ',\\\\\n' if nested else ',\\ '
    if short and len(es) > c['short_set_len'] + 1:
        shown = es[:c['short_set_len']]
        rest = sep + '\\text{...}(%d)' % (len(es) - len(shown))
    mixed = o.is_set and not nested and len({e.is_couplet for e in shown}) == 2
    out = []
    for e in shown:
        t = sub(e)
        if mixed and e.is_couplet:
            t = '(%s)' % t
        if o.is_multiset:
            t += ':\\ %d' % o.data[e]
        out.append(t)
    t = sep.join(out) + rest
    if nested:
        t = '\\begin{array}{l}%s\\end{array}' % t
    return ('\\left\\{%s\\right\\}' if o.is_set else '\\left[%s\\right]') % t


def renderings(o):
    f = lp().math_object_to_latex
    return [f(o), f(o, short=True)]


def check_latex(w, i, cfg, where):
    o, mv = w.objs[i], w.models[i]
    f = lp().math_object_to_latex
    fresh = build(from_m(mv), 1)
    for short in (False, True):
        w.res.checks += 1
        got, want, other = f(o, short), latex(fresh, short, cfg), f(fresh, short)
        if got != other:
            w.bad('two objects %s are rendered differently%s: %r, %r' % (show(mv), ' (short)' if short else '', got, other), where)
        elif got != want:
            w.bad('%s is rendered%s as %r, not %r' % (show(mv), ' (short)' if short else '', got, want), where)


def check_page(w, ids, page, cfg, where):
    """A page shows title, texts and renderings, escaped, in the given order."""
    import html
    import algebraixlib.util.html as h
    w.res.checks += 1
    title, texts, style = page[:3]
    shapes = page[3] if len(page) > 3 else [0] * len(ids)
    esc = html.escape
    tex = lambda i: esc(latex(build(from_m(w.models[i])), False, cfg))
    if style == 2:
        i = ids[0]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got = h.create_simple_web_page(w.objs[i])
        if out.getvalue() != got + '\n':
            w.bad('the page printed is not the page returned', where)
        return in_order(w, got, ['<div id="dataAlgebraArea">%s</div>' % esc(str(build(from_m(w.models[i])))), '<div id="latexArea">$$', tex(i) + '$$</div>',
                                 '</html>'], where)
    if style == 3:
        d = h.build_descriptors_from_math_obj([w.objs[i] for i in ids])
        texts = [[str(build(from_m(w.models[i]))), None] for i in ids]
        shapes = [0] * len(ids)
    else:
        d = [h.DataAlgebraHtmlDescriptor(a, construct(w, i, ids, sh), b) for i, (a, b), sh in zip(ids, texts, shapes)]
    if style:
        got = h.math_object_as_html(title, d, header_template='[{page_title}]', footer_template='[end]',
                                    mathobject_template='({input_title}|{description_brief}|{data_algebra_construct})')
        head, obj, end = '[%s]', '(%s|%s|%s)', '[end]'
    else:
        got = h.math_object_as_html(title, d)
        head, obj, end = '<h1 id="page_title">%s</h1>', ('<h2 id="input_title">%s</h2>', '<pre>%s</pre>', '<div id="data_algebra_construct">%s</div>'), '</html>'
    parts = [head % esc(title)]
    exact = style == 1
    for i, (a, b), sh in zip(ids, texts, shapes):
        lines = []
        t = (esc(a), esc(b) if b is not None else '')
        if sh == 0:
            t += ('$$%s$$' % tex(i),)
        elif sh == 1:       # several: each on its own line
            exact = False
            lines = [tex(i) + '$$', esc(PLAIN), tex(ids[0]) + '$$']
        else:
            t += (esc(construct(w, i, ids, sh)) if sh == 2 else '17',)
        if style == 0:
            parts += [x % y for x, y in zip(obj, t) if y or x != '<pre>%s</pre>' or b is not None] + lines
        elif style == 1:
            parts += [obj % t] if not lines else ['(%s|%s|' % t[:2]] + lines + [')']
        else:
            parts += ['(%s|' % t[0], '|%s)' % t[2]]
    parts.append(end)
    if exact:
        if got != ''.join(parts):
            w.bad('the page is %r, not %r' % (got, ''.join(parts)), where)
        return
    in_order(w, got, parts, where)
    if not style and got.count('<h2') != len(ids):
        w.bad('the page shows %d objects, not %d' % (got.count('<h2'), len(ids)), where)


PLAIN = 'a <plain> & text'


def construct(w, i, ids, shape):
    """What a descriptor shows: an object, several things, a text or a number."""
    return [w.objs[i], [w.objs[i], PLAIN, w.objs[ids[0]]], PLAIN, 17][shape]


def in_order(w, page, parts, where):
    pos = 0
    for p in parts:
        k = page.find(p, pos)
        if k < 0:
            w.bad('the page lacks %r after position %d: %r' % (p, pos, page[-400:]), where)
            return
        pos = k + len(p)
