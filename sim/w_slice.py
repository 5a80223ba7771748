"""World 'slice': one client pages through multiclans with user comparisons that may fail, be interrupted, or page through
something themselves. Windows are compared with the ordered sequence in which each relation occurs as often as its
multiplicity; where the comparison leaves ties, any order of the tied rows is accepted, but consecutive windows must tile."""
from . import model as m
from .core import Result, Interrupter, SimInterrupt, EXCS, reset_level
from .enc import lib, to_m, build, to_model, show, Bad, val_dec, from_m
from .hist import audit_flags, unchanged


class CmpError(Exception):
    pass


FAILS = dict(error=CmpError, interrupt=SimInterrupt, memory=MemoryError, value=ValueError, stop=KeyError)


def key_of(cmp, r):
    """Sort key of a model relation under a comparison."""
    kind = cmp[0]
    if kind == 'right':
        l = m.A(val_dec(cmp[1]))
        return tuple(sorted(repr(c[2]) for c in r[1] if c[1] == l))
    if kind == 'size':
        return len(r[1])
    if kind == 'const':
        return 0
    return show(r) + repr(sorted(map(repr, r[1])))      # 'all': total order


class Slices:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.objs, self.models = {}, {}

    def number(self, a):
        """offset or limit as the user passes it"""
        mo = lib()['mo']
        if a == 'undef':
            return lib()['ud'].Undef()
        if isinstance(a, list):
            v = float('inf') if a[1] == 'inf' else a[1]
            return mo.Atom(v) if a[0] == 'atom' else v
        return a

    def less(self, st, depth, box):
        """The user's comparison."""
        mo = lib()['mo']
        cmp = st['cmp']
        calls = [0]

        def lt(a, b):
            calls[0] += 1
            for nst in st.get('nested', ()):
                if nst[0] == calls[0] and depth < 2:
                    self.res.fault('nested-call')
                    self.do(nst[1], depth + 1)
            if st.get('fail') and st['fail'][0] == calls[0]:
                self.res.fault('comparison-' + st['fail'][1])
                box.append(1)
                raise FAILS[st['fail'][1]]('scripted')
            ka, kb = key_of(cmp, to_model(a)), key_of(cmp, to_model(b))
            r = kb < ka if st.get('rev') else ka < kb
            return mo.Atom(r) if st.get('atoms') else r
        return lt

    def call(self, op, o, st, off, lim, depth, box):
        """(entries or multiset) of one window"""
        mc = lib()['multiclans']
        kw = {'_checked': False} if st.get('unchecked') else {}
        if op == 'multiclan_to_listgen':
            r = mc.multiclan_to_listgen(o, off, lim, **kw)
        elif st.get('kwargs'):
            r = getattr(mc, op)(mclan=o, less_than_f=self.less(st, depth, box), offset=off, limit=lim, **kw)
        else:
            r = getattr(mc, op)(o, self.less(st, depth, box), off, lim, **kw)
        if op != 'order_slice' and r is not lib()['ud'].Undef():
            r = list(r)
        return r

    def entries(self, op, r):
        """[(model relation, multiplicity)] in order; None if malformed"""
        if op == 'order_slice':
            v = to_model(r)
            if v[0] != 'm':
                raise Bad('not a multiset')
            return sorted(v[1], key=repr)
        out = []
        for e in r:
            if not isinstance(e, tuple) or len(e) != 2 or type(e[1]) is not int:
                raise Bad('%r is not a pair of a relation and a number' % (e,))
            if e[1] < 1:
                raise Bad('%s occurs %d times' % (show(to_model(e[0])), e[1]))
            out.append((to_model(e[0]), e[1]))
        return out

    def do(self, st, depth=0, n=None):
        res, L = self.res, lib()
        op = st['op']
        where = '%s#%s' % (op, n if n is not None else 'nested')
        if st['g'] not in self.objs:
            return
        o, mv = self.objs[st['g']], self.models[st['g']]
        seq = dict(mv[1]) if m.is_mclan(mv) else None
        if seq is None and 'unchecked' in st:       # unchecked calls are for valid operands only
            st = {k: v for k, v in st.items() if k != 'unchecked'}
        res.steps += 1
        box = []        # filled when this call's comparison has failed
        if 'tile' in st:
            self.tile(st, o, mv, seq, where, depth)
            return
        off, lim = self.number(st['offset']), self.number(st['limit'])
        num = lambda a: isinstance(a, int) or isinstance(a, list) and (isinstance(a[1], int) or a[1] == 'inf')   # noqa
        valid = seq is not None and num(st['offset']) and num(st['limit']) and 'inf' not in (st['offset'] if isinstance(st['offset'], list) else ())
        what = '%s(%s, %s, offset %r, limit %r)' % (op, show(mv), 'order %r%s' % (st.get('cmp'), ' reversed' if st.get('rev') else ''), off, lim)
        val = exc = it = None
        try:
            if 'int' in st:
                it = Interrupter(*st['int'])
                with it:
                    val = self.call(op, o, st, off, lim, depth, box)
            else:
                val = self.call(op, o, st, off, lim, depth, box)
        except BaseException as e:      # noqa
            if type(e).__name__ == 'Hang':
                raise
            exc = e
        if it is not None and it.fired:
            res.fault('interrupt:' + st['int'][1])
            if type(exc) is not EXCS[st['int'][1]]:
                res.bad('P10', '%s interrupted did not pass on the interrupt' % op, where)
        elif box:
            if type(exc) is not FAILS[st['fail'][1]]:
                res.bad('P19', '%s: the failing comparison surfaced as %r' % (what, exc if exc is not None else val), where)
        elif exc is not None:
            res.bad('P19', '%s raised %s: %s' % (what, type(exc).__name__, str(exc)[:200]), where)
        else:
            res.checks += 1
            if not valid:
                if val is not L['ud'].Undef():
                    res.bad('P19', '%s gave %r, expected the undefined value' % (what, val), where)
            else:
                o0 = off.value if isinstance(off, L['mo'].Atom) else off
                l0 = lim.value if isinstance(lim, L['mo'].Atom) else lim
                self.judge(op, st, seq, o0, l0, val, what, where)
        res.state(op, type(exc).__name__, st.get('cmp', [''])[0], bool(st.get('rev')), len(mv[1]) if mv[0] == 'm' else -1,
                  st['offset'] == 0, repr(st['limit']), bool(st.get('unchecked')), depth)
        res.trace.append((op, type(exc).__name__, None if val is None or not valid else
                          sorted((show(a), b) for a, b in self.safe(op, val))))
        self.intact(st, o, mv, where)

    def safe(self, op, val):
        try:
            return self.entries(op, val)
        except Exception:
            return []

    def intact(self, st, o, mv, where):
        if not unchanged(self.res, 'P19', o, mv, st['op'], where):
            self.objs.pop(st['g'], None)
        audit_flags(self.res, [o], where)

    def judge(self, op, st, seq, off, lim, val, what, where):
        res = self.res
        if val is lib()['ud'].Undef():
            res.bad('P19', '%s is undefined' % what, where)
            return
        try:
            es = self.entries(op, val)
        except Bad as e:
            res.bad('P19', '%s: %s' % (what, e), where)
            return
        if op == 'order_slice':
            audit_flags(res, [val], where)
        total = sum(seq.values())
        a, b = min(off, total), min(off + lim, total)
        got = {}
        for r, k in es:
            if r in got:
                res.bad('P19', '%s lists %s twice' % (what, show(r)), where)
                return
            got[r] = k
        txt = '[%s]' % ', '.join('%s*%d' % (show(r), k) for r, k in es)
        if sum(got.values()) != max(0, b - a):
            res.bad('P19', '%s has %d rows %s, expected %d' % (what, sum(got.values()), txt, max(0, b - a)), where)
            return
        for r, k in got.items():
            if k > seq.get(r, 0):
                res.bad('P19', '%s holds %s %d times, but it occurs %d times' % (what, show(r), k, seq.get(r, 0)), where)
                return
        if op == 'multiclan_to_listgen':
            return
        pos = 0
        keys = {r: key_of(st['cmp'], r) for r in seq}
        for k in sorted(set(keys.values()), reverse=bool(st.get('rev'))):
            grp = [r for r in seq if keys[r] == k]
            size = sum(seq[r] for r in grp)
            want = max(0, min(b, pos + size) - max(a, pos))
            have = sum(got.get(r, 0) for r in grp)
            if want != have:
                res.bad('P19', '%s gave %s: %d rows of %s, expected %d' % (what, txt, have, [show(r) for r in grp], want), where)
                return
            pos += size
        if op == 'order_slice_to_listgen':
            ks = [keys[r] for r, _ in es]
            if ks != sorted(ks, reverse=bool(st.get('rev'))):
                res.bad('P19', '%s is out of order: %s' % (what, txt), where)

    def tile(self, st, o, mv, seq, where, depth):
        """Consecutive windows of one size cover the multiclan exactly."""
        res, op = self.res, st['op']
        if seq is None:
            return
        total = sum(seq.values())
        acc, off, step, box = {}, 0, st['tile'], []
        try:
            while off < total + step:
                es = self.entries(op, self.call(op, o, st, off if st.get('atoms') is None else lib()['mo'].Atom(off),
                                                step if st.get('atoms') is None else lib()['mo'].Atom(step), depth, box))
                for r, k in es:
                    acc[r] = acc.get(r, 0) + k
                off += step
                res.steps += 1
        except BaseException as e:      # noqa
            if type(e).__name__ == 'Hang':
                raise
            if box and type(e) is FAILS[st['fail'][1]]:
                return
            res.bad('P19', 'window at %d of %d rows of %s (%s) raised %r' % (off, step, show(mv), op, e), where)
            return
        res.checks += 1
        res.trace.append((op, 'tile', sorted((show(a), b) for a, b in acc.items())))
        if acc != seq:
            res.bad('P19', 'the windows of %d rows of %s (%s) together hold [%s]' % (
                step, show(mv), op, ', '.join('%s*%d' % (show(r), k) for r, k in sorted(acc.items(), key=repr))), where)
        self.intact(st, o, mv, where)

    def run(self):
        for l in self.case['lits']:
            self.objs[l['id']], self.models[l['id']] = build(l['e'], l.get('route', 0)), to_m(l['e'])
        for n, st in enumerate(self.case['steps']):
            self.do(st, 0, n)


def run(case):
    res = Result()
    reset_level()
    Slices(case, res).run()
    return res


# --- generation ---------------------------------------------------------------------------------
OPS = ['order_slice', 'order_slice', 'order_slice_to_listgen', 'order_slice_to_listgen', 'multiclan_to_listgen']


def gen_step(rng, ids, total, lefts, depth=0):
    st = dict(op=rng.choice(OPS), g=rng.choice(ids))
    t = max(1, total.get(st['g'], 1))
    st['cmp'] = rng.choice([['right', rng.choice(lefts)], ['all'], ['all'], ['size'], ['const']])
    if rng.random() < .3:
        st['rev'] = 1
    if rng.random() < .4:
        st['atoms'] = 1
    if rng.random() < .2:
        st['kwargs'] = 1
    if rng.random() < .15:
        st['tile'] = rng.choice([1, 1, 2, 3, 4]) + t // 20
    else:
        wrap = (lambda v: ['atom', v]) if rng.random() < .5 else (lambda v: v if v != 'inf' else ['raw', 'inf'])
        st['offset'] = wrap(rng.choice([0, 0, 0, 1, 1, 2, 3, rng.randrange(t + 2), t, t + 1, 5]))
        st['limit'] = wrap(rng.choice([0, 1, 1, 1, 2, 2, 3, rng.randrange(t + 2), t, 'inf', 'inf', 50]))
        x = rng.random()
        if x < .03:
            st['offset'] = rng.choice(['undef', ['atom', 'x'], ['raw', 1.5], ['atom', 'inf']])
        elif x < .06:
            st['limit'] = rng.choice(['undef', ['atom', 'x'], ['raw', 'x'], ['atom', 2.5]])
        elif x < .2 and isinstance(st['offset'], list) and isinstance(st['limit'], list):
            st['unchecked'] = 1
    if st['op'] != 'multiclan_to_listgen':
        x = rng.random()
        if x < .15:
            st['fail'] = [rng.choice([1, 1, 2, 3, 5]), rng.choice(['error', 'interrupt', 'memory', 'value', 'stop'])]
        elif x < .25 and depth < 2:
            st['nested'] = [[rng.choice([1, 2, 3]), gen_step(rng, ids, total, lefts, depth + 1)]]
    if 'tile' not in st and 'fail' not in st and 'nested' not in st and rng.random() < .08:
        st['int'] = [rng.choice([1, 3, 8, 15, 30, rng.randrange(1, 80)]), rng.choice(['interrupt', 'memory', 'recursion'])]
    return st


def case(rng):
    from . import gen
    lits, ids, total, lefts = [], [], {}, ['a', 'b']
    for i in range(rng.choice([1, 1, 2])):
        d = gen.Dom(rng, rng.choice([0, 0, 1, 2, 3, 4]))
        x = rng.random()
        if rng.random() < .03:
            e = gen.big_lit(rng, 'mclan', rng.choice([20, 66, 130]), rng.random() < .5)
            d.l = [['A', 'id'], ['A', 'x']]
        elif x < .9:
            e = gen.gen(rng, d, 'mclan')
            if rng.random() < .3:       # large multiplicities
                e = ['M', [[r, n * rng.choice([1, 2, 4])] for r, n in e[1]]]
        else:
            e = gen.gen(rng, d, rng.choice(['clan', 'mset', 'rel', 'atom']))
        lefts = [l[1] for l in d.l if l[0] == 'A'] or ['a']
        lits.append(dict(id=i, e=e, route=rng.randrange(5)))
        ids.append(i)
        total[i] = sum(n for _, n in e[1]) if e[0] == 'M' else 1
    steps = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        st = gen_step(rng, ids, total, lefts)
        if not m.is_mclan(to_m(lits[st['g']]['e'])):
            st.pop('unchecked', None)
        steps.append(st)
        if 'fail' in st or 'int' in st:
            steps.append({k: v for k, v in st.items() if k not in ('fail', 'int')})
    return dict(world='slice', lits=lits, steps=steps)
