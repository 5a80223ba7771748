"""World 'hist': one client driving the library through an explicit history, checked step by step.

A case holds literals, steps and faults; the executor builds the literals, performs the steps on the real library,
compares every outcome with the reference model and audits what the objects involved remember about themselves.
"""
from . import model as m
from . import ops as O
from . import callbacks as CB
from .core import Result, Interrupter, EXCS, FLAGS, get_level, set_level, reset_level
from .enc import lib, to_m, build, build_poisoned, val_dec, to_model, nested_objs, show, outcome, Bad, val_from_lit

_allowed = {}


def allowed(mv):
    r = _allowed.get(mv)
    if r is None:
        if len(_allowed) > 20000:
            _allowed.clear()
        r = _allowed[mv] = m.flags_allowed(mv)
    return r


STATUS = ['unknown', 'IS', 'IS NOT', 'N/A']


def audit_flags(res, objs, where, seen=None):
    """P01: everything remembered by the objects (and what they contain) is true."""
    allobjs = {}
    for o in objs:
        nested_objs(o, allobjs)
    for o in allobjs.values():
        try:
            mv = to_model(o)
        except Bad:
            continue
        al = allowed(mv)
        res.checks += 1
        for f in FLAGS:
            want = al[f]
            if want is None:
                continue
            got = getattr(o, 'cached_' + f)
            if got and got != want:
                res.bad('P01', '%s remembers %s: %s, but by its contents it is %s'
                        % (show(mv), f, STATUS[got], STATUS[want]), where)
        for nm, want in (('is_atom', mv[0] == 'a'), ('is_couplet', mv[0] == 'c'), ('is_set', mv[0] == 's'),
                         ('is_multiset', mv[0] == 'm')):
            if getattr(o, nm) is not want:
                res.bad('P01', '%s reports %s = %r' % (show(mv), nm, getattr(o, nm)), where)


class Skip(Exception):
    pass


class World:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.objs, self.models, self.recorded = {}, {}, {}

    # -- arguments
    def real_args(self, args):
        out = []
        for a in args:
            if 'o' in a:
                if a['o'] not in self.objs:
                    raise Skip()
                out.append(self.objs[a['o']])
            elif 'raw' in a:
                out.append(val_dec(a['raw']))
            elif 'l' in a:
                out.append(build(a['l']))
            elif 'u' in a:
                out.append(lib()['ud'].Undef())
            elif 'cb' in a:
                out.append(CB.real_cb(a['cb']))
            elif 'd' in a:
                out.append({val_from_lit(k): val_from_lit(v) for k, v in a['d']})
        return out

    def model_args(self, args):
        out = []
        for a in args:
            if 'o' in a:
                if a['o'] not in self.models:
                    raise Skip()
                out.append(self.models[a['o']])
            else:
                out.append(model_arg(a))
        return out

    def setup(self):
        for l in self.case['lits']:
            where = 'build route %d' % l.get('route', 0)
            try:
                o = build_poisoned(l['e'], l.get('route', 0), self.res, where)
                mv = to_m(l['e'])
                got = to_model(o)
            except Bad as e:
                self.res.bad('P08', 'building %s: %s' % (show(to_m(l['e'])), e), where)
                continue
            except Exception as e:
                self.res.bad('P08', 'building %s raised %r' % (show(to_m(l['e'])), e), where)
                continue
            if got != mv:
                self.res.bad('P07', 'object built from %s holds %s (linked to the user\'s container?)' % (show(mv), show(got)), where)
                continue
            self.objs[l['id']], self.models[l['id']] = o, mv
            audit_flags(self.res, [o], where)

    def check_operands(self, st, ids, where):
        for i in ids:
            try:
                got = to_model(self.objs[i])
            except Exception as e:
                self.res.bad('P07', '%s is malformed after %s: %s' % (show(self.models[i]), where, e), where)
                del self.objs[i]
                continue
            if got != self.models[i]:
                self.res.bad('P07', '%s changed to %s' % (show(self.models[i]), show(got)), where)
                del self.objs[i]

    def invoke(self, o, args, unchecked):
        return o.real(args, unchecked)

    def do_step(self, n, st):
        res = self.res
        if 'level' in st:
            if st['level'] is None:
                reset_level()
                self.level = 0
            else:
                set_level(st['level'])
                self.level = st['level']
            return
        o = O.OPS[st['op']]
        where = '%s#%s' % (o.name, n)
        try:
            margs = self.model_args(st['args'])
            rargs = self.real_args(st['args'])
        except Skip:
            return
        exp = O.model_apply(o, margs)
        ids = [a['o'] for a in st['args'] if 'o' in a]
        res.steps += 1
        level = self.level
        it = None
        exc = val = None
        try:
            if 'int' in st:
                it = Interrupter(st['int'][0], st['int'][1])
                with it:
                    val = self.invoke(o, rargs, bool(st.get('unchecked')))
            else:
                val = self.invoke(o, rargs, bool(st.get('unchecked')))
        except BaseException as e:      # noqa
            if isinstance(e, (SystemExit, GeneratorExit)):
                raise
            exc = e
        fired = False
        if it is not None and it.fired:
            fired = True
            res.fault('interrupt:' + st['int'][1])
            where += '!'
            if exc is None or type(exc) is not EXCS[st['int'][1]]:
                res.bad('P10', '%s interrupted at %s did not pass on the interrupt (%s)'
                        % (o.name, it.where, repr(exc) if exc is not None else 'returned ' + _out(val)), where)
        argtxt = lambda: ', '.join(_show(x) for x in margs)
        cbfault = isinstance(exc, CB.CallbackFault)
        if cbfault:
            res.fault('callback-exception')
        if st.get('unchecked'):
            res.fault('unchecked-call', 0)
        flagstate = tuple(getattr(getattr(x, '_flags', None), 'asint', 0) for x in rargs if hasattr(x, '_flags'))
        res.state(o.name, flagstate, type(exc).__name__, exp.__class__.__name__)
        res.trace.append((o.name, type(exc).__name__ if exc is not None else _out(val)))
        keep = None
        if get_level() != level:
            res.bad('P11', '%s changed the raise level from %r to %r' % (o.name, level, get_level()), where)
            set_level(level)
        if fired or cbfault:
            pass
        elif exc is not None:
            UE = lib()['ud'].UndefException
            if isinstance(exc, UE):
                self.judge_raise(o, exp, level, argtxt, where, margs)
            else:
                res.bad(o.prop, '%s(%s) raised %s: %s' % (o.name, argtxt(), type(exc).__name__, exc), where)
        else:
            undef = val is lib()['ud'].Undef()
            if undef and level and isinstance(exp, m.U) and not o.level_exempt \
                    and o.prop != 'P21' and (level >= 2 or exp.why == 'kind'):
                res.bad('P11', '%s(%s) at raise level %d returned the undefined value instead of raising'
                        % (o.name, argtxt(), level), where)
            res.checks += 1
            try:
                ok = O.match(val, exp)
                if ok is True and isinstance(val, lib()['mo'].MathObject):
                    keep = to_model(val)
            except Bad as e:
                res.bad(o.prop, '%s(%s): malformed result: %s' % (o.name, argtxt(), e), where)
                ok = None
            if ok is False:
                res.bad(o.prop, '%s(%s) = %s, expected %s%s' % (o.name, argtxt(), _out(val), _show(exp),
                        ' (unchecked call)' if st.get('unchecked') else ''), where)
            if st['op'] in ('obj.hash_v', 'obj.repr', 'obj.str', 'obj.hash') and ids:
                v = (hash if st['op'] == 'obj.hash' else repr if st['op'] == 'obj.repr' else str)(rargs[0])
                old = self.recorded.setdefault((st['op'], ids[0]), v)
                if old != v:
                    res.bad('P07', '%s of %s changed from %r to %r' % (st['op'][4:], argtxt(), old, v), where)
        if st.get('quiet'):
            return
        audit = [self.objs[i] for i in ids if i in self.objs]
        if exc is None and isinstance(val, lib()['mo'].MathObject):
            audit.append(val)
        audit_flags(res, audit, where)
        self.check_operands(st, ids, where)
        if keep is not None and 'id' in st and isinstance(exp, tuple) and exp[0] in ('a', 'c', 's', 'm'):
            self.objs[st['id']], self.models[st['id']] = val, keep

    def judge_raise(self, o, exp, level, argtxt, where, margs):
        res = self.res
        res.checks += 1
        if exp is m.DONTCARE and level or o.level_exempt and level:
            return
        if level == 0:
            res.bad('P11', '%s(%s) raised the undefined exception at level 0' % (o.name, argtxt()), where)
            res.bad(o.prop, '%s(%s) raised the undefined exception' % (o.name, argtxt()), where)
        elif level == 1:
            if isinstance(exp, m.U) and exp.why == 'undef' and o.prop != 'P21':
                res.bad('P11', '%s(%s) at raise level 1 raised instead of returning the undefined value (%s)'
                        % (o.name, argtxt(), exp.why), where)
            elif not isinstance(exp, m.U) and o.name not in INTERNAL_UNDEF:
                res.bad('P11', '%s(%s) at raise level 1 raised although the result is defined' % (o.name, argtxt()), where)
        elif not isinstance(exp, m.U) and level >= 2 and o.name not in INTERNAL_UNDEF2:
            res.bad('P11', '%s(%s) at raise level %d raised although the result is defined' % (o.name, argtxt(), level), where)

    def final(self):
        """Everything still holds what it held; equal contents are equal and hash alike."""
        res = self.res
        reset_level()
        self.level = 0
        self.check_operands(None, list(self.objs), 'end')
        live = [(self.models[i], o) for i, o in self.objs.items()]
        audit_flags(res, [o for _, o in live], 'end')
        seen = {}
        for mv, o in live:
            seen.setdefault(mv, []).append(o)
        for mv, os_ in seen.items():
            for o in os_[1:3]:
                a = os_[0]
                res.checks += 1
                if not (a == o) or (a != o) or hash(a) != hash(o) or o not in {a}:
                    res.bad('P08', 'two objects with contents %s differ: == %r, != %r, hashes %s' %
                            (show(mv), a == o, a != o, hash(a) == hash(o)), 'end')
        keys = list(seen)
        for i in range(len(keys) - 1):
            a, b = seen[keys[i]][0], seen[keys[i + 1]][0]
            res.checks += 1
            if a == b or not (a != b):
                res.bad('P08', '%s and %s compare equal' % (show(keys[i]), show(keys[i + 1])), 'end')
        if self.case.get('sweep'):
            self.sweep(seen)

    def sweep(self, seen):
        for mv, os_ in list(seen.items())[:8]:
            ask_all(self.res, mv, os_[:2], 'asked at the end', 'end')


def ask_all(res, mv, objs, when, where):
    """P02 (and P08): every query about objects with contents mv."""
    for nm in SWEEP:
        o = O.OPS[nm]
        exp = O.model_apply(o, [mv])
        if o.kinds[0] == 'coll' and mv[0] not in 'sm':
            continue        # len() and iteration are defined for collections only
        res.checks += 1
        for x in objs:
            try:
                val = o.real([x])
                ok = O.match(val, exp)
                txt = _out(val)
            except Exception as e:
                ok, txt = False, repr(e)
            if not ok:
                res.bad(o.prop, '%s(%s) = %s, expected %s (%s)' % (nm, show(mv), txt, _show(exp), when), where + ':' + nm)


def unchanged(res, prop, o, mv, what, where):
    """P07 and the property at hand: o still has the contents mv."""
    try:
        got = to_model(o)
        if got == mv:
            return True
        txt = show(got)[:300]
    except Bad as e:
        txt = str(e)
    for p in (prop, 'P07'):
        res.bad(p, '%s changed %s to %s' % (what, show(mv)[:300], txt), where)
    return False


# Functions documented to work by trying sub-operations that may be undefined: at raise levels that make those raise,
# a raise is what the user asked for.
INTERNAL_UNDEF = set(O.GROUPS_BY_PROP['P18'])
INTERNAL_UNDEF2 = set(O.OPS)

SWEEP = [n for n in O.GROUPS_BY_PROP['P02']] + ['obj.left_set', 'obj.right_set', 'obj.len', 'obj.iter']
SWEEP = [n for n in SWEEP if len(O.OPS[n].kinds) == 1]


def model_arg(a):
    if 'raw' in a:
        return m.A(val_dec(a['raw']))
    if 'l' in a:
        return to_m(a['l'])
    if 'u' in a:
        return O.UNDEFARG
    if 'cb' in a:
        return CB.model_cb(a['cb'])
    if 'd' in a:
        return [(to_m(k), to_m(v)) for k, v in a['d']]
    raise ValueError(a)


def _out(v):
    try:
        return outcome(v)
    except Exception as e:
        return '<%s>' % e


def _show(x):
    if x is O.UNDEFARG:
        return 'undef'
    if isinstance(x, m.U):
        return 'undefined'
    if callable(x):
        return 'callback'
    if isinstance(x, tuple) and x and x[0] in ('oneof', 'bag'):
        return '%s %s' % (x[0], show(x[1]) if x[0] == 'bag' else sorted(map(show, x[1])))
    return show(x)


def run(case):
    res = Result()
    reset_level()
    w = World(case, res)
    w.level = 0
    try:
        w.setup()
        for n, st in enumerate(case['steps']):
            w.do_step(n, st)
        w.final()
    finally:
        reset_level()
    return res
