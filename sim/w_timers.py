"""World 'timers': timers on simulated clocks. Every clock of the time module is the simulator's: wall, processor, calendar and
monotonic time advance, stall and jump independently, only when the case says so; trace output goes to a simulated console that
can fail. The finalizer runs when the case says so."""
import errno
import sys
import textwrap
import time as _t

from .core import Result, SimInterrupt

_REAL = {n: getattr(_t, n) for n in ('perf_counter', 'process_time', 'time', 'monotonic', 'thread_time') if hasattr(_t, n)}


class Clocks:
    active = False
    now = {}


def _wrap(name):
    real = _REAL[name]

    def clock():
        return Clocks.now[name] if Clocks.active else real()
    clock.__name__ = name
    return clock


for _n in _REAL:
    setattr(_t, _n, _wrap(_n))
for _n in list(_REAL):
    if hasattr(_t, _n + '_ns'):
        def _mk(n, real):
            return lambda: int(round(Clocks.now[n] * 10 ** 9)) if Clocks.active else real()
        setattr(_t, _n + '_ns', _mk(_n, getattr(_t, _n + '_ns')))

from .enc import lib        # noqa: E402  (the library must see the simulated clocks)


class BrokenConsole(OSError):
    pass


class Console:
    """Simulated stdout."""

    def __init__(self, res, faults):
        self.res, self.faults, self.n, self.parts, self.fired = res, dict((a, b) for a, b in faults), 0, [], None

    def write(self, s):
        self.n += 1
        k = self.faults.get(self.n)
        if k:
            self.res.fault('console-' + k)
            self.fired = {'pipe': BrokenConsole(errno.EPIPE, 'simulated closed pipe'), 'interrupt': SimInterrupt('console'),
                          'enc': UnicodeEncodeError('ascii', 'é', 0, 1, 'simulated')}[k]
            raise self.fired
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def take(self):
        r, self.parts = ''.join(self.parts), []
        return r


class BadText:
    """A value that cannot be printed."""

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc

    __repr__ = __str__

    def __format__(self, spec):
        raise self.exc


VALUES = {'int': 5, 'str': 'text', 'list': [1, 2, 3], 'long': 'x' * 50, 'lines': 'one\ntwo\n\nthree', 'brace': '{0} {a}', 'none': None}


# the functions a user might time; the timer looks at the caller's frame
def alpha(x, y, make):
    return make()


def beta(x, make):
    return make()


def gamma(make):
    return make()


def _new(FT, fn, x, y, kw):
    """Create a timer directly inside the named function."""
    code = {'alpha': 'def alpha(x, y):\n    return FT(**kw)\n', 'beta': 'def beta(x):\n    return FT(**kw)\n',
            'gamma': 'def gamma():\n    t = FT(**kw)\n    return t\n', 'outer': 'def outer(self, x):\n    return FT(**kw)\n'}[fn]
    g = {'FT': FT, 'kw': kw}
    exec(code, g)
    return g[fn](*{'alpha': (x, y), 'beta': (x,), 'gamma': (), 'outer': ('me', x)}[fn])


FNARGS = {'alpha': ('x', 'y'), 'beta': ('x',), 'gamma': (), 'outer': ('self', 'x')}


def _lap(t, meth, name, value, kw):
    g = {'t': t, 'kw': kw, 'value': value}
    exec('def user():\n    %s = value\n    return t.%s(%r, **kw)\n' % (name, meth, name), g)
    return g['user']()


def value_text(name, value, short, max_length, level):
    s = name
    if hasattr(value, '__len__'):
        s += '(len %d)' % len(value)
    s += ' '
    if not short:
        v = str(value)
        s += '= ' + (v if max_length is None else v[:max_length] + ('...' if len(v) > max_length else ''))
    ind = ' ' * (3 * level)
    r = textwrap.indent(s, ind)
    return r[len(ind):] if ind else s


class Timers:
    def __init__(self, case, res):
        self.case, self.res = case, res
        self.timers = {}        # id -> (object, spec)
        self.live = set()
        self.out = Console(res, case.get('faults', ()))

    def fail(self, msg, where):
        self.res.bad('P23', msg, where)

    def clock(self, spec):
        return Clocks.now['perf_counter' if spec.get('wall') else 'process_time']

    def do(self, n, st):
        res = self.res
        op = st['op']
        where = op + '#%d' % n
        FT, PT = lib()['misc'].FunctionTimer, lib()['misc'].PerformanceTimer
        if op == 'tick':
            for k, v in st['by'].items():
                Clocks.now[k] += v
            res.simtime += abs(st['by'].get('perf_counter', 0))
            return
        if op != 'new' and op != 'pnew' and st['id'] not in self.timers:
            return
        t, sp = self.timers.get(st.get('id'), (None, None)) if op not in ('new', 'pnew') else (None, st)
        res.steps += 1
        base = len(self.live)
        exp = None
        self.out.fired = None
        level = base
        try:
            if op == 'new':
                kw = {}
                for a, b in (('fun', 'is_function'), ('quiet', 'quiet'), ('notime', 'notime'), ('wall', 'walltime'), ('args', 'args')):
                    if a in st:
                        kw[b] = st[a]
                badval = BadText(ValueError('scripted')) if st.get('badarg') else None
                x = badval if badval is not None else VALUES[st.get('x', 'int')]
                fn = st['fn'] if st.get('fun', True) else '(main)'
                if not st.get('quiet'):
                    exp = ' ' * (3 * base) + '...%s START ' % fn
                    vals = dict(x=x, y=VALUES['int'], self='me')
                    names = [a for a in FNARGS[st['fn']] if st.get('args') is None or a in st['args']] if st.get('fun', True) else []
                    if st.get('fun', True) and not (st.get('args') is not None and not st['args']) and not (st.get('args') is None and not FNARGS[st['fn']]):
                        if badval is None:
                            exp += '(args: %s)' % '; '.join('%s: %s' % (a, vals[a]) for a in names)
                    exp += '\n'
                start = self.clock(st)
                t = _new(FT, st['fn'], x, VALUES['int'], kw)
                self.timers[st['id']] = (t, dict(st, start=start, ended=False, name=fn))
                self.live.add(st['id'])
            elif op == 'pnew':
                t = PT(quiet=True) if st.get('quiet') else PT()
                self.timers[st['id']] = (t, dict(st, start=Clocks.now['perf_counter'], end=None, perf=1))
                if t.get_start_time != Clocks.now['perf_counter']:
                    self.fail('a performance timer started at %r, the clock shows %r' % (t.get_start_time, Clocks.now['perf_counter']), where)
            elif sp.get('perf'):
                if op == 'end':
                    if sp['end'] is None:
                        sp['end'] = Clocks.now['perf_counter']
                    if not sp.get('quiet'):
                        exp = '%s elapsed time: %.5f seconds\n' % (st.get('msg', ''), sp['end'] - sp['start'])
                    t.end(st['msg']) if 'msg' in st else t.end()
                elif op == 'elapsed' and sp['end'] is not None:
                    got = t.get_elapsed_time()
                    res.checks += 1
                    if got != sp['end'] - sp['start']:
                        self.fail('a performance timer reports %r s, %r s elapsed' % (got, sp['end'] - sp['start']), where)
                    if t.get_end_time != sp['end']:
                        self.fail('a performance timer ended at %r, reports %r' % (sp['end'], t.get_end_time), where)
                else:
                    return
            elif op in ('lap', 'end'):
                kw = {k: st[k] for k in ('short', 'max_length') if k in st}
                if op == 'lap' and st.get('skip'):
                    kw['skip'] = True
                lv = max(0, base - 1)
                if not sp.get('quiet') and not kw.get('skip'):
                    exp = ' ' * (3 * lv) + '...%s %s' % (sp['name'], op.upper())
                    if not sp.get('notime'):
                        exp += ' (%s %.3f s)' % ('elapsed' if sp.get('wall') else 'used', self.clock(sp) - sp['start'])
                    if st.get('var'):
                        exp += ': ' + value_text(st['var'], VALUES[st['val']], st.get('short'), st.get('max_length', 10000), base)
                    elif 'desc' in st:
                        exp += ': ' + st['desc']
                    exp += '\n'
                if op == 'end':
                    self.live.discard(st['id'])
                if st.get('var'):
                    r = _lap(t, op, st['var'], VALUES[st['val']], kw)
                else:
                    r = getattr(t, op)(**dict(kw, **({'desc': st['desc']} if 'desc' in st else {})))
                if op == 'lap' and r is not t:
                    self.fail('lap() returned %r' % (r,), where)
            elif op == 'badlap':        # a variable that does not exist
                if sp.get('quiet'):
                    return
                if st['end']:
                    self.live.discard(st['id'])
                try:
                    (t.end if st['end'] else t.lap)('no_such_variable')
                    self.fail('a lap of a missing variable did not raise', where)
                except KeyError:
                    pass
                self.out.take()
                return
            elif op == 'exit':
                self.live.discard(st['id'])
                r = t.__exit__(*((None, None, None) if not st.get('exc') else (ValueError, ValueError('x'), None)))
                if r:
                    self.fail('leaving a timer block swallowed the exception', where)
            elif op == 'with':
                # a block that raises: the error passes, the timer ends
                self.live.discard(st['id'])
                try:
                    with t as tt:
                        if tt is not t:
                            self.fail('entering a timer block gave %r' % (tt,), where)
                        if st.get('exc'):
                            raise ZeroDivisionError('scripted')
                    if st.get('exc'):
                        self.fail('a timer block swallowed the exception', where)
                except ZeroDivisionError:
                    pass
            elif op == 'collect':
                self.live.discard(st['id'])
                t.__del__()
            elif op == 'print':
                if not sp.get('quiet'):
                    exp = textwrap.indent(' '.join(str(x) for x in st['texts']), ' ' * (3 * base)) + '\n'
                t.print(*st['texts'])
            elif op == 'elapsed':
                got = t.get_elapsed_time()
                res.checks += 1
                if got != self.clock(sp) - sp['start']:
                    self.fail('a timer on %s time reports %r s, %r s elapsed' % ('wall' if sp.get('wall') else 'processor', got,
                                                                                self.clock(sp) - sp['start']), where)
        except BaseException as e:      # noqa
            if type(e).__name__ == 'Hang':
                raise
            text = self.out.take()
            res.trace.append((op, type(e).__name__))
            res.state(op, type(e).__name__, base)
            if self.out.fired is not None:
                if e is not self.out.fired:
                    self.fail('the failing console surfaced as %r' % (e,), where)
            elif not (st.get('badarg') and isinstance(e, ValueError)):
                self.fail('%s raised %s: %s' % (op, type(e).__name__, e), where)
            else:
                res.fault('unprintable-argument')
            return
        text = self.out.take()
        res.trace.append((op, text))
        res.state(op, bool(sp.get('quiet')), bool(sp.get('wall')), base, bool(sp.get('notime')), st.get('var'), bool(st.get('skip')),
                  st.get('exc'), len(self.timers))
        res.checks += 1
        if self.out.fired is not None:
            self.fail('a failing console was ignored', where)
        elif text != (exp or ''):
            self.fail('%s printed %r, expected %r' % (op, text, exp or ''), where)

    def finish(self):
        """End what is still alive; a fresh timer starts where the first one did."""
        self.out.faults = {}
        for i in sorted(self.live, key=str, reverse=bool(self.case.get('lifo'))):
            self.timers[i][0].end()
        self.live = set()
        self.out.take()
        FT = lib()['misc'].FunctionTimer
        t = FT(is_function=False, notime=True)
        text = self.out.take()
        t.end()
        self.res.checks += 1
        if text != '...(main) START \n':
            self.fail('after all timers have ended, a new timer prints %r' % text, 'end')


def run(case):
    res = Result()
    FT = lib()['misc'].FunctionTimer
    if hasattr(FT, '_indent'):
        FT._indent = -1
    Clocks.now = {n: float(case.get('start', {}).get(n, 1000.0)) for n in _REAL}
    w = Timers(case, res)
    old = sys.stdout
    sys.stdout = w.out
    Clocks.active = True
    try:
        for n, st in enumerate(case['steps']):
            w.do(n, st)
        w.finish()
    finally:
        Clocks.active = False
        sys.stdout = old
        for t, sp in w.timers.values():
            if not sp.get('perf'):
                t._ended = True     # nothing left for the real finalizer to do
    return res


# --- generation ---------------------------------------------------------------------------------
STEPS = [0.001, 0.25, 0.5, 1.0, 2.0, 10.0, 3600.0, 0.0, 1e6, 0.0005, 123.456]


def case(rng):
    steps, ids, perf, k = [], [], [], 0
    open_ = []
    for _ in range(rng.choice([4, 8, 12, 20, 30])):
        x = rng.random()
        if x < .25:
            by = {}
            for n in _REAL:
                if rng.random() < .6:
                    by[n] = rng.choice(STEPS)
            if rng.random() < .3:
                by['time'] = rng.choice([-3600.0, -5.0, 1e9])     # the calendar clock is adjusted
            if rng.random() < .2:
                by['process_time'] = 0.0    # the process is suspended
            steps.append(dict(op='tick', by=by))
        elif x < .45 or not (ids or perf):
            k += 1
            if rng.random() < .15:
                st = dict(op='pnew', id=k)
                if rng.random() < .3:
                    st['quiet'] = True
                perf.append(k)
            else:
                st = dict(op='new', id=k, fn=rng.choice(['alpha', 'beta', 'gamma', 'outer']), x=rng.choice(sorted(VALUES)))
                for o, p in (('quiet', .2), ('notime', .15), ('wall', .45)):
                    if rng.random() < p:
                        st[o] = True
                if rng.random() < .2:
                    st['fun'] = False
                if rng.random() < .2:
                    st['args'] = rng.choice([[], ['x'], ['y'], ['nope'], ['y', 'x']])
                if rng.random() < .04 and st['fn'] != 'gamma' and not st.get('fun') is False and 'args' not in st:
                    st['badarg'] = 1
                ids.append(k)
                open_.append(k)
            steps.append(st)
        elif perf and x < .55:
            i = rng.choice(perf)
            st = dict(op=rng.choice(['end', 'elapsed', 'elapsed']), id=i)
            if st['op'] == 'end' and rng.random() < .6:
                st['msg'] = rng.choice(['total', ''])
            steps.append(st)
        elif ids:
            i = rng.choice(open_[-1:] or ids) if rng.random() < .6 else rng.choice(ids)
            y = rng.random()
            if y < .35:
                st = dict(op='lap', id=i)
            elif y < .6:
                st = dict(op='end', id=i)
            elif y < .7:
                st = dict(op='elapsed', id=i)
            elif y < .76:
                st = dict(op='print', id=i, texts=rng.choice([['note'], ['a', 1], ['two\nlines'], []]))
            elif y < .82:
                st = dict(op='badlap', id=i, end=rng.choice([0, 1]))
            elif y < .9:
                st = dict(op='with', id=i)
                if rng.random() < .5:
                    st['exc'] = 1
            elif y < .95:
                st = dict(op='exit', id=i)
                if rng.random() < .5:
                    st['exc'] = 1
            else:
                st = dict(op='collect', id=i)
            if st['op'] in ('lap', 'end'):
                z = rng.random()
                if z < .3:
                    st['var'], st['val'] = rng.choice(['v', 'result']), rng.choice(sorted(VALUES))
                    if rng.random() < .3:
                        st['short'] = True
                    if rng.random() < .3:
                        st['max_length'] = rng.choice([3, 10, 0, 10000, None])
                elif z < .6:
                    st['desc'] = rng.choice(['here', '', 'x {y}'])
                if st['op'] == 'lap' and rng.random() < .15:
                    st['skip'] = True
            if st['op'] in ('end', 'with', 'exit', 'collect') and i in open_:
                open_.remove(i)
            steps.append(st)
    c = dict(world='timers', steps=steps, start={n: rng.choice([0.0, 1000.0, 1e9, 0.125]) for n in _REAL})
    if rng.random() < .3:
        c['faults'] = sorted([rng.randrange(1, 40), rng.choice(['pipe', 'interrupt', 'enc'])] for _ in range(rng.choice([1, 2])))
    if rng.random() < .5:
        c['lifo'] = 1
    return c
