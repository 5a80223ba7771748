"""World 'threads': several client threads over shared objects, on a simulated scheduler.

The threads are real, but all but one are parked; the running thread hands over only where the case's schedule says so:
after a number of executed lines or bytecodes of library code (or when it blocks on a simulated lock, or ends). One schedule is one
exactly repeatable interleaving. Every outcome is compared with the single-threaded reference model."""
import builtins
import importlib.util
import os
import sys
import threading
import types
import _thread

_real_lock = _thread.allocate_lock


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class Sched:
    current = None      # the active scheduler

    def __init__(self, n, slices, res):
        self.res = res
        self.n = n
        self.slices = [list(s) for s in slices]
        self.go = [_real_lock() for _ in range(n)]
        for l in self.go:
            l.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.i = -1
        self.left = 0
        self.run = -1
        self.switches = 0
        self.lines = 0
        self.dead = False
        self.ids = {}
        self.fine = False
        self.importing = [0] * n    # imports under way: they hold real locks, so no handing over inside

    def ready(self, t):
        return not self.done[t] and (self.blocked[t] is None or not self.blocked[t].held)

    def choose(self):
        """The next thread to run, or None."""
        while self.i + 1 < len(self.slices):
            self.i += 1
            t, k = self.slices[self.i]
            t %= self.n
            if self.ready(t):
                self.left = k
                return t
        self.left = 1 << 60
        for t in range(self.n):
            if self.ready(t):
                return t
        return None

    def handover(self, me, finished=False):
        if finished:
            self.done[me] = True
        t = self.choose()
        if t is None:
            if all(self.done):
                self.main.release()
                return
            self.dead = True        # every remaining thread waits for a lock: let them all go
            for u in range(self.n):
                if not self.done[u] and u != me:
                    self.go[u].release()
            if finished or me < 0:
                return
            raise Killed()
        if t == me:
            return
        if me >= 0 and not finished:
            self.switches += 1
        self.run = t
        self.go[t].release()
        if me >= 0 and not finished:
            self.go[me].acquire()
            if self.dead:
                raise Killed()

    def tick(self, me):
        self.lines += 1
        self.left -= 1
        if self.left <= 0 and not self.importing[me]:
            self.handover(me)

    def me(self):
        return self.ids.get(_thread.get_ident())


class SimLock:
    """Stands for threading.Lock/RLock: cooperative inside a simulation, a plain lock outside."""

    def __init__(self, recursive=False):
        self.recursive, self.owner, self.count = recursive, None, 0
        self.real = threading._CRLock() if recursive and getattr(threading, '_CRLock', None) else _real_rlock() if recursive else _real_lock()

    @property
    def held(self):
        return self.count > 0

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        me = s.me() if s is not None else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while self.count and not (self.recursive and self.owner == me):
            if not blocking:
                return False
            s.blocked[me] = self
            s.handover(me)
        s.blocked[me] = None
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        s = Sched.current
        if s is None or s.me() is None:
            return self.real.release()
        if not self.count:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.held or (not self.recursive and self.real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


_real_import = builtins.__import__


def _import(*a, **kw):
    s = Sched.current
    me = s.me() if s is not None else None
    if me is None:
        return _real_import(*a, **kw)
    s.importing[me] += 1
    try:
        return _real_import(*a, **kw)
    finally:
        s.importing[me] -= 1


_real_rlock = threading.RLock
threading.Lock = lambda: SimLock()
threading.RLock = lambda: SimLock(True)

from .core import Result, is_lib_code, reset_level      # noqa: E402
from .enc import lib                                    # noqa: E402
from . import hist as H                                 # noqa: E402

lib()
_ud_path = os.path.abspath(lib()['ud'].__file__)


def undef_copy():
    """A second, fresh copy of the undef module: nobody has needed its undefined value yet."""
    spec = importlib.util.spec_from_file_location('algebraixlib._sim_undef', _ud_path)
    mod = importlib.util.module_from_spec(spec)
    mod.__package__ = 'algebraixlib'
    spec.loader.exec_module(mod)
    return mod


def _modules():
    return [mod for name, mod in sorted(sys.modules.items()) if name.split('.')[0] == 'algebraixlib' and mod is not None
            and not name.endswith('.undef')]


# What the library's modules and functions hold right after they were loaded
_loaded = [(d, dict(d)) for mod in _modules()
           for d in [vars(mod)] + [f.__dict__ for f in vars(mod).values() if isinstance(f, types.FunctionType) and f.__module__ == mod.__name__]]


def cold_start():
    """The library as it was before its first use (whatever functions load or remember on demand is forgotten)."""
    for d, old in _loaded:
        for k in list(d):
            if k not in old:
                del d[k]
        for k, v in old.items():
            if d.get(k, d) is not v:
                d[k] = v


class Shared(H.World):
    """The objects of a history; calls into the library are traced while a simulated thread runs them."""

    def __init__(self, case, res):
        H.World.__init__(self, case, res)
        self.level = 0
        self.sched = None
        self.undefs = []

    def invoke(self, o, args, unchecked):
        s = self.sched
        me = s.me() if s is not None else None
        if me is None:
            return H.World.invoke(self, o, args, unchecked)
        trace(s, me)
        try:
            return H.World.invoke(self, o, args, unchecked)
        finally:
            sys.settrace(None)


def trace(s, me):
    at = 'opcode' if s.fine else 'line'

    def line(frame, event, arg):
        if event == at:
            s.tick(me)
        return line

    def call(frame, event, arg):
        if not is_lib_code(frame.f_code):
            return None
        if s.fine:
            frame.f_trace_opcodes = True
        return line
    sys.settrace(call)


def simulate(case, res, slices):
    w = Shared(case, res)
    w.setup()
    for n, st in enumerate(case.get('before', ())):
        w.do_step(n, st)
    progs = case['threads']
    if case.get('cold'):
        cold_start()
    s = Sched(len(progs), slices, res)
    s.fine = case.get('grain') == 'op'
    w.sched = s
    ud = undef_copy() if any('undef' in st for p in progs for st in p) else None
    errors = []

    def body(t):
        s.ids[_thread.get_ident()] = t
        s.go[t].acquire()
        try:
            if not s.dead:
                for n, st in enumerate(progs[t]):
                    step(w, s, t, n, st, ud, res)
        except Killed:
            pass
        except BaseException as e:      # noqa
            errors.append((t, e))
        finally:
            sys.settrace(None)
            if s.dead:
                s.done[t] = True
                if all(s.done):
                    s.main.release()
            else:
                s.handover(t, True)
    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(progs))]
    Sched.current = s
    builtins.__import__ = _import
    try:
        for th in ths:
            th.start()
        s.handover(-1)
        s.main.acquire()
        for th in ths:
            th.join()
    finally:
        Sched.current = None
        builtins.__import__ = _real_import
        w.sched = None
    if s.dead:
        res.bad('P09', 'the threads wait for each other for ever', 'deadlock')
        return s
    if errors:
        raise errors[0][1]
    if ud is not None:
        one = ud.Undef()
        res.checks += len(w.undefs)
        for t, u in w.undefs:
            if u is not one:
                res.bad('P09', 'two threads that first needed the undefined value at the same time got two different objects', 'undef')
                break
    w.final()
    return s


def step(w, s, t, n, st, ud, res):
    if 'undef' in st:
        res.steps += 1
        f = dict(make=ud.make_undef, new=ud.Undef, raised=ud.make_or_raise_undef)[st['undef']]
        trace(s, t)
        try:
            u = f()
        finally:
            sys.settrace(None)
        w.undefs.append((t, u))
        return
    if 'job' in st:
        from .w_files import Files
        trace(s, t)
        try:
            Files(dict(jobs=[]), res).do_job(st['job'], patch=False)
        finally:
            sys.settrace(None)
        return
    # objects of other threads are never arguments, so results may be kept in the shared table
    w.do_step('%d.%d' % (t, n), st)


def run(case):
    res = Result()
    reset_level()
    try:
        s = simulate(case, res, case['slices'])
        res.fault('preemption', s.switches)
        res.trace.append((s.switches, s.lines))
        if res.violations:
            ser = Result()
            simulate(case, ser, [])
            alone = {(v.prop, v.where.split('#')[0]) for v in ser.violations}
            for v in list(res.violations):
                if v.key() not in alone and v.prop != 'P09':
                    res.bad('P09', 'only when the threads interleave: %s %s' % (v.prop, v.msg), v.where)
    finally:
        reset_level()
    return res


# --- generation ---------------------------------------------------------------------------------
def schedule(rng, n, length):
    """Few preemptions at random places (most races need one or two), sometimes very many."""
    x = rng.random()
    out = []
    if x < .6:
        order = list(range(n))
        rng.shuffle(order)
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            out.append([rng.choice(order), rng.choice([1, 2, 3, 5, 8, 12, 20, 30, 50, rng.randrange(1, 80), rng.randrange(1, length)])])
        if rng.random() < .5:
            out = [[order[i % n], k] for i, (_, k) in enumerate(out)]
    elif x < .85:
        for _ in range(rng.choice([10, 30, 80])):
            out.append([rng.randrange(n), rng.choice([1, 1, 2, 3, 5, 8, 13])])
    else:
        k = rng.choice([1, 1, 2, 3, 7])
        for i in range(rng.choice([40, 150, 300])):
            out.append([i % n, k])
    return out


def grain(rng, c):
    """Sometimes preempt between bytecodes instead of lines."""
    if rng.random() < .4:
        c['grain'] = 'op'
        for sl in c['slices']:
            if rng.random() < .7:
                sl[1] = sl[1] * rng.choice([3, 7, 10]) + rng.randrange(8)
    return c


def case(rng, prop='P09'):
    from . import gen
    from . import ops as O
    h = gen.Hist(rng)
    own = rng.choice([gen.ALLOPS, gen.GROUPS['P02'], gen.GROUPS['P21'] + gen.GROUPS['P08'], gen.GROUPS['P03'], gen.GROUPS['P04'],
                      gen.GROUPS['P05'], gen.GROUPS['P06'], gen.GROUPS['P18'], gen.RESULTOPS])
    for _ in range(rng.choice([1, 2, 3])):
        h.add_lit(gen.gen(rng, h.dom, rng.choice(gen.KINDS)))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        name = rng.choice(gen.RESULTOPS if rng.random() < .6 else gen.QUERIES)
        h.step(name, nofail(h.args(O.OPS[name])))
    before, h.steps = h.steps, []
    progs = []
    nt = rng.choice([2, 2, 2, 3])
    first = None
    nl = len(h.lits)
    for t in range(nt):
        shared = dict(h.pool)
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            x = rng.random()
            if x < .03:
                h.steps.append({'undef': rng.choice(['make', 'new', 'raised'])})
                continue
            if first and x < .45:
                st = dict(rng.choice(first), id=h.nid())        # the same call as another thread
                h.steps.append(st)
                continue
            name = rng.choice(own) if x < .75 else rng.choice(gen.QUERIES) if x < .9 else rng.choice(gen.EFFECTS + gen.GROUPS['P21'])
            h.step(name, nofail(h.args(O.OPS[name])))
        progs.append(h.steps)
        if first is None:
            first = [st for st in h.steps if 'op' in st and all(a.get('o', 0) in shared for a in st['args'] if 'o' in a)]
        h.steps = []
        # results of this thread stay its own; literals made for it are shared objects
        lits = {l['id'] for l in h.lits}
        h.pool = {i: v for i, v in h.pool.items() if i in shared or i in lits}
    if rng.random() < .06:
        for p in progs:
            p.insert(0, {'undef': rng.choice(['make', 'new', 'raised'])})
    c = dict(world='threads', lits=h.lits, before=before, threads=progs, slices=schedule(rng, nt, 400))
    if rng.random() < .2:
        # nobody has used the library yet, and all threads begin with the same call
        c['cold'] = 1
        if first and rng.random() < .7:
            st = rng.choice(first)
            for t, p in enumerate(progs):
                p.insert(0, dict(st, id=h.nid()))
            if rng.random() < .7:
                c['slices'] = schedule(rng, nt, rng.choice([20, 60, 200]))
    if rng.random() < .15:
        c['sweep'] = 1
    return grain(rng, c)


def nofail(args):
    return [({'cb': a['cb'][1]} if 'cb' in a and a['cb'][0] == 'fail' else a) for a in args]


def imports(rng, prop):
    """Imports and exports running at the same time in several threads."""
    from . import w_files as F
    nt = rng.choice([2, 2, 3])
    progs = []
    base = None
    for t in range(nt):
        p = []
        for _ in range(rng.choice([1, 1, 2])):
            j = F.gen_csv_in(rng, .1, via=rng.choice(['stringio', 'obj']), depth=2) if rng.random() < (.75 if prop == 'P12' else .3) \
                else doc(F, rng)
            if base is not None and rng.random() < .3:
                j = F.json_copy(base)
            base = j
            p.append({'job': j})
        progs.append(p)
    return grain(rng, dict(world='threads', lits=[], threads=progs, slices=schedule(rng, nt, 300)))


def doc(F, rng):
    while True:
        j = F.gen_doc_in(rng, .1, 2)
        if j['via'] in ('stringio', 'obj'):
            return j
