"""World 'restart': objects travel through serialized bytes, copies and text between processes with different hash seeds.

A case is a list of stages. Each stage is a history run in one process (0: this one; n: a lock-stepped reader process with
PYTHONHASHSEED=n, freshly forked when the stage says so). A stage may crash after any step. Only the store (bytes and texts
saved so far) survives a stage; objects are then loaded from it and used further. Encoded documents may be torn."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from . import model as m
from . import forms
from .core import Result, Interrupter, EXCS, reset_level
from .enc import lib, to_m, from_m, build, to_model, show, skey, val_enc, Bad
from .hist import World, audit_flags

NAMES = {}
for _k, _v in dict(pickle='pickled and unpickled', copy='copied', deepcopy='deep-copied', mojson='encoded and decoded', repr='evaluated').items():
    NAMES[_k] = _v
    NAMES[_k + ' together'] = _v + ' together with others'


def strict(o):
    """Contents including the exact types inside atom values, independent of order."""
    mo = lib()['mo']
    if isinstance(o, mo.Atom):
        return ['a', strictval(o.value)]
    if isinstance(o, mo.Couplet):
        return ['c', strict(o.left), strict(o.right)]
    if isinstance(o, mo.Set):
        return ['s', sorted((strict(e) for e in o.data), key=repr)]
    if isinstance(o, mo.Multiset):
        return ['m', sorted(([strict(e), n] for e, n in o.data.items()), key=repr)]
    raise Bad(repr(o))


def strictval(v):
    if isinstance(v, (tuple, list)):
        return [type(v).__name__] + [strictval(x) for x in v]
    if isinstance(v, frozenset):
        return ['frozenset'] + sorted((strictval(x) for x in v), key=repr)
    return [type(v).__name__, repr(v)]


def atomtypes(v, out):
    if v[0] == 'a':
        out.add(v[1])
    elif v[0] == 'c':
        atomtypes(v[1], out)
        atomtypes(v[2], out)
    elif v[0] == 's':
        for e in v[1]:
            atomtypes(e, out)
    else:
        for e, _ in v[1]:
            atomtypes(e, out)
    return out


TEXTTYPES = {'str', 'bytes', 'bool', 'NoneType'}


def textual(v):
    """Whether the text form is specified to be canonical: atoms mutually comparable, at most one number type."""
    t = atomtypes(v, set()) - TEXTTYPES
    return not t or t == {'int'} or t == {'float'}


def mojson():
    import algebraixlib.import_export.mojson as mj
    return mj


def encode(o, how, opt):
    """Object -> bytes."""
    if how == 'pickle':
        if opt.get('pure'):
            import io
            b = io.BytesIO()
            (pickle._Pickler)(b, opt.get('proto', 4)).dump(o)
            return b.getvalue()
        return pickle.dumps(o, opt.get('proto', 4))
    if how == 'mojson':
        mj = mojson()
        if opt.get('direct') and not isinstance(o, list):
            return json.dumps(mj.encode(o)).encode()
        return json.dumps(o, cls=mj.ExportJson, indent=opt.get('indent'), ensure_ascii=not opt.get('utf8'),
                          sort_keys=bool(opt.get('sort'))).encode('utf-8', 'surrogatepass')
    if how == 'repr':
        return repr(o).encode('utf-8', 'surrogatepass')
    raise ValueError(how)


def decode(data, how, opt):
    if how == 'pickle':
        return pickle.loads(data)
    s = data.decode('utf-8', 'surrogatepass')
    if how == 'mojson':
        mj = mojson()
        k = opt.get('dec', 0)
        if k == 0:
            return json.loads(s, cls=mj.ImportJson)
        if k == 1 or s[:1] == '[':
            return json.loads(s, object_hook=mj.object_hook_f)
        return mj.decode(json.loads(s))
    mo = lib()['mo']
    return eval(s, dict({n: getattr(mo, n) for n in ('Atom', 'Couplet', 'Set', 'Multiset')}, inf=float('inf')))


def pack(o, opt):
    """Optionally put the object in a container that travels as a whole."""
    w = opt.get('in')
    if w == 'key':
        return {o: 'x'}
    if w == 'list':
        return [o, o, 1]
    if w == 'undef':
        return (o, lib()['ud'].Undef())
    return o


class Stage(World):
    def __init__(self, case, res, store, prop, plain=False):
        World.__init__(self, case, res)
        self.store, self.tp, self.plain = store, prop, plain
        self.level = 0
        self.cfg = {}

    def bad(self, msg, where):
        self.res.bad(self.tp, msg, where)

    def faulty(self, st, f, what, where):
        """Run f under the step's interrupt, if any; returns (done, value)."""
        if 'int' not in st:
            return True, f()
        it = Interrupter(st['int'][0], st['int'][1])
        try:
            with it:
                v = f()
        except BaseException as e:      # noqa
            if it.fired and type(e) is EXCS[st['int'][1]]:
                self.res.fault('interrupt:' + st['int'][1])
                return False, None
            raise
        if it.fired:
            self.res.fault('interrupt:' + st['int'][1])
            self.bad('%s was interrupted at %s but went on' % (what, it.where), where)
        return True, v

    def do_step(self, n, st):
        if 'save' in st:
            return self.save(n, st)
        if 'load' in st:
            return self.load(n, st)
        if 'copy' in st:
            return self.copy(n, st)
        if 'cfg' in st:
            self.cfg = dict(self.cfg, **st['cfg'])
            forms.configure(self.cfg)
            return
        if 'render' in st:
            return self.render(n, st)
        World.do_step(self, n, st)

    def save(self, n, st):
        if st['save'] not in self.objs or self.plain and st['as'] not in self.store:
            return
        o, mv, how, opt = self.objs[st['save']], self.models[st['save']], st['how'], st.get('opt', {})
        where = 'save-%s#%d' % (how, n)
        self.res.steps += 1
        before = (hash(o), self.text(o, mv))
        along = [i for i in st.get('with', ()) if i in self.objs]
        load = [o] + [self.objs[i] for i in along] + [o] if along else pack(o, opt) if how == 'pickle' else o
        try:
            ok, data = self.faulty(st, lambda: encode(load, how, opt), 'saving', where)
            if not ok:      # interrupted: do it again
                data = encode(load, how, opt)
        except Exception as e:
            self.bad('%s cannot be saved (%s): %s: %s' % (show(mv), how, type(e).__name__, e), where)
            return
        self.res.checks += 1
        if (hash(o), self.text(o, mv)) != before or to_model(o) != mv:
            self.bad('%s changed when it was saved (%s)' % (show(mv), how), where)
        if st.get('torn') is not None and how == 'mojson':
            self.torn(mv, data, st, how, opt, where)
        t = self.text(o, mv)
        self.store[st['as']] = dict(how=how, opt=opt, data=base64.b64encode(data).decode(), lit=from_m(mv), strict=strict(o),
                                    repr=t[0] if t else None, str=t[1] if t else None, form=self.form(o, mv))
        if along:
            self.store[st['as']]['with'] = [from_m(self.models[i]) for i in along]
        self.res.trace.append(('save', how, skey(mv)))
        self.res.state('save', how, mv[0], len(self.store), str(sorted(opt)))

    def render(self, n, st):
        ids = [i for i in st['render'] if i in self.objs and textual(self.models[i])]
        if not ids:
            return
        self.res.steps += 1
        where = 'latex#%d' % n
        self.faulty(st, lambda: [forms.renderings(self.objs[i]) for i in ids], 'rendering', where)
        for i in ids:
            forms.check_latex(self, i, self.cfg, where)
        if 'page' in st:
            forms.check_page(self, ids, st['page'], self.cfg, 'html#%d' % n)
        self.res.state('render', len(ids), str(sorted(self.cfg.items())), [self.models[i][0] for i in ids][0])
        self.res.trace.append(('render', len(ids)))

    def form(self, o, mv):
        """What is to be the same in every process."""
        if self.tp == 'P24':
            return forms.ground_text(o)
        if self.tp == 'P25' and textual(mv):
            forms.configure({})
            f = forms.renderings(o)
            forms.configure(self.cfg)
            return f

    def text(self, o, mv):
        return (repr(o), str(o)) if textual(mv) else None

    def torn(self, mv, data, st, how, opt, where):
        """A torn document must not decode to anything."""
        k = st['torn'] % len(data)
        self.res.fault('torn-document')
        try:
            v = decode(data[:k], how, opt)
        except Exception:
            self.res.checks += 1
            return
        self.bad('the first %d of %d bytes of encoded %s decode to %r' % (k, len(data), show(mv), v), where)

    def load(self, n, st):
        s = self.store.get(st['load'])
        if s is None:
            return
        how, opt = s['how'], s['opt']
        where = 'load-%s#%d' % (how, n)
        mv = to_m(s['lit'])
        self.res.steps += 1
        fresh = build(from_m(mv), st.get('route', 0))
        if self.plain:
            self.objs[st['id']], self.models[st['id']] = fresh, mv
            return
        data = base64.b64decode(s['data'])
        try:
            ok, o = self.faulty(st, lambda: decode(data, how, opt), 'loading', where)
            if not ok:
                o = decode(data, how, opt)
        except Exception as e:
            self.bad('%s cannot be loaded again (%s): %s: %s' % (show(mv), how, type(e).__name__, e), where)
            return
        if 'with' in s:
            o = self.company(o, [mv] + [to_m(x) for x in s['with']] + [mv], how, where)
            if o is None:
                return
        elif how == 'pickle':
            o = self.unpack(o, fresh, opt, mv, where)
            if o is None:
                return
        self.judge(o, fresh, mv, how, where, s)
        if st['id'] is not None:
            self.objs[st['id']], self.models[st['id']] = o, mv
        self.res.trace.append(('load', how, skey(mv)))
        self.res.state('load', how, mv[0], st.get('route', 0), str(sorted(opt)))

    def company(self, c, mvs, how, where):
        """Several objects that travelled or were copied together."""
        self.res.checks += 1
        if type(c) is not list or len(c) != len(mvs):
            self.bad('a list of %d objects %s is %r' % (len(mvs), NAMES[how], c), where)
            return None
        for o, mv in zip(c, mvs):
            self.judge(o, build(from_m(mv)), mv, how + ' together', where)
        return c[0]

    def unpack(self, c, fresh, opt, mv, where):
        w = opt.get('in')
        if w == 'key':
            self.res.checks += 1
            if fresh not in c or c.get(fresh) != 'x':
                self.bad('a dictionary with key %s does not find the key after loading' % show(mv), where)
            return list(c)[0]
        if w == 'list':
            return c[1]
        if w == 'undef':
            self.res.checks += 1
            if c[1] is not lib()['ud'].Undef():
                self.bad('the undefined value loads as another object %r' % type(c[1]), where)
            return c[0]
        return c

    def judge(self, o, fresh, mv, how, where, s=None):
        """The object o must be indistinguishable from the freshly built one."""
        res = self.res
        res.checks += 6
        what = '%s %s' % (show(mv), NAMES[how])
        if not isinstance(o, lib()['mo'].MathObject):
            self.bad('%s is %r' % (what, o), where)
            return
        try:
            got = to_model(o)
        except Exception as e:
            self.bad('%s is malformed: %s' % (what, e), where)
            return
        if got != mv:
            self.bad('%s is %s' % (what, show(got)), where)
            return
        if type(o) is not type(fresh):
            self.bad('%s is a %s' % (what, type(o).__name__), where)
        if s is not None and strict(o) != s['strict'] and json.loads(json.dumps(strict(o))) != s['strict']:
            self.bad('%s holds %r instead of %r' % (what, strict(o), s['strict']), where)
        if not (o == fresh) or o != fresh or not (fresh == o) or fresh != o:
            self.bad('%s is not equal to %s' % (what, show(mv)), where)
        if hash(o) != hash(fresh):
            self.bad('%s has another hash than an equal object' % what, where)
        elif o not in {fresh: 1} or fresh not in {o: 1} or fresh not in lib()['mo'].Set([o]).data:
            self.bad('%s is not found where an equal object is' % what, where)
        if mv[0] in 'sm':
            if len(o) != len(fresh):
                self.bad('%s has size %d' % (what, len(o)), where)
            for e in fresh.data:
                if not o.has_element(e) or e not in o or mv[0] == 'm' and o.get_multiplicity(e) != fresh.get_multiplicity(e):
                    self.bad('%s does not contain its element %s' % (what, show(to_model(e))), where)
        t = Result()
        audit_flags(t, [o], where)
        for v in t.violations:
            self.bad('%s: %s' % (what, v.msg), where)
        if s is not None and s['form'] is not None and self.form(o, mv) != s['form']:
            self.bad('%s of %s was %r and is now %r' % ('the ground set' if self.tp == 'P24' else 'the rendering', show(mv), s['form'],
                                                        self.form(o, mv)), where)
        if textual(mv):
            r = (repr(o), str(o))
            if s is not None and s['repr'] is not None and r != (s['repr'], s['str']):
                res.bad('P20', 'the text of %s was %s / %s and is now %s / %s' % (show(mv), s['repr'], s['str'], r[0], r[1]), where)
                if self.tp != 'P20':
                    self.bad('%s has another text' % what, where)
            elif r != (repr(fresh), str(fresh)):
                res.bad('P20', 'two objects %s have different texts: %r, %r' % (show(mv), r, (repr(fresh), str(fresh))), where)

    def copy(self, n, st):
        if st['copy'] not in self.objs:
            return
        o, mv, how = self.objs[st['copy']], self.models[st['copy']], st['how']
        where = '%s#%d' % (how, n)
        self.res.steps += 1
        if self.plain:
            self.objs[st['id']], self.models[st['id']] = build(from_m(mv)), mv
            return
        f = copy.copy if how == 'copy' else copy.deepcopy
        along = [i for i in st.get('with', ()) if i in self.objs]
        load = [o] + [self.objs[i] for i in along] + [o] if along else o
        try:
            ok, c = self.faulty(st, lambda: f(load), how, where)
            if not ok:
                c = f(load)
            if along:
                c = self.company(c, [mv] + [self.models[i] for i in along] + [mv], how, where)
                if c is None:
                    return
        except Exception as e:
            self.bad('%s cannot be %s: %s: %s' % (show(mv), NAMES[how], type(e).__name__, e), where)
            return
        if to_model(o) != mv:
            self.bad('%s changed when it was %s' % (show(mv), NAMES[how]), where)
        self.judge(c, build(from_m(mv)), mv, how, where)
        u = lib()['ud'].Undef()
        if f(u) is not u:
            self.bad('the undefined value %s is another object' % NAMES[how], where)
        self.objs[st['id']], self.models[st['id']] = c, mv
        self.res.trace.append((how, skey(mv)))
        self.res.state(how, mv[0])

    def finish(self):
        World.final(self)
        if self.tp == 'P24':
            forms.check_grounds(self, self.case.get('structs', ()))
        if self.tp == 'P25':
            for i in sorted(self.objs, key=str):
                if textual(self.models[i]):
                    forms.check_latex(self, i, self.cfg, 'latex-end')
        if self.tp == 'P20':
            forms.check_order(self, textual)
            seen = {}
            for i, o in self.objs.items():
                mv = self.models[i]
                if textual(mv):
                    self.res.checks += 1
                    try:
                        r, s = repr(o), str(o)
                        back = decode(r.encode('utf-8', 'surrogatepass'), 'repr', {})
                    except Exception as e:
                        self.bad('the representation of %s cannot be used: %s: %s' % (show(mv), type(e).__name__, e), 'text')
                        continue
                    if not (back == o) or to_model(back) != mv:
                        self.bad('the representation %s evaluates to %s' % (r, show(to_model(back))), 'text')
                    f = build(from_m(mv), 0)
                    if (repr(f), str(f)) != (r, s):
                        self.bad('two objects %s have different texts: %r, %r' % (show(mv), (r, s), (repr(f), str(f))), 'text')
                    if seen.setdefault(r, mv) != mv:
                        self.bad('%s and %s have the same representation %s' % (show(mv), show(seen[r]), r), 'text')


def run_stage(stage, store, prop, plain=False):
    """-> (result, store). Executed in whichever process runs the stage."""
    res = Result()
    reset_level()
    if prop == 'P25':
        forms.configure({})
    w = Stage(stage, res, store, prop, plain)
    try:
        w.setup()
        steps = stage['steps']
        if stage.get('crash') is not None:
            res.fault('process-crash')
            for n, st in enumerate(steps[:stage['crash']]):
                w.do_step(n, st)
            return res, store
        for n, st in enumerate(steps):
            w.do_step(n, st)
        w.finish()
    finally:
        reset_level()
    return res, store


def plainstage(stage):
    s = json.loads(json.dumps(stage))
    for st in s['steps']:
        if 'load' in st or 'save' in st or 'copy' in st:
            st.pop('int', None)
    return s


def attributed(stage, store, prop):
    """Run a stage; violations of other properties that vanish when loaded objects are replaced by fresh ones are this one's."""
    before = json.loads(json.dumps(store))
    res, out = run_stage(stage, store, prop)
    others = [v for v in res.violations if v.prop != prop]
    if others:
        t, _ = run_stage(plainstage(stage), before, prop, plain=True)
        base = {v.key() for v in t.violations}
        for v in others:
            if v.key() not in base:
                res.bad(prop, 'only with an object that was saved and loaded or copied: %s %s' % (v.prop, v.msg), v.where)
    return res, out


# --- the reader processes -----------------------------------------------------------------------
_readers = {}


def reader(seed):
    p = _readers.get(seed)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True; '
                              'sys.setrecursionlimit(3000)\nfrom sim import w_restart; w_restart.serve()' % here],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        _readers[seed] = p
    return p


def close_reader(seed):
    p = _readers.pop(seed, None)
    if p is not None:
        p.kill()
        p.wait()


def remote(stage, store, prop):
    seed = stage['proc']
    try:
        p = reader(seed)
        p.stdin.write((json.dumps([stage, store, prop]) + '\n').encode())
        p.stdin.flush()
        l = p.stdout.readline()
    except BaseException:
        close_reader(seed)
        raise
    if not l:
        close_reader(seed)
        raise RuntimeError('the reader process ended')
    d = json.loads(l.decode())
    res = Result()
    if 'error' in d:
        raise RuntimeError('reader: ' + d['error'])
    for a in ('steps', 'checks', 'faults'):
        setattr(res, a, d[a])
    res.states = set(d['states'])
    res.trace = d['trace']
    for v in d['violations']:
        res.bad(*v)
    return res, d['store']


def serve():
    """Reader process: one request per line; fresh requests run in a forked child."""
    lib()
    mojson()
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    for line in sys.stdin.buffer:
        stage, store, prop = json.loads(line.decode())
        if stage.get('fresh'):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    data = answer(stage, store, prop)
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            os.close(w)
            data = b''
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            os.close(r)
            os.waitpid(pid, 0)
        else:
            data = answer(stage, store, prop)
        out.write(data or b'{"error": "child died"}\n')
        out.flush()


def answer(stage, store, prop):
    try:
        res, store = attributed(stage, store, prop)
        d = dict(steps=res.steps, checks=res.checks, faults=res.faults, states=sorted(res.states), store=store,
                 trace=[repr(t) for t in res.trace], violations=[[v.prop, v.msg, v.where] for v in res.violations])
    except Exception as e:
        import traceback
        d = dict(error='%r %s' % (e, traceback.format_exc()[-1500:]))
    return json.dumps(d).encode() + b'\n'


def run(case):
    res = Result()
    store = {}
    for stage in case['stages']:
        if stage['proc']:
            r, store = remote(stage, store, case['prop'])
        else:
            r, store = attributed(stage, store, case['prop'])
        # whatever survives does so as plain bytes and text
        store = json.loads(json.dumps(store))
        res.steps += r.steps
        res.checks += r.checks
        res.states |= r.states
        res.trace.append((stage['proc'], [str(t) for t in r.trace]))
        for k, n in r.faults.items():
            res.fault(k, n)
        res.violations += r.violations
        res.fault('restart-other-hash-seed' if stage['proc'] else 'restart', 0 if stage is case['stages'][0] else 1)
    return res


# --- generation ---------------------------------------------------------------------------------
READERS = [1, 77]


def case(rng, prop, interrupts=.08):
    from . import gen
    wide = {'P14': .6, 'P15': .35, 'P20': .5, 'P24': .2, 'P25': .5}[prop]
    profile = rng.choice([5, 6, 7]) if rng.random() < wide else rng.choice([0, 1, 2, 4] if prop in ('P20', 'P25') else [0, 1, 2, 3, 4])
    hows = dict(P14=['mojson'], P15=['pickle', 'pickle', 'copy', 'deepcopy'], P20=['repr'], P24=['repr', 'pickle'],
                P25=['repr'])[prop]
    stages, saved, dom = [], {}, None
    k = 0
    for sn in range(rng.choice([2, 2, 2, 3, 3, 4])):
        h = gen.Hist(rng, profile)
        dom = h.dom = dom or h.dom
        h.next = sn * 1000
        st = dict(proc=0 if sn == 0 else rng.choice([0, READERS[0], READERS[0], READERS[1]]))
        if st['proc'] and rng.random() < .12:
            st['fresh'] = 1
        for _ in range(rng.choice([1, 2]) if sn == 0 else rng.choice([0, 1])):
            if rng.random() < .03:
                h.add_lit(gen.big_lit(rng, rng.choice(['aset', 'mset', 'rel', 'mrel', 'clan', 'horde', 'mclan']), rng.choice([20, 66, 130]),
                                      rng.random() < .5))
            else:
                h.add_lit(gen.gen(rng, dom, rng.choice(gen.KINDS)))
            if rng.random() < .4:
                v = h.pool[max(h.pool)]
                h.add_lit(gen.mirror(rng, from_m(v), 1) if rng.random() < .4 else gen.lookalike(rng, from_m(v)) if rng.random() < .5 else
                          gen.related(rng, dom, v, 'mixed'))
        for key in sorted(saved) if rng.random() < .7 else rng.sample(sorted(saved), min(len(saved), 2)):
            i = h.nid()
            l = dict(load=key, id=i, route=rng.randrange(5))
            if rng.random() < interrupts:
                l['int'] = [rng.choice([1, 2, 3, 5, 8, 13, 21, 40]), rng.choice(['interrupt', 'memory'])]
            h.steps.append(l)
            h.pool[i] = saved[key]
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            x = rng.random()
            if prop == 'P25' and x > .55:
                render(rng, h, interrupts)
                continue
            if x < .3 and h.pool:
                how = rng.choice(hows)
                i = rng.choice(sorted(h.pool)[-6:])
                if how in ('copy', 'deepcopy'):
                    c = dict(copy=i, how=how, id=h.nid())
                    company(rng, c, i, h)
                    if rng.random() < interrupts:
                        c['int'] = [rng.choice([1, 2, 3, 5, 8]), 'interrupt']
                    h.steps.append(c)
                    h.pool[c['id']] = h.pool[i]
                else:
                    k += 1
                    h.steps.append(savestep(rng, i, 'k%d' % k, how, interrupts, h))
                    saved['k%d' % k] = h.pool[i]
            else:
                name = rng.choice(gen.QUERIES) if x < .5 else rng.choice(gen.EFFECTS + gen.GROUPS['P21'] + gen.GROUPS['P08']) if x < .7 \
                    else rng.choice(gen.RESULTOPS)
                o = gen.O.OPS[name]
                kw = {}
                args = h.args(o)
                if any('cb' in a and a['cb'][0] == 'fail' for a in args):
                    continue
                h.step(name, args, **kw)
        if sn == 0 or rng.random() < .6:
            for i in sorted(h.pool)[-rng.choice([1, 2, 3]):]:
                how = rng.choice([x for x in hows if x not in ('copy', 'deepcopy')])
                k += 1
                h.steps.append(savestep(rng, i, 'k%d' % k, how, interrupts, h))
                saved['k%d' % k] = h.pool[i]
        st.update(lits=h.lits, steps=h.steps)
        if prop == 'P24':
            specs = [forms.gen_spec(rng) for _ in range(rng.choice([0, 1, 2]))]
            st['structs'] = specs + [forms.shuffled(rng, s) for s in specs]
        if rng.random() < .15:
            st['crash'] = rng.randrange(len(h.steps) + 1)
        stages.append(st)
    return dict(world='restart', stages=stages)


def render(rng, h, interrupts):
    if rng.random() < .3:
        h.steps.append({'cfg': rng.choice([dict(colorize_output=False), dict(colorize_output=True), dict(short_set_len=rng.choice([1, 2, 4])),
                                           dict(short_atom_len=rng.choice([2, 3, 10]))])})
    if rng.random() < .5:
        for _ in range(5):
            e = gen_wide(rng, h.dom)
            if e[1]:
                h.add_lit(e)
                break
    if not h.pool:
        return
    ids = [rng.choice(sorted(h.pool)[-6:]) for _ in range(rng.choice([1, 1, 2, 3]))]
    st = dict(render=ids)
    if rng.random() < .3:
        st['page'] = [rng.choice(TITLES), [[rng.choice(TITLES), rng.choice(TITLES)] for _ in ids], rng.choice([0, 0, 1, 1, 1, 2, 3]),
                      [rng.choice([0, 0, 0, 0, 1, 2, 3]) for _ in ids]]
    if rng.random() < interrupts:
        st['int'] = [rng.randrange(1, 60), rng.choice(['interrupt', 'memory', 'recursion'])]
    h.steps.append(st)


TITLES = ['t', '', '<b>', 'a & b', '"q"', "it's", '{x}', '$1', '\u20ac', 'l1\nl2', '&amp;', 'x &amp; <y>', '&lt;b>', '{{', '<a href="x">', '%s', '\\']


def gen_wide(rng, dom):
    """A (multi)set with more elements than short renderings show."""
    from . import gen
    ks = rng.sample(['atom', 'couplet', 'rel', 'aset', 'mset'], rng.choice([1, 2, 2]))
    es = gen.dedupe([gen.gen(rng, dom, rng.choice(ks), 1) for _ in range(rng.choice([2, 4, 6, 9, 14]))])
    return ['S', es] if rng.random() < .6 else ['M', [[e, rng.choice([1, 1, 2, 5, 11])] for e in es]]


def company(rng, st, i, h):
    if rng.random() < .35 and len(h.pool) > 1:
        st['with'] = [rng.choice(sorted(h.pool)) for _ in range(rng.choice([1, 2, 3]))]


def savestep(rng, i, key, how, interrupts, h):
    st = dict(save=i, how=how)
    st['as'] = key
    if how != 'repr':
        company(rng, st, i, h)
    opt = {}
    if how == 'pickle':
        opt['proto'] = rng.choice([0, 1, 2, 3, 4, 5])
        x = rng.random()
        if x < .5:
            opt['in'] = rng.choice(['key', 'list', 'undef'])
        if rng.random() < .3:
            opt['pure'] = 1
    elif how == 'mojson':
        opt['dec'] = rng.choice([0, 0, 1, 2])
        if rng.random() < .25:
            opt['direct'] = 1
        if rng.random() < .2:
            opt['indent'] = rng.choice([0, 2])
        if rng.random() < .3:
            opt['utf8'] = 1
        if rng.random() < .2:
            opt['sort'] = 1
        if rng.random() < .5:
            st['torn'] = rng.choice([0, 1, rng.randrange(1000), rng.randrange(1000)])
    if opt:
        st['opt'] = opt
    if rng.random() < interrupts:
        st['int'] = [rng.choice([1, 2, 3, 5, 8, 13, 21, 40]), rng.choice(['interrupt', 'memory'])]
    return st
