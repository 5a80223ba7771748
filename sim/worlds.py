"""Which worlds decide which property, and how a case is made and run. A case is explicit JSON; nothing is random in run()."""
import json
import random
import signal
import sys
import zlib

from . import gen
from . import hist
from .core import Result, Violation, is_lib_code, reset_level

WORLDS = {'hist': hist.run}


def world(name):
    """Import worlds on demand (some need rdflib)."""
    if name not in WORLDS:
        import importlib
        WORLDS[name] = importlib.import_module('sim.w_' + name).run
    return WORLDS[name]


# property -> list of (weight, maker(rng) -> case)
def _hist(prop, **kw):
    return lambda rng: gen.history(rng, prop, **kw)


def _lazy(mod, fn, *a, **kw):
    def mk(rng):
        import importlib
        return getattr(importlib.import_module('sim.w_' + mod), fn)(rng, *a, **kw)
    return mk


PLANS = {}
for _p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P18', 'P21'):
    PLANS[_p] = [(7, _hist(_p)), (2, _hist(_p, interrupts=.12)), (1, _hist(_p, sweep=True, interrupts=.05))]
PLANS['P01'].append((30, lambda rng: gen.remembered(rng, 'P01')))
for _p in ('P03', 'P04', 'P05', 'P06', 'P07', 'P18'):
    PLANS[_p].append((3, lambda rng, _p=_p: gen.remembered(rng, _p)))
PLANS['P21'] += [(8, lambda rng: gen.lookups(rng, 'P21')), (2, lambda rng: gen.lookups(rng, 'P21', .15))]
for _p in ('P04', 'P05', 'P06', 'P07', 'P01'):
    PLANS[_p].append((2, lambda rng, _p=_p: gen.lookups(rng, _p)))
for _p, _w in dict(P01=1.5, P02=1, P03=1.6, P04=1.2, P05=1, P06=.8, P07=.6, P08=.8, P18=.8, P21=1).items():
    PLANS[_p].append((_w, lambda rng, _p=_p: gen.big(rng, _p)))
PLANS['P10'] = [(6, _hist('P10', interrupts=.3, sweep=True)), (2.5, lambda rng: gen.cuts(rng, 'P10')), (.5, _lazy('files', 'case', ['csv_in', 'csv_in', 'doc_in', 'csv_out'], .5, .4)),
                (.3, _lazy('slice', 'case')), (.3, _lazy('rdf', 'case', .3)), (.3, _lazy('files', 'case', ['rdf_in', 'table_out'], .5, .4))]
_FILES = [_lazy('files', 'case', ['csv_in', 'csv_in', 'doc_in', 'csv_out', 'rdf_in', 'table_out'], .2, .1), _lazy('slice', 'case'), _lazy('rdf', 'case')]
PLANS['P01'] += [(2, _FILES[0]), (1, _FILES[1]), (1, _FILES[2])]
PLANS['P01'] += [(1, lambda rng: gen.cuts(rng, 'P01'))]
PLANS['P02'] += [(1, _FILES[0])]
PLANS['P07'] += [(1, _lazy('files', 'case', ['csv_in', 'csv_out', 'csv_out', 'table_out'], .2, .1)), (1, _FILES[1]), (1, _FILES[2])]
PLANS['P11'] = [(8, _hist('P11', levels=True)), (2, _hist('P11', levels=True, interrupts=.15))]
PLANS['P12'] = [(8, _lazy('files', 'case', ['csv_in', 'csv_in', 'csv_in', 'doc_in'], .3)), (.5, _lazy('threads', 'imports', 'P12'))]
PLANS['P13'] = [(1, _lazy('files', 'case', ['csv_out'], .4))]
PLANS['P16'] = [(8, _lazy('files', 'case', ['doc_in', 'doc_in', 'doc_in', 'csv_in'], .35)), (.5, _lazy('threads', 'imports', 'P16'))]
PLANS['P19'] = [(1, _lazy('slice', 'case'))]
PLANS['P23'] = [(1, _lazy('timers', 'case'))]
for _p in ('P14', 'P15', 'P20', 'P24', 'P25'):
    PLANS[_p] = [(1, _lazy('restart', 'case', _p))]
PLANS['P09'] = [(1, _lazy('threads', 'case'))]
PLANS['P22'] = [(1, _lazy('files', 'case', ['csv_in', 'csv_out', 'doc_in'], .7)),
                (.3, _lazy('files', 'case', ['rdf_in', 'table_out', 'csv_in'], .7))]
PLANS['P17'] = [(6, _lazy('rdf', 'case')), (2, _lazy('files', 'case', ['rdf_in', 'table_out', 'table_out'], .3))]


def make(prop, seed, i):
    """The i-th case of a seed."""
    rng = random.Random('%s:%s:%d' % (seed, prop, i))
    plan = PLANS[prop]
    x = rng.random() * sum(w for w, _ in plan)
    for w, f in plan:
        x -= w
        if x < 0:
            break
    case = f(rng)
    case['prop'] = prop
    return case


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang('no progress')


def strip_faults(case):
    """The same history without its interrupts and callback failures."""
    c = json.loads(json.dumps(case))
    if c['world'] == 'cuts':
        c['cuts'] = [None]
    for st in c.get('steps', ()):
        st.pop('int', None)
        st.pop('fail', None)
        for a in st.get('args', ()):
            if 'cb' in a and a['cb'][0] == 'fail':
                a['cb'] = a['cb'][1]
    return c


def run(case, limit=30):
    """Run a case, with a watchdog for runs that make no progress."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        f = world(case['world'])
        res = f(case)
        if case['prop'] == 'P10' and case['world'] in ('hist', 'slice', 'rdf', 'cuts'):
            clean = {v.key()[0] for v in f(strip_faults(case)).violations} if res.violations else set()
            extra = []
            for v in res.violations:
                if v.prop != 'P10' and v.prop not in clean:
                    extra.append(Violation('P10', 'only with the injected faults: ' + v.prop + ' ' + v.msg, v.where))
            res.violations += extra
    except Exception as e:
        # Anything the worlds do not expect comes from the code under test (directly, or by what it returned).
        sys.settrace(None)
        tb, lib = e.__traceback__, False
        frames = []
        while tb is not None:
            lib = lib or is_lib_code(tb.tb_frame.f_code)
            frames.append(tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        if isinstance(e, (MemoryError, OSError)) and not lib:
            raise
        reset_level()
        res = Result()
        res.bad(case['prop'], 'unexpected %s: %s (in %s)' % (type(e).__name__, e, ' < '.join(reversed(frames[-3:]))), 'unexpected:' + type(e).__name__)
    except Hang:
        sys.settrace(None)
        reset_level()
        res = Result()
        res.bad(case['prop'], 'the run made no progress for %d seconds' % limit, 'hang')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return res


def digest(case):
    return zlib.crc32(json.dumps(case, sort_keys=True).encode())
