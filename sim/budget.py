"""How many cases each check runs per tier: (cases, cases per worker process, seconds at most)."""

_H = dict(quick=(6400, 400, 150), thorough=(160000, 2000, 780))
_F = dict(quick=(16000, 1000, 150), thorough=(400000, 5000, 780))
BUDGET = {p: dict(_H) for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P10', 'P11', 'P18', 'P21')}
BUDGET.update({p: dict(_F) for p in ('P12', 'P13', 'P16', 'P22')})
BUDGET['P17'] = dict(quick=(12000, 750, 150), thorough=(300000, 4000, 780))
BUDGET['P19'] = dict(quick=(12000, 750, 150), thorough=(300000, 4000, 780))
BUDGET['P23'] = dict(quick=(12000, 750, 150), thorough=(300000, 4000, 780))
for _p in ('P14', 'P15', 'P20', 'P24', 'P25'):
    BUDGET[_p] = dict(quick=(4000, 250, 200), thorough=(90000, 1200, 780))
BUDGET['P24'] = dict(quick=(3000, 190, 200), thorough=(60000, 800, 780))
BUDGET['P01'] = dict(quick=(24000, 1000, 200), thorough=(400000, 4000, 780))
BUDGET['P10'] = dict(quick=(6400, 400, 200), thorough=(160000, 2000, 780))
BUDGET['P09'] = dict(quick=(9600, 600, 200), thorough=(90000, 1200, 780))
_DISK = dict(stub=['disk: open() of paths below /sim/, raw reads, writes, closes (in-memory, fault-injected)',
                   'caller-supplied file objects, writers, conversions and sort keys (scripted)', 'locale encoding'],
             real=['algebraixlib import_export, algebras, mathobjects (all library code)',
                   'Python buffering, text decoding, csv, xml and json parsers'])
META = {p: _DISK for p in ('P12', 'P13', 'P16', 'P22')}
META['P17'] = dict(_DISK, real=_DISK['real'] + ['rdflib graph, parsers and skolemization'], stub=_DISK['stub'] + ['blank node name generator (counter)'])
META['P23'] = dict(stub=['every clock of the time module', 'the console (sys.stdout)', 'finalizer timing (called when the case says so)'],
                   real=['algebraixlib util.miscellaneous (timers, variable printing)'])
for _p in ('P14', 'P15', 'P20', 'P24', 'P25'):
    META[_p] = dict(stub=['durable store (bytes and texts handed between lock-stepped processes)', 'process crash (everything but the store dropped)'],
                    real=['algebraixlib (all library code)', 'json, pickle, copy', 'processes with different hash seeds, partly freshly forked'])
_R = ('histories spread over lock-stepped processes with different hash seeds; objects %s; crashes between steps, interrupts during '
      'saving and loading%s; loaded objects compared with fresh ones and used in further histories against the reference model')
META['P09'] = dict(stub=['thread scheduler (threads parked, handing over only where the case says)', 'threading.Lock and RLock (cooperative)'],
                   real=['algebraixlib (all library code)', 'Python threads and per-thread state'])
NOTE = {'': 'seeded histories of library calls with interrupts, memory and recursion errors at arbitrary lines, failing user '
            'callbacks and undefined or ill-kinded operands; every outcome compared with a reference model, every object audited',
        'P11': 'seeded histories that move the global raise level between calls and inject interrupts; each outcome judged against '
               'the level in force and a reference model',
        'P12': 'imports run on a simulated disk (short reads, I/O errors, interrupts, any locale), with failing conversions, nested '
               'imports started from conversions and sources, and retries; results compared with a model of the file',
        'P13': 'exports run on a simulated disk (short, torn and lost writes, full disks, failing closes, any locale) and failing '
               'writers and sort keys; files re-read independently and re-imported',
        'P16': 'imports of generated documents on a simulated disk with short reads, I/O errors, interrupts, truncated documents and '
               'nested imports; results compared with a model of the document',
        'P17': 'graphs imported from or exported to a simulated disk with I/O faults; query histories (matches, projections, joins) '
               'interrupted at arbitrary lines and repeated; solutions compared with plain triples',
        'P19': 'paging histories over multiclans with user comparisons that fail, are interrupted or page themselves; windows and '
               'tilings compared with the expanded ordered sequence',
        'P22': 'imports and exports under dense I/O faults, failing callbacks and interrupts; open handles of the simulated disk '
               'counted at the end of each call, then the same call retried without faults and judged as a first attempt',
        'P23': 'timer histories on simulated clocks that advance, stall and jump independently, with a failing console, exceptions in '
               'timed blocks, missing or unprintable values and finalizers run at chosen points; output and times compared with a model',
        'P14': _R % ('travel as JSON documents', ', torn documents'), 'P15': _R % ('are pickled, copied and deep-copied', ''),
        'P20': _R % ('travel as evaluable text and are rebuilt in other orders', ''),
        'P24': _R % ('are asked for their ground sets, which travel as text', ''),
        'P25': _R % ('are rendered as LaTeX and HTML under changing settings, which travel as text', ''),
        'P09': 'small programs in two or three threads over shared objects, preempted at lines or bytecodes of library code where a '
               'seeded schedule says; outcomes compared with the single-threaded reference model, everything remembered audited'}
