"""Worker process of a check: runs simulated cases, shrinks one, or replays a file. Run by check.py under the
library's interpreter with PYTHONPATH=/repo and an explicit PYTHONHASHSEED."""
import gc
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)

from sim import worlds, shrink      # noqa: E402


def viol(v):
    return dict(prop=v.prop, msg=v.msg[:1500], where=v.where)


def batch(prop, seed, start, stop, maxtime, out, full=False):
    t0 = time.time()
    cpu0 = time.process_time()
    r = dict(cases=0, steps=0, checks=0, faults={}, simtime=0.0, nontrivial=0, found=[], others={}, samples=[], trace=0,
             capped=False)
    states, seen, keys = set(), set(), {}
    logs = []
    for i in range(start, stop):
        if time.time() - t0 > maxtime:
            r['capped'] = True
            break
        case = worlds.make(prop, seed, i)
        case['hashseed'] = os.environ.get('PYTHONHASHSEED')
        res = worlds.run(case)
        if any(v.where == 'hang' for v in res.violations):
            res = worlds.run(case, limit=150)       # a slow machine is no hang
        r['cases'] += 1
        r['steps'] += res.steps
        r['checks'] += res.checks
        r['simtime'] += res.simtime
        for k, n in res.faults.items():
            r['faults'][k] = r['faults'].get(k, 0) + n
        states |= res.states
        d = worlds.digest(case)
        if d not in seen:
            seen.add(d)
            if res.checks and res.steps >= 2:
                r['nontrivial'] += 1
        if full:
            logs.append(shrink.sig(res))
        if len(r['samples']) < 2 and res.checks and i >= start + 3:
            r['samples'].append(case)
        for v in res.violations:
            k = v.key()
            if v.prop != prop:
                r['others'][v.prop] = r['others'].get(v.prop, 0) + 1
                continue
            if keys.get(k, 0) < 2:
                keys[k] = keys.get(k, 0) + 1
                r['found'].append(dict(case=case, i=i, start=start, v=viol(v)))
        if len(r['found']) >= 12:
            break
        if i % 200 == 199:
            gc.collect()
    r['states'] = sorted(states)
    r['wall'] = time.time() - t0
    r['cpu'] = time.process_time() - cpu0
    if full:
        r['log'] = logs
    with open(out, 'w') as f:
        json.dump(r, f)


def replay(path):
    """Run the cases of a replay file; print the violations of its property; exit 1 if the expected one occurs."""
    rep = json.load(open(path))
    hit = False
    cases = rep.get('cases')
    if cases is None:
        b = rep['batch']
        cases = []
        for i in range(b['start'], b['stop']):
            c = worlds.make(rep['property'], b['seed'], i)
            c['hashseed'] = rep['hashseed']
            cases.append(c)
    for n, case in enumerate(cases):
        res = worlds.run(case)
        if n < len(cases) - 1:
            continue
        print(json.dumps(dict(events=shrink.sig(res), violations=[viol(v) for v in res.violations if v.prop == rep['property']])))
        for v in res.violations:
            if v.prop == rep['property'] and shrink.keymatch(v, rep['violation']):
                hit = True
    return 1 if hit else 0


if __name__ == '__main__':
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    cmd = sys.argv[1]
    if cmd == 'batch':
        prop, seed, start, stop, maxtime, out = sys.argv[2:8]
        batch(prop, seed, int(start), int(stop), float(maxtime), out, full='full' in sys.argv)
    elif cmd == 'shrink':
        src, dst, budget = sys.argv[2:5]
        shrink.main(src, dst, float(budget))
    elif cmd == 'replay':
        sys.exit(replay(sys.argv[2]))
