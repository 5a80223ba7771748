#!/usr/bin/env python3
"""Decide one property by simulation.

  check.py P03 [--tier quick|thorough]     explore; exit 0 (held), 1 (VIOLATION line printed)
  check.py --replay FILE                   repeat a recorded violation in a fresh process; exit 1 if it occurs
  check.py --determinism P03 [--cases N]   run the same cases twice (other worker layout) and compare the event logs

The seed is VERIF_SEED (default 1). Case i of a seed is a pure function of (seed, property, i); it runs under the hash seed
derived from (seed, i // BLOCK)."""
import argparse
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable

sys.path.insert(0, HERE)
from sim.budget import BUDGET, META       # noqa: E402


def env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LC_ALL='C.UTF-8',
             PYTHONIOENCODING='utf-8')
    e.pop('PYTHONSTARTUP', None)
    return e


def hashseed(seed, block):
    return (int(seed) * 7919 + block * 104729 + 17) % 4294967291


def run_batches(prop, seed, blocks, block, maxtime, jobs, tmp, extra=(), stop_early=True):
    """Run blocks (numbers) of cases in parallel worker processes; yields (block number, result or None, stderr)."""
    todo = list(blocks)
    live = {}
    found = 0
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs and not (stop_early and found) and time.time() - t0 < maxtime:
            b = todo.pop(0)
            out = os.path.join(tmp, 'b%d.json' % b)
            err = open(os.path.join(tmp, 'b%d.err' % b), 'w+')
            left = max(5, maxtime - (time.time() - t0))
            p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), 'batch', prop, str(seed), str(b * block), str((b + 1) * block),
                                  str(left), out] + list(extra), env=env(hashseed(seed, b)), stderr=err, stdout=subprocess.DEVNULL,
                                 cwd=tmp)
            live[b] = (p, out, err, time.time())
        if not live:
            break
        time.sleep(.02)
        for b, (p, out, err, ts) in list(live.items()):
            rc = p.poll()
            if rc is None:
                if time.time() - ts > maxtime + 90:
                    p.kill()
                continue
            del live[b]
            r = None
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
                found += len(r['found'])
            err.seek(0)
            yield b, r, 'exit %r: %s' % (rc, err.read()[-3000:])
            err.close()


def worker(args, hs, timeout):
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'worker.py')] + args, env=env(hs), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=tempfile.gettempdir())
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return None, '', 'timeout'


def reproduces(path, hs):
    rc, out, err = worker(['replay', path], hs, 300)
    return rc == 1 and out.strip() != ''


def report(prop, seed, block, f, b, tmp, shrink_time):
    """Minimise a finding, write its replay file and make sure it repeats in a fresh process."""
    hs = hashseed(seed, b)
    rep = dict(property=prop, hashseed=hs, seed=int(seed), index=f['i'], violation=f['v'], cases=[f['case']])
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, '%s-%s-%d.json' % (prop, seed, f['i']))
    n = 0
    while os.path.exists(name):
        n += 1
        name = os.path.join(d, '%s-%s-%d-%d.json' % (prop, seed, f['i'], n))
    raw = os.path.join(tmp, 'raw.json')
    small = os.path.join(tmp, 'small.json')
    json.dump(rep, open(raw, 'w'))
    best = None
    rc, _, err = worker(['shrink', raw, small, str(shrink_time)], hs, shrink_time * 3 + 60)
    if rc == 0:
        best = json.load(open(small))
        if best is not None:
            json.dump(best, open(name, 'w'), indent=1)
            if not reproduces(name, hs):
                best = None
    if best is None:
        json.dump(rep, open(name, 'w'), indent=1)
        if reproduces(name, hs):
            best = rep
    if best is None:
        # depends on what ran before it in the same process: keep the shortest batch that shows it
        start = f['start']
        base = dict(rep, cases=None)

        def tryfrom(s):
            json.dump(dict(base, batch=dict(seed=seed, start=s, stop=f['i'] + 1)), open(name, 'w'), indent=1)
            return reproduces(name, hs)
        if tryfrom(start):
            lo, hi = start, f['i']
            while lo < hi:
                mid = (lo + hi + 1) // 2
                if tryfrom(mid):
                    lo = mid
                else:
                    hi = mid - 1
            tryfrom(lo)
        if f['v']['where'] == 'hang' and not reproduces(name, hs):
            os.remove(name)     # a slow machine, not the code
            return None
        best = rep
        note = ' (needs the history in the replay file, not one case alone)'
    else:
        note = ''
    return name, best['violation'], note


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def is_known(known, v):
    for k in known:
        if re.fullmatch(k['where'], v['where'].split('#')[0]) and re.search(k['message'], v['msg']):
            return k
    return None


def explore(prop, tier, seed):
    t0 = time.time()
    n, block, maxtime = BUDGET[prop][tier]
    jobs = min(8, os.cpu_count() or 8)
    known = load_known(prop)
    hits = collections.Counter()
    tmp = tempfile.mkdtemp(prefix='algsim-')
    tot = collections.Counter()
    faults, others = collections.Counter(), collections.Counter()
    states, samples, errors, finds = set(), [], [], []
    simtime = cpu = 0.0
    seeds = 0
    capped = False
    try:
        blocks = range((n + block - 1) // block)
        for b, r, err in run_batches(prop, seed, blocks, block, maxtime, jobs, tmp):
            if r is None:
                errors.append('block %d: %s' % (b, err))
                continue
            seeds += 1
            for k in ('cases', 'steps', 'checks', 'nontrivial'):
                tot[k] += r[k]
            faults.update(r['faults'])
            others.update(r['others'])
            states.update(r['states'])
            simtime += r['simtime']
            cpu += r['cpu']
            capped |= r['capped']
            if len(samples) < 3:
                samples += r['samples'][:1]
            for f in r['found']:
                k = is_known(known, f['v'])
                if k:
                    hits[k['id']] += 1
                else:
                    finds.append((b, f))
        lines = []
        seenkeys = set()
        for b, f in sorted(finds, key=lambda x: x[1]['i']):
            key = (f['v']['prop'], f['v']['where'].split('#')[0])
            if key in seenkeys or len(lines) >= 3:
                continue
            seenkeys.add(key)
            found = report(prop, seed, block, f, b, tmp, 25 if not lines else 8)
            if found is None:
                continue
            name, v, note = found
            lines.append('VIOLATION property=%s replay=%s' % (prop, name))
            print(lines[-1])
            print('  seed %s case %d: %s [%s]%s' % (seed, f['i'], v['msg'][:600], v['where'], note))
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    meta = META.get(prop, {})
    cov = dict(evaluations=tot['cases'], distinct_nontrivial=tot['nontrivial'],
               rule=meta.get('rule', RULE), samples=samples or [dict(note='no case finished')],
               simulated_runs_per_hour=int(tot['cases'] * 3600 / max(wall, .001)),
               case_seeds_per_hour=int(tot['cases'] * 3600 / max(wall, .001)),
               process_hash_seeds=seeds, simulated_steps=tot['steps'], simulated_seconds=round(simtime, 3),
               oracle_comparisons=tot['checks'], faults_injected=dict(faults), distinct_abstract_states=len(states),
               state_measure=meta.get('measure', MEASURE),
               real_components=meta.get('real', REAL), stubbed_components=meta.get('stub', STUB),
               violations_of_other_properties_seen=dict(others), time_capped=capped, worker_cpu_seconds=round(cpu, 2),
               known_findings_hit=dict(hits))
    ev = dict(property=prop, tier=tier, seed=int(seed), level='exploration', coverage=cov, wall_s=round(wall, 2),
              assumptions=meta.get('assume', ASSUME), violations=len(lines))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s seed %s: %d runs, %d steps, %d comparisons, %d states, faults %s, %.1fs' % (
        prop, tier, seed, tot['cases'], tot['steps'], tot['checks'], len(states), dict(faults), wall))
    if lines:
        return 1
    if errors or not tot['cases']:
        print('ERROR: %d worker(s) failed' % len(errors))
        for e in errors[:3]:
            print(e)
        return 2
    return 0


RULE = ('A case is a seeded history of library calls with explicit operands, faults and levels; it counts as distinct by its '
        'contents and as non-trivial if at least two library calls ran and at least one outcome was compared with the model.')
MEASURE = 'distinct (operation, remembered classification of the operands, exception type, kind of outcome) tuples'
REAL = ['algebraixlib (all of the called code)', 'Python runtime']
STUB = ['interrupt and callback-failure source (seeded)']
ASSUME = ['the reference model in sim/model.py states the documented definitions',
          'seeded search over bounded histories: sampling, not enumeration']


def determinism(prop, seed, cases):
    """The same cases in different worker layouts give the same event log."""
    n, block, maxtime = BUDGET[prop]['quick']
    block = min(block, cases)
    nb = max(1, cases // block)
    logs = []
    for jobs in (8, 3):
        tmp = tempfile.mkdtemp(prefix='algsim-')
        try:
            got = {b: (r or {}).get('log') for b, r, _ in run_batches(prop, seed, range(nb), block, 600, jobs, tmp, ('full',), False)}
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        logs.append(got)
    diff = [(b, i) for b in logs[0] for i, (x, y) in enumerate(zip(logs[0][b] or [], logs[1].get(b) or [None] * 10 ** 6)) if x != y]
    bad = any(v is None for l in logs for v in l.values())
    print('%s seed %s: %d cases twice, %d differ%s' % (prop, seed, sum(len(v or ()) for v in logs[0].values()), len(diff), ' (worker failed)' if bad else ''))
    for b, i in diff[:5]:
        print('  case', b * block + i)
    return 1 if diff or bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--determinism', action='store_true')
    ap.add_argument('--cases', type=int, default=400)
    ap.add_argument('--seed')
    a = ap.parse_args()
    seed = a.seed or os.environ.get('VERIF_SEED') or '1'
    if not re.fullmatch(r'\d+', seed):
        import zlib
        seed = str(zlib.crc32(seed.encode()))
    if a.replay:
        rep = json.load(open(a.replay))
        rc, out, err = worker(['replay', os.path.abspath(a.replay)], rep['hashseed'], 900)
        sys.stdout.write(out)
        if rc == 1 and out.strip():
            print('VIOLATION property=%s replay=%s' % (rep['property'], a.replay))
            return 1
        if rc == 0:
            print('not reproduced')
            return 0
        sys.stdout.write(err[-2000:])
        return 2
    if a.determinism:
        return determinism(a.prop, seed, a.cases)
    return explore(a.prop, a.tier or 'quick', seed)


if __name__ == '__main__':
    sys.exit(main())
