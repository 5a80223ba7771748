"""Minimise a violating case while the same violation persists (delta debugging over the explicit case)."""
import json
import time
import zlib

from . import worlds

# lists whose members may be dropped one by one, anywhere in a case
LISTS = ('steps', 'lits', 'rows', 'faults', 'ops', 'slices', 'jobs', 'cells', 'patterns', 'triples', 'events', 'dates', 'files', 'threads', 'before', 'after', 'cuts', 'stages', 'inside', 'structs', 'render')
# optional keys that make a case less simple
OPTIONAL = ('unchecked', 'int', 'sweep', 'fault', 'route', 'level0')


def sig(res):
    """Digest of everything a run did (used to prove that a run repeats exactly)."""
    return zlib.crc32(repr((res.trace, res.steps, res.checks, sorted(res.faults.items()), sorted(res.states), round(res.simtime, 9),
                            [(v.prop, v.msg, v.where) for v in res.violations])).encode('utf-8', 'replace'))


def keyof(v):
    return (v['prop'], v['where'].split('#')[0])


def keymatch(v, want):
    return v.key() == keyof(want)


def paths(x, at=()):
    """All (path, list) of droppable lists, and literal bodies."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in LISTS and isinstance(v, list):
                yield at + (k,), v
                if k == 'threads':
                    for i, w in enumerate(v):
                        yield at + (k, i), w
            yield from paths(v, at + (k,))
    elif isinstance(x, list):
        if len(x) == 2 and x[0] in ('S', 'M') and isinstance(x[1], list):
            yield at + (1,), x[1]
        for i, v in enumerate(x):
            yield from paths(v, at + (i,))


def optional(x, at=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in OPTIONAL and v:
                yield at + (k,)
            yield from optional(v, at + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from optional(v, at + (i,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


def shrink(case, want, budget):
    t0 = time.time()
    best = case

    def fails(c):
        try:
            res = worlds.run(c, limit=30 if want['where'] == 'hang' else 5)
        except Exception:
            return False
        return any(keymatch(v, want) for v in res.violations)

    if not fails(case):
        return None
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        # big lists first: chunks, then single members
        for path, lst in sorted(paths(best), key=lambda p: (len(p[0]), -len(p[1]))):
            if time.time() - t0 > budget:
                break
            try:
                n = len(get(best, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(n // 2, 1)
            while size and n:
                i = n
                while i > 0 and time.time() - t0 < budget:
                    lo = max(0, i - size)
                    c = json.loads(json.dumps(best))
                    try:
                        lst2 = get(c, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if not isinstance(lst2, list) or len(lst2) < i:
                        i = lo
                        continue
                    del lst2[lo:i]
                    if fails(c):
                        best = c
                        changed = True
                    i = lo
                try:
                    n = len(get(best, path))
                except (KeyError, IndexError, TypeError):
                    break
                size = size // 2 if size > 1 else 0
        for path in list(optional(best)):
            if time.time() - t0 > budget:
                break
            c = json.loads(json.dumps(best))
            try:
                d = get(c, path[:-1])
                if path[-1] in ('route',):
                    d[path[-1]] = 0
                else:
                    del d[path[-1]]
            except (KeyError, IndexError, TypeError):
                continue
            if fails(c):
                best = c
                changed = True
    return best


def main(src, dst, budget):
    rep = json.load(open(src))
    best = shrink(rep['cases'][-1], rep['violation'], budget)
    out = None
    if best is not None:
        res = worlds.run(best)
        v = next((v for v in res.violations if keymatch(v, rep['violation'])), None)
        if v is not None:
            out = dict(rep, cases=[best], violation=dict(prop=v.prop, msg=v.msg[:1500], where=v.where))
    with open(dst, 'w') as f:
        json.dump(out, f)
