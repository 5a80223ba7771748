"""World 'cuts': one operation on fresh objects, cut short at the k-th executed line of library code for many k.

After every cut the operation is repeated on the same objects, they are asked about themselves, and everything is checked
as in world 'hist'. Cuts behind the end of the operation do nothing, so the loop ends at the first of them."""
from . import hist
from .core import Result


def run(case):
    res = Result()
    for cut in case['cuts']:
        act = dict(case['act'], int=cut) if cut else case['act']      # no cut: the same without the fault
        r = hist.run(dict(case, world='hist', steps=case['before'] + [act, case['again']] + case['after']))
        res.merge(r)
        if r.violations or not any(f.startswith('interrupt:') for f in r.faults):
            break
    return res
