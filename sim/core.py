"""Shared pieces of the simulator: violations, run results, interrupts at a chosen point, library-wide state."""
import os
import sys
import zlib

from .enc import lib


class Violation:
    __slots__ = ('prop', 'msg', 'where')

    def __init__(self, prop, msg, where=''):
        self.prop, self.msg, self.where = prop, msg, where

    def __repr__(self):
        return '%s %s [%s]' % (self.prop, self.msg, self.where)

    def key(self):
        return (self.prop, self.where.split('#')[0])


class Result:
    """What one simulated run did."""

    def __init__(self):
        self.violations = []
        self.steps = 0              # simulated steps (library calls)
        self.checks = 0             # oracle comparisons
        self.faults = {}            # kind -> times actually injected
        self.states = set()         # distinct abstract states (hash values)
        self.simtime = 0.0          # simulated seconds, where a clock is simulated
        self.trace = []             # deterministic event trace (for the reproducibility proof)

    def bad(self, prop, msg, where=''):
        self.violations.append(Violation(prop, msg, where))

    def state(self, *parts):
        """Record an abstract state (independent of the hash seed)."""
        self.states.add(zlib.crc32(repr(parts).encode('utf-8', 'replace')))

    def merge(self, r):
        self.violations += r.violations
        self.steps += r.steps
        self.checks += r.checks
        self.states |= r.states
        self.trace += r.trace
        for k, n in r.faults.items():
            self.fault(k, n)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n


_PKG = None


def pkgdir():
    global _PKG
    if _PKG is None:
        import algebraixlib
        _PKG = os.path.dirname(os.path.abspath(algebraixlib.__file__)) + os.sep
    return _PKG


def is_lib_code(code):
    f = code.co_filename
    c = _isl.get(f)
    if c is None:
        c = _isl[f] = os.path.abspath(f).startswith(pkgdir())
    return c


_isl = {}


class SimInterrupt(BaseException):
    """Asynchronous interrupt (like KeyboardInterrupt) injected by the simulator."""


class SimMemoryError(MemoryError):
    pass


class SimRecursionError(RecursionError):
    pass


EXCS = dict(interrupt=SimInterrupt, memory=SimMemoryError, recursion=SimRecursionError)


class Interrupter:
    """Raises an exception at the at-th executed line of library code inside the with-block."""

    def __init__(self, at, exc):
        self.at, self.exc, self.n, self.fired, self.where = at, exc, 0, False, ''

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False

    def _call(self, frame, event, arg):
        if self.fired or not is_lib_code(frame.f_code):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event != 'line' or self.fired:
            return self._line
        self.n += 1
        if self.n >= self.at:
            self.fired = True
            self.where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
            raise EXCS[self.exc]('injected')
        return self._line


def count_lines(f):
    """Number of library lines f executes (used to choose interrupt points)."""
    it = Interrupter(10 ** 9, 'interrupt')
    with it:
        try:
            f()
        except Exception:
            pass
    return it.n


FLAGS = ('relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive', 'symmetric',
         'transitive', 'regular', 'right_regular')


def get_level():
    return lib()['ud'].RaiseOnUndef.get_level()


def set_level(n):
    lib()['ud'].RaiseOnUndef.set_level(n)


def reset_level():
    lib()['ud'].RaiseOnUndef.reset()
