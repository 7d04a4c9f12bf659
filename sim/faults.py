"""Fault injection into running evaluations.

`Interrupt` delivers an asynchronous exception (Ctrl-C, failing allocation)
at an instant at which CPython itself can deliver one.  `FailingCall` makes the
n-th call of a library routine used by the package (linear solver, eigenvalue
solver, quadrature...) fail.
"""
import dis
import math
import sys

import numpy as np

from .world import PKG_DIR

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}

_points = {}

CALLS, OPS, STORES, BACK = 1, 2, 3, 4


def _classes(code):
    """{offset: class of instruction} for the instructions that matter."""
    s = _points.get(code)
    if s is None:
        s = {}
        for i in dis.get_instructions(code):
            if i.opname.startswith('CALL'):
                s[i.offset] = CALLS
            elif i.opname in ('BINARY_OP', 'BUILD_LIST', 'BUILD_MAP',
                              'BINARY_SUBSCR', 'BINARY_SLICE'):
                s[i.offset] = OPS
            elif i.opname in ('STORE_ATTR', 'STORE_SUBSCR'):
                s[i.offset] = STORES
            elif i.opname.startswith('JUMP_BACKWARD'):
                s[i.offset] = BACK
        _points[code] = s
    return s


class Interrupt:
    """with Interrupt(n, kind, after) as f: ...; f.fired

    Delivers `kind` at the n-th fault point executed by the package's own
    code after its `after`-th store to an attribute or item.  Fault points
    are the instants at which CPython itself raises: for an asynchronous
    exception, right after a call of a library routine returned and at loop
    back-edges (a call of another function of the package is not a point by
    itself, so that moving statements into a helper adds none); for a failed
    allocation, also each arithmetic or subscript operation."""

    def __init__(self, n, kind, after=0):
        self.n = n
        self.kind = kind
        self.exc = EXC[kind]
        self.after = after
        self.stores = 0
        self.seen = 0
        self.fired = False
        self.where = None
        self._pending = None

    def _global(self, frame, event, arg):
        if self.fired or not frame.f_code.co_filename.startswith(PKG_DIR):
            return None
        self._pending = None               # the call entered the package
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self._local

    def _point(self, frame):
        if self.stores < self.after:
            return
        self.seen += 1
        if self.seen == self.n:
            self.fired = True
            self.where = frame.f_code.co_name
            raise self.exc('injected')

    def _local(self, frame, event, arg):
        if self.fired:
            return self._local
        if event == 'opcode':
            p, self._pending = self._pending, None
            if p is frame:
                self._point(frame)
            c = _classes(frame.f_code).get(frame.f_lasti)
            if c is None:
                pass
            elif c == CALLS:
                self._pending = frame
            elif c == OPS:
                if self.kind == 'MemoryError':
                    self._point(frame)
            elif c == STORES:
                self.stores += 1
            elif c == BACK:
                self._point(frame)
        elif event in ('return', 'exception'):
            self._pending = None
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        # CPython 3.12 delivers opcode events only if some frame asked for
        # them before the trace function is set
        sys._getframe().f_trace_opcodes = True
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


# Library routines that may fail in the field
TARGETS = {
    'np.linalg.inv': (np.linalg, 'inv', np.linalg.LinAlgError),
    'np.linalg.solve': (np.linalg, 'solve', np.linalg.LinAlgError),
    'np.linalg.eig': (np.linalg, 'eig', np.linalg.LinAlgError),
    'np.zeros': (np, 'zeros', MemoryError),
    'np.exp': (np, 'exp', FloatingPointError),
}


class FailingCall:
    """The n-th call of a numpy routine made while active fails."""

    def __init__(self, target, n):
        self.mod, self.attr, self.exc = TARGETS[target]
        self.n = n
        self.seen = 0
        self.fired = False

    def __enter__(self):
        self._orig = getattr(self.mod, self.attr)

        def stub(*a, **k):
            # only calls made directly by the package fail
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(PKG_DIR):
                self.seen += 1
                if self.seen == self.n and not self.fired:
                    self.fired = True
                    raise self.exc('injected')
            return self._orig(*a, **k)
        setattr(self.mod, self.attr, stub)
        return self

    def __exit__(self, *a):
        setattr(self.mod, self.attr, self._orig)
        return False


class NoFault:
    fired = False
    seen = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make(spec):
    """spec: None | ['interrupt', kind, n, after] | ['libfail', target, n]"""
    if spec is None:
        return NoFault()
    if spec[0] == 'interrupt':
        return Interrupt(spec[2], spec[1], spec[3])
    if spec[0] == 'libfail':
        return FailingCall(spec[1], spec[2])
    raise ValueError(spec)


def gen(rng, hi=400, stores=40):
    """Half of the interrupts are placed right after a store to the state of
    an object, where half-done changes are visible."""
    kind = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt',
                       'MemoryError'])
    r = rng.random()
    if r < 0.5:
        return ['interrupt', kind, rng.choice([1, 1, 1, 2, 3, 5]),
                _logint(rng, 1, stores)]
    if r < 0.8:
        return ['interrupt', kind, _logint(rng, 1, hi), 0]
    return ['libfail', rng.choice(sorted(TARGETS)),
            rng.choice([1, 1, 2, 3, 5])]


def _logint(rng, lo, hi):
    return int(round(math.exp(rng.uniform(math.log(lo),
                                          math.log(hi + 0.4)))))


def name(spec):
    if spec[0] == 'interrupt':
        return f'{spec[1]} ' + ('after a state change' if spec[3]
                                else 'at any instant')
    return f'failing {spec[1]}'
