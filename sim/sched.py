"""Seeded scheduler of caller threads.

Parties run on real threads, but only the one holding the baton executes.
Every line (and call) event inside the package is a point at which the
scheduler may take the baton away; which point, and who runs next, is decided
by the plan alone.  Locks created by the package while the scheduler is
installed are replaced with cooperative ones, so that a thread parked while
holding a lock cannot stall the simulation.
"""
import dis
import sys
import threading
import types

from .engine import HarnessError, Violation
from .world import PKG_DIR

_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = [None]


class SimLock:
    """Lock whose waiters hand the baton on instead of blocking."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        spins = 0
        while self._owner is not None and not (
                self._reentrant and self._owner == me):
            if not blocking:
                return False
            s = _current[0]
            if s is None or not s.blocked():
                raise Violation('deadlock', 'lock is never released')
            spins += 1
            if timeout is not None and timeout > 0 and spins > 1000:
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def __getstate__(self):
        return {}

    def __setstate__(self, s):
        self.__init__()


class SimRLock(SimLock):
    _reentrant = True


def _lock():
    if sys._getframe(1).f_code.co_filename.startswith(PKG_DIR):
        return SimLock()
    return _RealLock()


def _rlock():
    if sys._getframe(1).f_code.co_filename.startswith(PKG_DIR):
        return SimRLock()
    return _RealRLock()


def install_locks():
    threading.Lock = _lock
    threading.RLock = _rlock


def uninstall_locks():
    threading.Lock = _RealLock
    threading.RLock = _RealRLock


_PLAIN = (type(None), bool, int, float, complex, str, bytes, tuple,
          frozenset, types.ModuleType, types.FunctionType,
          types.BuiltinFunctionType, type)


def _changing(v):
    """Is this a value that functions may change in place?"""
    return not isinstance(v, _PLAIN) and type(v).__module__ not in (
        'typing', '__future__', 'enum', 'numpy') or \
        type(v).__name__ == 'ndarray'


class Shared:
    """Where the package touches data that all threads of a process share:
    globals that are assigned by functions or hold a container, containers of
    classes, attributes of functions, and default arguments."""

    def __init__(self, modules):
        self.of_module = {}
        self.class_names = set()
        self.defaults = {}
        self.codes = {}
        for m in modules:
            names = {k for k, v in vars(m).items()
                     if not k.startswith('__') and k != 'id'
                     and _changing(v)}
            self.of_module[id(m.__dict__)] = names
            for v in list(vars(m).values()):
                if getattr(v, '__module__', None) != m.__name__:
                    continue
                if isinstance(v, type):
                    for k, a in vars(v).items():
                        f = getattr(a, '__func__', a)
                        if isinstance(f, types.FunctionType):
                            self._function(f, names)
                        elif not k.startswith('__') and (
                                isinstance(a, (list, dict, set))
                                or type(a).__name__ == 'ndarray'):
                            self.class_names.add(k)
                elif isinstance(v, types.FunctionType):
                    self._function(v, names)

    def _function(self, f, names):
        c = f.__code__
        ds = f.__defaults__ or ()
        hot = [a for a, d in zip(c.co_varnames[:c.co_argcount][::-1],
                                 ds[::-1]) if _changing(d)]
        hot += [a for a, d in (f.__kwdefaults__ or {}).items()
                if _changing(d)]
        if hot:
            self.defaults[c] = set(hot)
        self._assigned(c, names)

    def _assigned(self, c, names):
        for i in dis.get_instructions(c):
            if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                names.add(i.argval)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                self._assigned(k, names)

    def lines(self, frame):
        """The lines of this function that touch shared data."""
        c = frame.f_code
        out = self.codes.get(c)
        if out is None:
            names = self.of_module.get(id(frame.f_globals), ())
            mine = self.defaults.get(c, ())
            out = set()
            line, last = None, None
            for i in dis.get_instructions(c):
                line = i.starts_line or line
                op, a = i.opname, i.argval
                if op.endswith('_GLOBAL') and (
                        a in names or op != 'LOAD_GLOBAL'):
                    out.add(line)
                elif op.endswith('_ATTR') and (
                        a in self.class_names or last is not None):
                    out.add(line)
                elif op.startswith('LOAD_FAST') and a in mine:
                    out.add(line)
                last = None
                if op == 'LOAD_GLOBAL' and isinstance(
                        frame.f_globals.get(a), types.FunctionType):
                    last = a
            # ... and use what they got there
            names, uses, line = set(), [], None
            for i in dis.get_instructions(c):
                line = i.starts_line or line
                if i.opname == 'STORE_FAST' and line in out:
                    names.add(i.argval)
                elif i.opname.startswith('LOAD_FAST'):
                    uses.append((line, i.argval))
            out |= {line for line, a in uses if a in names}
            self.codes[c] = out
        return out


class Scheduler:
    """switches: sorted list of [point, thread] -- at the given global
    preemption point the baton goes to that thread (index modulo the number
    of runnable threads).  hot: the same for the points at which shared data
    (`shared`) is touched."""

    def __init__(self, bodies, switches, max_points=3_000_000, hot=(),
                 shared=None):
        self.hot = {int(p): int(t) for p, t in hot}
        self.shared = shared
        self.hot_point = 0
        self.bodies = bodies
        self.switches = {int(p): int(t) for p, t in switches}
        self.n = len(bodies)
        self.baton = [_sem() for _ in bodies]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.point = 0
        self.cur = 0
        self.taken = []
        self.where = []
        self.main = _sem()
        self.max_points = max_points
        self.abort = False
        self.idle_blocks = 0

    # -- called on the thread that holds the baton --------------------------
    def _runnable(self):
        return [i for i in range(self.n) if not self.done[i]]

    def _switch_to(self, nxt):
        me = self.cur
        if nxt == me:
            return
        self.cur = nxt
        self.baton[nxt].release()
        self.baton[me].acquire()
        if self.abort:
            raise SystemExit

    def preempt(self, frame):
        self.point += 1
        self.idle_blocks = 0
        if self.point > self.max_points:
            self.abort = True
            raise SystemExit
        self.hand_over(frame, self.switches.get(self.point))

    def touch(self, frame):
        """The running thread is about to touch shared data."""
        self.hot_point += 1
        self.hand_over(frame, self.hot.get(self.hot_point))

    def hand_over(self, frame, t):
        if t is None:
            return
        run = self._runnable()
        if len(run) < 2:
            return
        nxt = run[t % len(run)]
        if nxt == self.cur:
            nxt = run[(t + 1) % len(run)]
        self.taken.append((self.point, nxt))
        self.where.append((frame.f_code.co_name, self.cur, nxt))
        self._switch_to(nxt)

    def blocked(self):
        """The running thread waits for a lock: let the others run."""
        run = [i for i in self._runnable() if i != self.cur]
        self.idle_blocks += 1
        if not run or self.idle_blocks > 50 * self.n:
            return False
        self._switch_to(run[self.idle_blocks % len(run)])
        return True

    def _trace_global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG_DIR):
            return None
        self.preempt(frame)
        if self.shared is None:
            return self._trace_local
        hot = self.shared.lines(frame)
        if not hot:
            return self._trace_local

        def local(frame, event, arg):
            if event == 'line':
                self.preempt(frame)
                if frame.f_lineno in hot:
                    self.touch(frame)
            return local
        return local

    def _trace_local(self, frame, event, arg):
        if event == 'line':
            self.preempt(frame)
        return self._trace_local

    def _thread(self, i):
        self.baton[i].acquire()
        try:
            if not self.abort:
                sys.settrace(self._trace_global)
                try:
                    self.results[i] = self.bodies[i]()
                finally:
                    sys.settrace(None)
        except SystemExit:
            pass
        except BaseException as e:
            self.errors[i] = e
        finally:
            self.done[i] = True
            if self.abort:
                run = self._runnable()
                if run:
                    self.cur = run[0]
                    self.baton[run[0]].release()
                else:
                    self.main.release()
            else:
                run = self._runnable()
                if run:
                    self.cur = run[0]
                    self.baton[run[0]].release()
                else:
                    self.main.release()

    def run(self):
        _current[0] = self
        ths = [threading.Thread(target=self._thread, args=(i,), daemon=True)
               for i in range(self.n)]
        try:
            for t in ths:
                t.start()
            self.cur = 0
            self.baton[0].release()
            self.main.acquire()
            for t in ths:
                t.join(30)
        finally:
            _current[0] = None
        if self.abort:
            raise Violation('no-progress', 'a party does not finish within '
                            f'{self.max_points} steps')
        for e in self.errors:
            if isinstance(e, (Violation, HarnessError)):
                raise e
        return self.results


class _Sem:
    """Binary semaphore on a real lock (never the simulated one)."""

    def __init__(self):
        self._l = _RealLock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        self._l.release()


def _sem():
    return _Sem()
