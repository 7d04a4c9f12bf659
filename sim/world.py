"""Simulated processes ("worlds") for the package under test.

A world is one private instance of the pygfunction package: every module of
/repo/pygfunction is executed again under a private package name, so that its
module-level state (memoised values, class-level state, default arguments)
is that of a freshly started process.  The code that runs is the real code of
/repo's working tree.  What belongs to the outside is replaced by seams the
simulator owns: the clock (time.perf_counter & co), the console (print /
sys.stdout) and file opening.

Destroying a world and unpickling its objects into a new one is a process
restart with only the durable (pickled) state surviving.
"""
import importlib.abc
import importlib.util
import io
import os
import pickle
import sys
import time as _time
import weakref

REPO = os.environ.get('SIM_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'pygfunction')
PREFIX = 'pgfworld'

REAL_CLOCK = {k: getattr(_time, k) for k in
              ('perf_counter', 'time', 'monotonic', 'process_time',
               'perf_counter_ns', 'time_ns', 'monotonic_ns', 'sleep')}
REAL_STDOUT = sys.stdout

_code = {}


def _load_code():
    if _code:
        return
    for root, dirs, files in os.walk(PKG_DIR):
        dirs.sort()
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, PKG_DIR)[:-3].replace(os.sep, '.')
            is_pkg = False
            if rel == '__init__':
                rel, is_pkg = '', True
            elif rel.endswith('.__init__'):
                rel, is_pkg = rel[:-len('.__init__')], True
            with open(path, 'rb') as fh:
                src = fh.read()
            _code[rel] = (compile(src, path, 'exec', dont_inherit=True),
                          is_pkg, path)


class _Loader(importlib.abc.Loader):
    def __init__(self, rel):
        self.rel = rel

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['id'] = _ids[0]
        exec(_code[self.rel][0], module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith(PREFIX):
            return None
        rel = fullname.partition('.')[2]
        if rel not in _code:
            return None
        _, is_pkg, fpath = _code[rel]
        spec = importlib.util.spec_from_loader(
            fullname, _Loader(rel), origin=fpath, is_package=is_pkg)
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(fpath)]
        return spec


class Ids:
    """Identities of objects, as `id` gives them to the package: unique while
    an object lives, and given to another object as soon as it is gone.
    (Functions that take part in copying and pickling get the real ones, which
    they share with the standard library.)"""

    def __init__(self):
        self.known = {}
        self.free = []
        self.last = 0

    def __call__(self, obj):
        real = id(obj)
        code = sys._getframe(1).f_code
        if code.co_name.startswith('__') or 'memo' in code.co_varnames:
            return real
        entry = self.known.get(real)
        if entry is not None and entry[0]() is obj:
            return entry[1]
        try:
            ref = weakref.ref(obj, lambda r: self._gone(real, r))
        except TypeError:
            return real
        n = self.free.pop() if self.free else self.last + 1
        self.last = max(self.last, n)
        self.known[real] = (ref, n)
        return n

    def _gone(self, real, ref):
        entry = self.known.get(real)
        if entry is not None and entry[0] is ref:
            del self.known[real]
            self.free.append(entry[1])


sys.meta_path.insert(0, _Finder())
_counter = [0]
_ids = [None]
_live = []


QUAD_LIMIT = 300


def _bound_quadrature():
    """Adaptive quadrature that does not converge gives up after QUAD_LIMIT
    subdivisions instead of 10000 (a minute of wall time per call)."""
    from scipy.integrate import quad_vec
    d = quad_vec.__defaults__
    if d and d.count(10000) == 1:
        quad_vec.__defaults__ = tuple(
            QUAD_LIMIT if v == 10000 else v for v in d)


def warm():
    """Pay the import of the third-party packages once, before forking."""
    World().close()
    _counter[0] = 0
    import matplotlib.pyplot    # noqa: F401  (builds its cache of fonts)


def close_all():
    while _live:
        _live[-1].close()
    _counter[0] = 0


class World:
    """One simulated process running the package under test."""

    def __init__(self):
        _load_code()
        if _counter[0] == 0:
            _bound_quadrature()
        _counter[0] += 1
        self.name = f'{PREFIX}{_counter[0]}'
        _live.append(self)
        _ids[0] = Ids()
        self.pkg = importlib.import_module(self.name)

    def __getattr__(self, item):
        return getattr(self.pkg, item)

    def mod(self, name):
        return importlib.import_module(f'{self.name}.{name}')

    def modules(self):
        return [v for k, v in list(sys.modules.items())
                if k == self.name or k.startswith(self.name + '.')]

    def close(self):
        for m in [m for m in sys.modules
                  if m == self.name or m.startswith(self.name + '.')]:
            del sys.modules[m]
        if self in _live:
            _live.remove(self)

    # -- durable state ------------------------------------------------------
    def dump(self, obj, protocol=4):
        return self.name, pickle.dumps(obj, protocol=protocol)

    def load(self, blob):
        """Unpickle a state dumped by another world into this one."""
        old, data = blob
        new = self.name

        class U(pickle.Unpickler):
            def find_class(self, module, name):
                if module == old or module.startswith(old + '.'):
                    module = new + module[len(old):]
                return super().find_class(module, name)
        return U(io.BytesIO(data)).load()


class Clock:
    """Simulated clock.  Every reading advances it; the plan may make it jump
    forwards, run backwards, or stand still."""

    def __init__(self, mode='steady', jumps=()):
        self.now = 1000.0
        self.mode = mode
        self.jumps = dict((int(i), float(d)) for i, d in jumps)
        self.reads = 0
        self.fired = 0

    def read(self):
        self.reads += 1
        if self.mode == 'steady':
            self.now += 1e-3
        elif self.mode == 'frozen':
            pass
        elif self.mode == 'backwards':
            self.now -= 1e-2
        if self.reads in self.jumps:
            self.now += self.jumps[self.reads]
            self.fired += 1
        return self.now

    def read_ns(self):
        return int(self.read() * 1e9)

    def sleep(self, dt):
        self.now += max(0., float(dt))

    def install(self):
        Clock.current = self

    # the clock of the run in progress; None: real time (outside runs)
    current = None
    base = None

    @staticmethod
    def uninstall():
        """Back to the steady clock of the run."""
        Clock.current = Clock.base

    @staticmethod
    def begin_run():
        Clock.base = Clock.current = Clock()

    @staticmethod
    def end_run():
        Clock.base = Clock.current = None


def _dispatch(name, real):
    method = {'sleep': 'sleep'}.get(
        name, 'read_ns' if name.endswith('_ns') else 'read')

    def call(*args):
        c = Clock.current
        return real(*args) if c is None else getattr(c, method)(*args)
    call.__name__ = name
    return call


# modules that did "from time import perf_counter" hold these, too
for _k, _v in REAL_CLOCK.items():
    setattr(_time, _k, _dispatch(_k, _v))


class Console(io.TextIOBase):
    """Simulated console: swallows output, and may fail at the n-th write."""

    def __init__(self, fail_at=None, exc=BrokenPipeError):
        self.n = 0
        self.fail_at = fail_at
        self.exc = exc
        self.fired = 0
        self.chars = 0

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.fired += 1
            self.fail_at = None
            raise self.exc('simulated console failure')
        self.chars += len(s)
        return len(s)

    def flush(self):
        pass
