"""Simulated disk: files below a scratch directory are opened through a raw
layer whose writes, reads, opens and closes fail as the plan says.  Python's
own buffering and text layers, and numpy on top of them, run for real."""
import builtins
import errno
import io
import os
import shutil
import tempfile

_real_open = io.open
WRITE_FAULTS = ('ENOSPC', 'EIO', 'short', 'EINTR', 'close', 'crash',
                'lost-close')
READ_FAULTS = ('read-EIO', 'read-short', 'read-EINTR')
OPEN_FAULTS = ('open-EACCES', 'open-EMFILE', 'open-ENOENT')
# faults that an application is not told about and must survive
BENIGN = ('short', 'EINTR', 'read-short', 'read-EINTR')


class Crash(BaseException):
    """The process dies: nothing after this instant is executed."""


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk = disk
        self.f = io.FileIO(path, mode)
        self.w = self.f.writable() and not self.f.readable()
        self.n = 0
        self.bytes = 0
        self.dead = False
        disk.handles.append(self)

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def fileno(self):
        return self.f.fileno()

    def isatty(self):
        return False

    def write(self, b):
        if self.dead:
            return len(b)
        d, b = self.disk, bytes(b)
        self.n += 1
        f = d.take(WRITE_FAULTS[:4] + ('crash',), self.n, self.bytes + len(b))
        if f is not None:
            k = f['kind']
            if k == 'ENOSPC':
                room = max(0, f['at'] - self.bytes)
                if room:
                    self.bytes += self.f.write(b[:room])
                    d.pending(f)             # the next write finds it full
                    return room
                d.fire(f)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            d.fire(f)
            if k == 'EIO':
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if k == 'EINTR':
                raise InterruptedError(errno.EINTR, 'interrupted')
            if k == 'crash':
                self.f.write(b[:f['at'] % (len(b) + 1)])
                d.die()
                raise Crash()
            b = b[:max(1, len(b) // 3)]      # short write
        n = self.f.write(b)
        self.bytes += n
        return n

    def readinto(self, buf):
        d = self.disk
        self.n += 1
        f = d.take(READ_FAULTS, self.n, 0)
        if f is not None:
            d.fire(f)
            if f['kind'] == 'read-EIO':
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if f['kind'] == 'read-EINTR':
                raise InterruptedError(errno.EINTR, 'interrupted')
            m = memoryview(buf)[:max(1, len(buf) // 1000)]
            return self.f.readinto(m)
        return self.f.readinto(buf)

    def close(self):
        if self.closed:
            return
        f = self.disk.take(('close', 'lost-close'), 1, 0) \
            if self.writable() and not self.dead and self.bytes else None
        try:
            super().close()
            if f is not None and f['kind'] == 'lost-close':
                self.f.truncate(self.bytes // 2)
        finally:
            self.f.close()
        if f is not None:
            self.disk.fire(f)
            raise OSError(errno.EIO, 'simulated failure at close')


class Disk:
    """faults of the operation in progress: [{'kind', 'at'}]"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='disk-')
        self.faults = []
        self.fired = []
        self.handles = []
        self.opens = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- faults --------------------------------------------------------------
    def arm(self, faults):
        self.faults = [dict(f) for f in faults or ()]
        self.fired = []
        self.opens = 0

    def take(self, kinds, n, size):
        for f in self.faults:
            if f['kind'] not in kinds:
                continue
            if f['kind'] == 'ENOSPC':
                if size > f['at']:
                    return f
            elif f['kind'] in ('close', 'lost-close'):
                return f
            elif n >= f['n']:
                return f
        return None

    def pending(self, f):
        pass

    def fire(self, f):
        self.fired.append(f['kind'])
        if f['kind'] != 'ENOSPC':            # a full disk stays full
            self.faults.remove(f)

    def die(self):
        for h in self.handles:
            h.dead = True

    # -- handles -------------------------------------------------------------
    def leaked(self):
        return [h for h in self.handles if not h.closed]

    def forget(self):
        for h in self.handles:
            h.dead = True
            try:
                h.f.close()
            except OSError:
                pass
        self.handles = []

    # -- seam ----------------------------------------------------------------
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        try:
            p = os.fspath(file)
            p = os.path.abspath(os.fsdecode(p))
        except TypeError:
            p = ''
        if not p.startswith(self.dir + os.sep):
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        self.opens += 1
        f = self.take(OPEN_FAULTS, self.opens, 0)
        if f is not None:
            self.fire(f)
            e = getattr(errno, f['kind'][5:])
            raise OSError(e, os.strerror(e), p)
        raw = Raw(self, p, mode.replace('t', '').replace('b', ''))
        if '+' in mode:
            buf = io.BufferedRandom(raw)
        elif raw.writable():
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline,
                                buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        import numpy.lib._datasource as ds
        self._openers = ds._file_openers
        self._openers._load()
        self._old = (builtins.open, io.open, self._openers._file_openers[None])
        builtins.open = io.open = self.open
        self._openers._file_openers[None] = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._old[:2]
        self._openers._file_openers[None] = self._old[2]
        return False

    def close(self):
        self.forget()
        shutil.rmtree(self.dir, ignore_errors=True)
