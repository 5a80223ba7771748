"""A simulated disk behind open(): paths below /sim/ live in memory, every raw read, write, seek and close is an event the
case decides on (short transfers, errors, lost space, interrupts, a stalled device). Everything above the raw file -
buffering, text decoding, the csv/json/xml/rdf parsers and the library - is the real code.

A disk spec: {"buf": buffer size, "chunk": [sizes of successive transfers, cycled], "enc": locale encoding,
              "faults": [[event number, kind], ...]}
kinds: eio, enospc, close (close reports an error), interrupt (BaseException), intr (EINTR-like retry by short transfer),
       torn (half of the data is written, then no space), full (no space from this event on)."""
import builtins
import errno
import io

from .core import SimInterrupt

_real_open = builtins.open
_real_io_open = io.open
PREFIX = '/sim/'


class SimOSError(OSError):
    pass


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode, data=None):
        super().__init__()
        self.disk, self.path, self.mode = disk, path, mode
        self.data = disk.files[path] if data is None else data      # bytearray
        self.pos = 0
        self.released = False
        self.name = path

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return 'r' not in self.mode or '+' in self.mode

    def seekable(self):
        return True

    def readinto(self, b):
        n = self.disk.event('read', self)
        want = len(b)
        if n is not None:
            want = max(1, min(want, n))
        part = bytes(self.data[self.pos:self.pos + want])
        b[:len(part)] = part
        self.pos += len(part)
        return len(part)

    def write(self, b):
        b = bytes(b)
        n = self.disk.event('write', self, len(b), b)
        if n is not None:
            b = b[:max(1, n)]
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.data[size:]
        return size

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def close(self):
        if not self.released:
            self.released = True        # as on POSIX: the descriptor is gone even if close reports an error
            try:
                if not self.disk.off:
                    self.disk.event('close', self)
            finally:
                super().close()


class Disk:
    def __init__(self, spec=None, res=None):
        spec = spec or {}
        self.buf = spec.get('buf', 8192)
        self.chunk = spec.get('chunk') or []
        self.enc = spec.get('enc') or 'utf-8'
        self.faults = dict((n, k) for n, k in spec.get('faults', ()))
        self.files = {}
        self.handles = []
        self.n = 0
        self.fired = []
        self.res = res
        self.log = []
        self.off = False
        self.full = False       # the disk is full from now on
        self.touched = set()
        self.ci = 0

    # -- events
    def event(self, op, raw, size=0, data=b''):
        self.n += 1
        kind = self.faults.get(self.n)
        self.log.append((self.n, op, kind))
        if kind:
            if kind == 'close' and op != 'close' or kind in ('enospc', 'torn') and op != 'write':
                kind = None
            elif kind == 'intr' and op == 'close':
                kind = None
            elif kind == 'full':
                self.full = True
                kind = None
        if self.full and op == 'write':
            kind = 'full'
        if kind:
            self.fired.append((self.n, kind, op))
            if self.res is not None:
                self.res.fault('%s:%s' % (op, kind))
            if kind == 'eio' or kind == 'close':
                raise SimOSError(errno.EIO, 'simulated I/O error', raw.path)
            if kind in ('enospc', 'full'):
                raise SimOSError(errno.ENOSPC, 'simulated full disk', raw.path)
            if kind == 'torn':
                h = size // 2
                raw.data[raw.pos:raw.pos + h] = data[:h]
                raw.pos += h
                raise SimOSError(errno.ENOSPC, 'simulated full disk', raw.path)
            if kind == 'interrupt':
                raise SimInterrupt('during %s' % op)
            if kind == 'intr':
                return 1
        if self.chunk and op in ('read', 'write'):
            c = self.chunk[self.ci % len(self.chunk)]
            self.ci += 1
            if c:
                if self.res is not None:
                    self.res.fault('short-' + op)
                return c
        return None

    # -- open
    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        binary = 'b' in mode
        m = mode.replace('b', '').replace('t', '')
        if m not in ('r', 'w', 'w+', 'a', 'r+', 'x', 'a+'):
            raise ValueError('invalid mode: %r' % mode)
        if 'r' in m and path not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'no such file', path)
        self.n += 1
        kind = self.faults.get(self.n)
        self.log.append((self.n, 'open', kind))
        if kind in ('eio', 'enospc', 'interrupt'):
            self.fired.append((self.n, kind, 'open'))
            if self.res is not None:
                self.res.fault('open:' + kind)
            if kind == 'interrupt':
                raise SimInterrupt('during open')
            raise SimOSError(errno.EACCES if kind == 'eio' else errno.ENOSPC, 'simulated open failure', path)
        if 'w' in m or path not in self.files:
            self.files[path] = bytearray()
            self.touched.add(path)
        elif m != 'r':
            self.touched.add(path)
        raw = Raw(self, path, m)
        if 'a' in m:
            raw.pos = len(raw.data)
        self.handles.append(raw)
        return self.stack(raw, m, binary, encoding, errors, newline)

    def stack(self, raw, m, binary, encoding, errors, newline):
        buf = max(1, self.buf)
        if '+' in m:
            b = io.BufferedRandom(raw, buf)
        elif 'r' in m:
            b = io.BufferedReader(raw, buf)
        else:
            b = io.BufferedWriter(raw, buf)
        if binary:
            return b
        t = io.TextIOWrapper(b, encoding=encoding or self.enc, errors=errors, newline=newline)
        if '+' not in m and 'r' in m:
            t._CHUNK_SIZE = max(1, self.buf)
        return t

    def caller_file(self, path, mode='r', encoding='utf-8', newline=None):
        """A file object opened by the simulated user."""
        f = self.open(path, mode, encoding=encoding if 'b' not in mode else None, newline=newline)
        raw = self.handles.pop()
        return f, raw

    def leaked(self):
        return [h.path for h in self.handles if not h.released]

    def read_file(self, path):
        return bytes(self.files[path])

    def __enter__(self):
        disk = self

        def sim_open(file, *a, **kw):
            if isinstance(file, str) and file.startswith(PREFIX):
                return disk.open(file, *a, **kw)
            if hasattr(file, '__fspath__') and str(file).startswith(PREFIX):
                return disk.open(str(file), *a, **kw)
            return _real_open(file, *a, **kw)
        self.stop = False
        builtins.open = sim_open
        io.open = sim_open
        return self

    def __exit__(self, *a):
        builtins.open = _real_open
        io.open = _real_io_open
        self.off = True
        for h in self.handles:
            if not h.released:
                h.released = True
        return False
