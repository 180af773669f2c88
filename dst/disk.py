"""Simulated disk: a scratch directory whose files are served through a raw
layer that can fail, return short, run full, or be cut off; every handle opened
through it is tracked.  Real: Python's buffered/text layers, pandas, the
readers.  Simulated: the raw file."""
import errno
import io
import os
import shutil
import sys
import tempfile

from .core import SimHang


def _opener():
    """top-level package of the code that asked for the file"""
    f = sys._getframe(1)
    while f is not None:
        mod = f.f_globals.get('__name__', '').split('.')[0]
        if mod in ('pvlib', 'pandas', 'props'):
            return mod
        f = f.f_back
    return ''


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk = disk
        self.path = path
        self._rd = 'r' in mode or '+' in mode
        self._wr = any(c in mode for c in 'wax+')
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[
            [c for c in mode if c in 'rwax'][0]]
        if '+' in mode:
            flags = (flags & ~(os.O_WRONLY)) | os.O_RDWR
        self.fd = os.open(path, flags, 0o644)
        self.name = path
        self.mode = mode
        self.how_closed = None
        self.eof_reads = 0
        self.opener = _opener()
        disk.handles.append(self)
        disk.sim.event('open', os.path.basename(path), mode)

    def readable(self):
        return self._rd

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        d = self.disk
        d.nreads += 1
        if d.nreads > d.read_budget:
            raise SimHang('read budget exceeded')
        for f in d.faults:
            if f['op'] == 'read' and d.nreads - 1 == f['nth']:
                d.fire(f)
                if f['kind'] == 'eio':
                    raise OSError(errno.EIO, 'Input/output error')
                if f['kind'] == 'estale':
                    raise OSError(errno.ESTALE, 'Stale file handle')
                if f['kind'] == 'interrupt':
                    raise KeyboardInterrupt()
                if f['kind'] == 'nomem':
                    raise MemoryError()
        n = len(b)
        if d.chunk:
            n = min(n, d.chunk)
        out = os.read(self.fd, n)
        if not out:
            self.eof_reads += 1
            if self.eof_reads > 30000:
                raise SimHang('reads past end of file')
        b[:len(out)] = out
        return len(out)

    def write(self, b):
        d = self.disk
        d.nwrites += 1
        data = bytes(b)
        for f in d.faults:
            if f['op'] == 'write' and d.nwrites - 1 == f['nth']:
                d.fire(f)
                if f['kind'] == 'enospc':
                    k = len(data) // 2
                    os.write(self.fd, data[:k])
                    raise OSError(errno.ENOSPC, 'No space left on device')
                if f['kind'] == 'eio':
                    raise OSError(errno.EIO, 'Input/output error')
                if f['kind'] == 'short':
                    k = max(1, len(data) // 2)
                    return os.write(self.fd, data[:k])
        return os.write(self.fd, data)

    def _dealloc_warn(self, source):
        self.how_closed = 'garbage'

    def close(self):
        if not self.closed:
            if self.how_closed is None:
                self.how_closed = 'explicit'
            self.disk.sim.event('close', os.path.basename(self.path),
                                self.how_closed)
            os.close(self.fd)
            super().close()
            for f in self.disk.faults:
                if f['op'] == 'close' and self._wr:
                    self.disk.fire(f)
                    raise OSError(errno.ENOSPC, 'No space left on device')

    def __del__(self):
        if not self.closed:
            self.how_closed = 'garbage'
        super().__del__()


class Disk:
    count = 0

    def __init__(self, sim, faults=(), chunk=None, extra_roots=()):
        self.sim = sim
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        # digits only: names must not carry anything a reader might look at
        Disk.count += 1
        self.root = os.path.join(base or tempfile.gettempdir(),
                                 f'dst-{os.getpid()}-{Disk.count}')
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)
        self.roots = [self.root + os.sep] + list(extra_roots)
        self.faults = [dict(f) for f in faults]
        self.chunk = chunk
        self.handles = []
        self.nreads = self.nwrites = self.nopens = 0
        self.read_budget = 200000

    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            view = memoryview(data)
            while view:
                view = view[os.write(fd, view):]
        finally:
            os.close(fd)
        return p

    def get(self, name):
        fd = os.open(self.path(name), os.O_RDONLY)
        try:
            out = b''
            while True:
                c = os.read(fd, 1 << 20)
                if not c:
                    return out
                out += c
        finally:
            os.close(fd)

    def owns(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode('utf-8', 'replace')
        p = os.path.abspath(p)
        return any(p.startswith(r) for r in self.roots)

    def fire(self, f):
        self.sim.fault(f"disk:{f['op']}:{f['kind']}")

    def open(self, file, mode, buffering, encoding, errors, newline):
        path = os.path.abspath(os.fspath(file))
        self.nopens += 1
        for f in self.faults:
            if f['op'] == 'open' and self.nopens - 1 == f['nth']:
                self.fire(f)
                if f['kind'] == 'eacces':
                    raise PermissionError(errno.EACCES, 'Permission denied',
                                          path)
                raise OSError(errno.EMFILE, 'Too many open files', path)
        raw = Raw(self, path, mode.replace('b', '').replace('t', ''))
        binary = 'b' in mode
        if '+' in mode:
            buf = io.BufferedRandom(raw)
        elif raw.writable():
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw)
        if binary:
            return raw if buffering == 0 else buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def open_handles(self):
        return [h for h in self.handles if not h.closed]

    def cleanup(self):
        for h in self.handles:
            try:
                h.faults = []
                h.close()
            except Exception:
                pass
        shutil.rmtree(self.root, ignore_errors=True)
