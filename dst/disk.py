"""Simulated storage: files in a scratch directory of the process whose reads
are split, fail or end early as a scenario says. Only files of the scratch
directory are affected."""
import atexit
import builtins
import contextlib
import io
import os
import random
import shutil
import tempfile

_base = None


def scratch():
    """Directory of this process below that of the whole run."""
    global _base
    if _base is None:
        _base = (os.getpid(), tempfile.mkdtemp(prefix='dst-'))
        atexit.register(_clean)
    d = os.path.join(_base[1], str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def _clean():
    if _base is not None and _base[0] == os.getpid():
        shutil.rmtree(_base[1], ignore_errors=True)


def cleanup():
    """Processes that leave through os._exit call this before."""
    _clean()
    if _base is not None:
        shutil.rmtree(os.path.join(_base[1], str(os.getpid())),
                      ignore_errors=True)


class _File(io.RawIOBase):
    def __init__(self, disk, path):
        self.d = disk
        with disk.real_open(path, 'rb') as f:
            self.data = f.read()
        self.pos = 0
        self.reads = 0
        self.name = path
        self.mode = 'rb'
        self.r = random.Random(disk.plan.get('seed', 0))
        disk.opened.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = {0: off, 1: self.pos + off,
                    2: len(self.data) + off}[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        p = self.d.plan
        if len(b) == 0:
            return 0
        self.reads += 1
        self.d.point()
        if p.get('eio') is not None and self.pos >= p['eio']:
            self.d.fired('eio')
            raise OSError(5, 'Input/output error')
        size = p.get('size') or 0
        if size == -1:
            n = self.r.choice([1, 1, 2, 3, 5, 17, 100, 1000, 8192])
        elif size:
            n = size
        else:
            n = len(b)
        n = min(n, len(b), len(self.data) - self.pos)
        if p.get('eio') is not None and self.pos < p['eio']:
            n = min(n, p['eio'] - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Disk:
    """plan: size (bytes per read, -1: random), seed, eio (offset from which
    reading fails), noent, eacces, emfile (opening fails)."""

    def __init__(self, plan=None, ctx=None):
        self.plan = plan or {}
        self.ctx = ctx
        self.opened = []
        self.fires = []
        self.real_open = builtins.open

    def fired(self, kind):
        self.fires.append(kind)
        if self.ctx is not None:
            self.ctx.fault(kind)
            self.ctx.log('fault', kind)

    def point(self):
        from . import sched
        if sched.current is not None:
            sched.current.point()

    @contextlib.contextmanager
    def installed(self):
        root = scratch() + os.sep
        real = (builtins.open, io.open)

        def sim_open(file, mode='r', buffering=-1, encoding=None,
                     errors=None, newline=None, closefd=True, opener=None):
            try:
                path = os.path.abspath(os.fsdecode(file))
            except TypeError:
                path = ''
            if not path.startswith(root) or set(mode) & set('wax+'):
                return real[0](file, mode, buffering, encoding, errors,
                               newline, closefd, opener)
            self.point()
            for k, e in (('eacces', 13), ('emfile', 24)):
                if self.plan.get(k):
                    self.fired(k)
                    raise OSError(e, os.strerror(e), str(file))
            if not os.path.exists(path):
                raise FileNotFoundError(2, os.strerror(2), str(file))
            f = _File(self, path)
            if 'b' in mode:
                return f
            return io.TextIOWrapper(io.BufferedReader(f), encoding=encoding,
                                    errors=errors, newline=newline)

        builtins.open = io.open = sim_open
        try:
            yield self
        finally:
            builtins.open, io.open = real


def store(name, data):
    path = os.path.join(scratch(), name)
    with open(path, 'wb') as f:
        f.write(data)
    return path
