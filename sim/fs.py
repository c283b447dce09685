"""File-system seam.

The simulated disk is a real scratch directory; every call that reaches the
operating system from simulated code goes through here first.  A call may
fail, do only part of its work, or be the point where the process dies.
Operations outside the scratch root are never allowed to change anything.
"""
import builtins
import errno
import io
import os
import posix
import stat as _stat

from . import core
from .core import SimCrash, os_error

R = {}  # the real functions
ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES,
       'EMFILE': errno.EMFILE, 'ENOENT': errno.ENOENT, 'EINTR': errno.EINTR,
       'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT, 'ESTALE': errno.ESTALE}

# What can go wrong, per kind of operation.
OPTIONS = {
    'open_w': ['crash', 'EACCES', 'ENOSPC', 'crash_after', 'EMFILE', 'EROFS'],
    'open_r': ['EACCES', 'EIO', 'crash', 'EMFILE', 'ESTALE'],
    'write': ['crash', 'ENOSPC', 'crash_torn', 'EIO', 'torn_ENOSPC',
              'crash_after', 'short'],
    'read': ['EIO', 'short', 'crash'],
    'fsync': ['EIO', 'crash', 'crash_after'],
    'rename': ['crash', 'EACCES', 'crash_after', 'EIO', 'ENOSPC'],
    'remove': ['crash', 'EACCES', 'crash_after', 'EIO'],
    'mkdir': ['EACCES', 'ENOSPC', 'crash', 'crash_after'],
    'chmod': ['EACCES', 'crash', 'crash_after'],
    'truncate': ['crash', 'EIO', 'crash_after'],
    'listdir': ['EACCES', 'EIO', 'crash'],
    'stat': ['EACCES', 'EIO'],
    'chdir': ['EACCES', 'ENOENT'],
    'close': ['crash', 'crash_after'],
    'link': ['crash', 'EACCES', 'crash_after'],
    'utime': ['EACCES'],
}
MUTATING = {'open_w', 'write', 'rename', 'remove', 'mkdir', 'chmod',
            'truncate', 'link', 'fsync', 'close', 'utime'}
N_FAULT = 43  # decide() range; the value picks an option modulo their number


class Disk(object):
    """Fault decisions and bookkeeping of one world's disk."""

    def __init__(self, world):
        self.world = world
        self.filter = lambda kind, path: kind in MUTATING
        self.allow = None       # subset of fault names, or None for all
        self.files = []         # every SimFileIO of this run
        self.fds = {}           # raw fd -> (proc, path)
        self.escapes = []
        self.raw_write_limit = None
        self.sleep_per_op = 0.0
        self.fault_log = []     # (op index, kind, path, fault)
        self.points = []        # every operation that could have failed
        self.touched = set()    # paths simulated code opened for writing
        self.sim_mtime = False  # stamp written files with the simulated time

    def rel(self, path):
        return str(path).replace(self.world.root, '$S')

    def options(self, kind):
        opts = OPTIONS[kind]
        if self.allow is not None:
            opts = [o for o in opts if o in self.allow]
        return opts

    def point(self, kind, path):
        """Account for one operation and return its fate (None: succeeds)."""
        w = self.world
        w.step('fs.' + kind)
        w.log('fs', kind, self.rel(path))
        if not w.faults_on or not self.filter(kind, path):
            return None
        opts = self.options(kind)
        if not opts:
            return None
        self.points.append((kind, self.rel(path)))
        v = w.decide('fs', N_FAULT)
        if not v:
            return None
        what = opts[(v - 1) % len(opts)]
        w.fault('fs:' + what)
        w.log('FAULT', kind, self.rel(path), what)
        self.fault_log.append((kind, self.rel(path), what))
        if what == 'crash':
            self.die()
        if what in ERR:
            raise os_error(ERR[what], path)
        return what

    def die(self):
        p = self.world.proc
        if p is not None:
            p.crash()
        raise SimCrash()

    def cut(self, n):
        v = self.world.decide('fs.cut', 4, rate=0.75)
        return (n // 2, 0, min(1, n), max(0, n - 1))[v]

    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        root = self.world.root
        return p == root or p.startswith(root + '/')

    def guard(self, path, kind):
        """Refuse to change anything outside the scratch root."""
        if isinstance(path, int):
            return
        if not self.inside(path):
            self.escapes.append((kind, str(path)))
            self.world.log('escape', kind, str(path))
            raise os_error(errno.EACCES, path)
        # A symlink must not lead outside either
        real = R['realpath'](os.fspath(path))
        if not (real == self.world.root
                or real.startswith(self.world.root + '/')):
            self.escapes.append((kind, real))
            raise os_error(errno.EACCES, path)

    def end_of_world(self):
        for f in self.files:
            try:
                io.FileIO.close(f)
            except Exception:
                pass
        for fd in list(self.fds):
            try:
                R['close'](fd)
            except OSError:
                pass
        self.fds.clear()

    def proc_exit(self, proc, flush):
        """Python flushes open files on a clean exit, not on a kill."""
        for holder in list(proc.open_files):
            try:
                if flush:
                    holder.flush()
            except (SimCrash, core.StepLimit):
                raise
            except BaseException:
                pass


class SimFileIO(io.FileIO):
    """Raw file whose reads and writes ask the disk what happens."""

    def sim_setup(self, disk, path, writable):
        self._disk = disk
        self._path = path
        self._sim_writable = writable
        self._proc = disk.world.proc
        disk.files.append(self)
        if writable:
            self.stamp()

    def stamp(self):
        d = self._disk
        if d.sim_mtime:
            t = d.world.wall()
            R['utime'](self.fileno(), (t, t))

    def _alive(self):
        w = self._disk.world
        if w.closed or core.CUR is not w:
            return None
        if self._proc is not None and self._proc.dead:
            return False
        return True

    def write(self, b):
        alive = self._alive()
        n = len(memoryview(b).cast('B')) if not isinstance(b, bytes) \
            else len(b)
        if alive is None:
            return n            # run is over: the bytes never reach the disk
        if alive is False:
            raise SimCrash()
        d = self._disk
        what = d.point('write', self._path)
        data = bytes(b)
        if what is None:
            lim = d.raw_write_limit
            if lim and n > lim:
                data = data[:lim]
            done = io.FileIO.write(self, data)
            self.stamp()
            return done
        if what == 'short':
            return io.FileIO.write(self, data[:max(1, n // 2)])
        if what == 'crash_after':
            io.FileIO.write(self, data)
            d.die()
        c = d.cut(n)
        if c:
            io.FileIO.write(self, data[:c])
        if what == 'crash_torn':
            d.die()
        raise os_error(errno.ENOSPC)

    def _read_point(self):
        alive = self._alive()
        if alive is False:
            raise SimCrash()
        if alive is None:
            return None
        return self._disk.point('read', self._path)

    def readinto(self, b):
        what = self._read_point()
        if what == 'short' and len(b) > 1:
            mv = memoryview(b)[:max(1, len(b) // 7)]
            return io.FileIO.readinto(self, mv)
        return io.FileIO.readinto(self, b)

    def readall(self):
        what = self._read_point()
        return io.FileIO.readall(self)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        what = self._read_point()
        if what == 'short' and size > 1:
            size = max(1, size // 7)
        return io.FileIO.read(self, size)

    def truncate(self, size=None):
        alive = self._alive()
        if alive is None:
            return 0
        if alive is False:
            raise SimCrash()
        what = self._disk.point('truncate', self._path)
        r = io.FileIO.truncate(self, size)
        if what == 'crash_after':
            self._disk.die()
        return r

    def close(self):
        if self.closed:
            return
        alive = self._alive()
        what = None
        if alive and self._sim_writable:
            what = self._disk.point('close', self._path)
        elif alive is False:
            raise SimCrash()
        fd = None
        try:
            fd = self.fileno()
        except ValueError:
            pass
        io.FileIO.close(self)
        if fd is not None:
            self._disk.fds.pop(fd, None)
        if what == 'crash_after':
            self._disk.die()


def disk():
    """The disk of the world simulated code is running in right now."""
    w = core.CUR
    if w is None or w.closed or w.proc is None:
        return None
    return w.fs


def _flags_write(flags):
    return bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC |
                         os.O_APPEND))


def sim_os_open(path, flags, mode=0o777, **kw):
    d = disk()
    if d is None:
        return R['os_open'](path, flags, mode, **kw)
    writing = _flags_write(flags)
    if writing:
        d.guard(path, 'open')
    elif not d.inside(path):
        return R['os_open'](path, flags, mode, **kw)
    what = d.point('open_w' if writing else 'open_r', path)
    fd = R['os_open'](path, flags, mode, **kw)
    d.fds[fd] = (d.world.proc, path)
    if writing:
        d.touched.add(os.path.abspath(path))
    if what == 'crash_after':
        d.die()
    return fd


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    d = disk()
    if d is None:
        return R['open'](file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    is_fd = isinstance(file, int)
    writing = any(c in mode for c in 'wax+')
    if not is_fd and not d.inside(file):
        if writing:
            d.guard(file, 'open')
        return R['open'](file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if is_fd and file not in d.fds:
        return R['open'](file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if not isinstance(mode, str):
        raise TypeError('open() mode must be str')
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '').replace('U', '') or 'r'
    if opener is None and not is_fd:
        opener = sim_os_open
    path = d.fds[file][1] if is_fd else file
    raw = SimFileIO(file, raw_mode, closefd, opener)
    raw.sim_setup(d, path, writing)
    if is_fd:
        d.fds.pop(file, None)
    else:
        d.fds.pop(raw.fileno(), None)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        _remember(d, raw)
        return raw
    line_buffering = buffering == 1 and not binary
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        _remember(d, buf)
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    _remember(d, text)
    return text


def _remember(d, f):
    d.world.keep.append(f)
    p = d.world.proc
    if p is not None:
        p.open_files.append(f)


def _simple(name, kind, n_paths=1, read_only=False):
    real = getattr(os, name)
    R[name] = real

    def wrapper(*args, **kw):
        d = disk()
        if d is None:
            return real(*args, **kw)
        paths = list(args[:n_paths])
        if not paths:
            paths = [kw.get('path', kw.get('src'))]
        p0 = paths[0] if paths[0] is not None else os.curdir
        if isinstance(p0, int):
            return real(*args, **kw)
        if read_only:
            if not d.inside(p0):
                return real(*args, **kw)
        else:
            for p in paths:
                d.guard(p, kind)
        what = d.point(kind, p0)
        r = real(*args, **kw)
        if what == 'crash_after':
            d.die()
        return r
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def sim_os_write(fd, data):
    d = disk()
    if d is None or fd not in d.fds:
        return R['write'](fd, data)
    what = d.point('write', d.fds[fd][1])
    if what is None:
        return R['write'](fd, data)
    data = bytes(data)
    if what == 'short':
        return R['write'](fd, data[:max(1, len(data) // 2)])
    if what == 'crash_after':
        R['write'](fd, data)
        d.die()
    c = d.cut(len(data))
    if c:
        R['write'](fd, data[:c])
    if what == 'crash_torn':
        d.die()
    raise os_error(errno.ENOSPC)


def sim_os_read(fd, n):
    d = disk()
    if d is None or fd not in d.fds:
        return R['read'](fd, n)
    what = d.point('read', d.fds[fd][1])
    return R['read'](fd, max(1, n // 7) if what == 'short' and n > 1 else n)


def sim_os_close(fd):
    d = disk()
    if d is None or fd not in d.fds:
        return R['close'](fd)
    what = d.point('close', d.fds[fd][1])
    d.fds.pop(fd, None)
    R['close'](fd)
    if what == 'crash_after':
        d.die()


def sim_fsync(fd):
    d = disk()
    if d is None:
        return R['fsync'](fd)
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    what = d.point('fsync', 'fd')
    R['fsync'](fd)
    if what == 'crash_after':
        d.die()


def sim_sendfile(*a, **k):
    if disk() is None:
        return R['sendfile'](*a, **k)
    raise os_error(errno.ENOSYS)


def sim_chdir(path):
    d = disk()
    if d is None:
        return R['chdir'](path)
    d.point('chdir', path)
    r = R['chdir'](path)
    if d.world.proc is not None:
        d.world.proc.cwd = R['getcwd']()
    return r


def sim_urandom(n):
    w = core.CUR
    if w is None or w.closed or w.proc is None:
        return R['urandom'](n)
    w.rand_n = getattr(w, 'rand_n', 0) + 1
    import random
    r = random.Random('{}:{}'.format(w.seed, w.rand_n))
    return bytes(r.randrange(256) for _ in range(n))


def sim_getpid():
    w = core.CUR
    if w is None or w.closed or w.proc is None:
        return R['getpid']()
    return w.proc.pid


def sim_exit(code=0):
    w = core.CUR
    if w is None or w.closed or w.proc is None:
        R['_exit'](code)
    w.proc.exit_now(code)
    raise SimCrash()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R['open'] = builtins.open
    R['os_open'] = os.open
    R['realpath'] = os.path.realpath
    for n in ('write', 'read', 'close', 'fsync', 'sendfile', 'chdir',
              'getcwd', 'urandom', 'getpid', '_exit', 'lstat', 'kill'):
        R[n] = getattr(os, n)
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.read = sim_os_read
    os.close = sim_os_close
    os.fsync = sim_fsync
    if hasattr(os, 'fdatasync'):
        R['fdatasync'] = os.fdatasync
        os.fdatasync = sim_fsync
    os.sendfile = sim_sendfile
    os.chdir = sim_chdir
    os.urandom = sim_urandom
    os.getpid = sim_getpid
    os._exit = sim_exit

    def no_kill(*a, **k):
        if disk() is None:
            return R['kill'](*a, **k)
        raise os_error(errno.EPERM)
    os.kill = no_kill
    for n in ('system', 'fork', 'execv', 'execve', 'posix_spawn', 'popen'):
        if hasattr(os, n):
            R[n] = getattr(os, n)

            def blocked(*a, **k):
                name = k.pop('_name')
                if disk() is None:
                    return R[name](*a, **k)
                raise os_error(errno.EPERM)
            setattr(os, n, (lambda name: lambda *a, **k:
                            blocked(*a, _name=name, **k))(n))
    _simple('rename', 'rename', 2)
    _simple('replace', 'rename', 2)
    _simple('link', 'link', 2)
    _simple('symlink', 'link', 2)
    _simple('remove', 'remove')
    _simple('unlink', 'remove')
    _simple('rmdir', 'remove')
    _simple('mkdir', 'mkdir')
    _simple('chmod', 'chmod')
    _simple('chown', 'chmod')
    _simple('truncate', 'truncate')
    _simple('utime', 'utime')
    _simple('listdir', 'listdir', read_only=True)
    _simple('scandir', 'listdir', read_only=True)
    _simple('stat', 'stat', read_only=True)
