"""The seam between the code under test and the outside world.

install() replaces, once and before the code under test is imported, every function through which
that code (and the libraries under it) reaches the disk, the clock, the random source, locks and the
network.  Each replacement passes straight through unless a World is active and the call is about
something the World simulates: paths under SIMROOT and the overlay directories, and the clock,
randomness and network as a whole.
"""
import builtins
import errno
import fcntl
import io
import os
import random
import sys
import threading
import time

from . import simfs
from .simfs import SIMROOT, oserr, sim_open

active = None          # the World of this run
OVERLAY = []           # real directories whose files are read through the simulated disk
REPO = os.environ.get('VSIM_REPO', '/repo')
REAL = {}
STD = {}               # descriptor -> stream, while a simulated process has standard streams of its own
_installed = False


def is_sim(path):
    if active is None:
        return False
    if isinstance(path, int):
        return path in active.fs.fds
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith('/'):
        return True
    if p == SIMROOT or p.startswith(SIMROOT + '/'):
        return True
    for d in OVERLAY:
        if p == d or p.startswith(d + '/'):
            return True
    return False


class _FileIOMeta(type(io.FileIO)):
    """io.FileIO(path) of a simulated file is a raw file of the simulation."""

    def __call__(cls, file, mode='r', closefd=True, opener=None):
        if active is not None and is_sim(file):
            return sim_open(active.fs, file, mode.replace('b', '') + 'b', 0, None, None, None, closefd, opener)
        return REAL['io.FileIO'](file, mode, closefd, opener)

    def __instancecheck__(cls, x):
        return isinstance(x, (REAL['io.FileIO'], simfs.SimRaw))


def _w_path(name, simfunc, real):
    """Wrapper for a function whose first argument is a path or descriptor."""
    def wrapper(path, *a, **k):
        if active is not None and is_sim(path):
            return simfunc(active.fs, path, *a, **k)
        return real(path, *a, **k)
    wrapper.__name__ = name
    wrapper.__wrapped__ = real
    return wrapper


def _w_two(name, simfunc, real):
    def wrapper(src, dst, *a, **k):
        if active is not None:
            s, d = is_sim(src), is_sim(dst)
            if s and d:
                return simfunc(active.fs, src, dst)
            if s or d:
                raise oserr(errno.EXDEV, src, dst)
        return real(src, dst, *a, **k)
    wrapper.__name__ = name
    return wrapper


class _DirEntry(object):
    def __init__(self, fs, base, name, as_bytes):
        self._fs = fs
        self.name = os.fsencode(name) if as_bytes else name
        p = base.rstrip('/') + '/' + name
        self._p = p
        self.path = os.fsencode(p) if as_bytes else p

    def stat(self, follow_symlinks=True):
        return self._fs.stat(self._p, follow_symlinks)

    def inode(self):
        return self.stat(False).st_ino

    def is_dir(self, follow_symlinks=True):
        import stat
        try:
            return stat.S_ISDIR(self.stat(follow_symlinks).st_mode)
        except OSError:
            return False

    def is_file(self, follow_symlinks=True):
        import stat
        try:
            return stat.S_ISREG(self.stat(follow_symlinks).st_mode)
        except OSError:
            return False

    def is_symlink(self):
        import stat
        return stat.S_ISLNK(self.stat(False).st_mode)

    def __fspath__(self):
        return self.path


class _Scan(object):
    def __init__(self, fs, path):
        as_bytes = isinstance(os.fspath(path), bytes)
        base = os.fsdecode(os.fspath(path))
        self._it = iter([_DirEntry(fs, base, n, as_bytes) for n in fs.listdir(path)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _listdir(fs, path='.'):
    out = fs.listdir(path)
    return [os.fsencode(e) for e in out] if isinstance(path, bytes) else out


def _stat(fs, path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return fs.fstat(path)
    return fs.stat(path, follow_symlinks)


def _truncate(fs, path, length):
    if isinstance(path, int):
        return fs.ftruncate(path, length)
    fd = fs.open(path, os.O_WRONLY)
    try:
        fs.ftruncate(fd, length)
    finally:
        fs.close(fd)


def _chmod(fs, path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return fs.fchmod(path, mode)
    return fs.chmod(path, mode, follow_symlinks)


def _readlink(fs, path, *, dir_fd=None):
    t = fs.readlink(path)
    return os.fsencode(t) if isinstance(path, bytes) else t


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R = REAL
    for n in ('open', 'close', 'read', 'write', 'lseek', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'fstat',
              'stat', 'lstat', 'access', 'rename', 'replace', 'link', 'symlink', 'readlink', 'unlink', 'remove',
              'mkdir', 'rmdir', 'listdir', 'scandir', 'chmod', 'fchmod', 'chown', 'fchown', 'lchown', 'utime', 'getcwd',
              'getcwdb', 'chdir', 'pathconf', 'fpathconf', 'sendfile', 'copy_file_range', 'sync', 'urandom', 'getpid',
              'statvfs', 'fstatvfs', 'listxattr', 'getxattr', 'setxattr', 'pread', 'pwrite', 'writev', 'readv', 'dup',
              'isatty', 'umask', 'posix_fallocate', 'fchdir', 'mkfifo', 'mknod', 'getrandom', 'close_fds'):
        if hasattr(os, n):
            R['os.' + n] = getattr(os, n)
    R['open'] = builtins.open
    simfs._real['open'] = R['os.open']
    simfs._real['close'] = R['os.close']
    simfs._real['dup'] = R['os.dup']
    simfs._real['io_open'] = R['open']

    def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if STD and isinstance(file, int) and file in STD:
            b = io.BufferedWriter(STD[file].dup(), 8192)
            return b if 'b' in mode else io.TextIOWrapper(b, encoding or 'utf-8', errors, newline, buffering == 1)
        if active is not None and not (isinstance(file, int) and file not in active.fs.fds) and is_sim(file):
            return sim_open(active.fs, file, mode, buffering, encoding, errors, newline, closefd, opener)
        return R['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)

    open_.__name__ = 'open'
    builtins.open = open_
    io.open = open_
    R['io.FileIO'] = io.FileIO

    class FileIO(io.FileIO, metaclass=_FileIOMeta):
        pass
    FileIO.__qualname__ = 'FileIO'
    io.FileIO = FileIO

    P = {
        'open': lambda fs, p, flags, mode=0o777, *, dir_fd=None: fs.open(p, flags, mode),
        'close': lambda fs, fd: fs.close(fd),
        'read': lambda fs, fd, n: fs.read(fd, n),
        'write': lambda fs, fd, b: fs.write(fd, b),
        'lseek': lambda fs, fd, pos, how=0: fs.lseek(fd, pos, how),
        'fsync': lambda fs, fd: fs.fsync(fd if isinstance(fd, int) else fd.fileno()),
        'fdatasync': lambda fs, fd: fs.fsync(fd if isinstance(fd, int) else fd.fileno()),
        'ftruncate': lambda fs, fd, n: fs.ftruncate(fd, n),
        'truncate': _truncate,
        'fstat': lambda fs, fd: fs.fstat(fd),
        'stat': _stat,
        'lstat': lambda fs, p, *, dir_fd=None: fs.stat(p, False),
        'access': lambda fs, p, mode, **k: fs.access(p, mode),
        'readlink': _readlink,
        'unlink': lambda fs, p, *, dir_fd=None: fs.unlink(p),
        'remove': lambda fs, p, *, dir_fd=None: fs.unlink(p),
        'mkdir': lambda fs, p, mode=0o777, *, dir_fd=None: fs.mkdir(p, mode),
        'rmdir': lambda fs, p, *, dir_fd=None: fs.rmdir(p),
        'chmod': _chmod,
        'fchmod': lambda fs, fd, mode: fs.fchmod(fd, mode),
        'chown': lambda fs, p, *a, **k: None,
        'fchown': lambda fs, p, *a, **k: None,
        'lchown': lambda fs, p, *a, **k: None,
        'utime': lambda fs, p, times=None, *, ns=None, dir_fd=None, follow_symlinks=True: fs.utime(p, times, ns),
        'isatty': lambda fs, fd: False,
        'pwrite': lambda fs, fd, b, off: (fs.lseek(fd, off), fs.write(fd, b))[1],
        'pread': lambda fs, fd, n, off: (fs.lseek(fd, off), fs.read(fd, n))[1],
        'writev': lambda fs, fd, bs: fs.write(fd, b''.join(bytes(b) for b in bs)),
    }

    def unsupported(fs, *a, **k):
        raise oserr(errno.ENOTSUP)

    for n in ('pathconf', 'fpathconf', 'listxattr', 'getxattr', 'setxattr', 'readv', 'posix_fallocate', 'fchdir',
              'statvfs', 'fstatvfs', 'mkfifo', 'mknod'):
        P[n] = unsupported
    P['listxattr'] = lambda fs, *a, **k: []
    for n, f in P.items():
        if 'os.' + n in R:
            setattr(os, n, _w_path(n, f, R['os.' + n]))
    # the standard streams of a simulated process, by number
    def std(n, f):
        inner = getattr(os, n)

        def wrapper(fd, *a, **k):
            if STD and isinstance(fd, int) and fd in STD:
                return f(STD[fd], *a, **k)
            return inner(fd, *a, **k)
        wrapper.__name__ = n
        setattr(os, n, wrapper)
    std('write', lambda st, b: st.write(b))
    std('close', lambda st: st.shut())
    std('isatty', lambda st: False)

    def nosync(st):
        raise oserr(errno.EINVAL)
    std('fsync', nosync)
    std('fdatasync', nosync)
    real_dup2 = os.dup2

    def dup2(fd, fd2, *a, **k):
        if STD and fd2 in STD:
            if fd in STD:
                STD[fd2].to = STD[fd]
            elif not is_sim(fd):
                STD[fd2].to = None       # /dev/null and the like
            else:
                raise oserr(errno.ENOTSUP)
            return fd2
        return real_dup2(fd, fd2, *a, **k)
    os.dup2 = dup2
    os.rename = _w_two('rename', lambda fs, a, b: fs.rename(a, b), R['os.rename'])
    os.replace = _w_two('replace', lambda fs, a, b: fs.rename(a, b), R['os.replace'])
    os.link = _w_two('link', lambda fs, a, b: fs.link(a, b), R['os.link'])
    # a copied set membership test in shutil and pathlib
    for s in ('supports_follow_symlinks', 'supports_dir_fd', 'supports_fd', 'supports_effective_ids'):
        st = getattr(os, s, None)
        if isinstance(st, set):
            for n in list(P):
                if R.get('os.' + n) in st:
                    st.add(getattr(os, n))

    def symlink(target, dst, *a, **k):
        if active is not None and is_sim(dst):
            return active.fs.symlink(target, dst)
        return R['os.symlink'](target, dst, *a, **k)
    os.symlink = symlink

    def listdir(path='.'):
        if active is not None and is_sim(path):
            return _listdir(active.fs, path)
        return R['os.listdir'](path)
    os.listdir = listdir

    def scandir(path='.'):
        if active is not None and is_sim(path):
            return _Scan(active.fs, path)
        return R['os.scandir'](path)
    os.scandir = scandir

    def getcwd():
        return active.fs.cwd if active is not None else R['os.getcwd']()
    os.getcwd = getcwd
    os.getcwdb = lambda: os.fsencode(getcwd())

    def chdir(path):
        if active is not None:
            p = active.fs.abspath(path)
            if active.fs.lookup(p).kind != 'd':
                raise oserr(errno.ENOTDIR, path)
            active.fs.cwd = os.path.normpath(p)
            return
        return R['os.chdir'](path)
    os.chdir = chdir

    def umask(m):
        if active is not None:
            o = active.fs.umask
            active.fs.umask = m
            return o
        return R['os.umask'](m)
    os.umask = umask

    def sendfile(out_fd, in_fd, *a, **k):
        if active is not None and (in_fd in active.fs.fds or out_fd in active.fs.fds):
            raise oserr(errno.ENOTSOCK)
        return R['os.sendfile'](out_fd, in_fd, *a, **k)
    os.sendfile = sendfile
    if 'os.copy_file_range' in R:
        def cfr(src, dst, *a, **k):
            if active is not None and (src in active.fs.fds or dst in active.fs.fds):
                raise oserr(errno.ENOSYS)
            return R['os.copy_file_range'](src, dst, *a, **k)
        os.copy_file_range = cfr

    def sync():
        if active is not None:
            active.fs.sync_all()
            return
        return R['os.sync']()
    os.sync = sync

    def urandom(n):
        if active is not None:
            return active.random_bytes(n)
        return R['os.urandom'](n)
    os.urandom = urandom

    def getrandom(n, flags=0):
        return urandom(n)
    if 'os.getrandom' in R:
        os.getrandom = getrandom

    def getpid():
        if active is not None:
            return 4000 + active.pid()
        return R['os.getpid']()
    os.getpid = getpid

    # locks on files
    R['flock'], R['lockf'] = fcntl.flock, fcntl.lockf

    def flock(fd, op):
        f = fd if isinstance(fd, int) else fd.fileno()
        if active is not None and f in active.fs.fds:
            return active.flock(f, op)
        return R['flock'](fd, op)
    fcntl.flock = flock

    def lockf(fd, op, *a):
        f = fd if isinstance(fd, int) else fd.fileno()
        if active is not None and f in active.fs.fds:
            return active.flock(f, op)
        return R['lockf'](fd, op, *a)
    fcntl.lockf = lockf

    # clocks
    for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
        R['time.' + n] = getattr(time, n)

    def _clock(name, f):
        real = R['time.' + name]

        def clock():
            return f(active) if active is not None else real()
        clock.__name__ = name
        return clock
    time.time = _clock('time', lambda w: w.wall())
    time.monotonic = _clock('monotonic', lambda w: w.now)
    time.perf_counter = _clock('perf_counter', lambda w: w.now)
    time.time_ns = _clock('time_ns', lambda w: int(w.wall() * 10 ** 9))
    time.monotonic_ns = _clock('monotonic_ns', lambda w: int(w.now * 10 ** 9))
    time.perf_counter_ns = _clock('perf_counter_ns', lambda w: int(w.now * 10 ** 9))

    def sleep(s):
        if active is not None:
            return active.sleep(s)
        return R['time.sleep'](s)
    time.sleep = sleep

    def given(name):
        real = R['time.' + name] = getattr(time, name)

        class F(object):       # not a function: some keep it as an attribute of a class
            def __call__(self, secs=None):
                return real(active.wall() if secs is None and active is not None else secs)
        setattr(time, name, F())
    for n in ('localtime', 'gmtime', 'ctime'):
        given(n)
    R['time.strftime'], R['time.asctime'] = time.strftime, time.asctime
    time.strftime = lambda fmt, t=None: R['time.strftime'](fmt, time.localtime() if t is None else t)
    time.asctime = lambda t=None: R['time.asctime'](time.localtime() if t is None else t)
    sim_datetime()

    # randomness
    import tempfile
    import uuid
    tempfile.tempdir = SIMROOT + '/tmp'

    class _SeededRandom(random.Random):
        def __init__(self, x=None):
            if x is None and active is not None:
                x = int.from_bytes(active.random_bytes(8), 'big')
            super().__init__(x)
    R['tempfile._Random'] = tempfile._Random
    tempfile._Random = _SeededRandom
    uuid._generate_time_safe = None
    uuid._node = 0x0242ac110002
    import secrets
    secrets._sysrand = _SysRandom()
    R['random.SystemRandom'] = random.SystemRandom
    random.SystemRandom = _SysRandom

    # locks made by the code under test
    R['Lock'], R['RLock'] = threading.Lock, threading.RLock

    def caller_is_repo():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(REPO + '/metatab/')

    def Lock():
        return SimLock(False) if caller_is_repo() else R['Lock']()

    def RLock():
        return SimLock(True) if caller_is_repo() else R['RLock']()
    threading.Lock = Lock
    threading.RLock = RLock


def sim_datetime():
    """datetime.now() and its like ask the C library for the time, so they need a seam of their own."""
    import datetime as m
    rdt, rd = m.datetime, m.date

    class MetaDT(type):
        def __instancecheck__(cls, x):
            return isinstance(x, rdt)

        def __subclasscheck__(cls, c):
            return issubclass(c, rdt)

    class MetaD(type):
        def __instancecheck__(cls, x):
            return isinstance(x, rd)

        def __subclasscheck__(cls, c):
            return issubclass(c, rd)

    class datetime(rdt, metaclass=MetaDT):
        def __new__(cls, *a, **k):
            return rdt.__new__(rdt if cls is datetime else cls, *a, **k)

        @classmethod
        def now(cls, tz=None):
            return rdt.fromtimestamp(active.wall(), tz) if active is not None else rdt.now(tz)

        @classmethod
        def utcnow(cls):
            return rdt.fromtimestamp(active.wall(), m.timezone.utc).replace(tzinfo=None) if active is not None else \
                rdt.now(m.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    for n in ('fromtimestamp', 'utcfromtimestamp', 'fromordinal', 'combine', 'fromisoformat', 'fromisocalendar', 'strptime', 'min', 'max'):
        setattr(datetime, n, getattr(rdt, n))

    class date(rd, metaclass=MetaD):
        def __new__(cls, *a, **k):
            return rd.__new__(rd if cls is date else cls, *a, **k)

        @classmethod
        def today(cls):
            return rd.fromtimestamp(active.wall()) if active is not None else rd.today()
    for n in ('fromtimestamp', 'fromordinal', 'fromisoformat', 'fromisocalendar', 'min', 'max'):
        setattr(date, n, getattr(rd, n))
    for c, n in ((datetime, 'datetime'), (date, 'date')):
        c.__name__ = c.__qualname__ = n
        c.__module__ = 'datetime'
    m.datetime, m.date = datetime, date


class _SysRandom(random.Random):
    def random(self):
        return (int.from_bytes(os.urandom(7), 'big') >> 3) * 2.0 ** -53

    def getrandbits(self, k):
        n = (k + 7) // 8
        return int.from_bytes(os.urandom(n), 'big') >> (n * 8 - k)

    def seed(self, *a, **k):
        return None


class SimLock(object):
    """A lock made by the code under test.  Without an active scheduler it never blocks for real."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = active.task_id() if active is not None else threading.get_ident()
        while True:
            if self._owner is None:
                self._owner, self._count = me, 1
                return True
            if self._owner == me and self._re:
                self._count += 1
                return True
            if not blocking:
                return False
            if active is None:
                raise RuntimeError('deadlock: lock is held')
            if timeout is not None and timeout >= 0:
                active.sleep(timeout)
                if self._owner is None:
                    continue
                return False
            active.block(lambda: self._owner is None)

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
