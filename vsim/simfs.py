"""The simulated disk.

An in-memory POSIX-like file system mounted at SIMROOT.  It has inodes, directories, links, open
file descriptions, an (optional) byte limit, and two layers of state: what the kernel currently
holds (volatile) and what has reached the platter (durable).  Every operation first goes through
``hook``, where the world logs it, advances the simulated clock, lets the scheduler switch tasks and
injects faults.

The durability model used for a power loss:
  * file data: since the last fsync of a file its writes and truncations are pending; a power loss
    keeps a prefix of them, the last one possibly torn in the middle;
  * names: create / rename / link / unlink / mkdir are journaled in order; an fsync of a directory
    commits the journal; a power loss keeps a prefix of the uncommitted operations.  (An fsync of a
    file commits its data, not its name: this is the weaker, POSIX, reading.)
A process kill loses user-space buffers only.
"""
import errno
import io
import os
import stat as statmod

SIMROOT = '/vsim'
TMP = SIMROOT + '/tmp/'

O_ACCMODE = os.O_ACCMODE


def oserr(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    if path is not None:
        return OSError(code, os.strerror(code), path)
    return OSError(code, os.strerror(code))


class SimCrash(BaseException):
    """The simulated process died here.  Nothing it does afterwards has any effect."""


class Inode(object):
    __slots__ = ('ino', 'kind', 'data', 'synced', 'pending', 'mode', 'mtime', 'entries', 'target', 'lock')

    def __init__(self, ino, kind, mode, mtime):
        self.ino = ino
        self.kind = kind  # 'f' file, 'd' directory, 'l' symlink, 'c' character device-ish sink
        self.data = bytearray()
        self.synced = b''
        self.pending = []
        self.mode = mode
        self.mtime = mtime
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.lock = None  # flock owner: open file description


class OpenFile(object):
    __slots__ = ('inode', 'pos', 'flags', 'path', 'pid', 'closed', 'wrote')

    def __init__(self, inode, flags, path, pid):
        self.inode = inode
        self.pos = 0
        self.flags = flags
        self.path = path
        self.pid = pid
        self.closed = False
        self.wrote = False


class SimFS(object):

    def __init__(self, clock, limit=None):
        self.clock = clock          # callable -> float seconds
        self.hook = lambda op, path, **kw: None
        self.pid = lambda: 0        # current simulated process
        self.dead = set()           # pids whose operations have no effect any more
        self.next_ino = 2
        self.root = Inode(1, 'd', 0o755, 0.0)
        self.inodes = {1: self.root}
        self.fds = {}
        self.limit = limit          # total bytes allowed
        self.cwd = SIMROOT
        self.umask = 0o022
        self.remap = lambda p: p    # real overlay path -> simulated path
        self.read_chunk = None      # callable(n) -> max bytes for a raw read
        self.write_chunk = None     # callable(n) -> bytes accepted by a raw write
        self.journal = []           # namespace snapshots since the last commit
        self.committed_ns = None
        self._commit_ns()

    # -- durability ---------------------------------------------------------------------------

    def _ns(self):
        return {i.ino: dict(i.entries) for i in self.inodes.values() if i.kind == 'd'}

    def _commit_ns(self):
        self.committed_ns = self._ns()
        self.journal = []

    def _journal(self):
        self.journal.append(self._ns())

    def sync_all(self):
        for i in self.inodes.values():
            if i.kind == 'f':
                i.synced = bytes(i.data)
                i.pending = []
        self._commit_ns()

    def power_loss(self, keep_names, keep_data, torn):
        """Drop unsynced state.  keep_names in [0,1]: fraction of the name journal that survives;
        keep_data in [0,1]: fraction of each file's pending operations; torn in [0,1]: how much of the
        first lost write made it."""
        states = [self.committed_ns] + self.journal
        ns = states[min(len(states) - 1, int(round(keep_names * (len(states) - 1))))]
        lost = len(states) - 1
        for i in list(self.inodes.values()):
            if i.kind == 'd':
                if i.ino in ns:
                    i.entries = dict(ns[i.ino])
            elif i.kind == 'f':
                n = len(i.pending)
                lost += n
                k = min(n, int(round(keep_data * n)))
                data = bytearray(i.synced)
                for j, (op, a, b) in enumerate(i.pending):
                    if j > k:
                        break
                    if op == 'w':
                        if j == k:
                            b = b[:int(len(b) * torn)]
                            if not b:
                                break
                        if len(data) < a:
                            data.extend(b'\0' * (a - len(data)))
                        data[a:a + len(b)] = b
                    else:
                        if j == k:
                            break
                        del data[a:]
                        if len(data) < a:
                            data.extend(b'\0' * (a - len(data)))
                i.data = data
        self.drop_handles(None)
        self.sync_all()
        return lost

    def durable(self, path):
        """What the worst power loss would leave under a name: bytes, or None for no file."""
        p = self.abspath(path)
        for _ in range(20):
            node = self.root
            parts = self._parts(os.path.normpath(p))
            for i, name in enumerate(parts):
                ino = self.committed_ns.get(node.ino, {}).get(name)
                if ino is None:
                    return None
                node = self.inodes[ino]
                if node.kind == 'l':
                    p = os.path.join(SIMROOT, *(parts[:i] + [node.target] + parts[i + 1:]))
                    break
            else:
                return bytes(node.synced) if node.kind == 'f' else None
        return None

    def drop_handles(self, pid):
        for fd, of in list(self.fds.items()):
            if pid is None or of.pid == pid:
                of.closed = True
                if of.inode.lock is of:
                    of.inode.lock = None
                del self.fds[fd]

    # -- paths --------------------------------------------------------------------------------

    def abspath(self, path):
        p = os.fsdecode(os.fspath(path))
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        return self.remap(p)

    def _parts(self, p):
        if p == SIMROOT:
            return []
        if not p.startswith(SIMROOT + '/'):
            raise oserr(errno.ENOENT, p)
        return [e for e in p[len(SIMROOT) + 1:].split('/') if e not in ('', '.')]

    def walk(self, path, follow=True, depth=0):
        """-> (parent inode, name, inode or None)"""
        orig = path
        p = self.abspath(path)
        if p == '':
            raise oserr(errno.ENOENT, orig)
        if depth > 20:
            raise oserr(errno.ELOOP, orig)
        trailing = p.endswith('/') and p != '/'
        stack = [(None, None, self.root)]
        parts = self._parts(p)
        for n, name in enumerate(parts):
            cur = stack[-1][2]
            if cur is None:
                raise oserr(errno.ENOENT, orig)
            if cur.kind != 'd':
                raise oserr(errno.ENOTDIR, orig)
            if len(name.encode('utf8', 'surrogateescape')) > 255:
                raise oserr(errno.ENAMETOOLONG, orig)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            ino = cur.entries.get(name)
            child = self.inodes[ino] if ino is not None else None
            last = n == len(parts) - 1
            if child is not None and child.kind == 'l' and (follow or not last):
                base = SIMROOT + ''.join('/' + s[1] for s in stack[1:])
                tgt = child.target if child.target.startswith('/') else base + '/' + child.target
                rest = '/'.join(parts[n + 1:])
                return self.walk(tgt + ('/' + rest if rest else ''), follow, depth + 1)
            stack.append((cur, name, child))
        parent, name, inode = stack[-1]
        if trailing and inode is not None and inode.kind != 'd':
            raise oserr(errno.ENOTDIR, orig)
        return parent, name, inode

    def lookup(self, path, follow=True):
        parent, name, inode = self.walk(path, follow)
        if inode is None:
            raise oserr(errno.ENOENT, path)
        return inode

    def _new(self, kind, mode):
        i = Inode(self.next_ino, kind, mode, self.clock())
        self.next_ino += 1
        self.inodes[i.ino] = i
        return i

    def used(self):
        return sum(len(i.data) for i in self.inodes.values() if i.kind == 'f')

    def _alive(self, path=None):
        if self.pid() in self.dead:
            raise SimCrash()

    def _op(self, op, path, **kw):
        self._alive()
        self.hook(op, path, **kw)
        self._alive()

    # -- system calls -------------------------------------------------------------------------

    def open(self, path, flags, mode=0o777):
        p = self.abspath(path)
        acc = flags & O_ACCMODE
        self._op('open_w' if acc != os.O_RDONLY or flags & (os.O_CREAT | os.O_TRUNC) else 'open_r', p)
        parent, name, inode = self.walk(p, follow=not (flags & getattr(os, 'O_NOFOLLOW', 0)))
        if inode is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            if parent is None or p.endswith('/'):
                raise oserr(errno.EISDIR, path)
            inode = self._new('f', mode & ~self.umask)
            parent.entries[name] = inode.ino
            parent.mtime = self.clock()
            self._journal()
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, path)
            if inode.kind == 'l':
                raise oserr(errno.ELOOP, path)
            if inode.kind == 'd' and acc != os.O_RDONLY:
                raise oserr(errno.EISDIR, path)
            if flags & os.O_TRUNC and inode.kind == 'f' and acc != os.O_RDONLY:
                if inode.data:
                    del inode.data[:]
                    inode.pending.append(('t', 0, None))
                inode.mtime = self.clock()
        fd = os_dup_null()
        self.fds[fd] = OpenFile(inode, flags, p, self.pid())
        return fd

    def of(self, fd):
        try:
            return self.fds[fd]
        except KeyError:
            raise oserr(errno.EBADF)

    def close(self, fd):
        of = self.fds.get(fd)
        if of is None:
            # dropped by a simulated crash; release the placeholder number
            return
        dead = self.pid() in self.dead
        del self.fds[fd]
        of.closed = True
        if of.inode.lock is of:
            of.inode.lock = None
        os_real_close(fd)
        if not dead:
            self._op('close', of.path, idle=bool(of.flags & O_ACCMODE) and not of.wrote)

    def read(self, fd, n):
        of = self.of(fd)
        if of.inode.kind == 'd':
            raise oserr(errno.EISDIR)
        self._op('read', of.path)
        if self.read_chunk and n > 0:
            n = max(1, min(n, self.read_chunk(n)))
        b = bytes(of.inode.data[of.pos:of.pos + n])
        of.pos += len(b)
        return b

    def write(self, fd, b):
        of = self.of(fd)
        if self.pid() in self.dead:
            return len(b)
        if of.flags & O_ACCMODE == os.O_RDONLY:
            raise oserr(errno.EBADF)
        b = bytes(b)
        r = self.hook_write(of, len(b))
        n = len(b)
        if r is not None:
            n, exc = r
            n = min(n, len(b))
        else:
            exc = None
            if self.write_chunk and n > 0:
                n = max(1, min(n, self.write_chunk(n)))
        if self.limit is not None and of.inode.kind == 'f':
            room = self.limit - self.used()
            if n > room:
                n = max(0, room)
                if n == 0:
                    raise oserr(errno.ENOSPC, None)
        if n:
            of.wrote = True
            self._store(of, b[:n])
        if exc is not None:
            if isinstance(exc, SimCrash) or n == 0:
                raise exc
            # POSIX: a partial transfer is reported as success, the error comes with the next call
            self.sticky = (of, exc)
        return n

    sticky = None

    def hook_write(self, of, n):
        """Let the world decide; returns None (proceed) or (bytes to store, exception or None)."""
        if self.sticky is not None and self.sticky[0] is of:
            exc = self.sticky[1]
            self.sticky = None
            return 0, exc
        self._alive()
        r = self.hook('write', of.path, size=n)
        self._alive()
        return r

    def _store(self, of, b):
        i = of.inode
        if of.flags & os.O_APPEND:
            of.pos = len(i.data)
        if len(i.data) < of.pos:
            i.data.extend(b'\0' * (of.pos - len(i.data)))
        i.data[of.pos:of.pos + len(b)] = b
        if i.kind == 'f':
            i.pending.append(('w', of.pos, b))
        of.pos += len(b)
        i.mtime = self.clock()

    def lseek(self, fd, pos, whence=0):
        of = self.of(fd)
        if whence == 0:
            np = pos
        elif whence == 1:
            np = of.pos + pos
        else:
            np = len(of.inode.data) + pos
        if np < 0:
            raise oserr(errno.EINVAL)
        of.pos = np
        return np

    def ftruncate(self, fd, n):
        of = self.of(fd)
        self._op('truncate', of.path)
        i = of.inode
        if n < len(i.data):
            del i.data[n:]
        else:
            i.data.extend(b'\0' * (n - len(i.data)))
        i.pending.append(('t', n, None))
        i.mtime = self.clock()

    def fsync(self, fd):
        of = self.of(fd)
        self._op('fsync', of.path, dir=of.inode.kind == 'd')
        if of.inode.kind == 'd':
            self._commit_ns()
        else:
            of.inode.synced = bytes(of.inode.data)
            of.inode.pending = []

    def _stat(self, i):
        fmt = {'f': statmod.S_IFREG, 'd': statmod.S_IFDIR, 'l': statmod.S_IFLNK, 'c': statmod.S_IFCHR}[i.kind]
        size = len(i.data) if i.kind == 'f' else (len(i.target) if i.kind == 'l' else 0)
        nlink = sum(1 for d in self.inodes.values() if d.kind == 'd' for e in d.entries.values() if e == i.ino)
        m = int(i.mtime)
        ns = int(i.mtime * 10 ** 9)
        return os.stat_result((fmt | i.mode, i.ino, 77, nlink, 0, 0, size, m, m, m),
                              {'st_atime': i.mtime, 'st_mtime': i.mtime, 'st_ctime': i.mtime,
                               'st_atime_ns': ns, 'st_mtime_ns': ns, 'st_ctime_ns': ns,
                               'st_blksize': 4096, 'st_blocks': (size + 511) // 512, 'st_rdev': 0})

    def fstat(self, fd):
        return self._stat(self.of(fd).inode)

    def stat(self, path, follow=True):
        p = self.abspath(path)
        self._op('stat', p)
        i = self.lookup(path, follow)
        return self._stat(i)

    def access(self, path, mode):
        try:
            self.stat(path)
            return True
        except OSError:
            return False

    def _one_device(self, a, b):
        """The directory for temporary files is a file system of its own."""
        if a.startswith(TMP) != b.startswith(TMP):
            raise oserr(errno.EXDEV, a, b)

    def rename(self, src, dst):
        a, b = self.abspath(src), self.abspath(dst)
        self._op('rename', b, src=a)
        self._one_device(a, b)
        sp, sn, si = self.walk(a, follow=False)
        if si is None:
            raise oserr(errno.ENOENT, src, dst)
        dp, dn, di = self.walk(b, follow=False)
        if dp is None or sp is None:
            raise oserr(errno.EBUSY, src, dst)
        if di is not None:
            if di is si:
                return
            if di.kind == 'd' and si.kind != 'd':
                raise oserr(errno.EISDIR, src, dst)
            if di.kind != 'd' and si.kind == 'd':
                raise oserr(errno.ENOTDIR, src, dst)
            if di.kind == 'd' and di.entries:
                raise oserr(errno.ENOTEMPTY, src, dst)
        del sp.entries[sn]
        dp.entries[dn] = si.ino
        self._journal()

    no_links = False        # a file system without hard links

    def link(self, src, dst):
        a, b = self.abspath(src), self.abspath(dst)
        self._op('link', b, src=a)
        self._one_device(a, b)
        if self.no_links:
            raise oserr(errno.EPERM, src, dst)
        si = self.lookup(a, follow=False)
        dp, dn, di = self.walk(b, follow=False)
        if di is not None:
            raise oserr(errno.EEXIST, src, dst)
        dp.entries[dn] = si.ino
        self._journal()

    def symlink(self, target, dst):
        b = self.abspath(dst)
        self._op('symlink', b)
        dp, dn, di = self.walk(b, follow=False)
        if di is not None:
            raise oserr(errno.EEXIST, target, dst)
        i = self._new('l', 0o777)
        i.target = os.fsdecode(os.fspath(target))
        dp.entries[dn] = i.ino
        self._journal()

    def readlink(self, path):
        i = self.lookup(path, follow=False)
        if i.kind != 'l':
            raise oserr(errno.EINVAL, path)
        return i.target

    def unlink(self, path):
        p = self.abspath(path)
        self._op('unlink', p)
        dp, dn, di = self.walk(p, follow=False)
        if di is None:
            raise oserr(errno.ENOENT, path)
        if di.kind == 'd':
            raise oserr(errno.EISDIR, path)
        del dp.entries[dn]
        self._journal()

    def mkdir(self, path, mode=0o777):
        p = self.abspath(path)
        self._op('mkdir', p)
        dp, dn, di = self.walk(p.rstrip('/'), follow=False)
        if di is not None or dp is None:
            raise oserr(errno.EEXIST, path)
        i = self._new('d', mode & ~self.umask)
        dp.entries[dn] = i.ino
        self._journal()

    def rmdir(self, path):
        p = self.abspath(path)
        self._op('rmdir', p)
        dp, dn, di = self.walk(p, follow=False)
        if di is None:
            raise oserr(errno.ENOENT, path)
        if di.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        if di.entries:
            raise oserr(errno.ENOTEMPTY, path)
        del dp.entries[dn]
        self._journal()

    def listdir(self, path):
        p = self.abspath(path)
        self._op('listdir', p)
        i = self.lookup(p)
        if i.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        return sorted(i.entries)

    def chmod(self, path, mode, follow=True):
        p = self.abspath(path)
        self._op('chmod', p)
        self.lookup(p, follow).mode = mode & 0o7777

    def fchmod(self, fd, mode):
        of = self.of(fd)
        self._op('chmod', of.path)
        of.inode.mode = mode & 0o7777

    def utime(self, path, times=None, ns=None, follow=True):
        i = self.of(path).inode if isinstance(path, int) else self.lookup(path, follow)
        if ns is not None:
            i.mtime = ns[1] / 1e9
        elif times is not None:
            i.mtime = float(times[1])
        else:
            i.mtime = self.clock()

    def flock(self, fd, op):
        import fcntl
        of = self.of(fd)
        if op & fcntl.LOCK_UN:
            if of.inode.lock is of:
                of.inode.lock = None
            return
        self._op('flock', of.path)
        if of.inode.lock is not None and of.inode.lock is not of:
            if op & fcntl.LOCK_NB:
                raise oserr(errno.EWOULDBLOCK)
            raise RuntimeError('blocking flock not simulated')
        of.inode.lock = of

    # -- harness access: no hooks, no faults ---------------------------------------------------

    def peek(self, path):
        """Contents of a file, None if there is no such file."""
        try:
            i = self.lookup(path)
        except OSError:
            return None
        return bytes(i.data) if i.kind == 'f' else None

    def peek_mode(self, path):
        return self.lookup(path).mode

    def _install(self, d, name, node):
        """A durable name made by somebody else: in the live state and in every state a power loss may bring back."""
        d.entries[name] = node.ino
        for snap in [self.committed_ns] + self.journal:
            snap.setdefault(d.ino, {})[name] = node.ino
            if node.kind == 'd':
                snap.setdefault(node.ino, {})

    def put_dir(self, path):
        d = self.root
        for name in self._parts(self.abspath(path)):
            if name not in d.entries:
                self._install(d, name, self._new('d', 0o755))
            d = self.inodes[d.entries[name]]
        return d

    def put(self, path, data, mode=0o644):
        """Install a durable file."""
        path = self.abspath(path)
        d = self.put_dir(path.rsplit('/', 1)[0])
        name = path.rsplit('/', 1)[1]
        if name in d.entries:
            i = self.inodes[d.entries[name]]
            self._install(d, name, i)
        else:
            i = self._new('f', mode)
            self._install(d, name, i)
        i.data = bytearray(data)
        i.synced = bytes(data)
        i.pending = []
        i.mtime = self.clock()

    def drop(self, path):
        """Remove a name for good, everywhere."""
        dp, dn, di = self.walk(path, follow=False)
        if di is None:
            return
        for snap in [self.committed_ns] + self.journal:
            snap.get(dp.ino, {}).pop(dn, None)
        dp.entries.pop(dn, None)

    def put_link(self, path, old):
        """Another name for a file."""
        d = self.put_dir(self.abspath(path).rsplit('/', 1)[0])
        self._install(d, path.rsplit('/', 1)[1], self.walk(old)[2])

    def put_symlink(self, path, target):
        dp, dn, di = self.walk(path, follow=False)
        i = self._new('l', 0o777)
        i.target = target
        self._install(dp, dn, i)

    def tree(self):
        """All regular files: path -> bytes."""
        out = {}

        def rec(d, p):
            for n, ino in sorted(d.entries.items()):
                i = self.inodes[ino]
                if i.kind == 'd':
                    rec(i, p + '/' + n)
                elif i.kind == 'f':
                    out[p + '/' + n] = bytes(i.data)
                else:
                    out[p + '/' + n] = '-> ' + str(i.target)

        rec(self.root, SIMROOT)
        return out


# The numbers of simulated descriptors come from the real table, so that they never collide with a
# real descriptor, and point at /dev/null in case something unsimulated uses one.
_null = [None]
_real = {}


def os_dup_null():
    if _null[0] is None:
        _null[0] = _real.get('open', os.open)('/dev/null', os.O_RDWR)
    return _real.get('dup', os.dup)(_null[0])


def os_real_close(fd):
    _real.get('close', os.close)(fd)


class SimRaw(io.RawIOBase):
    """Raw file object over a simulated descriptor (what FileIO is to a real one)."""

    def __init__(self, fs, fd, name, readable, writable, appending, closefd=True):
        self._fs = fs
        self._fd = fd
        self.name = name
        self._r = readable
        self._w = writable
        self._a = appending
        self._closefd = closefd
        self.mode = ('ab' if appending else 'rb+' if readable and writable else 'wb' if writable else 'rb')

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation('File not open for reading')
        data = self._fs.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            b = self._fs.read(self._fd, 8192)
            if not b:
                return b''.join(out)
            out.append(b)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation('File not open for writing')
        return self._fs.write(self._fd, b)

    def seek(self, pos, whence=0):
        return self._fs.lseek(self._fd, pos, whence)

    def tell(self):
        return self._fs.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd:
                self._fs.close(self._fd)


def sim_open(fs, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    """io.open() over the simulated disk."""
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = 'x' in modes, 'r' in modes, 'w' in modes, 'a' in modes
    updating, text, binary = '+' in modes, 't' in modes, 'b' in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError('Must have exactly one of create/read/write/append mode and at most one plus')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    flags = getattr(os, 'O_CLOEXEC', 0)
    if creating:
        flags |= os.O_EXCL | os.O_CREAT
    elif writing:
        flags |= os.O_CREAT | os.O_TRUNC
    elif appending:
        flags |= os.O_APPEND | os.O_CREAT
    if updating:
        flags |= os.O_RDWR
    elif reading:
        flags |= os.O_RDONLY
    else:
        flags |= os.O_WRONLY
    if isinstance(file, int):
        fd = file
        own = closefd
    else:
        own = True
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = fs.open(file, flags, 0o666)
        if fd not in fs.fds:  # the opener opened something real
            return _real['io_open'](fd, mode, buffering, encoding, errors, newline)
        if fs.fds[fd].inode.kind == 'd':
            fs.close(fd)
            raise oserr(errno.EISDIR, file)
    raw = SimRaw(fs, fd, file, reading or updating, not reading or updating, appending, own)
    result = raw
    try:
        if appending:
            raw.seek(0, 2)
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        line_buffering = buffering == 1 and not binary
        if buffering < 0 or buffering == 1:
            buffering = io.DEFAULT_BUFFER_SIZE
        if updating:
            buf = io.BufferedRandom(raw, buffering)
        elif not reading:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        result = buf
        if binary:
            return buf
        if encoding is None:
            encoding = 'utf-8'
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        result = t
        t.mode = mode
        return t
    except BaseException:
        result.close()
        raise
