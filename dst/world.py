"""Stand-ins for the host modules pywasm imports, all backed by the current simulated Kernel, and the loader that
runs pywasm's real source files on top of them.

The seam is Python's import statement: pywasm's modules are executed with a private __import__ and open(), so whichever
way the code under test spells its imports it gets the simulated world. Nothing in /repo has to change for this.
"""
import builtins
import errno
import importlib.util
import io
import math
import os as ros
import socket as rsocket
import stat as rstat
import sys as rsys
import types

from .kernel import (Kernel, SimHang, SimUnsupported, NS, err, O_NONBLOCK, O_APPEND)

REPO = ros.environ.get('PYWASM_REPO', '/repo')

_code = {}


class _Cur:
    k = None


cur = _Cur()


def K():
    return cur.k


def _bytes_path(p):
    if isinstance(p, int) and not isinstance(p, bool):
        return p
    if hasattr(p, '__fspath__'):
        p = p.__fspath__()
    if isinstance(p, str):
        b = p.encode('utf-8', 'surrogateescape')
    elif isinstance(p, (bytes, bytearray)):
        b = bytes(p)
    else:
        raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(p).__name__)
    if b'\0' in b:
        raise ValueError('embedded null byte')
    return b


def _fd_of(x):
    if isinstance(x, int):
        return x
    return x.fileno()


def _name_out(b, like):
    return b if isinstance(like, (bytes, bytearray)) else b.decode('utf-8', 'surrogateescape')


# ---- os --------------------------------------------------------------------------------------------------------------

_PURE = {'fsencode', 'fsdecode', 'fspath', 'strerror', 'PathLike', 'error', 'stat_result', 'WIFEXITED', 'WEXITSTATUS',
         'major', 'minor', 'makedev', 'get_exec_path', 'getpid', 'getppid', 'cpu_count', 'sysconf', 'uname',
         'terminal_size', 'name', 'linesep', 'sep', 'altsep', 'extsep', 'curdir', 'pardir', 'pathsep', 'devnull',
         'supports_bytes_environ', 'SEEK_SET', 'SEEK_CUR', 'SEEK_END', '__all__', '__name__', '__doc__', '_exit_never'}


class SimOS(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__') or name in self.__dict__.get('lacks', ()):
            raise AttributeError("module 'os' has no attribute %r" % name)
        v = getattr(ros, name)
        if name in _PURE or isinstance(v, (int, str, bytes, float)) or name.startswith(('O_', 'F_', 'SEEK_')):
            return v

        def unsupported(*a, **kw):
            raise SimUnsupported('os.' + name)
        return unsupported


class DirEntry:
    def __init__(self, name, base, dir_fd, node):
        self._n, self.name, self._dirfd, self._base = node, name, dir_fd, base
        if base is None or isinstance(base, int):
            self.path = name
        else:
            self.path = ros.path.join(base, name)

    def __fspath__(self):
        return self.path

    def inode(self):
        return self._n.ino

    def _get(self, follow):
        if self._n.kind != 'lnk':
            return self._n
        if not follow:
            return self._n
        try:
            if isinstance(self._base, int):
                return K().walk(_bytes_path(self.name), self._base, True)
            return K().walk(_bytes_path(self.path), None, True)
        except OSError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        n = self._get(follow_symlinks)
        return n is not None and n.kind == 'dir'

    def is_file(self, *, follow_symlinks=True):
        n = self._get(follow_symlinks)
        return n is not None and n.kind == 'reg'

    def is_symlink(self):
        return self._n.kind == 'lnk'

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        if isinstance(self._base, int):
            return K().stat(_bytes_path(self.name), self._base, follow_symlinks)
        return K().stat(_bytes_path(self.path), None, follow_symlinks)


class ScanDir:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._it = iter(())

    def close(self):
        self._it = iter(())


def _mk_os():
    o = SimOS('os')

    def deco(f):
        setattr(o, f.__name__, f)
        return f

    @deco
    def open(path, flags, mode=0o777, *, dir_fd=None):
        return K().open(_bytes_path(path), flags, mode, dir_fd)

    @deco
    def close(fd):
        return K().close(fd)

    @deco
    def closerange(a, b):
        for fd in range(a, b):
            try:
                K().close(fd)
            except OSError:
                pass

    @deco
    def dup(fd, /):
        return K().dup(fd)

    @deco
    def dup2(fd, fd2, inheritable=True):
        return K().dup2(fd, fd2)

    @deco
    def read(fd, n, /):
        return K().read(fd, n)

    @deco
    def write(fd, data, /):
        return K().write(fd, bytes(data))

    @deco
    def pread(fd, n, off, /):
        return K().pread(fd, n, off)

    @deco
    def pwrite(fd, data, off, /):
        return K().pwrite(fd, bytes(data), off)

    def scatter(data, bufs):
        off = 0
        for b in bufs:
            mv = memoryview(b).cast('B')
            part = data[off:off + len(mv)]
            mv[:len(part)] = part
            off += len(part)
            if off >= len(data):
                break
        return len(data)

    @deco
    def readv(fd, bufs, /):
        bufs = list(bufs)
        if len(bufs) > 1024:
            raise err(errno.EINVAL)
        return scatter(K().read(fd, sum(len(memoryview(b).cast('B')) for b in bufs)), bufs)

    @deco
    def preadv(fd, bufs, off, flags=0, /):
        bufs = list(bufs)
        if len(bufs) > 1024:
            raise err(errno.EINVAL)
        return scatter(K().pread(fd, sum(len(memoryview(b).cast('B')) for b in bufs), off), bufs)

    @deco
    def writev(fd, bufs, /):
        bufs = list(bufs)
        if len(bufs) > 1024:
            raise err(errno.EINVAL)
        return K().write(fd, b''.join(bytes(b) for b in bufs))

    @deco
    def pwritev(fd, bufs, off, flags=0, /):
        bufs = list(bufs)
        if len(bufs) > 1024:
            raise err(errno.EINVAL)
        return K().pwrite(fd, b''.join(bytes(b) for b in bufs), off)

    @deco
    def lseek(fd, off, how, /):
        return K().lseek(fd, off, how)

    @deco
    def fstat(fd):
        return K().fstat(fd)

    @deco
    def stat(path, *, dir_fd=None, follow_symlinks=True):
        p = _bytes_path(path)
        if isinstance(p, int):
            if dir_fd is not None:
                raise ValueError("stat: can't specify dir_fd without matching path")
            if not follow_symlinks:
                raise ValueError('stat: cannot use fd and follow_symlinks together')
        return K().stat(p, dir_fd, bool(follow_symlinks))

    @deco
    def lstat(path, *, dir_fd=None):
        return K().stat(_bytes_path(path), dir_fd, False)

    def order(names):
        return names[::-1] if K().seed & 1 else names

    @deco
    def listdir(path='.'):
        p = _bytes_path(path)
        n, names = K().listdir(p)
        return [_name_out(b, path if not isinstance(path, int) else '') for b in order(names)]

    @deco
    def scandir(path='.'):
        p = _bytes_path(path)
        n, names = K().listdir(p)
        k = K()
        like = path if not isinstance(path, int) else ''
        return ScanDir([DirEntry(_name_out(b, like), path, None, k.inodes[n.ents[b]]) for b in order(names)])

    @deco
    def mkdir(path, mode=0o777, *, dir_fd=None):
        return K().mkdir(_bytes_path(path), mode, dir_fd)

    @deco
    def rmdir(path, *, dir_fd=None):
        return K().rmdir(_bytes_path(path), dir_fd)

    @deco
    def unlink(path, *, dir_fd=None):
        return K().unlink(_bytes_path(path), dir_fd)

    o.remove = unlink

    @deco
    def link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        return K().link(_bytes_path(src), _bytes_path(dst), src_dir_fd, dst_dir_fd, bool(follow_symlinks))

    @deco
    def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        return K().symlink(_bytes_path(src), _bytes_path(dst), dir_fd)

    @deco
    def readlink(path, *, dir_fd=None):
        return _name_out(K().readlink(_bytes_path(path), dir_fd), path)

    @deco
    def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        return K().rename(_bytes_path(src), _bytes_path(dst), src_dir_fd, dst_dir_fd)

    o.replace = rename

    @deco
    def utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        if times is not None and ns is not None:
            raise ValueError("utime: you may specify either 'times' or 'ns' but not both")
        p = _bytes_path(path)
        if ns is not None:
            for e in ns:
                if not (-(1 << 63) <= e // NS < 1 << 63):
                    raise OverflowError('timestamp out of range for platform time_t')
            t = (int(ns[0]), int(ns[1]))
        elif times is not None:
            t = (int(times[0] * NS), int(times[1] * NS))
        else:
            t = None
        if isinstance(p, int) and (dir_fd is not None or not follow_symlinks):
            raise ValueError('utime: cannot use fd and follow_symlinks/dir_fd together')
        return K().utime(p, t, dir_fd, bool(follow_symlinks))

    @deco
    def chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
        return K().chmod(_bytes_path(path), mode, dir_fd, follow_symlinks)

    @deco
    def fchmod(fd, mode):
        return K().chmod(fd, mode)

    @deco
    def truncate(path, length):
        p = _bytes_path(path)
        return K().ftruncate(p, length) if isinstance(p, int) else K().truncate(p, length)

    @deco
    def ftruncate(fd, length, /):
        return K().ftruncate(fd, length)

    @deco
    def fsync(fd):
        return K().fsync(_fd_of(fd))

    @deco
    def fdatasync(fd):
        return K().fsync(_fd_of(fd), 'fdatasync')

    @deco
    def sync():
        return K().sync_all()

    @deco
    def posix_fallocate(fd, off, n, /):
        return K().fallocate(fd, off, n)

    @deco
    def posix_fadvise(fd, off, n, advice, /):
        for v in (off, n):
            if v >= 1 << 63 or v < -(1 << 63):
                raise OverflowError('Python int too large to convert to C long')
        K().enter('misc', 'posix_fadvise', fd)
        f = K().ofd(fd, 'fadvise')
        if f.inode is None or f.inode.kind == 'fifo':
            raise err(errno.ESPIPE)
        if n < 0 or advice not in range(6):
            raise err(errno.EINVAL)

    def get_terminal_size(fd=1, /):
        raise err(errno.ENOTTY)
    o.get_terminal_size = get_terminal_size

    @deco
    def isatty(fd, /):
        K().enter('misc', 'isatty', fd)
        e = K().fds.get(fd)
        return e is not None and e.ofd.inode is not None and e.ofd.inode.kind == 'chr'

    @deco
    def get_blocking(fd, /):
        return not K().getfl(fd) & O_NONBLOCK

    @deco
    def set_blocking(fd, blocking, /):
        fl = K().getfl(fd)
        K().setfl(fd, fl & ~O_NONBLOCK if blocking else fl | O_NONBLOCK)

    @deco
    def get_inheritable(fd, /):
        K().ofd(fd, 'get_inheritable', True)
        return False

    @deco
    def set_inheritable(fd, inh, /):
        K().ofd(fd, 'set_inheritable', True)

    @deco
    def urandom(n, /):
        if n < 0:
            raise ValueError('negative argument not allowed')
        return K().entropy(n)

    @deco
    def getrandom(n, flags=0):
        # A single getrandom() may legitimately deliver less than asked once more than 256 bytes are requested.
        if n < 0:
            raise err(errno.EINVAL)
        return K().entropy(min(n, 256) if n > 256 and K().seed & 2 else n)

    @deco
    def access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        try:
            K().stat(_bytes_path(path), dir_fd, follow_symlinks)
        except OSError:
            return False
        return True

    @deco
    def getcwd():
        k = K()
        n, parts = k.cwd, []
        while n is not k.root:
            p = k.inodes[n.parent]
            for name, i in p.ents.items():
                if i == n.ino:
                    parts.append(name)
                    break
            else:
                raise err(errno.ENOENT)
            n = p
        return '/' + '/'.join(x.decode('utf-8', 'surrogateescape') for x in reversed(parts))

    @deco
    def getcwdb():
        return getcwd().encode('utf-8', 'surrogateescape')

    @deco
    def pipe():
        return K().pipe()

    @deco
    def fchdir(fd):
        K().enter('lookup', 'fchdir', fd)
        k = K()
        f = k.ofd(fd, 'fchdir', True)
        if f.inode is None or f.inode.kind != 'dir':
            raise err(errno.ENOTDIR)
        k.cwd = f.inode

    @deco
    def chdir(path):
        p = _bytes_path(path)
        if isinstance(p, int):
            return fchdir(p)
        K().enter('lookup', 'chdir', p)
        n = K().walk(p)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        K().cwd = n

    @deco
    def makedirs(name, mode=0o777, exist_ok=False):
        head, tail = o.path.split(name)
        if not tail:
            head, tail = o.path.split(head)
        if head and tail and not o.path.exists(head):
            makedirs(head, exist_ok=exist_ok)
        try:
            mkdir(name, mode)
        except OSError:
            if not exist_ok or not o.path.isdir(name):
                raise

    @deco
    def fdopen(fd, mode='r', buffering=-1, encoding=None, *a, **kw):
        return sim_open(fd, mode, buffering, encoding, *a, **kw)

    @deco
    def getenv(key, default=None):
        return default

    @deco
    def sched_yield():
        K().enter('misc', 'sched_yield')

    @deco
    def umask(m):
        k = K()
        old, k.umask = k.umask, m & 0o777
        return old

    o.register_at_fork = lambda **kw: None
    o.environ = {}
    o.supports_dir_fd = {f for n, f in o.__dict__.items() if callable(f) and n in (
        'open', 'stat', 'mkdir', 'rmdir', 'unlink', 'link', 'symlink', 'readlink', 'rename', 'utime', 'access', 'chmod')}
    o.supports_follow_symlinks = {o.stat, o.link, o.utime, o.chmod}
    o.supports_fd = {o.stat, o.listdir, o.scandir, o.utime, o.truncate, o.chmod, o.chdir}
    o.supports_effective_ids = set()
    return o


# ---- file objects ----------------------------------------------------------------------------------------------------

class SimRaw(io.RawIOBase):
    def __init__(self, fd, readable, writable, name, closefd=True, append=False):
        self._fd, self._r, self._w, self.name, self._closefd = fd, readable, writable, name, closefd
        self._k = cur.k

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        try:
            K().lseek(self._fd, 0, 1)
            return True
        except OSError:
            return False

    def isatty(self):
        return False

    def readinto(self, b):
        try:
            data = K().read(self._fd, len(b))
        except BlockingIOError:
            return None
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            d = K().read(self._fd, 65536)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        return K().write(self._fd, bytes(b))

    def seek(self, off, whence=0):
        return K().lseek(self._fd, off, whence)

    def tell(self):
        return K().lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        K().ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and cur.k is self._k:
                    K().close(self._fd)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    base = mode.replace('b', '').replace('t', '')
    plus = '+' in base
    kind = base.replace('+', '')
    flags = {'r': ros.O_RDONLY, 'w': ros.O_WRONLY | ros.O_CREAT | ros.O_TRUNC,
             'a': ros.O_WRONLY | ros.O_CREAT | ros.O_APPEND, 'x': ros.O_WRONLY | ros.O_CREAT | ros.O_EXCL}[kind]
    if plus:
        flags = (flags & ~ros.O_WRONLY) | ros.O_RDWR
    if isinstance(file, int):
        fd = file
        K().ofd(fd, 'fdopen', True)
    elif opener is not None:
        fd = opener(file, flags)
        closefd = True
    else:
        fd = K().open(_bytes_path(file), flags | ros.O_CLOEXEC, 0o666)
    if K().fds[fd].ofd.inode is not None and K().fds[fd].ofd.inode.kind == 'dir':
        if not isinstance(file, int):
            K().close(fd)
        raise err(errno.EISDIR, file)
    raw = SimRaw(fd, kind == 'r' or plus, kind != 'r' or plus, file, closefd)
    if 'b' in mode and buffering == 0:
        return raw
    if plus:
        buf = io.BufferedRandom(raw)
    elif kind == 'r':
        buf = io.BufferedReader(raw)
    else:
        buf = io.BufferedWriter(raw)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)


class SimIO(types.ModuleType):
    open = staticmethod(sim_open)

    def __getattr__(self, name):
        return getattr(io, name)


# ---- time ------------------------------------------------------------------------------------------------------------

class SimTime(types.ModuleType):
    def __getattr__(self, name):
        import time
        if name in ('struct_time', 'gmtime', 'strftime', 'mktime', 'timegm', 'strptime', 'localtime', 'asctime', 'ctime',
                    'timezone', 'tzname', 'daylight', 'altzone') or name.startswith('CLOCK_'):
            return getattr(time, name)

        def unsupported(*a, **kw):
            raise SimUnsupported('time.' + name)
        return unsupported


def _mk_time():
    import time as rtime
    t = SimTime('time')
    for name, which in [('time', 'real'), ('monotonic', 'mono'), ('perf_counter', 'mono'), ('process_time', 'cpu'),
                        ('thread_time', 'thr')]:
        setattr(t, name, lambda w=which: K().clock(w) / NS)
        setattr(t, name + '_ns', lambda w=which: K().clock(w))
    t.sleep = lambda s: K().sleep(int(s * NS))
    ids = {rtime.CLOCK_REALTIME: 'real', rtime.CLOCK_MONOTONIC: 'mono', rtime.CLOCK_PROCESS_CPUTIME_ID: 'cpu',
           rtime.CLOCK_THREAD_CPUTIME_ID: 'thr', rtime.CLOCK_MONOTONIC_RAW: 'mono', rtime.CLOCK_BOOTTIME: 'mono'}

    def clock_gettime_ns(c):
        if c not in ids:
            raise err(errno.EINVAL)
        return K().clock(ids[c])
    t.clock_gettime_ns = clock_gettime_ns
    t.clock_gettime = lambda c: clock_gettime_ns(c) / NS

    def clock_getres(c):
        if c not in ids:
            raise err(errno.EINVAL)
        return 1e-9
    t.clock_getres = clock_getres
    t.get_clock_info = lambda n: types.SimpleNamespace(resolution=1e-9, monotonic=n != 'time', adjustable=n == 'time',
                                                       implementation='sim')
    return t


# ---- select ----------------------------------------------------------------------------------------------------------

class SimSelect(types.ModuleType):
    def __getattr__(self, name):
        import select
        v = getattr(select, name)
        if isinstance(v, int) or name == 'error':
            return v
        raise SimUnsupported('select.' + name)


class SimPoll:
    def __init__(self):
        self.reg = {}

    def register(self, fd, mask=0x7):
        self.reg[_fd_of(fd)] = mask

    modify = register

    def unregister(self, fd):
        del self.reg[_fd_of(fd)]

    def poll(self, timeout=None):
        # like CPython, which never lets a poll end early
        ns = None if timeout is None or timeout < 0 else math.ceil(timeout) * 1_000_000
        return self._poll(ns)

    def _poll(self, ns):
        good = [fd for fd in self.reg if fd in K().fds]
        bad = [(fd, 0x20) for fd in self.reg if fd not in K().fds]
        if bad:
            ns = 0
        r, w = K().select([fd for fd in good if self.reg[fd] & 1], [fd for fd in good if self.reg[fd] & 4], [], ns, 'poll')
        out = []
        for fd in good:
            m = (1 if fd in r else 0) | (4 if fd in w else 0)
            o = K().fds[fd].ofd
            if o.chan_r is not None and o.chan_r.eof or o.sock is not None and o.sock.state == 'reset':
                m |= 0x10
            if m:
                out.append((fd, m))
        return out + bad


class SimEpoll(SimPoll):
    def poll(self, timeout=None, maxevents=-1):
        ns = None if timeout is None or timeout < 0 else math.ceil(timeout * 1000) * 1_000_000
        return self._poll(ns)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _mk_select():
    s = SimSelect('select')

    def select(rl, wl, xl, timeout=None):
        rmap = [(x, _fd_of(x)) for x in rl]
        wmap = [(x, _fd_of(x)) for x in wl]
        if timeout is not None:
            if timeout < 0:
                raise ValueError('timeout must be non-negative')
            ns = math.ceil(timeout * NS) if not isinstance(timeout, int) else timeout * NS
            ns = -(-ns // 1000) * 1000
            if ns > (1 << 63) - 1:
                raise OverflowError('timestamp too large to convert to C PyTime_t')
        else:
            ns = None
        for _, fd in rmap + wmap:
            if fd < 0 or fd >= 1024:
                raise ValueError('filedescriptor out of range in select()')
        r, w = K().select([fd for _, fd in rmap], [fd for _, fd in wmap], [_fd_of(x) for x in xl], ns)
        return [x for x, fd in rmap if fd in r], [x for x, fd in wmap if fd in w], []
    s.select = select
    s.poll = SimPoll
    s.epoll = lambda *a, **kw: SimEpoll()
    return s


# ---- socket ----------------------------------------------------------------------------------------------------------

class SimSocketModule(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(rsocket, name)
        if isinstance(v, (int, str)) or isinstance(v, type) and issubclass(v, (Exception, int)):
            return v

        def unsupported(*a, **kw):
            raise SimUnsupported('socket.' + name)
        return unsupported


class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self._fd = -1
        self._k = cur.k
        if fileno is None:
            raise SimUnsupported('socket.socket() without fileno')
        # No fault here: getsockname() on a fresh descriptor does not fail, and CPython itself would lose the descriptor.
        o = K().sock_ofd(fileno, 'socket')
        self._fd = fileno
        self.family = rsocket.AF_INET if family == -1 else family
        self.type = (rsocket.SOCK_DGRAM if o.sock.type == 'dgram' else rsocket.SOCK_STREAM) if type == -1 else type
        self.proto = 0 if proto == -1 else proto
        self._timeout = None
        if o.flags & O_NONBLOCK:
            self._timeout = None

    def _io(self, fn, cls):
        """Sockets with a Python timeout use a non-blocking descriptor and wait in select."""
        if self._timeout is None or self._timeout == 0.0:
            return fn(self._timeout == 0.0)
        o = K().sock_ofd(self._fd, 'socket')
        chk = K().readable if cls != 'send' else K().writable
        if not K().wait(lambda: chk(o), int(self._timeout * NS)):
            raise TimeoutError('timed out')
        return fn(True)

    def fileno(self):
        return self._fd

    def detach(self):
        fd, self._fd = self._fd, -1
        return fd

    def close(self):
        if self._fd != -1:
            fd, self._fd = self._fd, -1
            K().close(fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if self._fd != -1 and cur.k is self._k:
            fd, self._fd = self._fd, -1
            try:
                cur.k.close(fd)
            except OSError:
                pass

    def setblocking(self, flag):
        self.settimeout(None if flag else 0.0)

    def settimeout(self, t):
        if t is not None and t < 0:
            raise ValueError('Timeout value out of range')
        self._timeout = t
        K().enter('misc', 'setblocking', self._fd)
        o = K().sock_ofd(self._fd, 'setblocking')
        o.flags = o.flags & ~O_NONBLOCK if t is None else o.flags | O_NONBLOCK

    def gettimeout(self):
        return self._timeout

    def getblocking(self):
        return self._timeout != 0.0

    def _accept(self):
        fd = self._io(lambda nb: K().accept(self._fd, nb), 'recv')
        return fd, ('127.0.0.1', 40000 + K().fds[fd].ofd.sock.sid)

    def accept(self):
        fd, addr = self._accept()
        s = SimSocket(self.family, self.type, self.proto, fileno=fd)
        return s, addr

    def recv(self, n, flags=0):
        if n < 0:
            raise ValueError('negative buffersize in recv')
        if n == 0:
            return b''
        return self._io(lambda nb: K().recv(self._fd, n, flags, nb), 'recv')[0]

    def _recv3(self, n, flags):
        return self._io(lambda nb: K().recv(self._fd, n, flags, nb), 'recv')

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        d = self.recv(n, flags)
        memoryview(buf)[:len(d)] = d
        return len(d)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), ('127.0.0.1', 9)

    def recvfrom_into(self, buf, nbytes=0, flags=0):
        return self.recv_into(buf, nbytes, flags), ('127.0.0.1', 9)

    def recvmsg(self, n, anc=0, flags=0):
        d, fl, full = self._recv3(n, flags)
        return d, [], fl, ('127.0.0.1', 9)

    def recvmsg_into(self, bufs, anc=0, flags=0):
        bufs = [memoryview(b).cast('B') for b in bufs]
        d, fl, full = self._recv3(sum(len(b) for b in bufs), flags)
        off = 0
        for b in bufs:
            part = d[off:off + len(b)]
            b[:len(part)] = part
            off += len(part)
        return len(d), [], fl, ('127.0.0.1', 9)

    def send(self, data, flags=0):
        return self._io(lambda nb: K().send(self._fd, bytes(data), flags, nb), 'send')

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            n = self.send(data, flags)
            data = data[n:]

    def sendmsg(self, bufs, anc=(), flags=0, addr=None):
        return self.send(b''.join(bytes(b) for b in bufs), flags)

    def sendto(self, data, *a):
        return self.send(data, a[0] if len(a) == 2 else 0)

    def shutdown(self, how):
        K().shutdown(self._fd, how)

    def getsockopt(self, level, opt, *a):
        K().enter('misc', 'getsockopt', self._fd)
        s = K().sock_ofd(self._fd, 'getsockopt').sock
        if level == rsocket.SOL_SOCKET:
            if opt == rsocket.SO_TYPE:
                return rsocket.SOCK_DGRAM if s.type == 'dgram' else rsocket.SOCK_STREAM
            if opt == rsocket.SO_ERROR:
                no, s.rx.err = s.rx.err, 0
                return no
            if opt == rsocket.SO_ACCEPTCONN:
                return int(s.state == 'listen')
            if opt == rsocket.SO_DOMAIN:
                return int(rsocket.AF_INET)
        return 0

    def setsockopt(self, *a):
        K().enter('misc', 'setsockopt', self._fd)

    def getsockname(self):
        return ('127.0.0.1', 8080)

    def getpeername(self):
        s = K().sock_ofd(self._fd, 'getpeername').sock
        if s.state != 'conn':
            raise err(errno.ENOTCONN)
        return ('127.0.0.1', 40000 + s.sid)

    def dup(self):
        return SimSocket(self.family, self.type, self.proto, fileno=K().dup(self._fd))


def _mk_socket():
    s = SimSocketModule('socket')
    s.socket = SimSocket
    s.SocketType = SimSocket
    s.fromfd = lambda fd, family, type, proto=0: SimSocket(family, type, proto, fileno=K().dup(fd))
    s.error = OSError
    s.timeout = TimeoutError
    s.dup = lambda fd: K().dup(fd)

    def sclose(fd):
        K().close(fd)
    s.close = sclose
    s.has_dualstack_ipv6 = lambda: False
    return s


# ---- fcntl -----------------------------------------------------------------------------------------------------------

class SimFcntl(types.ModuleType):
    def __getattr__(self, name):
        import fcntl
        v = getattr(fcntl, name)
        if isinstance(v, int):
            return v
        raise SimUnsupported('fcntl.' + name)


def _mk_fcntl():
    import fcntl as rf
    f = SimFcntl('fcntl')

    def fcntl(fd, cmd, arg=0):
        fd = _fd_of(fd)
        if cmd == rf.F_SETFL:
            K().setfl(fd, arg)
            return 0
        if cmd == rf.F_GETFL:
            return K().getfl(fd)
        if cmd in (rf.F_DUPFD, rf.F_DUPFD_CLOEXEC):
            return K().dup(fd, arg)
        if cmd in (rf.F_GETFD, rf.F_SETFD):
            K().enter('misc', 'fcntl.fd', fd)
            K().ofd(fd, 'fcntl', True)
            return 1 if cmd == rf.F_GETFD else 0
        raise SimUnsupported('fcntl command %d' % cmd)
    f.fcntl = fcntl

    def noop(fd, *a, **kw):
        K().enter('misc', 'fcntl.lock', _fd_of(fd))
        K().ofd(_fd_of(fd), 'flock')
        return 0
    f.flock = f.lockf = noop
    return f


# ---- sys -------------------------------------------------------------------------------------------------------------

class StdStream:
    """A standard stream of the embedding process: a descriptor with a name."""

    def __init__(self, fd, name):
        self._fd, self.name = fd, name
        self.encoding, self.errors, self.closed, self.mode = 'utf-8', 'strict', False, 'r' if fd == 0 else 'w'
        self.buffer = self

    def fileno(self):
        return self._fd

    def write(self, s):
        b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else bytes(s)
        n = 0
        while n < len(b):
            n += K().write(self._fd, b[n:])
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return self._fd == 0

    def writable(self):
        return self._fd != 0

    def read(self, n=-1):
        if n is not None and n >= 0:
            return K().read(self._fd, n)
        out = b''
        while True:
            d = K().read(self._fd, 65536)
            if not d:
                return out
            out += d


class LogSink(StdStream):
    """The standard output of an embedder that switched debug logging on: a buffered text stream whose flushes are not
    the program's system calls. What is written there is the log; it may fail, as such streams do."""

    def __init__(self, fail=None, nth=0):
        StdStream.__init__(self, 1, '<stdout>')
        self.fail, self.nth = fail, nth
        self.n = self.failed = self.size = 0

    def write(self, s):
        self.n += 1
        self.size += len(s)
        e = None
        if self.fail == 'ascii':
            e = None if s.isascii() else UnicodeEncodeError('ascii', s, 0, 1, 'ordinal not in range(128)')
        elif self.fail and self.n >= self.nth:
            e = {'EPIPE': BrokenPipeError(errno.EPIPE, 'Broken pipe'), 'ENOSPC': OSError(errno.ENOSPC, 'No space left on device'),
                 'EAGAIN': BlockingIOError(errno.EAGAIN, 'write could not complete without blocking', 0),
                 'closed': ValueError('I/O operation on closed file.')}.get(self.fail)
        if e is not None:
            self.failed += 1
            raise e
        return len(s)


class SimSys(types.ModuleType):
    def __getattr__(self, name):
        return getattr(rsys, name)


def _mk_sys():
    s = SimSys('sys')
    s.stdin, s.stdout, s.stderr = StdStream(0, '<stdin>'), StdStream(1, '<stdout>'), StdStream(2, '<stderr>')
    s.__stdin__, s.__stdout__, s.__stderr__ = s.stdin, s.stdout, s.stderr
    s.platform = 'linux'
    s.exit = rsys.exit
    return s


# ---- the importer ----------------------------------------------------------------------------------------------------

_RELOAD = {'posixpath', 'genericpath', 'random', 'secrets', 'selectors', 'pathlib', 'shutil', 'tempfile', 'glob', 'argparse'}
_DENY = {'subprocess', 'multiprocessing', 'asyncio', 'mmap', 'ssl', 'socketserver', 'http', 'signal', 'pty'}


class World:
    """One loading of pywasm on one kernel. Loaded afresh for every simulated run, so that no module-level state of the
    code under test can carry anything from one run to the next."""

    log = None          # a LogSink: debug logging is switched on and the log goes there

    def __init__(self, kernel, random_seed=0, with_wasi=True, lacks=()):
        """lacks: functions and constants that the os module of this host does not have."""
        cur.k = kernel
        self.random_seed = random_seed
        self.mods = {}
        self.os = _mk_os()
        self.os.lacks = tuple(lacks)
        for n in lacks:
            self.os.__dict__.pop(n, None)
        self.mods['os'] = self.os
        self.mods['time'] = _mk_time()
        self.mods['select'] = _mk_select()
        self.mods['socket'] = _mk_socket()
        self.mods['fcntl'] = _mk_fcntl()
        self.mods['sys'] = _mk_sys()
        self.mods['io'] = SimIO('io')
        self.mods['_io'] = self.mods['io']
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self.imp
        self.builtins['open'] = sim_open
        self.builtins['print'] = self.print
        self.builtins['input'] = None
        self.os.path = self.reload('posixpath')
        self.mods['os.path'] = self.os.path
        for m in [m for m in rsys.modules if m == 'pywasm' or m.startswith('pywasm.')]:
            del rsys.modules[m]
        if self.log is not None:
            self.log.streams = (self.mods['sys'].stdout, self.mods['sys'].stderr)
            self.mods['sys'].stdout = self.log
        self.pywasm = self.load('pywasm')
        if self.log is not None and 'pywasm.log' in self.mods:
            self.mods['pywasm.log'].lvl = 1

    def print(self, *args, sep=' ', end='\n', file=None, flush=False):
        s = (sep if sep is not None else ' ').join(str(a) for a in args) + (end if end is not None else '\n')
        (file or self.mods['sys'].stdout).write(s)

    def compile(self, path):
        c = _code.get(path)
        if c is None:
            with open(path, 'rb') as f:
                src = f.read()
            c = compile(src, path, 'exec', dont_inherit=True)
            _code[path] = c
        return c

    def reload(self, name):
        """Runs a standard library module inside the simulated world."""
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = ros.path.join(ros.path.dirname(ros.__file__), name.replace('.', '/') + '.py')
        self.mods[name] = m
        exec(self.compile(m.__file__), m.__dict__)
        if name == 'random':
            # Python's own generator: seeded from the run's seed instead of the real world.
            m._inst.seed(self.random_seed)
            real = m.Random

            class Random(real):
                def __init__(s, x=None):
                    super().__init__(self.random_seed if x is None else x)

                def seed(s, a=None, version=2):
                    super().seed(self.random_seed if a is None else a, version)
            m.Random = Random
            m.seed = lambda a=None, version=2: m._inst.seed(self.random_seed if a is None else a, version)
        return m

    def load(self, name):
        """Loads a pywasm module (or package) from the repository."""
        if name in self.mods:
            return self.mods[name]
        rel = name.split('.')
        base = ros.path.join(REPO, *rel)
        if ros.path.isdir(base):
            path, pkg = ros.path.join(base, '__init__.py'), name
        else:
            path, pkg = base + '.py', name.rpartition('.')[0]
        if not ros.path.exists(path):
            raise ModuleNotFoundError("No module named '%s'" % name)
        m = types.ModuleType(name)
        m.__file__, m.__package__ = path, pkg
        m.__dict__['__builtins__'] = self.builtins
        if ros.path.isdir(base):
            m.__path__ = [base]
        self.mods[name] = m
        rsys.modules[name] = m
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
        exec(self.compile(path), m.__dict__)
        if '.' in name:
            setattr(parent, rel[-1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + '.' + name if name else pkg
        top = name.partition('.')[0]
        if top == 'pywasm':
            m = self.load('pywasm')
            part = 'pywasm'
            for x in name.split('.')[1:]:
                part += '.' + x
                m = self.load(part)
            if fromlist:
                for x in fromlist:
                    if x != '*' and not hasattr(m, x) and hasattr(m, '__path__'):
                        self.load(name + '.' + x)
                return m
            return self.mods['pywasm']
        if top in _DENY:
            raise SimUnsupported('import ' + name)
        if name in _RELOAD:
            return self.reload(name)
        if name == 'time' and (globals or {}).get('__name__') == 'pywasm.log':
            return builtins.__import__(name, globals, locals, fromlist, 0)      # the dates in the log are the real ones
        if name in self.mods:
            return self.mods[name] if fromlist or '.' not in name else self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)
