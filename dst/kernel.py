"""A small POSIX kernel that lives inside one Python process.

Everything pywasm can observe of the outside world goes through one Kernel object: files, directories, symbolic
links, descriptors, pipes, sockets, clocks, sleeping, select, entropy.  Nothing in here reads the real world, so an
execution is a function of the seed (the initial tree, the scripted peers, the fault plan, the schedule).

The only entry point that matters for the simulation is Kernel.enter(): every simulated system call goes through it
exactly once, and it is where virtual time passes, faults strike, other actors get to run and the trace is written.
"""
import errno
import functools
import hashlib
import heapq
import os as _os
import stat as _stat

E = errno
NS = 1_000_000_000

O_RDONLY, O_WRONLY, O_RDWR, O_ACCMODE = 0, 1, 2, 3
O_CREAT, O_EXCL, O_TRUNC, O_APPEND = _os.O_CREAT, _os.O_EXCL, _os.O_TRUNC, _os.O_APPEND
O_NONBLOCK, O_DSYNC, O_SYNC = _os.O_NONBLOCK, _os.O_DSYNC, _os.O_SYNC
O_DIRECTORY, O_NOFOLLOW, O_PATH, O_TMPFILE = _os.O_DIRECTORY, _os.O_NOFOLLOW, _os.O_PATH, _os.O_TMPFILE
O_CLOEXEC = _os.O_CLOEXEC

BIG = 1 << 30               # a single transfer beyond this exhausts host memory (MemoryError, as CPython raises)
MAXFILE = 1 << 18           # the largest file the simulated disk lets anybody make (EFBIG beyond)
BURN_LIMIT = 60000          # system calls in a single guest call beyond which it is declared hung


class SimHang(BaseException):
    """The guest call will never return: it waits for something that no actor is ever going to do."""


class SimCrash(BaseException):
    """The simulated host loses power."""


class SimUnsupported(BaseException):
    """The code under test used a host facility the simulator does not model. Never a verdict."""


class Fault:
    """One planned fault: strike the nth system call of class cls (within one guest call)."""
    __slots__ = ('cls', 'nth', 'kind', 'arg', 'fired')

    def __init__(self, cls, nth, kind, arg=None):
        self.cls, self.nth, self.kind, self.arg, self.fired = cls, nth, kind, arg, 0

    def as_list(self):
        return [self.cls, self.nth, self.kind, self.arg]


class Inode:
    __slots__ = ('ino', 'kind', 'mode', 'nlink', 'data', 'ents', 'target', 'atime', 'mtime', 'ctime', 'parent',
                 'durable', 'pending', 'inside', 'tainted', 'dev')

    def __init__(self, ino, kind, mode, now):
        self.ino, self.kind, self.mode, self.nlink = ino, kind, mode, 0
        self.data = bytearray() if kind == 'reg' else None
        self.ents = {} if kind == 'dir' else None
        self.target = None
        self.atime = self.mtime = self.ctime = now
        self.parent = None
        self.durable = b''
        self.pending = []       # modifications since the last successful sync: ('w', off, bytes) or ('t', size)
        self.tainted = False    # a sync failed: the page cache believes it is clean although it is not
        self.inside = False
        self.dev = 7

    def clone(self):
        n = Inode.__new__(Inode)
        n.ino, n.kind, n.mode, n.nlink = self.ino, self.kind, self.mode, self.nlink
        n.data = bytearray(self.data) if self.data is not None else None
        n.ents = dict(self.ents) if self.ents is not None else None
        n.target, n.atime, n.mtime, n.ctime = self.target, self.atime, self.mtime, self.ctime
        n.parent, n.durable, n.pending = self.parent, self.durable, list(self.pending)
        n.tainted, n.inside, n.dev = self.tainted, self.inside, self.dev
        return n

    @property
    def st_mode(self):
        return {'reg': _stat.S_IFREG, 'dir': _stat.S_IFDIR, 'lnk': _stat.S_IFLNK, 'fifo': _stat.S_IFIFO,
                'chr': _stat.S_IFCHR, 'blk': _stat.S_IFBLK, 'sock': _stat.S_IFSOCK}[self.kind] | self.mode


class Chan:
    """One direction of a byte (or datagram) channel."""
    __slots__ = ('buf', 'msgs', 'eof', 'err', 'cap', 'total', 'dgram')

    def __init__(self, dgram=False, cap=1 << 16):
        self.buf = bytearray()
        self.msgs = []
        self.eof = False        # no more data will come
        self.err = 0            # pending error, delivered once
        self.cap = cap
        self.total = 0
        self.dgram = dgram

    def clone(self):
        n = Chan(self.dgram, self.cap)
        n.buf, n.msgs, n.eof, n.err, n.total = bytearray(self.buf), list(self.msgs), self.eof, self.err, self.total
        return n


class Sock:
    """A socket endpoint owned by the host process under test; its peer is scripted by the harness."""
    __slots__ = ('sid', 'type', 'state', 'rx', 'tx', 'queue', 'rd_shut', 'wr_shut', 'backlog_err', 'peer_gone', 'tag')

    def __init__(self, sid, type, state):
        self.sid, self.type, self.state = sid, type, state      # state: listen, conn, reset, new
        self.rx = Chan(type == 'dgram')
        self.tx = Chan(type == 'dgram')
        self.queue = []             # pending connections (Sock) of a listener
        self.rd_shut = self.wr_shut = False
        self.backlog_err = []
        self.peer_gone = False
        self.tag = None

    def take_err(self):
        """The pending error of a socket is reported once, by whichever operation comes first."""
        no = self.rx.err or self.tx.err
        self.rx.err = self.tx.err = 0
        return no

    def clone(self, memo):
        n = memo.get(id(self))
        if n is None:
            n = Sock(self.sid, self.type, self.state)
            memo[id(self)] = n
            n.rx, n.tx = self.rx.clone(), self.tx.clone()
            n.queue = [q.clone(memo) for q in self.queue]
            n.rd_shut, n.wr_shut, n.peer_gone = self.rd_shut, self.wr_shut, self.peer_gone
            n.backlog_err = list(self.backlog_err)
            n.tag = self.tag
        return n


class OFD:
    """An open file description."""
    __slots__ = ('oid', 'inode', 'sock', 'chan_r', 'chan_w', 'flags', 'pos', 'refs', 'dirpos', 'owner')

    def __init__(self, oid, flags, inode=None, sock=None, chan_r=None, chan_w=None):
        self.oid, self.flags, self.inode, self.sock = oid, flags, inode, sock
        self.chan_r, self.chan_w = chan_r, chan_w
        self.pos = 0
        self.refs = 0
        self.dirpos = 0
        self.owner = None

    @property
    def acc(self):
        return self.flags & O_ACCMODE

    @property
    def is_path(self):
        return bool(self.flags & O_PATH)


class FdEnt:
    __slots__ = ('ofd', 'owner', 'cloexec')

    def __init__(self, ofd, owner):
        self.ofd, self.owner, self.cloexec = ofd, owner, True


class StatResult:
    """Looks enough like os.stat_result."""

    def __init__(self, n, kind=None):
        self.st_mode, self.st_ino, self.st_dev = n.st_mode, n.ino, n.dev
        self.st_nlink = n.nlink
        self.st_uid = self.st_gid = 0
        if n.kind == 'reg':
            self.st_size = len(n.data)
        elif n.kind == 'lnk':
            self.st_size = len(n.target)
        elif n.kind == 'dir':
            self.st_size = 4096
        else:
            self.st_size = 0
        self.st_atime_ns, self.st_mtime_ns, self.st_ctime_ns = n.atime, n.mtime, n.ctime
        self.st_blksize, self.st_blocks, self.st_rdev = 4096, (self.st_size + 511) // 512, 0
        self.st_birthtime = n.ctime / NS

    @property
    def st_atime(self):
        return self.st_atime_ns / NS

    @property
    def st_mtime(self):
        return self.st_mtime_ns / NS

    @property
    def st_ctime(self):
        return self.st_ctime_ns / NS

    def __getitem__(self, i):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid, self.st_size,
                int(self.st_atime), int(self.st_mtime), int(self.st_ctime))[i]

    def __iter__(self):
        return iter([self[i] for i in range(10)])

    def __len__(self):
        return 10


def err(no, name=None, name2=None):
    if name is None:
        return OSError(no, _os.strerror(no))
    if name2 is None:
        return OSError(no, _os.strerror(no), name)
    return OSError(no, _os.strerror(no), name, None, name2)


# What a fault of each class may report. Classes group system calls by what they do, not by how they are spelled, so
# that an equivalent rewrite of the code under test meets the same faults.
CLASS_ERRNOS = {
    'open': ['EMFILE', 'ENFILE', 'EACCES', 'EIO', 'ENOMEM', 'EPERM', 'ENODEV'],
    'create': ['EMFILE', 'ENFILE', 'EACCES', 'EIO', 'ENOSPC', 'EROFS', 'EDQUOT', 'ENOMEM', 'EPERM'],
    'dup': ['EMFILE', 'ENFILE'],
    'read': ['EIO', 'EAGAIN', 'ENOMEM', 'ESTALE'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EAGAIN', 'EPIPE', 'ESTALE'],
    'seek': [],
    'trunc': ['EIO', 'ENOSPC', 'EFBIG', 'EROFS', 'EPERM', 'ETXTBSY'],
    'sync': ['EIO', 'ENOSPC', 'EDQUOT', 'EROFS'],
    'utime': ['EPERM', 'EACCES', 'EIO', 'EROFS'],
    'getattr': ['EIO', 'ENOMEM', 'ESTALE'],
    'lookup': ['EACCES', 'EIO', 'ENOMEM', 'ESTALE'],
    'list': ['EIO', 'ENOMEM', 'EACCES'],
    'ns': ['EIO', 'ENOSPC', 'EROFS', 'EACCES', 'EPERM', 'EBUSY', 'EDQUOT', 'EMLINK', 'EXDEV', 'ENOMEM'],
    'nsdel': ['EIO', 'EROFS', 'EACCES', 'EPERM', 'EBUSY', 'ENOMEM'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
    'fcntl': ['EIO', 'ENOMEM', 'EPERM'],
    'select': ['ENOMEM'],
    'accept': ['ECONNABORTED', 'EMFILE', 'ENFILE', 'ENOBUFS', 'ENOMEM', 'EPERM', 'EPROTO'],
    'recv': ['ECONNRESET', 'ETIMEDOUT', 'ENOMEM', 'ENOTCONN', 'ECONNREFUSED', 'EAGAIN', 'EHOSTUNREACH'],
    'send': ['ECONNRESET', 'EPIPE', 'ENOBUFS', 'ENETDOWN', 'EHOSTUNREACH', 'ENOTCONN', 'EMSGSIZE', 'EAGAIN'],
    'shutdown': ['ENOTCONN', 'ENOBUFS'],
    'entropy': ['EIO', 'EAGAIN', 'ENOSYS'],
    'clock': [],
    'sleep': [],
    'misc': [],
}


class Kernel:
    def __init__(self, seed=0):
        self.seed = seed
        self.next_ino = 100
        self.next_oid = 1
        self.next_sid = 1
        self.wall = 1_700_000_000 * NS + 123_456_789      # realtime offset base
        self.mono = 50_000 * NS + 987_654_321             # monotonic now
        self.cpu = 3 * NS + 11
        self.thr = 1 * NS + 7
        self.latency = 1000
        self.fds = {}
        self.fd_limit = 64
        self.fd_floor = 0           # descriptors below are in use by other parts of the embedder
        self.events = []            # heap of (mono time, seq, callable)
        self.evseq = 0
        self.faults = []
        self.counts = {}
        self.sysno = 0              # system calls in the current guest call
        self.total_sys = 0
        self.hooks = {}             # system call number within the call -> [callables] run before it
        self.hooks_run = 0
        self.trace = None           # list, or None when not tracing
        self.actor = 'guest'        # who is making system calls now
        self.fired = []             # faults that struck in the current guest call
        self.wallsegs = []          # stretches of wall-clock time since the guest call began, cut at jumps
        self.opened = []            # inodes opened in the current guest call
        self.fault_stats = {}
        self.foreign = []           # descriptors misused: (what, fd)
        self.yielder = None         # called before every system call (scheduler)
        self.entropy_ctr = 0
        self.entropy_out = []       # (offset, length) of the entropy handed out
        self.select_mode = None     # harness hook: ('early', n) etc.
        self.sleep_jitter = 0
        self.crashed = None
        self.slept = 0
        self.interrupt = None
        self.stdio_sink = {}
        self.umask = 0o022
        root = self.mk('dir', 0o755)
        root.nlink = 2
        root.parent = root.ino
        self.root = root
        self.cwd = root

    def jump(self, ns):
        """The wall clock is set."""
        if self.wallsegs:
            self.wallsegs[-1][1] = self.wall_now()
        self.wall += ns
        self.wallsegs.append([self.wall_now(), None])

    def wall_seen(self, t):
        """Whether the wall clock showed t at some moment of the current guest call."""
        return any(a <= t <= (self.wall_now() if b is None else b) for a, b in self.wallsegs)

    # ---- raw tree building (no system calls involved) ------------------------------------------------------------
    def wall_now(self):
        return self.wall + self.mono

    def mk(self, kind, mode=0o644):
        if not hasattr(self, 'inodes'):
            self.inodes = {}
        n = Inode(self.next_ino, kind, mode, self.wall_now())
        self.next_ino += 7
        self.inodes[n.ino] = n
        return n

    def attach(self, d, name, n):
        d.ents[name] = n.ino
        if n.kind == 'dir':
            n.nlink = 2 + (n.nlink - 2 if n.nlink >= 2 else 0)
            n.parent = d.ino
            d.nlink += 1
        else:
            n.nlink += 1

    def put_dir(self, path):
        d, name = self.raw_parent(path)
        n = self.mk('dir', 0o755)
        self.attach(d, name, n)
        return n

    def put_file(self, path, data=b''):
        d, name = self.raw_parent(path)
        n = self.mk('reg', 0o644)
        n.data[:] = data
        n.durable = bytes(data)
        self.attach(d, name, n)
        return n

    def put_link(self, path, target):
        d, name = self.raw_parent(path)
        n = self.mk('lnk', 0o777)
        n.target = target
        self.attach(d, name, n)
        return n

    def put_fifo(self, path):
        d, name = self.raw_parent(path)
        n = self.mk('fifo', 0o644)
        self.attach(d, name, n)
        return n

    def raw_parent(self, path):
        parts = [p for p in path.split(b'/') if p]
        d = self.root
        for p in parts[:-1]:
            d = self.inodes[d.ents[p]]
        return d, parts[-1]

    def raw_get(self, path):
        d = self.root
        for p in [p for p in path.split(b'/') if p]:
            if d.kind != 'dir' or p not in d.ents:
                return None
            d = self.inodes[d.ents[p]]
        return d

    # ---- time ----------------------------------------------------------------------------------------------------
    def advance(self, ns):
        """Lets ns nanoseconds of monotonic time pass, running everything that was due meanwhile, in order."""
        end = self.mono + ns
        while self.events and self.events[0][0] <= end:
            t, _, fn = heapq.heappop(self.events)
            if t > self.mono:
                self.mono = t
            fn()
        if end > self.mono:
            self.mono = end

    def at(self, delay, fn):
        self.evseq += 1
        heapq.heappush(self.events, (self.mono + delay, self.evseq, fn))

    def wait(self, cond, timeout=None):
        """Blocks until cond() or the timeout; returns whether cond() holds. Virtual time jumps from event to event."""
        end = None if timeout is None else self.mono + timeout
        while not cond():
            if end is not None and self.mono >= end:
                return False
            if self.events and (end is None or self.events[0][0] <= end):
                t, _, fn = heapq.heappop(self.events)
                if t > self.mono:
                    self.slept += t - self.mono
                    self.mono = t
                fn()
            elif end is None:
                if self.on_block():
                    continue
                raise SimHang('blocked for ever')
            else:
                self.slept += end - self.mono
                self.mono = end
        return True

    def on_block(self):
        return False

    # ---- the gate ------------------------------------------------------------------------------------------------
    def begin(self, faults=(), hooks=None):
        """Starts a new guest call: fault and hook positions are counted from here."""
        self.faults = list(faults)
        self.hooks = hooks or {}
        self.hooks_run = 0
        self.counts = {}
        self.sysno = 0
        self.fired = []
        self.opened = []
        self.wallsegs = [[self.wall_now(), None]]

    def enter(self, cls, name, *info):
        if self.actor != 'guest':
            return None
        self.total_sys += 1
        if self.yielder is not None:
            self.yielder(name)
        self.sysno += 1
        if self.sysno > BURN_LIMIT:
            raise SimHang('no return after %d system calls' % self.sysno)
        self.cpu += self.latency // 2
        self.thr += self.latency // 3
        if self.sysno in self.hooks:
            self.actor = 'hook'
            try:
                for fn in self.hooks.pop(self.sysno):
                    self.hooks_run += 1
                    fn()
            finally:
                self.actor = 'guest'
        self.advance(self.latency)
        n = self.counts.get(cls, 0) + 1
        self.counts[cls] = n
        if self.trace is not None:
            self.trace.append((name,) + tuple(info))
        for f in self.faults:
            if f.cls == cls and f.nth == n and not f.fired or (f.cls == cls and f.nth == 0):
                act = self.strike(f, cls, name)
                if act is not None:
                    return act
            elif f.cls == '*' and f.nth == self.sysno and not f.fired:
                act = self.strike(f, cls, name)
                if act is not None:
                    return act
        return None

    def strike(self, f, cls, name):
        if f.kind == 'crash':
            self.fired.append((cls, name, 'crash', None))
            self.fault_stats['crash:' + cls] = self.fault_stats.get('crash:' + cls, 0) + 1
            self.crashed = self.clone()
            raise SimCrash('power failure')
        if f.kind == 'short' and cls not in ('read', 'write', 'recv', 'send'):
            return None
        if f.kind == 'err' and isinstance(f.arg, int):
            opts = CLASS_ERRNOS.get(cls, [])
            if not opts:
                return None
            no = opts[f.arg % len(opts)]
        elif f.kind == 'err':
            no = f.arg
        else:
            no = None
        if f.kind == 'intr' and cls not in ('read', 'write', 'recv', 'send', 'select', 'accept', 'open', 'sleep'):
            return None
        f.fired += 1
        self.fired.append((cls, name, f.kind, no if no is not None else f.arg))
        key = f.kind + ':' + (no or cls)
        self.fault_stats[key] = self.fault_stats.get(key, 0) + 1
        if f.kind == 'err':
            if cls == 'close':
                return ('closeerr', getattr(E, no))     # the descriptor is released all the same
            if cls == 'sync':
                return ('syncerr', getattr(E, no))
            raise err(getattr(E, no))
        if f.kind == 'intr':
            raise KeyboardInterrupt('simulated signal handler')
        if f.kind == 'short':
            return ('short', f.arg)
        if f.kind == 'call':
            f.arg()
            return None
        return (f.kind, f.arg)

    # ---- descriptors ---------------------------------------------------------------------------------------------
    def lowest(self, floor=0):
        i = max(floor, self.fd_floor)
        while i in self.fds:
            i += 1
        return i

    def new_ofd(self, flags, **kw):
        o = OFD(self.next_oid, flags, **kw)
        self.next_oid += 1
        return o

    def full(self, path=None):
        """The descriptor table is really full: counts like an injected EMFILE."""
        self.fired.append(('dup', 'table full', 'err', 'EMFILE'))
        return err(E.EMFILE, path)

    def install(self, ofd, owner=None, floor=0):
        fd = self.lowest(floor)
        own = owner or {'guest': 'guest', 'model': 'model'}.get(self.actor, 'host')
        if fd >= self.fd_limit and own == 'guest' and self.actor != 'host':
            raise self.full()
        ofd.refs += 1
        self.fds[fd] = FdEnt(ofd, own)
        return fd

    def ent(self, fd, what):
        e = self.fds.get(fd)
        if e is None:
            if self.actor == 'guest':
                self.foreign.append((what, fd, 'not open'))
            raise err(E.EBADF)
        if self.actor == 'guest' and e.owner == 'host':
            self.foreign.append((what, fd, 'belongs to the embedder'))
        return e

    def ofd(self, fd, what, path_ok=False):
        if not isinstance(fd, int):
            raise TypeError('an integer is required')
        e = self.ent(fd, what)
        if e.ofd.is_path and not path_ok:
            raise err(E.EBADF)
        return e.ofd

    def release(self, fd):
        e = self.fds.pop(fd)
        e.ofd.refs -= 1
        if e.ofd.refs == 0:
            o = e.ofd
            if o.chan_w is not None:
                o.chan_w.eof = True
            if o.sock is not None:
                o.sock.peer_gone = True

    def close(self, fd):
        act = self.enter('close', 'close', fd)
        e = self.fds.get(fd)
        if e is None:
            if self.actor == 'guest':
                self.foreign.append(('close', fd, 'not open'))
            raise err(E.EBADF)
        if self.actor == 'guest' and e.owner in ('host', 'std'):
            self.foreign.append(('close', fd, 'belongs to the embedder'))
        self.release(fd)
        if act and act[0] == 'closeerr':
            raise err(act[1])

    def dup(self, fd, floor=0):
        self.enter('dup', 'dup', fd)
        o = self.ofd(fd, 'dup', True)
        return self.install(o, floor=floor)

    def dup2(self, fd, fd2):
        self.enter('dup', 'dup2', fd, fd2)
        o = self.ofd(fd, 'dup', True)
        if fd == fd2:
            return fd2
        if fd2 in self.fds:
            if self.actor == 'guest' and self.fds[fd2].owner in ('host', 'std'):
                self.foreign.append(('dup2', fd2, 'belongs to the embedder'))
            self.release(fd2)
        o.refs += 1
        self.fds[fd2] = FdEnt(o, 'guest' if self.actor == 'guest' else 'host')
        return fd2

    # ---- name resolution -----------------------------------------------------------------------------------------
    def base(self, path, dir_fd):
        if path.startswith(b'/') or dir_fd is None:
            return self.root if path.startswith(b'/') else self.cwd
        o = self.ofd(dir_fd, 'dirfd', True)
        if o.inode is None or o.inode.kind != 'dir':
            raise err(E.ENOTDIR)
        return o.inode

    def walk(self, path, dir_fd=None, follow=True, parent=False, late=False, creat=False):
        """Returns the inode, or with parent=True (directory, last name, inode or None, whether a slash follows the name).
        late: an overlong last name is the caller's business. creat: a file may be created.

        The last name is '.', '..' or '/' when the path does not end in an ordinary name."""
        if len(path) == 0:
            raise err(E.ENOENT, path)
        if len(path) >= 4096:
            raise err(E.ENAMETOOLONG, path)
        d = self.base(path, dir_fd)
        need_dir = path.endswith(b'/')
        todo = [p for p in path.split(b'/') if p]
        todo.reverse()
        loops = 0
        last = None
        cur = d
        while todo:
            name = todo.pop()
            final = not todo
            if cur.kind != 'dir':
                raise err(E.ENOTDIR, path)
            if name == b'.':
                last = (cur, b'.')
                continue
            if name == b'..':
                last = (cur, b'..')
                cur = self.inodes[cur.parent]
                continue
            if len(name) > 255:
                if late and final:
                    return (cur, name, None, need_dir)
                raise err(E.ENAMETOOLONG, path)
            if creat and final and need_dir:
                raise err(E.EISDIR, path)
            last = (cur, name)
            i = cur.ents.get(name)
            if i is None:
                if final and parent:
                    return (cur, name, None, need_dir)
                raise err(E.ENOENT, path)
            n = self.inodes[i]
            if n.kind == 'lnk' and (not final or follow or (need_dir and not parent)):
                loops += 1
                if loops > 40:
                    raise err(E.ELOOP, path)
                if not n.target:
                    raise err(E.ENOENT, path)
                t = n.target
                if t.startswith(b'/'):
                    cur = self.root
                parts = [p for p in t.split(b'/') if p]
                if final and t.endswith(b'/'):
                    need_dir = True
                parts.reverse()
                todo.extend(parts)
                if not todo:
                    last = (cur, b'/')
                continue
            cur = n
        if need_dir and cur.kind != 'dir' and not parent:
            raise err(E.ENOTDIR, path)
        if parent:
            if last is None:
                last = (cur, b'/')
            return (last[0], last[1], cur, need_dir)
        return cur

    def touch_m(self, n):
        n.mtime = n.ctime = self.wall_now()

    def touch_c(self, n):
        n.ctime = self.wall_now()

    # ---- open / namespace ----------------------------------------------------------------------------------------
    def open(self, path, flags, mode=0o777, dir_fd=None):
        self.enter('create' if flags & O_CREAT else 'open', 'open', path, flags, dir_fd)
        if flags & O_PATH:
            flags &= O_PATH | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC
        elif (flags & O_TMPFILE) == O_TMPFILE:
            raise SimUnsupported('O_TMPFILE')
        if flags & O_CREAT:
            if flags & O_DIRECTORY:
                raise err(E.EINVAL, path)
            follow = not (flags & O_NOFOLLOW) and not (flags & O_EXCL)
            d, name, n, need_dir = self.walk(path, dir_fd, follow, parent=True, creat=True)
            if n is not None and flags & O_EXCL:
                raise err(E.EEXIST, path)
            if n is None:
                if d.nlink == 0:
                    raise err(E.ENOENT, path)
                if self.lowest() >= self.fd_limit and self.actor == 'guest':
                    raise self.full(path)
                n = self.mk('reg', mode & ~self.umask)
                self.attach(d, name, n)
                self.touch_m(d)
                flags_eff = flags & ~(O_TRUNC)
                return self.finish_open(n, flags_eff, path)
        else:
            n = self.walk(path, dir_fd, not (flags & O_NOFOLLOW))
        if n.kind == 'lnk':
            if not (flags & O_PATH):
                if flags & O_DIRECTORY:
                    raise err(E.ENOTDIR, path)
                raise err(E.ELOOP, path)
            if flags & O_DIRECTORY:
                raise err(E.ENOTDIR, path)
        if flags & O_DIRECTORY and n.kind != 'dir':
            raise err(E.ENOTDIR, path)
        if n.kind == 'dir' and not (flags & O_PATH) and (flags & O_ACCMODE != O_RDONLY or flags & (O_CREAT | O_TRUNC)):
            raise err(E.EISDIR, path)
        return self.finish_open(n, flags, path)

    def finish_open(self, n, flags, path):
        if self.actor == 'guest' and not flags & O_PATH:
            self.opened.append(n.ino)
        if n.kind == 'sock':
            raise err(E.ENXIO, path)
        if self.lowest() >= self.fd_limit and self.actor == 'guest':
            raise self.full(path)
        o = self.new_ofd(flags & ~(O_CREAT | O_EXCL | O_TRUNC), inode=n)
        if n.kind == 'fifo' and not flags & O_PATH:
            # A fifo nobody else has open: reads see end of file, writers would block.
            o.chan_r = Chan()
            o.chan_r.eof = True
            if flags & O_ACCMODE == O_WRONLY:
                if flags & O_NONBLOCK:
                    raise err(E.ENXIO, path)
                raise SimHang('open of a fifo without a reader')
        if flags & O_TRUNC and n.kind == 'reg' and not flags & O_PATH:
            if len(n.data) or True:
                self.set_size(n, 0)
        return self.install(o)

    def set_size(self, n, size):
        if size > MAXFILE:
            raise err(E.EFBIG)
        cur = len(n.data)
        if size < cur:
            del n.data[size:]
        elif size > cur:
            n.data.extend(bytes(size - cur))
        n.pending.append(('t', size))
        self.touch_m(n)

    def mkdir(self, path, mode=0o777, dir_fd=None):
        self.enter('ns', 'mkdir', path, dir_fd)
        d, name, n, _ = self.walk(path, dir_fd, False, parent=True)
        if n is not None:
            raise err(E.EEXIST, path)
        if d.nlink == 0:
            raise err(E.ENOENT, path)
        n = self.mk('dir', mode & ~self.umask)
        self.attach(d, name, n)
        self.touch_m(d)

    def rmdir(self, path, dir_fd=None):
        self.enter('nsdel', 'rmdir', path, dir_fd)
        d, name, n, _ = self.walk(path, dir_fd, False, parent=True)
        if n is None:
            raise err(E.ENOENT, path)
        if name == b'.':
            raise err(E.EINVAL, path)
        if name == b'..':
            raise err(E.ENOTEMPTY, path)
        if name == b'/':
            raise err(E.EBUSY, path)
        if n.kind != 'dir':
            raise err(E.ENOTDIR, path)
        if n.ents:
            raise err(E.ENOTEMPTY, path)
        del d.ents[name]
        d.nlink -= 1
        n.nlink = 0
        self.touch_m(d)
        self.touch_c(n)

    def unlink(self, path, dir_fd=None):
        self.enter('nsdel', 'unlink', path, dir_fd)
        d, name, n, need_dir = self.walk(path, dir_fd, False, parent=True)
        if n is None:
            raise err(E.ENOENT, path)
        if n.kind == 'dir' or name in (b'.', b'..', b'/'):
            raise err(E.EISDIR, path)
        if need_dir:
            raise err(E.ENOTDIR, path)
        del d.ents[name]
        n.nlink -= 1
        self.touch_m(d)
        self.touch_c(n)

    def link(self, src, dst, src_dir_fd=None, dst_dir_fd=None, follow=False):
        self.enter('ns', 'link', src, dst, src_dir_fd, dst_dir_fd)
        n = self.walk(src, src_dir_fd, follow)
        d, name, t, need_dir = self.walk(dst, dst_dir_fd, False, parent=True)
        if t is not None:
            raise err(E.EEXIST, src, dst)
        if need_dir:
            raise err(E.ENOENT, src, dst)
        if d.nlink == 0:
            raise err(E.ENOENT, src, dst)
        if n.kind == 'dir':
            raise err(E.EPERM, src, dst)
        if n.nlink == 0:
            raise err(E.ENOENT, src, dst)
        d.ents[name] = n.ino
        n.nlink += 1
        self.touch_m(d)
        self.touch_c(n)

    def symlink(self, target, path, dir_fd=None):
        self.enter('ns', 'symlink', target, path, dir_fd)
        if len(target) == 0:
            raise err(E.ENOENT, target, path)
        if len(target) >= 4096:
            raise err(E.ENAMETOOLONG, target, path)
        d, name, t, need_dir = self.walk(path, dir_fd, False, parent=True)
        if t is not None:
            raise err(E.EEXIST, target, path)
        if need_dir:
            raise err(E.ENOENT, target, path)
        if d.nlink == 0:
            raise err(E.ENOENT, target, path)
        n = self.mk('lnk', 0o777)
        n.target = bytes(target)
        self.attach(d, name, n)
        self.touch_m(d)

    def readlink(self, path, dir_fd=None):
        self.enter('lookup', 'readlink', path, dir_fd)
        if path == b'' and dir_fd is not None:
            n = self.ofd(dir_fd, 'readlink', True).inode
            if n is None or n.kind != 'lnk':
                raise err(E.ENOENT, path)
            return n.target
        n = self.walk(path, dir_fd, False)
        if n.kind != 'lnk':
            raise err(E.EINVAL, path)
        return n.target

    def is_below(self, n, top):
        """Whether directory n is top or inside it."""
        while True:
            if n is top:
                return True
            if n is self.root:
                return False
            n = self.inodes[n.parent]

    def rename(self, src, dst, src_dir_fd=None, dst_dir_fd=None):
        self.enter('ns', 'rename', src, dst, src_dir_fd, dst_dir_fd)
        sd, sn, s, s_need = self.walk(src, src_dir_fd, False, parent=True, late=True)
        dd, dn, t, d_need = self.walk(dst, dst_dir_fd, False, parent=True, late=True)
        if sn in (b'.', b'..', b'/') or dn in (b'.', b'..', b'/'):
            raise err(E.EBUSY, src, dst)
        if len(sn) > 255:
            raise err(E.ENAMETOOLONG, src, dst)
        if s is None:
            raise err(E.ENOENT, src, dst)
        if len(dn) > 255:
            raise err(E.ENAMETOOLONG, src, dst)
        if s.kind != 'dir' and (d_need or s_need):
            raise err(E.ENOTDIR, src, dst)
        if dd.nlink == 0:
            raise err(E.ENOENT, src, dst)
        if s.kind == 'dir' and self.is_below(dd, s):
            raise err(E.EINVAL, src, dst)
        if t is not None and t.kind == 'dir' and self.is_below(sd, t):
            raise err(E.ENOTEMPTY, src, dst)
        if s is t:
            return
        if t is not None:
            if s.kind == 'dir':
                if t.kind != 'dir':
                    raise err(E.ENOTDIR, src, dst)
                if t.ents:
                    raise err(E.ENOTEMPTY, src, dst)
            elif t.kind == 'dir':
                raise err(E.EISDIR, src, dst)
        del sd.ents[sn]
        if s.kind == 'dir':
            sd.nlink -= 1
        if t is not None:
            del dd.ents[dn]
            if t.kind == 'dir':
                dd.nlink -= 1
                t.nlink = 0
            else:
                t.nlink -= 1
            self.touch_c(t)
        dd.ents[dn] = s.ino
        if s.kind == 'dir':
            s.parent = dd.ino
            dd.nlink += 1
        self.touch_m(sd)
        self.touch_m(dd)
        self.touch_c(s)

    def stat(self, path, dir_fd=None, follow=True):
        self.enter('getattr' if isinstance(path, int) else 'lookup', 'stat', path, dir_fd, follow)
        if isinstance(path, int):
            return self.fstat_raw(path)
        return StatResult(self.walk(path, dir_fd, follow))

    def fstat(self, fd):
        self.enter('getattr', 'fstat', fd)
        return self.fstat_raw(fd)

    def fstat_raw(self, fd):
        o = self.ofd(fd, 'fstat', True)
        if o.inode is None:
            n = Inode(900000 + o.oid, 'sock' if o.sock else 'fifo', 0o600, self.wall_now())
            n.nlink = 1
            return StatResult(n)
        return StatResult(o.inode)

    def listdir(self, path, dir_fd=None):
        self.enter('list', 'listdir', path)
        if isinstance(path, int):
            o = self.ofd(path, 'listdir', True)
            n = o.inode
            if n is None or n.kind != 'dir':
                raise err(E.ENOTDIR)
            if o.is_path:
                raise err(E.EBADF)
        else:
            n = self.walk(path, dir_fd, True)
            if n.kind != 'dir':
                raise err(E.ENOTDIR, path)
        n.atime = self.wall_now()
        return n, list(n.ents)

    def utime(self, path, times, dir_fd=None, follow=True):
        self.enter('utime', 'utime', path, times, dir_fd)
        if isinstance(path, int):
            o = self.ofd(path, 'utime')
            n = o.inode
            if n is None:
                raise err(E.EINVAL)
        else:
            n = self.walk(path, dir_fd, follow)
        now = self.wall_now()
        if times is None:
            n.atime = n.mtime = now
        else:
            n.atime, n.mtime = times
        n.ctime = now

    def chmod(self, path, mode, dir_fd=None, follow=True):
        self.enter('utime', 'chmod', path, mode)
        n = self.ofd(path, 'chmod').inode if isinstance(path, int) else self.walk(path, dir_fd, follow)
        n.mode = mode & 0o7777
        self.touch_c(n)

    # ---- file I/O ------------------------------------------------------------------------------------------------
    def check_len(self, n):
        if n < 0:
            raise err(E.EINVAL)
        if n > BIG:
            raise MemoryError()

    def rd(self, fd, what):
        o = self.ofd(fd, what)
        if o.acc == O_WRONLY:
            raise err(E.EBADF)
        if o.inode is not None and o.inode.kind == 'dir':
            raise err(E.EISDIR)
        return o

    def wr(self, fd, what):
        o = self.ofd(fd, what)
        if o.acc == O_RDONLY:
            raise err(E.EBADF)
        return o

    def short(self, act, n):
        """Bytes a transfer of n really moves under a short-transfer fault (at least one)."""
        if act and act[0] == 'short' and n > 1:
            a = act[1]
            if isinstance(a, float):
                return max(1, min(n - 1, int(n * a)))
            return max(1, min(n - 1, a))
        return n

    def read(self, fd, n):
        act = self.enter('read', 'read', fd, n)
        self.check_len(n)
        o = self.rd(fd, 'read')
        if o.sock is not None:
            if n == 0:
                return b''                  # sock_read_iter() returns at once
            return self.do_recv(o, n, 0, act)[0]
        if o.chan_r is not None:
            ch = o.chan_r
            if n == 0:
                return b''
            if not ch.buf and not ch.eof:
                if o.flags & O_NONBLOCK:
                    raise err(E.EAGAIN)
                self.wait(lambda: ch.buf or ch.eof or ch.err)
            if ch.err:
                no, ch.err = ch.err, 0
                raise err(no)
            n = self.short(act, min(n, len(ch.buf)))
            out = bytes(ch.buf[:n])
            del ch.buf[:n]
            return out
        if o.inode.kind == 'chr':
            return b''
        d = o.inode.data
        avail = max(0, min(n, len(d) - o.pos))
        avail = self.short(act, avail)
        out = bytes(d[o.pos:o.pos + avail])
        o.pos += avail
        o.inode.atime = self.wall_now()
        return out

    def pread(self, fd, n, off):
        act = self.enter('read', 'pread', fd, n, off)
        self.check_len(n)
        if off >= 1 << 63 or off < -(1 << 63):
            raise OverflowError('Python int too large to convert to C long')
        if off < 0:
            raise err(E.EINVAL)
        o = self.rd(fd, 'pread')
        if o.inode is None or o.chan_r is not None:
            raise err(E.ESPIPE)
        if o.inode.kind == 'chr':
            return b''
        d = o.inode.data
        avail = max(0, min(n, len(d) - off))
        avail = self.short(act, avail)
        o.inode.atime = self.wall_now()
        return bytes(d[off:off + avail])

    def do_write(self, o, data, off, act):
        n = o.inode
        if n.kind == 'chr':
            return len(data)
        if not data:
            return 0
        if off + len(data) > MAXFILE:
            if off >= MAXFILE:
                raise err(E.EFBIG)
            data = data[:MAXFILE - off]
        size = self.short(act, len(data))
        data = bytes(data[:size])
        if len(n.data) < off:
            n.data.extend(bytes(off - len(n.data)))
        n.data[off:off + size] = data
        n.pending.append(('w', off, data))
        if o.flags & O_DSYNC:           # O_SYNC includes the O_DSYNC bit
            self.harden(n)
        self.touch_m(n)
        return size

    def write(self, fd, data):
        act = self.enter('write', 'write', fd, len(data))
        o = self.wr(fd, 'write')
        if o.sock is not None:
            return self.do_send(o, data, 0, act)
        if o.chan_w is not None:
            return self.chan_write(o, o.chan_w, data, act)
        if o.inode.kind in ('fifo',):
            raise err(E.EPIPE)
        pos = o.pos
        if o.flags & O_APPEND and len(data):
            pos = len(o.inode.data) if o.inode.kind == 'reg' else 0
        size = self.do_write(o, data, pos, act)
        o.pos = pos + size
        return size

    def chan_write(self, o, ch, data, act):
        if not data:
            return 0
        if ch.eof:
            raise err(E.EPIPE)
        room = lambda: ch.cap - len(ch.buf)
        if room() <= 0:
            if o.flags & O_NONBLOCK:
                raise err(E.EAGAIN)
            self.wait(lambda: room() > 0 or ch.eof)
            if ch.eof:
                raise err(E.EPIPE)
        if o.flags & O_NONBLOCK:
            n = min(len(data), room())
            n = self.short(act, n)
            ch.buf += data[:n]
        else:
            n = self.short(act, len(data))
            ch.buf += data[:n]          # a blocking writer is simply believed to have been drained meanwhile
        ch.total += n
        return n

    def pwrite(self, fd, data, off):
        act = self.enter('write', 'pwrite', fd, len(data), off)
        if off >= 1 << 63 or off < -(1 << 63):
            raise OverflowError('Python int too large to convert to C long')
        if off < 0:
            raise err(E.EINVAL)
        o = self.wr(fd, 'pwrite')
        if o.inode is None or o.chan_w is not None:
            raise err(E.ESPIPE)
        if o.flags & O_APPEND and o.inode.kind == 'reg':
            off = len(o.inode.data)             # Linux: pwrite on O_APPEND appends
        return self.do_write(o, data, off, act)

    def lseek(self, fd, off, whence):
        self.enter('seek', 'lseek', fd, off, whence)
        if off >= 1 << 63 or off < -(1 << 63):
            raise OverflowError('Python int too large to convert to C long')
        o = self.ofd(fd, 'lseek')
        if o.inode is None or o.chan_r is not None or o.chan_w is not None or o.inode.kind == 'fifo':
            raise err(E.ESPIPE)
        n = o.inode
        size = len(n.data) if n.kind == 'reg' else 0
        if whence == 0:
            p = off
        elif whence == 1:
            p = o.pos + off
        elif whence == 2:
            p = size + off
        elif whence in (3, 4):
            if off < 0 or off >= size:
                raise err(E.ENXIO)
            p = off if whence == 3 else size
        else:
            raise err(E.EINVAL)
        if p < 0 or p >= 1 << 63:
            raise err(E.EINVAL if p < 0 else E.EOVERFLOW)
        o.pos = p
        return p

    def ftruncate(self, fd, size):
        self.enter('trunc', 'ftruncate', fd, size)
        if size >= 1 << 63 or size < -(1 << 63):
            raise OverflowError('Python int too large to convert to C long')
        if size < 0:
            raise err(E.EINVAL)
        o = self.ofd(fd, 'ftruncate')
        if o.inode is None or o.inode.kind != 'reg' or o.acc == O_RDONLY or size < 0:
            raise err(E.EINVAL)
        self.set_size(o.inode, size)

    def truncate(self, path, size, dir_fd=None):
        self.enter('trunc', 'truncate', path, size)
        n = self.walk(path, dir_fd, True)
        if n.kind == 'dir':
            raise err(E.EISDIR, path)
        if n.kind != 'reg' or size < 0:
            raise err(E.EINVAL, path)
        self.set_size(n, size)

    def fallocate(self, fd, off, size):
        self.enter('trunc', 'posix_fallocate', fd, off, size)
        if off >= 1 << 63 or size >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        o = self.ofd(fd, 'posix_fallocate')
        if off < 0 or size <= 0:
            raise err(E.EINVAL)
        if o.acc == O_RDONLY:
            raise err(E.EBADF)
        if o.inode is None:
            raise err(E.ESPIPE)
        if o.inode.kind != 'reg':
            raise err(E.ENODEV)
        if off + size > MAXFILE:
            raise err(E.EFBIG)
        if off + size > len(o.inode.data):
            self.set_size(o.inode, off + size)

    def harden(self, n):
        if n.tainted:
            # The failed write-back dropped the dirty pages: only what was written since can still reach the disk.
            img = bytearray(n.durable)
            for p in n.pending:
                apply_mod(img, p)
            n.durable = bytes(img)
        else:
            n.durable = bytes(n.data)
        n.pending = []

    def fsync(self, fd, name='fsync'):
        act = self.enter('sync', name, fd)
        o = self.ofd(fd, name)
        if o.inode is None or o.inode.kind not in ('reg', 'dir', 'blk'):
            raise err(E.EINVAL)
        if act and act[0] == 'syncerr':
            if o.inode.kind == 'reg' and o.inode.pending:
                o.inode.pending = []
                o.inode.tainted = True
            raise err(act[1])
        if o.inode.kind == 'reg':
            self.harden(o.inode)

    def sync_all(self):
        self.enter('sync', 'sync')
        for n in self.inodes.values():
            if n.kind == 'reg':
                self.harden(n)

    def setfl(self, fd, flags):
        self.enter('fcntl', 'fcntl.setfl', fd, flags)
        o = self.ofd(fd, 'fcntl')
        keep = O_APPEND | O_NONBLOCK          # Linux ignores everything else, O_SYNC and O_DSYNC included
        o.flags = (o.flags & ~keep) | (flags & keep)

    def getfl(self, fd):
        self.enter('misc', 'fcntl.getfl', fd)
        return self.ofd(fd, 'fcntl', True).flags | 0o100000

    # ---- crash ---------------------------------------------------------------------------------------------------
    def crash_image(self, n, pick):
        """What is on disk after a crash: the durable image plus an arbitrary part of the pending modifications."""
        img = bytearray(n.durable)
        for p in n.pending:
            c = pick(3)
            if c == 0:
                continue
            if p[0] == 'w' and c == 1 and len(p[2]) > 1:
                cut = 1 + pick(len(p[2]) - 1)
                p = ('w', p[1], p[2][:cut])
            apply_mod(img, p)
        return bytes(img)

    # ---- pipes and sockets ---------------------------------------------------------------------------------------
    def pipe(self):
        self.enter('dup', 'pipe')
        ch = Chan()
        r = self.install(self.new_ofd(O_RDONLY, chan_r=ch))
        try:
            w = self.install(self.new_ofd(O_WRONLY, chan_w=ch))
        except OSError:
            self.release(r)
            raise
        return r, w

    def new_sock(self, type, state):
        s = Sock(self.next_sid, type, state)
        self.next_sid += 1
        return s

    def sock_ofd(self, fd, what):
        o = self.ofd(fd, what)
        if o.sock is None:
            raise err(E.ENOTSOCK)
        return o

    def accept(self, fd, nonblock=None):
        self.enter('accept', 'accept', fd)
        o = self.sock_ofd(fd, 'accept')
        s = o.sock
        if s.type == 'dgram':
            raise err(E.EOPNOTSUPP)
        if s.state != 'listen' or s.rd_shut:
            raise err(E.EINVAL)
        if not s.queue:
            if o.flags & O_NONBLOCK or nonblock:
                raise err(E.EAGAIN)
            self.wait(lambda: s.queue)
        if self.lowest() >= self.fd_limit and self.actor == 'guest':
            raise self.full()
        c = s.queue.pop(0)
        return self.install(self.new_ofd(O_RDWR, sock=c))

    def do_recv(self, o, n, flags, act, dontwait=False):
        import socket as S
        s = o.sock
        self.check_len(n)
        if s.state == 'listen' or s.state == 'new' and s.type == 'stream':
            raise err(E.ENOTCONN)
        nonblock = bool(o.flags & O_NONBLOCK) or dontwait or bool(flags & S.MSG_DONTWAIT)
        ch = s.rx
        peek = bool(flags & S.MSG_PEEK)
        if s.type == 'dgram':
            if not ch.msgs and not ch.err and (nonblock or not s.rd_shut):
                if nonblock:        # even when shut down for reading: only a blocking read sees that
                    raise err(E.EAGAIN)
                self.wait(lambda: ch.msgs or ch.err or s.rd_shut)
            if ch.err:
                raise err(s.take_err())
            if not ch.msgs:
                return b'', 0, None
            m = ch.msgs[0]
            if not peek:
                ch.msgs.pop(0)
            trunc = len(m) > n
            return bytes(m[:n]), (S.MSG_TRUNC if trunc else 0), len(m)
        ready = lambda: ch.buf or ch.eof or ch.err or s.rd_shut
        if not ready():
            if nonblock:
                raise err(E.EAGAIN)
            self.wait(ready)
        if flags & S.MSG_WAITALL and not nonblock and not peek:
            self.wait(lambda: len(ch.buf) >= n or ch.eof or ch.err or s.rd_shut)
        elif flags & S.MSG_WAITALL and not nonblock and peek:
            self.wait(lambda: len(ch.buf) >= n or ch.eof or ch.err or s.rd_shut)
        if not ch.buf:
            if ch.err:
                raise err(s.take_err())
            return b'', 0, None
        m = min(n, len(ch.buf))
        if not flags & S.MSG_WAITALL:
            m = self.short(act, m)
        out = bytes(ch.buf[:m])
        if not peek:
            del ch.buf[:m]
        return out, 0, None

    def recv(self, fd, n, flags=0, dontwait=False):
        act = self.enter('recv', 'recv', fd, n, flags)
        return self.do_recv(self.sock_ofd(fd, 'recv'), n, flags, act, dontwait)

    def do_send(self, o, data, flags, act, dontwait=False):
        import socket as S
        s = o.sock
        if s.state != 'conn':
            raise err(E.EPIPE if s.state == 'reset' else E.ENOTCONN)
        if s.tx.err:
            raise err(s.take_err())
        if s.wr_shut:
            raise err(E.EPIPE)
        if s.type == 'dgram':
            if len(data) > 65507:
                raise err(E.EMSGSIZE)
            s.tx.msgs.append(bytes(data))
            return len(data)
        if s.tx.eof:
            raise err(E.EPIPE)
        nonblock = bool(o.flags & O_NONBLOCK) or dontwait or bool(flags & S.MSG_DONTWAIT)
        if not data:
            return 0
        room = lambda: s.tx.cap - len(s.tx.buf)
        if room() <= 0:
            if nonblock:
                raise err(E.EAGAIN)
            self.wait(lambda: room() > 0 or s.tx.eof or s.tx.err)
            if s.tx.err:
                raise err(s.take_err())
            if s.tx.eof:
                raise err(E.EPIPE)
        n = self.short(act, min(len(data), room()))
        s.tx.buf += data[:n]
        s.tx.total += n
        return n

    def send(self, fd, data, flags=0, dontwait=False):
        act = self.enter('send', 'send', fd, len(data), flags)
        return self.do_send(self.sock_ofd(fd, 'send'), data, flags, act, dontwait)

    def shutdown(self, fd, how):
        self.enter('shutdown', 'shutdown', fd, how)
        o = self.sock_ofd(fd, 'shutdown')
        s = o.sock
        if how not in (0, 1, 2):
            raise err(E.EINVAL)
        if s.state == 'listen':
            if how in (0, 2):
                s.rd_shut = True
            return
        if s.state != 'conn':
            raise err(E.ENOTCONN)
        if how in (0, 2):
            s.rd_shut = True
        if how in (1, 2):
            s.wr_shut = True

    # ---- readiness -----------------------------------------------------------------------------------------------
    def readable(self, o):
        if o.sock is not None:
            s = o.sock
            if s.state == 'listen':
                return bool(s.queue) or s.rd_shut
            return bool(s.rx.buf or s.rx.msgs or s.rx.eof or s.rx.err or s.rd_shut)
        if o.chan_r is not None:
            return bool(o.chan_r.buf or o.chan_r.eof or o.chan_r.err)
        return o.chan_w is None

    def writable(self, o):
        if o.sock is not None:
            s = o.sock
            if s.state == 'listen':
                return False
            if s.wr_shut or s.tx.eof or s.tx.err or s.state == 'reset':
                return True
            return s.type == 'dgram' or s.tx.cap - len(s.tx.buf) > 0
        if o.chan_w is not None:
            return o.chan_w.eof or o.chan_w.cap - len(o.chan_w.buf) > 0
        return o.chan_r is None

    def select(self, rl, wl, xl, timeout, name='select'):
        """rl, wl: lists of descriptor numbers. timeout in ns or None."""
        act = self.enter('select', name, tuple(rl), tuple(wl), timeout)
        ro = [(fd, self.ofd(fd, 'select')) for fd in rl]
        wo = [(fd, self.ofd(fd, 'select')) for fd in wl]
        for fd in xl:
            self.ofd(fd, 'select')
        ready = lambda: any(self.readable(o) for _, o in ro) or any(self.writable(o) for _, o in wo)
        if act and act[0] == 'early':
            # A wake-up before anything happened: select may return nothing even though time is left.
            if timeout is not None and timeout > 0:
                self.wait(ready, int(timeout * act[1]))
            elif timeout is None:
                self.wait(ready, int(NS * act[1]))
        elif act and act[0] == 'late':
            got = self.wait(ready, timeout)
            self.advance(int(act[1]))
        else:
            if timeout is None or timeout > 0:
                got = self.wait(ready, timeout)
                if not got and self.sleep_jitter:
                    self.advance(self.sleep_jitter)
        return [fd for fd, o in ro if self.readable(o)], [fd for fd, o in wo if self.writable(o)]

    def sleep(self, ns):
        act = self.enter('sleep', 'sleep', ns)
        if ns < 0:
            raise ValueError('sleep length must be non-negative')
        self.wait(lambda: False, ns)
        if self.sleep_jitter:
            self.advance(self.sleep_jitter)

    def clock(self, which):
        self.enter('clock', 'clock.' + which)
        if which == 'real':
            return self.wall_now()
        if which == 'mono':
            return self.mono
        if which == 'cpu':
            return self.cpu
        return self.thr

    # ---- entropy -------------------------------------------------------------------------------------------------
    def entropy(self, n):
        act = self.enter('entropy', 'entropy', n)
        self.check_len(n)
        out = entropy_bytes(self.seed, self.entropy_ctr, n)
        self.entropy_out.append((self.entropy_ctr, n))
        self.entropy_ctr += n
        return out

    # ---- copies for the reference model --------------------------------------------------------------------------
    def clone(self):
        """A copy of the whole state without planned faults, hooks, events or trace."""
        k = Kernel.__new__(Kernel)
        k.__dict__.update(self.__dict__)
        k.inodes = {i: n.clone() for i, n in self.inodes.items()}
        k.root = k.inodes[self.root.ino]
        k.cwd = k.inodes[self.cwd.ino]
        memo = {}
        ofds = {}
        chans = {}

        def chan(c):
            if c is None:
                return None
            if id(c) not in chans:
                chans[id(c)] = c.clone()
            return chans[id(c)]

        k.fds = {}
        for fd, e in self.fds.items():
            o = ofds.get(e.ofd.oid)
            if o is None:
                o = OFD(e.ofd.oid, e.ofd.flags)
                if e.ofd.inode is not None:
                    i = e.ofd.inode
                    if i.ino not in k.inodes:
                        k.inodes[i.ino] = i.clone()
                    o.inode = k.inodes[i.ino]
                if e.ofd.sock is not None:
                    o.sock = e.ofd.sock.clone(memo)
                o.chan_r, o.chan_w = chan(e.ofd.chan_r), chan(e.ofd.chan_w)
                o.pos, o.refs, o.dirpos, o.owner = e.ofd.pos, e.ofd.refs, e.ofd.dirpos, e.ofd.owner
                ofds[e.ofd.oid] = o
            k.fds[fd] = FdEnt(o, e.owner)
        k.events = []
        k.faults, k.hooks, k.fired, k.counts, k.wallsegs = [], {}, [], {}, []
        k.trace = None
        k.yielder = None
        k.foreign = []
        k.fault_stats = {}
        k.actor = 'model'
        k.entropy_out = []
        return k

    def tree(self, n=None, prefix=b'', out=None, groups=None):
        """Canonical description of the reachable tree: path -> (kind, content, hard link group)."""
        if out is None:
            out, groups = {}, {}
            n = self.root
        for name in sorted(n.ents):
            c = self.inodes[n.ents[name]]
            path = prefix + b'/' + name
            if c.kind == 'dir':
                out[path] = ('dir',)
                self.tree(c, path, out, groups)
            else:
                g = groups.setdefault(c.ino, path)
                out[path] = (c.kind, bytes(c.data) if c.kind == 'reg' else c.target, g, c.nlink)
        return out


def apply_mod(img, p):
    if p[0] == 't':
        if p[1] < len(img):
            del img[p[1]:]
        else:
            img.extend(bytes(p[1] - len(img)))
    else:
        off, data = p[1], p[2]
        if len(img) < off:
            img.extend(bytes(off - len(img)))
        img[off:off + len(data)] = data


_ENT = 4096


@functools.lru_cache(64)
def _ent_block(seed, blk):
    return hashlib.shake_128(b'entropy%d.%d' % (seed, blk)).digest(_ENT)


def entropy_bytes(seed, off, n):
    """The simulated operating system's entropy: a fixed pseudo-random stream per seed."""
    out = bytearray()
    blk = off // _ENT
    skip = off % _ENT
    while len(out) < n + skip:
        out += _ent_block(seed, blk)
        blk += 1
    return bytes(out[skip:skip + n])
