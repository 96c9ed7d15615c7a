"""Reference model of WASI preview 1 over a *copy* of the simulated kernel's state.

It is written from the WASI and POSIX documents, not from pywasm: descriptors, rights and path confinement are computed
here on the inode graph directly; only the effect of a POSIX primitive on (directory, last name) is shared with the
simulated kernel, and that part is validated against the real kernel (tools/kernel_vs_linux.py).

Every method predicts one guest call: it returns Out(errs=...) when the call has to fail with one of those codes and
leave no trace, Out(...) with the outputs and the mutated kernel copy when it has to succeed; `also` lists codes that
are acceptable besides success (documents leave a choice)."""
import errno
import os
import stat as _stat
import struct

from .kernel import (O_ACCMODE, O_APPEND, O_CREAT, O_DIRECTORY, O_DSYNC, O_EXCL, O_NOFOLLOW, O_NONBLOCK, O_RDONLY,
                     O_RDWR, O_SYNC, O_TRUNC, O_WRONLY, FdEnt, OFD, SimHang)

NAMES = ('SUCCESS 2BIG ACCES ADDRINUSE ADDRNOTAVAIL AFNOSUPPORT AGAIN ALREADY BADF BADMSG BUSY CANCELED CHILD '
         'CONNABORTED CONNREFUSED CONNRESET DEADLK DESTADDRREQ DOM DQUOT EXIST FAULT FBIG HOSTUNREACH IDRM ILSEQ '
         'INPROGRESS INTR INVAL IO ISCONN ISDIR LOOP MFILE MLINK MSGSIZE MULTIHOP NAMETOOLONG NETDOWN NETRESET '
         'NETUNREACH NFILE NOBUFS NODEV NOENT NOEXEC NOLCK NOLINK NOMEM NOMSG NOPROTOOPT NOSPC NOSYS NOTCONN NOTDIR '
         'NOTEMPTY NOTRECOVERABLE NOTSOCK NOTSUP NOTTY NXIO OVERFLOW OWNERDEAD PERM PIPE PROTO PROTONOSUPPORT '
         'PROTOTYPE RANGE ROFS SPIPE SRCH STALE TIMEDOUT TXTBSY XDEV NOTCAPABLE').split()
W = {n: i for i, n in enumerate(NAMES)}


def wname(n):
    return NAMES[n] if 0 <= n < len(NAMES) else str(n)


# host errno -> acceptable WASI codes
_special = {'EOPNOTSUPP': ['NOTSUP'], 'EWOULDBLOCK': ['AGAIN'], 'EDEADLOCK': ['DEADLK'], 'EACCES': ['ACCES', 'PERM'],
            'EPERM': ['PERM', 'ACCES', 'NOTCAPABLE'], 'ENOTSUP': ['NOTSUP']}


def host_to_wasi(no):
    name = errno.errorcode[no]
    if name in _special:
        return {W[x] for x in _special[name]}
    if name[1:] in W:
        return {W[name[1:]]}
    return {W['IO']}


R = {n: 1 << i for i, n in enumerate(
    'FD_DATASYNC FD_READ FD_SEEK FD_FDSTAT_SET_FLAGS FD_SYNC FD_TELL FD_WRITE FD_ADVISE FD_ALLOCATE '
    'PATH_CREATE_DIRECTORY PATH_CREATE_FILE PATH_LINK_SOURCE PATH_LINK_TARGET PATH_OPEN FD_READDIR PATH_READLINK '
    'PATH_RENAME_SOURCE PATH_RENAME_TARGET PATH_FILESTAT_GET PATH_FILESTAT_SET_SIZE PATH_FILESTAT_SET_TIMES '
    'FD_FILESTAT_GET FD_FILESTAT_SET_SIZE FD_FILESTAT_SET_TIMES PATH_SYMLINK PATH_REMOVE_DIRECTORY PATH_UNLINK_FILE '
    'POLL_FD_READWRITE SOCK_SHUTDOWN SOCK_ACCEPT'.split())}
ALL_RIGHTS = (1 << 30) - 1
PATH_RIGHTS = sum(v for n, v in R.items() if n.startswith('PATH_'))

T_UNKNOWN, T_BLK, T_CHR, T_DIR, T_REG, T_DGRAM, T_STREAM, T_LNK = range(8)
APPEND, DSYNC, NONBLOCK, RSYNC, SYNC = 1, 2, 4, 8, 16
U64 = (1 << 64) - 1


def s64(x):
    x &= U64
    return x - (1 << 64) if x >> 63 else x


class MErr(Exception):
    def __init__(self, *names):
        self.codes = {W[n] for n in names}


class Out:
    """A prediction."""

    def __init__(self, errs=None, outs=(), also=(), count=None, loose=False):
        self.errs = errs            # the call must fail with one of these
        self.outs = list(outs)      # [(addr, bytes)] exact; bytes may contain None positions via mask
        self.also = set(also)       # failing like this is acceptable as well
        self.count = count          # (ptr, max, commit): a transfer; see check
        self.loose = loose          # outputs are not predicted
        self.opens = None           # inode/sock expected behind a new descriptor
        self.opens_rights = None
        self.dev = None             # the device of the file whose attributes are reported
        self.closes = []
        self.rights = None
        self.mem_any = []           # [(addr, len)] ranges whose content is not predicted
        self.post = None
        self.times = None
        self.alts = []              # further acceptable predictions
        self.new_type = None
        self.note = None


class GFd:
    __slots__ = ('num', 'oid', 'type', 'base', 'inh', 'flags', 'pre', 'open', 'cap', 'std', 'label', 'moved', 'scan')

    def __init__(self, num, oid, type, base, inh, flags=0, pre=None, std=False):
        self.num, self.oid, self.type, self.base, self.inh, self.flags = num, oid, type, base, inh, flags
        self.pre, self.open, self.cap, self.std, self.label, self.moved = pre, True, None, std, None, False
        self.scan = None


class Mem:
    """Guest memory as the model sees it (a snapshot)."""

    def __init__(self, data):
        self.d = data

    def get(self, p, n):
        if p < 0 or n < 0 or p + n > len(self.d):
            raise Oob()
        return bytes(self.d[p:p + n])

    def u32(self, p):
        return struct.unpack('<I', self.get(p, 4))[0]

    def u64(self, p):
        return struct.unpack('<Q', self.get(p, 8))[0]

    def u8(self, p):
        return self.get(p, 1)[0]

    def u16(self, p):
        return struct.unpack('<H', self.get(p, 2))[0]

    def chk(self, p, n):
        self.get(p, n)


class Oob(Exception):
    """An argument refers to memory the guest does not have."""


PSEUDO = 1 << 20


class Ref:
    """Model of one WASI context. self.k is the kernel copy the current prediction works on."""

    def __init__(self):
        self.fds = {}
        self.k = None

    # ---- helpers -------------------------------------------------------------------------------------------------
    def ofd(self, g):
        for e in self.k.fds.values():
            if e.ofd.oid == g.oid:
                return e.ofd
        return None

    def fdnum(self, g):
        for fd, e in self.k.fds.items():
            if e.ofd.oid == g.oid:
                return fd
        return None

    def get(self, fd):
        g = self.fds.get(fd & 0xffffffff)
        if g is None or not g.open:
            raise MErr('BADF')
        return g

    def need(self, g, *rights):
        for r in rights:
            if not g.base & R[r]:
                raise MErr('NOTCAPABLE', 'PERM')

    def isdir(self, g):
        return g.type == T_DIR

    def filecheck(self, g, right):
        """Operations on file data: a directory and a missing right may be reported in either order."""
        codes = []
        if g.type == T_DIR:
            codes += ['ISDIR', 'BADF']
        if not g.base & R[right]:
            codes += ['NOTCAPABLE', 'PERM']
        if codes:
            raise MErr(*codes)

    def host(self, fn, *a, **kw):
        """Runs a primitive on the kernel copy, translating its errno."""
        try:
            return fn(*a, **kw)
        except OSError as e:
            m = MErr()
            m.codes = host_to_wasi(e.errno)
            raise m
        except OverflowError:
            raise MErr('INVAL', 'OVERFLOW', 'FBIG')

    # ---- path resolution on the inode graph ----------------------------------------------------------------------
    def path(self, raw):
        try:
            s = raw.decode('utf-8')
        except UnicodeDecodeError:
            raise MErr('ILSEQ', 'INVAL')
        if '\0' in s:
            raise MErr('ILSEQ', 'INVAL')
        return raw

    @staticmethod
    def lexical_escape(raw):
        if raw.startswith(b'/'):
            return True
        depth = 0
        for p in raw.split(b'/'):
            if p in (b'', b'.'):
                continue
            if p == b'..':
                depth -= 1
                if depth < 0:
                    return True
            else:
                depth += 1
        return False

    def resolve(self, g, raw, follow):
        """-> (parent inode, last name with trailing slash if any, node or None)."""
        raw = self.path(raw)
        o = self.ofd(g)
        if g.type != T_DIR:
            # what is wrong with the path may be noticed first
            more = ['NAMETOOLONG'] if len(raw) >= 4096 or any(len(x) > 255 for x in raw.split(b'/')) else []
            more += ['NOENT', 'INVAL'] if raw == b'' else []
            more += ['PERM'] if self.lexical_escape(raw) else []
            raise MErr('NOTDIR', 'NOTCAPABLE', 'BADF', *more)
        try:
            r = self._resolve(o.inode, raw, follow)
            if self.lexical_escape(raw):
                self.maybe_escape = True
            return r
        except MErr as e:
            if self.lexical_escape(raw):
                e.codes |= {W['PERM'], W['NOTCAPABLE']}
            raise

    def exists(self, g, raw, follow):
        r = self.resolve(g, raw, follow)
        if r[2] is None:
            raise MErr('NOENT')
        return r

    def _resolve(self, root, raw, follow):
        if raw == b'':
            raise MErr('NOENT', 'INVAL')
        if raw.startswith(b'/'):
            raise MErr('PERM', 'NOTCAPABLE')
        if len(raw) >= 4096:
            raise MErr('NAMETOOLONG', 'NOENT')
        trail = raw.endswith(b'/')
        todo = [p for p in raw.split(b'/') if p][::-1]
        stack = [root]
        loops = 0
        while True:
            if not todo:
                return stack[-1], b'.' + (b'/' if trail else b''), stack[-1]
            name = todo.pop()
            d = stack[-1]
            if d.kind != 'dir':
                raise MErr('NOTDIR')
            if name == b'.':
                if not todo:
                    return d, b'.', d
                continue
            if name == b'..':
                if len(stack) == 1:
                    raise MErr('PERM', 'NOTCAPABLE')
                stack.pop()
                if not todo:
                    return stack[-1], b'.', stack[-1]
                continue
            if len(name) > 255:
                raise MErr('NAMETOOLONG', 'NOENT')
            i = d.ents.get(name)
            last = not todo
            if i is None:
                if last:
                    return d, name + (b'/' if trail else b''), None
                raise MErr('NOENT')
            n = self.k.inodes[i]
            if n.kind == 'lnk' and (not last or follow or trail):
                loops += 1
                if loops > 40:
                    raise MErr('LOOP')
                t = n.target
                if t.startswith(b'/'):
                    raise MErr('PERM', 'NOTCAPABLE')
                if last and t.endswith(b'/'):
                    trail = True
                todo.extend([p for p in t.split(b'/') if p][::-1])
                continue
            if last:
                if trail and n.kind != 'dir':
                    e = MErr('NOTDIR')
                    e.node = (d, name, n)
                    raise e
                return d, name + (b'/' if trail else b''), n
            stack.append(n)

    def pseudo(self, inode, slot=0):
        fd = PSEUDO + slot
        o = OFD(-1 - slot, O_RDONLY, inode=inode)
        o.refs = 1
        self.k.fds[fd] = FdEnt(o, 'model')
        return fd

    # ---- predictions ---------------------------------------------------------------------------------------------
    def predict(self, name, args, mem, k):
        """k: kernel copy this prediction may mutate."""
        self.k = k
        self.maybe_escape = False
        try:
            out = getattr(self, name)(mem, *args)
        except MErr as e:
            out = Out(errs=e.codes)
        except SimHang:
            out = Out(loose=True)
            out.note = 'blocks'
        for i in range(4):
            k.fds.pop(PSEUDO + i, None)
        if self.maybe_escape:
            if out.errs is not None:
                out.errs |= {W['PERM'], W['NOTCAPABLE']}
            else:
                out.also |= {W['PERM'], W['NOTCAPABLE']}
        out.post = k
        return out

    # -- arguments, clocks and so on
    def strings_get(self, mem, lst, ptrs, buf):
        outs = []
        for s in lst:
            b = os.fsencode(s) + b'\0'
            outs.append((ptrs, struct.pack('<I', buf & 0xffffffff)))
            outs.append((buf, b))
            ptrs += 4
            buf += len(b)
        for p, b in outs:
            mem.chk(p, len(b))
        return Out(outs=outs)

    def args_get(self, mem, a, b):
        return self.strings_get(mem, self.args, a, b)

    def environ_get(self, mem, a, b):
        return self.strings_get(mem, self.envs, a, b)

    def sizes(self, mem, lst, a, b):
        mem.chk(a, 4)
        mem.chk(b, 4)
        return Out(outs=[(a, struct.pack('<I', len(lst))), (b, struct.pack('<I', sum(len(os.fsencode(s)) + 1 for s in lst)))])

    def args_sizes_get(self, mem, a, b):
        return self.sizes(mem, self.args, a, b)

    def environ_sizes_get(self, mem, a, b):
        return self.sizes(mem, self.envs, a, b)

    def clock_res_get(self, mem, cid, p):
        if cid not in (0, 1, 2, 3):
            raise MErr('INVAL')
        mem.chk(p, 8)
        o = Out()
        o.mem_any = [(p, 8)]
        o.note = ('res', p)
        return o

    def clock_time_get(self, mem, cid, prec, p):
        if cid not in (0, 1, 2, 3):
            raise MErr('INVAL')
        mem.chk(p, 8)
        o = Out()
        o.mem_any = [(p, 8)]
        o.note = ('clock', cid, p)
        return o

    def sched_yield(self, mem):
        return Out()

    def proc_raise(self, mem, sig):
        o = Out(also={W['INVAL'], W['NOTSUP'], W['NOSYS']})
        return o

    def random_get(self, mem, p, n):
        mem.chk(p, n)
        o = Out()
        o.mem_any = [(p, n)]
        o.note = ('random', p, n)
        return o

    # -- descriptors
    def fd_advise(self, mem, fd, off, n, adv):
        g = self.get(fd)
        self.need(g, 'FD_ADVISE')
        return Out(also=({W['INVAL'], W['BADF'], W['SPIPE'], W['ISDIR']}))

    def fd_allocate(self, mem, fd, off, n):
        g = self.get(fd)
        self.filecheck(g, 'FD_ALLOCATE')
        off, n = s64(off), s64(n)
        if off < 0 or n < 0:
            raise MErr('INVAL', 'FBIG')
        o = self.ofd(g)
        if n == 0:
            return Out(also={W['INVAL'], W['BADF']})
        if o.acc == O_RDONLY:
            if o.inode is not None and off + n <= len(o.inode.data or b''):
                return Out(also={W['BADF'], W['INVAL'], W['NOTCAPABLE']})
            raise MErr('BADF', 'INVAL', 'NOTCAPABLE')
        try:
            self.host(self.k.fallocate, self.fdnum(g), off, n)
        except MErr as e:
            # A host without posix_fallocate() sets the size instead, and words the refusal its own way.
            raise self.widen(e)
        return Out()

    @staticmethod
    def widen(e):
        m = MErr()
        m.codes = set(e.codes) | {W['INVAL'], W['FBIG'], W['OVERFLOW'], W['NOTSUP']}
        return m

    def fd_close(self, mem, fd):
        g = self.get(fd)
        o = Out()
        o.closes = [g]
        return o

    def sync(self, g):
        f = self.ofd(g)
        if f.inode is None or f.inode.kind != 'reg':
            return Out(also={W['INVAL'], W['ISDIR'], W['SPIPE'], W['NOTSUP'], W['BADF']})
        self.k.harden(f.inode)
        return Out()

    def fd_datasync(self, mem, fd):
        g = self.get(fd)
        if g.type == T_DIR and not g.base & R['FD_DATASYNC']:
            raise MErr('NOTCAPABLE', 'ISDIR', 'PERM')
        self.need(g, 'FD_DATASYNC')
        return self.sync(g)

    def fd_sync(self, mem, fd):
        g = self.get(fd)
        if g.type == T_DIR and not g.base & R['FD_SYNC']:
            raise MErr('NOTCAPABLE', 'ISDIR', 'PERM')
        self.need(g, 'FD_SYNC')
        return self.sync(g)

    def fd_fdstat_get(self, mem, fd, p):
        g = self.get(fd)
        mem.chk(p, 24)
        o = Out(outs=[(p, bytes([g.type])), (p + 8, struct.pack('<QQ', g.base & U64, g.inh & U64))])
        o.mem_any = [(p + 1, 1), (p + 2, 2), (p + 4, 4)]
        o.note = ('fdstat', p, g.flags)
        return o

    def fd_fdstat_set_flags(self, mem, fd, flags):
        g = self.get(fd)
        self.need(g, 'FD_FDSTAT_SET_FLAGS')
        diff = (g.flags ^ flags) & 0xffffffff
        if diff & ~(APPEND | NONBLOCK):
            raise MErr('INVAL', 'NOTSUP')
        h = self.ofd(g)
        h.flags = (h.flags & ~(O_APPEND | O_NONBLOCK)) | (O_APPEND if flags & APPEND else 0) | \
            (O_NONBLOCK if flags & NONBLOCK else 0)
        o = Out()
        o.note = ('setflags', g, flags)
        return o

    def fd_fdstat_set_rights(self, mem, fd, base, inh):
        g = self.get(fd)
        base, inh = base & U64, inh & U64
        if base & ~g.base or inh & ~g.inh:
            raise MErr('NOTCAPABLE', 'PERM')
        o = Out()
        o.rights = (g, base, inh)
        return o

    def statrec(self, p, n, type):
        size = {'reg': lambda: len(n.data), 'lnk': lambda: len(n.target)}.get(n.kind, lambda: None)()
        outs = [(p + 8, struct.pack('<Q', n.ino)), (p + 16, bytes([type])), (p + 24, struct.pack('<Q', n.nlink))]
        anyr = [(p, 8), (p + 17, 7)]
        if size is None:
            anyr.append((p + 32, 8))
        else:
            outs.append((p + 32, struct.pack('<Q', size)))
        outs.append((p + 48, struct.pack('<QQ', n.mtime & U64, n.ctime & U64)))
        outs.append((p + 40, struct.pack('<Q', n.atime & U64)))
        o = Out(outs=outs)
        o.mem_any = anyr
        o.dev = n.dev
        return o

    def fd_filestat_get(self, mem, fd, p):
        g = self.get(fd)
        self.need(g, 'FD_FILESTAT_GET')
        mem.chk(p, 64)
        f = self.ofd(g)
        if f.inode is None:
            o = Out(loose=True)
            o.mem_any = [(p, 64)]
            return o
        return self.statrec(p, f.inode, g.type)

    def fd_filestat_set_size(self, mem, fd, size):
        g = self.get(fd)
        self.filecheck(g, 'FD_FILESTAT_SET_SIZE')
        size = s64(size)
        if size < 0:
            raise MErr('INVAL', 'FBIG', 'OVERFLOW')
        f = self.ofd(g)
        if f.inode is None or f.inode.kind != 'reg':
            raise MErr('INVAL', 'SPIPE', 'BADF')
        if f.acc == O_RDONLY:
            raise MErr('INVAL', 'BADF', 'NOTCAPABLE', 'PERM', 'ACCES')
        self.host(self.k.ftruncate, self.fdnum(g), size)
        return Out()

    def times(self, n, atim, mtim, flags):
        if flags & 1 and flags & 2 or flags & 4 and flags & 8:
            raise MErr('INVAL')
        o = Out(also={W['INVAL']} if flags & ~15 else ())
        # The NOW values are only known as an interval; the check compares them separately.
        o.times = (n.ino, ('set', atim & U64) if flags & 1 else ('now',) if flags & 2 else ('keep', n.atime),
                   ('set', mtim & U64) if flags & 4 else ('now',) if flags & 8 else ('keep', n.mtime))
        if (flags & 1 and atim >> 63) or (flags & 4 and mtim >> 63):
            o.also |= {W['INVAL'], W['OVERFLOW']}
        return o

    def fd_filestat_set_times(self, mem, fd, atim, mtim, flags):
        g = self.get(fd)
        self.need(g, 'FD_FILESTAT_SET_TIMES')
        f = self.ofd(g)
        if f.inode is None:
            return Out(loose=True, also=range(1, 77))
        return self.times(f.inode, atim, mtim, flags)

    def iovs(self, mem, p, n):
        out = []
        if n > (1 << 20):
            raise Oob()
        for i in range(n):
            a, ln = mem.u32(p + 8 * i), mem.u32(p + 8 * i + 4)
            mem.chk(a, ln)
            out.append((a, ln))
        return out

    def scatter(self, iovs, data):
        outs, off = [], 0
        for a, ln in iovs:
            part = data[off:off + ln]
            if part:
                outs.append((a, part))
            off += len(part)
        return outs

    def rdable(self, g):
        f = self.ofd(g)
        if f.acc == O_WRONLY:
            raise MErr('BADF', 'NOTCAPABLE')
        return f

    def at(self, able, g, off):
        try:
            return able(g)
        except MErr as e:
            if off < 0:
                e.codes = set(e.codes) | {W['INVAL']}      # what Linux looks at first
            raise

    def fd_pread(self, mem, fd, p, n, off, out):
        g = self.get(fd)
        self.filecheck(g, 'FD_READ')
        off = s64(off)
        f = self.at(self.rdable, g, off)
        iovs = self.iovs(mem, p, n)
        mem.chk(out, 4)
        total = sum(x for _, x in iovs)
        if off < 0:
            raise MErr('INVAL', 'OVERFLOW') if f.inode is not None and f.inode.kind == 'reg' and g.cap is None else \
                MErr('INVAL', 'SPIPE', 'NOTSUP')
        # a captured stream has no positions, whatever the host's own stream is
        if f.inode is None or f.inode.kind != 'reg' or g.cap is not None:
            raise MErr('SPIPE', 'INVAL', 'BADF', 'NOTSUP')
        data = bytes(f.inode.data[off:off + total])
        return self.transfer_in(iovs, data, out)

    def transfer_in(self, iovs, data, out, consume=None):
        o = Out()
        o.count = ('in', out, iovs, data, consume)
        return o

    def fd_read(self, mem, fd, p, n, out):
        g = self.get(fd)
        self.filecheck(g, 'FD_READ')
        iovs = self.iovs(mem, p, n)
        mem.chk(out, 4)
        total = sum(x for _, x in iovs)
        if g.cap is not None:
            cap = g.cap
            data = bytes(cap.data[cap.pos:cap.pos + total])

            def eat(k, c=cap):
                c.pos += k
            return self.transfer_in(iovs, data, out, eat)
        f = self.rdable(g)
        if f.sock is not None:
            return self.sock_in(g, f, iovs, out, total)
        if f.chan_r is not None:
            ch = f.chan_r
            if not ch.buf and not ch.eof and total:
                if f.flags & O_NONBLOCK:
                    raise MErr('AGAIN')
                o = Out(loose=True)
                o.note = 'blocks'
                return o
            data = bytes(ch.buf[:total])

            def eat(k, ch=ch):
                del ch.buf[:k]
            return self.transfer_in(iovs, data, out, eat)
        if f.inode.kind != 'reg':
            return self.transfer_in(iovs, b'', out)
        data = bytes(f.inode.data[f.pos:f.pos + total])

        def eat(k, f=f):
            f.pos += k
        return self.transfer_in(iovs, data, out, eat)

    def sock_in(self, g, f, iovs, out, total):
        s = f.sock
        if total == 0:
            o = self.transfer_in(iovs, b'', out)
            if s.state == 'listen':
                o.also |= {W['NOTCONN'], W['INVAL']}
            return o
        if s.state == 'listen':
            raise MErr('NOTCONN', 'INVAL')
        ch = s.rx
        if s.type == 'dgram':
            if ch.err:
                e = MErr()
                e.codes = host_to_wasi(s.take_err())
                raise e
            if not ch.msgs and (f.flags & O_NONBLOCK or not s.rd_shut):
                if f.flags & O_NONBLOCK:
                    raise MErr('AGAIN')
                o = Out(loose=True)
                o.note = 'blocks'
                return o
            m = ch.msgs.pop(0) if ch.msgs else b''
            data = m[:total]
            return Out(outs=self.scatter(iovs, data) + [(out, struct.pack('<I', len(data)))])
        if not ch.buf:
            if ch.err:
                e = MErr()
                e.codes = host_to_wasi(s.take_err())
                raise e
            if not ch.eof and not s.rd_shut:
                if f.flags & O_NONBLOCK:
                    raise MErr('AGAIN')
                o = Out(loose=True)
                o.note = 'blocks'
                return o
        data = bytes(ch.buf[:total])

        def eat(k, ch=ch):
            del ch.buf[:k]
        return self.transfer_in(iovs, data, out, eat)

    def wrable(self, g):
        f = self.ofd(g)
        if f.acc == O_RDONLY:
            raise MErr('BADF', 'NOTCAPABLE')
        return f

    def fd_pwrite(self, mem, fd, p, n, off, out):
        g = self.get(fd)
        self.filecheck(g, 'FD_WRITE')
        off = s64(off)
        f = self.at(self.wrable, g, off)
        iovs = self.iovs(mem, p, n)
        mem.chk(out, 4)
        if off < 0:
            raise MErr('INVAL', 'OVERFLOW') if f.inode is not None and f.inode.kind == 'reg' and g.cap is None else \
                MErr('INVAL', 'SPIPE', 'NOTSUP')
        if f.inode is None or f.inode.kind != 'reg' or g.cap is not None:
            raise MErr('SPIPE', 'INVAL', 'NOTSUP')
        data = b''.join(mem.get(a, ln) for a, ln in iovs)
        fdn = self.fdnum(g)
        # on Linux a positioned write to a descriptor in append mode appends
        limit = self.limit(len(f.inode.data) if f.flags & O_APPEND else off, data)
        o = Out()
        o.count = ('out', out, limit, lambda m: self.host(self.k.pwrite, fdn, data[:m], off))
        return o

    def limit(self, off, data):
        from .kernel import MAXFILE
        if data and off >= MAXFILE:
            raise MErr('FBIG')
        return min(len(data), max(0, MAXFILE - off))

    def fd_write(self, mem, fd, p, n, out):
        g = self.get(fd)
        self.filecheck(g, 'FD_WRITE')
        iovs = self.iovs(mem, p, n)
        mem.chk(out, 4)
        data = b''.join(mem.get(a, ln) for a, ln in iovs)
        if g.cap is not None:
            o = Out()

            def put(m, c=g.cap):
                c.data[c.pos:c.pos + m] = data[:m]
                c.pos += m
            o.count = ('out', out, len(data), put)
            return o
        f = self.wrable(g)
        fdn = self.fdnum(g)
        if f.sock is not None:
            s = f.sock
            if s.type == 'stream' and s.state == 'conn' and not s.wr_shut and not s.tx.eof and not s.tx.err:
                room = s.tx.cap - len(s.tx.buf)
                if room <= 0 and data:
                    if f.flags & O_NONBLOCK:
                        raise MErr('AGAIN')
                    o = Out(loose=True)
                    o.note = 'blocks'
                    return o
                o = Out()
                o.count = ('out', out, max(0, min(room, len(data))), lambda m: self.host(self.k.write, fdn, data[:m]))
                return o
            self.host(self.k.write, fdn, data)
            return Out(loose=True)
        if f.chan_w is not None:
            ch = f.chan_w
            if ch.eof and data:
                raise MErr('PIPE')
            room = ch.cap - len(ch.buf)
            if data and room <= 0:
                if f.flags & O_NONBLOCK:
                    raise MErr('AGAIN')
                o = Out(loose=True)
                o.note = 'blocks'
                return o
            o = Out()
            o.count = ('out', out, max(0, min(len(data), room)) if f.flags & O_NONBLOCK else len(data),
                       lambda m: self.host(self.k.write, fdn, data[:m]))
            return o
        if f.inode.kind != 'reg':
            o = Out(loose=True)
            o.mem_any = [(out, 4)]
            return o
        pos = len(f.inode.data) if f.flags & O_APPEND else f.pos
        limit = self.limit(pos, data)
        o = Out()
        o.count = ('out', out, limit, lambda m: self.host(self.k.write, fdn, data[:m]))
        return o

    def fd_prestat_get(self, mem, fd, p):
        g = self.get(fd)
        if g.moved:
            o = Out(also={W['BADF']}, loose=True)
            o.mem_any = [(p, 8)]
            return o
        if g.pre is None:
            raise MErr('BADF', 'NOTSUP', 'NOTDIR')
        mem.chk(p, 8)
        o = Out(outs=[(p, b'\0'), (p + 4, struct.pack('<I', len(os.fsencode(g.pre))))])
        o.mem_any = [(p + 1, 3)]
        return o

    def fd_prestat_dir_name(self, mem, fd, p, n):
        g = self.get(fd)
        if g.moved:
            o = Out(also={W['BADF'], W['NAMETOOLONG']}, loose=True)
            o.mem_any = [(p, n)]
            return o
        if g.pre is None:
            raise MErr('BADF', 'NOTSUP', 'NOTDIR')
        b = os.fsencode(g.pre)
        if len(b) > n:
            raise MErr('NAMETOOLONG', 'OVERFLOW', 'INVAL')
        mem.chk(p, len(b))
        return Out(outs=[(p, b)])

    def fd_readdir(self, mem, fd, p, n, cookie, out):
        g = self.get(fd)
        if g.type != T_DIR:
            codes = ['NOTDIR', 'BADF']
            if not g.base & R['FD_READDIR']:
                codes += ['NOTCAPABLE', 'PERM']
            raise MErr(*codes)
        self.need(g, 'FD_READDIR')
        mem.chk(p, n)
        mem.chk(out, 4)
        f = self.ofd(g)
        o = Out(also={W['INVAL'], W['NOENT']} if s64(cookie) < 0 or cookie > 1 << 20 else ())
        o.note = ('readdir', g, p, n, cookie, out)
        o.mem_any = [(p, n), (out, 4)]
        o.dir = f.inode
        return o

    def fd_renumber(self, mem, a, b):
        g, h = self.get(a), self.get(b)
        o = Out()
        if g is h:
            return o
        o.note = ('renumber', g, h)
        return o

    def fd_seek(self, mem, fd, off, whence, out):
        g = self.get(fd)
        self.filecheck(g, 'FD_SEEK')
        if whence not in (0, 1, 2):
            raise MErr('INVAL')
        off = s64(off)
        f = self.ofd(g)
        if f.inode is None or f.chan_r is not None or f.chan_w is not None:
            raise MErr('SPIPE')
        if f.inode.kind != 'reg':
            o = Out(loose=True)
            o.mem_any = [(out, 8)]
            return o
        mem.chk(out, 8)
        p = self.host(self.k.lseek, self.fdnum(g), off, whence)
        return Out(outs=[(out, struct.pack('<Q', p))])

    def fd_tell(self, mem, fd, out):
        g = self.get(fd)
        self.filecheck(g, 'FD_TELL')
        f = self.ofd(g)
        if f.inode is None or f.chan_r is not None or f.chan_w is not None:
            raise MErr('SPIPE')
        mem.chk(out, 8)
        return Out(outs=[(out, struct.pack('<Q', f.pos))])

    # -- paths
    def path_create_directory(self, mem, fd, p, n):
        g = self.get(fd)
        self.need(g, 'PATH_CREATE_DIRECTORY')
        raw = mem.get(p, n)
        d, last, node = self.resolve(g, raw, False)
        self.host(self.k.mkdir, last, dir_fd=self.pseudo(d))
        return Out()

    def wtype(self, n):
        return {'blk': T_BLK, 'chr': T_CHR, 'dir': T_DIR, 'reg': T_REG, 'lnk': T_LNK}.get(n.kind, T_UNKNOWN)

    def path_filestat_get(self, mem, fd, fl, p, n, out):
        g = self.get(fd)
        self.need(g, 'PATH_FILESTAT_GET')
        raw = mem.get(p, n)
        d, last, node = self.resolve(g, raw, fl & 1)
        if node is None:
            raise MErr('NOENT')
        mem.chk(out, 64)
        return self.statrec(out, node, self.wtype(node))

    def path_filestat_set_times(self, mem, fd, fl, p, n, atim, mtim, flags):
        g = self.get(fd)
        self.need(g, 'PATH_FILESTAT_SET_TIMES')
        raw = mem.get(p, n)
        bad = flags & 1 and flags & 2 or flags & 4 and flags & 8
        try:
            d, last, node = self.resolve(g, raw, fl & 1)
            if node is None:
                raise MErr('NOENT')
        except MErr as e:
            if bad:
                e.codes.add(W['INVAL'])
            raise
        return self.times(node, atim, mtim, flags)

    def both(self, *fns):
        """Two resolutions that may be made in either order: their errors are interchangeable."""
        res, codes = [], set()
        for fn in fns:
            try:
                res.append(fn())
            except MErr as e:
                codes |= e.codes
                res.append(None)
        if codes:
            e = MErr()
            e.codes = codes
            raise e
        return res

    def path_link(self, mem, fd, fl, p, n, fd2, p2, n2):
        g, h = self.get(fd), self.get(fd2)
        self.both(lambda: self.need(g, 'PATH_LINK_SOURCE'), lambda: self.need(h, 'PATH_LINK_TARGET'))
        a, b = mem.get(p, n), mem.get(p2, n2)
        (sd, sl, sn), (dd, dl, dn) = self.both(lambda: self.exists(g, a, fl & 1), lambda: self.resolve(h, b, False))
        x, y = self.pseudo(sd, 0), self.pseudo(dd, 1)
        codes = set()
        if sn is not None and sn.kind == 'dir':
            codes |= {W['PERM'], W['ACCES'], W['ISDIR']}
        try:
            self.host(self.k.link, sl, dl, src_dir_fd=x, dst_dir_fd=y)
        except MErr as e:
            e.codes |= codes
            raise
        return Out()

    def path_open(self, mem, fd, dfl, p, n, ofl, base, inh, fdfl, out):
        g = self.get(fd)
        self.need(g, 'PATH_OPEN')
        raw = mem.get(p, n)
        base, inh = base & U64, inh & U64
        codes = set()
        if ofl & 1 and not g.base & R['PATH_CREATE_FILE']:
            codes |= {W['NOTCAPABLE'], W['PERM']}
        if ofl & 8 and not g.base & R['PATH_FILESTAT_SET_SIZE']:
            codes |= {W['NOTCAPABLE'], W['PERM']}
        also = set()
        if (base & ~g.inh) or (inh & ~g.inh):
            also |= {W['NOTCAPABLE'], W['PERM']}
        gb = base & g.inh
        flags = {(0, 0): O_RDONLY, (1, 0): O_RDONLY, (0, 1): O_WRONLY, (1, 1): O_RDWR}[
            (bool(gb & R['FD_READ']), bool(gb & R['FD_WRITE']))]
        creat, dirf, excl, trunc = ofl & 1, ofl & 2, ofl & 4, ofl & 8
        follow = dfl & 1 and not (creat and excl)
        if ofl & ~15 or fdfl & ~31 or dfl & ~1:
            also |= {W['INVAL']}
        try:
            d, last, node = self.resolve(g, raw, follow)
            if not dfl & 1:
                flags |= O_NOFOLLOW
            flags |= (O_CREAT if creat else 0) | (O_DIRECTORY if dirf else 0) | (O_EXCL if excl else 0) | \
                (O_TRUNC if trunc else 0) | (O_APPEND if fdfl & APPEND else 0) | (O_NONBLOCK if fdfl & NONBLOCK else 0) | \
                (O_DSYNC if fdfl & (DSYNC | RSYNC) else 0) | (O_SYNC if fdfl & SYNC else 0)
            x = self.pseudo(d)
            hfd = self.host(self.k.open, last, flags | O_NOFOLLOW, 0o644, dir_fd=x)
            if codes:
                raise MErr()
            mem.chk(out, 4)
        except MErr as e:
            e.codes |= codes | also
            if creat and excl and W['ISDIR'] in e.codes:
                e.codes |= {W['EXIST']}
            if creat and dirf:
                e.codes |= {W['INVAL'], W['NOTDIR'], W['ISDIR'], W['EXIST']}
            raise
        f = self.k.fds[hfd].ofd
        o = Out(also=also)
        o.opens = f
        o.opens_hfd = hfd
        o.new_type = self.wtype(f.inode)
        o.new_flags = fdfl & 31
        o.opens_rights = (gb, inh & g.inh)
        o.note = ('open', out)
        o.mem_any = [(out, 4)]
        return o

    def path_readlink(self, mem, fd, p, n, buf, blen, out):
        g = self.get(fd)
        self.need(g, 'PATH_READLINK')
        raw = mem.get(p, n)
        d, last, node = self.resolve(g, raw, False)
        if node is None:
            raise MErr('NOENT')
        if node.kind != 'lnk':
            raise MErr('INVAL')
        b = node.target[:blen]
        mem.chk(buf, len(b))
        mem.chk(out, 4)
        return Out(outs=[(buf, b), (out, struct.pack('<I', len(b)))])

    def path_remove_directory(self, mem, fd, p, n):
        g = self.get(fd)
        self.need(g, 'PATH_REMOVE_DIRECTORY')
        raw = mem.get(p, n)
        d, last, node = self.resolve(g, raw, False)
        self.dotfix(last, node, ('INVAL', 'NOTEMPTY', 'BUSY', 'PERM', 'NOTCAPABLE'))
        self.host(self.k.rmdir, last, dir_fd=self.pseudo(d))
        return Out()

    def dotfix(self, last, node, codes):
        """'.', '..' and the root itself can be neither removed nor renamed; documents differ on the code."""
        if last.rstrip(b'/') == b'.':
            raise MErr(*codes)

    def path_rename(self, mem, fd, p, n, fd2, p2, n2):
        g, h = self.get(fd), self.get(fd2)
        self.both(lambda: self.need(g, 'PATH_RENAME_SOURCE'), lambda: self.need(h, 'PATH_RENAME_TARGET'))
        a, b = mem.get(p, n), mem.get(p2, n2)

        try:
            (sd, sl, sn), (dd, dl, dn) = self.both(lambda: self.exists(g, a, False), lambda: self.resolve(h, b, False))
        except MErr as e:
            # a name which cannot be renamed at all may be reported before a missing one
            if any(x.rstrip(b'/').split(b'/')[-1] in (b'.', b'..', b'') for x in (a, b)):
                e.codes |= {W[i] for i in ('BUSY', 'INVAL', 'NOTDIR', 'EXIST', 'NOTEMPTY', 'ISDIR')}
            raise
        if sl.rstrip(b'/') == b'.' or dl.rstrip(b'/') == b'.':
            raise MErr('BUSY', 'INVAL', 'EXIST', 'NOTEMPTY', 'PERM', 'NOTCAPABLE', 'NOENT', 'ISDIR', 'NOTDIR')
        x, y = self.pseudo(sd, 0), self.pseudo(dd, 1)
        try:
            self.host(self.k.rename, sl, dl, src_dir_fd=x, dst_dir_fd=y)
        except MErr as e:
            # a file cannot be renamed to 'dir/'; which of the two is wrong is a matter of taste
            if e.codes & {W['NOTDIR'], W['ISDIR']} and (sl.endswith(b'/') or dl.endswith(b'/')):
                e.codes |= {W['NOTDIR'], W['ISDIR'], W['NOTEMPTY'], W['EXIST']}
            raise
        return Out()

    def path_symlink(self, mem, p, n, fd, p2, n2):
        g = self.get(fd)
        self.need(g, 'PATH_SYMLINK')
        t, b = mem.get(p, n), mem.get(p2, n2)
        codes = set()
        optional = set()
        try:
            self.path(t)
        except MErr as e:
            codes |= e.codes
        if t.startswith(b'/'):
            codes |= {W['PERM'], W['NOTCAPABLE']}
        elif self.lexical_escape(t):
            optional |= {W['PERM'], W['NOTCAPABLE']}
        try:
            d, last, node = self.resolve(g, b, False)
            self.host(self.k.symlink, t, last, dir_fd=self.pseudo(d))
            if codes:
                raise MErr()
        except MErr as e:
            e.codes |= codes | optional
            if t == b'':
                e.codes |= {W['NOENT'], W['INVAL']}
            raise
        return Out(also=optional)

    def path_unlink_file(self, mem, fd, p, n):
        g = self.get(fd)
        self.need(g, 'PATH_UNLINK_FILE')
        raw = mem.get(p, n)
        try:
            d, last, node = self.resolve(g, raw, False)
        except MErr as e:
            raise
        self.dotfix(last, node, ('ISDIR', 'PERM', 'NOTCAPABLE', 'INVAL', 'BUSY', 'NOTDIR', 'ACCES'))
        codes = {W['PERM'], W['ACCES']} if node is not None and node.kind == 'dir' else set()
        try:
            self.host(self.k.unlink, last, dir_fd=self.pseudo(d))
        except MErr as e:
            e.codes |= codes
            raise
        return Out()

    # -- polling
    def poll_oneoff(self, mem, p, ev, n, out):
        if n == 0:
            raise MErr('INVAL')
        mem.chk(p, 48 * n)
        mem.chk(ev, 32 * n)
        mem.chk(out, 4)
        subs = []
        codes = set()
        for i in range(n):
            a = p + 48 * i
            ud, typ = mem.u64(a), mem.u8(a + 8)
            if typ == 0:
                cid, t, fl = mem.u32(a + 16), mem.u64(a + 24), mem.u16(a + 40)
                if cid > 3:
                    codes.add(W['INVAL'])
                subs.append((ud, typ, cid, t, fl & 1, None))
            elif typ in (1, 2):
                o = None
                try:
                    g = self.get(mem.u32(a + 16))
                    self.need(g, 'POLL_FD_READWRITE')
                    o = 'cap' if g.cap is not None else g.oid
                except MErr as e:
                    codes |= e.codes
                subs.append((ud, typ, None, None, None, o))
            else:
                codes.add(W['INVAL'])
        if codes:
            return Out(errs=codes)
        o = Out()
        o.note = ('poll', subs, ev, out)
        o.mem_any = [(ev, 32 * n), (out, 4)]
        return o

    # -- sockets
    def sock(self, fd):
        g = self.get(fd)
        if g.type not in (T_DGRAM, T_STREAM):
            codes = ['NOTSOCK']
            raise MErr(*codes)
        return g, self.ofd(g)

    def sock_accept(self, mem, fd, flags, out):
        try:
            return self.sock_accept1(mem, fd, flags, out)
        except MErr as e:
            if flags & ~31:
                e.codes.add(W['INVAL'])
            raise

    def sock_accept1(self, mem, fd, flags, out):
        g, f = self.sock(fd)
        self.need(g, 'SOCK_ACCEPT')
        mem.chk(out, 4)
        s = f.sock
        if s.type == 'dgram':
            raise MErr('NOTSUP', 'INVAL')
        if s.state != 'listen' or s.rd_shut:
            raise MErr('INVAL', 'NOTSUP')
        if not s.queue:
            if f.flags & O_NONBLOCK or flags & NONBLOCK:
                raise MErr('AGAIN')
            o = Out(loose=True)
            o.note = 'blocks'
            return o
        c = s.queue.pop(0)
        o = Out(also={W['INVAL']} if flags & ~31 else ())
        nf = self.k.new_ofd(O_RDWR | (O_NONBLOCK if flags & NONBLOCK else 0), sock=c)
        hfd = self.k.install(nf, owner='model')
        o.opens = nf
        o.opens_hfd = hfd
        o.new_type = T_STREAM
        o.new_flags = flags & 31
        o.opens_rights = (g.base, g.inh)
        o.note = ('open', out)
        o.mem_any = [(out, 4)]
        return o

    def sock_recv(self, mem, fd, p, n, ri, out, oflags):
        g, f = self.sock(fd)
        self.need(g, 'FD_READ')
        iovs = self.iovs(mem, p, n)
        mem.chk(out, 4)
        mem.chk(oflags, 2)
        s = f.sock
        total = sum(x for _, x in iovs)
        if s.state == 'listen':
            raise MErr('NOTCONN', 'INVAL')
        ch = s.rx
        if s.type == 'dgram':
            if not ch.msgs and not ch.err and (f.flags & O_NONBLOCK or not s.rd_shut):
                if f.flags & O_NONBLOCK:
                    raise MErr('AGAIN')
                o = Out(loose=True)
                o.note = 'blocks'
                return o
            if ch.err:
                e = MErr()
                e.codes = host_to_wasi(s.take_err())
                raise e
            m = ch.msgs[0] if ch.msgs else b''
            data = m[:total]
            if ch.msgs and not ri & 1:
                ch.msgs.pop(0)
            trunc = len(m) > total
            o = Out(outs=self.scatter(iovs, data) + [(out, struct.pack('<I', len(data)))])
            o.mem_any = [(oflags, 2)]
            o.note = ('recv', out, oflags, trunc)
            return o
        ready = ch.buf or ch.eof or ch.err or s.rd_shut
        if not ready:
            # Whether a read of nothing waits for something to arrive is left to the implementation.
            if f.flags & O_NONBLOCK and total:
                raise MErr('AGAIN')
            if f.flags & O_NONBLOCK:
                o = self.transfer_in(iovs, b'', out)
                o.mem_any = [(oflags, 2)]
                o.note = ('recv', out, oflags, False)
                o.also |= {W['AGAIN']}
                return o
            o = Out(loose=True)
            o.note = 'blocks'
            return o
        if not ch.buf and ch.err:
            e = MErr()
            e.codes = host_to_wasi(s.take_err())
            raise e
        waitall = ri & 2 and not f.flags & O_NONBLOCK
        if waitall and len(ch.buf) < total and not (ch.eof or ch.err or s.rd_shut):
            o = Out(loose=True)
            o.note = 'blocks'
            return o
        data = bytes(ch.buf[:total])

        def eat(k, ch=ch):
            if not ri & 1:
                del ch.buf[:k]
        o = self.transfer_in(iovs, data, out, eat)
        o.mem_any = [(oflags, 2)]
        o.note = ('recv', out, oflags, False)
        o.waitall = bool(waitall)
        return o

    def sock_send(self, mem, fd, p, n, si, out):
        g, f = self.sock(fd)
        self.need(g, 'FD_WRITE')
        iovs = self.iovs(mem, p, n)
        mem.chk(out, 4)
        data = b''.join(mem.get(a, ln) for a, ln in iovs)
        s = f.sock
        if s.state != 'conn':
            raise MErr('PIPE', 'NOTCONN', 'CONNRESET')
        if s.tx.err:
            e = MErr()
            e.codes = host_to_wasi(s.take_err())
            raise e
        if s.wr_shut or s.tx.eof and s.type == 'stream':
            raise MErr('PIPE')
        fdn = self.fdnum(g)
        if s.type == 'dgram':
            self.host(self.k.send, fdn, data)
            return Out(outs=[(out, struct.pack('<I', len(data)))])
        room = s.tx.cap - len(s.tx.buf)
        if data and room <= 0:
            if f.flags & O_NONBLOCK:
                raise MErr('AGAIN')
            o = Out(loose=True)
            o.note = 'blocks'
            return o
        o = Out()
        o.count = ('out', out, max(0, min(room, len(data))), lambda m: self.host(self.k.send, fdn, data[:m]))
        return o

    def sock_shutdown(self, mem, fd, how):
        g, f = self.sock(fd)
        codes = set()
        if how & 0xffffffff not in (1, 2, 3):
            codes.add(W['INVAL'])
        if not g.base & R['SOCK_SHUTDOWN']:
            codes |= {W['NOTCAPABLE'], W['PERM']}
        try:
            if not codes:
                self.host(self.k.shutdown, fd_of(self, g), {1: 0, 2: 1, 3: 2}[how])
            else:
                raise MErr()
        except MErr as e:
            e.codes |= codes
            raise
        return Out()


def fd_of(ref, g):
    return ref.fdnum(g)
