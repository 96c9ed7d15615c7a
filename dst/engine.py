"""Lockstep execution: one guest call on the real pywasm inside the simulated kernel, one prediction by the reference
model on a copy of the kernel, and the comparison of everything a guest, an embedder or another process could see.

A session is data (JSON): an initial world and a list of symbolic calls, each with its planned faults and with the
interference of other processes at chosen system calls. The same data gives the same execution, always."""
import gc
import io
import random
import struct

from . import asm
from .kernel import (NS, O_ACCMODE, O_APPEND, O_DSYNC, O_NONBLOCK, O_RDONLY, O_RDWR, O_SYNC, O_WRONLY, Chan, Fault,
                     FdEnt, Kernel, SimHang, SimUnsupported, Sock)
from .refwasi import (ALL_RIGHTS, APPEND, DSYNC, NONBLOCK, PATH_RIGHTS, R, RSYNC, SYNC, T_CHR, T_DGRAM, T_DIR, T_LNK,
                      T_REG, T_STREAM, U64, W, GFd, Mem, Oob, Out, Ref, host_to_wasi, s64, wname)
from .world import World, cur
import posixpath

PAGE = 65536


def B(s):
    """JSON strings carry bytes as latin-1."""
    return s.encode('latin-1')


def S(b):
    return b.decode('latin-1')


# Parameters of every call, in order. Kinds: fd NAME | path NAME | iov | i NAME DEFAULT | out NAME SIZE |
# buf NAME LENFIELD | subs
T = {
    'args_get': 'out:argv:256 out:buf:4096', 'args_sizes_get': 'out:a:4 out:b:4',
    'environ_get': 'out:argv:256 out:buf:4096', 'environ_sizes_get': 'out:a:4 out:b:4',
    'clock_res_get': 'i:id:0 out:o:8', 'clock_time_get': 'i:id:0 i:prec:0 out:o:8',
    'fd_advise': 'fd:fd i:off:0 i:len:0 i:adv:0', 'fd_allocate': 'fd:fd i:off:0 i:len:0', 'fd_close': 'fd:fd',
    'fd_datasync': 'fd:fd', 'fd_fdstat_get': 'fd:fd out:o:24', 'fd_fdstat_set_flags': 'fd:fd i:flags:0',
    'fd_fdstat_set_rights': 'fd:fd i:base:0 i:inh:0', 'fd_filestat_get': 'fd:fd out:o:64',
    'fd_filestat_set_size': 'fd:fd i:size:0', 'fd_filestat_set_times': 'fd:fd i:atim:0 i:mtim:0 i:flags:0',
    'fd_pread': 'fd:fd iov:r i:off:0 out:o:4', 'fd_prestat_get': 'fd:fd out:o:8',
    'fd_prestat_dir_name': 'fd:fd buf:buf:len', 'fd_pwrite': 'fd:fd iov:w i:off:0 out:o:4',
    'fd_read': 'fd:fd iov:r out:o:4', 'fd_readdir': 'fd:fd buf:buf:len i:cookie:0 out:o:4',
    'fd_renumber': 'fd:fd fd:fd2', 'fd_seek': 'fd:fd i:off:0 i:whence:0 out:o:8', 'fd_sync': 'fd:fd',
    'fd_tell': 'fd:fd out:o:8', 'fd_write': 'fd:fd iov:w out:o:4', 'path_create_directory': 'fd:fd path:path',
    'path_filestat_get': 'fd:fd i:dfl:0 path:path out:o:64',
    'path_filestat_set_times': 'fd:fd i:dfl:0 path:path i:atim:0 i:mtim:0 i:flags:0',
    'path_link': 'fd:fd i:dfl:0 path:path fd:fd2 path:path2',
    'path_open': 'fd:fd i:dfl:0 path:path i:ofl:0 i:base:0 i:inh:0 i:fdfl:0 out:o:4',
    'path_readlink': 'fd:fd path:path buf:buf:len out:o:4', 'path_remove_directory': 'fd:fd path:path',
    'path_rename': 'fd:fd path:path fd:fd2 path:path2', 'path_symlink': 'path:path fd:fd path:path2',
    'path_unlink_file': 'fd:fd path:path', 'poll_oneoff': 'subs', 'proc_raise': 'i:sig:0', 'sched_yield': '',
    'random_get': 'buf:buf:len', 'sock_accept': 'fd:fd i:flags:0 out:o:4',
    'sock_recv': 'fd:fd iov:r i:flags:0 out:o:4 out:of:4', 'sock_send': 'fd:fd iov:w i:flags:0 out:o:4',
    'sock_shutdown': 'fd:fd i:how:0', 'proc_exit': 'i:code:0',
}
T = {k: [p.split(':') for p in v.split()] for k, v in T.items()}

_canary = {}


def canary(n):
    n %= 7
    if n not in _canary:
        rng = random.Random(1000 + n)
        _canary[n] = bytes(rng.randrange(256) for _ in range(PAGE // 4)) * 4
    return _canary[n]


class Enc:
    """A call laid out in guest memory."""

    def __init__(self, op, labels, n, size=PAGE):
        self.op, self.labels = op, labels
        self.img = bytearray(canary(n))
        self.top = 1024 + 8 * (n % 5)
        self.args = []
        self.outs = []              # declared output regions
        self.ptrs = op.get('ptr', {})
        self.wild = False
        self.addr = {}
        name = op['op']
        for p in T[name]:
            getattr(self, 'p_' + p[0])(*p[1:])

    def alloc(self, n, key, data=None):
        if key in self.ptrs:
            a = self.ptrs[key] & 0xffffffff
            if a + n > PAGE:
                self.wild = True
            if data is not None and a + n <= PAGE:
                self.img[a:a + n] = data
            return a
        a = self.top
        if a + n + 64 > PAGE:
            self.wild = True
            return PAGE - 8
        self.top = (a + n + 24 + 7) & ~7
        if data is not None:
            self.img[a:a + n] = data
        return a

    def p_fd(self, f):
        v = self.op.get(f, 0)
        if isinstance(v, str):
            v = self.labels.get(v, 9999)
        self.args.append(v)

    def p_i(self, f, d):
        self.args.append(self.op.get(f, int(d)))

    def p_path(self, f):
        b = B(self.op.get(f, ''))
        n = self.op.get(f + '_len', len(b))
        if n != len(b):
            self.wild = True
        self.args += [self.alloc(len(b), f, b), n]

    def p_out(self, f, size):
        a = self.alloc(int(size), f)
        self.addr[f] = a
        self.outs.append((a, int(size)))
        self.args.append(a)

    def p_buf(self, f, lf):
        n = self.op.get(lf, 64) & 0xffffffff
        a = self.alloc(n, f) if n <= 40000 else self.ptrs.get(f, 2048)
        if a + n > PAGE:
            self.wild = True
        self.addr[f] = a
        self.outs.append((a, n))
        self.args += [a, n]

    def p_iov(self, mode):
        iov = self.op.get('iov', [])
        ents = []
        for i, x in enumerate(iov):
            key = 'iov%d' % i
            if mode == 'w':
                b = B(x) if isinstance(x, str) else bytes(x)
                a = self.alloc(len(b), key, b)
                ents.append((a, len(b)))
            else:
                a = self.alloc(x, key) if x <= 40000 else self.ptrs.get(key, 2048)
                if a + x > PAGE:
                    self.wild = True
                ents.append((a, x))
                self.outs.append((a, x))
        n = self.op.get('iovn', len(ents))
        if n != len(ents):
            self.wild = True
        tab = b''.join(struct.pack('<II', a & 0xffffffff, ln & 0xffffffff) for a, ln in ents)
        self.args += [self.alloc(len(tab), 'iov', tab), n]
        self.addr['iov'] = ents

    def p_subs(self):
        subs = self.op.get('subs', [])
        raw = b''
        for s in subs:
            b = bytearray(48)
            struct.pack_into('<QB', b, 0, s['ud'], s['type'])
            if s['type'] == 0:
                # the unused half of clock id and flags is padding: a guest may leave anything there
                struct.pack_into('<I', b, 16, s.get('id', 0) & 0xffffffff)
                struct.pack_into('<I', b, 20, s.get('pad', 0))
                struct.pack_into('<QQH', b, 24, s.get('t', 0) & U64, s.get('prec', 0), s.get('flags', 0))
                struct.pack_into('<HI', b, 42, s.get('pad', 0) & 0xffff, s.get('pad', 0))
            else:
                v = s.get('fd', 0)
                if isinstance(v, str):
                    v = self.labels.get(v, 9999)
                struct.pack_into('<I', b, 16, v & 0xffffffff)
            raw += bytes(b)
        a = self.alloc(len(raw), 'in', raw)
        n = self.op.get('n', len(subs))
        o = self.alloc(32 * max(1, len(subs)), 'ev')
        c = self.alloc(4, 'o')
        self.addr['ev'], self.addr['o'] = o, c
        self.outs += [(o, 32 * len(subs)), (c, 4)]
        self.args += [a, o, n, c]


_SIGN = {asm.I32: 32, asm.I64: 64}


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Res:
    """What the real code did."""
    __slots__ = ('kind', 'val', 'mem', 'size', 'exc', 't0', 't1', 'sys')


# What a POSIX host that is not Linux may not have.
BARE = ('posix_fallocate', 'posix_fadvise', 'fdatasync', 'O_PATH', 'O_RSYNC', 'getrandom', 'preadv', 'pwritev', 'sendfile',
        'copy_file_range', 'memfd_create', 'O_TMPFILE', 'O_NOATIME', 'O_DIRECT')

_modcache = {}


def guest_bytes(ending='ret', pages=1):
    """The trampoline guest plus a _start that ends in the given way: ret, exit:N, trap, host, depth."""
    key = (ending, pages)
    if key in _modcache:
        return _modcache[key]
    m = asm.Mod()
    idx = {}
    for n in asm.WASI:
        idx[n] = m.imp_func('wasi_snapshot_preview1', n, m.type(asm.WASI[n], [] if n == 'proc_exit' else [asm.I32]))
    step = m.imp_func('env', 'step', m.type([], []))
    m.mem(pages)
    m.export('memory', 2, 0)
    for n in asm.WASI:
        t = m.type(asm.WASI[n], [] if n == 'proc_exit' else [asm.I32])
        m.func(t, b''.join(asm.get(j) for j in range(len(asm.WASI[n]))) + asm.call(idx[n]), export=n)
    t0 = m.type([], [])
    body = asm.call(step)
    if ending.startswith(('exit:', 'sysexit:')):
        body += asm.i32c(int(ending.partition(':')[2])) + asm.call(idx['proc_exit']) + asm.call(step)
    elif ending == 'trap':
        body += asm.UNREACHABLE
    elif ending == 'depth':
        r = m.nif + len(m.funcs)
        m.func(t0, asm.call(r))
        body += asm.call(r)
    m.func(t0, body, export='_start')
    _modcache[key] = m.bytes()
    return _modcache[key]


def outer_bytes():
    """A module with a memory of its own that reaches the WASI calls only through the functions of another instance."""
    if 'outer' not in _modcache:
        m = asm.Mod()
        idx = {n: m.imp_func('g', n, m.type(asm.WASI[n], [] if n == 'proc_exit' else [asm.I32])) for n in asm.WASI}
        m.mem(1)
        m.export('memory', 2, 0)
        m.data(0, OUTER)
        for n in asm.WASI:
            t = m.type(asm.WASI[n], [] if n == 'proc_exit' else [asm.I32])
            m.func(t, b''.join(asm.get(j) for j in range(len(asm.WASI[n]))) + asm.call(idx[n]), export=n)
        _modcache['outer'] = m.bytes()
    return _modcache['outer']


OUTER = bytes((i * 37 + 11) % 251 for i in range(PAGE))


def build_kernel(init):
    k = Kernel(init.get('seed', 0))
    k.latency = init.get('latency', 1000)
    k.fd_limit = init.get('fd_limit', 64)
    k.actor = 'host'
    for e in init['tree']:
        p = B(e[1])
        if e[0] == 'd':
            k.put_dir(p)
        elif e[0] == 'f':
            k.put_file(p, B(e[2]))
        elif e[0] == 'l':
            k.put_link(p, B(e[2]))
        elif e[0] == 'p':
            k.put_fifo(p)
        elif e[0] == 'h':
            d, nm = k.raw_parent(p)
            k.attach(d, nm, k.raw_get(B(e[2])))
        k.wall += 1_000_003
    for n in k.inodes.values():
        n.mtime -= 5 * NS + n.ino
        n.atime -= 7 * NS + n.ino
        n.ctime -= 3 * NS + n.ino
    if init.get('cwd'):
        k.cwd = k.raw_get(B(init['cwd']))
    # standard streams: pipes held by the simulated terminal
    sin, sout, serr = Chan(cap=1 << 24), Chan(cap=1 << 24), Chan(cap=1 << 24)
    sin.buf += B(init.get('stdin', ''))
    sin.eof = True
    # ... or files, as with redirections of a shell: < in, > out, 2>> err
    files = dict(init.get('stdfiles', ()))
    for ch, fl in ((sin, 'r'), (sout, 'w'), (serr, 'w')):
        i, flags = len(k.fds), O_RDONLY if fl == 'r' else O_WRONLY
        if i in files:
            n = k.mk('reg')
            n.data += B(init.get('stdin', '')) if i == 0 else b'log so far\n'
            o = k.new_ofd(flags | (O_APPEND if i and files[i] else 0), inode=n)
        else:
            o = k.new_ofd(flags, **{'chan_' + fl: ch})
        o.refs = 1
        k.fds[len(k.fds)] = FdEnt(o, 'std')
    k.std = (sin, sout, serr)
    # descriptors of the embedder that the guest must never touch
    for i in range(init.get('host_fds', 2)):
        n = k.mk('reg')
        n.data += b'embedder %d' % i
        o = k.new_ofd(O_RDWR, inode=n)
        o.refs = 1
        k.fds[3 + 2 * i] = FdEnt(o, 'host')
    k.fd_floor = init.get('fd_floor', 0)
    k.fd_limit += k.fd_floor
    k.actor = 'guest'
    k.begin()
    return k


class Session:
    def __init__(self, init, ending='ret', world=None, runtime=None, kernel=None):
        """world, runtime, kernel: of another session, to be shared with it."""
        self.init = init
        cur.k = self.k = kernel or build_kernel(init)
        self.roots = []
        self.labels = {'stdin': 0, 'stdout': 1, 'stderr': 2}
        self.vio = []
        self.n = 0
        self.dead = False
        self.extra_cats = set()
        self.devs = {}
        self.raced = False
        self.on_hook = None
        self.watch_ready = False
        self.later_ran, self.ticks = [], []
        self.opened_now = []
        self.w = world or World(self.k, init.get('seed', 0), lacks=BARE if init.get('bare') else ())
        self.bare = bool(self.w.os.lacks)
        self.pyw = self.w.pywasm
        self.runtime = runtime or self.pyw.core.Runtime()
        before = set(self.k.fds)
        self.wasi = self.pyw.wasi.Preview1(list(init.get('args', ['prog'])), dict(init.get('dirs', {})),
                                           dict(init.get('envs', {})))
        self.wasi.bind(self.runtime)
        self.ending = ending
        self.step_fn = None

        def step(m, args):
            if self.step_fn:
                self.step_fn()
            return []
        core = self.pyw.core
        self.runtime.imports['env'] = {'step': self.runtime.allocate_func_host(core.FuncType([], []), step)}
        self.inst = self.runtime.instance(core.ModuleDesc.from_reader(io.BytesIO(guest_bytes(ending))))
        self.mem = self.runtime.exported_memory(self.inst, 'memory')
        self.top = self.inst
        if init.get('via'):
            self.runtime.imports['g'] = {e.name: e.data for e in self.inst.exps}
            self.top = self.runtime.instance(core.ModuleDesc.from_reader(io.BytesIO(outer_bytes())))
            self.top_mem = self.runtime.exported_memory(self.top, 'memory')
        self.ref = Ref()
        self.ref.args, self.ref.envs = list(init.get('args', ['prog'])), ['='.join(e) for e in sorted(init.get('envs', {}).items())]
        new = sorted(set(self.k.fds) - before)
        self.caps = {}
        # the three standard streams
        for i in range(3):
            g = GFd(i, self.k.fds[i].ofd.oid, T_CHR, 0, 0, std=True)
            self.ref.fds[i] = g
        for c in init.get('caps', []):
            self.capture(c)
        dirs = {posixpath.normpath(a): b for a, b in init.get('dirs', {}).items()}
        num = 3
        for gname, host in sorted(dirs.items()):
            node = self.k.raw_get(B(host)) if host.startswith('/') else \
                self.k.raw_get(B(posixpath.normpath(posixpath.join(init.get('cwd') or '/', host))))
            fd = [f for f in new if self.k.fds[f].ofd.inode is node]
            if not fd:
                self.vio.append(('setup', 'no host descriptor for preopen %r' % gname, {}))
                self.dead = True
                return
            fd = fd[0]
            new.remove(fd)
            g = GFd(num, self.k.fds[fd].ofd.oid, T_DIR, 0, 0, pre=gname)
            self.ref.fds[num] = g
            self.labels['pre%d' % (num - 3)] = num
            if node not in self.roots:
                self.roots.append(node)
            num += 1
        self.extra = {self.k.fds[f].ofd.oid for f in new}
        for s in init.get('socks', []):
            self.add_sock(s)
        for g in list(self.ref.fds.values()):
            self.learn(g)
            self.given(g)
        self.known = self.out_inodes()

    def given(self, g):
        """The rights that a standard stream or a preopened directory begins with."""
        if g.std:
            base, inh = R['POLL_FD_READWRITE'] | R['FD_WRITE' if g.num else 'FD_READ'], 0
        elif g.pre is not None:
            base = PATH_RIGHTS | R['FD_READDIR'] | R['FD_FILESTAT_GET'] | R['FD_FILESTAT_SET_TIMES']
            inh = ALL_RIGHTS & ~R['SOCK_SHUTDOWN'] & ~R['SOCK_ACCEPT']
        else:
            return
        lack = [n for n in R if (base & ~g.base | inh & ~g.inh) & R[n]]
        if lack:
            self.vio.append(('norights', 'descriptor %d begins without the rights %s' % (g.num, ' '.join(lack)),
                             {'op': {'op': 'setup'}, 'lack': lack}))

    def out_inodes(self):
        """Inodes that lie outside every preopened directory."""
        inside = set()
        todo = list(self.roots)
        while todo:
            n = todo.pop()
            if n.ino in inside:
                continue
            inside.add(n.ino)
            if n.kind == 'dir':
                todo += [self.k.inodes[i] for i in n.ents.values()]
        return {i for i in self.k.inodes if i not in inside}

    def capture(self, i):
        class Cap:
            pass
        data = B(self.init.get('stdin', '')) if i == 0 else b''
        c = Cap()
        c.data, c.pos = bytearray(data), 0
        c.pipe = None
        pipe = io.BytesIO(bytearray(data))
        self.wasi.fd[i].pipe = pipe
        self.ref.fds[i].cap = c
        c.pipe = self.caps[i] = pipe

    def add_sock(self, s):
        k = self.k
        k.actor = 'host'
        kind = s['kind']                 # listen | stream | dgram | pipe_r | pipe_w
        if kind == 'pipe_r' or kind == 'pipe_w':
            ch = Chan(cap=s.get('cap', 1 << 16))
            ch.buf += B(s.get('data', ''))
            o = k.new_ofd((O_RDONLY if kind == 'pipe_r' else O_WRONLY) | (O_NONBLOCK if s.get('nb') else 0),
                          **{'chan_r' if kind == 'pipe_r' else 'chan_w': ch})
            typ = self.pyw.wasi.Preview1.FILETYPE_UNKNOWN
            mt = 0
        else:
            st = 'listen' if kind == 'listen' else 'conn'
            sk = k.new_sock('dgram' if kind == 'dgram' else 'stream', st)
            if s.get('cap'):
                sk.tx.cap = s['cap']
            o = k.new_ofd(O_RDWR | (O_NONBLOCK if s.get('nb') else 0), sock=sk)
            mt = typ = T_DGRAM if kind == 'dgram' else T_STREAM
        hfd = k.install(o, owner='guest')
        k.actor = 'guest'
        P = self.pyw.wasi.Preview1
        import dataclasses
        num = len(self.wasi.fd)
        rights = s.get('rights', R['FD_READ'] | R['FD_WRITE'] | R['SOCK_SHUTDOWN'] | R['SOCK_ACCEPT'] |
                       R['POLL_FD_READWRITE'] | R['FD_FDSTAT_SET_FLAGS'] | R['FD_FILESTAT_GET'])
        vals = dict(host_fd=hfd, host_flag=O_RDWR, host_name='sock', host_status=P.FILE_STATUS_OPENED, pipe=None,
                    wasm_fd=num, wasm_flag=NONBLOCK if s.get('nb') else 0, wasm_name='sock', wasm_rights_base=rights,
                    wasm_rights_root=rights, wasm_status=P.FILE_STATUS_OPENED, wasm_type=typ)
        names = [f.name for f in dataclasses.fields(P.File) if f.init]
        self.wasi.fd.append(P.File(**{n: v for n, v in vals.items() if n in names}))
        g = GFd(num, o.oid, mt, rights, rights, flags=NONBLOCK if s.get('nb') else 0)
        self.ref.fds[num] = g
        self.labels[s['as']] = num
        return o

    def fire(self, raw):
        k = self.k
        old, k.actor = k.actor, 'hook'
        try:
            RAW[raw['op']](self, raw)
        finally:
            k.actor = old
        self.later_ran.append(raw)
        self.tick()

    def tick(self):
        """Notes what is ready now: [(monotonic time, wall clock minus monotonic, {oid: (readable, writable)})]."""
        k = self.k
        if self.watch_ready:
            want = {g.oid for g in self.ref.fds.values() if g.open}
            self.ticks.append((k.mono, k.wall, {e.ofd.oid: (k.readable(e.ofd), k.writable(e.ofd))
                                                for e in k.fds.values() if e.ofd.oid in want}))

    # ---- one raw call --------------------------------------------------------------------------------------------
    def call(self, name, args):
        """Invokes the guest's trampoline. -> (kind, value)"""
        sig = asm.WASI[name]
        vals = [signed(v, _SIGN[t]) for v, t in zip(args, sig)]
        cur.k = self.k
        try:
            r = self.runtime.invocate(self.top, name, vals)
            return 'ret', r[0] if r else 0
        except SimUnsupported:
            raise
        except SimHang as e:
            return 'hang', str(e)
        except BaseException as e:
            if isinstance(e, (MemoryError, RecursionError)) and False:
                raise
            # a traceback would keep the failed call's objects, and their descriptors, alive
            return 'exc', e.with_traceback(None)

    def learn(self, g):
        self.mem.put(0, bytearray(256))
        self.k.begin()
        kind, v = self.call('fd_fdstat_get', [g.num, 64])
        if kind != 'ret' or v != 0:
            self.vio.append(('probe', 'fd_fdstat_get(%d) on an open descriptor: %s %r' % (g.num, kind, v), {}))
            return None
        b = bytes(self.mem.get(64, 24))
        g.base, g.inh = struct.unpack('<QQ', b[8:24])
        return b[0], struct.unpack('<H', b[2:4])[0]

    # ---- one checked call ----------------------------------------------------------------------------------------
    def blocks(self, op):
        """Whether the call waits for ever, even for what others are going to do meanwhile."""
        enc = Enc(op, self.labels, self.n)
        later = [r for _, r in sorted(op.get('later', []), key=lambda x: x[0])] if op['op'] != 'poll_oneoff' else []
        for j in range(len(later) + 1):
            k = self.k.clone()
            try:
                for raw in later[:j]:
                    RAW[raw['op']](self, raw, k)
                snap = self.refsnap()
                out = self.ref.predict(op['op'], self.norm(op['op'], enc.args), Mem(enc.img), k)
                self.refback(snap)
            except Oob:
                # the wait may come before the look at a pointer outside the memory
                return bool(op.get('ptr')) and self.blocks({n: v for n, v in op.items() if n != 'ptr'})
            if out.note != 'blocks':
                return False
        return True

    @staticmethod
    def norm(name, args):
        """Arguments as the model wants them: 32 bit values unsigned."""
        return [a & 0xffffffff if t == asm.I32 else a & U64 for a, t in zip(args, asm.WASI[name])]

    def run_op(self, op, race=False):
        """Runs and judges one call; returns the list of violations [(category, message, info)]."""
        name = op['op']
        cur.k = self.k
        if name in RAW:
            self.k.actor = 'host'
            RAW[name](self, op)
            self.k.actor = 'guest'
            return []
        self.n += 1
        enc = Enc(op, self.labels, self.n)
        pre = self.k.clone()
        self.ref.k = None
        hooks = op.get('hooks', [])
        k = self.k
        hk = {}
        ran = []
        for i, (at, raw) in enumerate(hooks):
            hk.setdefault(at, []).append(lambda i=i, raw=raw: (ran.append(raw), RAW[raw['op']](self, raw), self.tick(),
                                                               self.on_hook and self.on_hook()))
        faults = [Fault(*f) for f in op.get('faults', [])]
        # What others do while a call waits is one more interference, except for polls, whose check looks at the times.
        self.later_ran = later = [] if name == 'poll_oneoff' else ran
        self.ticks = []
        self.tick()
        for delay, raw in op.get('later', []):
            k.at(delay, lambda raw=raw: self.fire(raw))
        self.mem.put(0, bytearray(enc.img))
        k.foreign.clear()
        k.begin(faults, hk)
        wall0, mono0, cpu0, thr0 = k.wall_now(), k.mono, k.cpu, k.thr
        ent0 = len(k.entropy_out)
        res = Res()
        res.kind, res.val = self.call(name, enc.args)
        res.sys = k.sysno
        k.events.clear()
        fired = list(k.fired)
        self.opened_now = list(k.opened)
        self.segs = [(a, k.wall_now() if b is None else b) for a, b in k.wallsegs]
        k.begin()
        res.t0 = (wall0, mono0, cpu0, thr0)
        res.t1 = (k.wall_now(), k.mono, k.cpu, k.thr)
        raw = self.rawmem()
        res.mem, res.size = raw[:PAGE], len(raw)
        self.last = res
        self.last_fired = fired
        self.last_ran = len(ran)
        opened = self.opened_now
        best = None
        norm = self.norm(name, enc.args)
        snap = self.refsnap()
        cands = range(len(ran) + 1)
        for j in cands:
            self.refback(snap)
            kk = pre.clone() if len(ran) else pre.clone()
            cur.k = kk
            for i in ran[:j]:
                RAW[i['op']](self, i, kk)
            base = kk.clone()
            try:
                out = self.ref.predict(name, norm, Mem(enc.img), kk)
            except Oob:
                out = None
            rest = ran[j:] + (later if later is not ran else [])
            bad = self.judge(op, enc, out, res, base, kk, fired, rest, ent0)
            if best is None or len(bad) < len(best[0]):
                best = (bad, j, out, self.refsnap())
            if not bad:
                break
        cur.k = self.k
        bad, j, out, snap2 = best
        self.refback(snap2)
        self.out = out
        if race and bad:
            # No order of the interference explains the outcome; only what holds in every case is judged.
            bad = self.judge_race(op, enc, res, pre, ran)
            self.raced = True
            self.dead = True
        else:
            self.settle(op, enc, out, res, bad, fired)
        if name.startswith('path_'):
            for i in opened:
                if i in self.known and not any(r.ino == i for r in self.roots):
                    bad.append(('escape', 'opened inode %d outside the preopened directories' % i))
                    break
        if self.top is not self.inst and bytes(self.top_mem.get(0, PAGE)) != OUTER:
            bad.append(('mem', 'the memory of an instance that did not make the call was changed'))
            self.dead = True
        if out is not None and out.dev is not None and not bad and res.kind == 'ret' and res.val == 0 and not enc.ptrs:
            got = res.mem[out.mem_any[0][0]:][:8]
            if self.devs.setdefault(out.dev, got) != got:
                bad.append(('out', 'reports device %s for a file of device %s' % (got.hex(), self.devs[out.dev].hex())))
        info = {'op': op, 'n': self.n, 'fired': fired, 'result': self.show(res), 'expected': self.expect(out)}
        bad = [(c, m, info) for c, m in bad]
        self.vio += bad
        return bad

    def judge_race(self, op, enc, res, pre, done):
        bad = []
        k = self.k
        if res.kind == 'hang':
            return [('hang', 'never returns: %s' % res.val)]
        if res.kind == 'exc':
            return [('exc', 'host exception reached the guest: %s: %s' % (type(res.val).__name__, res.val))]
        if k.foreign:
            bad.append(('foreign', 'operated on descriptors it does not own: %s' % k.foreign[:3]))
        for i in sorted(self.known):
            a, b = pre.inodes.get(i), k.inodes.get(i)
            if a is None:
                continue
            if b is None or (a.data, a.ents, a.target, a.mode, a.mtime) != (b.data, b.ents, b.target, b.mode, b.mtime) or \
                    (a.kind != 'dir' and a.nlink != b.nlink):
                if any(r.ino == i for r in self.roots):
                    continue
                bad.append(('escape', 'inode %d outside the preopened directories was changed' % i))
        olds = {e.ofd.oid for e in pre.fds.values()}
        new = [e.ofd for e in k.fds.values() if e.owner == 'guest' and e.ofd.oid not in olds]
        for o in new:
            if o.inode is not None and o.inode.ino in self.known and not any(r.ino == o.inode.ino for r in self.roots):
                bad.append(('escape', 'a descriptor to inode %d outside the preopened directories was handed out' % o.inode.ino))
        okopen = op['op'] in ('path_open', 'sock_accept') and res.val == 0
        if len(new) > (1 if okopen else 0):
            bad.append(('fdleak', '%d host descriptors leaked' % (len(new) - (1 if okopen else 0))))
        if res.kind == 'ret' and res.val == 0:
            o = enc.addr.get('o')
            if op['op'] == 'path_filestat_get':
                ino = struct.unpack('<Q', res.mem[o + 8:o + 16])[0]
                if ino in self.known and not any(r.ino == ino for r in self.roots):
                    bad.append(('escape', 'reports the attributes of inode %d outside' % ino))
            if op['op'] == 'path_readlink':
                n = struct.unpack('<I', res.mem[o:o + 4])[0]
                b = enc.addr['buf']
                t = res.mem[b:b + n]
                outs = {k.inodes[i].target for i in self.known if i in k.inodes and k.inodes[i].kind == 'lnk'}
                ins = {n_.target for i, n_ in list(k.inodes.items()) + list(pre.inodes.items())
                       if n_.kind == 'lnk' and i not in self.known}
                if t in outs and t not in {x[:n] for x in ins}:
                    bad.append(('escape', 'reads a symbolic link outside'))
        return bad

    def rawmem(self):
        # the whole memory: its size is part of what is compared
        d = getattr(self.mem, 'data', None)
        if isinstance(d, (bytearray, bytes)):
            return bytes(d)
        return bytes(self.mem.get(0, PAGE))

    def show(self, res):
        if res.kind == 'ret':
            return wname(res.val)
        return '%s %r' % (res.kind, res.val)

    def expect(self, out):
        if out is None:
            return 'trap or FAULT'
        if out.errs is not None:
            return '/'.join(sorted(wname(c) for c in out.errs))
        return 'SUCCESS' + (' or ' + '/'.join(sorted(wname(c) for c in out.also)) if out.also else '')

    def refsnap(self):
        return ({n: self.gcopy(g) for n, g in self.ref.fds.items()}, dict(self.labels),
                {n: (bytes(g.cap.data), g.cap.pos) for n, g in self.ref.fds.items() if g.cap is not None})

    @staticmethod
    def gcopy(g):
        c = GFd.__new__(GFd)
        for s in GFd.__slots__:
            setattr(c, s, getattr(g, s))
        return c

    def refback(self, snap):
        self.ref.fds = {n: self.gcopy(g) for n, g in snap[0].items()}
        self.labels = dict(snap[1])
        for n, (d, p) in snap[2].items():
            g = self.ref.fds[n]
            g.cap.data[:] = d
            g.cap.pos = p

    # ---- judging -------------------------------------------------------------------------------------------------
    def judge(self, op, enc, out, res, base, post, fired, rest, ent0):
        """base: kernel before the call; post: kernel after the predicted call; rest: interference still to come."""
        bad = []
        name = op['op']
        errfired = [f for f in fired if f[2] == 'err']
        short = any(f[2] == 'short' for f in fired)
        if res.size != PAGE:
            bad.append(('mem', 'the memory has %d bytes after the call' % res.size))
        if self.k.foreign:
            bad.append(('foreign', 'operated on descriptors it does not own: %s' % self.k.foreign[:3]))
        if res.kind == 'hang':
            bad.append(('hang', 'never returns: %s' % res.val))
            return bad
        wild = enc.wild
        if out is None:                       # some argument lies outside the memory
            if res.kind == 'ret' and res.val == 0:
                bad.append(('oob', 'succeeded with an argument outside the memory'))
            if res.kind == 'exc' and not isinstance(res.val, Exception):
                bad.append(('exc', 'raised %r' % res.val))
            self.check_mem(bad, enc.outs, enc, res)
            return bad
        if res.kind == 'exc':
            if wild and isinstance(res.val, Exception):
                self.check_mem(bad, enc.outs, enc, res)
                return bad
            bad.append(('exc', 'host exception reached the guest: %s: %s' % (type(res.val).__name__, res.val)))
            self.check_same(bad, base, rest, 'trace')
            return bad
        ret = res.val
        allowed_err = set()
        if out.errs is not None:
            allowed_err |= out.errs
        allowed_err |= out.also
        for f in errfired:
            import errno as E
            allowed_err |= host_to_wasi(getattr(E, f[3]))
        if wild and out.errs is not None:
            allowed_err.add(W['FAULT'])
        if ret != 0:
            if not 0 < ret < len(W):
                bad.append(('errno', 'returned %d, which is no errno' % ret))
            elif ret not in allowed_err:
                if out.errs is None and not out.loose:
                    bad.append(('fail', 'returned %s where it has to succeed' % wname(ret)))
                elif out.errs is not None or not out.loose:
                    bad.append(('errno', 'returned %s, expected %s' % (wname(ret), self.expect(out))))
            self.check_mem(bad, enc.outs, enc, res)
            if name == 'fd_close' and errfired and out.errs is None and ret in allowed_err:
                # the descriptor is gone although the host complained
                self.check_same(bad, post, rest, 'trace', closed=out.closes)
                return bad
            late = name == 'path_open' and op.get('ofl', 0) & 9 and out.errs is None and \
                any(f[0] == 'getattr' for f in errfired)
            # a file created or truncated by an open that fails later stays created or truncated
            self.check_same(bad, base, rest, 'trace', times=True)
            if late and bad:
                bad2 = []
                self.check_same(bad2, post, rest, 'trace')
                if len(bad2) < len(bad):
                    return bad2
            return bad
        # success
        if name == 'fd_close' and any(f[0] == 'close' for f in errfired):
            # the last chance to learn that what was written is lost
            bad.append(('success', 'succeeded although the host failed to close the file: %s' % errfired[0][3]))
        if out.note == 'blocks' and not errfired:
            bad.append(('early', 'returned before anything happened that it has to wait for'))
        if out.errs is not None:
            bad.append(('success', 'succeeded, expected %s' % self.expect(out)))
            self.check_outside(bad, base, rest)
            self.check_mem(bad, enc.outs, enc, res)
            return bad
        if out.loose:
            self.check_mem(bad, enc.outs, enc, res)
            return bad
        allow = []
        outs = list(out.outs)
        if out.count:
            if out.count[0] == 'in':
                _, ptr, iovs, data, consume = out.count
                total = sum(n for _, n in iovs)
                c = struct.unpack('<I', res.mem[ptr:ptr + 4])[0]
                allow.append((ptr, 4))
                if c > len(data):
                    bad.append(('count', 'reports %d bytes read, only %d were available' % (c, len(data))))
                    c = len(data)
                elif data and c == 0:
                    bad.append(('count', 'reports end of file with %d bytes left' % len(data)))
                elif c < len(data) and not short and not errfired and not self.partial_ok(op):
                    bad.append(('count', 'read %d bytes, %d were available and fit' % (c, len(data))))
                outs += self.ref.scatter(iovs, data[:c])
                if consume:
                    consume(c)
            else:
                _, ptr, limit, put = out.count
                c = struct.unpack('<I', res.mem[ptr:ptr + 4])[0]
                allow.append((ptr, 4))
                if c > limit:
                    bad.append(('count', 'reports %d bytes written of %d' % (c, limit)))
                    c = limit
                elif limit and c == 0:
                    bad.append(('count', 'reports success with nothing written'))
                elif c < limit and not short and not errfired and not self.partial_ok(op):
                    bad.append(('count', 'wrote %d bytes of %d for no reason' % (c, limit)))
                post.begin()
                put(c)
        for j, (a, b) in enumerate(outs):
            got = res.mem[a:a + len(b)]
            if got != b and not (enc.ptrs and self.overlaps(outs, allow, j)):
                bad.append(('out', 'output at %d is %r, expected %r' % (a, got[:48], b[:48])))
            allow.append((a, len(b)))
        allow += out.mem_any
        self.note(bad, op, enc, out, res, base, post, ent0)
        self.check_mem(bad, allow, enc, res)
        if out.times:
            self.check_times(bad, out, res, base)
        sync = name in ('fd_sync', 'fd_datasync')
        self.check_same(bad, post, rest, 'state', closed=out.closes, opened=out, sync=sync, times=False,
                        keep_times=name in ('path_filestat_set_times', 'fd_filestat_set_times'))
        return bad

    @staticmethod
    def overlaps(outs, allow, j):
        """Outputs the guest itself placed on top of each other may be written in any order."""
        a, n = outs[j][0], len(outs[j][1])
        regions = [(x, len(b)) for i, (x, b) in enumerate(outs) if i != j] + list(allow)
        return any(a < x + m and x < a + n for x, m in regions)

    def partial_ok(self, op):
        g = None
        v = op.get('fd')
        v = self.labels.get(v, 9999) if isinstance(v, str) else v
        g = self.ref.fds.get(v & 0xffffffff)
        return g is not None and g.type != T_REG and g.cap is None and len(op.get('iov', [])) > 1

    def check_mem(self, bad, allow, enc, res):
        img = enc.img
        if res.mem == bytes(img):
            return
        want = bytearray(img)
        for a, n in allow:
            a &= 0xffffffff
            if a < PAGE:
                n = min(n, PAGE - a)
                want[a:a + n] = res.mem[a:a + n]
        if bytes(want) != res.mem:
            i = next(i for i in range(PAGE) if want[i] != res.mem[i])
            bad.append(('mem', 'guest memory byte %d changed, which is outside the call\'s outputs' % i))

    def sock_state(self, o):
        if o.sock is not None:
            s = o.sock
            return ('sock', s.state, bytes(s.rx.buf) if s.rx else None, list(s.rx.msgs) if s.rx else None,
                    bytes(s.tx.buf) if s.tx else None, list(s.tx.msgs) if s.tx else None, len(s.queue), s.rd_shut,
                    s.wr_shut)
        if o.chan_r is not None or o.chan_w is not None:
            c = o.chan_r or o.chan_w
            return ('chan', bytes(c.buf), c.eof)
        return None

    def fdview(self, k, oids):
        """Everything observable about the open file descriptions the guest holds."""
        out = {}
        mask = O_APPEND | O_NONBLOCK
        for fd, e in k.fds.items():
            o = e.ofd
            if o.oid not in oids:
                continue
            d = {'flags': o.flags & mask}
            if o.inode is not None:
                d['ino'] = o.inode.ino
                if o.inode.kind == 'reg':
                    d['pos'] = o.pos
                    if o.inode.nlink == 0:
                        d['data'] = bytes(o.inode.data)
            x = self.sock_state(o)
            if x is not None:
                d['io'] = x
            out.setdefault(o.oid, []).append(d)
        return out

    def check_same(self, bad, want, rest, why, closed=(), opened=None, sync=False, times=False, keep_times=False):
        """The real kernel has to look like `want` (after the interference in `rest`)."""
        k = self.k
        if rest:
            cur.k = want
            for raw in rest:
                RAW[raw['op']](self, raw, want)
            cur.k = k
        # files and directories
        a, b = k.tree(), want.tree()
        if a != b:
            for p in sorted(set(a) | set(b)):
                x, y = a.get(p), b.get(p)
                if x == y:
                    continue
                cat = 'data' if x and y and x[0] == y[0] == 'reg' and x[2:] == y[2:] else 'ns'
                if why == 'trace':
                    cat = 'trace'
                if not any(self.inside(p)):
                    cat = 'escape'
                bad.append((cat, '%s is %s, expected %s' % (S(p), self.brief(x), self.brief(y))))
                if len(bad) > 6:
                    break
        # descriptors
        oids = {g.oid: g for g in self.ref.fds.values() if g.open}
        shut = {g.oid for g in closed if not g.std}
        rv, wv = self.fdview(k, oids), self.fdview(want, oids)
        for oid, g in oids.items():
            x, y = rv.get(oid), wv.get(oid)
            if oid in shut:
                if x is not None:
                    bad.append(('fdleak', 'host descriptor behind %d still open after close' % g.num))
                continue
            if x is None:
                bad.append(('lost', 'host descriptor behind guest descriptor %d is gone' % g.num))
                continue
            if len(x) > 1:
                bad.append(('fdleak', 'guest descriptor %d has %d host descriptors' % (g.num, len(x))))
            if y is None:
                continue
            for key in y[0]:
                if x[0].get(key) != y[0][key]:
                    cat = {'pos': 'pos', 'flags': 'flags', 'data': 'data', 'io': 'data', 'ino': 'ns'}[key]
                    if why == 'trace':
                        cat = 'trace'
                    bad.append((cat, 'descriptor %d: %s is %r, expected %r' % (g.num, key, _cut(x[0].get(key)),
                                                                              _cut(y[0][key]))))
        # host descriptors the guest's side owns
        own = {}
        for fd, e in k.fds.items():
            if e.owner == 'guest':
                own[e.ofd.oid] = own.get(e.ofd.oid, 0) + 1
        for oid in own:
            if oid in oids or oid in self.extra:
                continue
            if opened is not None and opened.opens is not None and oid == getattr(opened, 'real_oid', None):
                continue
            bad.append(('fdleak', 'host descriptor leaked (%s)' % self.what(oid)))
        for fd in (0, 1, 2):
            if fd not in k.fds or k.fds[fd].owner != 'std':
                bad.append(('foreign', 'standard stream %d of the embedder was closed or replaced' % fd))
        # captured streams
        for g in self.ref.fds.values():
            if g.cap is not None and g.open:
                pipe = g.cap.pipe
                if bytes(pipe.getvalue()) != bytes(g.cap.data) or pipe.tell() != g.cap.pos:
                    bad.append(('trace' if why == 'trace' else 'data', 'captured stream %d holds %r at %d, expected %r at %d' % (
                        g.num, _cut(pipe.getvalue()), pipe.tell(), _cut(bytes(g.cap.data)), g.cap.pos)))
        if sync:
            for oid in oids:
                r, w_ = self.find(k, oid), self.find(want, oid)
                if r and w_ and r.inode is not None and r.inode.kind == 'reg' and not w_.inode.pending and \
                        w_.inode.durable == bytes(w_.inode.data) and \
                        (r.inode.pending or r.inode.durable != bytes(r.inode.data)):
                    bad.append(('durable', 'data written before the sync is still volatile'))
        if (times or keep_times) and not self.last_ran:
            for i, n in want.inodes.items():
                r = k.inodes.get(i)
                if r is None or (opened is not None and opened.times and opened.times[0] == i):
                    continue
                if (times and r.mtime != n.mtime) or (keep_times and (r.mtime != n.mtime or r.atime != n.atime)):
                    bad.append(('trace' if times else 'times', 'timestamps of inode %d changed' % i))
                    break

    def check_outside(self, bad, base, rest):
        """After an unexpected success: whatever else, nothing outside may have changed."""
        k = self.k
        if rest:
            cur.k = base
            for raw in rest:
                RAW[raw['op']](self, raw, base)
            cur.k = k
        a, b = k.tree(), base.tree()
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p) and not any(self.inside(p)):
                bad.append(('escape', '%s outside the preopened directories changed from %s to %s' % (
                    S(p), self.brief(b.get(p)), self.brief(a.get(p)))))
                break
        for fd, e in k.fds.items():
            if e.owner == 'guest' and fd not in base.fds and e.ofd.inode is not None and \
                    e.ofd.inode.ino in self.known and not any(e.ofd.inode is r for r in self.roots):
                bad.append(('escape', 'a descriptor to %s outside the preopened directories was handed out' %
                            self.what(e.ofd.oid)))

    def find(self, k, oid):
        for e in k.fds.values():
            if e.ofd.oid == oid:
                return e.ofd
        return None

    def what(self, oid):
        o = self.find(self.k, oid)
        if o is None:
            return '?'
        if o.inode is not None:
            return '%s inode %d' % (o.inode.kind, o.inode.ino)
        return 'socket' if o.sock is not None else 'pipe'

    def inside(self, p):
        """For each root: whether path p is below it."""
        for r in self.root_paths():
            yield p == r or p.startswith(r.rstrip(b'/') + b'/')

    def root_paths(self):
        if not hasattr(self, '_rp'):
            self._rp = []
            want = {r.ino for r in self.roots}

            def rec(n, p):
                for nm, i in n.ents.items():
                    if i in want:
                        self._rp.append(p + b'/' + nm)
                    c = self.k.inodes[i]
                    if c.kind == 'dir':
                        rec(c, p + b'/' + nm)
            if self.k.root.ino in want:
                self._rp.append(b'/')
            rec(self.k.root, b'')
        return self._rp

    @staticmethod
    def brief(x):
        if x is None:
            return 'absent'
        return repr(tuple(_cut(v) for v in x))

    def check_times(self, bad, out, res, base):
        ino, a, m = out.times
        n = self.k.inodes[ino]
        for what, spec, got in (('atime', a, n.atime), ('mtime', m, n.mtime)):
            if spec[0] == 'now':
                if not any(lo <= got <= hi for lo, hi in self.segs):
                    bad.append(('times', '%s is %d, the call ran from %s' % (what, got, self.segs)))
            elif got & U64 != spec[1] & U64:
                bad.append(('times', '%s is %d, expected %s %d' % (what, got, spec[0], spec[1])))

    def note(self, bad, op, enc, out, res, base, post, ent0):
        nt = out.note
        if not isinstance(nt, tuple):
            return
        m = res.mem
        if nt[0] == 'clock':
            i = nt[1]
            v = struct.unpack('<Q', m[nt[2]:nt[2] + 8])[0]
            segs = self.segs if i == 0 else [(res.t0[i], res.t1[i])]
            if not any(lo <= v <= hi for lo, hi in segs):
                bad.append(('clock', 'clock %d reported %d, it ran from %s' % (i, v, segs)))
        elif nt[0] == 'res':
            v = struct.unpack('<Q', m[nt[1]:nt[1] + 8])[0]
            if not 1 <= v <= NS:
                bad.append(('clock', 'clock resolution %d' % v))
        elif nt[0] == 'fdstat':
            v = struct.unpack('<H', m[nt[1] + 2:nt[1] + 4])[0]
            if v != nt[2]:
                bad.append(('flags', 'reports descriptor flags %d, in force are %d' % (v, nt[2])))
        elif nt[0] == 'random':
            p, n = nt[1], nt[2]
            from .kernel import entropy_bytes
            got = bytes(m[p:p + n])
            src = b''.join(entropy_bytes(self.k.seed, o, ln) for o, ln in self.k.entropy_out[ent0:])
            if n and got not in src:
                bad.append(('random', 'the buffer does not hold fresh bytes of the host\'s entropy source'))
        elif nt[0] == 'readdir':
            p, n = nt[2], nt[3]
            used = struct.unpack('<I', m[nt[5]:nt[5] + 4])[0]
            if used > n:
                bad.append(('out', 'reports %d bytes in a buffer of %d' % (used, n)))
            elif m[p + used:p + n] != bytes(enc.img[p + used:p + n]) and not enc.ptrs:
                bad.append(('mem', 'changed bytes of the buffer beyond the %d reported' % used))
        elif nt[0] == 'recv':
            v = struct.unpack('<H', m[nt[2]:nt[2] + 2])[0]
            if (v & 1) != (1 if nt[3] else 0):
                bad.append(('trunc', 'truncated flag is %d, expected %d' % (v & 1, nt[3])))
        elif nt[0] == 'open':
            v = struct.unpack('<I', m[nt[1]:nt[1] + 4])[0]
            g = self.ref.fds.get(v)
            if g is not None and g.open:
                bad.append(('fdnum', 'handed out descriptor %d, which is in use' % v))
                return
            olds = {e.ofd.oid for e in base.fds.values()}
            new = [(fd, e) for fd, e in self.k.fds.items() if e.owner == 'guest' and e.ofd.oid not in olds]
            if len(new) == 0:
                bad.append(('lost', 'no host descriptor behind the new descriptor %d' % v))
                return
            # which one is it? the one of the expected object; the rest is leaked
            f = out.opens
            want = None
            if f.inode is not None:
                match = [x for x in new if x[1].ofd.inode is not None and x[1].ofd.inode.ino == f.inode.ino and
                         not x[1].ofd.is_path]
            else:
                match = [x for x in new if x[1].ofd.sock is not None]
            if not match:
                o = new[0][1].ofd
                cat = 'escape' if o.inode is not None and o.inode.ino in self.known else 'ns'
                bad.append((cat, 'opened %s, expected inode %s' % (self.what(o.oid),
                                                                    f.inode.ino if f.inode else 'socket')))
                match = new
            ng = GFd(v, match[0][1].ofd.oid, out.new_type, out.opens_rights[0], out.opens_rights[1], out.new_flags)
            self.ref.fds[v] = ng
            out.real_oid = ng.oid
            # the model's own new description stands for the real one
            for fd, e in list(post.fds.items()):
                if e.ofd is f:
                    e.ofd.oid = ng.oid
            if op.get('as'):
                self.labels[op['as']] = v
            out.newfd = v
        elif nt[0] == 'renumber':
            g, h = nt[1], nt[2]
            g, h = self.ref.fds[g.num], self.ref.fds[h.num]
            out.closes = []
            ng = self.gcopy(g)
            ng.num = h.num
            ng.moved = g.pre is not None
            if h.std:
                pass
            g2 = self.gcopy(g)
            g2.open = False
            self.ref.fds[h.num] = ng
            self.ref.fds[g.num] = g2
            for fd, e in list(post.fds.items()):
                if e.ofd.oid == h.oid and not h.std:
                    del post.fds[fd]
            if op.get('as'):
                self.labels[op['as']] = h.num
        elif nt[0] == 'setflags':
            self.ref.fds[nt[1].num].flags = nt[2]

    def settle(self, op, enc, out, res, bad, fired):
        """Brings the model in line with what really happened."""
        ok = res.kind == 'ret' and res.val == 0
        name = op['op']
        if out is not None and out.closes and (ok or (res.kind == 'ret' and name == 'fd_close' and fired and res.val != W['BADF'])):
            for g in out.closes:
                self.ref.fds[g.num].open = False
        if ok and out is not None and out.rights:
            g, b, i = out.rights
            self.ref.fds[g.num].base, self.ref.fds[g.num].inh = b, i
        if ok and out is not None and getattr(out, 'newfd', None) is not None:
            g = self.ref.fds[out.newfd]
            wb, wi = g.base, g.inh
            n = len(self.vio)
            got = self.learn(g)
            if got is None:
                c, m, i = self.vio.pop()
                bad.append(('rights', m))
            else:
                if g.base & ~wb or g.inh & ~wi:
                    bad.append(('rights', 'new descriptor has rights %#x/%#x beyond the allowed %#x/%#x' % (
                        g.base & ~wb, g.inh & ~wi, wb, wi)))
                drop = R['FD_SEEK'] | R['FD_TELL'] if g.type == T_DIR else PATH_RIGHTS
                if (wb & ~g.base & ALL_RIGHTS) & ~drop or (wi & ~g.inh & ALL_RIGHTS) & ~drop:
                    bad.append(('norights', 'new descriptor lacks rights %#x/%#x' % (wb & ~g.base, wi & ~g.inh)))
                if got[0] != g.type:
                    bad.append(('type', 'new descriptor has type %d, expected %d' % (got[0], g.type)))
                if got[1] != g.flags:
                    bad.append(('flags', 'new descriptor has flags %d, asked for %d' % (got[1], g.flags)))
                    g.flags = got[1]
                g.type = got[0]
        if name == 'fd_renumber' and ok and out is not None and out.errs is None:
            pass
        serious = {'success', 'ns', 'escape', 'lost', 'fdleak', 'fdnum', 'exc', 'oob', 'trace', 'hang', 'probe'}
        if out is None or enc.wild and res.kind == 'exc':
            # how far it got before it met the bad address is not specified
            for g in self.ref.fds.values():
                if g.cap is not None:
                    g.cap.data[:] = g.cap.pipe.getvalue()
                    g.cap.pos = g.cap.pipe.tell()
        if out is None and (res.kind == 'exc' or res.val != 0) and not self.changed():
            return
        if out is None or any(c in serious for c, _ in bad):
            # The model may no longer know which descriptors exist: nothing after this can be judged.
            self.dead = True
        if out is not None and enc.wild and res.kind == 'exc':
            self.dead = self.dead or self.changed()

    def changed(self):
        own = {e.ofd.oid for e in self.k.fds.values() if e.owner == 'guest'}
        want = {g.oid for g in self.ref.fds.values() if g.open and not g.std} | self.extra
        return own != want

    # ---- the end of the program ----------------------------------------------------------------------------------
    def interrupt(self, op, nth):
        """Runs one call in which a signal handler of the embedder raises KeyboardInterrupt out of a system call, and
        checks that it neither keeps nor loses a host descriptor. The session can only be finished afterwards."""
        k = self.k
        self.n += 1
        enc = Enc(op, self.labels, self.n)

        def own():
            return sorted((fd, e.ofd.oid) for fd, e in k.fds.items() if e.owner == 'guest')
        before = own()
        self.mem.put(0, bytearray(enc.img))
        k.foreign.clear()
        k.begin([Fault('*', nth, 'intr')])
        kind, v = self.call(op['op'], enc.args)
        fired = list(k.fired)
        k.begin()
        if not fired:
            return False
        v = repr(v)
        after = own()
        if after != before:
            gc.collect()
            after = own()
        bad = []
        if after != before:
            bad.append(('fdleak', 'an interrupted call (%s) changed the host descriptors from %s to %s' % (v, before, after)))
        if k.foreign:
            bad.append(('foreign', 'operated on descriptors it does not own when interrupted: %s' % k.foreign[:3]))
        self.vio += [(c, m, {'op': op, 'n': self.n, 'fired': fired, 'result': v}) for c, m in bad]
        return True

    def construct(self, dirs, faults):
        """Makes another WASI context. When a directory cannot be opened it must be refused and leave nothing behind."""
        k = self.k
        cur.k = k

        def table():
            return sorted((fd, e.ofd.oid, e.owner) for fd, e in k.fds.items())
        before = table()
        k.foreign.clear()
        k.begin([Fault(*f) for f in faults])
        try:
            ctx, exc = self.pyw.wasi.Preview1(['other'], dict(dirs), {}), None
        except SimUnsupported:
            raise
        except Exception as e:
            ctx, exc = None, repr(e.with_traceback(None))
        fired = list(k.fired)
        k.begin()
        nodes = [k.raw_get(B(v)) for v in dirs.values()]
        fine = all(n is not None and n.kind == 'dir' for n in nodes)
        new = [x for x in table() if x not in before]
        lost = [x for x in before if x not in table()]
        bad = []
        if k.foreign or lost:
            bad.append(('foreign', 'making a WASI context operated on descriptors it does not own: %s %s' % (k.foreign[:3], lost)))
        if exc is not None and new:
            bad.append(('fdleak', 'a refused WASI context (%s) left %d host descriptors open' % (exc, len(new))))
        if exc is None and not fired and len(new) != len(dirs):
            bad.append(('fdleak', 'a WASI context of %d directories holds %d host descriptors' % (len(dirs), len(new))))
        if exc is None and (not fine or fired):
            bad.append(('setup', 'a WASI context was made although a directory could not be opened'))
        if exc is not None and fine and not fired:
            bad.append(('setup', 'a WASI context of existing directories was refused: %s' % exc))
        k.actor = 'host'
        for fd, _, _ in new:
            k.close(fd)
        k.actor = 'guest'
        self.vio += [(c, m, {'op': {'op': 'construct', 'dirs': dirs}, 'n': self.n, 'fired': fired}) for c, m in bad]
        self.dead = bool(bad)
        return exc

    def finish(self, faults=()):
        """Runs the guest's entry point to its end and checks that exactly the guest's descriptors are closed."""
        k = self.k
        k.begin([Fault(*f) for f in faults])
        cur.k = k
        k.foreign.clear()
        how = self.ending.partition(':')
        for c in self.caps:
            if self.init.get('capend') == 'closed':
                self.caps[c].close()
            elif self.init.get('capend') == 'noseek':
                self.wasi.fd[c].pipe = OneWayIO(self.caps[c].getvalue())
        if how[0] == 'host':
            self.step_fn = lambda: _throw(how[2])
        elif how[0] == 'sysexit':
            self.wasi.return_on_exit = 0
        try:
            r = ('ret', self.wasi.main(self.runtime, self.inst))
        except SimUnsupported:
            raise
        except BaseException as e:
            r = ('exc', e)
        bad = []
        own = [fd for fd, e in k.fds.items() if e.owner == 'guest' and e.ofd.oid not in self.extra]
        if own:
            bad.append(('fdleak', '%d host descriptors still open after the program ended (%s)' % (
                len(own), ', '.join(self.what(k.fds[f].ofd.oid) for f in own[:3]))))
        if k.foreign:
            bad.append(('foreign', 'operated on descriptors it does not own at the end: %s' % k.foreign[:3]))
        for i in (0, 1, 2):
            if i not in k.fds:
                bad.append(('foreign', 'standard stream %d of the embedder was closed' % i))
        for i in range(self.init.get('host_fds', 2)):
            if 3 + 2 * i not in k.fds:
                bad.append(('foreign', 'descriptor %d of the embedder was closed' % (3 + 2 * i)))
        if not bad:
            bad = self.afterlife(r)
        info = {'op': {'op': 'main'}, 'n': self.n, 'result': repr(r)}
        bad = [(c, m, info) for c, m in bad]
        self.vio += bad
        self.end = r
        return bad

    def afterlife(self, r):
        """The embedder goes on: it opens descriptors, so that the numbers are in use again, and the guest is called."""
        k, bad = self.k, []
        for _ in range(4):
            h_hostopen(self, {}, k)
        k.begin()
        k.foreign.clear()
        for n in [n for n, g in sorted(self.ref.fds.items()) if not g.std][:6]:
            for name, args in (('fd_fdstat_get', [n, 64]), ('fd_tell', [n, 64]), ('fd_sync', [n]), ('fd_close', [n])):
                kind, v = self.call(name, args)
                if (kind, v) != ('ret', W['BADF']):
                    bad.append(('foreign', '%s of descriptor %d after the end of the program: %s %r' % (name, n, kind, v)))
        if r[0] == 'ret':
            self.step_fn = lambda *a: 0
            try:
                self.wasi.main(self.runtime, self.inst)
            except SimUnsupported:
                raise
            except BaseException:
                pass
        if k.foreign:
            bad.append(('foreign', 'operated on descriptors it does not own after its end: %s' % k.foreign[:3]))
        return bad[:3]


class OneWayIO(io.BytesIO):
    """A stream that cannot be rewound, such as a pipe."""

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')


def _throw(name):
    raise {'interrupt': KeyboardInterrupt, 'sysexit': lambda: SystemExit(3), 'oserror': lambda: OSError(5, 'host'),
           'error': lambda: ValueError('host'), 'memory': MemoryError, 'bare': Exception,
           'genexit': GeneratorExit}[name]()


def _cut(v):
    if isinstance(v, (bytes, bytearray)) and len(v) > 40:
        return bytes(v[:40]) + b'...%d' % len(v)
    if isinstance(v, tuple):
        return tuple(_cut(x) for x in v)
    return v


# ---- what other processes do -----------------------------------------------------------------------------------------

RAW = {}


def raw(f):
    RAW[f.__name__] = f
    return f


def _swallow(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except OSError:
        return None


def _as_host(f):
    def g(s, op, k=None):
        k = k or s.k
        for fld in ('a', 'b'):
            # Other processes name their objects by paths free of links, so that they never touch anything outside.
            if fld in op:
                d = k.raw_get(B(posixpath.dirname(op[fld])))
                n = k.raw_get(B(op[fld]))
                if d is None or d.kind != 'dir' or \
                        (f.__name__ in ('h_create', 'h_append', 'h_truncate') and n is not None and n.kind != 'reg'):
                    return
        old = k.actor
        k.actor = 'hook'
        try:
            f(s, op, k)
        finally:
            k.actor = old
    RAW[f.__name__] = g
    return g


@_as_host
def h_rename(s, op, k):
    _swallow(k.rename, B(op['a']), B(op['b']))


@_as_host
def h_unlink(s, op, k):
    if _swallow(k.unlink, B(op['a'])) is None:
        pass


@_as_host
def h_rmdir(s, op, k):
    _swallow(k.rmdir, B(op['a']))


@_as_host
def h_mkdir(s, op, k):
    _swallow(k.mkdir, B(op['a']))


@_as_host
def h_symlink(s, op, k):
    _swallow(k.symlink, B(op['t']), B(op['a']))


@_as_host
def h_link(s, op, k):
    _swallow(k.link, B(op['a']), B(op['b']))


@_as_host
def h_create(s, op, k):
    fd = _swallow(k.open, B(op['a']), O_WRONLY | 0o100 | 0o200)
    if fd is not None:
        k.write(fd, B(op.get('data', '')))
        k.close(fd)


@_as_host
def h_append(s, op, k):
    fd = _swallow(k.open, B(op['a']), O_WRONLY | O_APPEND)
    if fd is not None:
        _swallow(k.write, fd, B(op.get('data', '')))
        k.close(fd)


@_as_host
def h_truncate(s, op, k):
    _swallow(k.truncate, B(op['a']), op['n'])


@_as_host
def h_swaplink(s, op, k):
    """Replaces whatever is at path a (moved to b) by a symbolic link to t."""
    _swallow(k.rename, B(op['a']), B(op['b']))
    _swallow(k.symlink, B(op['t']), B(op['a']))


@_as_host
def h_swap(s, op, k):
    """Exchanges a and b."""
    _swallow(k.rename, B(op['a']), B(op['a'] + '.swp~'))
    _swallow(k.rename, B(op['b']), B(op['a']))
    _swallow(k.rename, B(op['a'] + '.swp~'), B(op['b']))


@_as_host
def h_jump(s, op, k):
    """The wall clock is set."""
    k.jump(op['ns'])


@_as_host
def h_sleep(s, op, k):
    k.advance(op['ns'])


@_as_host
def h_hostopen(s, op, k):
    """The embedder opens a descriptor, taking the lowest free number."""
    n = k.mk('reg')
    o = k.new_ofd(O_RDWR, inode=n)
    k.install(o, owner='host')


@_as_host
def h_peer(s, op, k):
    """The other end of a socket or pipe: send, close, reset, shutdown, connect."""
    g = s.ref.fds.get(s.labels.get(op['fd'], -1))
    if g is None:
        return
    o = s.find(k, g.oid)
    if o is None or o.inode is not None:
        return
    d = B(op.get('data', ''))
    act = op['act']
    if o.chan_r is not None:
        if act == 'send':
            o.chan_r.buf += d
        elif act == 'close':
            o.chan_r.eof = True
        return
    if o.chan_w is not None:
        if act == 'drain':
            del o.chan_w.buf[:op.get('n', 1 << 30)]
        elif act == 'close':
            o.chan_w.eof = True
        return
    sk = o.sock
    if act == 'send' and sk.rx is not None:
        if sk.type == 'dgram':
            sk.rx.msgs.append(d)
        elif not sk.rx.eof:
            sk.rx.buf += d
    elif sk.type == 'dgram' and act != 'drain':
        if act == 'reset':
            sk.rx.err = sk.tx.err = 111
    elif act == 'close' and sk.rx is not None:
        sk.rx.eof = True
        sk.tx.eof = True
    elif act == 'shut' and sk.rx is not None:
        sk.rx.eof = True
    elif act == 'reset' and sk.rx is not None:
        sk.rx.err = sk.tx.err = 104
        sk.rx.eof = sk.tx.eof = True
    elif act == 'drain' and sk.tx is not None:
        del sk.tx.buf[:op.get('n', 1 << 30)]
        if sk.type == 'dgram':
            sk.tx.msgs.clear()
    elif act == 'connect' and sk.state == 'listen':
        c = k.new_sock('stream', 'conn')
        c.rx.buf += d
        if op.get('cap'):
            c.tx.cap = op['cap']
        sk.queue.append(c)
