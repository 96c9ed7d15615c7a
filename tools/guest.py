"""A guest whose exports are the WASI calls themselves, on the real host, for demonstrations. Everything happens in a
scratch directory that is removed at exit."""
import atexit, os, shutil, signal, struct, sys, tempfile
sys.path.insert(0, os.getcwd())
import pywasm, pywasm.wasi

signal.alarm(120)
i, l = 0x7f, 0x7e
CALLS = {
    'args_get': [i, i], 'args_sizes_get': [i, i], 'environ_get': [i, i], 'environ_sizes_get': [i, i],
    'clock_time_get': [i, l, i], 'fd_allocate': [i, l, l], 'fd_close': [i], 'fd_datasync': [i],
    'fd_fdstat_get': [i, i], 'fd_fdstat_set_flags': [i, i], 'fd_fdstat_set_rights': [i, l, l],
    'fd_filestat_get': [i, i], 'fd_filestat_set_size': [i, l], 'fd_filestat_set_times': [i, l, l, i],
    'fd_pread': [i, i, i, l, i], 'fd_prestat_get': [i, i], 'fd_prestat_dir_name': [i, i, i],
    'fd_pwrite': [i, i, i, l, i], 'fd_read': [i, i, i, i], 'fd_readdir': [i, i, i, l, i], 'fd_renumber': [i, i],
    'fd_seek': [i, l, i, i], 'fd_sync': [i], 'fd_tell': [i, i], 'fd_write': [i, i, i, i],
    'path_create_directory': [i, i, i], 'path_filestat_get': [i, i, i, i, i],
    'path_filestat_set_times': [i, i, i, i, l, l, i], 'path_link': [i, i, i, i, i, i, i],
    'path_open': [i, i, i, i, i, l, l, i, i], 'path_readlink': [i, i, i, i, i, i], 'path_remove_directory': [i, i, i],
    'path_rename': [i, i, i, i, i, i], 'path_symlink': [i, i, i, i, i], 'path_unlink_file': [i, i, i],
    'poll_oneoff': [i, i, i, i], 'proc_exit': [i], 'random_get': [i, i], 'sock_accept': [i, i, i],
    'sock_recv': [i, i, i, i, i, i], 'sock_send': [i, i, i, i, i], 'sock_shutdown': [i, i],
}
ALL = 0xfffffff


def u(n):
    out = b''
    while n > 127:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


def vec(v): return u(len(v)) + b''.join(v)
def name(s): return u(len(s)) + s.encode()
def sec(n, b): return bytes([n]) + u(len(b)) + b


def build(types=(), imps=(), funs=(), tabs=(), mems=(), globs=(), exps=(), start=None, elems=(), code=(), datas=()):
    # types: (args, rets); imps: raw; funs: type indices; mems: raw limits; exps: (name, kind, index); code: raw bodies
    body = [u(len(b'\0' + c + b'\x0b')) + b'\0' + c + b'\x0b' for c in code]
    parts = [(1, [b'\x60' + vec([bytes([x]) for x in a]) + vec([bytes([x]) for x in r]) for a, r in types]), (2, imps),
             (3, [u(f) for f in funs]), (4, tabs), (5, mems), (6, globs),
             (7, [name(n) + bytes([k]) + u(x) for n, k, x in exps])]
    out = b'\0asm\1\0\0\0' + b''.join(sec(n, vec(list(v))) for n, v in parts if v)
    if start is not None:
        out += sec(8, u(start))
    return out + b''.join(sec(n, vec(list(v))) for n, v in ((9, elems), (10, body), (11, datas)) if v)


def load(rt, raw):
    import io
    return rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(raw)))


def module():
    types, imps, funs, exps, code = [], [], [], [], []
    for k, (n, a) in enumerate(CALLS.items()):
        types.append(b'\x60' + vec([bytes([x]) for x in a]) + (b'\0' if n == 'proc_exit' else b'\1\x7f'))
        imps.append(name('wasi_snapshot_preview1') + name(n) + b'\0' + u(k))
        funs.append(u(k))
        exps.append(name(n) + b'\0' + u(len(CALLS) + k))
        body = b'\0' + b''.join(b'\x20' + u(j) for j in range(len(a))) + b'\x10' + u(k) + b'\x0b'
        code.append(u(len(body)) + body)
    types.append(b'\x60\0\0')
    funs.append(u(len(CALLS)))
    exps += [name('memory') + b'\2\0', name('_start') + b'\0' + u(2 * len(CALLS))]
    code.append(b'\2\0\x0b')
    return (b'\0asm\1\0\0\0' + sec(1, vec(types)) + sec(2, vec(imps)) + sec(3, vec(funs)) + sec(5, vec([b'\0\1'])) +
            sec(7, vec(exps)) + sec(10, vec(code)))


def scratch():
    d = tempfile.mkdtemp(prefix='demo')
    atexit.register(shutil.rmtree, d, True)
    return d


class Guest:
    def __init__(self, dirs=None):
        self.dir = scratch() if dirs is None else None
        self.wasi = pywasm.wasi.Preview1(['a'], {'/d': self.dir} if dirs is None else dirs, {})
        self.rt = pywasm.core.Runtime()
        self.wasi.bind(self.rt)
        d = scratch()
        with open(d + '/g.wasm', 'wb') as f:
            f.write(module())
        self.inst = self.rt.instance_from_file(d + '/g.wasm')
        self.mem = self.rt.exported_memory(self.inst, 'memory')

    def put(self, at, data): self.mem.data[at:at + len(data)] = data
    def get(self, at, n): return bytes(self.mem.data[at:at + n])
    def u32(self, at): return struct.unpack('<I', self.get(at, 4))[0]
    def u64(self, at): return struct.unpack('<Q', self.get(at, 8))[0]
    def call(self, n, *a): return (self.rt.invocate(self.inst, n, list(a)) or [None])[0]

    def path(self, n, at=60000):
        self.put(at, n.encode())
        return at, len(n.encode())

    def open(self, n, o=0, rb=ALL, ri=ALL, fl=0, fd=3, look=1):
        p, k = self.path(n)
        e = self.call('path_open', fd, look, p, k, o, rb, ri, fl, 100)
        assert e == 0, ('path_open', n, e)
        return self.u32(100)

    def write(self, fd, data):
        self.put(1000, data)
        self.put(200, struct.pack('<II', 1000, len(data)))
        return self.call('fd_write', fd, 200, 1, 104), self.u32(104)

    def read(self, fd, n):
        self.put(200, struct.pack('<II', 1000, n))
        e = self.call('fd_read', fd, 200, 1, 104)
        return (e, self.get(1000, self.u32(104))) if e == 0 else (e, b'')
