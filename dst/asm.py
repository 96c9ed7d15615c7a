"""A small WebAssembly binary writer: enough to build the guests the simulator runs on pywasm's real interpreter."""
import struct

I32, I64, F32, F64, V128, FUNCREF, EXTERNREF = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f


def u(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def s(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n == 0 and not b & 0x40 or n == -1 and b & 0x40:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def name(x):
    b = x.encode() if isinstance(x, str) else x
    return u(len(b)) + b


def vec(items):
    return u(len(items)) + b''.join(items)


def limits(lo, hi=None):
    return b'\x00' + u(lo) if hi is None else b'\x01' + u(lo) + u(hi)


# ---- instructions ----------------------------------------------------------------------------------------------------

def i32c(n):
    n &= 0xffffffff
    return b'\x41' + s(n - (1 << 32) if n >= 1 << 31 else n)


def i64c(n):
    n &= 0xffffffffffffffff
    return b'\x42' + s(n - (1 << 64) if n >= 1 << 63 else n)


def get(i): return b'\x20' + u(i)
def set_(i): return b'\x21' + u(i)
def tee(i): return b'\x22' + u(i)
def gget(i): return b'\x23' + u(i)
def gset(i): return b'\x24' + u(i)
def call(i): return b'\x10' + u(i)
def call_indirect(t, tab=0): return b'\x11' + u(t) + u(tab)
def block(body, bt=b'\x40'): return b'\x02' + bt + body + b'\x0b'
def loop(body, bt=b'\x40'): return b'\x03' + bt + body + b'\x0b'
def if_(body, els=None, bt=b'\x40'): return b'\x04' + bt + body + (b'\x05' + els if els is not None else b'') + b'\x0b'
def br(n): return b'\x0c' + u(n)
def br_if(n): return b'\x0d' + u(n)
def br_table(ls, d): return b'\x0e' + vec([u(x) for x in ls]) + u(d)
def mem(op, off=0, align=0): return bytes([op]) + u(align) + u(off)
def tget(t): return b'\x25' + u(t)
def tset(t): return b'\x26' + u(t)
def ref_null(t=FUNCREF): return b'\xd0' + bytes([t])
def ref_func(f): return b'\xd2' + u(f)
def fc(n, *a): return b'\xfc' + u(n) + b''.join(u(x) for x in a)


UNREACHABLE, NOP, RETURN, DROP, SELECT = b'\x00', b'\x01', b'\x0f', b'\x1a', b'\x1b'
MEMSIZE, MEMGROW = b'\x3f\x00', b'\x40\x00'
ADD, SUB, MUL, DIVS, DIVU, AND, OR, XOR = (bytes([x]) for x in (0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x71, 0x72, 0x73))
SHL, SHRU = b'\x74', b'\x76'
EQZ, EQ, NE, LTS, LTU, GTS, GTU = (bytes([x]) for x in (0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b))
REFISNULL = b'\xd1'


def memory_init(d): return fc(8, d, 0)
def data_drop(d): return fc(9, d)
def memory_copy(): return fc(10, 0, 0)
def memory_fill(): return fc(11, 0)
def table_init(e, t=0): return fc(12, e, t)
def elem_drop(e): return fc(13, e)
def table_copy(a=0, b=0): return fc(14, a, b)
def table_grow(t=0): return fc(15, t)
def table_size(t=0): return fc(16, t)
def table_fill(t=0): return fc(17, t)


class Mod:
    def __init__(self):
        self.types, self.imports, self.funcs, self.tables, self.mems = [], [], [], [], []
        self.globals, self.exports, self.elems, self.datas = [], [], [], []
        self.start = None
        self.nif = self.nit = self.nim = self.nig = 0
        self.count = False
        self.customs = []

    def type(self, args, rets):
        t = b'\x60' + vec([bytes([a]) for a in args]) + vec([bytes([a]) for a in rets])
        if t in self.types:
            return self.types.index(t)
        self.types.append(t)
        return len(self.types) - 1

    def imp_func(self, mod, nm, t):
        assert not self.funcs
        self.imports.append(name(mod) + name(nm) + b'\x00' + u(t))
        self.nif += 1
        return self.nif - 1

    def imp_table(self, mod, nm, lo, hi=None, ty=FUNCREF):
        self.imports.append(name(mod) + name(nm) + b'\x01' + bytes([ty]) + limits(lo, hi))
        self.nit += 1
        return self.nit - 1

    def imp_mem(self, mod, nm, lo, hi=None):
        self.imports.append(name(mod) + name(nm) + b'\x02' + limits(lo, hi))
        self.nim += 1
        return self.nim - 1

    def imp_global(self, mod, nm, ty, mut):
        self.imports.append(name(mod) + name(nm) + b'\x03' + bytes([ty, mut]))
        self.nig += 1
        return self.nig - 1

    def func(self, t, body, locals=(), export=None):
        self.funcs.append((t, tuple(locals), body))
        i = self.nif + len(self.funcs) - 1
        if export:
            self.export(export, 0, i)
        return i

    def table(self, lo, hi=None, ty=FUNCREF):
        self.tables.append(bytes([ty]) + limits(lo, hi))
        return self.nit + len(self.tables) - 1

    def mem(self, lo, hi=None):
        self.mems.append(limits(lo, hi))
        return self.nim + len(self.mems) - 1

    def glob(self, ty, mut, init):
        self.globals.append(bytes([ty, mut]) + init + b'\x0b')
        return self.nig + len(self.globals) - 1

    def export(self, nm, kind, i):
        self.exports.append(name(nm) + bytes([kind]) + u(i))

    def elem(self, off, funcs):
        self.elems.append(b'\x00' + i32c(off) + b'\x0b' + vec([u(f) for f in funcs]))
        return len(self.elems) - 1

    def elem_passive(self, funcs):
        self.elems.append(b'\x01\x00' + vec([u(f) for f in funcs]))
        return len(self.elems) - 1

    def data(self, off, data):
        self.datas.append(b'\x00' + i32c(off) + b'\x0b' + name(bytes(data)))
        return len(self.datas) - 1

    def data_passive(self, data):
        self.datas.append(b'\x01' + name(bytes(data)))
        return len(self.datas) - 1

    def custom(self, nm, data):
        self.customs.append(name(nm) + data)

    def sections(self):
        out = []

        def sec(i, b):
            out.append((i, bytes([i]) + u(len(b)) + b))
        for c in self.customs[:1]:
            sec(0, c)
        if self.types:
            sec(1, vec(self.types))
        if self.imports:
            sec(2, vec(self.imports))
        if self.funcs:
            sec(3, vec([u(t) for t, _, _ in self.funcs]))
        if self.tables:
            sec(4, vec(self.tables))
        if self.mems:
            sec(5, vec(self.mems))
        if self.globals:
            sec(6, vec(self.globals))
        if self.exports:
            sec(7, vec(self.exports))
        if self.start is not None:
            sec(8, u(self.start))
        if self.elems:
            sec(9, vec(self.elems))
        if self.count and self.datas:
            sec(12, u(len(self.datas)))
        if self.funcs:
            bodies = []
            for _, loc, body in self.funcs:
                b = vec([u(1) + bytes([ty]) for ty in loc]) + body + b'\x0b'
                bodies.append(u(len(b)) + b)
            sec(10, vec(bodies))
        if self.datas:
            sec(11, vec(self.datas))
        for c in self.customs[1:]:
            sec(0, c)
        return out

    def bytes(self):
        return b'\0asm\x01\0\0\0' + b''.join(b for _, b in self.sections())


# ---- the WASI preview 1 signatures, from the specification -------------------------------------------------------------

i, l = I32, I64
WASI = {
    'args_get': [i, i], 'args_sizes_get': [i, i], 'environ_get': [i, i], 'environ_sizes_get': [i, i],
    'clock_res_get': [i, i], 'clock_time_get': [i, l, i],
    'fd_advise': [i, l, l, i], 'fd_allocate': [i, l, l], 'fd_close': [i], 'fd_datasync': [i], 'fd_fdstat_get': [i, i],
    'fd_fdstat_set_flags': [i, i], 'fd_fdstat_set_rights': [i, l, l], 'fd_filestat_get': [i, i],
    'fd_filestat_set_size': [i, l], 'fd_filestat_set_times': [i, l, l, i], 'fd_pread': [i, i, i, l, i],
    'fd_prestat_get': [i, i], 'fd_prestat_dir_name': [i, i, i], 'fd_pwrite': [i, i, i, l, i], 'fd_read': [i, i, i, i],
    'fd_readdir': [i, i, i, l, i], 'fd_renumber': [i, i], 'fd_seek': [i, l, i, i], 'fd_sync': [i], 'fd_tell': [i, i],
    'fd_write': [i, i, i, i], 'path_create_directory': [i, i, i], 'path_filestat_get': [i, i, i, i, i],
    'path_filestat_set_times': [i, i, i, i, l, l, i], 'path_link': [i, i, i, i, i, i, i],
    'path_open': [i, i, i, i, i, l, l, i, i], 'path_readlink': [i, i, i, i, i, i], 'path_remove_directory': [i, i, i],
    'path_rename': [i, i, i, i, i, i], 'path_symlink': [i, i, i, i, i], 'path_unlink_file': [i, i, i],
    'poll_oneoff': [i, i, i, i], 'proc_exit': [i], 'proc_raise': [i], 'sched_yield': [], 'random_get': [i, i],
    'sock_accept': [i, i, i], 'sock_recv': [i, i, i, i, i, i], 'sock_send': [i, i, i, i, i], 'sock_shutdown': [i, i],
}

_tramp = {}


def trampoline(names=None, pages=1):
    """A guest that exports every WASI import as a function of its own, so that a harness can make the calls one by one
    through the real interpreter."""
    key = (tuple(names) if names else None, pages)
    if key in _tramp:
        return _tramp[key]
    m = Mod()
    idx = {}
    names = list(names or WASI)
    for n in names:
        idx[n] = m.imp_func('wasi_snapshot_preview1', n, m.type(WASI[n], [] if n == 'proc_exit' else [I32]))
    m.mem(pages)
    m.export('memory', 2, 0)
    for n in names:
        t = m.type(WASI[n], [] if n == 'proc_exit' else [I32])
        m.func(t, b''.join(get(j) for j in range(len(WASI[n]))) + call(idx[n]), export=n)
    _tramp[key] = m.bytes()
    return _tramp[key]
