"""A small WebAssembly interpreter of our own: the reference the real interpreter is compared with. It works on the
generated programs (dst/vmgen.py), never on binaries, keeps a log of every effect so that a call can be stopped after
any of them, and shares no code with pywasm."""
import struct

PAGE = 65536
M32, M64 = 0xffffffff, 0xffffffffffffffff


class Trap(Exception):
    pass


class Depth(Trap):
    """The call stack is exhausted."""


class Fuel(Exception):
    """The program is too long for a simulated run."""


class HostExc(Exception):
    """A host function raised."""

    def __init__(self, tag):
        self.tag = tag


def s32(v):
    v &= M32
    return v - (1 << 32) if v >> 31 else v


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


class Mem:
    def __init__(self, lo, hi):
        self.data, self.hi = bytearray(lo * PAGE), hi

    @property
    def pages(self):
        return len(self.data) // PAGE


class Tab:
    def __init__(self, ty, lo, hi):
        self.ty, self.elem, self.hi = ty, [None] * lo, hi


class Glob:
    def __init__(self, ty, mut, val):
        self.ty, self.mut, self.val = ty, mut, val


class Func:
    def __init__(self, inst, idx, sig, locs, code):
        self.inst, self.idx, self.sig, self.locs, self.code = inst, idx, sig, locs, code

    def __repr__(self):
        return 'f%d of %s' % (self.idx, self.inst.name)


class Host:
    def __init__(self, idx, sig, beh):
        self.idx, self.sig, self.beh = idx, sig, beh
        self.inst = None

    def __repr__(self):
        return 'host %d' % self.idx


class Inst:
    def __init__(self, name):
        self.name = name
        self.funcs, self.tabs, self.globs, self.datas, self.elems = [], [], [], [], []
        self.mem = None
        self.spec = None
        self.taint = False


# name: (type, width, signed)
LOADS = {'i32.load': ('i', 4, 0), 'i64.load': ('I', 8, 0), 'f32.load': ('i', 4, 0), 'f64.load': ('I', 8, 0),
         'i32.load8_s': ('i', 1, 1), 'i32.load8_u': ('i', 1, 0), 'i32.load16_s': ('i', 2, 1), 'i32.load16_u': ('i', 2, 0),
         'i64.load8_s': ('I', 1, 1), 'i64.load8_u': ('I', 1, 0), 'i64.load16_s': ('I', 2, 1), 'i64.load16_u': ('I', 2, 0),
         'i64.load32_s': ('I', 4, 1), 'i64.load32_u': ('I', 4, 0)}
STORES = {'i32.store': ('i', 4), 'i64.store': ('I', 8), 'f32.store': ('i', 4), 'f64.store': ('I', 8),
          'i32.store8': ('i', 1), 'i32.store16': ('i', 2), 'i64.store8': ('I', 1), 'i64.store16': ('I', 2),
          'i64.store32': ('I', 4)}
# vector loads: name -> (bytes read, function of the bytes giving 16 bytes); the program looks at one half (i64)


def _ext(w, signed):
    def f(b):
        out = b''
        for i in range(0, 8, w):
            out += int.from_bytes(b[i:i + w], 'little', signed=signed).to_bytes(2 * w, 'little', signed=signed)
        return out
    return f


VLOADS = {'v128.load': (16, lambda b: b)}
for _i, (_w, _n) in enumerate([(1, '8x8'), (2, '16x4'), (4, '32x2')]):
    VLOADS['v128.load%s_s' % _n] = (8, _ext(_w, True))
    VLOADS['v128.load%s_u' % _n] = (8, _ext(_w, False))
for _w in (1, 2, 4, 8):
    VLOADS['v128.load%d_splat' % (8 * _w)] = (_w, lambda b, w=_w: b * (16 // w))
VLOADS['v128.load32_zero'] = (4, lambda b: b + bytes(12))
VLOADS['v128.load64_zero'] = (8, lambda b: b + bytes(8))
LANES = {'v128.load8_lane': 1, 'v128.load16_lane': 2, 'v128.load32_lane': 4, 'v128.load64_lane': 8}
SLANES = {'v128.store8_lane': 1, 'v128.store16_lane': 2, 'v128.store32_lane': 4, 'v128.store64_lane': 8}


class Ref:
    """All simulated stores of one run. Every change of a visible object goes through note()."""

    def __init__(self, depth=1024, start_depth=1023):
        self.log = []
        self.hostlog = []
        self.limit, self.start_limit = depth, start_depth
        self.cur_limit = depth
        self.depth = 0
        self.nest = 0
        self.steps = 0
        self.max_steps = 4000
        self.decide = None          # outcome of each grow that could succeed, when memory is scarce
        self.grows = 0
        self.env = None
        self.handlers = {}
        self.deepest = 0
        self.hit_limit = 0

    # ---- effects -------------------------------------------------------------------------------------------------
    def note(self, e):
        self.log.append(e)
        self.redo(e)

    @staticmethod
    def redo(e):
        k, o = e[0], e[1]
        if k == 'm':
            o.data[e[2]:e[2] + len(e[4])] = e[4]
        elif k == 'mg':
            o.data.extend(bytes(e[2] * PAGE))
        elif k == 't':
            o.elem[e[2]:e[2] + len(e[4])] = e[4]
        elif k == 'tg':
            o.elem.extend([e[3]] * e[2])
        elif k == 'g':
            o.val = e[3]
        elif k == 'd':
            o.datas[e[2]] = b''
        elif k == 'e':
            o.elems[e[2]] = []
        elif k == 'h':
            o.append(e[2])

    @staticmethod
    def undo(e):
        k, o = e[0], e[1]
        if k == 'm':
            o.data[e[2]:e[2] + len(e[3])] = e[3]
        elif k == 'mg':
            if e[2]:
                del o.data[-e[2] * PAGE:]
        elif k == 't':
            o.elem[e[2]:e[2] + len(e[3])] = e[3]
        elif k == 'tg':
            if e[2]:
                del o.elem[-e[2]:]
        elif k == 'g':
            o.val = e[2]
        elif k == 'd':
            o.datas[e[2]] = e[3]
        elif k == 'e':
            o.elems[e[2]] = e[3]
        elif k == 'h':
            o.pop()

    def rollback(self, to=0):
        while len(self.log) > to:
            self.undo(self.log.pop())

    def mput(self, mem, off, new, bulk=False):
        if new:
            self.note(('m', mem, off, bytes(mem.data[off:off + len(new)]), bytes(new), bulk))

    def tput(self, tab, off, new, bulk=False):
        if new:
            self.note(('t', tab, off, tab.elem[off:off + len(new)], list(new), bulk))

    def say(self, what, rt=None):
        self.note(('h', self.hostlog, what))

    def may_grow(self):
        self.grows += 1
        if self.decide is None:
            return True
        return self.decide[self.grows - 1] if self.grows <= len(self.decide) else True

    def mgrow(self, mem, n):
        size = mem.pages
        if size + n > (PAGE if mem.hi is None else min(mem.hi, PAGE)) or size + n > 1024:
            return M32
        if not self.may_grow():
            return M32
        self.note(('mg', mem, n))
        return size

    def tgrow(self, tab, n, v):
        size = len(tab.elem)
        if tab.hi is not None and size + n > tab.hi or size + n > 1024:
            return M32
        if not self.may_grow():
            return M32
        self.note(('tg', tab, n, v))
        return size

    # ---- entries from the embedder -------------------------------------------------------------------------------
    def invoke(self, f, args):
        """args are unsigned; -> results"""
        saved = self.depth, self.cur_limit
        self.depth, self.cur_limit = 0, self.limit
        self.nest += 1
        try:
            return self.call(f, list(args), None)
        finally:
            self.nest -= 1
            self.depth, self.cur_limit = saved

    def instantiate(self, spec, code, links, name, made):
        """spec: the module; code: its compiled functions; links: the objects imported. -> Inst"""
        inst = Inst(name)
        made.append(inst)
        inst.spec = spec
        for imp, obj in zip(spec['imports'], links):
            if imp['k'] == 'f':
                inst.funcs.append(obj)
            elif imp['k'] == 't':
                inst.tabs.append(obj)
            elif imp['k'] == 'm':
                inst.mem = obj
            else:
                inst.globs.append(obj)
        nimp = len(inst.funcs)
        for i, f in enumerate(spec['funcs']):
            inst.funcs.append(Func(inst, nimp + i, f['sig'], f['loc'], code[i]))
        for ty, lo, hi in spec['tables']:
            inst.tabs.append(Tab(ty, lo, hi))
        if spec['mem']:
            inst.mem = Mem(*spec['mem'])
        for ty, mut, init in spec['globals']:
            inst.globs.append(Glob(ty, mut, self.const(inst, init)))
        for e in spec['elems']:
            inst.elems.append([None if x is None else inst.funcs[x] for x in e['items']])
        for d in spec['datas']:
            inst.datas.append(d['data'].encode('latin-1'))
        for i, e in enumerate(spec['elems']):
            if e['mode'] == 'a':
                off = self.const(inst, e['off'])
                tab = inst.tabs[e['t']]
                if off + len(inst.elems[i]) > len(tab.elem):
                    raise Trap('element segment')
                self.tput(tab, off, inst.elems[i], True)
            if e['mode'] != 'p':
                self.note(('e', inst, i, inst.elems[i]))
        for i, d in enumerate(spec['datas']):
            if d['mode'] == 'a':
                off = self.const(inst, d['off'])
                if off + len(inst.datas[i]) > len(inst.mem.data):
                    raise Trap('data segment')
                self.mput(inst.mem, off, inst.datas[i], True)
                self.note(('d', inst, i, inst.datas[i]))
        if spec['start'] is not None:
            saved = self.depth, self.cur_limit
            self.depth, self.cur_limit = 0, self.start_limit
            self.nest += 1
            try:
                self.call(inst.funcs[spec['start']], [], inst)
            finally:
                self.nest -= 1
                self.depth, self.cur_limit = saved
        return inst

    @staticmethod
    def const(inst, e):
        if e[0] == 'c':
            return e[2] & (M32 if e[1] == 'i' else M64)
        if e[0] == 'gg':
            return inst.globs[e[1]].val
        if e[0] == 'rf':
            return inst.funcs[e[1]]
        assert e[0] == 'rnull'
        return None

    # ---- execution -----------------------------------------------------------------------------------------------
    def call(self, f, args, caller):
        if isinstance(f, Host):
            return self.host(f, args, caller)
        if f.inst.taint or self.nest > 4:
            raise Fuel()
        if self.depth >= self.cur_limit:
            self.hit_limit = max(self.hit_limit, self.nest)
            raise Depth('call stack exhausted')
        self.depth += 1
        self.deepest = max(self.deepest, self.depth)
        loc = args + [None if t in 'fx' else 0 for t in f.locs]
        st = []
        r = self.run(f.code, st, loc, f.inst)
        self.depth -= 1
        n = len(f.sig[1])
        return st[len(st) - n:] if n else []

    def host(self, f, args, caller):
        sg = [s32(a) if t == 'i' else s64(a) for a, t in zip(args, f.sig[0])]
        self.say((f.idx, tuple(sg)), f.rt)
        rets = self.handlers[f.beh['do']](self.env, f, sg, caller)
        return [v & (M32 if t == 'i' else M64) for v, t in zip(rets, f.sig[1])]

    def run(self, code, st, loc, inst):
        pop, push = st.pop, st.append
        for ins in code:
            op = ins[0]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Fuel()
            if op == 'c':
                push(ins[1])
            elif op == 'lg':
                push(loc[ins[1]])
            elif op == 'ls':
                loc[ins[1]] = pop()
            elif op == 'lt':
                loc[ins[1]] = st[-1]
            elif op == 'gg':
                push(inst.globs[ins[1]].val)
            elif op == 'gs':
                g = inst.globs[ins[1]]
                self.note(('g', g, g.val, pop()))
            elif op == 'bin':
                b = pop()
                a = pop()
                push(self.binop(ins[1], ins[2], a, b))
            elif op == 'un':
                a = pop()
                o = ins[1]
                push(int(a == 0) if o == 'eqz' else a & M32 if o == 'wrap' else a if o == 'extu' else s32(a) & M64)
            elif op == 'drop':
                pop()
            elif op == 'sel':
                c = pop()
                b = pop()
                a = pop()
                push(a if c else b)
            elif op == 'ld':
                a = pop() + ins[2]
                if ins[1] in LOADS:
                    ty, w, sg = LOADS[ins[1]]
                    v = int.from_bytes(self.rd(inst, a, w), 'little', signed=bool(sg))
                    push(v & (M32 if ty == 'i' else M64))
                elif ins[1] in VLOADS:
                    w, f = VLOADS[ins[1]]
                    b = f(self.rd(inst, a, w))
                    push(int.from_bytes(b[8 * ins[3]:8 * ins[3] + 8], 'little'))
                else:
                    w = LANES[ins[1]]
                    b = bytearray(16)
                    b[w * ins[4]:w * ins[4] + w] = self.rd(inst, a, w)
                    push(int.from_bytes(b[8 * ins[3]:8 * ins[3] + 8], 'little'))
            elif op == 'st':
                v = pop()
                a = pop() + ins[2]
                if ins[1] in STORES:
                    w = STORES[ins[1]][1]
                    b = (v & ((1 << 8 * w) - 1)).to_bytes(w, 'little')
                elif ins[1] == 'v128.store':
                    b = v.to_bytes(8, 'little') * 2
                else:
                    w = SLANES[ins[1]]
                    b = (v.to_bytes(8, 'little') * 2)[w * ins[3]:w * ins[3] + w]
                self.rd(inst, a, len(b))
                self.mput(inst.mem, a, b)
            elif op == 'block':
                h = len(st) - ins[1]
                r = self.run(ins[3], st, loc, inst)
                if r >= 0:
                    if r:
                        return r - 1
                    n = len(st) - ins[2]
                    del st[h:n]
                elif r == -2:
                    return -2
            elif op == 'loop':
                h = len(st) - ins[1]
                while True:
                    r = self.run(ins[3], st, loc, inst)
                    if r != 0:
                        break
                    del st[h:len(st) - ins[1]]
                if r > 0:
                    return r - 1
                if r == -2:
                    return -2
            elif op == 'if':
                c = pop()
                h = len(st) - ins[1]
                r = self.run(ins[3] if c else ins[4], st, loc, inst)
                if r >= 0:
                    if r:
                        return r - 1
                    del st[h:len(st) - ins[2]]
                elif r == -2:
                    return -2
            elif op == 'br':
                return ins[1]
            elif op == 'br_if':
                if pop():
                    return ins[1]
            elif op == 'br_table':
                i = pop()
                return ins[1][i] if i < len(ins[1]) else ins[2]
            elif op == 'ret':
                return -2
            elif op == 'call':
                f = inst.funcs[ins[1]]
                n = len(f.sig[0])
                args = st[len(st) - n:] if n else []
                if n:
                    del st[len(st) - n:]
                st.extend(self.call(f, args, inst))
            elif op == 'calli':
                t = inst.tabs[ins[1]]
                i = pop()
                if i >= len(t.elem) or t.elem[i] is None or list(t.elem[i].sig) != list(ins[2]):
                    raise Trap('indirect call')
                f = t.elem[i]
                n = len(f.sig[0])
                args = st[len(st) - n:] if n else []
                if n:
                    del st[len(st) - n:]
                st.extend(self.call(f, args, inst))
            elif op == 'unreachable':
                raise Trap('unreachable')
            elif op == 'nop':
                pass
            elif op == 'msize':
                push(inst.mem.pages)
            elif op == 'mgrow':
                push(self.mgrow(inst.mem, pop()))
            elif op == 'fill':
                n, v, d = pop(), pop(), pop()
                if d + n > len(inst.mem.data):
                    raise Trap('fill')
                self.mput(inst.mem, d, bytes([v & 255]) * n, True)
            elif op == 'copy':
                n, s, d = pop(), pop(), pop()
                if max(s, d) + n > len(inst.mem.data):
                    raise Trap('copy')
                self.mput(inst.mem, d, bytes(inst.mem.data[s:s + n]), True)
            elif op == 'init':
                n, s, d = pop(), pop(), pop()
                if s + n > len(inst.datas[ins[1]]) or d + n > len(inst.mem.data):
                    raise Trap('init')
                self.mput(inst.mem, d, inst.datas[ins[1]][s:s + n], True)
            elif op == 'ddrop':
                self.note(('d', inst, ins[1], inst.datas[ins[1]]))
            elif op == 'tsize':
                push(len(inst.tabs[ins[1]].elem))
            elif op == 'tgrow':
                n, v = pop(), pop()
                push(self.tgrow(inst.tabs[ins[1]], n, v))
            elif op == 'tget':
                t, i = inst.tabs[ins[1]], pop()
                if i >= len(t.elem):
                    raise Trap('table.get')
                push(t.elem[i])
            elif op == 'tset':
                v, i = pop(), pop()
                t = inst.tabs[ins[1]]
                if i >= len(t.elem):
                    raise Trap('table.set')
                self.tput(t, i, [v])
            elif op == 'tfill':
                n, v, d = pop(), pop(), pop()
                t = inst.tabs[ins[1]]
                if d + n > len(t.elem):
                    raise Trap('table.fill')
                self.tput(t, d, [v] * n, True)
            elif op == 'tcopy':
                n, s, d = pop(), pop(), pop()
                a, b = inst.tabs[ins[1]], inst.tabs[ins[2]]
                if s + n > len(b.elem) or d + n > len(a.elem):
                    raise Trap('table.copy')
                self.tput(a, d, b.elem[s:s + n], True)
            elif op == 'tinit':
                n, s, d = pop(), pop(), pop()
                t, e = inst.tabs[ins[2]], inst.elems[ins[1]]
                if s + n > len(e) or d + n > len(t.elem):
                    raise Trap('table.init')
                self.tput(t, d, e[s:s + n], True)
            elif op == 'edrop':
                self.note(('e', inst, ins[1], inst.elems[ins[1]]))
            elif op == 'isnull':
                push(int(pop() is None))
            elif op == 'rf':
                push(inst.funcs[ins[1]])
            elif op == 'rnull':
                push(None)
            else:
                assert 0, op
        return -1

    @staticmethod
    def rd(inst, a, w):
        if a + w > len(inst.mem.data):
            raise Trap('memory access')
        return bytes(inst.mem.data[a:a + w])

    @staticmethod
    def binop(ty, o, a, b):
        m = M32 if ty == 'i' else M64
        sg = s32 if ty == 'i' else s64
        if o == 'add':
            return (a + b) & m
        if o == 'sub':
            return (a - b) & m
        if o == 'mul':
            return (a * b) & m
        if o == 'and':
            return a & b
        if o == 'or':
            return a | b
        if o == 'xor':
            return a ^ b
        if o == 'eq':
            return int(a == b)
        if o == 'ltu':
            return int(a < b)
        if o == 'lts':
            return int(sg(a) < sg(b))
        if b == 0:
            raise Trap('division by zero')
        if o == 'divu':
            return a // b
        if o == 'remu':
            return a % b
        if o == 'divs':
            x, y = sg(a), sg(b)
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            if q > m >> 1:
                raise Trap('overflow')
            return q & m
        assert 0, o
