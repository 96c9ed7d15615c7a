import io
import random
import struct

from .. import asm
from ..engine import Fault, OneWayIO, build_kernel
from ..kernel import SimHang, SimUnsupported
from ..runner import Base, Run
from ..world import World

LOG, LOGP, INP, INPP, IOV, CNT, TMP, DATA = 0x10000, 16, 0x20000, 20, 64, 72, 24, 0x30000
PAGES = 5
ENDS = ['ret', 'ret', 'exit', 'exit', 'exit', 'exit', 'unreachable', 'div', 'oob', 'indirect', 'depth', 'host', 'irq']
TRIES = 3


class HostError(Exception):
    pass


class ShortIO(io.BytesIO):
    """A capture buffer that takes or gives only part of what is asked."""
    step = 5

    def write(self, b):
        return super().write(bytes(b)[:self.step])

    def read(self, n=-1):
        return super().read(min(n, self.step) if n >= 0 else n)


class Compiler:
    """Programs are lists of statements; every WASI call logs its errno and count in guest memory."""

    def __init__(self, spec):
        self.m = m = asm.Mod()
        self.data = bytearray()
        i = asm.I32
        self.fns = {}
        for n in ('fd_write', 'fd_read', 'fd_close', 'fd_renumber', 'proc_exit', 'sched_yield', 'random_get'):
            self.fns[n] = m.imp_func('wasi_snapshot_preview1', n, m.type(asm.WASI[n], [] if n == 'proc_exit' else [i]))
        self.host = m.imp_func('env', 'host', m.type([i], []))
        m.mem(PAGES)
        m.export('memory', 2, 0)
        self.v = m.type([], [])
        m.table(4)
        self.pending = []
        body = self.block(spec['prog']) + self.log(asm.i32c(0), asm.i32c(0xffff))
        self.start = m.func(self.v, body, export='_start', locals=(asm.I32, asm.I32))
        m.data(DATA, bytes(self.data) or b'\0')
        m.data(LOGP, struct.pack('<II', LOG, INP))

    def add(self, b):
        at = DATA + len(self.data)
        self.data += b
        return at

    @staticmethod
    def st(addr, val):
        return addr + val + asm.mem(0x36, 0, 2)

    @staticmethod
    def ld(addr):
        return asm.i32c(addr) + asm.mem(0x28, 0, 2)

    def log(self, e, c):
        return (self.st(self.ld(LOGP), e) + self.ld(LOGP) + c + asm.mem(0x36, 4, 2) +
                self.st(asm.i32c(LOGP), self.ld(LOGP) + asm.i32c(8) + asm.ADD))

    def block(self, prog):
        return b''.join(self.stmt(*s) for s in prog)

    def call(self, name, *args):
        """Leaves the errno in local 0 and a zero count if the call failed."""
        return (self.st(asm.i32c(CNT), asm.i32c(0)) + b''.join(asm.i32c(a) if isinstance(a, int) else a for a in args) +
                asm.call(self.fns[name]) + asm.set_(0) + self.log(asm.get(0), self.ld(CNT)))

    def stmt(self, op, *a):
        m = self.m
        if op == 'w':                               # fd, pieces: one call
            addrs = [(self.add(x.encode('latin-1')), len(x)) for x in a[1]]
            tab = self.add(b''.join(struct.pack('<II', *x) for x in addrs))
            return self.call('fd_write', a[0], tab, len(addrs), CNT)
        if op == 'wall':                            # fd, text: until all is written, an error, or too many tries
            d = a[1].encode('latin-1')
            at = self.add(d)
            out = self.st(asm.i32c(IOV), asm.i32c(at)) + self.st(asm.i32c(IOV + 4), asm.i32c(len(d)))
            out += asm.i32c(TRIES) + asm.set_(1)
            body = self.call('fd_write', a[0], IOV, 1, CNT)
            body += self.st(asm.i32c(IOV), self.ld(IOV) + self.ld(CNT) + asm.ADD)
            body += self.st(asm.i32c(IOV + 4), self.ld(IOV + 4) + self.ld(CNT) + asm.SUB)
            body += self.ld(IOV + 4) + asm.EQZ + asm.br_if(1)
            body += asm.get(0) + asm.if_(asm.get(1) + asm.i32c(1) + asm.SUB + asm.tee(1) + asm.EQZ + asm.br_if(2))
            return out + asm.block(asm.loop(body + asm.br(0)))
        if op == 'r':                               # n: read from fd 0 behind what was read before
            out = self.st(asm.i32c(IOV), self.ld(INPP)) + self.st(asm.i32c(IOV + 4), asm.i32c(a[0]))
            out += self.call('fd_read', 0, IOV, 1, CNT)
            return out + self.st(asm.i32c(INPP), self.ld(INPP) + self.ld(CNT) + asm.ADD)
        if op == 'cat':                             # n: read, then write what was read to fd 1
            out = self.stmt('r', a[0])
            out += self.st(asm.i32c(IOV), self.ld(INPP) + self.ld(CNT) + asm.SUB) + self.st(asm.i32c(IOV + 4), self.ld(CNT))
            return out + self.call('fd_write', 1, IOV, 1, CNT)
        if op == 'close':
            return self.call('fd_close', a[0])
        if op == 'renum':
            return self.call('fd_renumber', a[0], a[1])
        if op == 'yield':
            return self.call('sched_yield')
        if op == 'loop':                            # n, body
            cell = 128 + 4 * (len(self.pending) % 64)
            self.pending.append(0)
            body = self.block(a[1])
            body += self.st(asm.i32c(cell), self.ld(cell) + asm.i32c(1) + asm.SUB) + self.ld(cell) + asm.br_if(0)
            return self.st(asm.i32c(cell), asm.i32c(a[0])) + asm.loop(body)
        if op == 'call':
            f = m.func(self.v, self.block(a[0]), locals=(asm.I32, asm.I32))
            return asm.call(f)
        if op == 'blk':
            return asm.i32c(7) + asm.block(self.block(a[0])) + asm.DROP
        if op == 'exit':
            return asm.i32c(a[0]) + asm.call(self.fns['proc_exit']) + self.log(asm.i32c(0), asm.i32c(0xdead))
        if op == 'unreachable':
            return asm.UNREACHABLE
        if op == 'div':
            return asm.i32c(1) + asm.i32c(0) + asm.DIVS + asm.DROP
        if op == 'oob':
            return asm.i32c(PAGES * 65536 - 3) + asm.mem(0x28, 0, 0) + asm.DROP
        if op == 'indirect':
            return asm.i32c(3) + asm.call_indirect(self.v)
        if op == 'depth':
            i = m.nif + len(m.funcs)
            m.func(self.v, asm.call(i), locals=())
            return asm.call(i)
        if op == 'host':
            return asm.i32c(a[0]) + asm.call(self.host)
        assert 0, op


HOSTEXC = [lambda: ValueError('host'), lambda: HostError('x', 1), lambda: OSError(5, 'io'), KeyboardInterrupt,
           lambda: SystemExit(7), lambda: MemoryError(), lambda: HostError()]


class C17(Base):
    """Standard streams and exit status of whole programs."""
    id = 'C17'
    runs = {'quick': 4000, 'thorough': 120000}
    rule = ('one evaluation is one simulated process that runs two to four generated programs one after the other, each '
            'with a fresh WASI context (on the same or a fresh runtime): writes of pieces and write-until-done loops on '
            'standard output and error, reads and copies of standard input, closing and renumbering them, in nested '
            'blocks, loops and functions, ending by returning, proc_exit, trap, exhausted stack, a host exception or an '
            'interrupt at a system call; streams are host pipes or capture buffers, transfers are short or fail. '
            'Compared: log of every call kept in guest memory against the program text, bytes that reached each '
            'stream, bytes consumed from the input, exit code or exception, position of the capture buffers, and the '
            'same program repeated. Distinct: runs with a different trace.')

    def text(self, rng):
        self.sent += 1
        n = rng.choice([0, 1, 3, 10, 40, 200, 1500])
        return ''.join(chr(32 + (self.sent * 13 + i * 7) % 220) for i in range(n))

    def prog(self, rng, n, depth, end):
        out = []
        for i in range(n):
            x = rng.random()
            fd = rng.choice([1, 1, 1, 2, 2, 0])
            if x < .33:
                out.append(['w', fd, [self.text(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]])
            elif x < .55:
                out.append(['wall', fd, self.text(rng)])
            elif x < .67:
                out.append(['r', rng.choice([0, 1, 5, 60, 1000])])
            elif x < .77:
                out.append(['cat', rng.choice([1, 5, 60, 1000])])
            elif x < .79:
                out.append(['close', rng.choice([0, 1, 2])])
            elif x < .81:
                out.append(['renum', rng.choice([1, 1, 2]), rng.choice([1, 2, 2])])
            elif x < .84:
                out.append(['yield'])
            elif depth < 3:
                k = rng.choice(['loop', 'call', 'blk', 'blk'])
                inner = self.prog(rng, rng.randint(1, 3), depth + 1, None)
                out.append([k, rng.randint(1, 3), inner] if k == 'loop' else [k, inner])
        if end:
            # the end comes somewhere inside
            tgt = out
            while rng.random() < .6:
                subs = [s for s in tgt if s[0] in ('loop', 'call', 'blk')]
                if not subs:
                    break
                tgt = rng.choice(subs)[-1]
            tgt.insert(rng.randint(0, len(tgt)), end)
        return out

    def gen(self, rng, tier, i):
        self.sent = rng.randrange(100)
        runs = []
        conf = rng.choices(['plain', 'short', 'errors'], [3, 4, 2])[0]
        for j in range(rng.choice([2, 2, 3, 4])):
            e = rng.choice(ENDS)
            end = {'ret': None, 'irq': None, 'exit': ['exit', rng.choice([0, 0, 1, 2, 3, 42, 127, 255, 256, 0x7fffffff, -1, -5])],
                   'host': ['host', rng.randrange(len(HOSTEXC))]}.get(e, [e])
            p = {'prog': self.prog(rng, rng.randint(1, 7), 0, end), 'end': e, 'roe': int(rng.random() > .12),
                 'caps': [c for c in (0, 1, 2) if rng.random() < .45], 'capkind': rng.choice(['bytes', 'bytes', 'bytes', 'short', 'short', 'noseek']),
                 'input': self.text(rng) * 2, 'fresh': int(rng.random() < .4), 'nb': int(rng.random() < .1)}
            if e == 'irq':
                p['irq'] = rng.randint(1, 12)
            f = []
            if conf == 'short':
                for _ in range(rng.randint(1, 8)):
                    f.append([rng.choice(['write', 'write', 'read']), rng.randint(1, 12), 'short', rng.choice([1, 1, 2, 7, 40])])
            elif conf == 'errors':
                for _ in range(rng.randint(1, 4)):
                    f.append([rng.choice(['write', 'write', 'read', 'close']), rng.randint(1, 10), 'err', rng.randrange(64)])
            p['faults'] = f
            runs.append(p)
            if rng.random() < .4:
                runs.append(dict(p, again=1))
        return {'seed': rng.randrange(1 << 30), 'conf': conf, 'runs': runs}

    def parts(self, spec):
        out = [('runs',)]

        def rec(path, prog):
            out.append(path)
            for i, s in enumerate(prog):
                if s[0] in ('loop', 'call', 'blk'):
                    rec(path + (i, len(s) - 1), s[-1])
        for i, p in enumerate(spec['runs']):
            out.append(('runs', i, 'faults'))
            out.append(('runs', i, 'caps'))
            rec(('runs', i, 'prog'), p['prog'])
        return out

    def run(self, spec):
        r = Run()
        r.config = spec['conf']
        k = build_kernel({'tree': [['d', '/home']], 'seed': spec['seed']})
        w = World(k, spec['seed'])
        t0 = k.mono
        rt = None
        for n, p in enumerate(spec['runs']):
            if rt is None or p['fresh']:
                rt = w.pywasm.core.Runtime()
            try:
                self.one(r, k, w, rt, p, n)
            except SimHang as e:
                r.vio.append(('hang', 'run %d never ends: %s' % (n, e), {'op': {'op': 'main'}}))
                break
        for c, v in k.fault_stats.items():
            r.faults[c] = r.faults.get(c, 0) + v
        r.sim_ns = k.mono - t0
        return r

    def one(self, r, k, w, rt, p, n):
        def bad(cat, msg):
            r.vio.append((cat, 'run %d (%s): %s' % (n, p['end'], msg), {'op': {'op': 'main'}, 'n': n}))
        c = Compiler(p)
        k.actor = 'host'
        k.std[0].buf[:] = p['input'].encode('latin-1')
        k.std[0].eof = True
        for ch in k.std[1:]:
            ch.buf.clear()
        k.actor = 'guest'
        k.begin()
        raised = []

        def host(m, args):
            e = HOSTEXC[args[0]]()
            raised.append(e)
            raise e
        pw = w.pywasm
        wasi = pw.wasi.Preview1(['p'], {}, {})
        wasi.bind(rt)
        rt.imports['env'] = {'host': rt.allocate_func_host(pw.core.FuncType([pw.core.ValType.i32()], []), host)}
        wasi.return_on_exit = p['roe']
        bufs = {}
        for f in p['caps']:
            bufs[f] = {'short': ShortIO, 'noseek': OneWayIO}.get(p['capkind'], io.BytesIO)(p['input'].encode('latin-1') if f == 0 else b'')
            wasi.fd[f].pipe = bufs[f]
        inst = rt.instance(pw.core.ModuleDesc.from_reader(io.BytesIO(c.m.bytes())))
        hooks = {}
        irq = []
        if p.get('irq'):
            def fire():
                irq.append(1)
                raise KeyboardInterrupt()
            hooks[p['irq']] = [fire]
        fds = dict((fd, e.ofd.oid) for fd, e in k.fds.items())
        k.foreign.clear()
        k.begin([Fault(*f) for f in p['faults']], hooks)
        try:
            end = ('ret', wasi.main(rt, inst))
        except (SimUnsupported, SimHang):
            raise
        except BaseException as e:
            end = ('exc', e.with_traceback(None))
        fired = list(k.fired)
        k.begin()
        mem = rt.exported_memory(inst, 'memory')
        raw = bytes(mem.data)
        r.ops += 1
        # what the program text says happens, given the logged results
        lp, ip = struct.unpack('<II', raw[LOGP:LOGP + 8])
        log = [struct.unpack('<II', raw[a:a + 8]) for a in range(LOG, min(lp, LOG + 65536), 8)]
        inp = p['input'].encode('latin-1')
        got = raw[INP:ip]
        it = Interp(log, got, bool(irq), any(x[2] == 'err' for x in fired))
        it.size = len(inp)
        stop = it.run(p['prog'])
        if it.fault:
            bad('order', it.fault)
            return
        if stop is None and not irq:
            if it.next() != (0, 0xffff):
                bad('order', 'did not run to its end')
            stop = ('ret', 0)
        if it.i != len(log) and not irq:
            bad('order', 'executed %d more calls after its end: %s' % (len(log) - it.i, log[it.i:][:3]))
        # the result
        if irq:
            if end[0] != 'exc' or not isinstance(end[1], KeyboardInterrupt):
                bad('exit', 'an interrupt ended as %r' % (end,))
        elif stop[0] == 'exit' or stop[0] == 'ret':
            code = stop[1] & 0xffffffff
            if stop[0] == 'exit' and not p['roe']:
                ok = end[0] == 'exc' and isinstance(end[1], SystemExit) and isinstance(end[1].code, int) and \
                    end[1].code & 0xffffffff == code
            else:
                ok = end[0] == 'ret' and isinstance(end[1], int) and end[1] & 0xffffffff == code
            if not ok:
                bad('exit', 'ended as %r, the program\'s code is %d' % (end, code))
            r.probe('ended by ' + stop[0])
        elif stop[0] == 'host':
            if end[0] != 'exc' or end[1] is not raised[0]:
                bad('exit', 'a host exception %r ended as %r' % (raised, end))
            r.probe('ended by a host exception')
        else:
            if end[0] != 'exc' or not isinstance(end[1], Exception):
                bad('exit', 'a trap ended as %r' % (end,))
            r.probe('ended by a trap')
        # the streams
        out = {}
        for s in (0, 1, 2):
            if s in bufs:
                out[s] = bufs[s].getvalue() if s else None
            else:
                out[s] = bytes(k.std[s].buf)
        want = {1: bytearray(), 2: bytearray(), 0: bytearray()}
        for s, d in it.out:
            want[s] += d
        for s in (1, 2):
            if out[s] != bytes(want[s]):
                i = next((i for i, (a, b) in enumerate(zip(out[s], want[s])) if a != b), min(len(out[s]), len(want[s])))
                bad('stream', 'stream %d holds %d bytes, the program wrote %d; first difference at %d' % (
                    s, len(out[s]), len(want[s]), i))
        if 0 in bufs and not want[0]:
            used = bufs[0].tell()
            if bufs[0].getvalue() != inp:
                bad('stream', 'the input buffer was changed')
        else:
            used = len(inp) - len(k.std[0].buf) if 0 not in bufs else None
        if not irq and not want[0]:
            if got != inp[:len(got)]:
                bad('input', 'read %r, the input starts with %r' % (got[:40], inp[:40]))
            elif used is not None and used != it.taken:
                bad('input', 'consumed %d bytes of the input, the program got %d' % (used, it.taken))
        for s in (1, 2):
            if s in bufs and p['capkind'] != 'noseek':
                if bufs[s].closed or bufs[s].tell() != 0:
                    bad('rewind', 'captured stream %d is not rewound (%r)' % (s, bufs[s].closed or bufs[s].tell()))
        own = [fd for fd in k.fds if fd not in fds]
        if own or any(fd not in k.fds for fd in fds) or k.foreign:
            bad('fds', 'host descriptors before %s, after %s, misused %s' % (sorted(fds), sorted(k.fds), k.foreign[:2]))
        r.trace.append((end[0], repr(end[1]) if end[0] == 'ret' else type(end[1]).__name__, log, [tuple(f) for f in fired],
                        sorted(bufs), len(out[1] or b''), len(out[2] or b'')))
        r.probe('program executions')
        if p.get('again'):
            r.probe('programs repeated')
        if irq:
            r.probe('interrupted at a system call')
        if any(c for e, c in log if c):
            r.nontrivial = True
        if fired:
            r.probe('executions with a fault')
        if any(e for e, c in log):
            r.probe('executions with a failed call')


class Interp:
    """Walks the program text along the log of results."""

    def __init__(self, log, got, irq, failed):
        self.log, self.i, self.irq, self.failed = log, 0, irq, failed
        self.got, self.taken = got, 0
        self.out = []
        self.fault = None
        self.map = {0: 0, 1: 1, 2: 2}

    def next(self):
        if self.i >= len(self.log):
            return None
        self.i += 1
        return self.log[self.i - 1]

    def run(self, prog):
        """-> None if it ran to its end, else how it stopped."""
        for s in prog:
            if self.fault:
                return ('fault',)
            x = self.stmt(*s)
            if x:
                return x
        return None

    def io(self, what, limit, fd=None):
        e = self.next()
        if e is None:
            if not self.irq:
                self.fault = 'stopped before ' + what
            return None
        no, cnt = e
        if no == 0 and cnt > limit or no and cnt:
            self.fault = '%s reports errno %d and %d bytes of %d' % (what, no, cnt, limit)
            return None
        if fd is not None and no == 0 and self.map.get(fd) is None:
            self.fault = '%s on the closed descriptor %d succeeded' % (what, fd)
            return None
        if no and not self.failed and fd is not None and self.map.get(fd) is not None and \
                (self.map[fd] == 0) == (what == 'fd_read'):
            self.fault = '%s on stream %d failed with errno %d although no host call failed' % (what, fd, no)
            return None
        return e

    def stmt(self, op, *a):
        stop = ('gone',)
        if op == 'w':
            d = b''.join(x.encode('latin-1') for x in a[1])
            e = self.io('fd_write', len(d), a[0])
            if e is None:
                return stop
            if e[0] == 0 and d and e[1] == 0:
                self.fault = 'fd_write wrote nothing'
            if e[0] == 0:
                self.out.append((self.map[a[0]], d[:e[1]]))
        elif op == 'wall':
            d = a[1].encode('latin-1')
            tries = TRIES
            while True:
                e = self.io('fd_write', len(d), a[0])
                if e is None:
                    return stop
                if e[0] == 0:
                    self.out.append((self.map[a[0]], d[:e[1]]))
                    d = d[e[1]:]
                if not d:
                    break
                if e[0]:
                    tries -= 1
                    if not tries:
                        break
        elif op in ('r', 'cat'):
            e = self.io('fd_read', a[0], 0)
            if e is None:
                return stop
            if e == (0, 0) and a[0] and self.taken < self.size:
                self.fault = 'fd_read reports the end of the input after %d of %d bytes' % (self.taken, self.size)
                return ('fault',)
            d = self.got[self.taken:self.taken + e[1]]
            self.taken += e[1]
            if op == 'cat':
                e = self.io('fd_write', len(d), 1)
                if e is None:
                    return stop
                if e[0] == 0:
                    self.out.append((self.map[1], d[:e[1]]))
        elif op == 'close':
            e = self.io('fd_close', 0)
            if e is None:
                return stop
            if (self.map[a[0]] is None) != (e[0] == 8):
                self.fault = 'fd_close(%d) returned %d' % (a[0], e[0])
            self.map[a[0]] = None
        elif op == 'renum':
            e = self.io('fd_renumber', 0)
            if e is None:
                return stop
            x, y = a
            if self.map[x] is None or self.map[y] is None:
                if e[0] != 8:
                    self.fault = 'fd_renumber of a closed descriptor returned %d' % e[0]
            elif e[0]:
                self.fault = 'fd_renumber returned %d' % e[0]
            elif x != y:
                self.map[y], self.map[x] = self.map[x], None
        elif op == 'yield':
            e = self.io('sched_yield', 0)
            if e is None:
                return stop
        elif op == 'loop':
            for _ in range(a[0]):
                x = self.run(a[1])
                if x:
                    return x
        elif op in ('call', 'blk'):
            return self.run(a[0])
        elif op == 'exit':
            return ('exit', a[0])
        elif op == 'host':
            return ('host', a[0])
        else:
            return ('trap', op)
        return ('fault',) if self.fault else None


CHECK = C17()
