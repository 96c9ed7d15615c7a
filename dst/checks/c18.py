import hashlib
import io

from .. import asm
from ..engine import build_kernel, Fault
from ..kernel import SimHang, SimUnsupported, entropy_bytes
from ..runner import Base, Run
from ..world import World


def module(pages):
    m = asm.Mod()
    f = m.imp_func('wasi_snapshot_preview1', 'random_get', m.type([asm.I32, asm.I32], [asm.I32]))
    m.mem(pages)
    m.export('memory', 2, 0)
    m.func(m.type([asm.I32, asm.I32], [asm.I32]), asm.get(0) + asm.get(1) + asm.call(f), export='go')
    # two requests without the host in between
    m.func(m.type([asm.I32, asm.I32, asm.I32], [asm.I32]),
           asm.get(0) + asm.get(2) + asm.call(f) + asm.get(1) + asm.get(2) + asm.call(f) + asm.ADD, export='two')
    return m.bytes()


class Unused:
    """Entropy that the host handed out and that no guest has received yet."""

    def __init__(self):
        self.spans = []

    def add(self, off, data):
        self.spans.append([off, data])

    def take(self, want):
        """Is want made of pieces that were handed out and never delivered? Uses them up."""
        todo, spans = [want], [list(s) for s in self.spans]
        i = 0
        while i < len(want):
            best = None
            for j in range(len(spans) - 1, -1, -1):
                d = spans[j][1]
                at = d.find(want[i:i + min(8, len(want) - i)])
                if at < 0:
                    continue
                n = 0
                m = min(len(d) - at, len(want) - i)
                if d[at:at + m] == want[i:i + m]:
                    n = m
                else:
                    while n < m and d[at + n] == want[i + n]:
                        n += 1
                if best is None or n > best[2]:
                    best = (j, at, n)
            if best is None:
                return False
            j, at, n = best
            off, d = spans.pop(j)
            if at + n < len(d):
                spans.insert(j, [off + at + n, d[at + n:]])
            if at:
                spans.insert(j, [off, d[:at]])
            i += n
        self.spans = spans
        return True


class C18(Base):
    """Random bytes of guests against the simulated entropy source."""
    id = 'C18'
    runs = {'quick': 4000, 'thorough': 120000}
    rule = ('one evaluation is one simulated history of 8-30 steps: several contexts on one or two runtimes in one or two '
            'identically seeded processes request random bytes (lengths 0 to the whole memory, at every position, in or '
            'out of range, one or two requests per invocation), the embedder seeds and draws from Python\'s generator in '
            'between, and the entropy source fails at chosen draws. Compared: every delivered byte must be entropy the '
            'source handed out and nobody received before (or, for an implementation that transforms it, must change '
            'with the entropy and not with the generator\'s seed), the state of Python\'s generator, memory outside the '
            'buffer, errors. Distinct: histories with a different trace.')
    assumptions = ['the simulated entropy source stands for the operating system\'s generator: what it hands out is '
                   'secure by assumption; os.urandom, os.getrandom, secrets and random.SystemRandom draw from it']

    def gen(self, rng, tier, i):
        ops = [['ctx', 0, 0]]
        conf = rng.choices(['plain', 'fail'], [3, 2])[0]
        nctx = 1
        for _ in range(rng.randint(8, 30)):
            x = rng.random()
            if x < .1 and nctx < 6:
                ops.append(['ctx', rng.randrange(2), rng.randrange(2)])
                nctx += 1
            elif x < .25:
                ops.append(['seed', rng.randrange(2), rng.choice([0, 0, 1, 12345, None])])
            elif x < .33:
                ops.append(['draw', rng.randrange(2), rng.choice([1, 8, 100])])
            elif x < .37:
                ops.append(['urandom', rng.choice([1, 16, 300])])
            else:
                n = rng.choice([0, 1, 2, 7, 8, 16, 31, 32, 33, 64, 255, 256, 257, 1000, 4096, 5000, 65535, 65536, 66000])
                if rng.random() < .3:
                    n = rng.randint(0, 700)
                c = rng.randrange(nctx)
                ptr = rng.choice([0, 1, 7, 100, 4093, 65530, -n, -n - 1, -n + 1, -n + 3, -1, 1 << 31, (1 << 32) - 5, (1 << 32) - n])
                if rng.random() < .5:
                    ptr = rng.randint(0, 60000)
                if rng.random() < .02:
                    n = rng.choice([0x7fffffff, 0xffffffff, 0x80000000])
                o = ['get', c, ptr, n, []]
                if rng.random() < .15:
                    o = ['two', c, ptr, rng.randint(0, 60000), min(n, 5000), []]
                if conf == 'fail' and rng.random() < .35:
                    o[-1] = [['entropy', rng.choice([1, 1, 1, 2, 3]), 'err', rng.randrange(3)]
                             for _ in range(rng.choice([1, 1, 2]))]
                ops.append(o)
        return {'seed': rng.randrange(1 << 30), 'pyseed': rng.randrange(1 << 20), 'pages': rng.choice([1, 1, 2, 3]),
                'conf': conf, 'ops': ops}

    def parts(self, spec):
        return [('ops',)] + [('ops', i, len(o) - 1) for i, o in enumerate(spec['ops']) if o[0] in ('get', 'two')]

    def simplify(self, spec):
        if spec['pages'] != 1:
            yield dict(spec, pages=1)
        for i, o in enumerate(spec['ops']):
            if o[0] == 'get' and 0 < o[2] < 65536 and o[2] != 64:
                yield dict(spec, ops=spec['ops'][:i] + [o[:2] + [64] + o[3:]] + spec['ops'][i + 1:])

    def run(self, spec):
        r = Run()
        r.config = spec['conf']
        out = self.play(spec, r, spec['seed'], spec['pyseed'])
        if any(o[4] for o in out):
            self.doubt(spec, r, out)
        return r

    def play(self, spec, r, eseed, pyseed):
        """-> [(step, ok, address, bytes, doubtful, drawn so far)]"""
        k = build_kernel({'tree': [['d', '/home']], 'seed': eseed})
        k.seed = (eseed & ~3) | (spec['seed'] & 3)
        worlds, rts, ctxs, out = {}, {}, [], []
        pool, seen = Unused(), 0
        code = module(spec['pages'])
        size = spec['pages'] * 65536

        def bad(cat, msg, o):
            r.vio.append((cat, msg, {'op': {'op': 'random_get'}, 'step': o}))

        def world(n):
            if n not in worlds:
                worlds[n] = World(k, pyseed)
            return worlds[n]

        def collect():
            nonlocal seen
            for off, n in k.entropy_out[seen:]:
                pool.add(off, entropy_bytes(k.seed, off, n))
            seen = len(k.entropy_out)

        for step, o in enumerate(spec['ops']):
            k.begin()
            if o[0] == 'ctx':
                w = world(o[1])
                key = (o[1], o[2])
                if key not in rts:
                    rts[key] = w.pywasm.core.Runtime()
                rt = rts[key]
                wasi = w.pywasm.wasi.Preview1(['p'], {}, {})
                wasi.bind(rt)
                inst = rt.instance(w.pywasm.core.ModuleDesc.from_reader(io.BytesIO(code)))
                ctxs.append((w, rt, inst, rt.exported_memory(inst, 'memory')))
            elif o[0] == 'seed':
                m = world(o[1]).reload('random')
                m.seed(o[2])
            elif o[0] == 'draw':
                m = world(o[1]).reload('random')
                r.trace.append([m.random() for _ in range(o[2])][-1])
            elif o[0] == 'urandom':
                w = worlds[min(worlds)]
                collect()
                w.os.urandom(o[1])
                seen = len(k.entropy_out)           # the embedder's own: never the guest's
            else:
                if o[1] >= len(ctxs):
                    continue
                w, rt, inst, mem = ctxs[o[1]]
                states = [(v.reload('random'), v.reload('random').getstate()) for v in worlds.values()]
                before = bytes(mem.data)
                ent0 = len(k.entropy_out)
                k.begin([Fault(*f) for f in o[-1]])
                if o[0] == 'get':
                    args = [o[2] % (1 << 32) if o[2] >= 0 else (o[2] + size) % (1 << 32), o[3]]
                    bufs = [(args[0], args[1])]
                else:
                    args = [o[2] % (1 << 32) if o[2] >= 0 else (o[2] + size) % (1 << 32), o[3], o[4]]
                    bufs = [(args[0], o[4]), (args[1], o[4])]
                try:
                    res = rt.invocate(inst, 'go' if o[0] == 'get' else 'two', [a - (1 << 32) if a >= 1 << 31 else a for a in args])[0]
                except (SimUnsupported, SimHang):
                    raise
                except Exception as e:
                    res = e.with_traceback(None)
                fired = list(k.fired)
                k.begin()
                for cl, v in k.fault_stats.items():
                    r.faults[cl] = r.faults.get(cl, 0) + v
                k.fault_stats.clear()
                after = bytes(mem.data)
                r.ops += 1
                collect()
                r.trace.append((o[0], args, repr(res), hashlib.sha1(after).hexdigest()))
                for m, s in states:
                    if m.getstate() != s:
                        bad('disturbed', 'the call changed the state of Python\'s own random generator', o)
                if len(after) != size:
                    bad('memory', 'the size of the memory changed', o)
                    continue
                inb = [p + n <= size for p, n in bufs]
                # bytes outside of the buffers
                keep = bytearray(before)
                for p, n in bufs:
                    keep[p:p + n] = after[p:p + n]
                if keep[:size] != after:
                    bad('memory', 'bytes outside of the buffer changed', o)
                if not all(inb):
                    r.probe('out of range')
                    if res == 0:
                        bad('result', 'a buffer outside of the memory was reported as filled', o)
                    elif isinstance(res, int) and not fired and res != 21 and o[0] == 'get':
                        bad('result', 'a buffer outside of the memory gives errno %d' % res, o)
                    if o[0] == 'get' and after != before:
                        bad('memory', 'a failed call changed memory', o)
                    continue
                if isinstance(res, BaseException):
                    bad('exc', 'the call raised %r instead of returning an error' % res, o)
                    continue
                if o[0] == 'two' and len({bufs[0][0], bufs[1][0]}) == 1:
                    continue
                if o[0] == 'two' and abs(bufs[0][0] - bufs[1][0]) < o[4]:
                    bufs = bufs[1:]                     # overlapping: the first one is partly gone
                if res != 0:
                    if not fired:
                        bad('result', 'errno %d although the entropy source worked' % res, o)
                    r.probe('entropy failed')
                    if o[0] == 'get':
                        p, n = bufs[0]
                        i = n
                        while i and after[p + i - 1] == before[p + i - 1]:
                            i -= 1
                        if i and not pool.take(after[p:p + i]):
                            bad('failed', 'a failed call filled the buffer with something else', o)
                    continue
                if fired:
                    r.probe('survived a failing draw')
                for p, n in bufs:
                    got = after[p:p + n]
                    ok = pool.take(got)
                    r.probe('request of %s' % ('0' if n == 0 else '1-8' if n < 9 else '9-256' if n < 257 else 'more'))
                    out.append((step, n, p, got, not ok, sum(x[1] for x in k.entropy_out)))
                r.nontrivial = True
        r.sim_ns += 0
        return out

    def doubt(self, spec, r, out):
        """Bytes that are not literally the host's entropy: do they at least depend on it, on all of it, and on nothing
        else? Decided by running the same history with another entropy stream, and with another generator seed."""
        x = Run()
        alts = [self.play(spec, x, spec['seed'] + (s << 32), spec['pyseed']) for s in (1, 2, 3)]
        other = self.play(spec, x, spec['seed'], spec['pyseed'] + 1)

        def bad(step, msg):
            r.vio.append(('source', msg, {'op': {'op': 'random_get'}, 'step': spec['ops'][step]}))
        shape = [(o[0], o[1], o[2]) for o in out]
        if any([(o[0], o[1], o[2]) for o in a] != shape for a in alts + [other]):
            return
        seen = {}
        total = 0
        bits = [0] * 8
        for i, (step, n, p, got, _, drawn) in enumerate(out):
            total += n
            if drawn < total:
                bad(step, 'delivered %d random bytes so far, but drew only %d from the host' % (total, drawn))
                return
            if other[i][3] != got:
                bad(step, 'the bytes depend on the state of Python\'s generator')
                return
            for j in range(n):
                d = 0
                for a in alts:
                    d |= a[i][3][j] ^ got[j]
                if d == 0 and n >= 16 and all(a[i][3][j:j + 4] == got[j:j + 4] for a in alts) and j + 4 <= n:
                    bad(step, 'byte %d of %d does not come from the host\'s entropy' % (j, n))
                    return
                for b in range(8):
                    bits[b] += d >> b & 1
            for j in range(0, n - 7):
                w = got[j:j + 8]
                if w in seen and seen[w] != (i, j):
                    bad(step, 'bytes were delivered twice')
                    return
                seen[w] = (i, j)
        if total >= 32 and not all(bits):
            bad(out[-1][0], 'some bits never change: %s' % bits)
        elif total < 32 and all(x == 0 for x in bits) and total >= 4:
            bad(out[-1][0], 'the bytes do not depend on the host\'s entropy')


CHECK = C18()
