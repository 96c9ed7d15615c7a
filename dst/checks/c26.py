"""C26: arguments, environment, directories and exit status cross the embedding interface and the command line."""
import os
import posixpath
import struct
import types

from .. import asm
from ..asm import EQZ, get, i32c, set_, ADD, SUB, GTU
from ..engine import build_kernel
from ..kernel import Fault, SimHang, SimUnsupported
from ..lock import LockCheck, MIX
from ..runner import Base, Run
from ..world import REPO, World

IN = b'\x28'        # i32.load
OUT = b'\x36'       # i32.store
V128 = 0x7b
AP, AB, EP, EB, NB = 1024, 8192, 24576, 32768, 57344
PIECES = ['', 'a', 'prog', 'key', '=', 'a=b', '-x', '--wasi', '--', 'h\u00e9llo', '\u03bb\u8a9e', '\U0001f600', '\udcff', '\udcc3(',
          ' ', 'two words', '"', "'", '\n', '\\0', '%s', '*', 'x' * 300, '0', ':', '/', '..']


def text(rng):
    return ''.join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 1, 1, 2, 3])))


def load(a):
    return i32c(a) + IN + b'\x02\x00'


def store(a, v):
    return i32c(a) + v + OUT + b'\x02\x00'


def program(end):
    """Prints its arguments, environment and the names of its directories, leaves a file in each directory, and ends."""
    m = asm.Mod()
    idx = {n: m.imp_func('wasi_snapshot_preview1', n, m.type(asm.WASI[n], [] if n == 'proc_exit' else [asm.I32]))
           for n in ('args_get', 'args_sizes_get', 'environ_get', 'environ_sizes_get', 'fd_write', 'fd_prestat_get',
                     'fd_prestat_dir_name', 'path_open', 'proc_exit')}

    def must(name, *args):
        return b''.join(args) + asm.call(idx[name]) + asm.if_(i32c(70) + asm.call(idx['proc_exit']))
    m.mem(1)
    m.export('memory', 2, 0)
    m.data(512, b'left')
    # print(ptr, len)
    w = asm.block(asm.loop(
        get(1) + EQZ + asm.br_if(1) + store(32, get(0)) + store(36, get(1)) +
        i32c(1) + i32c(32) + i32c(1) + i32c(40) + asm.call(idx['fd_write']) +
        asm.if_(i32c(77) + asm.call(idx['proc_exit'])) +
        get(0) + load(40) + ADD + set_(0) + get(1) + load(40) + SUB + set_(1) + asm.br(0)))
    pr = m.func(m.type([asm.I32, asm.I32], []), w)

    def out(p, n):
        return p + n + asm.call(pr)
    body = must('args_sizes_get', i32c(0), i32c(4)) + must('args_get', i32c(AP), i32c(AB)) + \
        must('environ_sizes_get', i32c(8), i32c(12)) + must('environ_get', i32c(EP), i32c(EB)) + \
        out(i32c(0), i32c(16)) + out(i32c(AP), load(0) + i32c(4) + asm.MUL) + out(i32c(AB), load(4)) + \
        out(i32c(EP), load(8) + i32c(4) + asm.MUL) + out(i32c(EB), load(12)) + \
        i32c(3) + set_(0) + asm.block(asm.loop(
            get(0) + i32c(48) + asm.call(idx['fd_prestat_get']) + asm.br_if(1) +
            out(i32c(52), i32c(4)) + must('fd_prestat_dir_name', get(0), i32c(NB), load(52)) + out(i32c(NB), load(52)) +
            get(0) + i32c(0) + i32c(512) + i32c(4) + i32c(1) + asm.i64c(0x40) + asm.i64c(0) + i32c(0) + i32c(56) +
            asm.call(idx['path_open']) + EQZ +
            asm.if_(store(32, i32c(0)) + store(36, i32c(1)) + store(0, get(0)) +
                    load(56) + i32c(32) + i32c(1) + i32c(40) + asm.call(idx['fd_write']) + asm.DROP) +
            get(0) + i32c(1) + ADD + set_(0) + asm.br(0)))
    if end == 'trap':
        body += asm.UNREACHABLE
    elif end != 'ret':
        body += i32c(end) + asm.call(idx['proc_exit'])
    m.func(m.type([], []), body, locals=[asm.I32], export='_start')
    return m.bytes()


def pick(types):
    """A module whose function f returns its arguments in reverse."""
    m = asm.Mod()
    n = len(types)
    m.func(m.type(types, types[::-1]), b''.join(get(i) for i in reversed(range(n))), export='f')
    m.func(m.type([], []), asm.UNREACHABLE, export='t')
    m.func(m.type([], []), b'', export='_start')
    return m.bytes()


class Api(LockCheck):
    id = 'C26'
    mix = dict({k: v * .4 for k, v in MIX.items()}, args_get=8, args_sizes_get=5, environ_get=8, environ_sizes_get=5)
    nops = (12, 25)
    prelude = 1

    def configs(self, rng):
        return rng.choice([{'name': 'embedded'}, {'name': 'embedded, host errors', 'faults': .4}])

    def init(self, rng):
        i = LockCheck.init(self, rng)
        n = rng.choice([0, 1, 1, 2, 3, 8, 30])
        i['args'] = [text(rng)[:60 if n > 8 else 400] for _ in range(n)]
        i['envs'] = {}
        for _ in range(rng.choice([0, 1, 2, 3, 10, 20])):
            k = text(rng).replace('=', '_')[:80] or 'K'
            i['envs'][k] = text(rng)[:40]
        return i

    def relevant(self, cat, info):
        return (info or {}).get('op', {}).get('op', '').startswith(('args', 'environ'))


API = Api()


class C26(Base):
    """Programs started through Preview1 and through python -m pywasm, under host faults while they start and print."""
    id = 'C26'
    runs = {'quick': 16000, 'thorough': 150000}
    cats = None
    real = Base.real + ', pywasm/__main__.py (with the argparse of the standard library)'
    rule = ('one evaluation is one session of 12-25 calls that ask for arguments and environment again and again among other '
            'calls that succeed and fail, each compared byte for byte; or one execution of python -m pywasm in a simulated '
            'process: a program that prints its arguments, environment and directories, leaves a file in each directory and '
            'ends in a seeded way, started with seeded options while opens and reads fail, writes are short or fail, files '
            'and directories are missing or damaged; or a function called with --func. Judged: the exact output, the files '
            'left, the exit status, and that nothing of the program ran when its start failed. Counted as distinct: '
            'executions with a different trace.')

    def gen(self, rng, tier, i):
        if i % 2:
            s = API.gen(rng, tier, i)
            s['mode'] = 'api'
            return s
        if rng.random() < .15:
            ty = [rng.choice([asm.I32, asm.I64, asm.F32, asm.F64, V128]) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            vals = [rng.choice([0, 1, -1, 7, (1 << 31) - 1, -(1 << 31)]) if t == asm.I32 else
                    rng.choice([0, -1, 5, (1 << 63) - 1, -(1 << 63), 1 << 40]) if t == asm.I64 else
                    rng.choice(['0x' + '00' * 16, '0x' + 'ff' * 16, '0x000102030405060708090a0b0c0d0e0f']) if t == V128 else
                    rng.choice([0.0, 1.5, -2.25, 1e10, float('inf'), -0.0, 0.1 if t == asm.F64 else 0.5]) for t in ty]
            return {'mode': 'func', 'types': ty, 'vals': vals, 'name': rng.choice(['f'] * 6 + ['t', 'nope', '_start']),
                    'seed': rng.randrange(1 << 30), 'eq': rng.randrange(8), 'drop': int(rng.random() < .1)}
        dirs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            dirs.append([rng.choice(['d', '/', '.', 'a/b', './x/', '/usr/../lib', 'd', '\u00e9', 'two words', '\udcff']),
                         rng.choice(['/data', '/data/', 'd0', './d0', '/home/work/d1', 'd0/../d1', '.', '/data/in:out'] + ['/nowhere', 'file'] * (rng.random() < .25))])
        faults = []
        x = rng.random()
        if x < .2:
            faults = [['write', rng.randint(1, 12), 'short', rng.choice([1, 3, 20])] for _ in range(rng.randint(1, 6))]
        elif x < .3:
            faults = [['write', rng.randint(1, 8), 'err', rng.choice(['EIO', 'ENOSPC', 'EPIPE'])]]
        elif x < .5:
            faults = [[rng.choice(['open', 'open', 'read', 'getattr']), rng.choice([1, 1, 2, 3, 4, 6]), 'err',
                       rng.choice(['EIO', 'EMFILE', 'EACCES', 'ENOMEM', 'ESTALE'])]]
        return {'mode': 'cli', 'args': [text(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))],
                'envs': [[text(rng).replace('=', '') or 'K', text(rng)] for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                'dirs': dirs, 'file': rng.choice(['prog.wasm', './prog.wasm', '/home/work/prog.wasm', 'd0/../prog.wasm', '\u00fc x.wasm'] +
                                                 ['missing.wasm', 'd0', 'cut.wasm'] * (rng.random() < .25)),
                'end': rng.choice(['ret', 'ret', 'trap', 0, 1, 2, 42, 127, 255, 256, 0x7fffffff, 0xffffffff]),
                'cut': rng.random(), 'faults': faults, 'seed': rng.randrange(1 << 30), 'order': rng.randrange(1 << 30), 'eq': rng.randrange(1 << 12)}

    def parts(self, spec):
        if spec['mode'] == 'api':
            return API.parts(spec)
        return [(f,) for f in ('args', 'envs', 'dirs', 'faults') if f in spec]

    def simplify(self, spec):
        if spec['mode'] == 'api' and spec['init'].get('args'):
            for f in ('args', 'envs'):
                if spec['init'][f]:
                    yield dict(spec, init=dict(spec['init'], **{f: type(spec['init'][f])()}))

    def relevant(self, cat, info):
        return cat in ('cli', 'hang') or API.relevant(cat, info)

    def run(self, spec):
        if spec['mode'] == 'api':
            return API.run(spec)
        return self.func(spec) if spec['mode'] == 'func' else self.cli(spec)

    # ---- one process
    def process(self, k, w, argv):
        """Executes python -m pywasm. -> ('exit', code) | ('exc', exception)"""
        path = os.path.join(REPO, 'pywasm', '__main__.py')
        s = w.mods['sys']
        s.argv = [path] + argv
        g = {'__name__': '__main__', '__package__': 'pywasm', '__file__': path, '__builtins__': w.builtins}
        try:
            exec(w.compile(path), g)
        except SystemExit as e:
            c = e.code
            return ('exit', 0 if c is None else c & 255 if isinstance(c, int) else 1)
        except (SimUnsupported, SimHang):
            raise
        except Exception as e:
            return ('exc', e.with_traceback(None))
        return ('exit', 0)

    @staticmethod
    def opt(name, val, eq):
        """An option, as one word or as two."""
        return ['%s=%s' % (name, val)] if eq or val.startswith('-') else [name, val]

    @staticmethod
    def ends(prog):
        at = 8
        while at < len(prog):
            yield at
            n = k = 0
            at += 1
            while True:
                b = prog[at]
                n |= (b & 127) << k
                k += 7
                at += 1
                if b < 128:
                    break
            at += n

    def setup(self, spec, files):
        tree = [['d', '/home'], ['d', '/home/work'], ['d', '/home/work/d0'], ['d', '/home/work/d1'], ['d', '/data'],
                ['d', '/data/in:out'], ['f', '/home/work/file', 'x']]
        k = build_kernel({'tree': tree, 'seed': spec['seed'], 'cwd': '/home/work'})
        for n, b in files.items():
            k.put_file(os.fsencode('/home/work/' + n), b)
        w = World(k, spec['seed'])
        return k, w

    def func(self, spec):
        r = Run()
        r.config = 'function'
        k, w = self.setup(spec, {'m.wasm': pick(spec['types'])})
        vals = spec['vals'] if not spec['drop'] else spec['vals'][:-1]
        argv = ['--func', spec['name']] if spec['name'] != '_start' else []
        for j, v in enumerate(vals if spec['name'] == 'f' else []):
            argv += self.opt('--func-args', str(v), spec['eq'] >> j & 1)
        k.begin()
        end = self.process(k, w, argv + ['m.wasm'])
        out = bytes(k.std[1].buf)
        info = {'op': {'op': 'main', 'argv': argv}}
        r.ops += 1
        r.trace.append((argv, end[0], str(end[1]), out))
        if spec['name'] == '_start' or spec['name'] == 'f' and len(vals) == len(spec['types']):
            shown = [bytearray.fromhex(v[2:]) if t == V128 else v for t, v in zip(spec['types'], vals)]
            want = ('%r\n' % ([] if spec['name'] == '_start' else shown[::-1],)).encode()
            if end != ('exit', 0) or out != want:
                r.vio.append(('cli', 'calling %s printed %r and ended as %r, it has to print %r' % (argv, out, end, want), info))
            r.nontrivial = True
        elif end == ('exit', 0) or out:
            r.vio.append(('cli', 'calling %s succeeded and printed %r' % (argv, out), info))
        return r

    def cli(self, spec):
        import random
        r = Run()
        r.config = 'command line'
        prog = program(spec['end'])
        cut = int(len(prog) * spec['cut'])
        # what ends with a section may be a module of its own
        cut -= cut in self.ends(prog)
        files = {'prog.wasm': prog, '\u00fc x.wasm': prog, 'cut.wasm': prog[:cut]}
        k, w = self.setup(spec, files)
        parts = [[['--wasi', 'preview1'], ['--wasi=preview1']][spec['eq'] & 1]]
        for j, a in enumerate(spec['args']):
            parts.append(self.opt('--wasi-args', a, spec['eq'] >> j + 1 & 1))
        for j, (a, b) in enumerate(spec['envs']):
            parts.append(self.opt('--wasi-envs', a + '=' + b, spec['eq'] >> j + 4 & 1))
        for j, (a, b) in enumerate(spec['dirs']):
            parts.append(self.opt('--wasi-dirs', a + ':' + b, spec['eq'] >> j + 7 & 1))
        # options of one kind keep their order, everything else may be mixed
        rng = random.Random(spec['order'])
        kinds = [p[0].partition('=')[0] for p in parts] + ['file']
        order = kinds[:]
        rng.shuffle(order)
        groups = {}
        for p in parts + [[spec['file']]]:
            groups.setdefault('file' if p == [spec['file']] else p[0].partition('=')[0], []).append(p)
        argv = [x for kind in order for x in groups[kind].pop(0)]
        k.foreign.clear()
        k.begin([Fault(*f) for f in spec['faults']])
        end = self.process(k, w, argv)
        fired = list(k.fired)
        for c, v in k.fault_stats.items():
            r.faults[c] = r.faults.get(c, 0) + v
        k.begin()
        out = bytes(k.std[1].buf)
        r.ops += 1
        left = {p: bytes(k.raw_get(os.fsencode(p)).data) for p in
                [q + '/left' for q in ('/home/work', '/home/work/d0', '/home/work/d1', '/data', '/data/in:out')] if self.there(k, p)}
        r.trace.append((argv, end[0], str(end[1]), out, sorted(left.items()), fired))
        info = {'op': {'op': 'main', 'argv': argv}}

        def bad(msg):
            r.vio.append(('cli', msg, info))
        # what has to be printed
        envs = dict(map(tuple, spec['envs']))
        dirs = {posixpath.normpath(a): posixpath.normpath(b) for a, b in dict(map(tuple, spec['dirs'])).items()}
        A = [os.fsencode(x) for x in [spec['file']] + spec['args']]
        E = [os.fsencode('='.join(x)) for x in sorted(envs.items())]
        head, ptr, buf = b'', [], []
        for base, L in ((AB, A), (EB, E)):
            head += struct.pack('<II', len(L), sum(len(x) + 1 for x in L))
            p, o = base, b''
            for x in L:
                o += struct.pack('<I', p)
                p += len(x) + 1
            ptr.append(o)
            buf.append(b''.join(x + b'\0' for x in L))
        want = head + ptr[0] + buf[0] + ptr[1] + buf[1]
        host = {}
        fd = 3
        for a, b in sorted(dirs.items()):
            n = os.fsencode(a)
            want += struct.pack('<I', len(n)) + n
            host.setdefault(posixpath.normpath(posixpath.join('/home/work', b)) + '/left', []).append(fd)
            fd += 1
        # faults and files that forbid a start
        dead = spec['file'] in ('missing.wasm', 'd0', 'cut.wasm') or any(b in ('/nowhere', 'file') for b in dirs.values())
        if dead:
            r.probe('cannot start')
        early = [f for f in fired if f[0] in ('open', 'read', 'getattr') and f[2] == 'err']
        wrote = [f for f in fired if f[0] == 'write' and f[2] == 'err']
        if dead or early and not out:
            if end == ('exit', 0) or out or left:
                bad('the start failed (%s), but it printed %d bytes, left %s and ended as %r' % (early or 'no such file', len(out), sorted(left), end))
            r.probe('start failed')
            return r
        r.nontrivial = True
        r.probe('ran')
        # it ran
        if wrote and end == ('exit', 77):
            if not want.startswith(out):
                bad('printed %r before a failing write, expected a part of %r' % (out[:200], want[:200]))
            return r
        if out != want:
            j = next((j for j, (x, y) in enumerate(zip(out, want)) if x != y), min(len(out), len(want)))
            bad('printed %r at byte %d, expected %r' % (out[max(0, j - 8):j + 24], j, want[max(0, j - 8):j + 24]))
        if spec['end'] == 'trap':
            if end[0] != 'exc' or isinstance(end[1], OSError):
                bad('a trap ended as %r' % (end,))
        elif end != ('exit', 0 if spec['end'] == 'ret' else spec['end'] & 255):
            bad('ended as %r, the program ended with %r' % (end, spec['end']))
        for p, d in left.items():
            if p not in host:
                bad('a file was left as %s, which is in no directory of the program' % p)
            elif len(d) > 1 or d and d[0] not in host[p]:
                bad('%s holds %r, expected the number of the descriptor, %s' % (p, d, host[p]))
        if not fired:
            for p, f in host.items():
                if left.get(p) not in [bytes([x]) for x in f]:
                    bad('the program left %r as %s, expected descriptor %s' % (left.get(p), p, f))
        return r

    @staticmethod
    def there(k, p):
        try:
            return k.raw_get(os.fsencode(p)) is not None
        except (KeyError, OSError):
            return False


CHECK = C26()
