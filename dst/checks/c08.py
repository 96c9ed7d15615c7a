import random
import struct

from .. import gen as G
from ..engine import S, Enc, Session
from ..gen import FILE_RIGHTS, R
from ..kernel import Fault, SimUnsupported
from ..lock import LockCheck
from ..refwasi import APPEND, DSYNC, RSYNC, SYNC, W

MIX8 = {'path_open': 2.5, 'fd_close': .8, 'fd_write': 9, 'fd_pwrite': 5, 'fd_seek': 3, 'fd_allocate': 1.5,
        'fd_filestat_set_size': 2, 'fd_sync': 5, 'fd_datasync': 5, 'fd_fdstat_set_flags': 1.5, 'fd_renumber': .7,
        'path_rename': .5, 'path_unlink_file': .2, 'path_link': .3, 'fd_read': .5}
SYNCS = ('fd_sync', 'fd_datasync')


class Promise:
    """What a crash may do to one file: the values allowed for each byte and the limits of its size."""

    def __init__(self, data):
        self.now = bytes(data)
        self.whole(data)

    def whole(self, data):
        self.allowed = [{b} for b in data]
        self.lo = self.hi = len(data)
        self.now = bytes(data)

    def change(self, new):
        new = bytes(new)
        self.lo = min(self.lo, len(new))
        self.hi = max(self.hi, len(new))
        del self.allowed[self.lo:]
        for i in range(self.lo):
            self.allowed[i].add(new[i])
        self.now = new

    def wrote(self, a, b):
        """The bytes from a to b are promised to survive."""
        for i in range(self.lo, b):
            self.allowed.append(set(range(256)) if i < a else {self.now[i]})
        for i in range(a, min(b, self.lo)):
            self.allowed[i] = {self.now[i]}
        self.lo = max(self.lo, b)

    def judge(self, image):
        if not self.lo <= len(image) <= self.hi:
            return 'has %d bytes, it must have %s' % (len(image), self.lo if self.lo == self.hi else 'from %d to %d' % (self.lo, self.hi))
        for i in range(self.lo):
            if image[i] not in self.allowed[i]:
                return 'holds %#x at %d, expected %s' % (image[i], i, '/'.join('%#x' % x for x in sorted(self.allowed[i])[:4]))
        return None


class C08(LockCheck):
    """Power failures at any system call; what was synced has to be readable by the next guest."""
    id = 'C08'
    runs = {'quick': 5000, 'thorough': 130000}
    nops = (10, 40)
    prelude = 3
    mix = MIX8
    rule = ('one evaluation is one session of 10-40 calls writing, truncating, allocating and syncing a few files '
            'through several descriptors, with and without SYNC and DSYNC, with failing syncs, short and failing '
            'writes and other processes writing, ended by a power failure at a chosen system call; the unsynced '
            'modifications reach the simulated disk in part, torn or not at all, the machine restarts and a new guest '
            'reads every file. Counted as distinct: sessions with at least one successful call and a different trace '
            'of results, system calls, faults, crash point and surviving contents.')

    def configs(self, rng):
        return rng.choices([{'name': 'crash only'}, {'name': 'crash+sync errors', 'syncerr': .4},
                            {'name': 'crash+short', 'faults': .4, 'kinds': ('short',)},
                            {'name': 'crash+errors', 'faults': .3, 'kinds': ('err', 'short'), 'syncerr': .2},
                            {'name': 'crash+writers', 'writers': .25}], [3, 2, 2, 2, 1])[0]

    def init(self, rng):
        return G.world(rng, kind=rng.choice(['data', 'two', 'dot']), rich=False)

    def tune(self, g, rng):
        g.names = ['f0', 'f1', 'a']
        g.weird = g.escape = 0
        g.badfd = .005
        g.full_rights = .97
        g.deep = 0
        g.std = g.pipes = 0

    def next_op(self, g, rng, s, spec, i):
        c = spec['conf']
        if i < self.prelude:
            o = g.op('path_open')
            o.update({'fd': 'pre0', 'path': rng.choice(['f0', 'f0', 'f1', 'a']), 'ofl': rng.choice([0, 1, 1, 9]), 'dfl': 1, 'base': FILE_RIGHTS})
            if o['path'] == 'a':
                o['ofl'] |= 1
            if i == self.prelude - 1 and rng.random() < .3:
                # a descriptor which only syncs what others write
                o.update({'path': rng.choice(['f0', 'f0', 'f1']), 'ofl': 0, 'base': rng.choice([
                    R['FD_READ'] | R['FD_SYNC'] | R['FD_DATASYNC'], R['FD_SYNC'] | R['FD_DATASYNC'],
                    FILE_RIGHTS & ~R['FD_WRITE'] & ~R['FD_ALLOCATE']])}, fdfl=0)
                return o
            o['fdfl'] = rng.choice([0, 0, SYNC, DSYNC, rng.randrange(32), rng.randrange(32)])
            return o
        if rng.random() < c.get('writers', 0):
            a = '/home/pre/' + rng.choice(['f0', 'f0', 'f1', 'a'])
            return rng.choice([{'op': 'h_append', 'a': a, 'data': G.content(rng)},
                               {'op': 'h_truncate', 'a': a, 'n': rng.choice([0, 1, 5, 17, 60, 300])}])
        o = LockCheck.next_op(self, g, rng, s, spec, i)
        if o['op'] == 'path_open' and rng.random() < .5:
            o['fdfl'] = rng.choice([0, SYNC, DSYNC, rng.randrange(32)])
            o['base'] = FILE_RIGHTS
        if o['op'] == 'fd_fdstat_set_flags' and rng.random() < .5:
            o['flags'] = rng.choice([SYNC, DSYNC, SYNC | APPEND, APPEND])
        if o['op'] in ('fd_allocate', 'fd_filestat_set_size') and rng.random() < .8:
            for f in ('off', 'len', 'size'):
                if f in o:
                    o[f] = rng.choice([0, 1, 5, 20, 60, 100, 250])
            if s.bare and not o.get('len', 1):
                o['len'] = 1
        if o['op'] in ('fd_pwrite', 'fd_seek') and o.get('off', 0) > 4096:
            o['off'] = rng.choice([0, 3, 50, 250])
        return o

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if op['op'] in SYNCS and rng.random() < spec['conf'].get('syncerr', 0):
            op['faults'] = [['sync', 1, 'err', rng.choice(['EIO', 'ENOSPC', 'EDQUOT'])]]
        return op

    # ---- the promises
    def promises(self, s):
        if not hasattr(s, 'prom'):
            s.prom = {i: Promise(n.data) for i, n in s.k.inodes.items() if n.kind == 'reg'}
            s.excused = set()
        return s.prom

    def before(self, r, s, op):
        self.promises(s)
        self.was = {i: bytes(n.data) for i, n in s.k.inodes.items() if n.kind == 'reg'}

    def observe(self, r, s, op, bad):
        LockCheck.observe(self, r, s, op, bad)
        prom = self.promises(s)
        res, out, k = s.last, s.out, s.k
        world = k.inodes
        ok = not op['op'].startswith('h_') and res.kind == 'ret' and res.val == 0
        if ok and out is not None and out.errs is None and getattr(out, 'post', None) is not None:
            world = out.post.inodes         # what the guest was told
        for i, n in world.items():
            if n.kind != 'reg':
                continue
            if i not in prom:
                prom[i] = Promise(b'')
            if bytes(n.data) != prom[i].now:
                prom[i].change(n.data)
        info = {'op': op, 'n': s.n, 'result': 'SUCCESS', 'fired': s.last_fired} if ok else None
        for f in s.last_fired if not op['op'].startswith('h_') else ():
            if f[0] == 'sync' and f[2] == 'err':
                # The host threw the unwritten data away: nothing can bring it back, nothing more is promised.
                g = self.file(s, op)
                if g is not None:
                    s.excused.add(g)
                if ok and op['op'] in SYNCS:
                    r.vio.append(('durable', 'reported success although the host could not sync (%s)' % f[3], info))
        if not ok:
            return
        ino = self.file(s, op)
        if ino is None or ino not in prom:
            return
        if op['op'] in SYNCS and out is not None and out.errs is None:
            prom[ino].whole(prom[ino].now)
            r.probe('files promised to survive')
        elif op['op'] in ('fd_write', 'fd_pwrite') and out is not None and out.errs is None:
            g = self.gfd(s, op)
            if g.flags & (SYNC | DSYNC):
                c = struct.unpack('<I', res.mem[self.count_at(s, op):][:4])[0]
                o = s.find(k, g.oid)
                if op['op'] == 'fd_write':
                    end = o.pos
                elif g.flags & APPEND:
                    end = len(o.inode.data)
                else:
                    end = op['off'] + c
                if c and end <= len(prom[ino].now):
                    prom[ino].wrote(end - c, end)
                    r.probe('writes promised to survive')

    def count_at(self, s, op):
        return Enc(op, s.labels, s.n).addr['o']

    def gfd(self, s, op):
        v = op.get('fd')
        v = s.labels.get(v, 9999) if isinstance(v, str) else v
        return s.ref.fds.get((v or 0) & 0xffffffff)

    def file(self, s, op):
        g = self.gfd(s, op)
        o = s.find(s.k, g.oid) if g is not None and g.open else None
        return o.inode.ino if o is not None and o.inode is not None and o.inode.kind == 'reg' else None

    # ---- the power failure
    def gen(self, rng, tier, i):
        spec = LockCheck.gen(self, rng, tier, i)
        spec['crash'] = {'seed': rng.randrange(1 << 30), 'at': rng.choice([0, 0, 1, 1, 2, 2, 3, 4])}
        return spec

    def end(self, r, s, spec, rng, g):
        """The failure strikes during one more call, at its at-th system call, or right after the last one."""
        c = spec['crash']
        k = s.k
        prom = self.promises(s)
        if c['at']:
            if 'op' not in c and rng is not None:
                c['op'] = self.next_op(g, rng, s, spec, 99)
            op = c.get('op')
            if op and not op['op'].startswith('h_') and not s.blocks(op):
                enc = Enc(op, s.labels, s.n + 1)
                s.mem.put(0, bytearray(enc.img))
                out = None
                try:
                    from ..refwasi import Mem, Oob
                    out = s.ref.predict(op['op'], s.norm(op['op'], enc.args), Mem(enc.img), k.clone())
                except Oob:
                    pass
                k.begin([Fault('*', c['at'], 'crash')])
                kind, v = s.call(op['op'], enc.args)
                if k.crashed is None:
                    r.probe('the call ended before the failure')
                    if kind == 'ret' and v == 0 and op['op'] in SYNCS and out is not None and out.errs is None:
                        i = self.file(s, op)
                        if i in prom:
                            prom[i].whole(prom[i].now)
                else:
                    r.probe('failures inside a call')
                # whatever the unfinished call was about to do may have happened or not
                fin = (out.post if out is not None and out.errs is None else k).inodes
                if out is not None and out.count and out.count[0] == 'out':
                    _, ptr, limit, put = out.count
                    out.post.begin()
                    put(limit)
                for src in (fin, k.inodes):
                    for i, n in src.items():
                        if n.kind == 'reg':
                            prom.setdefault(i, Promise(b''))
                            if bytes(n.data) != prom[i].now:
                                prom[i].change(n.data)
                k = k.crashed or k
        pick = random.Random(c['seed'])
        kk = k.clone()
        image = {}
        for i in sorted(kk.inodes):
            n = kk.inodes[i]
            if n.kind == 'reg':
                image[i] = kk.crash_image(n, lambda m: pick.randrange(m))
        # the machine comes up again; a new guest looks at the files
        tree = []
        for p, v in sorted(kk.tree().items()):
            if v[0] == 'dir' and p != b'/':
                tree.append(['d', S(p)])
            elif v[0] == 'reg':
                tree.append(['f', S(p), S(image[kk.raw_get(p).ino])])
            elif v[0] == 'lnk':
                tree.append(['l', S(p), S(kk.raw_get(p).target)])
        s2 = Session(dict(spec['init'], tree=tree, caps=[], socks=[]))
        if s2.dead:
            r.vio += s2.vio
            return
        seen = set()
        root = list(self.roots(spec['init']))
        for p, v in sorted(kk.tree().items()):
            if v[0] != 'reg':
                continue
            ino = kk.raw_get(p).ino
            for j, top in enumerate(root):
                if p.startswith(top + b'/'):
                    got = self.fetch(s2, 'pre%d' % j, p[len(top) + 1:])
                    break
            else:
                continue
            r.probe('files read after the restart')
            if ino in s.excused or ino in seen or ino not in prom:
                continue
            seen.add(ino)
            info = {'op': {'op': 'crash', 'path': S(p)}, 'n': s.n}
            if got is None:
                r.vio.append(('durable', 'cannot be read after the restart', info))
                continue
            if got != image[ino]:
                r.vio.append(('other', 'reads %r, the disk has %r' % (got[:40], image[ino][:40]), info))
                continue
            x = prom[ino].judge(got)
            r.trace.append((p, got))
            if x:
                r.vio.append(('durable', 'after the power failure %s %s' % (S(p), x), info))
        r.probe('power failures')

    def roots(self, init):
        import posixpath
        for gname, host in sorted((posixpath.normpath(a), b) for a, b in init['dirs'].items()):
            yield posixpath.normpath(posixpath.join(init.get('cwd') or '/', host)).encode('latin-1')

    def fetch(self, s, fd, path):
        n = len(path)
        s.mem.put(0, bytearray(65536))
        s.mem.put(1024, bytearray(path))
        kind, v = s.call('path_open', [s.labels[fd], 1, 1024, n, 0, R['FD_READ'] | R['FD_SEEK'], 0, 0, 16])
        if (kind, v) != ('ret', 0):
            return None
        f = struct.unpack('<I', bytes(s.mem.get(16, 4)))[0]
        out = b''
        s.mem.put(0, bytearray(struct.pack('<II', 4096, 1000)))
        while True:
            kind, v = s.call('fd_read', [f, 0, 1, 16])
            if (kind, v) != ('ret', 0):
                return None
            c = struct.unpack('<I', bytes(s.mem.get(16, 4)))[0]
            out += bytes(s.mem.get(4096, c))
            if c == 0:
                break
        s.call('fd_close', [f])
        return out

    def relevant(self, cat, info):
        op = (info or {}).get('op', {}).get('op', '')
        if cat == 'durable':
            return True
        return op in SYNCS and cat in ('errno', 'success', 'fail', 'exc', 'hang', 'data', 'trace')

    def parts(self, spec):
        return LockCheck.parts(self, spec)

    def simplify(self, spec):
        import copy
        if spec.get('crash', {}).get('at'):
            s = copy.deepcopy(spec)
            s['crash']['at'] = 0
            yield s


CHECK = C08()
