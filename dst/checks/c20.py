"""C20: operations on names are atomic, whoever else works in the same directory."""
import random
import struct

from .. import gen as G
from ..engine import PAGE, RAW, B, Enc, Session
from ..kernel import Fault
from ..lock import LockCheck, MIX
from ..refwasi import ALL_RIGHTS, APPEND, GFd, Mem, Oob, host_to_wasi, wname
from ..runner import Run
from ..vm import Abort, Baton
from ..world import cur
import errno

NAMES = ['a', 'b', 'c']
SEQ = dict({k: v for k, v in MIX.items() if not k.startswith('path_')}, path_open=14, path_create_directory=6,
           path_filestat_get=4, path_link=6, path_readlink=5, path_remove_directory=6, path_rename=10, path_symlink=6,
           path_unlink_file=7, fd_close=6, fd_write=3)
PATH_OPS = {k for k in MIX if k.startswith('path_')}
STAT = 40                       # the part of a filestat that is no time


class Hist:
    """The search for a sequential order that explains what every caller saw."""

    def __init__(self, recs, k, refs, limit=20000):
        self.recs, self.k, self.refs = recs, k, refs
        self.limit = limit
        self.seen = set()
        self.deepest = -1
        self.why = ''

    @staticmethod
    def copyrefs(refs):
        return [{n: Session.gcopy(g) for n, g in fds.items()} for fds in refs]

    def step(self, rec, k, refs):
        """One record on the given state (changed in place). -> None if the outcome fits, else what does not."""
        cur.k = k
        if rec['g'] < 0:
            RAW[rec['op']['op']](None, rec['op'], k)
            return None
        s, enc, res = rec['s'], rec['enc'], rec['res']
        name = rec['op']['op']
        ref = s.ref
        ref.fds = refs[rec['g']]
        before = k.clone() if res.val else None
        k.begin()
        try:
            out = ref.predict(name, s.norm(name, enc.args), Mem(enc.img), k)
        except Oob:
            return 'bad arguments'
        if res.val:
            allowed = (out.errs or set()) | out.also
            late = False
            for f in rec['fired']:
                if f[2] == 'err':
                    allowed = allowed | host_to_wasi(getattr(errno, f[3]))
                    late = late or name == 'path_open' and f[0] == 'getattr'
            if res.val not in allowed:
                return '%s, a sequential order gives %s' % (wname(res.val), s.expect(out))
            rec['undo'] = before
            if out.errs is None and late:
                # created or truncated, but not opened in the end
                rec['undo'] = None
                k.close(out.opens_hfd)
            elif out.errs is None and out.closes:
                # gone although the host complained
                rec['undo'] = None
                self.shut(out, k, refs[rec['g']])
            return None
        rec['undo'] = None
        if out.errs is not None:
            return 'SUCCESS, a sequential order gives %s' % s.expect(out)
        if out.loose:
            return None
        outs = list(out.outs)
        if out.count:
            if out.count[0] == 'in':
                _, ptr, iovs, data, consume = out.count
                c = struct.unpack('<I', res.mem[ptr:ptr + 4])[0]
                if c != len(data):
                    return 'read %d bytes, a sequential order gives %d' % (c, len(data))
                outs += ref.scatter(iovs, data)
                if consume:
                    consume(c)
            else:
                _, ptr, limit, put = out.count
                c = struct.unpack('<I', res.mem[ptr:ptr + 4])[0]
                if c != limit:
                    return 'wrote %d bytes of %d' % (c, limit)
                put(c)
        for a, b in outs:
            n = len(b)
            if name.endswith('filestat_get') and a >= enc.addr['o'] + STAT:
                continue
            if res.mem[a:a + n] != b[:n]:
                return 'got %r, a sequential order gives %r' % (res.mem[a:a + n][:40], b[:n][:40])
        self.shut(out, k, refs[rec['g']])
        if out.opens is not None:
            v = struct.unpack('<I', res.mem[enc.addr['o']:enc.addr['o'] + 4])[0]
            old = refs[rec['g']].get(v)
            if old is not None and old.open:
                return 'handed out descriptor %d, which is in use' % v
            refs[rec['g']][v] = GFd(v, out.opens.oid, out.new_type, out.opens_rights[0], out.opens_rights[1],
                                    out.new_flags)
        return None

    @staticmethod
    def shut(out, k, fds):
        for g in out.closes:
            fds[g.num].open = False
            for fd, e in list(k.fds.items()):
                if e.ofd.oid == g.oid and not g.std:
                    k.close(fd)

    @staticmethod
    def key(done, k, refs):
        return hash((done, repr(sorted(k.tree().items())),
                     repr([[(n, g.open, g.oid) for n, g in sorted(f.items())] for f in refs]),
                     repr([(e.ofd.oid, e.ofd.pos, (e.ofd.inode.ino, e.ofd.inode.data, e.ofd.inode.nlink, e.ofd.inode.ents)
                            if e.ofd.inode else 0) for _, e in sorted(k.fds.items())])))

    def search(self, done, k, refs, tree):
        """Depth first over the orders that respect who had finished before whom began."""
        todo = [i for i in range(len(self.recs)) if i not in done]
        if not todo:
            got = k.tree()
            if got == tree:
                return []
            if self.deepest < len(self.recs):
                self.deepest = len(self.recs)
                p = next(p for p in sorted(set(got) | set(tree)) if got.get(p) != tree.get(p))
                self.why = 'in the end %r is %r, a sequential order leaves %r' % (p, tree.get(p), got.get(p))
            return None
        self.limit -= 1
        if self.limit < 0:
            return []                       # not decided; counted by the caller
        first = min(self.recs[i]['end'] for i in todo)
        for i in sorted(todo, key=lambda i: self.recs[i]['end']):
            rec = self.recs[i]
            if rec['start'] > first:
                continue
            kk, rr = k.clone(), self.copyrefs(refs)
            rec['undo'] = None
            why = self.step(rec, kk, rr)
            if why is not None:
                if len(done) > self.deepest:
                    self.deepest, self.why = len(done), 'call %d (%s) %s' % (i, rec['op']['op'], why)
                continue
            if rec.get('undo') is not None:
                kk, rr = rec['undo'], self.copyrefs(refs)
            nd = done | {i}
            key = self.key(nd, kk, rr)
            if key in self.seen:
                continue
            self.seen.add(key)
            rest = self.search(nd, kk, rr, tree)
            if rest is not None:
                return [i] + rest
        return None


class C20(LockCheck):
    id = 'C20'
    runs = {'quick': 6000, 'thorough': 150000}
    mix = SEQ
    seqcats = {'errno', 'fail', 'success', 'ns', 'out', 'data', 'trace', 'exc', 'hang', 'lost', 'flags', 'type'}
    rule = ('one evaluation is either one guest making 25-45 calls, most of them on names, each compared with a reference '
            'model of the namespace, or two or three guests (each with its own WASI context, in a thread of its own) and '
            'possibly another process making up to ten calls in the same directories, switched by a seeded scheduler at '
            'host system calls: then a sequential order of the calls, respecting which call had ended before which began, '
            'is searched that gives every caller what it got and leaves the tree as it is. Counted as distinct: runs with '
            'at least one successful call and a different trace.')

    def configs(self, rng):
        return {'name': 'sequential'}

    def tune(self, g, rng):
        g.weird = rng.choice([.02, .06])

    def gen(self, rng, tier, i):
        if rng.random() < .35:
            return LockCheck.gen(self, rng, tier, i)
        return self.gen_race(rng)

    def relevant(self, cat, info):
        if (info or {}).get('part') == 'race' or any(n.startswith('PATH_') for n in (info or {}).get('lack', ())):
            return True
        return cat in self.seqcats and (info or {}).get('op', {}).get('op') in PATH_OPS and \
            not (info or {}).get('op', {}).get('ptr')

    # ---- races ---------------------------------------------------------------------------------------------------
    def gen_race(self, rng):
        links = rng.random() < .5
        tree = [['d', '/w'], ['d', '/w/s']]
        for base in ('/w', '/w/s'):
            for n in NAMES:
                x = rng.random()
                p = base + '/' + n
                if x < .3:
                    tree.append(['f', p, 'old%s' % n * rng.randrange(1, 4)])
                elif x < .42:
                    tree.append(['d', p])
                elif x < .5:
                    tree += [['d', p], ['f', p + '/x', 'in']]
                elif x < .58 and links:
                    tree.append(['l', p, rng.choice(NAMES + ['nowhere'])])
                elif x < .64 and any(e[0] == 'f' for e in tree):
                    tree.append(['h', p, rng.choice([e[1] for e in tree if e[0] == 'f'])])
        rng2 = random.Random(rng.randrange(1 << 60))
        kind = rng.choice(['names', 'names', 'data', 'exclusive', 'rename'])
        n = rng.choice([2, 2, 2, 3])
        guests = []
        for g in range(n):
            dirs = rng2.choice([{'/': '/w'}, {'/': '/w'}, {'/': '/w/s'}, {'/': '/w', '/s': '/w/s'}])
            if kind in ('exclusive', 'data'):
                dirs = {'/': '/w'}
            guests.append({'dirs': dirs})
        names = NAMES if rng.random() < .6 else NAMES[:2]
        if kind in ('exclusive', 'rename'):
            names = names[:rng.choice([1, 2])] + (['c'] if kind == 'rename' else [])
        spec = {'part': 'race', 'init': {'tree': tree, 'seed': rng.randrange(99), 'args': ['x'], 'envs': {}},
                'conf': {'name': 'race: ' + kind}, 'sched': rng.randrange(1 << 60), 'p': rng.choice([.3, .6, 1.0]),
                'links': links, 'guests': guests}
        for g, d in enumerate(guests):
            d['pre'] = []
            d['ops'] = []
            self.labels = []
            self.count = 0
            if kind == 'data' or rng.random() < .3:
                for _ in range(rng.choice([1, 1, 2])):
                    d['pre'].append(self.open_op(rng, d, names, links, data=True))
            for _ in range(rng.choice([1, 2, 2, 3]) if n < 3 else rng.choice([1, 1, 2])):
                d['ops'].append(self.race_op(rng, d, names, links, kind))
            d['post'] = [{'op': 'fd_filestat_get', 'fd': x} for x in self.labels]
            d['post'] += [{'op': 'fd_pread', 'fd': x, 'iov': [100], 'off': 0} for x in self.labels]
            if rng.random() < .2:
                d['ops'][rng.randrange(len(d['ops']))]['faults'] = [['*', rng.choice([1, 1, 2, 3]), 'err', rng.randrange(8)]]
        spec['host'] = []
        if rng.random() < .3:
            for _ in range(rng.choice([1, 2])):
                base = rng.choice(['/w/', '/w/', '/w/s/'])
                a, b = base + rng.choice(names), base + rng.choice(names)
                o = {'op': rng.choice(['h_rename', 'h_unlink', 'h_mkdir', 'h_rmdir', 'h_link', 'h_append']), 'a': a, 'b': b,
                     'data': 'HOST'}
                if links and rng.random() < .2:
                    o = {'op': 'h_symlink', 'a': a, 't': rng.choice(names)}
                spec['host'].append(o)
        return spec

    def where(self, rng, d, names):
        """A directory of the guest and a name in it; 's' is never touched itself."""
        k = sorted(d['dirs'].items())
        i = rng.randrange(len(k))
        n = rng.choice(names)
        if k[i][1] == '/w' and rng.random() < .12:
            n = 's/' + n
        return 'pre%d' % i, n

    def open_op(self, rng, d, names, links, data=False, ofl=None):
        fd, n = self.where(rng, d, names)
        if ofl is None:
            ofl = rng.choice([1, 1, 9, 0]) if data else rng.choice([0, 0, 1, 1, 5, 5, 8, 9, 13, 2])
        x = 'x%d' % self.count
        self.count += 1
        self.labels.append(x)
        rights = ALL_RIGHTS
        if ofl & 2:
            rights &= ~64
        return {'op': 'path_open', 'fd': fd, 'path': n, 'ofl': ofl, 'base': rights, 'inh': rights, 'as': x,
                'dfl': 0 if links else int(rng.random() < .5),
                'fdfl': APPEND if rng.random() < (.7 if data else .3) else 0}

    def race_op(self, rng, d, names, links, kind):
        w = {'path_open': 4, 'path_create_directory': 2, 'path_remove_directory': 2, 'path_unlink_file': 2,
             'path_rename': 4, 'path_link': 2, 'path_filestat_get': 2}
        if links:
            w.update(path_symlink=2, path_readlink=2)
        if self.labels:
            w.update({'fd_write': 2, 'fd_pread': 1, 'fd_filestat_get': 1, 'fd_close': .5, 'fd_filestat_set_size': .5,
                      'fd_read': .7, 'fd_pwrite': .5})
        if kind == 'data' and self.labels:
            w.update({'fd_write': 20, 'fd_pread': 4, 'fd_filestat_get': 3, 'fd_read': 3, 'fd_filestat_set_size': 3,
                      'fd_pwrite': 2})
        elif kind == 'exclusive':
            w.update(path_open=14, path_create_directory=5, path_link=5, path_symlink=5 if links else 0)
        elif kind == 'rename':
            w.update(path_rename=16, path_filestat_get=5, path_open=6)
        name = G.weighted(rng, w)
        if name == 'path_open':
            return self.open_op(rng, d, names, links, ofl=rng.choice([5, 5, 5, 13, 1]) if kind == 'exclusive' else None)
        if name.startswith('fd_'):
            o = {'op': name, 'fd': rng.choice(self.labels)}
            if name == 'fd_write' or name == 'fd_pwrite':
                t = '<%d>' % rng.randrange(1000)
                o['iov'] = [t] if rng.random() < .5 else [t[:2], t[2:]]
                o['off'] = rng.randrange(6)
            elif name == 'fd_pread' or name == 'fd_read':
                o['iov'] = rng.choice([[40], [5, 60]])
                o['off'] = rng.randrange(3)
            elif name == 'fd_filestat_set_size':
                o['size'] = rng.randrange(8)
            return o
        fd, n = self.where(rng, d, names)
        o = {'op': name, 'fd': fd, 'path': n}
        if name in ('path_rename', 'path_link'):
            o['fd2'], o['path2'] = self.where(rng, d, names)
            o['dfl'] = 0
        elif name == 'path_symlink':
            o['path2'], o['path'] = n, rng.choice(names + ['zz'])
        elif name == 'path_readlink':
            o['len'] = rng.choice([100, 1])
        elif name == 'path_filestat_get':
            o['dfl'] = 0 if links else int(rng.random() < .5)
        return o

    def parts(self, spec):
        if spec.get('part') != 'race':
            return LockCheck.parts(self, spec)
        out = [('host',), ('init', 'tree')]
        for i in range(len(spec['guests'])):
            for f in ('ops', 'pre', 'post'):
                out.append(('guests', i, f))
            for j, o in enumerate(spec['guests'][i]['ops']):
                if o.get('faults'):
                    out.append(('guests', i, 'ops', j, 'faults'))
        return out

    def run(self, spec):
        if spec.get('part') != 'race':
            return LockCheck.run(self, spec)
        r = Run()
        r.config = spec['conf']['name']
        ss = []
        for g in spec['guests']:
            init = dict(spec['init'], dirs=g['dirs'])
            if ss:
                init['host_fds'] = 0
            s = Session(init, world=ss[0].w if ss else None, kernel=ss[0].k if ss else None)
            ss.append(s)
            r.vio += [(c, m, dict(i, part='race')) for c, m, i in s.vio]
        if r.vio:
            return r
        k = ss[0].k
        t0 = k.mono
        k0 = k.clone()
        refs0 = Hist.copyrefs([s.ref.fds for s in ss])
        recs, order = [], []
        clock = [0]
        baton = Baton(random.Random(spec['sched']), spec['p'])
        now = [None]

        def one(g, op, n):
            s = ss[g]
            enc = Enc(op, s.labels, n)
            if enc.wild:
                return
            baton.point()
            s.mem.put(0, bytearray(enc.img))
            clock[0] += 1
            rec = {'g': g, 's': s, 'op': op, 'enc': enc, 'start': clock[0]}
            ctx = {'faults': [Fault(*f) for f in op.get('faults', [])], 'fired': [], 'counts': {}, 'sysno': 0, 'opened': [],
                   'hooks': {}, 'hooks_run': 0}
            mine[g] = ctx
            cur.k = k
            kind, val = s.call(op['op'], enc.args)
            if isinstance(val, Abort):
                raise val
            leave(g)
            clock[0] += 1
            rec['end'] = clock[0]
            res = rec['res'] = type('Res', (), {})()
            res.kind, res.val, res.mem = kind, val, s.rawmem()[:PAGE]
            rec['fired'] = ctx['fired']
            recs.append(rec)
            if kind == 'ret' and val == 0 and op.get('as'):
                s.labels[op['as']] = struct.unpack('<I', res.mem[enc.addr['o']:enc.addr['o'] + 4])[0]

        # what the kernel counts per call belongs to the caller
        mine = {}
        running = [None]
        FIELDS = ('faults', 'fired', 'counts', 'sysno', 'opened', 'hooks', 'hooks_run')

        def leave(g):
            if running[0] == g and g is not None:
                for f in FIELDS:
                    mine[g][f] = getattr(k, f)
                running[0] = None

        def who():
            import threading
            return owner.get(threading.get_ident())
        owner = {}

        def yielder(name):
            g = who()
            leave(running[0])
            baton.point()
            leave(running[0])
            order.append((g, name))
            for f in FIELDS:
                setattr(k, f, mine[g][f])
            running[0] = g

        def guest(g, ops, base):
            def body():
                import threading
                owner[threading.get_ident()] = g
                for i, op in enumerate(ops):
                    one(g, op, base + i)
            return body

        def host(ops):
            def body():
                for op in ops:
                    baton.point()
                    clock[0] += 1
                    rec = {'g': -1, 'op': op, 'start': clock[0]}
                    leave(running[0])
                    RAW[op['op']](None, op, k)
                    order.append((-1, op['op']))
                    clock[0] += 1
                    rec['end'] = clock[0]
                    recs.append(rec)
            return body

        k.yielder = yielder
        try:
            import threading
            for g, d in enumerate(spec['guests']):
                owner[threading.get_ident()] = g
                for i, op in enumerate(d['pre']):
                    one(g, op, i)
            del owner[threading.get_ident()]
            fns = [guest(g, d['ops'], 10) for g, d in enumerate(spec['guests'])]
            if spec['host']:
                fns.append(host(spec['host']))
            baton.run(fns)
            for kind, v in baton.out:
                if kind == 'exc':
                    raise v
            for g, d in enumerate(spec['guests']):
                owner[threading.get_ident()] = g
                for i, op in enumerate(d['post']):
                    one(g, op, 20 + i)
        finally:
            k.yielder = None
        k.begin()
        r.interference += baton.switches
        recs.sort(key=lambda x: x['start'])
        for i, rec in enumerate(recs):
            if rec['g'] >= 0:
                res = rec['res']
                what = wname(res.val) if res.kind == 'ret' else res.kind
                r.ops += 1
                r.trace.append((rec['g'], rec['op']['op'], what, rec['start'], rec['end']))
                info = {'part': 'race', 'op': rec['op'], 'n': i, 'result': what}
                if res.kind == 'exc':
                    r.vio.append(('exc', 'host exception reached the guest: %s: %s' % (type(res.val).__name__, res.val), info))
                elif res.kind == 'hang':
                    r.vio.append(('hang', 'never returns: %s' % res.val, info))
                elif res.val == 0:
                    r.nontrivial = True
                    r.probe('%s ok' % rec['op']['op'])
                for f in rec['fired']:
                    r.faults['err:%s' % f[0]] = r.faults.get('err:%s' % f[0], 0) + 1
        r.trace.append(order)
        over = sum(1 for i, a in enumerate(recs) for b in recs[i + 1:] if b['start'] < a['end'])
        r.probe('pairs of overlapping calls', over)
        r.sim_ns = k.mono - t0
        if r.vio:
            return r
        final = k.tree()
        h = Hist(recs, k0, refs0)
        hist = [(rec['g'], rec['op']) for rec in recs]
        try:
            seq = h.search(frozenset(), k0, refs0, final)
        finally:
            cur.k = k
        if h.limit < 0:
            r.probe('not decided: too many orders')
        elif seq is None:
            lines = ['%s %s [%d-%d] %s' % ('host' if x['g'] < 0 else 'guest %d' % x['g'],
                                           {a: b for a, b in x['op'].items() if a not in ('base', 'inh')}, x['start'], x['end'],
                                           wname(x['res'].val) if x['g'] >= 0 else '') for x in recs]
            r.vio.append(('order', 'no sequential order of the calls explains what happened: %s. History: %s' % (
                h.why, '; '.join(lines)), {'part': 'race', 'op': {'op': 'history'}, 'sched': order}))
        else:
            done = [recs[i]['end'] for i in seq]
            r.probe('orders other than that of the ends' if done != sorted(done) else 'explained by the order of the ends')
        return r


CHECK = C20()
