import struct

from .. import gen as G
from ..gen import DIR_RIGHTS, FILE_RIGHTS
from ..lock import LockCheck
from ..refwasi import W

KIND = {'dir': (3,), 'reg': (4,), 'lnk': (7,), 'fifo': (0, 1, 2, 5, 6)}


class Scan:
    """What the guest knows about the scan of one open directory, and what the directory really held meanwhile."""

    def __init__(self, view):
        self.always = dict(view)        # entries that were there, unchanged, at every moment so far
        self.ever = {}                  # name -> set of (ino, kind)
        self.order = []                 # [(cookie, name)] as delivered
        self.next = {0: 0}              # cookie -> index in order of what follows
        self.again = []                 # what has to come again after resuming at an earlier cookie
        self.partial = None
        self.version, self.view = 0, None
        self.last = 0
        self.done = False
        self.stuck = 0
        self.need = 24
        self.see(view)

    def see(self, view):
        if view != self.view:
            self.version, self.view = self.version + 1, view
        for nm, v in view.items():
            self.ever.setdefault(nm, set()).add(v)
        for nm in [n for n, v in self.always.items() if view.get(n) != v]:
            del self.always[nm]


class C07(LockCheck):
    """Scans of directories that change while they are read."""
    id = 'C07'
    runs = {'quick': 4000, 'thorough': 100000}
    nops = (30, 80)
    prelude = 0
    rule = ('one evaluation is one session with up to three open directories of 0-150 entries, whose interleaved, '
            'restarted and resumed scans use buffers from 24 bytes up while the guest and other processes create, '
            'remove, rename and replace entries between and inside the calls, and host errors strike. Every record is '
            'judged against the complete history of the directory. Counted as distinct: sessions with at least one '
            'successful call and a different trace of results, system calls, faults and interference.')

    def configs(self, rng):
        return rng.choices([{'name': 'still'}, {'name': 'changing', 'mut': .45}, {'name': 'changing inside', 'mut': .3, 'inside': .5},
                            {'name': 'changing+faults', 'mut': .3, 'inside': .2, 'faults': .15, 'kinds': ('err',)}],
                           [2, 3, 3, 2])[0]

    def nm(self, rng):
        x = rng.random()
        if x < .5:
            return rng.choice('abcdefghij') + rng.choice(['', '0', '1', '2', '3', '.x', '.y'])
        if x < .6:
            return '.' + rng.choice(['h', '.', 'hidden', '..'])+ rng.choice('xyz')
        if x < .75:
            return rng.choice(['\xc3\xa9', '\xe6\x97\xa5\xe6\x9c\xac', '\xf0\x9f\x98\x80', '\xc3\xbcb\xc3\xa9r']) + rng.choice(['', 'a', '1', '2'])
        if x < .8:
            return rng.choice(['\xff', '\xfe\xffz', 'caf\xe9'])          # not UTF-8: other processes may use such names
        if x < .9:
            return rng.choice('kl') * rng.choice([20, 64, 100, 200, 254, 255])
        return rng.choice(['a b', 'new\nline', 'q"', '-', '~', 'A', 'Z', 'tab\t', '*', '\\'])

    def init(self, rng):
        i = G.world(rng, kind=rng.choice(['data', 'dot', 'slash', 'two', 'relative']), rich=False)
        have = {e[1] for e in i['tree']}
        for d in ('/home/pre', '/home/pre/d0'):
            n = rng.choice([0, 1, 2, 3, 5, 9, 20, 40] + ([150] if rng.random() < .2 else []))
            for j in range(n):
                p = d + '/' + (self.nm(rng) if n < 60 else 'e%03d' % j)
                if p in have:
                    continue
                have.add(p)
                i['tree'].append(rng.choice([['f', p, 'x'], ['f', p, ''], ['d', p], ['l', p, 'f0'], ['l', p, 'nowhere'],
                                             ['l', p, '.'], ['l', p, '/etc/passwd'], ['p', p]]))
        return i

    def tune(self, g, rng):
        g.weird, g.escape, g.badfd = .02, .02, .02
        g.full_rights = .98

    def other(self, rng, s, spec):
        k = s.k
        dirs = ['/home/pre', '/home/pre', '/home/pre/d0']
        d = rng.choice(dirs)
        n = k.raw_get(d.encode())
        names = [G.S(x) for x in sorted(n.ents)] if n is not None and n.kind == 'dir' else []
        names = [x for x in names if x != 'd0'] or ['a']
        a = d + '/' + rng.choice(names)
        b = rng.choice(dirs) + '/' + self.nm(rng)
        if rng.random() < .25:
            b = rng.choice(dirs) + '/' + rng.choice(names)
        return rng.choice([{'op': 'h_rename', 'a': a, 'b': b}, {'op': 'h_unlink', 'a': a}, {'op': 'h_unlink', 'a': a},
                           {'op': 'h_create', 'a': b}, {'op': 'h_create', 'a': b}, {'op': 'h_mkdir', 'a': b}, {'op': 'h_rmdir', 'a': a},
                           {'op': 'h_symlink', 'a': b, 't': 'f0'}, {'op': 'h_link', 'a': a, 'b': b},
                           {'op': 'h_swap', 'a': a, 'b': b}])

    def view(self, s, node):
        k = s.k
        out = {nm: (i, k.inodes[i].kind) for nm, i in node.ents.items()}
        return out

    def next_op(self, g, rng, s, spec, i):
        st = self.state(s)
        c = spec['conf']
        dirs = g.fds(lambda x: x.type == 3)
        if i == 0:
            return {'op': 'path_open', 'fd': 'pre0', 'dfl': 1, 'path': 'd0', 'ofl': 2, 'base': DIR_RIGHTS,
                    'inh': DIR_RIGHTS | FILE_RIGHTS, 'fdfl': 0, 'as': g.label()}
        if rng.random() < c.get('mut', .05):
            if rng.random() < .5:
                return self.other(rng, s, spec)
            o = g.op(rng.choice(['path_create_directory', 'path_unlink_file', 'path_rename', 'path_symlink', 'path_open',
                                 'path_remove_directory', 'path_link', 'fd_renumber']))
            if o['op'] == 'fd_renumber' and rng.random() < .5:
                o = {'op': 'path_open', 'fd': 'pre0', 'dfl': 1, 'path': rng.choice(['.', 'd0', '']) or '.', 'ofl': 2,
                     'base': DIR_RIGHTS, 'inh': DIR_RIGHTS | FILE_RIGHTS, 'fdfl': 0, 'as': g.label()}
            if o['op'] == 'path_open' and o.get('ofl') != 2:
                o['path'], o['ofl'] = self.nm(rng), 1
            elif 'path2' in o and rng.random() < .7:
                o['path2'] = rng.choice(['', 'd0/']) + self.nm(rng)
            elif o['op'] == 'path_create_directory':
                o['path'] = rng.choice(['', 'd0/']) + self.nm(rng)
            return o
        if not dirs:
            return g.op('path_open')
        fd = rng.choice(dirs[:3]) if rng.random() < .9 else rng.choice(dirs)
        gf = g.g(fd)
        sc = st.get(gf.oid)
        x = rng.random()
        size = rng.choice([24, 25, 30, 48, 60, 100, 280, 281, 300, 600, 2000, 30000])
        if sc is not None and sc.stuck:
            size = max(size, rng.choice([sc.need, 24 + 255]))
        if sc is None or x < .04 or (sc.done and x < .5):
            cookie = 0
        elif x < .12 and sc.order:
            cookie = rng.choice(sc.order)[0]
        elif x < .14:
            cookie = rng.choice([99, -1, 1 << 40, 3])
        else:
            cookie = sc.last
        return {'op': 'fd_readdir', 'fd': fd, 'len': size, 'cookie': cookie}

    def decorate(self, g, rng, s, spec, op):
        if op['op'] == 'fd_readdir':
            LockCheck.decorate(self, g, rng, s, spec, op)
            if rng.random() < spec['conf'].get('inside', 0):
                op['hooks'] = [[rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 15]), self.other(rng, s, spec)] for _ in range(rng.choice([1, 1, 2]))]
        return op

    def state(self, s):
        if not hasattr(s, 'scans'):
            s.scans = {}
            s.nodes = {}
            s.on_hook = lambda: self.snap(s)
        return s.scans

    def snap(self, s):
        for oid, sc in s.scans.items():
            sc.see(self.view(s, s.nodes[oid]))
        for sc, node in s.fresh:
            sc.see(self.view(s, node))

    def before(self, r, s, op):
        st = self.state(s)
        s.fresh = []
        if op['op'] == 'fd_readdir':
            fd = op['fd']
            g = s.ref.fds.get((s.labels.get(fd, -1) if isinstance(fd, str) else fd) & 0xffffffff)
            s.cur_g = g
            if g is not None and g.open and g.type == 3 and op['cookie'] == 0:
                o = s.find(s.k, g.oid)
                if o is not None:
                    s.fresh = [(Scan(self.view(s, o.inode)), o.inode)]

    def observe(self, r, s, op, bad):
        LockCheck.observe(self, r, s, op, bad)
        st = self.state(s)
        if op['op'] == 'fd_readdir':
            self.judge(r, s, op)
        s.fresh = []
        self.snap(s)

    def judge(self, r, s, op):
        res, g = s.last, s.cur_g
        if res.kind != 'ret' or res.val != 0 or g is None or s.out is None or s.out.errs is not None:
            return
        st = s.scans
        buf, n, cookie, out = s.out.note[2:6]
        self.snap(s)
        if op['cookie'] == 0:
            if not s.fresh:
                return
            st[g.oid], s.nodes[g.oid] = s.fresh[0]
        sc = st.get(g.oid)
        if sc is None or cookie not in sc.next:
            return                       # not a cookie of this scan
        node = s.nodes[g.oid]
        info = {'op': op, 'n': s.n, 'result': 'SUCCESS', 'fired': s.last_fired}

        def bad(msg):
            r.vio.append(('scan', msg, info))
        used = struct.unpack('<I', res.mem[out:out + 4])[0]
        if used > n:
            return
        data = res.mem[buf:buf + used]
        # the records in the order delivered, following position `at` of the scan
        at = sc.next[cookie]
        if at < len(sc.order):
            # resumed further back: what was delivered from there on has to come again
            sc.again = [x[1] for x in sc.order[at:]] + [x for x in sc.again if all(x != y[1] for y in sc.order[at:])]
            del sc.order[at:]
            sc.next = {c: i for c, i in sc.next.items() if i <= at}
        p = 0
        got = 0
        if sc.partial and sc.partial[0] == cookie and sc.partial[2] == sc.version:
            a, b = sc.partial[1], data
            if len(b) > 16 and b[16] == 2 or len(a) > 16 and a[16] == 2 or min(len(a), len(b)) <= 16:
                a, b = a[:8] + a[16:], b[:8] + b[16:]                # perhaps '..', whose inode is not fixed
            m = min(len(a), len(b))
            if a[:m] != b[:m]:
                bad('a truncated record began with %r, read again it begins with %r' % (a[:m], b[:m]))
        part = None
        while p < used:
            if p + 24 > used:
                part = data[p:]
                break
            nx, ino, ln, typ = struct.unpack('<QQIB', data[p:p + 21])
            if ln > 255:
                bad('a record with a name of %d bytes' % ln)
                return
            if p + 24 + ln > used:
                part = data[p:]
                sc.need = 24 + ln
                break
            name = data[p + 24:p + 24 + ln]
            p += 24 + ln
            got += 1
            r.probe('records')
            if name == b'.':
                if (ino, typ) != (node.ino, 3):
                    bad("'.' has inode %d and type %d, expected %d and 3" % (ino, typ, node.ino))
            elif name == b'..':
                if typ != 3:
                    bad("'..' has type %d" % typ)
            elif not any(i == ino and typ in KIND[kd] for i, kd in sc.ever.get(name, ())):
                bad('a record %r with inode %d and type %d, which was never there: %s' % (
                    name, ino, typ, sorted(sc.ever.get(name, ()))))
            stable = name in (b'.', b'..') or name in sc.always
            sc.again = [x for x in sc.again if x in sc.always or x in (b'.', b'..')]
            if sc.again and name in sc.again:
                # what came after this place before has to come again, in the same order
                if sc.again[0] != name:
                    bad('resuming at cookie %d skips %r, which came next before' % (cookie, sc.again[0]))
                sc.again = sc.again[sc.again.index(name) + 1:]
            if stable and any(x[1] == name for x in sc.order):
                bad('%r reported twice' % name)
            sc.order.append((nx, name))
            at = len(sc.order)
            if nx in sc.next and sc.next[nx] != at:
                bad('cookie %d was given twice' % nx)
            sc.next[nx] = at
        sc.partial = None
        sc.stuck = 0
        if got:
            sc.last = nx_of(data)
        elif used == n and n:
            sc.stuck += 1
            if n >= 24 + 255:
                bad('no complete record in a buffer of %d bytes' % n)
            elif n >= 24:
                ln = struct.unpack('<I', data[16:20])[0]
                if 24 + ln <= n:
                    bad('no complete record in a buffer of %d bytes' % n)
        else:
            sc.last = cookie
        if part is not None:
            if not s.last_ran:
                sc.partial = (sc.last if got else cookie, part, sc.version)
            if used < n:
                bad('a record was cut at %d bytes although the buffer has %d' % (used, n))
        if used < n:
            # the end: everything that was there all the time has been reported
            r.probe('scans completed')
            lost = [x for x in sc.again if x in sc.always]
            if lost:
                bad('the scan ends before %r, which came next before' % lost[0])
            sc.again = []
            missing = [x for x in sorted(sc.always) if all(x != y[1] for y in sc.order)]
            if missing:
                bad('the scan ended without reporting %r%s' % (missing[0], ' and %d more' % (len(missing) - 1) if len(missing) > 1 else ''))
            dots = [y[1] for y in sc.order if y[1] in (b'.', b'..')]
            if len(dots) != 2:
                bad("the scan reported %r of '.' and '..'" % dots)
            sc.done = True
        elif cookie != 0 and cookie != sc.last:
            sc.done = False

    def relevant(self, cat, info):
        if cat == 'scan':
            return True
        return (info or {}).get('op', {}).get('op') == 'fd_readdir' and cat in ('out', 'errno', 'success', 'fail', 'exc', 'hang', 'mem')


def nx_of(data):
    """The cookie of the last complete record."""
    p, last = 0, 0
    while p + 24 <= len(data):
        nx, ino, ln, typ = struct.unpack('<QQIB', data[p:p + 21])
        if p + 24 + ln > len(data):
            break
        last = nx
        p += 24 + ln
    return last


CHECK = C07()
