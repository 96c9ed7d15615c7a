"""Seeded generation of initial worlds and of guest calls that make sense in the state the session has reached."""
from .engine import B, S, T
from .kernel import MAXFILE, NS
from .refwasi import (ALL_RIGHTS, APPEND, DSYNC, NONBLOCK, PATH_RIGHTS, R, RSYNC, SYNC, T_DIR, T_REG, U64)

NAMES = ['a', 'b', 'c', 'd0', 'd1', 'f0', 'f1', 'lnk', '\xc3\xa9t\xc3\xa9', 'with space', '..x', 'n' * 255]
FILE_RIGHTS = sum(R[n] for n in ('FD_DATASYNC', 'FD_READ', 'FD_SEEK', 'FD_FDSTAT_SET_FLAGS', 'FD_SYNC', 'FD_TELL',
                                 'FD_WRITE', 'FD_ADVISE', 'FD_ALLOCATE', 'FD_FILESTAT_GET', 'FD_FILESTAT_SET_SIZE',
                                 'FD_FILESTAT_SET_TIMES', 'POLL_FD_READWRITE'))
DIR_RIGHTS = ALL_RIGHTS & ~(R['FD_SEEK'] | R['FD_TELL'] | R['FD_READ'] | R['FD_WRITE'] | R['SOCK_ACCEPT'] |
                            R['SOCK_SHUTDOWN'])


def content(rng, n=None):
    n = rng.choice([0, 1, 5, 17, 60, 200]) if n is None else n
    c = rng.randrange(256)
    return ''.join(chr((c + i * 7) % 256) for i in range(n))


def world(rng, kind=None, rich=True):
    """A host file system with preopened directories, neighbours that must stay untouched, and links of every sort."""
    kind = kind or rng.choice(['data', 'dot', 'slash', 'two', 'nested', 'relative', 'long'])
    t = [['d', '/home'], ['d', '/home/pre'], ['d', '/home/prefix'], ['d', '/home/outside'], ['d', '/etc'],
         ['f', '/etc/passwd', 'OUTSIDE-1'], ['f', '/home/prefix/f0', 'OUTSIDE-2'], ['d', '/home/outside/sub'],
         ['f', '/home/outside/secret', 'OUTSIDE-3'], ['f', '/home/outside/sub/f1', 'OUTSIDE-4'],
         ['f', '/secret', 'OUTSIDE-5'], ['d', '/home/prefix/d0'], ['f', '/home/a', 'OUTSIDE-6'],
         ['d', '/data'], ['f', '/data/f0', 'OUTSIDE-7']]
    dirs = {'data': {'data': '/home/pre'}, 'dot': {'.': '/home/pre'}, 'slash': {'/': '/home/pre'},
            'two': {'p': '/home/pre', 'q': '/home/pre2'}, 'nested': {'data': '/home/pre', 'data/in': '/home/pre/d0'},
            'relative': {'data': 'pre'}, 'long': {'./x/../data//': '/home/outside/../pre'}}[kind]
    init = {'seed': rng.randrange(1 << 30), 'tree': t, 'dirs': dirs, 'cwd': '/home', 'kind': kind}
    if kind == 'long':
        init['dirs'] = {'./x/../data//': '/home/pre/'}
    if kind == 'two':
        t += [['d', '/home/pre2'], ['f', '/home/pre2/f0', content(rng)], ['d', '/home/pre2/d0']]
    p = '/home/pre'
    t += [['d', p + '/d0'], ['f', p + '/f0', content(rng)], ['f', p + '/f1', content(rng)]]
    if rich:
        if rng.random() < .7:
            t += [['d', p + '/d0/d1'], ['f', p + '/d0/a', content(rng)], ['f', p + '/d0/d1/f0', content(rng)]]
        links = [('lnk', 'f0'), ('lnkd', 'd0'), ('dang', 'nowhere'), ('loop', 'loop'), ('up', '../outside/secret'),
                 ('abs', '/etc/passwd'), ('absin', '/home/pre/f0'), ('in', 'd0/../f1'), ('outd', '../outside'),
                 ('dotdot', '..'), ('chain', 'lnkd/a'), ('sib', '../prefix/f0'), ('dirl', 'd0/')]
        for nm, tg in links:
            if rng.random() < .5:
                t.append(['l', p + '/' + nm, tg])
        if rng.random() < .3:
            t.append(['l', p + '/d0/back', '../f0'])
        if rng.random() < .3:
            t.append(['l', p + '/d0/out', '../../outside/sub/f1'])
        if rng.random() < .3:
            t.append(['h', p + '/hard', p + '/f0'])
        if rng.random() < .3:
            t.append(['f', p + '/\xc3\xa9t\xc3\xa9', content(rng)])
    if rng.random() < .06:
        init['via'] = 1         # calls arrive through another instance with a memory of its own
    if rng.random() < .05:
        init['bare'] = 1        # a POSIX host without what only Linux has
    if rng.random() < .06:
        init['stdfiles'] = [[c, int(rng.random() < .4)] for c in (0, 1, 2) if rng.random() < .6]    # redirected by a shell
    return init


def dirnode(s, g):
    o = s.find(s.k, g.oid)
    return o.inode if o is not None else None


def entries(s, d, depth=3, prefix=b''):
    out = []
    for nm, i in sorted(d.ents.items()):
        n = s.k.inodes[i]
        out.append((prefix + nm, n))
        if n.kind == 'dir' and depth:
            out += entries(s, n, depth - 1, prefix + nm + b'/')
    return out


class Gen:
    def __init__(self, rng, s):
        self.rng, self.s, self.seq = rng, s, 0
        self.names = NAMES
        self.escape = .12
        self.weird = .06
        self.deep = .6
        self.badfd = .02
        self.full_rights = .75
        self.wild_ints = 0          # how often an integer argument is anything at all
        self.std = .03              # how often a standard stream is used for reads and writes
        self.pipes = .05
        self.stale = 0              # how often a descriptor that may be closed is used
        self.wide = 0               # how often any descriptor at all is renumbered
        self.ignore_rights = .07
        self.bulk = .012            # how often a transfer is larger than anything a page, a pipe or a buffer holds

    # ---- descriptors
    def fds(self, pred=None):
        inv = {}
        for l, n in self.s.labels.items():
            inv[n] = l
        out = []
        for n, g in sorted(self.s.ref.fds.items()):
            if g.open and n in inv and (pred is None or pred(g)):
                out.append(inv[n])
        return out

    def pick_fd(self, pred=None):
        r = self.rng
        if self.stale and r.random() < self.stale:
            return r.choice(sorted(self.s.labels))
        if r.random() < self.badfd:
            return r.choice([-1, 9999, 1 << 31, 77, 0, 1, 2, 0x7fffffff, 0xffffffff])
        if r.random() < self.badfd:
            ls = sorted(self.s.labels)
            return r.choice(ls)
        c = self.fds(pred)
        if not c:
            return r.choice(self.fds() or [0])
        return r.choice(c)

    def g(self, label):
        n = self.s.labels.get(label, label) if isinstance(label, str) else label
        return self.s.ref.fds.get(n)

    def dir_fd(self, right=None):
        c = self.fds(lambda g: g.type == T_DIR)
        if right and self.rng.random() >= self.ignore_rights:
            c2 = self.fds(lambda g: g.type == T_DIR and g.base & R[right])
            c = c2 or c
        if self.rng.random() < self.badfd or not c:
            return self.pick_fd()
        pre = [x for x in c if x.startswith('pre')]
        if pre and self.rng.random() < .6:
            return self.rng.choice(pre)
        return self.rng.choice(c)

    def file_fd(self, right=None):
        r = self.rng
        if r.random() < .03:
            return self.pick_fd()
        c = self.fds(lambda g: g.type == T_REG)
        if right and r.random() >= self.ignore_rights:
            c = self.fds(lambda g: g.type == T_REG and g.base & R[right]) or c
        return r.choice(c) if c else self.pick_fd()

    def label(self):
        self.seq += 1
        return 'f%d' % self.seq

    # ---- paths
    def path(self, fd, want=None, new=None):
        """want: kind of object the path should lead to; new: a name that does not exist."""
        r = self.rng
        g = self.g(fd)
        d = dirnode(self.s, g) if g is not None else None
        x = r.random()
        if x < self.weird:
            return r.choice(['', '.', '/', './', '..', 'a\0b', 'f0\0', '\0f0', '\xff\xfe', 'f0\xff', '\xef\xbb\xbff0', ' f0', 'f0 ',
                             'x' * 300, 'n/' * 30 + 'x',
                             '//', '...', './.', 'd0/.', 'd0/..', 'f0/', 'f0/.', 'nowhere/x', 'f0/x', 'loop/x', ' ',
                             'd0/../d0/../d0', 'd0//', '.' * 256, 'y' * 5000])
        if x < self.weird + self.escape:
            return r.choice(['../outside/secret', '/etc/passwd', '..', '../..', 'd0/../../outside/secret', '../prefix/f0',
                             '../a', '/secret', '/home/outside/secret', 'up', 'abs', 'outd/secret', 'outd', 'dotdot/a',
                             'dotdot/outside/secret', 'sib', '../pre/f0', '/home/pre/f0', 'd0/out', 'absin', 'abs/',
                             '../pre/../outside/secret', 'lnkd/../../outside/secret', 'd0/d1/../../../etc/passwd',
                             './../outside', '../new', '../outside/new', 'outd/new', 'dotdot/new', '//etc/passwd',
                             '../outside/sub', '../prefix', '../pre', 'd0/../../pre/f0', '/data/f0', '../data/f0',
                             'outd/../outside/secret', 'outd/sub/f1', 'dotdot/..', '../' * 8 + 'etc/passwd'])
        if d is None or d.kind != 'dir':
            return r.choice(self.names)
        ents = entries(self.s, d, 2 if r.random() < self.deep else 0)
        if new is None:
            new = r.random() < .15
        if new:
            dirs = [b''] + [p + b'/' for p, n in ents if n.kind == 'dir']
            base = r.choice(dirs) if r.random() < self.deep else b''
            return self.deco(S(base) + r.choice(self.names))
        if want:
            c = [p for p, n in ents if n.kind in want]
            if c and r.random() < .9:
                return self.deco(S(r.choice(c)))
        if ents and r.random() < .9:
            return self.deco(S(r.choice(ents)[0]))
        return r.choice(self.names)

    def deco(self, p):
        r = self.rng
        x = r.random()
        if x < .05:
            return './' + p
        if x < .08:
            return p + '/'
        if x < .11:
            return p.replace('/', '//')
        if x < .14:
            return p.replace('/', '/./')
        if x < .18 and '/' in p:
            a, b = p.rsplit('/', 1)
            return a + '/../' + a.rsplit('/', 1)[-1] + '/' + b
        if x < .2:
            return 'd0/../' + p
        return p

    # ---- rights
    def rights(self, dir=False):
        r = self.rng
        if r.random() < self.full_rights:
            return (DIR_RIGHTS if dir else FILE_RIGHTS | PATH_RIGHTS)
        x = r.random()
        if x < .4:
            return (DIR_RIGHTS if dir else FILE_RIGHTS) & ~(1 << r.randrange(30))
        if x < .7:
            return r.getrandbits(30)
        if x < .85:
            return R['FD_READ'] | (R['FD_WRITE'] if r.random() < .3 else 0)
        return r.choice([0, ALL_RIGHTS, R['FD_WRITE'], U64, r.getrandbits(30) | 1 << 40])

    # ---- data
    def data(self, big=False):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 7, 16, 33, 100] + ([3000] if big else []))
        c = r.randrange(256)
        return ''.join(chr((c + i) % 256) for i in range(n))

    def wiov(self):
        r = self.rng
        return [self.data(r.random() < .05) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5]))]

    def riov(self):
        r = self.rng
        return [r.choice([0, 1, 2, 5, 9, 16, 64, 300]) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5]))]

    def bulky(self, o):
        """One large buffer, several, or the same one over and over: more in all than the guest has memory."""
        r = self.rng
        g = self.g(o['fd']) if isinstance(o.get('fd'), str) else None
        n = r.choice([2049, 4097, 8192, 9000, 20000])
        k = r.choice([1, 1, 2]) if n <= 9000 else 1
        again = g is not None and g.type == 4 and r.random() < .35
        if again:
            # a read need not deliver more than the guest has memory; a write of the same bytes over and over does
            k = 66000 // n + r.choice([1, 1, 2, 9]) if isinstance(o['iov'][0], str) else 65536 // n
        if isinstance(o['iov'][0], str):
            c = r.randrange(251)
            one = ''.join(chr((c + i) % 251) for i in range(n))
            o['iov'] = [one] * k if again else [one] + ['%d' % i * 5 + one[i + 3:] for i in range(1, k)]
        else:
            o['iov'] = [n] * k
        if again:
            o['ptr'] = {'iov%d' % i: 20000 for i in range(k)}

    def off(self, sizes=True):
        r = self.rng
        x = r.random()
        if x < .8:
            return r.choice([0, 0, 1, 2, 5, 10, 17, 60, 100, 199, 200, 201, 300])
        if x < .9:
            return r.randrange(1000)
        return r.choice([-1, -5, -200, 1 << 20, 1 << 14, (1 << 63) - 1, -(1 << 63), 1 << 62, MAXFILE - 1, MAXFILE])

    def tm(self):
        r = self.rng
        return r.choice([0, 1, 123456789, 1_600_000_000 * NS + 999_999_999, r.randrange(1 << 61), 10 ** 9 - 1, 7 * 10 ** 18])

    # ---- calls
    def op(self, name):
        f = getattr(self, 'g_' + name)
        o = f()
        o = dict({'op': name}, **o)
        if o.get('iov') and self.bulk and self.rng.random() < self.bulk:
            self.bulky(o)
        if self.wild_ints and self.rng.random() < self.wild_ints:
            ints = [p for p in T[name] if p[0] == 'i']
            if ints:
                p = self.rng.choice(ints)
                o[p[1]] = self.rng.choice([-1, 0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 64, 255, 256, 0x7fff, 0xffff, 1 << 31,
                                           (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, U64])
        return o

    def g_args_get(self): return {}
    g_args_sizes_get = g_environ_get = g_environ_sizes_get = g_sched_yield = g_args_get

    def g_clock_res_get(self):
        return {'id': self.rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, -1, 77])}

    def g_clock_time_get(self):
        return {'id': self.rng.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, -1, 77]), 'prec': self.rng.choice([0, 1, 1000, U64])}

    def g_fd_advise(self):
        return {'fd': self.file_fd(), 'off': self.off(), 'len': self.off(), 'adv': self.rng.choice([0, 1, 2, 3, 4, 5, 6, 99])}

    def g_fd_allocate(self):
        a = {'fd': self.file_fd('FD_ALLOCATE'), 'off': self.off(), 'len': self.off()}
        if self.s.bare and a['len'] == 0:
            a['len'] = 1
        return a

    def g_fd_close(self):
        r = self.rng
        c = self.fds(lambda g: not g.std and g.pre is None)
        return {'fd': r.choice(c) if c and r.random() < .9 else self.pick_fd()}

    def g_fd_datasync(self):
        return {'fd': self.file_fd('FD_DATASYNC') if self.rng.random() < .9 else self.pick_fd()}

    def g_fd_sync(self):
        return {'fd': self.file_fd('FD_SYNC') if self.rng.random() < .9 else self.pick_fd()}

    def g_fd_fdstat_get(self):
        return {'fd': self.pick_fd()}

    def g_fd_fdstat_set_flags(self):
        r = self.rng
        return {'fd': self.file_fd('FD_FDSTAT_SET_FLAGS'),
                'flags': r.choice([0, 0, APPEND, APPEND, NONBLOCK, NONBLOCK | APPEND, SYNC, DSYNC, RSYNC, 32, 0xffff, -1])}

    def g_fd_fdstat_set_rights(self):
        r = self.rng
        fd = self.pick_fd()
        g = self.g(fd)
        b, i = (g.base, g.inh) if g is not None else (0, 0)
        x = r.random()
        if x < .5:
            b &= ~(1 << r.randrange(30))
            if r.random() < .5:
                i &= ~(1 << r.randrange(30))
        elif x < .6:
            b |= 1 << r.randrange(32)
        elif x < .7:
            i |= 1 << r.randrange(32)
        elif x < .8:
            # one half takes rights away while the other one asks for a right that is not there
            less, more = (~(1 << r.randrange(30)), 1 << r.randrange(30))
            if r.random() < .5:
                b, i = b & less, i | more
            else:
                b, i = b | more, i & less
        elif x < .88:
            pass
        else:
            b, i = r.getrandbits(30) & b, r.getrandbits(30) & i
        return {'fd': fd, 'base': b, 'inh': i}

    def g_fd_filestat_get(self):
        return {'fd': self.pick_fd(lambda g: g.type in (T_DIR, T_REG))}

    def g_fd_filestat_set_size(self):
        return {'fd': self.file_fd('FD_FILESTAT_SET_SIZE'), 'size': self.off()}

    def g_fd_filestat_set_times(self):
        r = self.rng
        return {'fd': self.pick_fd(lambda g: g.type in (T_DIR, T_REG)), 'atim': self.tm(), 'mtim': self.tm(),
                'flags': r.choice([0, 1, 2, 4, 8, 5, 6, 9, 10, 3, 12, 15, 1, 2, 4, 8, 5, 6, 9, 10])}

    def g_fd_pread(self):
        return {'fd': self.file_fd('FD_READ'), 'iov': self.riov(), 'off': self.off()}

    def g_fd_pwrite(self):
        return {'fd': self.file_fd('FD_WRITE'), 'iov': self.wiov(), 'off': self.off()}

    def g_fd_read(self):
        r = self.rng
        return {'fd': self.stream(r, 'FD_READ', ['stdin', 'stdin', self.pick_fd()]), 'iov': self.riov()}

    def stream(self, r, right, std):
        x = r.random()
        if x < self.std:
            return r.choice(std)
        if x < self.std + self.pipes:
            c = self.fds(lambda g: not g.std and g.type not in (T_DIR, T_REG))
            if c:
                return r.choice(c)
        return self.file_fd(right)

    def g_fd_write(self):
        r = self.rng
        return {'fd': self.stream(r, 'FD_WRITE', ['stdout', 'stderr', self.pick_fd()]), 'iov': self.wiov()}

    def g_fd_prestat_get(self):
        return {'fd': self.pick_fd()}

    def g_fd_prestat_dir_name(self):
        return {'fd': self.pick_fd(), 'len': self.rng.choice([0, 1, 3, 4, 7, 64])}

    def g_fd_readdir(self):
        r = self.rng
        return {'fd': self.dir_fd('FD_READDIR') if r.random() < .95 else self.pick_fd(),
                'len': r.choice([0, 10, 24, 30, 60, 100, 300, 1000, 4096]), 'cookie': r.choice([0, 0, 0, 1, 2, 3, 5, 99, -1])}

    def g_fd_renumber(self):
        if self.rng.random() < self.wide:
            return {'fd': self.pick_fd(), 'fd2': self.pick_fd(), 'as': self.label()}
        return {'fd': self.pick_fd(lambda g: g.pre is None), 'fd2': self.pick_fd(lambda g: g.pre is None), 'as': self.label()}

    def g_fd_seek(self):
        r = self.rng
        return {'fd': self.file_fd('FD_SEEK'), 'off': self.off(), 'whence': r.choice([0, 0, 1, 1, 2, 2, 2, 3, -1]) if r.random() < .95 else 77}

    def g_fd_tell(self):
        return {'fd': self.file_fd('FD_TELL')}

    def g_path_create_directory(self):
        fd = self.dir_fd('PATH_CREATE_DIRECTORY')
        return {'fd': fd, 'path': self.path(fd, new=self.rng.random() < .75)}

    def g_path_filestat_get(self):
        fd = self.dir_fd('PATH_FILESTAT_GET')
        return {'fd': fd, 'dfl': self.rng.randrange(2), 'path': self.path(fd)}

    def g_path_filestat_set_times(self):
        r = self.rng
        fd = self.dir_fd('PATH_FILESTAT_SET_TIMES')
        return {'fd': fd, 'dfl': r.randrange(2), 'path': self.path(fd), 'atim': self.tm(), 'mtim': self.tm(),
                'flags': r.choice([0, 1, 2, 4, 8, 5, 6, 9, 10, 3, 12, 15, 1, 2, 4, 8, 5, 6, 9, 10])}

    def g_path_link(self):
        r = self.rng
        a, b = self.dir_fd('PATH_LINK_SOURCE'), self.dir_fd('PATH_LINK_TARGET')
        return {'fd': a, 'dfl': r.choice([0, 0, 1]), 'path': self.path(a, ('reg', 'lnk')), 'fd2': b,
                'path2': self.path(b, new=r.random() < .8)}

    def g_path_open(self):
        r = self.rng
        fd = self.dir_fd('PATH_OPEN')
        x = r.random()
        if x < .15:
            ofl, want, dir = 2, ('dir', 'lnk'), True
        elif x < .2:
            ofl, want, dir = 0, ('dir',), True
        elif x < .55:
            ofl, want, dir = r.choice([0, 0, 1, 8, 9]), ('reg', 'lnk'), False
        elif x < .75:
            ofl, want, dir = r.choice([1, 5, 9, 13]), None, False
        else:
            ofl, want, dir = r.randrange(16), None, r.random() < .3
        rights = self.rights(dir)
        if r.random() < .15:
            rights &= ~R['FD_WRITE']
        return {'fd': fd, 'dfl': int(r.random() < .6), 'path': self.path(fd, want, new=r.random() < .6 if ofl & 1 else None), 'ofl': ofl,
                'base': rights, 'inh': self.rights(True) if dir else self.rights(), 'as': self.label(),
                'fdfl': r.choice([0, 0, 0, 0, 0, APPEND, APPEND, NONBLOCK, SYNC, DSYNC, RSYNC, APPEND | SYNC])}

    def g_path_readlink(self):
        fd = self.dir_fd('PATH_READLINK')
        return {'fd': fd, 'path': self.path(fd, ('lnk',)), 'len': self.rng.choice([0, 1, 3, 10, 100, 300])}

    def g_path_remove_directory(self):
        fd = self.dir_fd('PATH_REMOVE_DIRECTORY')
        return {'fd': fd, 'path': self.path(fd, ('dir',))}

    def g_path_rename(self):
        r = self.rng
        a, b = self.dir_fd('PATH_RENAME_SOURCE'), self.dir_fd('PATH_RENAME_TARGET')
        return {'fd': a, 'path': self.path(a, new=False), 'fd2': b, 'path2': self.path(b, new=r.random() < .5)}

    def g_path_symlink(self):
        r = self.rng
        fd = self.dir_fd('PATH_SYMLINK')
        t = r.choice(['f0', 'd0', 'nowhere', '../outside/secret', '/etc/passwd', '', '..', 'd0/../f1', 'a\0b', 'f0\0', '\xff',
                      'f1', 'd0/a', '../pre/f0', 'x' * 300, './f0', '../' * 4 + 'etc/passwd', '\xc3\xa9t\xc3\xa9'])
        return {'path': t, 'fd': fd, 'path2': self.path(fd, new=r.random() < .85)}

    def g_path_unlink_file(self):
        fd = self.dir_fd('PATH_UNLINK_FILE')
        return {'fd': fd, 'path': self.path(fd, ('reg', 'lnk') if self.rng.random() < .8 else None)}

    def g_proc_raise(self):
        return {'sig': self.rng.choice([0, 0, 1, 5, 9, 30, 31, -1])}

    def g_random_get(self):
        return {'len': self.rng.choice([0, 1, 3, 16, 32, 64, 300, 5000])}

    def g_sock_accept(self):
        return {'fd': self.pick_fd(lambda g: g.type in (5, 6)), 'flags': self.rng.choice([0, 4, 4, 4]), 'as': self.label()}

    def g_sock_recv(self):
        return {'fd': self.pick_fd(lambda g: g.type in (5, 6)), 'iov': self.riov(), 'flags': self.rng.choice([0, 0, 0, 1, 2, 3])}

    def g_sock_send(self):
        return {'fd': self.pick_fd(lambda g: g.type in (5, 6)), 'iov': self.wiov(), 'flags': 0}

    def g_sock_shutdown(self):
        return {'fd': self.pick_fd(lambda g: g.type in (5, 6)), 'how': self.rng.choice([1, 2, 3, 1, 2, 3, 0, 4, -1, 255])}

    # ---- faults and interference
    def faults(self, op, prob, kinds=('err',)):
        r = self.rng
        if r.random() >= prob:
            return op
        out = []
        for _ in range(r.choice([1, 1, 1, 2])):
            kind = r.choice(kinds)
            nth = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10])
            if kind == 'err':
                out.append(['*', nth, 'err', r.randrange(64)])
            elif kind == 'short':
                out.append([r.choice(['read', 'write', 'recv', 'send']), r.choice([1, 1, 1, 2, 3]), 'short', r.choice([1, 1, 2, 3, 7, 40])])
        op['faults'] = out
        return op


def weighted(rng, table):
    tot = sum(table.values())
    x = rng.random() * tot
    for k, v in table.items():
        x -= v
        if x < 0:
            return k
    return next(iter(table))
