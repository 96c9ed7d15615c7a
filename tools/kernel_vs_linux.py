"""Compares the simulated kernel with the real one: random sequences of system calls, made through the simulated `os`
module and through the real one inside a scratch directory, have to give the same results, errnos and trees.

    python3 -B tools/kernel_vs_linux.py [sequences] [seed]

No check depends on it; it is how the assumption `the simulated kernel behaves as Linux does` was examined. Everything it
does happens below a directory of its own, which it removes."""
import errno
import os
import random
import select
import shutil
import socket
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import kernel as K                                     # noqa: E402
from dst import world as W                                      # noqa: E402
from dst.engine import build_kernel                             # noqa: E402
from dst.world import cur                                       # noqa: E402

NAMES = ['a', 'b', 'c', 'd']
TARGETS = ['a', 'b', 'c', 'd', 'a/b', 'd/a', '../a', 'nowhere', './b', 'd/', 'c/../a', 'b/.']


class Side:
    def __init__(self, os_, base):
        self.os = os_
        self.base = base
        self.fds = {'root': os_.open(base, os.O_RDONLY | os.O_DIRECTORY)}
        self.inos = {}
        self.group = False      # inode numbers are used again by a real file system: compared within one tree only

    def ino(self, i):
        return self.inos.setdefault(i, len(self.inos))

    def do(self, op):
        try:
            return 'ok', getattr(self, op[0])(*op[1:])
        except OSError as e:
            return 'err', errno.errorcode.get(e.errno, e.errno)
        except (ValueError, OverflowError, TypeError) as e:
            return 'exc', type(e).__name__

    def fd(self, name):
        return self.fds.get(name, 9999)

    # one method per operation
    def open(self, label, d, path, flags):
        f = self.os.open(path, flags, 0o644, dir_fd=self.fd(d))
        self.fds[label] = f
        return 'opened'

    def close(self, x):
        f = self.fds.pop(x, None)
        if f is None:
            return 'none'
        self.os.close(f)
        return 'closed'

    def mkdir(self, d, p):
        self.os.mkdir(p, dir_fd=self.fd(d))

    def rmdir(self, d, p):
        self.os.rmdir(p, dir_fd=self.fd(d))

    def unlink(self, d, p):
        self.os.unlink(p, dir_fd=self.fd(d))

    def rename(self, d, p, e, q):
        self.os.rename(p, q, src_dir_fd=self.fd(d), dst_dir_fd=self.fd(e))

    def link(self, d, p, e, q, follow):
        self.os.link(p, q, src_dir_fd=self.fd(d), dst_dir_fd=self.fd(e), follow_symlinks=follow)

    def symlink(self, t, d, p):
        self.os.symlink(t, p, dir_fd=self.fd(d))

    def readlink(self, d, p):
        return self.os.readlink(p, dir_fd=self.fd(d))

    def st(self, s):
        import stat
        k = stat.S_IFMT(s.st_mode)
        return (oct(k), self.ino(s.st_ino) if self.group else 0, s.st_nlink if k != stat.S_IFDIR else 'dir',
                s.st_size if k != stat.S_IFDIR else 'dir')

    def stat(self, d, p, follow):
        return self.st(self.os.stat(p, dir_fd=self.fd(d), follow_symlinks=follow))

    def fstat(self, x):
        return self.st(self.os.fstat(self.fd(x)))

    def read(self, x, n):
        return self.os.read(self.fd(x), n)

    def pread(self, x, n, o):
        return self.os.pread(self.fd(x), n, o)

    def write(self, x, b):
        return self.os.write(self.fd(x), b)

    def pwrite(self, x, b, o):
        return self.os.pwrite(self.fd(x), b, o)

    def lseek(self, x, o, w):
        import stat
        if stat.S_ISDIR(self.os.fstat(self.fd(x)).st_mode):
            return 'skip'               # up to the file system
        return self.os.lseek(self.fd(x), o, w)

    def ftruncate(self, x, n):
        return self.os.ftruncate(self.fd(x), n)

    def fallocate(self, x, o, n):
        return self.os.posix_fallocate(self.fd(x), o, n)

    def fsync(self, x):
        return self.os.fsync(self.fd(x))

    def fdatasync(self, x):
        return self.os.fdatasync(self.fd(x))

    def listdir(self, x):
        return sorted(self.os.listdir(self.fd(x)))

    def utime(self, d, p, a, m, follow):
        self.os.utime(p, ns=(a, m), dir_fd=self.fd(d), follow_symlinks=follow)
        s = self.os.stat(p, dir_fd=self.fd(d), follow_symlinks=follow)
        # on the way to the entry, the second walk may read a link, which renews that link's access time
        return None if '/' in p else s.st_atime_ns, s.st_mtime_ns

    def dup2(self, x, y):
        a, b = self.fd(x), self.fd(y)
        if x == 'root' or y == 'root' or b == 9999:
            return 'skip'
        self.os.dup2(a, b)

    def flags(self, x, nb):
        self.os.set_blocking(self.fd(x), not nb)
        return self.os.get_blocking(self.fd(x))

    def tree(self):
        out = []

        def rec(f, pre):
            for n in sorted(self.os.listdir(f)):
                s = self.os.stat(n, dir_fd=f, follow_symlinks=False)
                t = self.st(s)
                c = None
                if t[0] == '0o40000':
                    out.append((pre + n, t))
                    g = self.os.open(n, os.O_RDONLY | os.O_DIRECTORY | os.O_NOFOLLOW, dir_fd=f)
                    rec(g, pre + n + '/')
                    self.os.close(g)
                    continue
                if t[0] == '0o120000':
                    c = self.os.readlink(n, dir_fd=f)
                elif t[0] == '0o100000':
                    g = self.os.open(n, os.O_RDONLY | os.O_NOFOLLOW, dir_fd=f)
                    c = self.os.read(g, 1 << 20)
                    self.os.close(g)
                out.append((pre + n, t, c))
        self.inos, self.group = {}, True
        rec(self.fds['root'], '')
        self.group = False
        return out


def path(r):
    x = r.random()
    n = r.choice(NAMES)
    if x < .5:
        return n
    if x < .75:
        return n + '/' + r.choice(NAMES)
    if x < .85:
        return n + '/'
    if x < .9:
        return n + '/.'
    if x < .94:
        return n + '/../' + r.choice(NAMES)
    return r.choice(['.', 'x' * 255, 'x' * 256, '', './' + n, n + '//' + r.choice(NAMES)])


def gen(r, labels):
    def x():
        return r.choice(labels) if labels and r.random() < .9 else r.choice(['gone', 'root'])

    def d():
        return 'root' if r.random() < .85 or not labels else r.choice(labels)
    k = r.choice(['open'] * 8 + ['close'] * 2 + ['mkdir'] * 4 + ['rmdir'] * 2 + ['unlink'] * 3 + ['rename'] * 6 + ['link'] * 3 +
                 ['symlink'] * 4 + ['readlink', 'stat', 'stat', 'stat', 'fstat', 'fstat', 'read', 'read', 'pread', 'write',
                                    'write', 'write', 'pwrite', 'lseek', 'lseek', 'ftruncate', 'ftruncate', 'fallocate',
                                    'fallocate', 'fsync', 'fdatasync', 'listdir', 'utime', 'dup2', 'flags'])
    data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 30])))
    off = r.choice([0, 1, 4, 40, 5000, -1, 1 << 40])
    if k == 'open':
        f = r.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR])
        for b in (os.O_CREAT, os.O_EXCL, os.O_TRUNC, os.O_DIRECTORY, os.O_NOFOLLOW, os.O_APPEND, os.O_NONBLOCK):
            if r.random() < .25:
                f |= b
        if r.random() < .08:
            f = os.O_PATH | os.O_DIRECTORY | os.O_NOFOLLOW
        elif r.random() < .05:
            f = os.O_PATH | r.choice([0, os.O_NOFOLLOW])
        lab = 'f%d' % r.randrange(6)
        return ('open', lab, d(), path(r), f)
    return {'close': lambda: (k, r.choice(labels) if labels else 'gone'), 'mkdir': lambda: (k, d(), path(r)),
            'rmdir': lambda: (k, d(), path(r)), 'unlink': lambda: (k, d(), path(r)),
            'rename': lambda: (k, d(), path(r), d(), path(r)),
            'link': lambda: (k, d(), path(r), d(), path(r), r.random() < .4),
            'symlink': lambda: (k, r.choice(TARGETS), d(), path(r)), 'readlink': lambda: (k, d(), path(r)),
            'stat': lambda: (k, d(), path(r), r.random() < .5), 'fstat': lambda: (k, x()),
            'read': lambda: (k, x(), r.choice([0, 1, 7, 100])), 'pread': lambda: (k, x(), r.choice([0, 1, 7, 100]), off),
            'write': lambda: (k, x(), data), 'pwrite': lambda: (k, x(), data, min(off, 5000)),
            'lseek': lambda: (k, x(), min(r.choice([off, -off]), 5000), r.randrange(3)),
            'ftruncate': lambda: (k, x(), min(off, 5000)),
            'fallocate': lambda: (k, x(), min(off, 5000), r.choice([0, 1, 50, -1])),
            'fsync': lambda: (k, x()), 'fdatasync': lambda: (k, x()), 'listdir': lambda: (k, x()),
            'utime': lambda: (k, d(), path(r), r.randrange(1 << 60), r.randrange(1 << 60), r.random() < .5),
            'dup2': lambda: (k, x(), x()), 'flags': lambda: (k, x(), r.random() < .5)}[k]()


# ---- sockets and pipes -----------------------------------------------------------------------------------------------

class RealEnd:
    def __init__(self, kind):
        if kind == 'pipe':
            self.r, self.w = os.pipe()
            os.set_blocking(self.r, False)
        else:
            t = socket.SOCK_DGRAM if kind == 'dgram' else socket.SOCK_STREAM
            a = socket.socket(socket.AF_INET, t)
            a.bind(('127.0.0.1', 0))
            b = socket.socket(socket.AF_INET, t)
            if kind == 'dgram':
                b.bind(('127.0.0.1', 0))
                a.connect(b.getsockname())
                b.connect(a.getsockname())
                self.me, self.peer = a, b
            else:
                a.listen(1)
                b.connect(a.getsockname())
                self.me, self.peer = b, a.accept()[0]
                self.peer.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.me.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                a.close()
            self.me.setblocking(False)
            self.peer.setblocking(False)
            self.r = self.me.fileno()

    def recv(self, n, fl):
        d, _, got, _ = self.me.recvmsg(n, 0, fl)
        return d, got & socket.MSG_TRUNC

    def send(self, b):
        return self.me.send(b)

    def shutdown(self, how):
        self.me.shutdown(how)

    def read(self, n):
        return os.read(self.r, n)

    def select(self):
        a, b, _ = select.select([self.r], [self.r] if hasattr(self, 'me') else [], [], 0)
        return bool(a), bool(b)

    def p_send(self, b):
        (lambda x: os.write(self.w, x) if hasattr(self, 'w') else self.peer.send(x))(b)

    def p_close(self):
        os.close(self.w) if hasattr(self, 'w') else self.peer.close()

    def p_shut(self):
        self.peer.shutdown(1)

    def p_drain(self):
        out = b''
        try:
            while True:
                x = self.peer.recv(1 << 16)
                if not x:
                    break
                out += x
        except BlockingIOError:
            pass
        return out

    def end(self):
        if hasattr(self, 'me'):
            self.me.close()
            self.peer.close()
        else:
            os.close(self.r)


class SimEnd:
    def __init__(self, kind, k):
        self.k = k
        if kind == 'pipe':
            self.ch = K.Chan()
            self.fd = k.install(k.new_ofd(K.O_RDONLY | K.O_NONBLOCK, chan_r=self.ch), owner='guest')
        else:
            self.ch = None
            self.s = k.new_sock('dgram' if kind == 'dgram' else 'stream', 'conn')
            self.fd = k.install(k.new_ofd(K.O_RDWR | K.O_NONBLOCK, sock=self.s), owner='guest')

    def recv(self, n, fl):
        return self.k.recv(self.fd, n, fl)[:2]

    def send(self, b):
        return self.k.send(self.fd, b)

    def shutdown(self, how):
        self.k.shutdown(self.fd, how)

    def read(self, n):
        return self.k.read(self.fd, n)

    def select(self):
        a, b = self.k.select([self.fd], [self.fd] if self.ch is None else [], [], 0)
        return bool(a), bool(b)

    def p_send(self, b):
        if self.ch is not None:
            self.ch.buf += b
        elif self.s.type == 'dgram':
            self.s.rx.msgs.append(b)
        else:
            self.s.rx.buf += b

    def p_close(self):
        if self.ch is not None:
            self.ch.eof = True
        else:
            self.s.rx.eof = self.s.tx.eof = True

    def p_shut(self):
        self.s.rx.eof = True

    def p_drain(self):
        out = b''.join(self.s.tx.msgs) + bytes(self.s.tx.buf)
        self.s.tx.msgs.clear()
        self.s.tx.buf.clear()
        return out

    def end(self):
        pass


def streams(n, seed):
    bad = calls = 0
    for i in range(n):
        r = random.Random('%d/s/%d' % (seed, i))
        kind = r.choice(['pipe', 'stream', 'stream', 'dgram'])
        k = build_kernel({'tree': [], 'host_fds': 0})
        cur.k = k
        real, sim = RealEnd(kind), SimEnd(kind, k)
        hist = []
        gone = shut = closed = False
        for _ in range(25):
            ops = ['select', 'read', 'read', 'p_send', 'p_send', 'p_send']
            if kind != 'pipe':
                ops += ['recv'] * 6 + ['send'] * 4 + ['p_drain', 'shutdown']
            if kind == 'stream':
                ops += ['p_shut']
            if kind != 'dgram':
                ops += ['p_close']
            o = r.choice(ops)
            if closed and o in ('send', 'shutdown'):
                continue            # whether the reset has arrived by then is a race
            if gone and o.startswith('p_') or shut and o in ('p_send', 'p_shut', 'p_close'):
                continue
            data = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20])))
            fl = 0
            for b in (socket.MSG_PEEK, socket.MSG_DONTWAIT, socket.MSG_WAITALL):
                fl |= b if r.random() < .3 else 0
            args = {'read': (r.choice([0, 1, 5, 50]),), 'p_send': (data,), 'send': (data,), 'recv': (r.choice([0, 1, 5, 50]), fl),
                    'shutdown': (r.choice([0, 1, 2]),)}.get(o, ())
            if o in ('p_close', 'p_shut'):
                gone = True
                closed = o == 'p_close'
                for side in (real, sim):
                    side.p_drain() if kind != 'pipe' else None
            if o == 'shutdown':
                shut = True
                if kind == 'stream' and gone:
                    continue        # with both directions finished, ENOTCONN depends on when the last acknowledgement comes
            out = []
            for side in (real, sim):
                try:
                    out.append(('ok', getattr(side, o)(*args)))
                except OSError as e:
                    out.append(('err', errno.errorcode[e.errno]))
            calls += 1
            hist.append((o, args, out[0]))
            if out[0] != out[1]:
                bad += 1
                print('%s %d: %r\n   real %r\n   sim  %r' % (kind, i, hist[-1][:2], out[0], out[1]))
                for h in hist[-6:-1]:
                    print('      before: %r' % (h,))
                break
        real.end()
        if bad > 12:
            break
    print('streams: %d sequences, %d calls, %d differences' % (i + 1, calls, bad))
    return bad


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    top = tempfile.mkdtemp(prefix='kvl-')
    bad = 0
    calls = 0
    seen = {}
    try:
        for i in range(n):
            r = random.Random('%d/%d' % (seed, i))
            base = os.path.join(top, 'r%d' % i, 'in')
            os.makedirs(base)
            k = build_kernel({'tree': [['d', '/r'], ['d', '/r/in']], 'fd_limit': 200, 'host_fds': 0})
            cur.k = k
            sim_os = W._mk_os()
            real, sim = Side(os, base), Side(sim_os, '/r/in')
            hist = []
            for _ in range(60):
                labels = sorted(x for x in real.fds if x != 'root')
                op = gen(r, labels)
                if op[0] == 'open' and op[1] in real.fds:
                    op = ('close', op[1])
                a, b = real.do(op), sim.do(op)
                calls += 1
                hist.append((op, a))
                key = (op[0], a[0], a[1] if a[0] != 'ok' else '')
                seen[key] = seen.get(key, 0) + 1
                t, u = real.tree(), sim.tree()
                if a != b or t != u:
                    bad += 1
                    print('sequence %d: %r\n   real %r\n   sim  %r' % (i, op, a, b))
                    if t != u:
                        print('   trees: %r\n          %r' % ([x for x in t if x not in u], [x for x in u if x not in t]))
                    for h in hist[-6:-1]:
                        print('      before: %r -> %r' % h)
                    break
            for f in real.fds.values():
                try:
                    os.close(f)
                except OSError:
                    pass
            if bad > 12:
                break
    finally:
        shutil.rmtree(top)
    print('%d sequences, %d calls, %d differences, %d kinds of outcome' % (i + 1, calls, bad, len(seen)))
    if len(sys.argv) > 3:
        for key, c in sorted(seen.items()):
            print('  ', *key, c)
    bad += streams(n, seed)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
