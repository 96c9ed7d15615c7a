from .. import gen as G
from ..lock import LockCheck

NS = 10 ** 9
SLACK = 2000
MIX = {'sock_accept': 3, 'sock_recv': 9, 'sock_send': 7, 'sock_shutdown': 1.2, 'fd_read': 2, 'fd_write': 2,
       'fd_fdstat_set_flags': 1.2, 'fd_fdstat_get': .6, 'fd_close': .5, 'fd_renumber': .2, 'fd_filestat_get': .2,
       'path_open': .3}
NAMES = {'sock_accept', 'sock_recv', 'sock_send', 'sock_shutdown', 'fd_read', 'fd_write'}
CATS = {'errno', 'success', 'fail', 'data', 'count', 'out', 'mem', 'trunc', 'trace', 'fdleak', 'lost', 'ns', 'exc', 'hang',
        'early', 'late', 'flags', 'rights', 'foreign', 'fdnum', 'sock', 'stream'}


class C11(LockCheck):
    """Sockets: peers that segment, delay, half-close and reset, between and inside calls that wait for them."""
    id = 'C11'
    runs = {'quick': 5000, 'thorough': 120000}
    nops = (25, 60)
    prelude = 0
    mix = MIX
    rule = ('one evaluation is one session of 25-60 calls on listening, stream and datagram sockets (blocking and not) '
            'whose peers act between calls, at system calls inside calls, and at later moments of virtual time while a '
            'call waits: they send in segments, drain, half-close, close, reset and connect. Configurations: no faults, '
            'short transfers, host errors. Every call is compared with a model of the byte streams, datagrams and end '
            'states at each possible point of effect among the peers\' actions; a call that waited must return when '
            'what it waits for happened. Distinct: sessions with a successful call and a different trace.')

    def configs(self, rng):
        return rng.choices([{'name': 'plain'}, {'name': 'short', 'faults': .5, 'kinds': ('short',)},
                            {'name': 'errors', 'faults': .3, 'kinds': ('err', 'short')}], [4, 3, 1.5])[0]

    def init(self, rng):
        i = G.world(rng, kind='data', rich=False)
        out = []
        kinds = rng.choice([('stream',), ('stream', 'listen'), ('listen',), ('dgram',), ('stream', 'dgram', 'listen'),
                            ('stream', 'pipe_r', 'pipe_w')])
        for j in range(rng.choice([1, 1, 2, 3])):
            d = {'kind': rng.choice(kinds), 'as': 's%d' % j}
            if rng.random() < .4:
                d['nb'] = 1
            if d['kind'].startswith('pipe'):
                d['data'] = G.content(rng)
            if rng.random() < .5:
                d['cap'] = rng.choice([1, 2, 5, 17, 40])
            out.append(d)
        i['socks'] = out
        if rng.random() < .06:
            i['fd_floor'] = rng.choice([1018, 1020, 1022, 1024, 1100])
        return i

    def tune(self, g, rng):
        g.weird = g.escape = 0
        g.badfd = .005
        g.wildp = .004
        g.full_rights = .99
        g.std = .01
        g.sent = 0
        g.bulk = .05
        g.reset = rng.choice([0, 0, .02, .1])

    def peers(self, g, rng, s, fd):
        """Something the other end of fd does."""
        num = s.labels.get(fd, -1)
        gf = s.ref.fds.get(num)
        o = s.find(s.k, gf.oid) if gf is not None else None
        listen = o is not None and o.sock is not None and o.sock.state == 'listen'
        if listen:
            return {'op': 'h_peer', 'fd': fd, 'act': 'connect', 'data': self.bytes(g, rng), 'cap': rng.choice([0, 0, 3, 20])}
        x = rng.random()
        if x < .55:
            return {'op': 'h_peer', 'fd': fd, 'act': 'send', 'data': self.bytes(g, rng)}
        if x < .85:
            return {'op': 'h_peer', 'fd': fd, 'act': 'drain', 'n': rng.choice([1, 2, 3, 10, 100000])}
        if x < .92:
            return {'op': 'h_peer', 'fd': fd, 'act': 'shut'}
        if x < .96 and rng.random() < .5:
            return {'op': 'h_peer', 'fd': fd, 'act': 'close'}
        if rng.random() < g.reset * 5:
            return {'op': 'h_peer', 'fd': fd, 'act': 'reset'}
        return {'op': 'h_peer', 'fd': fd, 'act': 'send', 'data': self.bytes(g, rng)}

    @staticmethod
    def bytes(g, rng):
        """Never the same bytes twice in a row, so that lost, repeated and reordered pieces show."""
        n = rng.choice([0, 1, 1, 2, 3, 4, 7, 12, 30, 90]) if rng.random() > .03 else rng.choice([2000, 4097, 9000, 30000])
        d = ''.join(chr(33 + (g.sent + i) * 7 % 199) for i in range(n))
        g.sent += n
        return d

    def sockets(self, s):
        return [l for l, n in s.labels.items() if n in s.ref.fds and s.ref.fds[n].open and s.ref.fds[n].num > 2 and
                not l.startswith('pre')]

    def next_op(self, g, rng, s, spec, i):
        fds = self.sockets(s)
        if fds and rng.random() < .35:
            return self.peers(g, rng, s, rng.choice(fds))
        op = LockCheck.next_op(self, g, rng, s, spec, i)
        name = op['op']
        if name in NAMES and 'fd' in op and fds and rng.random() < .95:
            op['fd'] = rng.choice(fds)
        if name == 'sock_recv':
            op['flags'] = rng.choice([0, 0, 0, 0, 1, 1, 2, 2, 3])
        if name == 'fd_fdstat_set_flags' and fds:
            op['fd'] = rng.choice(fds)
            op['flags'] = rng.choice([0, 4])
        if name == 'fd_close' and fds and rng.random() < .8:
            op['fd'] = rng.choice(fds)
        return op

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if op['op'] in NAMES and isinstance(op.get('fd'), str):
            if rng.random() < .6:
                t = 0
                op['later'] = []
                for _ in range(rng.choice([1, 1, 2, 3, 4])):
                    t += rng.choice([1, 1000, 10 ** 5, 10 ** 6, 10 ** 8, 3 * NS])
                    op['later'].append([t, self.peers(g, rng, s, op['fd'])])
            if rng.random() < .2:
                op['hooks'] = [[rng.choice([1, 1, 2, 3, 4]), self.peers(g, rng, s, op['fd'])]]
        return op

    def before(self, r, s, op):
        if not s.watch_ready:
            s.watch_ready = True

    def observe(self, r, s, op, bad):
        LockCheck.observe(self, r, s, op, bad)
        name = op['op']
        if name not in NAMES:
            return
        res = s.last
        r.trace.append(s.last.t1)
        g = s.ref.fds.get(s.labels.get(op['fd'], -1)) if isinstance(op.get('fd'), str) else None
        if res.kind != 'ret' or g is None:
            return
        waited = res.t1[1] - res.t0[1]
        spent = (res.sys + 4) * s.k.latency + SLACK
        if waited > spent:
            r.probe('%s that waited' % name)
        way = 0 if name in ('sock_accept', 'sock_recv', 'fd_read') else 1
        if name == 'sock_shutdown' or name == 'sock_recv' and op.get('flags', 0) & 2:
            if waited > spent and name == 'sock_shutdown':
                r.vio.append(('late', 'waited %d ns' % waited, {'op': op, 'n': s.n}))
            return
        first = next((m for m, _, st in s.ticks if st.get(g.oid, (0, 0))[way]), None)
        if waited > spent and (first is None or res.t1[1] - max(first, res.t0[1]) > spent) and \
                not any(f[2] == 'late' for f in s.last_fired):
            r.vio.append(('late', 'returned %d ns after it could' % (res.t1[1] - max(first or 0, res.t0[1])),
                          {'op': op, 'n': s.n, 'result': s.show(res), 'fired': s.last_fired}))

    def relevant(self, cat, info):
        return (info or {}).get('op', {}).get('op') in NAMES


CHECK = C11()
