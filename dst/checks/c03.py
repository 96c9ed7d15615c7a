from .. import gen as G
from ..lock import LockCheck, socks

IO = {'path_open': 3, 'fd_close': .5, 'fd_read': 8, 'fd_write': 9, 'fd_pread': 4, 'fd_pwrite': 5, 'fd_seek': 6,
      'fd_tell': 3, 'fd_allocate': 3, 'fd_filestat_set_size': 3, 'fd_fdstat_set_flags': 2.5, 'fd_filestat_get': 1,
      'fd_renumber': .4, 'fd_sync': .3}
NAMES = set(IO) - {'fd_close', 'fd_renumber', 'fd_sync', 'path_open'}


class C03(LockCheck):
    """File contents and offsets: I/O sequences on several descriptors of few files, short transfers, host writers."""
    id = 'C03'
    runs = {'quick': 6000, 'thorough': 150000}
    nops = (25, 60)
    prelude = 4
    mix = IO
    rule = ('one evaluation is one session of 25-60 I/O calls over several descriptors of a few files (plus pipes and '
            'captured streams), in separate configurations without faults, with short host transfers, with host '
            'writers appending and truncating between and inside calls, and with host errors; guest memory, counts, '
            'offsets and file contents are compared after every call. Counted as distinct: sessions with at least one '
            'successful call and a different trace of results, system calls, faults and interference points.')

    def configs(self, rng):
        return rng.choices([{'name': 'plain'}, {'name': 'short', 'faults': .6, 'kinds': ('short',)},
                            {'name': 'writers', 'writers': .3, 'inside': rng.choice([0, .3])},
                            {'name': 'errors', 'faults': .3, 'kinds': ('err', 'short')}], [3, 4, 3, 1])[0]

    def init(self, rng):
        i = G.world(rng, kind='data', rich=False)
        if rng.random() < .3:
            i['socks'] = socks(rng, ('pipe_r', 'pipe_w', 'stream'))
        i['stdin'] = G.content(rng, rng.choice([0, 5, 100]))
        i['caps'] = [c for c in (0, 1, 2) if rng.random() < .3]
        if rng.random() < .25:
            i['stdfiles'] = [[c, int(rng.random() < .4)] for c in (0, 1, 2) if rng.random() < .6]
        return i

    def tune(self, g, rng):
        g.names = ['f0', 'f1', 'a']
        g.weird = g.escape = 0
        g.badfd = .005
        g.full_rights = .97
        g.deep = 0
        g.std = .12
        g.pipes = .12

    def next_op(self, g, rng, s, spec, i):
        c = spec['conf']
        if i < self.prelude:
            o = g.op('path_open')
            o.update({'path': rng.choice(['f0', 'f0', 'f1', 'a']), 'ofl': rng.choice([0, 0, 1, 1, 9]), 'dfl': 1})
            if o['path'] == 'a':
                o['ofl'] |= 1
            return o
        if rng.random() < c.get('writers', 0):
            return self.writer(rng)
        if s.init.get('socks') and rng.random() < .15:
            return {'op': 'h_peer', 'fd': rng.choice([x['as'] for x in s.init['socks']]),
                    'act': rng.choice(['send', 'send', 'send', 'drain', 'drain', 'close' if rng.random() < .2 else 'send']),
                    'data': g.data(), 'n': rng.choice([1, 10, 1000])}
        return LockCheck.next_op(self, g, rng, s, spec, i)

    def writer(self, rng):
        a = '/home/pre/' + rng.choice(['f0', 'f0', 'f1', 'a'])
        return rng.choice([{'op': 'h_append', 'a': a, 'data': G.content(rng)}, {'op': 'h_append', 'a': a, 'data': G.content(rng)},
                           {'op': 'h_truncate', 'a': a, 'n': rng.choice([0, 1, 5, 17, 60, 300])}])

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if rng.random() < spec['conf'].get('inside', 0):
            op['hooks'] = [[rng.choice([1, 1, 2, 2, 3]), self.writer(rng)]]
        return op

    def relevant(self, cat, info):
        op = (info or {}).get('op', {}).get('op', '')
        if op in NAMES:
            return cat in ('data', 'pos', 'count', 'out', 'flags', 'mem', 'success', 'fail', 'errno', 'exc', 'hang', 'trace')
        return cat in ('data', 'pos', 'flags')


CHECK = C03()
