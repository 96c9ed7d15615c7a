from .. import gen as G
from ..lock import LockCheck, SOCKMIX, socks

MIX5 = {'path_open': 8, 'fd_close': 7, 'fd_renumber': 7, 'fd_read': 2, 'fd_write': 2, 'fd_fdstat_get': 2,
        'fd_filestat_get': 1, 'fd_seek': 1, 'fd_tell': 1, 'fd_prestat_get': .5, 'fd_readdir': .5, 'path_filestat_get': .5,
        'fd_pread': .5, 'fd_pwrite': .5, 'fd_sync': .3, 'fd_allocate': .3, 'fd_advise': .3, 'fd_filestat_set_size': .3,
        'fd_fdstat_set_flags': .5, 'fd_fdstat_set_rights': .3, 'path_create_directory': .5, 'path_rename': .3}


class C05(LockCheck):
    """Descriptor life cycle: opens, closes, renumberings, accepts, endings, with the embedder reusing numbers."""
    id = 'C05'
    runs = {'quick': 7000, 'thorough': 150000}
    nops = (15, 45)
    finish = .8
    endings = ['ret', 'exit:0', 'exit:3', 'exit:255', 'trap', 'depth', 'sysexit:0', 'sysexit:4', 'host:interrupt', 'host:sysexit',
               'host:oserror', 'host:error', 'host:memory', 'host:bare', 'host:genexit']
    rule = ('one evaluation is one session of 15-45 calls that open, close, renumber, accept and use descriptors, '
            'usually followed by the end of the program by return, proc_exit, trap, stack exhaustion, an exception '
            'of the embedder or a signal handler that raises out of a system call; the host descriptor table is compared '
            'after every call and at the end. Host errors strike in most configurations and the embedder takes released numbers between and inside calls. Counted as distinct: sessions with at '
            'least one successful call and a different trace of results, system calls, faults and interference.')

    def configs(self, rng):
        return rng.choices([{'name': 'plain'}, {'name': 'reuse', 'reuse': .4},
                            {'name': 'faults', 'faults': .5, 'kinds': ('err',)},
                            {'name': 'faults+reuse', 'faults': .4, 'kinds': ('err',), 'reuse': .3}], [2, 3, 3, 3])[0]

    def init(self, rng):
        i = G.world(rng, rich=rng.random() < .3)
        if rng.random() < .4:
            i['socks'] = socks(rng)
        if rng.random() < .3:
            i['caps'] = [c for c in (0, 1, 2) if rng.random() < .5]
            i['capend'] = rng.choice([None, None, 'closed', 'noseek'])
        if rng.random() < .15:
            i['fd_limit'] = rng.choice([9, 10, 12])
        if rng.random() < .06:
            i['fd_floor'] = rng.choice([1018, 1020, 1022, 1024, 1100])
        return i

    def tune(self, g, rng):
        self.mix = dict(MIX5, sock_accept=3, sock_shutdown=.5, sock_recv=.5, sock_send=.5) if g.s.init.get('socks') else MIX5
        g.badfd = rng.choice([.03, .15])
        g.escape = .03
        g.stale = .15
        g.wide = .15

    def gen(self, rng, tier, i):
        spec = LockCheck.gen(self, rng, tier, i)
        if spec['conf'].get('faults') and rng.random() < .5:
            spec['endfaults'] = [['*', rng.choice([1, 2, 3, 4, 6]), 'err', rng.randrange(64)] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .45:
            spec['stop'] = None
        if rng.random() < .3:
            good, bad = ['/home', '/home/pre', '/'], ['/home/none', '/home/pre/none/x', '/home/pre/a.txt']
            dirs = [rng.choice(good + bad[:1]) for _ in range(rng.randint(1, 4))]
            if rng.random() < .5:
                dirs[rng.randrange(len(dirs))] = rng.choice(bad)
            spec['ctx'] = [dirs, [['open', rng.randint(1, 4), 'err', rng.randrange(64)]] if rng.random() < .4 else []]
        return spec

    def simplify(self, spec):
        yield from LockCheck.simplify(self, spec)
        if 'ctx' in spec:
            yield {f: v for f, v in spec.items() if f != 'ctx'}
        if 'stop' in spec:
            yield {f: v for f, v in spec.items() if f != 'stop'}

    def end(self, r, s, spec, rng, g):
        if spec.get('ctx'):
            dirs, faults = spec['ctx']
            if s.construct({'/%d' % i: d for i, d in enumerate(dirs)}, faults):
                r.probe('refused WASI contexts')
        if 'stop' not in spec or s.dead:
            return
        if spec['stop'] is None and g is not None:
            op = g.op(rng.choice(['path_open', 'path_open', 'path_filestat_get', 'path_rename', 'fd_read', 'fd_write'] +
                                 ['sock_accept', 'sock_accept', 'sock_recv', 'sock_send'] * bool(s.init.get('socks'))))
            for f in ('hooks', 'later', 'faults'):
                op.pop(f, None)
            if s.blocks(op) and op['op'] not in ('sock_accept', 'fd_read', 'sock_recv'):
                return
            spec['stop'] = [op, rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 8])]
        if spec['stop'] and s.interrupt(*spec['stop']):
            r.probe('interrupted calls')

    def next_op(self, g, rng, s, spec, i):
        if i >= self.prelude and rng.random() < spec['conf'].get('reuse', 0) * .4:
            return {'op': 'h_hostopen'}
        if s.init.get('socks') and rng.random() < .1:
            ls = [x['as'] for x in s.init['socks'] if x['kind'] == 'listen']
            if ls:
                return {'op': 'h_peer', 'fd': rng.choice(ls), 'act': 'connect', 'data': 'hello'}
        return LockCheck.next_op(self, g, rng, s, spec, i)

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if rng.random() < spec['conf'].get('reuse', 0):
            op['hooks'] = [[rng.choice([1, 2, 2, 3, 4]), {'op': 'h_hostopen'}]]
        return op

    def relevant(self, cat, info):
        if cat in ('fdleak', 'lost', 'foreign', 'fdnum', 'setup'):
            return True
        i = info or {}
        if cat in ('success', 'fail', 'errno'):
            return 'BADF' in i.get('expected', '') or i.get('result') == 'BADF' or i.get('op', {}).get('op') == 'fd_renumber'
        if cat in ('data', 'pos', 'ns', 'exc', 'probe'):
            # a stale or wrong host descriptor shows in what a call does
            return i.get('op', {}).get('op') in ('fd_renumber', 'fd_close', 'main')
        return False


CHECK = C05()
