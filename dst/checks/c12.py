from .. import gen as G
from ..engine import PAGE, T
from ..lock import LockCheck, MIX, SOCKMIX, socks

MIX12 = dict(MIX, fd_read=8, fd_pread=6, fd_write=6, fd_pwrite=5, fd_readdir=6, path_readlink=5, args_get=3, args_sizes_get=2,
             environ_get=3, environ_sizes_get=2, random_get=4, fd_prestat_dir_name=3, fd_prestat_get=2, clock_time_get=2,
             clock_res_get=1, fd_fdstat_get=3, fd_filestat_get=4, path_filestat_get=4, fd_seek=3, fd_tell=2)


class C12(LockCheck):
    """Guest memory: pointers, lengths and iovec layouts in, across and beyond the memory."""
    id = 'C12'
    runs = {'quick': 6000, 'thorough': 150000}
    rule = ('one evaluation is one session of 25-45 calls; a third of them has pointers, lengths or iovecs at, across '
            'or beyond the end of the memory, or overlapping; the whole memory is compared byte by byte after every '
            'call, with short host transfers and host errors in some configurations. Counted as distinct: sessions '
            'with at least one successful call and a different trace of results, system calls and faults.')

    def configs(self, rng):
        return rng.choices([{'name': 'plain', 'wild': .35}, {'name': 'valid', 'wild': 0},
                            {'name': 'short', 'wild': .2, 'faults': .5, 'kinds': ('short',)},
                            {'name': 'errors', 'wild': .2, 'faults': .4, 'kinds': ('err',)}], [4, 1, 2, 2])[0]

    def init(self, rng):
        i = LockCheck.init(self, rng)
        if rng.random() < .3:
            i['socks'] = socks(rng)
        i['args'] = [rng.choice(['prog', 'a', '', 'h\u00e9llo', 'x' * 50]) for _ in range(rng.choice([1, 2, 5]))]
        i['envs'] = {rng.choice(['A', 'PATH', '\u00e9']) + str(j): rng.choice(['', '1', 'z\u00fc' * 9]) for j in range(rng.choice([0, 1, 3]))}
        i['stdin'] = G.content(rng, rng.choice([0, 5, 100]))
        i['caps'] = [c for c in (0, 1, 2) if rng.random() < .2]
        return i

    def tune(self, g, rng):
        self.mix = dict(MIX12, **SOCKMIX) if g.s.init.get('socks') else MIX12
        g.full_rights = .97
        g.std = .1

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if rng.random() < spec['conf']['wild']:
            keys = []
            for p in T[op['op']]:
                if p[0] in ('path', 'out', 'buf'):
                    keys.append(p[1])
                elif p[0] == 'iov':
                    n = len(op.get('iov', []))
                    keys += ['iov', 'iov', 'iov'] + ['iov%d' % i for i in range(n)] * 2
            if keys:
                op['ptr'] = {}
                for _ in range(rng.choice([1, 1, 1, 2])):
                    k = rng.choice(keys)
                    size = self.size(op, k)
                    op['ptr'][k] = rng.choice([
                        PAGE - size, PAGE - size, PAGE - size + 1, PAGE - size + rng.randrange(1, 9), PAGE - 1, PAGE,
                        PAGE + 1, PAGE - 4, -1, -4, -size, (1 << 31) - 1, 1 << 31, (1 << 32) - 8, (1 << 32) - size,
                        -PAGE, 0, 1, rng.randrange(PAGE), 1100])
                x = rng.random()
                if x < .12:
                    for f in ('len', 'path_len', 'path2_len', 'iovn'):
                        base = {'len': 'len', 'path_len': 'path', 'path2_len': 'path2', 'iovn': 'iov'}[f]
                        if base in op and rng.random() < .7:
                            op[f] = rng.choice([-1, 1 << 31, (1 << 32) - 1, PAGE, PAGE + 1, 40000, 70000, (1 << 29), 1 << 28])
        return op

    @staticmethod
    def size(op, k):
        if k in ('path', 'path2'):
            return len(op.get(k, ''))
        if k == 'iov':
            return 8 * len(op.get('iov', []))
        if k.startswith('iov'):
            x = op['iov'][int(k[3:])]
            return x if isinstance(x, int) else len(x)
        for p in T[op['op']]:
            if p[0] == 'out' and p[1] == k:
                return int(p[2])
        return op.get('len', 64)

    def relevant(self, cat, info):
        if cat in ('mem', 'oob'):
            return True
        # with wild arguments: whatever makes the runtime unusable
        o = (info or {}).get('op', {})
        if cat == 'out':
            return o.get('op') not in ('fd_filestat_get', 'path_filestat_get', 'fd_fdstat_get')
        if cat in ('count', 'hang', 'exc', 'probe'):
            return True
        return cat in ('fail', 'errno') and bool(o.get('ptr'))


CHECK = C12()
