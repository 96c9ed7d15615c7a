from .. import gen as G
from ..kernel import NS
from ..lock import LockCheck

MIX9 = {'path_open': 4, 'fd_close': .5, 'clock_time_get': 8, 'clock_res_get': 2, 'fd_filestat_set_times': 8,
        'path_filestat_set_times': 9, 'fd_filestat_get': 4, 'path_filestat_get': 4, 'fd_write': 1, 'path_symlink': .7,
        'path_rename': .7, 'path_unlink_file': .4, 'fd_renumber': .3, 'path_link': .5}
NAMES = {'clock_time_get', 'clock_res_get', 'fd_filestat_set_times', 'path_filestat_set_times'}


class C09(LockCheck):
    """Clocks and timestamps under wall-clock jumps and suspensions between any two host calls."""
    id = 'C09'
    runs = {'quick': 6000, 'thorough': 150000}
    nops = (20, 45)
    mix = MIX9
    rule = ('one evaluation is one session of 20-45 calls reading clocks and setting and reading timestamps, while '
            'the wall clock jumps (up to years, both ways) and the machine is suspended between and inside calls and '
            'host errors strike. Counted as distinct: sessions with at least one successful call and a different '
            'trace of results, system calls, faults and interference.')

    def configs(self, rng):
        return rng.choices([{'name': 'steady'}, {'name': 'jumps', 'jumps': .4},
                            {'name': 'jumps+faults', 'jumps': .3, 'faults': .3, 'kinds': ('err',)}], [1, 3, 1])[0]

    def init(self, rng):
        i = G.world(rng, rich=True)
        i['latency'] = rng.choice([1, 1000, 10 ** 6, 10 ** 9])
        return i

    def tune(self, g, rng):
        g.weird, g.escape, g.badfd = .03, .03, .02
        g.full_rights = .97

    def jump(self, rng):
        if rng.random() < .4:
            return {'op': 'h_sleep', 'ns': rng.choice([1, 10 ** 6, 3 * NS, 10 ** 13])}
        return {'op': 'h_jump', 'ns': rng.choice([-1, 1]) * rng.choice([1, 999, 10 ** 6, NS, 3600 * NS, 40 * 86400 * NS, 400 * 86400 * NS])}

    def next_op(self, g, rng, s, spec, i):
        if i >= self.prelude and rng.random() < spec['conf'].get('jumps', 0) * .5:
            return self.jump(rng)
        return LockCheck.next_op(self, g, rng, s, spec, i)

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if rng.random() < spec['conf'].get('jumps', 0):
            op['hooks'] = [[rng.choice([1, 1, 2, 3]), self.jump(rng)]]
        return op

    def relevant(self, cat, info):
        op = (info or {}).get('op', {}).get('op', '')
        if cat in ('clock', 'times'):
            return True
        if op in NAMES:
            return cat in ('errno', 'success', 'fail', 'trace', 'exc', 'hang', 'ns', 'data')
        return cat == 'out' and op in ('fd_filestat_get', 'path_filestat_get')


CHECK = C09()
