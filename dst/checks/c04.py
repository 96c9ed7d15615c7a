from .. import gen as G
from ..lock import LockCheck, MIX, SOCKMIX, socks


class C04(LockCheck):
    """Failed calls leave no trace: host errors at every system call of every call, then a probe and a retry."""
    id = 'C04'
    runs = {'quick': 6000, 'thorough': 150000}
    retry = .6
    look = .4
    rule = ('one evaluation is one session of 25-45 guest calls; host errors strike at seeded system calls of most '
            'calls, arguments are often malformed and rights often missing. After every failed call the whole host '
            'state is compared with the state before it; failed calls are often followed by fd_fdstat_get and by '
            'the same call without the fault. Counted as distinct: sessions with at least one successful call and a '
            'different trace of results, system calls and faults.')

    def configs(self, rng):
        return rng.choices([{'name': 'arguments'},
                            {'name': 'faults', 'faults': rng.choice([.4, .7, .95]), 'kinds': ('err',)}], [1, 4])[0]

    def init(self, rng):
        i = LockCheck.init(self, rng)
        if rng.random() < .35:
            i['socks'] = socks(rng)
        if rng.random() < .15:
            i['fd_limit'] = rng.choice([9, 10, 12])
        return i

    def tune(self, g, rng):
        mix = dict(MIX, fd_fdstat_set_rights=2, fd_fdstat_set_flags=2, fd_renumber=2)
        self.mix = dict(mix, **SOCKMIX) if g.s.init.get('socks') else mix
        g.full_rights = rng.choice([.5, .9])

    def relevant(self, cat, info):
        if cat in ('trace', 'fdleak', 'lost'):
            return True
        o = (info or {}).get('op', {})
        return bool(o.get('retry')) and cat in ('errno', 'fail', 'success', 'out', 'data', 'pos', 'flags', 'ns', 'count',
                                                'rights', 'norights', 'exc')


CHECK = C04()
