from ..lock import LockCheck, MIX, SOCKMIX, socks

FOCUS = [n for n in dict(MIX, **SOCKMIX) if not n.startswith(('args', 'environ', 'clock', 'proc', 'sched', 'fd_prestat', 'fd_tell'))]

# poll_oneoff has a check of its own (C10); what it shares with the others, bad arguments, is covered there.


class C02(LockCheck):
    """Errors: every call with arguments of every sort and with host errors at every system call, judged by errno."""
    id = 'C02'
    runs = {'quick': 6000, 'thorough': 150000}
    cats = {'errno', 'exc', 'hang', 'probe', 'fail', 'success', 'setup'}
    finish = .1
    rule = ('one evaluation is one session of 25-45 guest calls on a seeded tree, with arguments that are often '
            'malformed and (in most sessions) host errors injected at seeded system calls inside the calls; every '
            'return value is compared with the set of errnos the reference model (or the injected error) allows. '
            'Counted as distinct: sessions with at least one successful call and a different trace of results, system '
            'calls and faults. Every third session is about one call, taken in turn, which meets the errnos of each of '
            'its system calls in turn.')

    def gen(self, rng, tier, i):
        spec = LockCheck.gen(self, rng, tier, i)
        if i % 3 == 0:
            j = i // 3
            op = FOCUS[j % len(FOCUS)]
            spec['conf'] = {'name': 'focused', 'focus': op, 'turn': j // len(FOCUS), 'socks': op.startswith('sock')}
            if op.startswith('sock') and not spec['init'].get('socks'):
                spec['init']['socks'] = socks(rng)
        return spec

    def next_op(self, g, rng, s, spec, i):
        f = spec['conf'].get('focus')
        if f and i >= self.prelude and rng.random() < .6:
            return g.op(f)
        return LockCheck.next_op(self, g, rng, s, spec, i)

    def decorate(self, g, rng, s, spec, op):
        c = spec['conf']
        if c.get('focus') == op['op']:
            if rng.random() < .8:
                op['faults'] = [['*', rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7]), 'err', c['turn']]]
                c['turn'] += 1
            return op
        return LockCheck.decorate(self, g, rng, s, spec, op)

    def configs(self, rng):
        return rng.choices([{'name': 'plain', 'socks': rng.random() < .3},
                            {'name': 'faults', 'faults': rng.choice([.2, .5, .9]), 'kinds': ('err',),
                             'socks': rng.random() < .3}], [1, 2])[0]

    def init(self, rng):
        i = LockCheck.init(self, rng)
        if rng.random() < .3:
            i['socks'] = socks(rng)
        if rng.random() < .2:
            i['fd_limit'] = rng.choice([9, 10, 12])
        if rng.random() < .06:
            i['fd_floor'] = rng.choice([1018, 1020, 1022, 1024, 1100])
        return i

    def tune(self, g, rng):
        g.weird = rng.choice([.06, .2])
        g.badfd = rng.choice([.02, .1])
        g.wild_ints = rng.choice([0, .05, .2])
        if g.s.init.get('socks'):
            self.mix = dict(MIX, **SOCKMIX)
        else:
            self.mix = MIX

    def relevant(self, cat, info):
        return cat in self.cats and not (info or {}).get('op', {}).get('ptr')


CHECK = C02()
