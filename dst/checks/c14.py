"""C14: memories and tables grow only within their limits and never move data."""
from ..vm import VMCheck


class C14(VMCheck):
    id = 'C14'
    runs = {'quick': 3000, 'thorough': 60000}
    rule = ('Sizes, contents, results of grow and traps equal those of the reference interpreter for every sequence of '
            'grow, load, store, fill, copy, init, get and set at and around the limits, through every instance that '
            'shares the object; when host allocations fail, exactly the grows that needed them return -1 and change '
            'nothing.')

    def conf(self, rng):
        k = rng.choice(['plain', 'plain', 'no memory', 'no memory', 'shared'])
        c = {'name': k, 'ops': {'hgrow': 1, 'access': 1}, 'behs': {'growm': 4, 'poke': 3}, 'opts': {'mem': 1},
             'w': {'mgrow': 3, 'tgrow': 2.5, 'msize': 1.5, 'tsize': 1.5, 'ld': 6, 'st': 7, 'vst': 3, 'vld': 3, 'fill': 2,
                   'copy': 2, 'init': 1.5, 'tfill': 1.5, 'tcopy': 1.5, 'tinit': 1.2, 'tset': 2, 'oob': .05, 'edge': .5,
                   'badidx': .06, 'biggrow': .25, 'call': 1, 'calli': .5}}
        if k == 'no memory':
            c['oom'] = .5
        if k == 'shared':
            c.update(link_m=.8, link_t=.8, link_f=.2)
        return c


CHECK = C14()
