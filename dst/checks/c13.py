"""C13: a trap or failed call never corrupts later calls."""
from ..vm import VMCheck


class C13(VMCheck):
    id = 'C13'
    runs = {'quick': 3000, 'thorough': 60000}
    rule = ('After every call, instantiation or start function that traps, exhausts the stack, is left by a host exception '
            'or interrupted at an arbitrary interpreter event, all memories, tables, globals, segments and host calls '
            'equal those of the reference interpreter stopped after some effect (after the last one for traps), and all '
            'later calls on the runtime give the results the reference gives from there; recursion reaches the same '
            'depth after any number of failures.')

    def conf(self, rng):
        k = rng.choice(['traps', 'traps', 'interrupts', 'interrupts', 'grow interrupts', 'recursion', 'quiet'])
        c = {'name': k, 'ops': {'rec': 0, 'call': 14}}
        if k == 'traps':
            c['behs'] = {'raise': 5}
            c['w'] = {'trap': .5, 'oob': .06, 'badidx': .06}
        elif k == 'interrupts':
            c['intr'] = .4
        elif k == 'grow interrupts':
            c['intr'] = .6
            c['w'] = {'mgrow': 4, 'tgrow': 3, 'fill': 2, 'tfill': 2}
        elif k == 'recursion':
            c['ops'] = {'rec': 6, 'call': 8}
            c['intr'] = .15
        return c


CHECK = C13()
