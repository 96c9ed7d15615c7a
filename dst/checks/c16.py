"""C16: a damaged or interrupted module file is never half-loaded."""
from ..vm import VMCheck


class C16(VMCheck):
    id = 'C16'
    runs = {'quick': 3000, 'thorough': 80000}
    nops = (8, 18)
    stub = VMCheck.stub + '; files, descriptors and pipes of the simulated kernel (dst/kernel.py)'
    rule = ('one evaluation is one process that loads generated modules from simulated files, again and again: cut at '
            'any byte, missing, a directory, cut or replaced by another process during the load, with reads that fail, '
            'are short or interrupted, with failing allocations and interrupts at seeded points, by path or through a '
            'buffered, unbuffered or non-blocking reader. Judged by the bytes the simulated kernel served: an error '
            'unless they are a complete module and no read failed; an instance equal to the reference otherwise; no '
            'descriptor left; every other instance unchanged and still in step with the reference. Counted as distinct: '
            'runs with at least one successful call or load and a different trace.')

    def conf(self, rng):
        k = rng.choice(['files', 'files', 'bare', 'interrupts', 'memory', 'healthy'])
        c = {'name': k, 'rts': rng.choice([1, 1, 2]), 'insts': 4, 'byfile': .8, 'link_f': .4, 'link_t': .2, 'link_m': .3,
             'link_g': .4, 'ops': {'mod': 3, 'load': 6, 'call': 5, 'corrupt': 2, 'again': .3},
             'opts': {'nodc': .5, 'bare': .3, 'start': .3, 'funcs': [1, 4], 'stmts': [1, 4], 'badseg': .08}}
        if k == 'bare':
            c['opts'].update(nodc=1, bare=.8)
            c.update(link_f=.05, link_t=.02)
        elif k == 'interrupts':
            c['intr'] = .5
        elif k == 'memory':
            c['oom'] = .5
        elif k == 'healthy':
            c['ops']['corrupt'] = 0
        return c


CHECK = C16()
