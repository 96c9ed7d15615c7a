"""C15: instances and runtimes do not influence each other."""
import gc
import random

from .. import gen as G
from ..engine import Session
from ..lock import MIX, SOCKMIX, socks
from ..runner import Run
from ..vm import VMCheck
from ..world import cur

WMIX = dict(MIX, args_get=2, args_sizes_get=1, environ_get=2, environ_sizes_get=1, fd_prestat_get=1.5,
            fd_prestat_dir_name=1.5, random_get=.5, fd_write=7, fd_read=5, fd_close=4, fd_renumber=2)


class C15(VMCheck):
    id = 'C15'
    runs = {'quick': 2600, 'thorough': 60000}
    real = VMCheck.real + ', pywasm/wasi.py'
    stub = 'the embedder, host functions; the thread scheduler; for WASI contexts the simulated kernel (dst/kernel.py)'
    rule = ('one evaluation is one process with several instances of the same parsed modules in one to three runtimes, '
            'whose instantiations, calls, traps, interrupts, drops and re-entries across runtimes are interleaved in '
            'seeded order, or run in threads that are switched at seeded lines of the code under test; everything each '
            'instance shows is compared with the reference, in which they are separate. Or two or three WASI contexts '
            'with their own arguments, environment, directories and captures (in one runtime or several), whose calls '
            'and endings are interleaved and nested at system calls, each compared with its own reference model. Counted '
            'as distinct: runs with at least one successful call and a different trace.')

    def conf(self, rng):
        k = rng.choice(['one runtime', 'several', 'nested', 'threads', 'threads', 'failing'])
        c = {'name': k, 'rts': rng.choice([2, 3]), 'link_f': .3, 'link_t': 0, 'link_m': 0, 'link_g': 0, 'insts': 7,
             'ops': {'mod': 2, 'again': 6, 'forget': .6, 'newrt': .3, 'poke': 1, 'gset': 1, 'tset': 1},
             'w': {'ddrop': 1, 'edrop': 1, 'init': 2, 'tinit': 2, 'mgrow': 1.5, 'tgrow': 1.2, 'gs': 3, 'st': 4,
                   'tset': 2}}
        if k == 'one runtime':
            c['rts'] = 1
            c['ops']['newrt'] = .1
        elif k == 'nested':
            c.update(cross=.8, newhost=.8, link_f=.7, behs={'reenter': 8, 'reenter_catch': 6, 'raise': 2})
        elif k == 'threads':
            c['ops'].update(par=10, call=5)
            c['opts'] = {'stmts': [1, 4]}
        elif k == 'failing':
            c['opts'] = {'start': .5, 'badseg': .25}
            c['w'].update(trap=.5, oob=.05)
            c['behs'] = {'raise': 5}
            c['intr'] = .08
        return c

    def gen(self, rng, tier, i):
        if rng.random() < .35:
            return self.gen_wasi(rng)
        return VMCheck.gen(self, rng, tier, i)

    # ---- WASI contexts -------------------------------------------------------------------------------------------
    def gen_wasi(self, rng):
        inits = []
        kind = rng.choice([None, 'data', 'two'])
        for j in range(rng.choice([2, 2, 3])):
            i = G.world(rng, kind, rich=rng.random() < .3)
            i['host_fds'] = 2 + 2 * j
            i['args'] = ['prog%d' % j] + ['a%d' % rng.randrange(9) for _ in range(rng.randrange(3))]
            i['envs'] = {rng.choice('ABCD'): 'v%d' % j for _ in range(rng.randrange(3))}
            i['stdin'] = 'input of %d' % j
            i['caps'] = [c for c in (0, 1, 2) if rng.random() < .5]
            if rng.random() < .2:
                i['socks'] = socks(rng)
            inits.append(i)
        return {'part': 'wasi', 'inits': inits, 'gseed': rng.randrange(1 << 60), 'nops': rng.randint(20, 45),
                'shared': rng.random() < .5, 'nest': rng.choice([0, .3, .6]),
                'endings': [rng.choice(['ret', 'exit:0', 'exit:3', 'trap', 'depth']) for _ in inits],
                'conf': {'name': 'wasi contexts'}}

    def run(self, spec):
        if spec.get('part') != 'wasi':
            return VMCheck.run(self, spec)
        r = Run()
        r.config = 'wasi contexts, one runtime' if spec['shared'] else 'wasi contexts'
        ss = []
        for init, end in zip(spec['inits'], spec['endings']):
            s = Session(init, end, ss[0].w if ss else None, ss[0].runtime if ss and spec['shared'] else None)
            ss.append(s)
            r.vio += s.vio
            s.gone = False
        made = 'ops' not in spec
        rng = random.Random(spec['gseed']) if made else None
        if made:
            gens = [G.Gen(rng, s) for s in ss]
            for g in gens:
                g.stale, g.badfd, g.std = .08, .05, .3
            spec['ops'] = []
        todo = iter(spec['ops']) if not made else None
        t0 = [s.k.mono for s in ss]
        n = 0
        while not r.vio and not any(s.dead for s in ss):
            if made:
                if n >= spec['nops']:
                    break
                n += 1
                op = self.wop(rng, ss, gens, spec)
            else:
                op = next(todo, None)
            if op is None:
                break
            s = ss[op['s']]
            if s.gone:
                continue
            if op['op'] == 'end':
                if made:
                    spec['ops'].append(op)
                s.gone = True
                r.vio += s.finish()
                r.trace.append((op['s'], 'end', s.end[0]))
                r.probe('context ended')
                continue
            if s.blocks(op):
                continue
            inner = {}
            for at, o in op.get('inner', []):
                if ss[o['s']] is not s and not ss[o['s']].gone:
                    inner.setdefault(at, []).append(o)
            if made:
                spec['ops'].append(op)
            self.wcall(r, ss, s, op, inner)
        for s in ss:
            if not s.gone and not s.dead and not r.vio:
                s.gone = True
                r.vio += s.finish()
                r.trace.append(('end', s.end[0]))
        for s, t in zip(ss, t0):
            r.take(s)
            r.sim_ns += s.k.mono - t
        return r

    def wcall(self, r, ss, s, op, inner):
        cnt = [0]
        if inner:
            def yielder(name):
                cnt[0] += 1
                for o in inner.pop(cnt[0], ()):
                    t = ss[o['s']]
                    if t.gone or t.dead or t.blocks(o):
                        continue
                    r.probe('nested calls')
                    r.interference += 1
                    bad = t.run_op(o)
                    r.vio += bad
                    r.trace.append((o['s'], o['op'], t.show(t.last) if t.last.kind == 'ret' else t.last.kind))
                    cur.k = s.k
                    if op['op'].startswith('sock_'):
                        # what the model left behind must not keep this call's objects alive
                        gc.collect()
            s.k.yielder = yielder
        try:
            bad = s.run_op({k: v for k, v in op.items() if k != 'inner'})
        finally:
            s.k.yielder = None
        r.vio += bad
        res = s.last
        r.trace.append((op['s'], op['op'], s.show(res) if res.kind == 'ret' else res.kind, res.sys))
        if res.kind == 'ret':
            r.probe('wasi calls %s' % ('ok' if res.val == 0 else 'with an error'))
            if res.val == 0:
                r.nontrivial = True

    def wop(self, rng, ss, gens, spec):
        live = [j for j, s in enumerate(ss) if not s.gone]
        if not live:
            return None
        j = rng.choice(live)
        if rng.random() < .02:
            return {'op': 'end', 's': j}

        def one(j):
            mix = dict(WMIX, **SOCKMIX) if ss[j].init.get('socks') else WMIX
            op = gens[j].op(G.weighted(rng, mix))
            op['s'] = j
            return op
        op = one(j)
        if rng.random() < spec['nest'] and len(live) > 1:
            op['inner'] = [[rng.choice([1, 1, 2, 3, 4]), one(rng.choice([x for x in live if x != j]))]
                           for _ in range(rng.choice([1, 1, 2]))]
        return op

    def parts(self, spec):
        if spec.get('part') != 'wasi':
            return VMCheck.parts(self, spec)
        return [('ops',)] + [('ops', i, 'inner') for i, o in enumerate(spec.get('ops', [])) if o.get('inner')]

    def simplify(self, spec):
        return [] if spec.get('part') == 'wasi' else VMCheck.simplify(self, spec)


CHECK = C15()
