"""The shape shared by the checks that run calls in lockstep with the reference model."""
import random

from . import gen as G
from .engine import Session
from .kernel import SimUnsupported
from .runner import Base, Run

# Calls that every lockstep session may use to get somewhere.
MIX = {
    'path_open': 12, 'fd_close': 3, 'fd_read': 4, 'fd_write': 5, 'fd_pread': 2, 'fd_pwrite': 2, 'fd_seek': 3,
    'fd_tell': 1, 'fd_allocate': 1, 'fd_filestat_set_size': 1.5, 'fd_fdstat_set_flags': 1.5, 'fd_fdstat_get': 1,
    'fd_fdstat_set_rights': .7, 'fd_filestat_get': 1.5, 'fd_filestat_set_times': 1, 'fd_sync': .7, 'fd_datasync': .7,
    'fd_advise': .4, 'fd_prestat_get': .3, 'fd_prestat_dir_name': .3, 'fd_readdir': 1, 'fd_renumber': 1.2,
    'path_create_directory': 2, 'path_filestat_get': 2, 'path_filestat_set_times': 1.5, 'path_link': 2,
    'path_readlink': 1.5, 'path_remove_directory': 1.5, 'path_rename': 2.5, 'path_symlink': 2, 'path_unlink_file': 2,
    'clock_time_get': .3, 'clock_res_get': .2, 'random_get': .3, 'proc_raise': .1, 'sched_yield': .1, 'args_get': .1,
    'args_sizes_get': .1, 'environ_get': .1, 'environ_sizes_get': .1,
}


SOCKMIX = {'sock_accept': 3, 'sock_recv': 4, 'sock_send': 4, 'sock_shutdown': 1}
KINDS = ('listen', 'stream', 'dgram', 'pipe_r', 'pipe_w')


def socks(rng, kinds=KINDS, rights=False):
    """Sockets and pipes handed to the guest by the embedder."""
    out = []
    for i in range(rng.choice([1, 2, 2, 3])):
        d = {'kind': rng.choice(kinds), 'as': 's%d' % i}
        if rng.random() < .5:
            d['nb'] = 1
        if d['kind'].startswith('pipe'):
            d['data'] = G.content(rng)
        if d['kind'] != 'listen' and rng.random() < .4:
            d['cap'] = rng.choice([1, 5, 40])
        if rights and rng.random() < .5:
            d['rights'] = rng.getrandbits(30)
        out.append(d)
    return out


class LockCheck(Base):
    mix = MIX
    nops = (25, 45)
    ops_of_interest = None          # calls whose violations this check reports; None for all
    cats_any = ()                   # categories reported for every call
    prelude = 3                     # path_opens to begin with
    retry = .5                      # probability of repeating a call that failed by a fault
    look = 0.0                      # probability of looking at the descriptors after any other failure
    finish = 0.0                    # probability of running the entry point to its end as well
    endings = ['ret', 'exit:0', 'exit:3', 'trap', 'depth']

    def configs(self, rng):
        """-> dict(faults=prob, kinds=(...), name=...)"""
        return {'name': 'plain'}

    def init(self, rng):
        return G.world(rng)

    def tune(self, g, rng):
        pass

    def gen(self, rng, tier, i):
        spec = {'init': self.init(rng), 'gseed': rng.randrange(1 << 60), 'conf': self.configs(rng),
                'nops': rng.randint(*self.nops)}
        if rng.random() < self.finish:
            spec['ending'] = rng.choice(self.endings)
        return spec

    def next_op(self, g, rng, s, spec, i):
        if i < self.prelude:
            return g.op('path_open')
        return g.op(G.weighted(rng, self.mix))

    def decorate(self, g, rng, s, spec, op):
        c = spec['conf']
        if c.get('faults'):
            g.faults(op, c['faults'], c.get('kinds', ('err',)))
        return op

    def run(self, spec):
        r = Run()
        s = Session(spec['init'], spec.get('ending', 'ret'))
        t0 = s.k.mono
        r.config = spec['conf']['name']
        r.vio += s.vio
        if 'ops' in spec:
            todo = iter(spec['ops'])
            rng = g = None
        else:
            rng = random.Random(spec['gseed'])
            g = G.Gen(rng, s)
            self.tune(g, rng)
            spec['ops'] = []
            todo = None
        i = 0
        again = None
        while not s.dead:
            if todo is not None:
                op = next(todo, None)
                if op is None:
                    break
            else:
                if i >= spec['nops']:
                    break
                if again is not None:
                    op, again = again, None
                else:
                    op = self.next_op(g, rng, s, spec, i)
                    if op is None:
                        break
                    if not op['op'].startswith('h_') and not op.get('retry'):
                        op = self.decorate(g, rng, s, spec, op)
            i += 1
            if self.skip(r, s, op):
                continue
            if not op['op'].startswith('h_') and s.blocks(op):
                r.probe('skipped: would block')
                continue
            if todo is None:
                spec['ops'].append(op)
            self.before(r, s, op)
            bad = s.run_op(op, race=self.race(spec))
            r.vio += bad
            self.observe(r, s, op, bad)
            if todo is None and op.get('faults') and s.last_fired and s.last.kind == 'ret' and s.last.val != 0 and \
                    rng.random() < self.retry and not op.get('retry'):
                again = {k: v for k, v in op.items() if k not in ('faults', 'hooks')}
                if 'as' in again:
                    again['as'] = g.label()
                again['retry'] = 1
                if rng.random() < .3 and 'fd' in op:
                    again = {'op': 'fd_fdstat_get', 'fd': op['fd'], 'retry': 1}
                r.probe('retried after a failure')
            elif todo is None and self.look and not op['op'].startswith('h_') and not op.get('retry') and \
                    s.last.kind == 'ret' and s.last.val and rng.random() < self.look:
                # what the guest itself can see of the descriptors a failed call was about
                fds = [op[f] for f in ('fd', 'fd2') if f in op]
                if fds:
                    again = {'op': rng.choice(['fd_fdstat_get', 'fd_fdstat_get', 'fd_fdstat_get', 'fd_tell',
                                               'fd_filestat_get', 'fd_prestat_get', 'fd_prestat_dir_name']),
                             'fd': rng.choice(fds), 'retry': 1}
                    if again['op'] == 'fd_prestat_dir_name':
                        again['len'] = 100
                    r.probe('looked at a descriptor after a failure')
        if not s.dead:
            n = len(s.vio)
            self.end(r, s, spec, rng, g)
            r.vio += s.vio[n:]
        if 'ending' in spec and not s.dead:
            r.vio += s.finish(spec.get('endfaults', ()))
            r.probe('ran to the end')
            r.trace.append(('main', s.end[0]))
        r.take(s)
        r.dead = s.dead
        r.sim_ns = s.k.mono - t0
        return r

    def race(self, spec):
        return False

    def end(self, r, s, spec, rng, g):
        pass

    def skip(self, r, s, op):
        return False

    def before(self, r, s, op):
        pass

    def observe(self, r, s, op, bad):
        if op['op'].startswith('h_'):
            r.trace.append((op['op'],))
            r.interference += 1
            return
        res = s.last
        r.trace.append((op['op'], s.show(res) if res.kind == 'ret' else res.kind, res.sys,
                        [tuple(f) for f in s.last_fired], s.last_ran))
        r.interference += s.last_ran
        if s.raced:
            r.probe('outcome explained by no sequential order')
        if res.kind == 'ret':
            r.probe('%s %s' % (op['op'], 'ok' if res.val == 0 else 'error'))
            if res.val == 0:
                r.nontrivial = True
        if s.last_fired:
            r.probe('calls with a fault')
            if res.kind == 'ret' and res.val == 0:
                r.probe('calls that survived a fault')

    def relevant(self, cat, info):
        if cat in self.cats_any:
            return True
        if self.cats is not None and cat not in self.cats:
            return False
        name = (info or {}).get('op', {}).get('op')
        return self.ops_of_interest is None or name in self.ops_of_interest
