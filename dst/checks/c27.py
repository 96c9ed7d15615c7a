"""C27: debug logging never changes what a program does."""
import copy
import random

from ..kernel import SimHang, SimUnsupported
from ..runner import Base, Run, load
from ..world import LogSink, World

# Sessions of other checks whose faults and schedules are placed by system calls or by the sequence of operations, and
# not by the interpreter's events, of which logging has its own.
FAMILIES = [('C02', 3), ('C03', 1), ('C05', 2), ('C07', 1), ('C10', 1), ('C11', 1), ('C17', 3), ('C19', 1), ('C13', 3),
            ('C14', 2), ('C16', 3), ('C21', 3)]


class C27(Base):
    """The same simulated execution twice, with the log off and on."""
    id = 'C27'
    runs = {'quick': 2500, 'thorough': 30000}
    cats = {'log'}
    stub = Base.stub + '; the stream the log is printed to; the date in it is the real one'
    rule = ('one evaluation is one simulated execution of a session of another check (files, sockets, polls, program runs, '
            'module loads, linked instances, traps, with their faults) made twice from the same seed: with debug logging off, '
            'and with it on while the log stream works, breaks after a seeded number of writes (EPIPE, ENOSPC, EAGAIN, closed) '
            'or cannot encode a character. Results, system calls, fault positions, host state and every difference from '
            'the reference have to be the same. Counted as distinct: executions with a successful call and a different '
            'trace.')
    assumptions = Base.assumptions + ['interrupts at interpreter events, failing allocations and threads are left out, as '
                                      'logging has such events of its own']

    def gen(self, rng, tier, i):
        name = rng.choices([f for f, _ in FAMILIES], [w for _, w in FAMILIES])[0]
        c = load(name)
        while True:
            spec = c.gen(rng, tier, i)
            conf = spec.get('conf')
            if not isinstance(conf, dict) or not (conf.get('intr') or conf.get('oom') or conf.get('name') == 'recursion'):
                break
        if 'nops' in spec:
            spec['nops'] = min(spec['nops'], 20)
        fail = rng.choice([None, None, 'EPIPE', 'ENOSPC', 'EAGAIN', 'closed', 'ascii'])
        return {'check': name, 'spec': spec, 'fail': fail,
                'nth': rng.choice([1, 1, 2, 3, 10, rng.randint(1, 100), rng.randint(1, 3000)])}

    def inner(self, spec, sink):
        World.log = sink
        try:
            return load(spec['check']).run(spec['spec'])
        finally:
            World.log = None

    def run(self, spec):
        r = Run()
        r.config = spec['check'] + (' with a failing log' if spec['fail'] else '')
        a = self.inner(spec, None)
        sink = LogSink(spec['fail'], spec['nth'])
        try:
            b = self.inner(copy.deepcopy(spec), sink)
        except (SimUnsupported, SimHang):
            raise
        except Exception as e:
            r.vio.append(('log', 'a session of %s cannot be set up with logging on: %r' % (spec['check'], e), {}))
            return r
        r.trace = [spec['check'], a.trace]
        r.ops, r.sim_ns, r.interference, r.nontrivial = a.ops, a.sim_ns, a.interference, a.nontrivial
        r.dead = a.dead
        for k, v in a.faults.items():
            r.faults[k] = v
        if sink.failed:
            r.faults['log:' + spec['fail']] = sink.failed
        r.probe('lines of log', sink.n)
        r.probe('executions with a log', bool(sink.n))
        if repr(a.trace) != repr(b.trace):
            j = next((j for j, (x, y) in enumerate(zip(a.trace, b.trace)) if repr(x) != repr(y)),
                     min(len(a.trace), len(b.trace)))
            x, y = ([repr(t[j])[:150] if j < len(t) else 'nothing more' for t in (a.trace, b.trace)])
            r.vio.append(('log', 'step %d of a session of %s ends differently with logging on: %s, without: %s' %
                          (j, spec['check'], y, x), self.info(spec, j, b)))
        else:
            va, vb = ([repr(v[:2]) for v in t.vio] for t in (a, b))
            if va != vb:
                new = [v for v in vb if v not in va] or [v for v in va if v not in vb] or vb
                r.vio.append(('log', 'with logging on a session of %s differs: %s' % (spec['check'], new[0][:300]),
                              self.info(spec, None, b)))
        return r

    def info(self, spec, j, b):
        ops = spec['spec'].get('ops') or []
        op = ops[j] if j is not None and j < len(ops) and isinstance(ops[j], dict) else {}
        return {'op': {k: v for k, v in op.items() if k != 'mod'}}

    def parts(self, spec):
        return [('spec',) + p for p in load(spec['check']).parts(spec['spec'])]

    def simplify(self, spec):
        for s in load(spec['check']).simplify(spec['spec']):
            yield dict(spec, spec=s)
        if spec['fail']:
            yield dict(spec, fail=None)


CHECK = C27()
