import struct

from .. import gen as G
from ..gen import DIR_RIGHTS, FILE_RIGHTS
from ..kernel import NS
from ..lock import LockCheck, socks
from ..refwasi import U64

SLACK = 2_100_000           # what rounding a timeout up to whole milliseconds may add


class C10(LockCheck):
    """Polls under virtual time: peers, clock changes, early and late wake-ups at chosen instants."""
    id = 'C10'
    runs = {'quick': 6000, 'thorough': 150000}
    nops = (8, 24)
    prelude = 2
    rule = ('one evaluation is one session of 8-24 calls, most of them poll_oneoff with up to 7 subscriptions on '
            'clocks, files, directories, sockets, pipes, standard and captured streams, while peers send, drain, '
            'connect, close and reset and the wall clock is set at chosen instants of virtual time and the host wakes '
            'up early or late. Events, count, memory and the virtual time of the return are judged. Counted as '
            'distinct: sessions with at least one successful call and a different trace of results, system calls, '
            'faults and interference.')

    def configs(self, rng):
        return rng.choices([{'name': 'plain'}, {'name': 'peers', 'peers': .8}, {'name': 'peers+clock', 'peers': .6, 'jumps': .6},
                            {'name': 'wakeups', 'peers': .6, 'wake': .7}, {'name': 'errors', 'peers': .5, 'faults': .3, 'kinds': ('err',)},
                            {'name': 'everything', 'peers': .6, 'jumps': .3, 'wake': .5, 'faults': .1, 'kinds': ('err',)}],
                           [1, 3, 3, 3, 1, 2])[0]

    def init(self, rng):
        i = G.world(rng, kind=rng.choice(['data', 'dot']), rich=False)
        i['socks'] = socks(rng) + socks(rng)[:1]
        for j, d in enumerate(i['socks']):
            d['as'] = 's%d' % j
            if d['kind'] == 'pipe_r' and rng.random() < .6:
                d['data'] = ''
        i['latency'] = rng.choice([1, 1000, 100_000])
        i['caps'] = rng.choice([[], [], [0], [1], [0, 1, 2]])
        i['stdin'] = rng.choice(['', 'input'])
        i['jitter'] = rng.choice([0, 0, 60_000, 4_000_000])
        if rng.random() < .06:
            i['fd_floor'] = rng.choice([1018, 1020, 1022, 1024, 1100])
        return i

    def tune(self, g, rng):
        g.weird, g.escape, g.badfd = .02, .02, .02
        g.full_rights = .9
        g.pipes = .7

    def dur(self, rng):
        return rng.choice([0, 1, 999, 1000, 1001, 100_000, 1_000_000, 1_500_001, 10 ** 7, NS, NS + 1, 90 * NS, 3600 * NS, 3601 * NS + 7,
                           5 * 3600 * NS, 40 * 86400 * NS, rng.randrange(1, 10 ** 9), rng.randrange(1, 10 ** 12)])

    def peer(self, rng, g):
        fds = g.fds(lambda x: x.type in (0, 5, 6) and not x.std) or ['s0']
        return {'op': 'h_peer', 'fd': rng.choice(fds), 'act': rng.choice(['send', 'send', 'send', 'connect', 'connect', 'drain', 'close', 'shut', 'reset']),
                'data': rng.choice(['x', 'hello', '', 'z' * 60])}

    def sub(self, rng, g, s, base):
        ud = rng.choice([0, 1, U64, rng.getrandbits(64), 7])
        x = rng.random()
        if x < .45:
            cid = rng.choice([0, 0, 1, 1, 1])
            d = self.dur(rng)
            o = {'ud': ud, 'type': 0, 'id': cid, 't': d, 'flags': 0, 'prec': rng.choice([0, 1, 10 ** 6, U64])}
            if rng.random() < .5:
                now = s.k.wall_now() if cid == 0 else s.k.mono
                o['flags'] = 1
                o['t'] = max(0, now + rng.choice([1, 1, 1, -1]) * d)
            if rng.random() < .04:
                o['t'] = rng.choice([U64, 1 << 63, (1 << 63) - 1])
            if rng.random() < .05:
                o['id'], o['t'], o['flags'] = rng.choice([2, 3]), 0, rng.choice([0, 1])
            if rng.random() < .5:
                o['pad'] = rng.getrandbits(32)
            return o
        fds = g.fds()
        fd = rng.choice(fds) if fds and rng.random() > g.badfd else rng.choice([99, -1, 1 << 31])
        return {'ud': ud, 'type': rng.choice([1, 1, 2]), 'fd': fd}

    def next_op(self, g, rng, s, spec, i):
        c = spec['conf']
        if i == 0:
            s.watch_ready = True
            s.k.sleep_jitter = spec['init']['jitter']
        if i < self.prelude:
            o = g.op('path_open')
            o.update({'path': rng.choice(['f0', 'd0']), 'ofl': 0, 'base': rng.choice([FILE_RIGHTS, DIR_RIGHTS, G.R['POLL_FD_READWRITE']])})
            return o
        x = rng.random()
        if x < .15:
            return self.peer(rng, g)
        if x < .35:
            return g.op(rng.choice(['sock_accept', 'sock_recv', 'sock_send', 'fd_read', 'fd_write', 'fd_close', 'fd_renumber',
                                    'sock_shutdown', 'fd_fdstat_set_rights', 'path_open']))
        subs = [self.sub(rng, g, s, 0) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 7]))]
        op = {'op': 'poll_oneoff', 'subs': subs}
        if rng.random() < .03:
            subs[rng.randrange(len(subs))]['type'] = rng.choice([3, 4, 255])
        if rng.random() < .03:
            z = [q for q in subs if q['type'] == 0]
            if z:
                z[0]['id'] = rng.choice([4, 5, 0xffffffff, 1 << 31])
        if rng.random() < .03:
            op['subs'] = []
        elif rng.random() < .03:
            op['n'] = rng.choice([0, 0x10000000, 0xffffffff, 1 << 31, 2000, max(1, len(subs) - 1)])
        t = [0]
        later = []
        if rng.random() < c.get('peers', 0):
            for _ in range(rng.choice([1, 1, 2, 3])):
                later.append([self.dur(rng) if rng.random() < .5 else rng.randrange(1, 3 * NS), self.peer(rng, g)])
        if rng.random() < c.get('jumps', 0):
            for _ in range(rng.choice([1, 1, 2])):
                later.append([rng.choice([1, 10 ** 6, rng.randrange(1, 3 * NS), rng.randrange(1, 10 ** 12)]),
                              {'op': 'h_jump', 'ns': rng.choice([-1, 1]) * rng.choice([1, 10 ** 6, NS, 3 * NS, 3600 * NS, 86400 * NS])}])
        if later:
            op['later'] = sorted(later, key=lambda x: x[0])
        return op

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if op['op'] == 'poll_oneoff' and rng.random() < spec['conf'].get('wake', 0):
            op['faults'] = op.get('faults', []) + [
                [['select', 'sleep'][0], k, rng.choice(['early', 'early', 'late']), rng.choice([0, .1, .5, .9, .999])]
                for k in sorted(rng.sample([1, 2, 3, 4], rng.choice([1, 1, 2, 3])))]
            for f in op['faults']:
                if f[2] == 'late':
                    f[3] = rng.choice([1, 10 ** 6, 10 ** 8, 5 * NS])
        return op

    # ---- what has to happen
    def deadline(self, s, sub, t0):
        """When a clock subscription is due: (latest justified moment on the monotonic clock, None if never known)."""
        ud, typ, cid, t, absolute, _ = sub
        wall0, mono0, cpu0, thr0 = t0
        if cid == 0 and absolute:
            # the wall clock may be set during the wait; each setting moves the deadline
            offs = [w for _, w, _ in s.ticks]
            return max(t - o for o in offs)
        if cid in (0, 1):
            return t if absolute else mono0 + t
        return None

    def due(self, s, sub, res):
        """Whether a clock subscription may be reported at the end of the call."""
        ud, typ, cid, t, absolute, _ = sub
        now, was = res.t1[cid], res.t0[cid]
        if absolute:
            # the wall clock may have shown the time before it was set back
            return now >= t or cid == 0 and any(b >= t for _, b in s.segs)
        if cid == 0:
            return res.t1[1] - res.t0[1] >= t or now - was >= t
        return now - was >= t

    def wait(self, s, op):
        """Whether the poll waits for ever (it is not made then)."""
        try:
            out, res = self.predict(s, op)
        except Exception:
            return False
        if out is None or out.errs is not None:
            return False
        subs = out.note[1]
        k = s.k
        for ud, typ, cid, t, absolute, oid in subs:
            if typ == 0:
                d = t - (k.wall_now(), k.mono, k.cpu, k.thr)[cid] if absolute else t
                if d <= 0 or cid < 2 and d < 60 * 86400 * NS:
                    return False
            elif oid == 'cap':
                return False
            else:
                o = s.find(k, oid)
                if o is None or (k.readable(o) if typ == 1 else k.writable(o)):
                    return False
        # only what peers do later can end it
        kk = k.clone()
        kk.actor = 'hook'
        from ..engine import RAW
        for _, raw in op.get('later', []):
            RAW[raw['op']](s, raw, kk)
        for ud, typ, cid, t, absolute, oid in subs:
            if typ != 0:
                o = s.find(kk, oid)
                if kk.readable(o) if typ == 1 else kk.writable(o):
                    return False
        return True

    def predict(self, s, op):
        from ..engine import Enc
        from ..refwasi import Mem, Oob
        enc = Enc(op, s.labels, s.n)
        try:
            return s.ref.predict('poll_oneoff', s.norm('poll_oneoff', enc.args), Mem(enc.img), s.k.clone()), None
        except Oob:
            return None, None

    def skip(self, r, s, op):
        if op['op'] == 'poll_oneoff' and self.wait(s, op):
            r.probe('skipped: nothing would ever be ready')
            return True
        return False

    def before(self, r, s, op):
        if not s.watch_ready:
            s.watch_ready = True
            s.k.sleep_jitter = s.init['jitter']

    def observe(self, r, s, op, bad):
        LockCheck.observe(self, r, s, op, bad)
        if op['op'] != 'poll_oneoff':
            return
        r.trace.append(s.last.t1)
        res, out = s.last, s.out
        info = {'op': op, 'n': s.n, 'result': s.show(res), 'fired': s.last_fired}

        def fault(msg):
            r.vio.append(('poll', msg, info))
        late = sum(f[3] for f in s.last_fired if f[2] == 'late')
        spent = (res.sys + 4) * s.k.latency + late + s.k.sleep_jitter * (res.sys + 1) + SLACK
        if res.kind == 'ret' and (out is None or out.errs is not None or res.val != 0):
            if res.t1[1] - res.t0[1] > spent and res.val and out is not None and out.errs is not None:
                fault('reported an error only after %d ns' % (res.t1[1] - res.t0[1]))
            return
        if res.kind != 'ret' or out is None or not isinstance(out.note, tuple):
            return
        _, subs, ev, cnt = out.note
        n = struct.unpack('<I', res.mem[cnt:cnt + 4])[0]
        if not 1 <= n <= len(subs):
            fault('%d events for %d subscriptions' % (n, len(subs)))
            return
        # nothing behind the declared events
        from ..engine import canary
        end = ev + 32 * n
        if res.mem[end:ev + 32 * len(subs)] != canary(s.n)[end:ev + 32 * len(subs)]:
            fault('wrote behind the %d events it reports' % n)
        k = s.k
        ready, must = {}, {}
        steady = len({w for _, w, _ in s.ticks} | {k.wall}) <= 1
        for sub in subs:
            ud, typ, cid, t, absolute, oid = sub
            if typ == 0:
                ok = self.due(s, sub, res)
                d = self.deadline(s, sub, res.t0)
                sure = d is not None and d <= res.t0[1] and (cid or steady)
            elif oid == 'cap':
                ok = sure = True
            else:
                o = s.find(k, oid)
                ok = o is not None and (k.readable(o) if typ == 1 else k.writable(o))
                sure = all(st.get(oid, (0, 0))[typ - 1] for _, _, st in s.ticks)
            ready.setdefault((ud, typ), [0, 0])
            ready[ud, typ][ok] += 1
            if ok and sure and not s.last_fired:
                must[ud, typ] = must.get((ud, typ), 0) + 1
        got = [struct.unpack('<QHB', res.mem[ev + 32 * i:ev + 32 * i + 11]) for i in range(n)]
        for (ud, typ), m in must.items():
            if sum(1 for u, _, t in got if (u, t) == (ud, typ)) < m:
                fault('a subscription (type %d, userdata %d) was ready all along, but is not reported' % (typ, ud))
                break
        r.probe('subscriptions that have to be reported', sum(must.values()))
        for i in range(n):
            a = ev + 32 * i
            ud, err, typ = struct.unpack('<QHB', res.mem[a:a + 11])
            nb, fl = struct.unpack('<QH', res.mem[a + 16:a + 26])
            x = ready.get((ud, typ))
            if x is None:
                fault('event %d with userdata %d and type %d matches no subscription' % (i, ud, typ))
                continue
            if err != 0:
                fault('event %d reports error %d' % (i, err))
            if x[1] == 0:
                fault('event %d (type %d, userdata %d): %s' % (i, typ, ud, 'its subscription is not ready' if x[0] else 'reported twice'))
            else:
                x[1] -= 1
            if fl & ~1 or nb > 1 << 40:
                fault('event %d has undefined bytes: nbytes %d, flags %d' % (i, nb, fl))
        # when?
        best = None
        for sub in subs:
            ud, typ, cid, t, absolute, oid = sub
            if typ == 0:
                d = self.deadline(s, sub, res.t0)
            elif oid == 'cap':
                d = res.t0[1]
            else:
                d = next((m for m, _, st in s.ticks if st.get(oid, (0, 0))[typ - 1]), None)
            if d is not None and (best is None or d < best):
                best = d
        r.probe('polls judged')
        waited = res.t1[1] - res.t0[1]
        if waited > spent:
            r.probe('polls that waited')
        if best is not None and res.t1[1] > max(best, res.t0[1]) + spent:
            fault('returned %d ns after the first subscription was ready' % (res.t1[1] - max(best, res.t0[1])))

    def relevant(self, cat, info):
        if cat == 'poll' or 'POLL_FD_READWRITE' in (info or {}).get('lack', ()):
            return True
        return (info or {}).get('op', {}).get('op') == 'poll_oneoff'


CHECK = C10()
