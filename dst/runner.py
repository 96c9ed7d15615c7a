"""Runs a check: many seeded simulated executions over worker processes, minimisation, replay files, evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from .kernel import NS, SimHang, SimUnsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
CPU_LIMIT = 20.0


class Stats:
    """What the runs of a check covered."""

    def __init__(self):
        self.runs = self.ops = self.nontrivial = self.dead = 0
        self.sim_ns = 0
        self.faults = {}
        self.interference = 0
        self.probes = {}
        self.digests = set()
        self.configs = {}

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def merge(self, o):
        for f in ('runs', 'ops', 'nontrivial', 'dead', 'sim_ns', 'interference'):
            setattr(self, f, getattr(self, f) + getattr(o, f))
        for f in ('faults', 'probes', 'configs'):
            d = getattr(self, f)
            for k, v in getattr(o, f).items():
                d[k] = d.get(k, 0) + v
        self.digests |= o.digests


class Run:
    """The outcome of one simulated execution."""

    def __init__(self):
        self.vio = []           # [(category, message, info)]
        self.trace = []         # what happened, for the digest
        self.ops = 0
        self.sim_ns = 0
        self.faults = {}
        self.interference = 0
        self.probes = {}
        self.config = 'plain'
        self.nontrivial = False
        self.dead = False

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return hashlib.sha1(repr(self.trace).encode()).hexdigest()

    def take(self, s):
        """Collects the numbers of a finished session."""
        self.ops += s.n
        for k, v in s.k.fault_stats.items():
            self.faults[k] = self.faults.get(k, 0) + v


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(b'%d/%s/%d' % (base, prop.encode(), i)).digest()[:8], 'little')


class _Cpu:
    """CPU time guard: a computation that runs away becomes a SimHang."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        def fire(*_):
            signal.setitimer(signal.ITIMER_PROF, 2.0)
            raise SimHang('no end after %.0f s of computation' % self.limit)
        signal.signal(signal.SIGPROF, fire)
        signal.setitimer(signal.ITIMER_PROF, self.limit)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)


def execute(check, spec, limit=CPU_LIMIT):
    with _Cpu(limit):
        try:
            return check.run(spec)
        except SimHang as e:
            r = Run()
            r.vio.append(('hang', 'the simulated run does not end: %s' % e, {}))
            return r
        except SimUnsupported:
            raise
        except Exception as e:
            # Raised by pywasm itself where the embedder only asked for what it may: a verdict. Anything else is an
            # error of the harness.
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            where = tb.tb_frame.f_code.co_filename
            if os.path.basename(os.path.dirname(where)) != 'pywasm':
                raise
            r = Run()
            r.vio.append(('crash', 'the embedder meets %s at %s:%d' % (repr(e)[:200], os.path.basename(where), tb.tb_lineno), {}))
            return r


def relevant(check, run):
    return [v for v in run.vio if v[0] == 'crash' or check.relevant(v[0], v[2])]


def _worker(args):
    prop, tier, base, lo, hi, step = args
    try:
        check = load(prop)
        st = Stats()
        found = []
        samples = []
        other = {}
        for i in range(lo, hi, step):
            rng = random.Random(seed_of(base, prop, i))
            spec = check.gen(rng, tier, i)
            spec['prop'], spec['base'], spec['index'] = prop, base, i
            run = execute(check, spec)
            st.runs += 1
            st.ops += run.ops
            st.sim_ns += run.sim_ns
            st.interference += run.interference
            st.dead += run.dead
            for d, s in ((st.faults, run.faults), (st.probes, run.probes)):
                for k, v in s.items():
                    d[k] = d.get(k, 0) + v
            st.configs[run.config] = st.configs.get(run.config, 0) + 1
            if run.nontrivial:
                h = run.digest()
                if h not in st.digests:
                    st.digests.add(h)
                st.nontrivial += 1
            if len(samples) < 1 and run.nontrivial:
                samples.append((i, shorten(spec)))
            bad = relevant(check, run)
            for c, m, info in run.vio:
                if not check.relevant(c, info):
                    other[c] = other.get(c, 0) + 1
            if bad:
                found.append((i, json.loads(json.dumps(spec)), [(c, m, info) for c, m, info in bad]))
                if len(found) >= 6:
                    break
        return ('ok', st, found, samples, other)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return ('error', traceback.format_exc() + '\n' + str(type(e)))


def shorten(x, depth=0):
    if isinstance(x, str):
        return x if len(x) < 120 else x[:100] + '...(%d)' % len(x)
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:40]] + (['... %d more' % (len(x) - 40)] if len(x) > 40 else [])
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()}
    return x


def load(prop):
    m = importlib.import_module('dst.checks.' + prop.lower())
    return m.CHECK


# ---- minimisation ----------------------------------------------------------------------------------------------------

def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1:
        if time.time() > deadline:
            break
        size = max(1, len(items) // n)
        done = True
        i = 0
        while i < len(items):
            if time.time() > deadline:
                return items
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                done = False
            else:
                i += size
        if size == 1 and done:
            break
        n = min(len(items) or 1, n * 2) if size > 1 else n
        if size == 1 and not done:
            continue
    return items


def at(spec, path):
    for p in path:
        spec = spec[p]
    return spec


def with_(spec, path, val):
    s = copy.deepcopy(spec)
    d = s
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = val
    return s


def minimise(check, spec, cat, budget=60):
    deadline = time.time() + budget
    best = copy.deepcopy(spec)

    def bad(s):
        try:
            run = execute(check, copy.deepcopy(s), 6.0)
        except SimUnsupported:
            return False
        except Exception:
            return False
        return any(c == cat for c, _, _ in relevant(check, run))

    if not bad(best):
        return spec, False
    # cut everything after the first violation
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for path in check.parts(best):
            try:
                items = at(best, path)
            except (KeyError, IndexError):
                continue
            if not isinstance(items, list) or not items:
                continue
            new = ddmin(list(items), lambda c: bad(with_(best, path, c)), deadline)
            if len(new) < len(items):
                best = with_(best, path, new)
                changed = True
        for s in check.simplify(best):
            if time.time() > deadline:
                break
            if s != best and bad(s):
                best = s
                changed = True
                break
    return best, True


class Base:
    """What every check has in common."""
    id = '?'
    runs = {'quick': 100, 'thorough': 1000}
    cats = None
    rule = ''
    real = 'pywasm/core.py, pywasm/wasi.py, pywasm/leb128.py, pywasm/opcode.py, pywasm/arith.py, pywasm/log.py'
    stub = 'os, fcntl, select, socket, time, open(), sys.std*, entropy: the simulated kernel (dst/kernel.py)'
    assumptions = ['the simulated kernel behaves as Linux does (tools/kernel_vs_linux.py compares the two)']

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, spec):
        raise NotImplementedError

    def relevant(self, cat, info):
        return self.cats is None or cat in self.cats

    def parts(self, spec):
        out = [('ops',)]
        for i, o in enumerate(spec.get('ops', [])):
            if isinstance(o, dict):
                for f in ('faults', 'hooks', 'iov', 'subs', 'later'):
                    if o.get(f):
                        out.append(('ops', i, f))
        if 'tree' in spec.get('init', {}):
            out.append(('init', 'tree'))
        return out

    def simplify(self, spec):
        return []


def known(prop):
    """Recorded genuine defects that were not repaired: (matcher, text)."""
    out = []
    path = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def matches(d, cat, msg, info):
    op = (info or {}).get('op', {})
    name = op.get('op') if isinstance(op, dict) else None
    return (d.get('cat') in (None, cat)) and (d.get('op') in (None, name)) and (d.get('text', '') in msg) and \
        d.get('context', '') in json.dumps(info, default=str)


def describe(vio):
    c, m, info = vio
    s = '[%s] %s' % (c, m)
    if info:
        s += ' | call %s' % json.dumps(shorten({k: v for k, v in info.get('op', {}).items()}) if isinstance(info.get('op'), dict) else info.get('op'))
        if 'result' in info:
            s += ' -> %s' % (info['result'],)
        if 'expected' in info:
            s += ' (expected %s)' % info['expected']
    return s


def replay(path):
    doc = json.load(open(path))
    check = load(doc['property'])
    if hasattr(check, 'prepare'):
        check.prepare()
    run = execute(check, doc['spec'])
    bad = [v for v in relevant(check, run) if not any(matches(d, *v) for d in known(doc['property']))]
    for v in bad:
        print(describe(v))
    print('digest', run.digest())
    if bad:
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    print('the violation does not occur')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true', help='print a digest over all runs (determinism proof)')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    check = load(a.prop)
    runs = a.runs or check.runs['thorough' if a.tier == 'thorough' else 'quick']
    nw = max(1, min(a.workers, runs))
    chunks = nw * 4 if runs >= nw * 8 else nw
    jobs = [(check.id, a.tier, a.seed, c, runs, chunks) for c in range(chunks)]
    if hasattr(check, 'prepare'):
        check.prepare()
    ctx = multiprocessing.get_context('fork')
    st = Stats()
    found, samples, other, errors = [], [], {}, []
    with ctx.Pool(nw) as pool:
        for r in pool.imap_unordered(_worker, jobs):
            if r[0] == 'error':
                errors.append(r[1])
                continue
            st.merge(r[1])
            found += r[2]
            samples += r[3]
            for k, v in r[4].items():
                other[k] = other.get(k, 0) + v
    # The order in which workers finish must not decide anything.
    found.sort(key=lambda f: f[0])
    samples = [s for _, s in sorted(samples, key=lambda s: s[0])][:2]
    kn = known(check.id)
    hit_known = {}
    fresh = []
    for i, spec, bad in found:
        new = []
        for c, m, info in bad:
            for j, d in enumerate(kn):
                if matches(d, c, m, info):
                    hit_known[j] = hit_known.get(j, 0) + 1
                    break
            else:
                new.append((c, m, info))
        if new:
            fresh.append((i, spec, new))
    for d in kn:
        print('KNOWN-FINDING: property=%s %s' % (check.id, d['what']))
    rc = 0
    if fresh:
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        shown = 0
        seen = set()
        for i, spec, bad in fresh:
            key = (bad[0][0], (bad[0][2] or {}).get('op', {}).get('op') if isinstance((bad[0][2] or {}).get('op'), dict) else None)
            if key in seen or shown >= 3:
                continue
            seen.add(key)
            small, ok = minimise(check, spec, bad[0][0], 40 if shown == 0 else 20)
            path = os.path.join(EVID, 'replay', '%s-%d-%d.json' % (check.id, a.seed, i))
            run = execute(check, copy.deepcopy(small))
            rel = relevant(check, run)
            json.dump({'property': check.id, 'seed': a.seed, 'index': i, 'minimised': ok, 'spec': small,
                       'violations': [describe(v) for v in rel], 'digest': run.digest()},
                      open(path, 'w'), indent=1, default=str)
            for v in (rel or bad)[:4]:
                print('  ' + describe(v))
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            shown += 1
        rc = 1
    if errors:
        print('ERROR: %d worker(s) failed\n%s' % (len(errors), errors[0]))
        if rc == 0:
            rc = 2
    wall = time.time() - t0
    cov = {
        'evaluations': st.runs,
        'distinct_nontrivial': len(st.digests),
        'rule': check.rule,
        'samples': samples,
        'guest_calls': st.ops,
        'runs_per_hour': int(st.runs * 3600 / wall),
        'seeds_per_hour': int(st.runs * 3600 / wall),
        'simulated_seconds': round(st.sim_ns / NS, 3),
        'faults_injected': dict(sorted(st.faults.items())),
        'interference_events': st.interference,
        'configurations': st.configs,
        'reached': dict(sorted(st.probes.items())),
        'runs_cut_short': st.dead,
        'real_code': check.real,
        'simulated': check.stub,
    }
    if other:
        cov['observations_belonging_to_other_checks'] = other
    os.makedirs(EVID, exist_ok=True)
    json.dump({'property': check.id, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': a.seed,
               'level': 'exploration', 'coverage': cov, 'assumptions': check.assumptions, 'wall_s': round(wall, 2),
               'violations': len(fresh)},
              open(os.path.join(EVID, check.id + '.json'), 'w'), indent=1, default=str)
    print('%s: %d runs, %d guest calls, %d distinct, %.1f s%s' % (check.id, st.runs, st.ops, len(st.digests), wall,
                                                                  ', others: %s' % other if other else ''))
    if a.digest:
        print('DIGEST', hashlib.sha256('\n'.join(sorted(st.digests)).encode()).hexdigest())
    return rc


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.exit(main())
