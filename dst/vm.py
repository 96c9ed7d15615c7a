"""Simulated sessions of the virtual machine: real runtimes executing generated programs, in step with the reference
interpreter, under traps, host exceptions, interrupts, failing allocations and thread switches."""
import gc
import io
import random
import struct
import sys
import threading
import types

from . import vmgen
from .engine import build_kernel, Fault
from .kernel import Chan, O_NONBLOCK, O_RDONLY, SimHang, SimUnsupported
from .runner import Base, Run
from .vmref import Depth, Fuel, Glob, Host, HostExc, Mem, Ref, Tab, Trap, s32, s64, M32, M64, PAGE
from .world import World, _code, cur, sim_open

TOOL = 4
mon = sys.monitoring
EV = mon.events


class HostError(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


RAISES = {'HostError': HostError, 'ValueError': ValueError, 'KeyError': KeyError, 'AssertionError': AssertionError,
          'IndexError': IndexError, 'StopIteration': StopIteration, 'RuntimeError': RuntimeError, 'OSError': OSError,
          'MemoryError': MemoryError, 'SystemExit': SystemExit}


def codes(path):
    """All code objects of a source file of the code under test."""
    out, todo = [], [c for p, c in _code.items() if p.endswith(path)]
    while todo:
        c = todo.pop()
        out.append(c)
        todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    return out


class Monitor:
    """Interpreter events of pywasm.core: the points where an interrupt, a failing allocation or a thread switch can
    happen."""

    def __init__(self):
        self.codes = codes('/pywasm/core.py')
        self.on = False

    def start(self, point=None, alloc=None, line=False):
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'dst')
        ev = 0
        self.active = self.codes
        if line:
            mon.register_callback(TOOL, EV.LINE, point)
            ev |= EV.LINE
            self.active = [c for m in ('core', 'leb128', 'arith', 'opcode', 'log') for c in codes('/pywasm/%s.py' % m)]
        if point:
            ev |= EV.PY_START | EV.PY_RESUME | EV.JUMP | EV.CALL

            def p(*a):
                point(a[0])
            mon.register_callback(TOOL, EV.PY_START, p)
            mon.register_callback(TOOL, EV.PY_RESUME, p)
            mon.register_callback(TOOL, EV.JUMP, p)
            mon.register_callback(TOOL, EV.C_RETURN, p)
        else:
            mon.register_callback(TOOL, EV.C_RETURN, None)
        if alloc:
            ev |= EV.CALL

            def c(code, at, fn, arg0):
                alloc(code, fn, arg0)
            mon.register_callback(TOOL, EV.CALL, c)
        else:
            mon.register_callback(TOOL, EV.CALL, None)
        for x in self.active:
            mon.set_local_events(TOOL, x, ev)
        self.on = True

    def stop(self):
        if self.on:
            for x in self.active:
                mon.set_local_events(TOOL, x, 0)
            self.on = False


class Unsure(Exception):
    """What an interrupted instantiation left in a table cannot be told apart any more."""


def within(code, what):
    q = code.co_qualname
    return q != 'Machine.evaluate' if what == 'Machine' else q.startswith(what)


class Entry:
    """One entry into a runtime, on both sides."""

    def __init__(self, op, rt, model, real, same, what, comp=None):
        self.op, self.rt, self.model, self.real, self.same, self.what = op, rt, model, real, same, what
        self.comp, self.made, self.m = comp, [], None


class Abort(BaseException):
    pass


class Baton:
    """Real threads of which one runs at a time; who goes on is drawn at every line of the code under test."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.switches = 0
        self.aborted = False
        self.ids = {}

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.main = threading.Semaphore(0)
        self.out = [None] * n
        self.left = list(range(n))
        old = threading.stack_size(64 << 20)
        ths = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        try:
            for t in ths:
                t.start()
        finally:
            threading.stack_size(old)
        try:
            self.sem[self.rng.choice(self.left)].release()
            self.main.acquire()
        except BaseException:
            # no end in sight
            self.aborted = True
            for x in self.sem:
                x.release()
            for t in ths:
                t.join(5)
            raise
        for t in ths:
            t.join()

    def body(self, i, fn):
        self.ids[threading.get_ident()] = i
        self.sem[i].acquire()
        try:
            if self.aborted:
                return
            try:
                self.out[i] = 'ok', fn()
            except Abort:
                return
            except BaseException as e:
                self.out[i] = 'exc', e.with_traceback(None)
        finally:
            self.left.remove(i)
            if not self.aborted:
                if self.left:
                    self.sem[self.rng.choice(self.left)].release()
                else:
                    self.main.release()

    def point(self, *a):
        i = self.ids.get(threading.get_ident())
        if i is None:
            return
        if self.aborted:
            raise Abort()
        if len(self.left) > 1 and self.rng.random() < self.p:
            j = self.rng.choice([x for x in self.left if x != i])
            self.switches += 1
            if self.switches % 100 == 0:
                self.p /= 4
            self.sem[j].release()
            self.sem[i].acquire()
            if self.aborted:
                raise Abort()


class Rec:
    """An instance known to the embedder."""

    def __init__(self, label, rt, model, real, comp):
        self.label, self.rt, self.model, self.real, self.comp = label, rt, model, real, comp
        self.held = {}          # objects the embedder looked up once and keeps


class Obj:
    """An importable object: the model's and the real one."""

    def __init__(self, k, rt, model, ext, rec=None, at=0):
        self.k, self.rt, self.model, self.ext, self.rec, self.at = k, rt, model, ext, rec, at


_depth = {}


def packed(comp, pre, post):
    """The module with custom sections of the given sizes. -> bytes, [(end, section or None)]"""
    def custom(n):
        b = vmgen.name(('c', 'ç', 'λ語')[n % 3]) + bytes((i * 7 + n) & 255 for i in range(n))
        return None, b'\0' + vmgen.u(len(b)) + b
    secs = [custom(n) for n in pre] + list(comp.sections) + [custom(n) for n in post]
    out = b'\0asm\1\0\0\0'
    ends = [(len(out), None)]
    for i, b in secs:
        out += b
        ends.append((len(out), i))
    return out, ends


def sections_in(data, ends):
    """The sections that data, the first part of a file, holds. None if it ends within one."""
    if len(data) not in [e for e, _ in ends]:
        return None
    return {i for e, i in ends if e <= len(data) and i is not None}


def complete(got):
    """Whether the first sections make a module: nothing announced is missing."""
    return (3 not in got or 10 in got) and (12 not in got or 11 in got)


def trimmed(spec, got):
    """The module that the first sections make."""
    sp = dict(spec)
    for i, n, v in ((2, 'imports', []), (4, 'tables', []), (3, 'funcs', []), (5, 'mem', None), (6, 'globals', []), (9, 'elems', []),
                    (11, 'datas', []), (8, 'start', None)):
        if i not in got:
            sp[n] = v
    return sp



class VM:
    def __init__(self, seed=0, rts=1, max_steps=4000):
        self.k = build_kernel({'tree': [], 'seed': seed})
        self.w = World(self.k, seed)
        self.k.put_dir(b'/m')
        self.core = self.w.pywasm.core
        self.rts = [self.core.Runtime() for _ in range(rts)]
        self.descs = {}
        self.insts = {}
        self.objs = {}
        self.vio = []
        self.bij = [({}, {}) for _ in range(rts)]
        self.mon = Monitor()
        self.stats = {}
        self.faults = {}
        self.dead = False
        self.tainted = False
        self.hidden = []
        self.exc = {}
        self.last = None
        if 'd' not in _depth:
            _depth['d'] = None, None
            _depth['d'] = calibrate(self.__class__)
            cur.k = self.k
        d = _depth['d']
        self.ref = Ref(*(d if d[0] is not None else (1 << 30, 1 << 30)))
        self.ref.max_steps = max_steps
        self.ref.env = self
        self.ref.handlers = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith('m_')}
        self.hostlogs = [[] for _ in range(rts)]
        self.nh = 0
        self.nest = 0

    def probe(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def bad(self, cat, msg, **info):
        self.vio.append((cat, msg, info))
        self.dead = True

    # ---- values --------------------------------------------------------------------------------------------------
    def ty(self, t):
        v = self.core.ValType
        return {'i': v.i32, 'I': v.i64, 'f': v.ref_func, 'x': v.ref_extern}[t]()

    def val(self, t, v, rt):
        """A model value as the real runtime's argument; None if there is no way to say it."""
        if t == 'i':
            return s32(v)
        if t == 'I':
            return s64(v)
        if t == 'f':
            return self.bij[rt][0].get(id(v), (None,))[0]
        return v

    def same(self, t, model, real, rt):
        if t == 'i':
            return real & M32 == model & M32
        if t == 'I':
            return real & M64 == model & M64
        if t == 'x':
            return real == model
        return self.pair(model, real, rt)

    def pair(self, model, real, rt):
        a, b = self.bij[rt]
        ok = a[id(model)][0] == real if id(model) in a else real not in b
        if not ok or id(model) in a:
            if not ok and not self.tentative and any(h.taint for h in self.hidden):
                for f in (model, b.get(real)):
                    if f is not None and f.inst is not None and f.inst.taint:
                        raise Unsure()
            return ok
        if not self.tentative:
            a[id(model)] = real, model
            b[real] = model
        return True

    tentative = False

    # ---- host functions ------------------------------------------------------------------------------------------
    def rets(self, sig, args, x=0):
        t = sum(args) * 3 + x
        return [(s32 if ty == 'i' else s64)(t + i) for i, ty in enumerate(sig[1])]

    def host_func(self, rt, sig, beh):
        """Allocates a host function on both sides."""
        h = Host(self.nh, sig, beh)
        h.rt = rt
        self.nh += 1
        core = self.core
        log = self.hostlogs[rt]

        def code(m, args):
            log.append((h.idx, tuple(args)))
            return getattr(self, 'r_' + beh['do'])(h, m, args)
        code.__name__ = 'host%d' % h.idx
        ft = core.FuncType([self.ty(t) for t in sig[0]], [self.ty(t) for t in sig[1]])
        return h, self.rts[rt].allocate_func_host(ft, code)

    def m_echo(self, env, h, args, caller):
        return self.rets(h.sig, args)

    def r_echo(self, h, m, args):
        return self.rets(h.sig, args)

    def will(self, h, args):
        return h.beh.get('on', 0) == 0 or (sum(args) & h.beh['on']) == 0

    def m_raise(self, env, h, args, caller):
        if self.will(h, args):
            raise HostExc(h.idx)
        return self.rets(h.sig, args)

    def r_raise(self, h, m, args):
        if self.will(h, args):
            self.exc[h.idx] = RAISES[h.beh['exc']]('host %d' % h.idx)
            raise self.exc[h.idx]
        return self.rets(h.sig, args)

    def m_poke(self, env, h, args, caller):
        """Writes into the memory of the instance that calls."""
        mem = caller.mem if caller else None
        if mem is None:
            return self.rets(h.sig, args, 1)
        at = (args[0] if args else h.beh['at']) & 0xffff
        b = bytes([(sum(args) + i) & 255 for i in range(h.beh['n'])])
        if at + len(b) > len(mem.data):
            raise Trap('out of bounds in the host function')
        self.ref.mput(mem, at, b)
        return self.rets(h.sig, args, mem.pages)

    def r_poke(self, h, m, args):
        mems = m.stack.frame[-1].module.mems
        if not mems:
            return self.rets(h.sig, args, 1)
        mem = m.store.mems[mems[0]]
        at = (args[0] if args else h.beh['at']) & 0xffff
        b = bytearray((sum(args) + i) & 255 for i in range(h.beh['n']))
        mem.put(at, b)
        return self.rets(h.sig, args, mem.size)

    def m_growm(self, env, h, args, caller):
        mem = caller.mem if caller else None
        if mem is None or mem.pages >= (8 if mem.hi is None else min(mem.hi, 8)):
            return self.rets(h.sig, args, 1)
        if not self.ref.may_grow():
            return self.rets(h.sig, args, 5)
        self.ref.note(('mg', mem, 1))
        return self.rets(h.sig, args, mem.pages)

    def r_growm(self, h, m, args):
        mems = m.stack.frame[-1].module.mems
        if not mems:
            return self.rets(h.sig, args, 1)
        mem = m.store.mems[mems[0]]
        lim = mem.type.limits
        if mem.size >= (min(lim.m, 8) if lim.flag else 8):
            return self.rets(h.sig, args, 1)
        try:
            mem.grow(1)
        except MemoryError:
            return self.rets(h.sig, args, 5)
        return self.rets(h.sig, args, mem.size)

    def target(self, h):
        return self.insts.get(h.beh['i'])

    def m_reenter(self, env, h, args, caller):
        r = self.target(h)
        if r is None:
            return self.rets(h.sig, args, 2)
        f = r.model.funcs[h.beh['f']]
        out = self.ref.invoke(f, [a & (M32 if t == 'i' else M64) for a, t in zip(h.beh['args'], f.sig[0])])
        return self.rets(h.sig, args, sum((s32 if t == 'i' else s64)(v) for v, t in zip(out, f.sig[1])))

    def r_reenter(self, h, m, args):
        r = self.target(h)
        if r is None:
            return self.rets(h.sig, args, 2)
        sig = r.comp.sigs[h.beh['f']]
        out = self.rts[r.rt].invocate(r.real, 'f%d' % h.beh['f'],
                                      [(s32 if t == 'i' else s64)(a) for a, t in zip(h.beh['args'], sig[0])])
        return self.rets(h.sig, args, sum(out))

    def m_reenter_catch(self, env, h, args, caller):
        try:
            return self.m_reenter(env, h, args, caller)
        except (Trap, HostExc) as e:
            if isinstance(e, HostExc) and self.hosts[e.tag].beh['exc'] == 'SystemExit':
                raise
            return self.rets(h.sig, args, 7)

    def r_reenter_catch(self, h, m, args):
        try:
            return self.r_reenter(h, m, args)
        except Exception:
            return self.rets(h.sig, args, 7)

    def m_setg(self, env, h, args, caller):
        """The embedder changes a global it knows."""
        r = self.target(h)
        g = r.model.globs[h.beh['g']] if r and h.beh['g'] < len(r.model.globs) else None
        if g is None or g.ty not in 'iI' or not g.mut:
            return self.rets(h.sig, args, 3)
        self.ref.note(('g', g, g.val, (sum(args) + 9) & (M32 if g.ty == 'i' else M64)))
        return self.rets(h.sig, args, 4)

    def r_setg(self, h, m, args):
        r = self.target(h)
        g = r.model.globs[h.beh['g']] if r and h.beh['g'] < len(r.model.globs) else None
        if g is None or g.ty not in 'iI' or not g.mut:
            return self.rets(h.sig, args, 3)
        v = sum(args) + 9
        v = self.core.ValInst.from_i32(s32(v)) if g.ty == 'i' else self.core.ValInst.from_i64(s64(v))
        self.glob(r, h.beh['g']).data = v
        return self.rets(h.sig, args, 4)

    @property
    def hosts(self):
        return {o.model.idx: o.model for o in self.objs.values() if isinstance(o.model, Host)}

    # ---- looking -------------------------------------------------------------------------------------------------
    def obj(self, ref):
        """'H1' or 'i0.f3' -> Obj or None"""
        if '.' not in ref:
            return self.objs.get(ref)
        l, n = ref.split('.')
        r = self.insts.get(l)
        if r is None:
            return None
        k, at = n[0], int(n[1:] or 0)
        lst = {'f': r.model.funcs, 't': r.model.tabs, 'm': [r.model.mem] if r.model.mem else [], 'g': r.model.globs}[k]
        if at >= len(lst):
            return None
        name = n if k != 'm' else 'm'
        ext = [e for e in r.real.exps if e.name == name][0].data
        return Obj(k, r.rt, lst[at], ext, r, at)

    def ask(self, r, name, *args):
        return self.rts[r.rt].invocate(r.real, name, list(args))

    def memory(self, r):
        """The exported memory of an instance as the embedder got it at first."""
        if 'm' not in r.held:
            r.held['m'] = self.rts[r.rt].exported_memory(r.real, 'm')
        return r.held['m']

    def glob(self, r, at):
        if at not in r.held:
            r.held[at] = self.rts[r.rt].exported_global(r.real, 'g%d' % at)
        return r.held[at]

    def differs(self, r, key):
        """Compares one object, seen through instance r, with the model. -> None or text"""
        k, at = key
        m = r.model
        rt = self.rts[r.rt]
        if k == 'm':
            held = self.memory(r)
            real = rt.exported_memory(r.real, 'm')
            if held is not real and held.data != real.data:
                return 'the memory is not the one the embedder was given before'
            if len(real.data) != len(m.mem.data):
                return 'the memory has %d bytes, not %d' % (len(real.data), len(m.mem.data))
            if real.data != m.mem.data:
                i = next(i for i in range(len(real.data)) if real.data[i] != m.mem.data[i])
                return 'the byte at %d of the memory is %d, not %d' % (i, real.data[i], m.mem.data[i])
            n = self.ask(r, 'mz')[0] if not m.spec.get('bare') else m.mem.pages
            if n != m.mem.pages:
                return 'memory.size is %d, not %d' % (n, m.mem.pages)
            if real.size != m.mem.pages:
                return 'the size of the exported memory is %d, not %d' % (real.size, m.mem.pages)
        elif k == 'g':
            g = m.globs[at]
            if g.ty in 'iI':
                v = rt.exported_global(r.real, 'g%d' % at).data.into_all()
                if self.glob(r, at).data.into_all() != v:
                    return 'global %d is not the one the embedder was given before' % at
                if not self.same(g.ty, g.val, v, r.rt):
                    return 'global %d is %d, not %d' % (at, v, (s32 if g.ty == 'i' else s64)(g.val))
            else:
                null = self.ask(r, 'gn%d' % at)[0]
                if null != (g.val is None):
                    return 'global %d is %s' % (at, 'null' if null else 'not null')
                if not null and not self.same(g.ty, g.val, self.ask(r, 'gr%d' % at)[0], r.rt):
                    return 'global %d is not %r' % (at, g.val)
        elif k == 't':
            t = m.tabs[at]
            n = self.ask(r, 'tz%d' % at)[0]
            if n != len(t.elem):
                return 'table.size of table %d is %d, not %d' % (at, n, len(t.elem))
            for i, e in enumerate(t.elem):
                null = self.ask(r, 'tn%d' % at, i)[0]
                if null != (e is None):
                    return 'element %d of table %d is %s' % (i, at, 'null' if null else 'not null')
                if not null and not self.same(t.ty, e, self.ask(r, 'tg%d' % at, i)[0], r.rt):
                    return 'element %d of table %d is not %r' % (i, at, e)
            for name, args in (('tn%d' % at, (n,)),):
                try:
                    self.ask(r, name, *args)
                except Exception:
                    pass
                else:
                    return 'table %d can be read beyond its size' % at
        elif k == 'd':
            return self.drop(r, 'dd%d' % at, len(m.datas[at]) < len(m.spec['datas'][at]['data']), 'data segment %d' % at)
        elif k == 'e':
            return self.drop(r, 'ed%d' % at, len(m.elems[at]) < len(m.spec['elems'][at]['items']),
                             'element segment %d' % at)
        return None

    def drop(self, r, name, dropped, what):
        try:
            self.ask(r, name)
            real = False
        except Exception:
            real = True
        if real != dropped:
            return '%s is%s dropped' % (what, '' if real else ' not')
        return None

    def keys(self, r):
        m = r.model
        out = [('g', i) for i in range(len(m.globs))] + [('t', i) for i in range(len(m.tabs))]
        if m.mem is not None:
            out.append(('m', 0))
            if not m.spec.get('nodc'):
                out += [('d', i) for i, d in enumerate(m.spec['datas']) if d['data']]
        out += [('e', i) for i, e in enumerate(m.spec['elems']) if e['items'] and e['ty'] == m.tabs[e['t']].ty]
        return out

    def look(self, why):
        """Everything the embedder can see is as in the model."""
        for r in self.insts.values():
            for key in self.keys(r):
                try:
                    x = self.differs(r, key)
                except Unsure:
                    self.probe('run given up: unsure')
                    self.dead = True
                    return False
                except Exception as e:
                    x = 'looking at %s%d fails: %r' % (key[0], key[1], e)
                if x:
                    self.bad('state', '%s of instance %s, %s' % (x, r.label, why))
                    return False
        for i, l in enumerate(self.hostlogs):
            mine = [x[1:] for x in self.ref.hostlog if x[0] == i]
            if l != [(a, b) for a, b in mine]:
                self.bad('host', 'the host functions were called as %s, not as %s, %s' % (l[-4:], mine[-4:], why))
                return False
        self.probe('full comparisons')
        return True

    # ---- interrupted work: some prefix of the effects ------------------------------------------------------------
    def settle(self, why):
        """Finds the prefix of the model's effects that the real state shows, and continues from there."""
        ref = self.ref
        by = {}
        for r in self.insts.values():
            for k, at in self.keys(r):
                o = {'m': lambda: (id(r.model.mem),), 'g': lambda: (id(r.model.globs[at]),),
                     't': lambda: (id(r.model.tabs[at]),), 'd': lambda: (id(r.model), 'd', at),
                     'e': lambda: (id(r.model), 'e', at)}[k]()
                by.setdefault(o, []).append((r, (k, at)))
        real_hosts = sum(len(l) for l in self.hostlogs)

        def key(e):
            if e[0] in 'de':
                return (id(e[1]), e[0], e[2])
            return (id(e[1]),)

        def wrong(o):
            if o == (id(ref.hostlog),):
                return len(ref.hostlog) != real_hosts
            for r, k in by.get(o, ()):
                try:
                    if self.differs(r, k):
                        return True
                except Exception as e:
                    return True
            return False
        self.tentative = True
        mism = {o for o in list(by) + [(id(ref.hostlog),)] if wrong(o)}
        n = len(ref.log)
        while mism and ref.log:
            e = ref.log.pop()
            ref.undo(e)
            if e[0] in 'de' and e[1].name not in self.insts or e[0] not in 'deh' and key(e) not in by:
                self.tainted = True
            o = key(e)
            if e[0] in 'mt' and e[5] and mism == {o} and self.partial(e, by[o]):
                self.probe('stopped within a bulk operation')
                mism = set()
                break
            (mism.add if wrong(o) else mism.discard)(o)
        self.tentative = False
        if mism:
            o = next(iter(mism))
            r, k = by[o][0] if o in by else (None, None)
            x = None
            try:
                x = self.differs(r, k) if r else 'the host was called differently'
            except Exception as ex:
                x = 'looking at %s%d fails: %r' % (k[0], k[1], ex)
            self.bad('state', '%s%s, %s: it is the state after no prefix of the effects' % (
                x, ' of instance %s' % r.label if r else '', why))
            return False
        self.probe('stopped, no effects' if n == 0 else 'stopped part-way' if 0 < len(ref.log) < n else 'stopped before any effect' if n and not ref.log
                   else 'stopped after all effects')
        return True

    def partial(self, e, seen):
        k, o, off, old, new = e[:5]
        r, (_, at) = seen[0]
        n = len(new)
        if k == 'm':
            real = bytes(self.rts[r.rt].exported_memory(r.real, 'm').data[off:off + n])
            cand = [(new[:j] + old[j:]) for j in range(n)] + [(old[:j] + new[j:]) for j in range(n)]
            if real not in cand:
                return False
            o.data[off:off + n] = real
            if self.differs(r, ('m', 0)):
                o.data[off:off + n] = old
                return False
            return True
        for c in [(new[:j] + old[j:]) for j in range(n)] + [(old[:j] + new[j:]) for j in range(n)]:
            o.elem[off:off + n] = c
            try:
                if not self.differs(r, ('t', at)):
                    return True
            except Exception:
                pass
        o.elem[off:off + n] = old
        return False

    # ---- running -------------------------------------------------------------------------------------------------
    def begin(self, rt):
        self.ref.log.clear()
        self.ref.steps = 0
        self.ref.grows = 0
        self.ref.hit_limit = 0
        self.ref.decide = None
        self.ref.say = lambda what, at=None: self.ref.note(('h', self.ref.hostlog, (at if at is not None else rt,) + what))
        self.ref.depth = self.ref.nest = 0
        self.ref.cur_limit = self.ref.limit

    def model(self, fn):
        """-> ('ok', value) | ('trap', text) | ('host', index) | None when the call is not fit for a run"""
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(30000)
        try:
            out = ('ok', fn())
        except Fuel:
            out = None
        except HostExc as e:
            out = ('host', e.tag)
        except Trap as e:
            out = ('depth' if isinstance(e, Depth) else 'trap', str(e))
        except RecursionError:
            out = None
        finally:
            sys.setrecursionlimit(limit)
        if out is not None and self.ref.hit_limit > 1:
            out = None
        if out is None:
            self.ref.rollback()
        return out

    def real(self, fn, op, rt):
        """-> ('ok', value) | ('exc', exception), with the number of faults that happened"""
        fired = [0]
        self.exc = {}
        if 'intr' in op:
            # the fraction of the call that is carried out
            n = 1 + int(op['intr'] * (60 + 14 * min(self.ref.steps, 3000)))
            left = [op['nth'] if 'in' in op else n]

            what = op.get('in')

            def point(code):
                if what and not within(code, what):
                    return
                left[0] -= 1
                if left[0] == 0:
                    fired[0] += 1
                    raise Interrupt()
            self.mon.start(point=point)
        elif 'oom' in op:
            seen = [0]

            def alloc(code, f, arg0):
                name = getattr(f, '__name__', '')
                big = False
                if f is bytearray or f is bytes:
                    big = isinstance(arg0, int) and arg0 >= PAGE or isinstance(arg0, (bytes, bytearray)) and \
                        len(arg0) >= PAGE
                elif name in ('extend', 'append'):
                    me = arg0 if isinstance(arg0, (bytearray, list)) else getattr(f, '__self__', None)
                    big = isinstance(me, bytearray) and len(me) >= PAGE or \
                        isinstance(me, list) and code.co_qualname.startswith('TableInst.')
                if big:
                    seen[0] += 1
                    if seen[0] in op['oom']:
                        fired[0] += 1
                        raise MemoryError()
            self.mon.start(alloc=alloc)
        try:
            try:
                out = ('ok', fn())
            finally:
                self.mon.stop()
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            out = ('exc', e)
        if fired[0]:
            k = 'interrupt' if 'intr' in op else 'allocation failure'
            self.faults[k] = self.faults.get(k, 0) + fired[0]
        return out, fired[0]

    @staticmethod
    def chain(e, x):
        seen = 0
        while e is not None and seen < 20:
            if e is x:
                return True
            e, seen = e.__cause__ or e.__context__, seen + 1
        return False

    def judge(self, op, fn_model, fn_real, rt, same, what):
        """Runs one entry on both sides. -> ('ok', model value, real value) | ('exc',) | None"""
        self.begin(rt)
        m = self.model(fn_model)
        if m is None:
            self.probe('skipped: not fit')
            return None
        self.last = [m[0]]
        if self.only_model:
            return m
        out, fired = self.real(fn_real, op, rt)
        return self.compare(op, m, out, fired, same, what, fn_model, rt)

    only_model = False

    def compare(self, op, m, out, fired, same, what, fn_model, rt):
        if fired and 'intr' in op:
            if out[0] == 'ok' or not self.chain(out[1], out[1] if isinstance(out[1], Interrupt) else None):
                self.bad('outcome', '%s was interrupted, but ended with %r' % (what, out[1]))
                return None
            self.probe('interrupted: %s' % what.split()[0])
            self.last = ['interrupt']
            if self.settle('after an interrupt of %s' % what):
                if self.tainted or op['op'] == 'inst':
                    for h in self.hidden:
                        h.taint = True
                    self.tainted = False
                return ('exc',)
            return None
        if fired and op['op'] == 'inst' and out[0] == 'exc' and isinstance(out[1], MemoryError):
            # instantiation may need memory that is not there
            self.probe('instantiation without memory')
            self.last = ['nomem']
            if self.settle('after running out of memory in %s' % what):
                for h in self.hidden:
                    h.taint = True
                return ('exc',)
            return None
        if fired:
            # any of the grows may have failed
            self.ref.rollback()
            ok = None
            n = min(max(self.ref.grows, fired) + 2, 8)
            first = None
            for bits in sorted(range(1, 1 << n), key=lambda b: (bin(b).count('1'), b)):
                if bin(bits).count('1') > fired:
                    break
                self.begin(rt)
                self.ref.decide = [not bits >> i & 1 for i in range(n)]
                m = self.model(fn_model)
                if m is None:
                    self.probe('run given up: too long')
                    self.dead = True
                    return None
                if self.match(m, out, same) and self.quick(rt):
                    ok = m
                    self.probe('grow without memory')
                    break
                first = first or m
                self.ref.rollback()
            if ok is None:
                self.bad('outcome', '%s, with %d failing allocations, ended with %r: no choice of failing grows explains '
                         'that; e.g. %s' % (what, fired, out[1], first))
                return None
            m = ok
            self.last = [m[0], 'oom']
        if not self.match(m, out, same):
            self.bad('trap' if (m[0] == 'ok') != (out[0] == 'ok') else 'result',
                     '%s ended with %r, not with %s' % (what, out[1], m))
            return None
        self.probe('%s: %s' % (what.split()[0], m[0]))
        return ('ok', m[1], out[1]) if m[0] == 'ok' else ('exc',)

    def quick(self, rt):
        """Whether the state fits, for choosing between possible histories."""
        self.tentative = True
        try:
            for r in self.insts.values():
                for k in self.keys(r):
                    if self.differs(r, k):
                        return False
        except Exception:
            return False
        finally:
            self.tentative = False
        return all(l == [x[1:] for x in self.ref.hostlog if x[0] == i] for i, l in enumerate(self.hostlogs))

    def match(self, m, out, same):
        if m[0] == 'ok':
            return out[0] == 'ok' and same(m[1], out[1])
        if out[0] != 'exc' or isinstance(out[1], Interrupt):
            return False
        if m[0] == 'host':
            return m[1] in self.exc and self.chain(out[1], self.exc[m[1]])
        return isinstance(out[1], Exception)

    # ---- operations ----------------------------------------------------------------------------------------------
    def run_op(self, op):
        """-> whether the operation could be carried out"""
        self.ref.log.clear()
        return getattr(self, 'o_' + op['op'])(op)

    def o_desc(self, op):
        if op['as'] in self.descs:
            return False
        self.descs[op['as']] = (op['mod'], ) + self.parse(op['mod'])
        self.last = ['desc']
        return True

    def linkable(self, spec, links):
        for i, o in zip(spec['imports'], links):
            if o is None or o.k != i['k']:
                return False
            m = o.model
            if i['k'] == 'f':
                if list(m.sig) != list(i['sig']):
                    return False
            elif i['k'] == 'g':
                if (m.ty, m.mut) != (i['ty'], i['mut']):
                    return False
            else:
                size = m.pages if i['k'] == 'm' else len(m.elem)
                if i['k'] == 't' and m.ty != i['ty']:
                    return False
                if size < i['lo'] or i['hi'] is not None and (m.hi is None or m.hi > i['hi']):
                    return False
        return True

    def prep_inst(self, op):
        """-> Entry or None"""
        d = self.descs.get(op['desc'])
        if d is None or d[2] is None or op['as'] in self.insts:
            return None
        spec, comp, desc = d
        rt = op.get('rt', 0)
        if rt >= len(self.rts):
            return None
        links = [self.obj(x) for x in op['links']]
        if len(links) != len(spec['imports']) or any(o is not None and o.rt != rt for o in links):
            return None
        if any(o is None and not op.get('bad') for o in links):
            return None
        good = self.linkable(spec, links)
        made = []

        def model():
            if not good:
                raise Trap('link')
            made.clear()
            return self.ref.instantiate(spec, comp.code, [o.model for o in links], op['as'], made)
        r = self.rts[rt]
        exts = {'x%d' % n: o.ext for n, o in enumerate(links) if o is not None}

        def real():
            r.imports['m'] = exts
            return r.instance(desc)
        e = Entry(op, rt, model, real, lambda a, b: True, 'instantiation of %s' % op['desc'])
        e.made, e.comp = made, comp
        return e

    def o_inst(self, op):
        e = self.prep_inst(op)
        if e is None:
            return False
        n0 = len(self.hidden)
        self.begin(e.rt)
        m = self.model(e.model)
        if m is None:
            self.probe('skipped: not fit')
            return False
        # the model's instance counts as hidden until the real one is there
        self.hidden += e.made
        self.last = [m[0]]
        out, fired = self.real(e.real, op, e.rt)
        if not fired and m[0] == 'ok' and out[0] == 'ok':
            # registered first, so that it takes part in the comparison
            del self.hidden[n0:]
            self.register(Rec(op['as'], e.rt, e.made[-1], out[1], e.comp))
        res = self.compare(op, m, out, fired, e.same, e.what, e.model, e.rt)
        if fired and res and res[0] == 'ok':
            del self.hidden[n0:]
            self.register(Rec(op['as'], e.rt, e.made[-1], out[1], e.comp))
        return True

    def register(self, r):
        self.insts[r.label] = r
        for i, f in enumerate(r.model.funcs if not r.model.spec.get('bare') else ()):
            try:
                v = self.ask(r, 'rf%d' % i)[0]
                if not self.pair(f, v, r.rt):
                    self.bad('state', 'the reference to function %d of instance %s is that of another' % (i, r.label))
            except Unsure:
                self.dead = True
            except Exception as e:
                self.bad('trap', 'ref.func %d of instance %s fails: %r' % (i, r.label, e))

    def prep_call(self, op):
        r = self.insts.get(op['i'])
        if r is None or op['f'] >= len(r.model.funcs):
            return None
        f = r.model.funcs[op['f']]
        sig = f.sig
        if len(op['args']) != len(sig[0]):
            return None
        margs, rargs = [], []
        for a, t in zip(op['args'], sig[0]):
            if t == 'f':
                o = self.obj(a) if isinstance(a, str) else None
                if o is None or o.k != 'f':
                    return None
                a = o.model
            v = self.val(t, a, r.rt)
            if v is None:
                return None
            margs.append(a & (M32 if t == 'i' else M64) if t in 'iI' else a)
            rargs.append(v)
        if any(t in 'fx' for t in sig[1]):
            return None

        def same(a, b):
            return len(a) == len(b) and all(self.same(t, x, y, r.rt) for t, x, y in zip(sig[1], a, b))
        return Entry(op, r.rt, lambda: self.ref.invoke(f, margs),
                     lambda: self.rts[r.rt].invocate(r.real, 'f%d' % op['f'], rargs), same,
                     'call of %s.f%d%s' % (op['i'], op['f'], tuple(op['args'])))

    def o_call(self, op):
        e = self.prep_call(op)
        if e is None:
            return False
        res = self.judge(op, e.model, e.real, e.rt, e.same, e.what)
        return res is not None or self.dead

    def prep_desc(self, op):
        if op['as'] in self.descs:
            return None
        comp = vmgen.Comp(op['mod']).compile()
        return Entry(op, None, lambda: None, lambda: self.core.ModuleDesc.from_reader(io.BytesIO(comp.raw)),
                     lambda a, b: True, 'reading of %s' % op['as'], comp)

    def o_par(self, op):
        """Entries into different runtimes, each in a thread of its own."""
        es = []
        used = set()
        for p in op['parts']:
            e = getattr(self, 'prep_' + p['op'])(p)
            if e is None or e.rt is not None and e.rt in used or p.get('as') and p['as'] in used:
                continue
            used |= {e.rt, p.get('as')} - {None}
            es.append(e)
        if len(es) < 2:
            return False
        self.begin(0)
        for e in es:
            self.ref.steps = self.ref.hit_limit = 0
            e.m = self.model(e.model)
            if e.m is None:
                self.ref.rollback()
                self.probe('skipped: not fit')
                return False
        for e in es:
            self.hidden += e.made
        self.exc = {}
        b = Baton(random.Random(op['seed']), op['p'])
        self.mon.start(point=b.point, line=True)
        try:
            b.run([e.real for e in es])
        finally:
            self.mon.stop()
        self.probe('parallel entries', len(es))
        self.probe('thread switches', b.switches)
        self.faults['thread switch'] = self.faults.get('thread switch', 0) + b.switches
        self.last = ['par', tuple(e.m[0] for e in es), b.switches]
        for e, out in zip(es, b.out):
            if e.op['op'] == 'inst' and e.m[0] == 'ok' and out[0] == 'ok':
                self.hidden = [h for h in self.hidden if h is not e.made[-1]]
                self.register(Rec(e.op['as'], e.rt, e.made[-1], out[1], e.comp))
            if e.op['op'] == 'desc' and out[0] == 'ok':
                self.descs[e.op['as']] = (e.op['mod'], e.comp, out[1])
            self.compare(e.op, e.m, out, 0, e.same, 'parallel ' + e.what, e.model, e.rt)
            self.last = ['par', tuple(e.m[0] for e in es), b.switches]
        return True

    def o_forget(self, op):
        """The embedder lets go of an instance."""
        if op['i'] not in self.insts or any(o.rec is self.insts[op['i']] for o in self.objs.values()):
            return False
        del self.insts[op['i']]
        gc.collect(0)
        self.last = ['forgot']
        return True

    def o_newrt(self, op):
        """The embedder drops a runtime with all there is in it, and makes another."""
        rt = op['rt']
        if rt >= len(self.rts):
            return False
        self.insts = {n: r for n, r in self.insts.items() if r.rt != rt}
        self.objs = {n: o for n, o in self.objs.items() if o.rt != rt}
        self.bij[rt] = ({}, {})
        self.rts[rt] = self.core.Runtime()
        gc.collect(0)
        self.last = ['newrt']
        return True

    def o_poke(self, op):
        """The embedder writes into an exported memory."""
        o = self.obj(op['m'])
        if o is None or o.k != 'm' or o.rec is None:
            return False
        b = op['data'].encode('latin-1')
        if op['at'] + len(b) > len(o.model.data):
            return False
        self.begin(o.rt)
        self.ref.mput(o.model, op['at'], b)
        self.memory(o.rec).put(op['at'], bytearray(b))
        self.last = ['poke']
        return True

    def o_hgrow(self, op):
        o = self.obj(op['m'])
        if o is None or o.k != 'm' or o.rec is None:
            return False
        n = op['n']
        if o.model.pages + n > 6:
            return False
        if o.model.hi is not None and o.model.pages + n > o.model.hi:
            # more than the memory may have
            self.begin(o.rt)
            if self.attempt(lambda: self.memory(o.rec).grow(n)) is not None:
                self.bad('trap', 'the embedder grew a memory of %d pages, %d at most, by %d' % (o.model.pages, o.model.hi, n))
            self.last = ['hgrow']
            return True
        self.begin(o.rt)
        self.ref.note(('mg', o.model, n))
        self.memory(o.rec).grow(n)
        self.last = ['hgrow']
        return True

    @staticmethod
    def attempt(fn):
        """-> (result,) or None when it is refused"""
        try:
            return fn(),
        except (SimUnsupported, SimHang):
            raise
        except Exception:
            return None

    def o_access(self, op):
        """The embedder reads or writes a number or bytes in an exported memory, perhaps partly outside."""
        o = self.obj(op['m'])
        if o is None or o.k != 'm' or o.rec is None:
            return False
        fmt, at, size = op['ty'], op['at'], op.get('n') or 0
        if fmt != 'b':
            size = struct.calcsize('<' + fmt)
        if op.get('end'):
            at += len(o.model.data)
        if at < -100:
            return False
        mem = self.memory(o.rec)
        name = {'b': '', 'i': '_i32', 'q': '_i64', 'B': '_u8', 'H': '_u16', 'I': '_u32', 'Q': '_u64'}[fmt]
        inside = 0 <= at and at + size <= len(o.model.data)
        raw = bytes((op['seed'] * 31 + j * 7 + 5) & 255 for j in range(size))
        self.begin(o.rt)
        if op['put']:
            val = bytearray(raw) if fmt == 'b' else struct.unpack('<' + fmt, raw)[0]
            r = self.attempt(lambda: getattr(mem, 'put' + name)(at, val))
            if inside:
                self.ref.mput(o.model, at, raw)
        else:
            r = self.attempt(lambda: getattr(mem, 'get' + name)(at, size) if fmt == 'b' else getattr(mem, 'get' + name)(at))
            want = bytes(o.model.data[at:at + size]) if inside else None
            if inside and fmt != 'b':
                want = struct.unpack('<' + fmt, want)[0]
            if inside and r is not None and (bytes(r[0]) if fmt == 'b' else r[0]) != want:
                self.bad('state', 'the embedder reads %r with get%s at %d of %d, not %r' % (r[0], name, at, len(o.model.data), want))
        if (r is not None) != inside:
            self.bad('trap', 'the embedder accesses %d bytes at %d of %d with %s%s: %s' % (
                size, at, len(o.model.data), 'put' if op['put'] else 'get', name, 'succeeds' if r is not None else 'refused'))
        self.last = ['poke']
        return True

    def o_gset(self, op):
        o = self.obj(op['g'])
        if o is None or o.k != 'g' or o.rec is None or o.model.ty not in 'iI' or not o.model.mut:
            return False
        self.begin(o.rt)
        t = o.model.ty
        self.ref.note(('g', o.model, o.model.val, op['val'] & (M32 if t == 'i' else M64)))
        v = self.core.ValInst.from_i32(s32(op['val'])) if t == 'i' else self.core.ValInst.from_i64(s64(op['val']))
        self.glob(o.rec, o.at).data = v
        self.last = ['gset']
        return True

    def o_tset(self, op):
        """Sets an element through an instance that has the table."""
        o = self.obj(op['t'])
        if o is None or o.k != 't' or o.rec is None or op['at'] >= len(o.model.elem):
            return False
        if o.model.ty == 'x':
            mv = rv = op['val']
        else:
            f = self.obj(op['val']) if isinstance(op['val'], str) else None
            if f is None or f.k != 'f' or f.rt != o.rt:
                return False
            mv, rv = f.model, self.val('f', f.model, o.rt)
        if not isinstance(rv, int):
            return False
        self.begin(o.rt)
        self.ref.tput(o.model, op['at'], [mv])
        try:
            self.ask(o.rec, 'ts%d' % o.at, op['at'], rv)
        except Exception as e:
            self.bad('trap', 'table.set by a good call failed: %r' % e)
        self.last = ['tset']
        return True

    def o_host(self, op):
        """The embedder makes an object."""
        if op['as'] in self.objs:
            return False
        rt = op.get('rt', 0)
        c, r = self.core, self.rts[rt]
        if op['k'] == 'f':
            m, e = self.host_func(rt, op['sig'], op['beh'])
        elif op['k'] == 'm':
            m, e = Mem(op['lo'], op['hi']), r.allocate_memory(c.MemType(self.limits(op['lo'], op['hi'])))
        elif op['k'] == 't':
            m = Tab(op['ty'], op['lo'], op['hi'])
            e = r.allocate_table(c.TableType(self.ty(op['ty']), self.limits(op['lo'], op['hi'])))
        else:
            v = c.ValInst.from_i32(s32(op['val'])) if op['ty'] == 'i' else c.ValInst.from_i64(s64(op['val']))
            m = Glob(op['ty'], op['mut'], op['val'] & (M32 if op['ty'] == 'i' else M64))
            e = r.allocate_global(c.GlobalType(self.ty(op['ty']), op['mut']), v)
        self.objs[op['as']] = Obj(op['k'], rt, m, e)
        if op['k'] != 'f':
            # an instance to look at it through
            i = {'k': op['k']}
            i.update({'ty': op['ty'], 'mut': op['mut']} if op['k'] == 'g' else {'lo': op['lo'], 'hi': op['hi']})
            if op['k'] == 't':
                i['ty'] = op['ty']
            spec = {'imports': [i], 'funcs': [], 'tables': [], 'mem': None, 'globals': [], 'elems': [], 'datas': [],
                    'start': None}
            self.descs['d' + op['as']] = (spec, ) + self.parse(spec)
            if not self.dead:
                self.o_inst({'op': 'inst', 'as': 'o' + op['as'], 'desc': 'd' + op['as'], 'rt': rt, 'links': [op['as']]})
        self.last = ['made']
        return True

    # ---- module files --------------------------------------------------------------------------------------------
    PATH = '/m/x.wasm'

    def o_load(self, op):
        """Instantiates a module from a simulated file, whose reading may go wrong."""
        d = self.descs.get(op['desc'])
        if d is None or d[2] is None or op['as'] in self.insts:
            return False
        spec, comp, _ = d
        rt = op.get('rt', 0)
        links = [self.obj(x) for x in op['links']]
        if rt >= len(self.rts) or len(links) != len(spec['imports']) or any(o is not None and o.rt != rt for o in links):
            return False
        if any(o is None and not op.get('bad') for o in links):
            return False
        k = self.k
        data, ends = packed(comp, op.get('pre', ()), op.get('post', ()))
        whole = data
        if 'cut' in op:
            data = data[:max(0, min(op['cut'], len(data) - 1))]
        how = op['how']
        p = self.PATH.encode()
        m_dir = k.raw_get(b'/m')
        m_dir.ents.clear()
        kind = op.get('file', 'reg')
        if kind == 'reg':
            k.put_file(p, data)
        elif kind == 'dir':
            k.put_dir(p)
        elif kind == 'loop':
            k.put_link(p, b'x.wasm')
        ino = k.raw_get(p).ino if kind == 'reg' else None
        seen = bytearray()
        cutting = []
        hooks = {}
        for at, what, n in op.get('hooks', ()):
            def fn(what=what, n=n):
                cutting.append(what)
                f = k.inodes.get(ino)
                if what == 'trunc' and f is not None and n < len(f.data):
                    cutting.append(n)
                    k.set_size(f, n)
                elif what == 'unlink' and b'x.wasm' in m_dir.ents:
                    k.unlink(p)
                elif what == 'replace':
                    k.put_file(b'/m/y', b'\0asm\1\0\0\0')
                    k.rename(b'/m/y', p)
            hooks.setdefault(at, []).append(fn)
        read, pread = k.read, k.pread

        def watch(fn):
            def f(fd, *a):
                out = fn(fd, *a)
                o = k.fds[fd].ofd
                if o.inode is not None and o.inode.ino == ino or o.chan_r is not None:
                    seen.extend(out)
                return out
            return f
        r = self.rts[rt]
        exts = {'x%d' % n: o.ext for n, o in enumerate(links) if o is not None}
        rd = None
        if how == 'pipe':
            ch = Chan()
            ch.buf += data
            rd = sim_open(k.install(k.new_ofd(O_RDONLY | O_NONBLOCK, chan_r=ch)), 'rb')
        elif how != 'file':
            if kind != 'reg':
                return False
            k.begin()
            rd = sim_open(self.PATH, 'rb', **({'buffering': 0} if how == 'raw' else {}))
        before = set(k.fds)

        def real():
            r.imports['m'] = exts
            if how == 'file':
                return r.instance_from_file(self.PATH)
            return r.instance(self.core.ModuleDesc.from_reader(rd))

        def instantiate(spec, links):
            def model():
                if not self.linkable(spec, links):
                    raise Trap('link')
                made.clear()
                return self.ref.instantiate(spec, comp.code, [o.model for o in links], op['as'], made)
            return model
        made = []
        what = 'load of %s' % op['desc']
        # may it run at all?
        self.begin(rt)
        steps = self.model(instantiate(spec, links)) and self.ref.steps
        if steps is None:
            self.probe('skipped: not fit')
            if rd is not None:
                rd.close()
            return False
        self.ref.rollback()
        self.begin(rt)
        self.ref.steps = steps + len(whole) // 8
        n0 = len(self.hidden)
        taking = bool(op.get('intr')) or 'oom' in op
        k.begin([Fault(*f) for f in op.get('faults', ())], hooks)
        k.read, k.pread = watch(read), watch(pread)
        try:
            out, fired = self.real(real, op, rt)
        finally:
            k.read, k.pread = read, pread
            hit, opened = list(k.fired), list(k.opened)
            k.begin()
        if how == 'file' and kind == 'reg' and ino not in opened and cutting:
            # the name was gone, or that of another file, when it was opened
            if cutting[0] == 'unlink':
                kind = 'gone'
            elif cutting[0] == 'replace':
                data = data[:8]
        if not fired and set(k.fds) != before:
            self.bad('leak', '%s ended with %r, and left descriptor %s' % (
                what, out[1], sorted(set(k.fds) ^ before)))
        if rd is not None:
            rd.close()
        # what there was to be read
        avail = data
        cuts = [x for x in cutting if isinstance(x, int)]
        if cuts:
            avail = data[:max(len(seen), min(cuts))]
        failed = [h for h in hit if h[2] in ('err', 'intr') and h[0] != 'close']
        got = sections_in(avail, ends)
        must = kind != 'reg' or bool(failed) or got is None or not complete(got)
        may = how == 'raw' and any(h[2] == 'short' for h in hit) or how == 'pipe' and len(data) == len(whole)
        if how == 'pipe' and len(data) < len(whole):
            must = True
        for h in hit:
            self.faults[h[2] + ':' + h[0]] = self.faults.get(h[2] + ':' + h[0], 0) + 1
        for c in cutting:
            if isinstance(c, str):
                self.faults['host ' + c] = self.faults.get('host ' + c, 0) + 1
        if 'cut' in op:
            self.faults['truncated file'] = self.faults.get('truncated file', 0) + 1
        if kind != 'reg':
            self.faults['no file'] = self.faults.get('no file', 0) + 1
        if must or may and out[0] == 'exc':
            def model():
                raise Trap('incomplete')
            self.probe('load: must fail' if must else 'load: may fail')
            if kind == 'reg' and not failed:
                self.probe('load: cut %s' % ('at the end of a section' if got is not None else 'in the header' if
                                             len(avail) < 8 else 'within a section'))
        else:
            sp = spec
            if len(got) < len(comp.sections):
                sp = trimmed(spec, got)
                self.probe('load: a complete part')
            model = instantiate(sp, links[:len(sp['imports'])])
            if not (7 in got):
                op = dict(op, blind=1)
        self.ref.hostlog[:] = self.ref.hostlog
        self.begin(rt)
        m = self.model(model)
        self.hidden += made
        self.last = ['load', m and m[0], len(seen)]
        if m is None:
            self.bad('load', '%s: the reference does not get through' % what)
            return True
        if any(h[2] == 'intr' for h in hit) and not fired:
            if out[0] == 'ok' or not isinstance(out[1], KeyboardInterrupt):
                self.bad('outcome', '%s was interrupted, but ended with %r' % (what, out[1]))
                return True
            out = ('exc', OSError('interrupted'))
        if must and out[0] == 'ok':
            self.bad('half', '%s gave an instance from %d of %d bytes%s' % (
                what, len(avail), len(whole), ', although reading failed' if failed else ''))
            return True
        if not must and not may and not fired and m[0] == 'ok' and out[0] != 'ok':
            self.bad('load', '%s of all there is failed with %r' % (what, out[1]))
            return True
        rec = None
        if m[0] == 'ok' and out[0] == 'ok' and not op.get('blind'):
            rec = Rec(op['as'], rt, made[-1], out[1], comp)
        if rec and not fired:
            del self.hidden[n0:]
            self.register(rec)
        res = self.compare(dict(op, op='inst'), m, out, fired, lambda a, b: True, what, model, rt)
        if rec and fired and res and res[0] == 'ok':
            del self.hidden[n0:]
            self.register(rec)
        self.last = ['load', m[0], len(seen), self.last]
        out = None
        if taking:
            gc.collect(0)
            if set(k.fds) - ({rd.fileno()} if rd is not None and not rd.closed else set()) - before:
                self.bad('leak', '%s left descriptor %s after all' % (what, sorted(set(k.fds) - before)))
        return True

    def o_corrupt(self, op):
        """Reads a file that is damaged otherwise: any error will do, but it must come to an end."""
        d = self.descs.get(op['desc'])
        if d is None or d[2] is None:
            return False
        data = bytearray(packed(d[1], op.get('pre', ()), op.get('post', ()))[0])
        rng = random.Random(op['seed'])
        if op['what'] == 'zeros':
            at = rng.randrange(len(data))
            data[at:] = bytes(len(data) - at)
        elif op['what'] == 'hole':
            at = rng.randrange(len(data))
            n = rng.randint(1, 64)
            del data[at:at + n]
        else:
            for _ in range(op['n']):
                data[rng.randrange(8, len(data))] ^= 1 << rng.randrange(8)
        k = self.k
        k.raw_get(b'/m').ents.clear()
        k.put_file(self.PATH.encode(), bytes(data))
        k.begin()
        before = set(k.fds)
        f = sim_open(self.PATH, 'rb')
        try:
            self.core.ModuleDesc.from_reader(f)
            self.last = ['corrupt', 'ok']
        except Exception as e:
            self.last = ['corrupt', type(e).__name__]
        f.close()
        self.faults['damaged file'] = self.faults.get('damaged file', 0) + 1
        self.probe('damaged file: %s' % ('read' if self.last[1] == 'ok' else 'refused'))
        return True

    def parse(self, spec):
        comp = vmgen.Comp(spec).compile()
        try:
            return comp, self.core.ModuleDesc.from_reader(io.BytesIO(comp.raw))
        except Exception as e:
            self.bad('load', 'a valid module is refused: %r' % e)
            return comp, None

    def limits(self, lo, hi):
        # as the binary format gives them
        return self.core.Limits.from_reader(io.BytesIO(vmgen.asm.limits(lo, hi)))

    def o_rec(self, op):
        """Recursion to the very end of the call stack."""
        r = self.insts.get(op['i'])
        if r is None or _depth['d'][0] is None:
            return False
        saved = self.ref.max_steps
        self.ref.max_steps = 60000
        n = op['n']
        args = [] if op['f'] == 0 else [_depth['d'][0] - 2 + n if op['f'] == 4 else op['f']]
        ok = self.o_call({'op': 'call', 'i': op['i'], 'f': op['f'], 'args': args,
                          **{k: op[k] for k in ('intr',) if k in op}})
        self.ref.max_steps = saved
        return ok

    def finish(self):
        self.mon.stop()


def calibrate(cls):
    """How deep calls may be nested: by a call of the embedder, and by a start function."""
    vm = cls()
    core = vm.core
    rt = vm.rts[0]
    sp = vmgen.rec_module(random.Random(0), 0)
    inst = rt.instance(core.ModuleDesc.from_reader(io.BytesIO(vmgen.Comp(sp).compile().raw)))
    try:
        rt.invocate(inst, 'f0', [])
        return None, None
    except Exception:
        pass
    d = rt.exported_global(inst, 'g0').data.into_all()
    sp = {'imports': [{'k': 'g', 'ty': 'i', 'mut': 1}], 'funcs': [
        {'sig': ['', ''], 'loc': '', 'body': [['gs', 0, ['bin', 'i', 'add', ['gg', 0], ['c', 'i', 1]]],
                                              ['callm', 0, [], []]], 'ret': []}],
          'tables': [], 'mem': None, 'globals': [], 'elems': [], 'datas': [], 'start': 0}
    e = rt.allocate_global(core.GlobalType(core.ValType.i32(), 1), core.ValInst.from_i32(0))
    rt.imports['m'] = {'x0': e}
    try:
        rt.instance(core.ModuleDesc.from_reader(io.BytesIO(vmgen.Comp(sp).compile().raw)))
        return d, None
    except Exception:
        pass
    vm.finish()
    return d, rt.machine.store.glob[e.data].data.into_all()


# ---- making operations -----------------------------------------------------------------------------------------------

SIGS = vmgen.SIGS
OPS = {'mod': 2, 'again': 1, 'call': 14, 'poke': .7, 'access': 0, 'hgrow': .3, 'gset': .7, 'tset': .7, 'host': 1, 'rec': 0, 'par': 0, 'forget': 0, 'newrt': 0,
       'load': 0, 'corrupt': 0}
BEHS = {'echo': 2, 'raise': 2, 'poke': 2, 'reenter': 2, 'reenter_catch': 2, 'growm': 1, 'setg': 1}


class Maker:
    """Chooses operations by what the session has."""

    def __init__(self, rng, vm, conf):
        self.rng, self.vm, self.c = rng, vm, conf
        self.n = 0
        self.w = dict(OPS, **conf.get('ops', {}))
        self.behs = dict(BEHS, **conf.get('behs', {}))

    def label(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def rt(self):
        return self.rng.randrange(len(self.vm.rts))

    def insts(self, rt=None):
        return [r for r in self.vm.insts.values() if rt is None or r.rt == rt]

    def pool(self, rt, k):
        """Names of the objects of a kind."""
        out = [n for n, o in self.vm.objs.items() if o.k == k and o.rt == rt]
        for r in self.insts(rt):
            m = r.model
            n = {'f': len(m.funcs), 't': len(m.tabs), 'm': int(m.mem is not None), 'g': len(m.globs)}[k]
            out += ['%s.%s%s' % (r.label, k, i if k != 'm' else '') for i in range(n)]
        return out

    def pick_imports(self, rt):
        rng, c = self.rng, self.c
        imports, links = [], []
        for k, p, most in (('f', c.get('link_f', .6), 3), ('t', c.get('link_t', .3), 2), ('m', c.get('link_m', .3), 1),
                           ('g', c.get('link_g', .4), 2)):
            pool = self.pool(rt, k)
            while pool and most and rng.random() < p:
                most -= 1
                x = rng.choice(pool)
                o = self.vm.obj(x)
                m = o.model
                if k == 'f':
                    if 'f' in m.sig[0] or 'x' in m.sig[0]:
                        continue
                    i = {'k': 'f', 'sig': list(m.sig)}
                elif k == 'g':
                    i = {'k': 'g', 'ty': m.ty, 'mut': m.mut}
                else:
                    size = m.pages if k == 'm' else len(m.elem)
                    lo = rng.choice([size, size, rng.randint(0, size)])
                    hi = rng.choice([None, m.hi + rng.choice([0, 0, 3])]) if m.hi is not None else None
                    i = {'k': k, 'lo': lo, 'hi': hi}
                    if k == 't':
                        i['ty'] = m.ty
                imports.append(i)
                links.append(x)
        # what is linked may be of another kind in another order
        order = list(range(len(imports)))
        rng.shuffle(order)
        return [imports[i] for i in order], [links[i] for i in order]

    def spoil(self, imports):
        """A link that does not fit."""
        rng = self.rng
        i = rng.choice(imports)
        if i['k'] == 'f':
            i['sig'] = list(rng.choice([g for g in SIGS if g != i['sig']]))
        elif i['k'] == 'g':
            i['mut'] = 1 - i['mut']
        elif rng.random() < .5 or i['hi'] is None:
            i['lo'] += rng.choice([1, 1, 50])
            if i['hi'] is not None:
                i['hi'] = max(i['hi'], i['lo'])
        else:
            i['hi'] = i['lo']

    def ops(self):
        """-> list of operations"""
        rng, c = self.rng, self.c
        vm = self.vm
        k = vmgen.weighted(rng, list(self.w.items()))
        if not vm.insts and k not in ('mod', 'host'):
            k = 'mod'
        if sum(bool(r.model.spec['funcs']) for r in vm.insts.values()) >= c.get('insts', 5) and k in ('mod', 'again'):
            k = 'call'
        rt = self.rt()
        if k == 'par':
            return self.par()
        if k == 'newrt':
            return [{'op': 'newrt', 'rt': rt}]
        if k == 'corrupt':
            ds = [d for d in vm.descs if vm.descs[d][2] is not None]
            return [{'op': 'corrupt', 'desc': rng.choice(ds), 'seed': rng.randrange(1 << 30), 'n': rng.choice([1, 1, 3, 20]),
                     'what': rng.choice(['zeros', 'hole', 'flip', 'flip'])}] if ds else []
        if k == 'load':
            op = self.again(rt)
            return self.loads(op) if op else []
        if k == 'forget':
            return [{'op': 'forget', 'i': rng.choice(list(vm.insts))}] if vm.insts else []
        if k == 'host':
            kind = rng.choice('fffmtg')
            if kind == 'f':
                return [self.hostf(rt)]
            op = {'op': 'host', 'k': kind, 'as': self.label('H'), 'rt': rt}
            if kind == 'g':
                op.update(ty=rng.choice('iI'), mut=int(rng.random() < .7), val=rng.choice([0, 1, -1, 40]))
            else:
                lo = rng.choice([0, 1, 2, 4])
                op.update(lo=lo, hi=rng.choice([None, lo, lo + 2]))
                if kind == 't':
                    op['ty'] = rng.choice('ffx')
            return [op]
        if k == 'mod':
            pre = []
            if rng.random() < c.get('newhost', .5):
                pre.append(self.hostf(rt))
            return pre + [('mod', rt)]
        if k == 'again':
            op = self.again(rt)
            return [self.fault(op)] if op else []
        ins = self.insts()
        if not ins:
            return []
        r = rng.choice([x for x in ins if x.model.spec['funcs']] or ins if k == 'call' else ins)
        m = r.model
        if k == 'poke' and m.mem is not None and len(m.mem.data):
            n = rng.choice([1, 4, 30])
            top = len(m.mem.data) - n
            return [{'op': 'poke', 'm': r.label + '.m', 'at': rng.choice([0, 3, 100, top]),
                     'data': ''.join(chr(rng.randrange(256)) for _ in range(n))}]
        if k == 'access' and m.mem is not None:
            ty = rng.choice('biqBHIQ')
            n = rng.choice([0, 1, 5, 300])
            size = n if ty == 'b' else struct.calcsize('<' + ty)
            at, end = rng.choice([(0, 0), (rng.randrange(60), 0), (-size, 1), (-size, 1), (1 - size, 1), (0, 1), (-1, 1), (-1, 0), (-size, 0)])
            return [{'op': 'access', 'm': r.label + '.m', 'ty': ty, 'at': at, 'end': end, 'n': n, 'put': rng.randrange(2),
                     'seed': rng.randrange(256)}]
        if k == 'hgrow' and m.mem is not None:
            return [{'op': 'hgrow', 'm': r.label + '.m', 'n': rng.choice([0, 1, 1, 2])}]
        if k == 'gset':
            g = [i for i, x in enumerate(m.globs) if x.ty in 'iI' and x.mut]
            if g:
                return [{'op': 'gset', 'g': '%s.g%d' % (r.label, rng.choice(g)), 'val': rng.choice([0, 1, 5, -1, 255])}]
        if k == 'tset' and m.tabs:
            t = rng.randrange(len(m.tabs))
            if m.tabs[t].elem:
                fs = self.pool(r.rt, 'f')
                return [{'op': 'tset', 't': '%s.t%d' % (r.label, t), 'at': rng.randrange(len(m.tabs[t].elem)),
                         'val': rng.choice(fs) if m.tabs[t].ty == 'f' and fs else rng.randrange(100)}]
        if k == 'rec':
            rec = [x for x in ins if len(x.comp.sigs) == 5 and x.comp.sigs[0] == ['', ''] and len(x.model.tabs) == 1
                   and x.model.spec.get('rec')]
            if not rec:
                l = self.label('d')
                mod = vmgen.rec_module(rng, 0)
                mod['rec'] = 1
                return [{'op': 'desc', 'as': l, 'mod': mod},
                        {'op': 'inst', 'as': self.label('i'), 'desc': l, 'rt': rt, 'links': []}]
            x = rng.choice(rec)
            op = {'op': 'rec', 'i': x.label, 'f': rng.choice([0, 1, 2, 3, 4, 4, 4]), 'n': rng.choice([0, 1, 1, 2])}
            if rng.random() < c.get('intr', 0) * .5:
                op['intr'] = round(rng.random() * 1.05, 4)
            return [op]
        return [self.call(r)] if self.call_ok(r) else []

    def again(self, rt):
        rng, vm = self.rng, self.vm
        ds = [d for d in vm.descs if vm.descs[d][2] is not None]
        if not ds:
            return None
        d = rng.choice(ds)
        links = []
        for i in vm.descs[d][0]['imports']:
            pool = [x for x in self.pool(rt, i['k']) if vm.linkable({'imports': [i]}, [vm.obj(x)])]
            if not pool:
                return None
            links.append(rng.choice(pool))
        return {'op': 'inst', 'as': self.label('i'), 'desc': d, 'rt': rt, 'links': links}

    def par(self):
        rng, vm = self.rng, self.vm
        parts = []
        for rt in range(len(vm.rts)):
            x = rng.random()
            ins = [r for r in self.insts(rt) if r.model.spec['funcs']]
            if x < .15:
                parts.append({'op': 'desc', 'as': self.label('d'),
                              'mod': vmgen.ModGen(rng, self.c.get('w'), [], self.c.get('opts')).module()})
            elif x < .4:
                op = self.again(rt)
                if op:
                    parts.append(op)
            elif ins:
                r = rng.choice(ins)
                if self.call_ok(r):
                    op = self.call(r)
                    parts.append({k: v for k, v in op.items() if k not in ('intr', 'in', 'nth', 'oom')})
        if len(parts) < 2:
            return []
        return [{'op': 'par', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.005, .02, .1, .5]), 'parts': parts}]

    def call_ok(self, r):
        self.cands = [i for i, f in enumerate(r.model.funcs) if not set(f.sig[1]) & set('fx') and
                      (not isinstance(f, Host) or self.c.get('callhost', 1))]
        return bool(self.cands)

    def call(self, r):
        rng = self.rng
        m = r.model
        local = [i for i in self.cands if i >= r.comp.nif]
        f = rng.choice(local) if local and rng.random() < .85 else rng.choice(self.cands)
        args = []
        for t in m.funcs[f].sig[0]:
            if t == 'f':
                args.append(rng.choice(self.pool(r.rt, 'f')))
            elif t == 'x':
                args.append(rng.randrange(50))
            else:
                args.append(rng.choice([0, 1, 2, 3, 7, 16, 255, 65536, -1, -8, 65532, 65535, rng.randrange(1 << 16)]))
        return self.fault({'op': 'call', 'i': r.label, 'f': f, 'args': args})

    def fault(self, op):
        rng, c = self.rng, self.c
        x = rng.random()
        if x < c.get('intr', 0):
            op['intr'] = round(rng.random() * (1.1 if op['op'] == 'call' else 1.6), 4)
            if rng.random() < .4:
                op['in'] = rng.choice(['MemInst', 'MemInst', 'TableInst', 'TableInst', 'Machine', 'Machine'])
                op['nth'] = rng.randint(1, 12) if op['in'] != 'Machine' else rng.choice([rng.randint(1, 20), rng.randint(1, 60)])
        elif x < c.get('intr', 0) + c.get('oom', 0):
            op['oom'] = rng.choice([[1], [2], [1, 2], [1, 3], [3], [2, 4], [1, 2, 3, 4, 5, 6]])
        return op

    def hostf(self, rt):
        rng = self.rng
        do = vmgen.weighted(rng, list(self.behs.items()))
        beh = {'do': do}
        if do == 'raise':
            beh.update(exc=rng.choice(self.c.get('excs', list(RAISES))), on=rng.choice([0, 1, 1, 3]))
        elif do == 'poke':
            beh.update(at=rng.choice([0, 7, 200]), n=rng.choice([1, 4, 9]))
        elif do.startswith('reenter') or do == 'setg':
            ins = self.insts(None if rng.random() < self.c.get('cross', 0) else rt)
            if not ins:
                beh = {'do': 'echo'}
            else:
                r = rng.choice(ins)
                c = [i for i, f in enumerate(r.model.funcs) if not (set(f.sig[0]) | set(f.sig[1])) & set('fx') and
                     not isinstance(f, Host)]
                if do == 'setg':
                    beh.update(i=r.label, g=rng.randrange(5))
                elif not c:
                    beh = {'do': 'echo'}
                else:
                    f = rng.choice(c)
                    beh.update(i=r.label, f=f, args=[rng.choice([0, 1, 9, -1]) for _ in r.model.funcs[f].sig[0]])
        return {'op': 'host', 'k': 'f', 'as': self.label('H'), 'rt': rt, 'sig': list(rng.choice(SIGS)), 'beh': beh}

    def module(self, rt):
        """Drawn when its turn comes, as it depends on what there is."""
        rng, c = self.rng, self.c
        imports, links = self.pick_imports(rt)
        bad = bool(imports) and rng.random() < c.get('badlink', .04)
        if bad:
            self.spoil(imports)
        mod = vmgen.ModGen(rng, c.get('w'), imports, c.get('opts')).module()
        d = self.label('d')
        op = self.fault({'op': 'inst', 'as': self.label('i'), 'desc': d, 'rt': rt, 'links': links})
        if bad:
            op['bad'] = 1
        first = {'op': 'desc', 'as': d, 'mod': mod}
        if rng.random() < c.get('byfile', 0):
            return [first, ('load', op)]
        return [first, op]

    def loads(self, op):
        """The loading of a module from a file, in several attempts."""
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            o = self.load(op)
            o['as'] = self.label('i')
            out.append(o)
        o = {k: v for k, v in op.items() if k not in ('intr', 'in', 'nth', 'oom')}
        o.update(op='load', how=rng.choice(['file', 'file', 'reader', 'raw']))
        if rng.random() < .3:
            o['post'] = [rng.choice([0, 5, 9000])]
        return out + [o]

    def load(self, op):
        rng, vm = self.rng, self.vm
        op = self.fault({k: v for k, v in op.items() if k not in ('intr', 'in', 'nth', 'oom')})
        op.update(op='load', how=rng.choice(['file', 'file', 'file', 'reader', 'raw', 'pipe']))
        big = rng.random() < .5
        for f in ('pre', 'post'):
            if rng.random() < .4:
                op[f] = [rng.choice([0, 3, 200, 8192, 20000] if big else [0, 3, 60]) for _ in range(rng.choice([1, 1, 2]))]
        data, ends = packed(vm.descs[op['desc']][1], op.get('pre', ()), op.get('post', ()))
        x = rng.random()
        cut = rng.choice([rng.randrange(len(data)), rng.choice(ends[:-1])[0], rng.choice(ends[:-1])[0],
                          rng.choice(ends)[0] + rng.choice([-3, -2, -1, 1, 2, 3]), rng.randrange(9),
                          rng.choice([len(data) - 1, 4096, 8192])])
        cut = max(0, min(cut, len(data) - 1))
        if op['how'] == 'pipe':
            if x < .85:
                op['cut'] = cut
        elif x < .4:
            op['cut'] = cut
        elif x < .47 and op['how'] == 'file':
            op['file'] = rng.choice(['none', 'dir', 'loop'])
        elif x < .6:
            op['hooks'] = [[rng.choice([1, 2, 2, 3, 4, 6]), rng.choice(['trunc', 'trunc', 'trunc', 'unlink', 'replace']), cut]]
        if rng.random() < (.35 if x < .6 else .9):
            n = 2 + len(data) // 8192
            cls = rng.choice(['open', 'read', 'read', 'read', 'read'])
            kind = rng.choice(['err', 'err', 'intr', 'short', 'short'])
            nth = rng.randint(1, n) if op['how'] != 'raw' else rng.choice([1, 2, 3, rng.randint(1, 60)])
            if kind == 'short':
                op['faults'] = [[cls, nth, kind, rng.choice([1, 7, .5])] for nth in (1, 2, 3, rng.randint(1, 20))]
            else:
                op['faults'] = [[cls, nth, kind, rng.choice(['EIO', 'ESTALE', 'ENOMEM', 'EACCES', 'EMFILE'])
                                 if cls == 'open' else rng.choice(['EIO', 'EIO', 'ESTALE', 'ENOMEM', 'EISDIR'])]]
        return op


class VMCheck(Base):
    """Sessions of the virtual machine in lockstep with the reference interpreter."""
    nops = (15, 30)
    real = 'pywasm/core.py, pywasm/leb128.py, pywasm/opcode.py, pywasm/arith.py, pywasm/log.py'
    stub = 'the embedder, host functions; the host allocator and asynchronous interrupts'
    assumptions = ['the reference interpreter (dst/vmref.py) follows the WebAssembly specification for the generated '
                   'instructions']
    snap = .3
    rts = 1

    def conf(self, rng):
        return {'name': 'plain'}

    def gen(self, rng, tier, i):
        return {'gseed': rng.randrange(1 << 60), 'conf': self.conf(rng), 'nops': rng.randint(*self.nops)}

    def vm(self, spec):
        return VM(spec.get('gseed', 0) & 0xffff, spec['conf'].get('rts', 1))

    def run(self, spec):
        r = Run()
        vm = self.vm(spec)
        t0 = vm.k.mono
        r.config = spec['conf']['name']
        todo = None
        mk = rng = None
        if 'ops' in spec:
            todo = list(spec['ops'])
        else:
            rng = random.Random(spec['gseed'])
            mk = Maker(rng, vm, spec['conf'])
            spec['ops'] = []
        queue = []
        n = 0
        try:
            while not vm.dead:
                if todo is not None:
                    if not todo:
                        break
                    op = todo.pop(0)
                else:
                    if not queue:
                        if n >= spec['nops']:
                            break
                        n += 1
                        queue = mk.ops()
                        if not queue:
                            continue
                    op = queue.pop(0)
                    if isinstance(op, tuple):
                        queue = (mk.module(op[1]) if op[0] == 'mod' else mk.loads(op[1])) + queue
                        continue
                if not vm.run_op(op):
                    continue
                if todo is None:
                    spec['ops'].append(op)
                r.ops += 1
                r.trace.append((op['op'], op.get('i'), op.get('f'), vm.last, len(vm.ref.log)))
                if vm.last and vm.last[0] == 'ok':
                    r.nontrivial = True
                if vm.dead:
                    break
                abnormal = vm.last and vm.last[0] not in ('ok', 'made', 'poke', 'gset', 'tset', 'hgrow', 'desc')
                if abnormal or 'oom' in op or (op.get('op') != 'desc' and hash_of(spec['gseed'], r.ops) < self.snap):
                    vm.look('after %s' % op['op'])
            if not vm.dead:
                vm.look('at the end')
        finally:
            vm.finish()
        r.vio += vm.vio
        for k, v in vm.stats.items():
            r.probe(k, v)
        for k, v in vm.faults.items():
            r.faults[k] = r.faults.get(k, 0) + v
        r.sim_ns = vm.k.mono - t0
        r.dead = vm.dead
        r.vm = vm
        return r

    def parts(self, spec):
        out = [('ops',)]
        for i, o in enumerate(spec.get('ops', [])):
            if o['op'] == 'desc':
                for j, f in enumerate(o['mod']['funcs']):
                    if f['body']:
                        out.append(('ops', i, 'mod', 'funcs', j, 'body'))
        return out

    def simplify(self, spec):
        import copy
        for i, o in enumerate(spec.get('ops', [])):
            if o['op'] == 'desc':
                for j, f in enumerate(o['mod']['funcs']):
                    for k, e in enumerate(f['ret']):
                        t = f['sig'][1][k]
                        if t in 'iI' and e[0] != 'c':
                            s = copy.deepcopy(spec)
                            s['ops'][i]['mod']['funcs'][j]['ret'][k] = ['c', t, 1]
                            yield s
                for name in ('elems', 'datas', 'globals', 'tables'):
                    if o['mod'][name]:
                        s = copy.deepcopy(spec)
                        s['ops'][i]['mod'][name].pop()
                        yield s


def hash_of(a, b):
    return ((a * 2654435761 + b * 40503) * 0x9E3779B97F4A7C15 >> 20 & 0xfffff) / 0x100000
