"""Generated programs: modules as JSON trees, compiled to real binaries and to the code of the reference interpreter, and
the random generator for them."""
from . import asm
from .asm import s, u, vec, name
from .vmref import LANES, LOADS, SLANES, STORES, VLOADS

TY = {'i': asm.I32, 'I': asm.I64, 'f': asm.FUNCREF, 'x': asm.EXTERNREF}
LOADOP = {n: bytes([0x28 + i]) for i, n in enumerate(
    ['i32.load', 'i64.load', 'f32.load', 'f64.load', 'i32.load8_s', 'i32.load8_u', 'i32.load16_s', 'i32.load16_u',
     'i64.load8_s', 'i64.load8_u', 'i64.load16_s', 'i64.load16_u', 'i64.load32_s', 'i64.load32_u', 'i32.store',
     'i64.store', 'f32.store', 'f64.store', 'i32.store8', 'i32.store16', 'i64.store8', 'i64.store16', 'i64.store32'])}
VOP = {n: b'\xfd' + u(i) for i, n in enumerate(
    ['v128.load', 'v128.load8x8_s', 'v128.load8x8_u', 'v128.load16x4_s', 'v128.load16x4_u', 'v128.load32x2_s',
     'v128.load32x2_u', 'v128.load8_splat', 'v128.load16_splat', 'v128.load32_splat', 'v128.load64_splat', 'v128.store'])}
for _i, _n in enumerate(['8', '16', '32', '64']):
    VOP['v128.load%s_lane' % _n] = b'\xfd' + u(84 + _i)
    VOP['v128.store%s_lane' % _n] = b'\xfd' + u(88 + _i)
VOP['v128.load32_zero'], VOP['v128.load64_zero'] = b'\xfd' + u(92), b'\xfd' + u(93)
SPLAT64 = b'\xfd' + u(18)
LANE64 = b'\xfd' + u(29)
BIN = {'i': {'add': 0x6a, 'sub': 0x6b, 'mul': 0x6c, 'divs': 0x6d, 'divu': 0x6e, 'remu': 0x70, 'and': 0x71, 'or': 0x72,
             'xor': 0x73, 'eq': 0x46, 'lts': 0x48, 'ltu': 0x49},
       'I': {'add': 0x7c, 'sub': 0x7d, 'mul': 0x7e, 'divs': 0x7f, 'divu': 0x80, 'remu': 0x82, 'and': 0x83, 'or': 0x84,
             'xor': 0x85, 'eq': 0x51, 'lts': 0x53, 'ltu': 0x54}}
M32, M64 = 0xffffffff, 0xffffffffffffffff


class Compiled:
    pass


class Comp:
    """Compiles one module tree."""

    def __init__(self, spec):
        self.spec = spec
        self.types = []
        self.fsigs = [i['sig'] for i in spec['imports'] if i['k'] == 'f'] + [f['sig'] for f in spec['funcs']]

    def type(self, sig):
        sig = [sig[0], sig[1]]
        if sig not in self.types:
            self.types.append(sig)
        return self.types.index(sig)

    # each method returns (reference code, bytes)
    def seq(self, parts):
        c, b = [], []
        for x, y in parts:
            c += x
            b.append(y)
        return c, b''.join(b)

    def exprs(self, es):
        return self.seq([self.expr(e) for e in es])

    def const(self, ty, v):
        return [('c', v & (M32 if ty == 'i' else M64))], (asm.i32c if ty == 'i' else asm.i64c)(v)

    def memarg(self, off):
        return u(0) + u(off)

    def bt(self, params, rets):
        if not params and not rets:
            return b'\x40'
        if not params and len(rets) == 1:
            return bytes([TY[rets]])
        return s(self.type([params, rets]))

    def expr(self, e):
        k = e[0]
        if k == 'c':
            return self.const(e[1], e[2])
        if k == 'lg':
            return [('lg', e[1])], asm.get(e[1])
        if k == 'lt':
            c, b = self.expr(e[2])
            return c + [('lt', e[1])], b + asm.tee(e[1])
        if k == 'gg':
            return [('gg', e[1])], asm.gget(e[1])
        if k == 'bin':
            c, b = self.exprs(e[3:])
            return c + [('bin', e[1], e[2])], b + bytes([BIN[e[1]][e[2]]])
        if k == 'un':
            c, b = self.expr(e[2])
            return c + [('un', e[1])], b + {'eqz': b'\x45', 'eqz64': b'\x50', 'wrap': b'\xa7', 'exts': b'\xac',
                                           'extu': b'\xad'}[e[1]]
        if k == 'ld':
            n, off, addr = e[1], e[2], e[3]
            c, b = self.expr(addr)
            if n in LOADS:
                b += LOADOP[n] + self.memarg(off) + {'f32.load': b'\xbc', 'f64.load': b'\xbd'}.get(n, b'')
                return c + [('ld', n, off)], b
            if n in VLOADS:
                return c + [('ld', n, off, e[4])], b + VOP[n] + self.memarg(off) + LANE64 + bytes([e[4]])
            return c + [('ld', n, off, e[4], e[5])], (b + asm.i64c(0) + SPLAT64 + VOP[n] + self.memarg(off) +
                                                      bytes([e[5]]) + LANE64 + bytes([e[4]]))
        if k == 'sel':                              # condition, a, b, type
            c, b = self.exprs([e[2], e[3], e[1]])
            return c + [('sel',)], b + (b'\x1b' if e[4] in 'iI' else b'\x1c\x01' + bytes([TY[e[4]]]))
        if k == 'blk':                              # type, statements, result
            self.labels.append(('blk', e[1]))
            c, b = self.seq([self.stmts(e[2]), self.expr(e[3])])
            self.labels.pop()
            return [('block', 0, 1, c)], b'\x02' + self.bt('', e[1]) + b + b'\x0b'
        if k == 'ife':                              # type, condition, statements, result, statements, result
            cc, cb = self.expr(e[2])
            self.labels.append(('blk', e[1]))
            tc, tb = self.seq([self.stmts(e[3]), self.expr(e[4])])
            ec, eb = self.seq([self.stmts(e[5]), self.expr(e[6])])
            self.labels.pop()
            return cc + [('if', 0, 1, tc, ec)], cb + b'\x04' + self.bt('', e[1]) + tb + b'\x05' + eb + b'\x0b'
        if k == 'call':
            c, b = self.exprs(e[2])
            return c + [('call', e[1])], b + asm.call(e[1])
        if k == 'calli':                            # table, signature, arguments, index
            c, b = self.exprs(e[3] + [e[4]])
            return c + [('calli', e[1], (e[2][0], e[2][1]))], b + asm.call_indirect(self.type(e[2]), e[1])
        if k == 'msize':
            return [('msize',)], asm.MEMSIZE
        if k == 'mgrow':
            c, b = self.expr(e[1])
            return c + [('mgrow',)], b + asm.MEMGROW
        if k == 'tsize':
            return [('tsize', e[1])], asm.table_size(e[1])
        if k == 'tgrow':                            # table, value, count
            c, b = self.exprs(e[2:])
            return c + [('tgrow', e[1])], b + asm.table_grow(e[1])
        if k == 'tget':
            c, b = self.expr(e[2])
            return c + [('tget', e[1])], b + asm.tget(e[1])
        if k == 'isnull':
            c, b = self.expr(e[1])
            return c + [('isnull',)], b + asm.REFISNULL
        if k == 'rf':
            return [('rf', e[1])], asm.ref_func(e[1])
        if k == 'rnull':
            return [('rnull',)], asm.ref_null(TY[e[1]])
        assert 0, k

    def stmts(self, ss):
        return self.seq([self.stmt(x) for x in ss])

    def simple(self, es, ins, b):
        x, y = self.exprs(es)
        return x + [ins], y + b

    def depth(self, level):
        d = len(self.labels) - 1 - level
        assert d >= 0
        return d

    def stmt(self, e):
        k = e[0]
        if k == 'drop':
            return self.simple([e[1]], ('drop',), asm.DROP)
        if k == 'nop':
            return [('nop',)], asm.NOP
        if k == 'ls':
            return self.simple([e[2]], ('ls', e[1]), asm.set_(e[1]))
        if k == 'gs':
            return self.simple([e[2]], ('gs', e[1]), asm.gset(e[1]))
        if k == 'st':                               # name, offset, address, value[, lane]
            n, off = e[1], e[2]
            if n in STORES:
                pre = {'f32.store': b'\xbe', 'f64.store': b'\xbf'}.get(n, b'')
                return self.simple(e[3:5], ('st', n, off), pre + LOADOP[n] + self.memarg(off))
            if n == 'v128.store':
                return self.simple(e[3:5], ('st', n, off), SPLAT64 + VOP[n] + self.memarg(off))
            return self.simple(e[3:5], ('st', n, off, e[5]), SPLAT64 + VOP[n] + self.memarg(off) + bytes([e[5]]))
        if k == 'fill':
            return self.simple(e[1:], ('fill',), asm.memory_fill())
        if k == 'copy':
            return self.simple(e[1:], ('copy',), asm.memory_copy())
        if k == 'init':
            return self.simple(e[2:], ('init', e[1]), asm.memory_init(e[1]))
        if k == 'ddrop':
            return [('ddrop', e[1])], asm.data_drop(e[1])
        if k == 'tset':
            return self.simple(e[2:], ('tset', e[1]), asm.tset(e[1]))
        if k == 'tfill':
            return self.simple(e[2:], ('tfill', e[1]), asm.table_fill(e[1]))
        if k == 'tcopy':
            return self.simple(e[3:], ('tcopy', e[1], e[2]), asm.table_copy(e[1], e[2]))
        if k == 'tinit':                            # segment, table, d, s, n
            return self.simple(e[3:], ('tinit', e[1], e[2]), asm.table_init(e[1], e[2]))
        if k == 'edrop':
            return [('edrop', e[1])], asm.elem_drop(e[1])
        if k == 'block':
            self.labels.append(('blk', ''))
            c, b = self.stmts(e[1])
            self.labels.pop()
            return [('block', 0, 0, c)], b'\x02\x40' + b + b'\x0b'
        if k == 'if':
            cc, cb = self.expr(e[1])
            self.labels.append(('blk', ''))
            tc, tb = self.stmts(e[2])
            ec, eb = self.stmts(e[3])
            self.labels.pop()
            return cc + [('if', 0, 0, tc, ec)], cb + b'\x04\x40' + tb + (b'\x05' + eb if e[3] else b'') + b'\x0b'
        if k == 'mv':                               # parameter types, arguments, locals, statements, results, types, locals
            _, pt, args, plocs, body, res, rt, rlocs = e
            c, b = self.exprs(args)
            self.labels.append(('blk', rt))
            bc, bb = self.seq([([('ls', x)], asm.set_(x)) for x in plocs[::-1]] + [self.stmts(body), self.exprs(res)])
            self.labels.pop()
            c = c + [('block', len(pt), len(rt), bc)] + [('ls', x) for x in rlocs[::-1]]
            return c, b + b'\x02' + self.bt(pt, rt) + bb + b'\x0b' + b''.join(asm.set_(x) for x in rlocs[::-1])
        if k == 'loop':                             # counter, times, statements, carried local or None, its type
            _, ctr, n, body, carry, cty = e
            pre = [self.const('i', n), ([('ls', ctr)], asm.set_(ctr))]
            if carry is not None:
                pre.append(([('lg', carry)], asm.get(carry)))
            self.labels.append(('loop', cty if carry is not None else '', ctr, carry))
            inner = []
            if carry is not None:
                inner.append(([('ls', carry)], asm.set_(carry)))
            inner += [self.stmts(body), self.again(ctr, carry, 0)]
            bc, bb = self.seq(inner)
            self.labels.pop()
            pc, pb = self.seq(pre)
            p = cty if carry is not None else ''
            return pc + [('loop', len(p), 0, bc)], pb + b'\x03' + self.bt(p, '') + bb + b'\x0b'
        if k == 'cont':                             # level: on with the loop, if there are rounds left
            lab = self.labels[e[1]]
            assert lab[0] == 'loop'
            return self.again(lab[2], lab[3], self.depth(e[1]))
        if k == 'br':                               # level, values
            assert self.labels[e[1]][0] == 'blk' and len(self.labels[e[1]][1]) == len(e[2])
            d = self.depth(e[1])
            return self.simple(e[2], ('br', d), asm.br(d))
        if k == 'brif':                             # level, values, condition
            lab = self.labels[e[1]]
            assert lab[0] == 'blk' and len(lab[1]) == len(e[2])
            d = self.depth(e[1])
            c, b = self.exprs(e[2] + [e[3]])
            return c + [('br_if', d)] + [('drop',)] * len(e[2]), b + asm.br_if(d) + asm.DROP * len(e[2])
        if k == 'brtab':                            # levels, default level, values, index
            for x in e[1] + [e[2]]:
                assert self.labels[x][0] == 'blk' and len(self.labels[x][1]) == len(e[3])
            ds, dd = [self.depth(x) for x in e[1]], self.depth(e[2])
            return self.simple(e[3] + [e[4]], ('br_table', ds, dd), asm.br_table(ds, dd))
        if k == 'ret':
            return self.simple(e[1], ('ret',), asm.RETURN)
        if k == 'trap':
            return [('unreachable',)], asm.UNREACHABLE
        if k == 'callm':                            # function, arguments, locals for the results (None: dropped)
            c, b = self.exprs(e[2])
            tail = [([('drop',)], asm.DROP) if x is None else ([('ls', x)], asm.set_(x)) for x in e[3][::-1]]
            tc, tb = self.seq(tail)
            return c + [('call', e[1])] + tc, b + asm.call(e[1]) + tb
        if k == 'callim':                           # table, signature, arguments, index, locals
            c, b = self.exprs(e[3] + [e[4]])
            tail = [([('drop',)], asm.DROP) if x is None else ([('ls', x)], asm.set_(x)) for x in e[5][::-1]]
            tc, tb = self.seq(tail)
            return (c + [('calli', e[1], (e[2][0], e[2][1]))] + tc,
                    b + asm.call_indirect(self.type(e[2]), e[1]) + tb)
        assert 0, k

    def again(self, ctr, carry, d):
        c = [('lg', ctr), ('c', 1), ('bin', 'i', 'sub'), ('lt', ctr), ('br_if', d)]
        b = asm.get(ctr) + asm.i32c(1) + asm.SUB + asm.tee(ctr) + asm.br_if(d)
        if carry is not None:
            c = [('lg', carry)] + c + [('drop',)]
            b = asm.get(carry) + b + asm.DROP
        return c, b

    def init(self, e):
        if e[0] == 'c':
            return (asm.i32c if e[1] == 'i' else asm.i64c)(e[2]) + b'\x0b'
        if e[0] == 'gg':
            return asm.gget(e[1]) + b'\x0b'
        if e[0] == 'rf':
            return asm.ref_func(e[1]) + b'\x0b'
        return asm.ref_null(TY[e[1]]) + b'\x0b'

    def compile(self):
        sp = self.spec
        nif = sum(i['k'] == 'f' for i in sp['imports'])
        tabs = [i['ty'] for i in sp['imports'] if i['k'] == 't'] + [t[0] for t in sp['tables']]
        globs = [(i['ty'], i['mut']) for i in sp['imports'] if i['k'] == 'g'] + [(g[0], g[1]) for g in sp['globals']]
        hasmem = any(i['k'] == 'm' for i in sp['imports']) or bool(sp['mem'])
        code, bodies, sigs = [], [], []
        for f in sp['funcs']:
            self.labels = [('blk', f['sig'][1])]
            c, b = self.seq([self.stmts(f['body']), self.exprs(f['ret'])])
            # the body is a block itself
            code.append([('block', 0, len(f['sig'][1]), c)])
            bodies.append((f['loc'], b))
            sigs.append(f['sig'])
        exports = []
        # accessors, for looking at tables and segments from outside

        def acc(nm, params, rets, b):
            exports.append(name(nm) + b'\x00' + u(nif + len(sigs)))
            sigs.append([params, rets])
            bodies.append(('', b))
        bare = sp.get('bare')
        for t, ty in enumerate(tabs if not bare else ()):
            acc('tn%d' % t, 'i', 'i', asm.get(0) + asm.tget(t) + asm.REFISNULL)
            acc('tg%d' % t, 'i', ty, asm.get(0) + asm.tget(t))
            acc('tz%d' % t, '', 'i', asm.table_size(t))
            acc('ts%d' % t, 'i' + ty, '', asm.get(0) + asm.get(1) + asm.tset(t))
        for g, (ty, mut) in enumerate(globs):
            if ty in 'fx' and not bare:
                acc('gn%d' % g, '', 'i', asm.gget(g) + asm.REFISNULL)
                acc('gr%d' % g, '', ty, asm.gget(g))
        if hasmem and not bare:
            acc('mz', '', 'i', asm.MEMSIZE)
            for d, x in enumerate(sp['datas'] if not sp.get('nodc') else ()):
                acc('dd%d' % d, '', '', asm.i32c(0) + asm.i32c(len(x['data'])) + asm.i32c(0) + asm.memory_init(d))
        for e, x in enumerate(sp['elems']):
            if x['ty'] == tabs[x['t']]:
                acc('ed%d' % e, '', '', asm.i32c(0) + asm.i32c(len(x['items'])) + asm.i32c(0) + asm.table_init(e, x['t']))
        for i in range(nif + len(sp['funcs']) if not bare else 0):
            acc('rf%d' % i, '', 'f', asm.ref_func(i))
        for i in range(nif + len(sp['funcs'])):
            exports.append(name('f%d' % i) + b'\x00' + u(i))
        for i in range(len(tabs)):
            exports.append(name('t%d' % i) + b'\x01' + u(i))
        if hasmem:
            exports.append(name('m') + b'\x02' + u(0))
        for i in range(len(globs)):
            exports.append(name('g%d' % i) + b'\x03' + u(i))
        imports = []
        for n, i in enumerate(sp['imports']):
            h = name('m') + name('x%d' % n)
            if i['k'] == 'f':
                imports.append(h + b'\x00' + u(self.type(i['sig'])))
            elif i['k'] == 't':
                imports.append(h + b'\x01' + bytes([TY[i['ty']]]) + asm.limits(i['lo'], i['hi']))
            elif i['k'] == 'm':
                imports.append(h + b'\x02' + asm.limits(i['lo'], i['hi']))
            else:
                imports.append(h + b'\x03' + bytes([TY[i['ty']], i['mut']]))
        tids = [self.type(g) for g in sigs]
        elems = []
        for e in sp['elems']:
            fx = b''.join
            plain = e['ty'] == 'f' and None not in e['items'] and not e.get('ex')
            flag = {'p': 1, 'd': 3, 'a': 0}[e['mode']]
            if e['mode'] == 'a' and (e['t'] != 0 or e['ty'] != 'f' or e.get('two')):
                flag = 2
            if not plain:
                flag |= 4
            out = u(flag)
            if e['mode'] == 'a':
                if flag & 2:
                    out += u(e['t'])
                out += self.init(e['off'])
            if flag & 3:
                out += bytes([TY[e['ty']]]) if flag & 4 else b'\x00'
            if plain:
                out += vec([u(x) for x in e['items']])
            else:
                out += vec([(asm.ref_null(TY[e['ty']]) if x is None else asm.ref_func(x)) + b'\x0b' for x in e['items']])
            elems.append(out)
        datas = []
        for d in sp['datas']:
            raw = d['data'].encode('latin-1')
            if d['mode'] == 'p':
                datas.append(b'\x01' + name(raw))
            elif d.get('two'):
                datas.append(b'\x02\x00' + self.init(d['off']) + name(raw))
            else:
                datas.append(b'\x00' + self.init(d['off']) + name(raw))
        out = []

        def sec(i, b):
            out.append((i, bytes([i]) + u(len(b)) + b))
        sec(1, vec([b'\x60' + vec([bytes([TY[x]]) for x in a]) + vec([bytes([TY[x]]) for x in r]) for a, r in self.types]))
        if imports:
            sec(2, vec(imports))
        if sigs:
            sec(3, vec([u(t) for t in tids]))
        if sp['tables']:
            sec(4, vec([bytes([TY[ty]]) + asm.limits(lo, hi) for ty, lo, hi in sp['tables']]))
        if sp['mem']:
            sec(5, vec([asm.limits(*sp['mem'])]))
        if sp['globals']:
            sec(6, vec([bytes([TY[ty], mut]) + self.init(e) for ty, mut, e in sp['globals']]))
        sec(7, vec(exports))
        if sp['start'] is not None:
            sec(8, u(sp['start']))
        if elems:
            sec(9, vec(elems))
        if datas and not sp.get('nodc'):
            sec(12, u(len(datas)))
        if bodies:
            bs = []
            for loc, b in bodies:
                groups = []
                for t in loc:
                    if groups and groups[-1][1] == t:
                        groups[-1][0] += 1
                    else:
                        groups.append([1, t])
                b = vec([u(n) + bytes([TY[t]]) for n, t in groups]) + b + b'\x0b'
                bs.append(u(len(b)) + b)
            sec(10, vec(bs))
        if datas:
            sec(11, vec(datas))
        c = Compiled()
        c.code = code
        c.sections = out
        c.raw = b'\0asm\x01\0\0\0' + b''.join(b for _, b in out)
        c.tabs, c.globs, c.mem, c.nif = tabs, globs, hasmem, nif
        c.sigs = self.fsigs
        return c


# ---- the generator ---------------------------------------------------------------------------------------------------

W = {
    # expressions
    'const': 4, 'lg': 5, 'lt': 1, 'gg': 2, 'ld': 4, 'vld': 1, 'bin': 4, 'div': .4, 'un': 1, 'sel': 1, 'blk': 1.2, 'ife': 1,
    'call': 2.5, 'calli': 1.5, 'msize': .7, 'mgrow': .7, 'tsize': .5, 'tgrow': .4, 'isnull': .6,
    # statements
    'drop': 1, 'ls': 3, 'gs': 3, 'st': 5, 'vst': 1, 'fill': .8, 'copy': .8, 'init': .8, 'ddrop': .15, 'tset': 1.2,
    'tfill': .5, 'tcopy': .6, 'tinit': .7, 'edrop': .15, 'block': 1, 'if': 1.2, 'mv': .7, 'loop': 1, 'cont': .5,
    'br': .4, 'brif': 1, 'brtab': .5, 'ret': .3, 'trap': .15, 'callm': 1.5, 'callim': .5,
    # how
    'oob': .025, 'edge': .25, 'badidx': .03, 'biggrow': .15,
}
SIGS = [['', 'i'], ['i', 'i'], ['ii', 'i'], ['', ''], ['i', ''], ['iI', 'I'], ['I', 'iI'], ['', 'iii'], ['iii', 'i']]


def weighted(rng, items):
    items = [(k, w) for k, w in items if w > 0]
    t = sum(w for _, w in items)
    x = rng.random() * t
    for k, w in items:
        x -= w
        if x <= 0:
            return k
    return items[-1][0]


class ModGen:
    def __init__(self, rng, w=None, imports=(), opts=None):
        self.rng = rng
        self.w = dict(W, **(w or {}))
        self.o = opts or {}
        self.imports = list(imports)

    def module(self):
        rng, o = self.rng, self.o
        sp = {'imports': self.imports, 'funcs': [], 'tables': [], 'mem': None, 'globals': [], 'elems': [], 'datas': [],
              'start': None}
        self.sp = sp
        if rng.random() < o.get('nodc', 0):
            # no data count section, so the module may end before its data
            sp['nodc'] = 1
            if rng.random() < o.get('bare', 0) and all(i['k'] in 'mg' and i.get('ty', 'i') in 'iI' for i in self.imports):
                return self.bare(sp)
        imem = [i for i in self.imports if i['k'] == 'm']
        if imem:
            self.pages, self.maxp = imem[0]['lo'], imem[0]['hi']
        elif rng.random() < o.get('mem', .9):
            lo = rng.choice([0, 1, 1, 1, 1, 1, 2, 2])
            hi = rng.choice([None, lo, lo + 1, lo + 2, lo + 5])
            sp['mem'] = [lo, hi]
            self.pages, self.maxp = lo, hi
        else:
            self.pages = None
        for _ in range(rng.choice([0, 1, 1, 1, 2]) if any(i['k'] == 't' for i in self.imports) else rng.choice([1, 1, 2, 2, 3])):
            lo = rng.choice([0, 1, 2, 3, 5, 5, 8, 8])
            sp['tables'].append([rng.choice('ffffx'), lo, rng.choice([None, lo, lo + 1, lo + 3, lo + 20])])
        self.tabs = [(i['ty'], i['lo'], i['hi']) for i in self.imports if i['k'] == 't'] + [tuple(t) for t in sp['tables']]
        ig = [(i['ty'], i['mut']) for i in self.imports if i['k'] == 'g']
        nfun = rng.randint(*o.get('funcs', (2, 6)))
        self.nif = sum(i['k'] == 'f' for i in self.imports)
        self.fsigs = [i['sig'] for i in self.imports if i['k'] == 'f'] + [list(rng.choice(SIGS)) for _ in range(nfun)]
        if rng.random() < .15:
            self.fsigs[-1] = ['fi', 'i']
        for _ in range(rng.randint(1, 4)):
            ty = rng.choice('iiIf') if rng.random() > .08 else 'x'
            if ty in 'iI':
                init = ['c', ty, rng.choice([0, 1, 7, -1, 100])]
                cand = [k for k, (t, m) in enumerate(ig) if t == ty and m == 0]
                if cand and rng.random() < .5:
                    init = ['gg', rng.choice(cand)]
            elif ty == 'f':
                init = ['rf', rng.randrange(len(self.fsigs))] if rng.random() < .6 else ['rnull', 'f']
            else:
                init = ['rnull', 'x']
            sp['globals'].append([ty, int(rng.random() < .8), init])
        self.globs = ig + [(g[0], g[1]) for g in sp['globals']]
        igi = [k for k, (t, m) in enumerate(ig) if t == 'i' and m == 0]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            t = rng.randrange(len(self.tabs)) if self.tabs else None
            if t is None:
                break
            ty = self.tabs[t][0]
            n = rng.choice([0, 1, 2, 3, 5])
            items = [rng.randrange(len(self.fsigs)) if ty == 'f' and rng.random() < .85 else None for _ in range(n)]
            e = {'mode': rng.choice('aaapppd'), 't': t, 'ty': ty, 'items': items}
            if e['mode'] == 'a':
                lo = self.tabs[t][1]
                if rng.random() > .05:
                    items = e['items'] = items[:lo]
                    n = len(items)
                off = max(0, lo - n) if rng.random() > o.get('badseg', .035) else lo + 1
                e['off'] = ['c', 'i', rng.randint(0, off) if rng.random() < .6 else off]
                if igi and rng.random() < .12:
                    e['off'] = ['gg', rng.choice(igi)]
            for f in ('ex', 'two'):
                if rng.random() < .3:
                    e[f] = 1
            sp['elems'].append(e)
        if self.pages is not None:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                n = rng.choice([0, 1, 4, 9, 40, 300])
                d = {'mode': rng.choice('aappp'), 'data': ''.join(chr(rng.randrange(1, 256)) for _ in range(n))}
                if d['mode'] == 'a':
                    top = self.pages * 65536 - n
                    off = rng.choice([0, 3, 100, top, max(top - 1, 0)]) if rng.random() > o.get('badseg', .035) else top + 1
                    d['off'] = ['c', 'i', max(0, off)]
                    if igi and rng.random() < .12:
                        d['off'] = ['gg', rng.choice(igi)]
                if rng.random() < .3:
                    d['two'] = 1
                sp['datas'].append(d)
        # what the tables will hold
        self.known = []
        for e in sp['elems']:
            if e['mode'] == 'a' and e['ty'] == 'f' and e['off'][0] == 'c':
                self.known += [(e['t'], e['off'][2] + j, x) for j, x in enumerate(e['items']) if x is not None]
        for i in range(nfun):
            self.fidx = self.nif + i
            sig = self.fsigs[self.fidx]
            self.types = list(sig[0]) + [rng.choice('iiiIIf' if rng.random() < .9 else 'x') for _ in range(rng.randint(1, 4))]
            self.busy = set()
            self.labels = [('blk', sig[1])]
            n = rng.randint(*o.get('stmts', (2, 6)))
            body = self.stmts(n, 2)
            ret = [self.expr(t, 2) for t in sig[1]]
            sp['funcs'].append({'sig': sig, 'loc': ''.join(self.types[len(sig[0]):]), 'body': body, 'ret': ret})
        if rng.random() < o.get('start', .2):
            c = [k for k in range(self.nif, len(self.fsigs)) if list(self.fsigs[k]) == ['', '']]
            if c:
                sp['start'] = rng.choice(c)
        return sp

    def bare(self, sp):
        """A module without functions: any number of its sections, from the first, make a module."""
        rng = self.rng
        sp['bare'] = 1
        imem = [i for i in self.imports if i['k'] == 'm']
        if not imem and rng.random() < .8:
            sp['mem'] = [rng.choice([0, 1, 2]), rng.choice([None, 2, 4])]
        for _ in range(rng.randint(0, 3)):
            ty = rng.choice('iI')
            sp['globals'].append([ty, int(rng.random() < .8), ['c', ty, rng.choice([0, 1, 7, -1, 100])]])
        lo = imem[0]['lo'] if imem else sp['mem'][0] if sp['mem'] else 0
        for _ in range(rng.randint(0, 3) if lo else 0):
            n = rng.choice([0, 1, 9, 40])
            sp['datas'].append({'mode': rng.choice('aap'), 'off': ['c', 'i', rng.choice([0, 3, 100, lo * 65536 - n])],
                                'data': ''.join(chr(rng.randrange(1, 256)) for _ in range(n))})
        return sp

    # ---- expressions ---------------------------------------------------------------------------------------------
    def num(self, ty):
        r = self.rng
        v = r.choice([0, 0, 1, 1, 2, 3, 5, 8, 255, 256, 65535, -1, -2, 0x7fffffff, r.getrandbits(32), r.randrange(64)])
        return v if ty == 'i' else r.choice([v, r.getrandbits(63)])

    def local(self, ty):
        c = [i for i, t in enumerate(self.types) if t == ty and i not in self.busy]
        return self.rng.choice(c) if c else None

    def newlocal(self, ty):
        self.types.append(ty)
        return len(self.types) - 1

    def leaf(self, ty):
        r = self.rng
        c = [('const', self.w['const'])]
        ls = [i for i, t in enumerate(self.types) if t == ty]
        if ls:
            c.append(('lg', self.w['lg']))
        gs = [i for i, (t, m) in enumerate(self.globs) if t == ty]
        if gs:
            c.append(('gg', self.w['gg']))
        k = weighted(r, c)
        if k == 'lg':
            return ['lg', r.choice(ls)]
        if k == 'gg':
            return ['gg', r.choice(gs)]
        if ty in 'iI':
            return ['c', ty, self.num(ty)]
        if ty == 'f' and r.random() < .75:
            return ['rf', r.randrange(len(self.fsigs))]
        return ['rnull', ty]

    def addr(self, width, d):
        """-> (offset, address expression)"""
        r = self.rng
        size = self.pages * 65536
        x = r.random()
        if x < self.w['oob'] or size < width:
            k = r.choice([0, 1, 2, 3])
            if k == 0:
                return 0, ['c', 'i', size - width + r.choice([1, 2, 7, width])]
            if k == 1:
                return r.choice([0xffffffff, 0x80000000, size]), ['c', 'i', r.choice([0, 1, -1, 5])]
            if k == 2:
                return r.choice([0, 1]), ['c', 'i', r.choice([-1, -width, -2147483648])]
            return r.choice([0, 3]), self.expr('i', d)
        if x < self.w['oob'] + self.w['edge']:
            page = r.choice([self.pages] * 9 + [self.pages + 1, 1])
            at = page * 65536 - width + r.choice([0, 0, -1, -2, -width])
            off = r.choice([0, 1, 16, max(at, 0)])
            off = min(off, max(at, 0))
            return off, ['c', 'i', at - off]
        if x < .75:
            off = r.choice([0, 0, 4, 100])
            return off, ['c', 'i', r.randrange(0, 600)]
        return r.choice([0, 8]), ['bin', 'i', 'and', self.expr('i', d - 1), ['c', 'i', r.choice([0xff, 0x3fff, 0xfff8])]]

    def tidx(self, t, d):
        r = self.rng
        n = self.tabs[t][1]
        if r.random() < self.w['badidx'] or n == 0:
            return r.choice([['c', 'i', n], ['c', 'i', -1], ['c', 'i', n + 2], self.expr('i', d)])
        if r.random() < .2 and d > 0:
            return ['bin', 'i', 'remu', self.expr('i', d - 1), ['tsize', t]]
        return ['c', 'i', r.randrange(n)]

    def callable(self, rets=None, any_=False):
        """Functions this one may call without recursion."""
        return [i for i, g in enumerate(self.fsigs) if (i < self.nif or i > self.fidx) and
                (any_ or g[1] == rets)]

    def expr(self, ty, d):
        r, w = self.rng, self.w
        if d <= 0:
            return self.leaf(ty)
        c = [('leaf', 5)]
        if ty in 'iI':
            c += [('bin', w['bin']), ('un', w['un']), ('div', w['div'])]
            if self.pages is not None:
                c.append(('ld', w['ld']))
                if ty == 'I':
                    c.append(('vld', w['vld'] * 3))
        if ty == 'i':
            c.append(('isnull', w['isnull']))
            if self.pages is not None:
                c += [('msize', w['msize']), ('mgrow', w['mgrow'])]
            if self.tabs:
                c += [('tsize', w['tsize']), ('tgrow', w['tgrow'])]
        if ty in 'fx' and any(t[0] == ty for t in self.tabs):
            c.append(('tget', 3))
        c += [('sel', w['sel']), ('blk', w['blk']), ('ife', w['ife'])]
        if self.local(ty) is not None:
            c.append(('lt', w['lt']))
        fs = self.callable(ty)
        if fs:
            c.append(('call', w['call']))
        if ty == 'i' and any(t[0] == 'f' for t in self.tabs) and (self.known or r.random() < .2):
            c.append(('calli', w['calli']))
        k = weighted(r, c)
        if k == 'leaf':
            return self.leaf(ty)
        if k == 'bin':
            o = r.choice(['add', 'sub', 'mul', 'and', 'or', 'xor'] + (['eq', 'lts', 'ltu'] if ty == 'i' else []))
            return ['bin', ty, o, self.expr(ty, d - 1), self.expr(ty, d - 1)]
        if k == 'div':
            return ['bin', ty, r.choice(['divs', 'divu', 'remu']), self.expr(ty, d - 1),
                    self.expr(ty, d - 1) if r.random() < .3 else ['c', ty, r.choice([1, 2, 3, 7, -1])]]
        if k == 'un':
            if ty == 'i':
                return ['un', 'eqz', self.expr('i', d - 1)] if r.random() < .6 else ['un', 'wrap', self.expr('I', d - 1)]
            return ['un', r.choice(['exts', 'extu']), self.expr('i', d - 1)]
        if k == 'ld':
            n = r.choice([x for x, v in LOADS.items() if v[0] == ty])
            return ['ld', n] + list(self.addr(LOADS[n][1], d - 1))
        if k == 'vld':
            if r.random() < .7:
                n = r.choice(list(VLOADS))
                return ['ld', n] + list(self.addr(VLOADS[n][0], d - 1)) + [r.randrange(2)]
            n = r.choice(list(LANES))
            return ['ld', n] + list(self.addr(LANES[n], d - 1)) + [r.randrange(2), r.randrange(16 // LANES[n])]
        if k == 'isnull':
            return ['isnull', self.expr('f' if r.random() < .8 else 'x', d - 1)]
        if k == 'msize':
            return ['msize']
        if k == 'mgrow':
            return ['mgrow', ['c', 'i', r.choice([0, 1, 1, 1, 2, 3]) if r.random() > w['biggrow'] else
                              r.choice([65537, -1, 0x7fffffff, 0x80000000, 70000, -2, 65536 * 3])]]
        if k == 'tsize':
            return ['tsize', r.randrange(len(self.tabs))]
        if k == 'tgrow':
            t = r.randrange(len(self.tabs))
            n = r.choice([0, 1, 1, 2, 2, 4, 9, 33]) if r.random() > w['biggrow'] else r.choice([-1, 0x7fffffff, 0x80000000, -3])
            if n not in range(50) and self.tabs[t][2] is None:
                n = 1
            return ['tgrow', t, self.expr(self.tabs[t][0], d - 1), ['c', 'i', n]]
        if k == 'tget':
            t = r.choice([i for i, x in enumerate(self.tabs) if x[0] == ty])
            return ['tget', t, self.tidx(t, d - 1)]
        if k == 'sel':
            return ['sel', self.expr('i', d - 1), self.expr(ty, d - 1), self.expr(ty, d - 1), ty]
        if k == 'blk':
            self.labels.append(('blk', ty))
            body = self.stmts(r.randint(0, 2), d - 1)
            e = self.expr(ty, d - 1)
            self.labels.pop()
            return ['blk', ty, body, e]
        if k == 'ife':
            cond = self.expr('i', d - 1)
            self.labels.append(('blk', ty))
            x = ['ife', ty, cond, self.stmts(r.randint(0, 1), d - 1), self.expr(ty, d - 1),
                 self.stmts(r.randint(0, 1), d - 1), self.expr(ty, d - 1)]
            self.labels.pop()
            return x
        if k == 'lt':
            return ['lt', self.local(ty), self.expr(ty, d - 1)]
        if k == 'call':
            f = r.choice(fs)
            return ['call', f, [self.expr(t, d - 1) for t in self.fsigs[f][0]]]
        t, sig, at = self.indirect('i', d)
        return ['calli', t, list(sig), [self.expr(x, d - 1) for x in sig[0]], at]

    def indirect(self, rets, d):
        """-> table, signature, index"""
        r = self.rng
        c = [k for k in self.known if (k[2] < self.nif or k[2] > self.fidx) and
             (rets is None or self.fsigs[k[2]][1] == rets)]
        if c and r.random() < .9:
            t, at, f = r.choice(c)
            return t, self.fsigs[f], ['c', 'i', at]
        t = r.choice([i for i, x in enumerate(self.tabs) if x[0] == 'f'])
        return t, r.choice([g for g in SIGS if rets is None or g[1] == rets]), self.tidx(t, d - 1)

    # ---- statements ----------------------------------------------------------------------------------------------
    def stmts(self, n, d):
        return [self.stmt(d) for _ in range(n)]

    def span(self, d):
        """destination, source, count for bulk operations on memory"""
        r = self.rng
        size = self.pages * 65536
        if r.random() < self.w['oob']:
            n = r.choice([1, 5, 300, -1])
            a, b = r.choice([(size - 3, 0), (0, size - 3), (size, size), (size + 1, 0), (-1, 2), (0, -1)])
            return [['c', 'i', a], ['c', 'i', b], ['c', 'i', n]]
        n = r.choice([0, 1, 3, 8, 17, 60, 60, 150, 400, 1500])
        a = r.choice([r.randrange(600), r.randrange(600), max(0, size - n)])
        b = r.choice([r.randrange(600), a + 1, max(0, a - 1), a + n // 2, max(0, a - n // 2), max(0, size - n)])
        return [['c', 'i', a], ['c', 'i', b], ['c', 'i', n]]

    def tspan(self, ta, nb, d):
        r = self.rng
        na = self.tabs[ta][1]
        if r.random() < self.w['oob'] * 1.5:
            return [['c', 'i', r.choice([na, na + 1, -1, 0])], ['c', 'i', r.choice([nb, nb + 1, -1, 0])],
                    ['c', 'i', r.choice([1, 2, nb + 1, na + 1, -1])]]
        n = r.randint(0, max(0, min(na, nb)))
        return [['c', 'i', r.randint(0, na - n)], ['c', 'i', r.randint(0, max(0, nb - n))], ['c', 'i', n]]

    def seg(self, segs):
        p = [i for i, x in enumerate(segs) if x['mode'] == 'p']
        return self.rng.choice(p) if p and self.rng.random() < .85 else self.rng.randrange(len(segs))

    def target(self, want=None):
        c = [i for i, x in enumerate(self.labels) if x[0] == 'blk' and (want is None or x[1] == want)]
        return self.rng.choice(c)

    def stmt(self, d):
        r, w = self.rng, self.w
        c = [('drop', w['drop']), ('ls', w['ls']), ('brif', w['brif']), ('callm', w['callm'])]
        if any(m for _, m in self.globs):
            c.append(('gs', w['gs'] * 1.5))
        if self.pages is not None:
            c += [(k, w[k]) for k in ('st', 'vst', 'fill', 'copy')]
            if self.sp['datas'] and not self.sp.get('nodc') and (r.random() < .15 or any(x['mode'] == 'p' for x in self.sp['datas'])):
                c += [('init', w['init']), ('ddrop', w['ddrop'])]
        if self.tabs:
            c += [(k, w[k]) for k in ('tset', 'tfill', 'tcopy')]
            if self.sp['elems'] and (r.random() < .15 or any(x['mode'] == 'p' for x in self.sp['elems'])):
                c += [('tinit', w['tinit']), ('edrop', w['edrop'])]
            if any(t[0] == 'f' for t in self.tabs) and (self.known or r.random() < .2):
                c.append(('callim', w['callim']))
        if d > 0:
            c += [(k, w[k]) for k in ('block', 'if', 'mv', 'loop', 'br', 'brtab', 'ret', 'trap')]
            if any(x[0] == 'loop' for x in self.labels):
                c.append(('cont', w['cont']))
        k = weighted(r, c)
        if k == 'drop':
            return ['drop', self.expr(r.choice('iiIf'), d + 1)]
        if k == 'ls':
            ty = r.choice('iiIf')
            x = self.local(ty)
            if x is None:
                x = self.newlocal(ty)
            return ['ls', x, self.expr(ty, d)]
        if k == 'gs':
            g = r.choice([i for i, (t, m) in enumerate(self.globs) if m])
            return ['gs', g, self.expr(self.globs[g][0], d)]
        if k == 'st':
            n = r.choice(list(STORES))
            return ['st', n] + list(self.addr(STORES[n][1], d)) + [self.expr(STORES[n][0], d)]
        if k == 'vst':
            if r.random() < .6:
                return ['st', 'v128.store'] + list(self.addr(16, d)) + [self.expr('I', d)]
            n = r.choice(list(SLANES))
            return ['st', n] + list(self.addr(SLANES[n], d)) + [self.expr('I', d), r.randrange(16 // SLANES[n])]
        if k == 'fill':
            a, b, n = self.span(d)
            return ['fill', a, self.expr('i', d - 1), n]
        if k == 'copy':
            return ['copy'] + self.span(d)
        if k == 'init':
            g = self.seg(self.sp['datas'])
            ln = len(self.sp['datas'][g]['data'])
            a, b, n = self.span(d)
            if r.random() < .85:
                m = r.randint(0, ln)
                b, n = ['c', 'i', r.randint(0, ln - m)], ['c', 'i', m]
            return ['init', g, a, b, n]
        if k == 'ddrop':
            return ['ddrop', r.randrange(len(self.sp['datas']))]
        if k == 'edrop':
            return ['edrop', r.randrange(len(self.sp['elems']))]
        if k == 'tset':
            t = r.randrange(len(self.tabs))
            return ['tset', t, self.tidx(t, d), self.expr(self.tabs[t][0], d)]
        if k == 'tfill':
            t = r.randrange(len(self.tabs))
            a, _, n = self.tspan(t, self.tabs[t][1], d)
            return ['tfill', t, a, self.expr(self.tabs[t][0], d), n]
        if k == 'tcopy':
            a = r.randrange(len(self.tabs))
            b = r.choice([i for i, x in enumerate(self.tabs) if x[0] == self.tabs[a][0]])
            return ['tcopy', a, b] + self.tspan(a, self.tabs[b][1], d)
        if k == 'tinit':
            e = self.seg(self.sp['elems'])
            ty = self.sp['elems'][e]['ty']
            t = r.choice([i for i, x in enumerate(self.tabs) if x[0] == ty])
            return ['tinit', e, t] + self.tspan(t, len(self.sp['elems'][e]['items']), d)
        if k == 'block':
            self.labels.append(('blk', ''))
            b = self.stmts(r.randint(1, 3), d - 1)
            self.labels.pop()
            return ['block', b]
        if k == 'if':
            cond = self.expr('i', d - 1)
            self.labels.append(('blk', ''))
            x = ['if', cond, self.stmts(r.randint(1, 2), d - 1), self.stmts(r.choice([0, 0, 1, 2]), d - 1)]
            self.labels.pop()
            return x
        if k == 'mv':
            pt, rt = r.choice(['', 'i', 'iI', 'ii']), r.choice(['i', 'iI', 'ii', 'Ii', ''])
            args = [self.expr(t, d - 1) for t in pt]
            pl = [self.newlocal(t) for t in pt]
            self.labels.append(('blk', rt))
            body = self.stmts(r.randint(0, 2), d - 1)
            res = [self.expr(t, d - 1) for t in rt]
            self.labels.pop()
            return ['mv', pt, args, pl, body, res, rt, [self.newlocal(t) for t in rt]]
        if k == 'loop':
            ctr = self.newlocal('i')
            self.busy.add(ctr)
            carry = None
            cty = r.choice('iI')
            if r.random() < .4:
                carry = self.newlocal(cty)
            self.labels.append(('loop', cty if carry is not None else '', ctr, carry))
            body = self.stmts(r.randint(1, 2), d - 1)
            self.labels.pop()
            return ['loop', ctr, r.randint(1, 4), body, carry, cty]
        if k == 'cont':
            return ['cont', r.choice([i for i, x in enumerate(self.labels) if x[0] == 'loop'])]
        if k in ('br', 'brif'):
            l = self.target()
            vals = [self.expr(t, d - 1) for t in self.labels[l][1]]
            return ['br', l, vals] if k == 'br' else ['brif', l, vals, self.expr('i', d)]
        if k == 'brtab':
            l = self.target()
            same = [i for i, x in enumerate(self.labels) if x[0] == 'blk' and x[1] == self.labels[l][1]]
            return ['brtab', [r.choice(same) for _ in range(r.randint(0, 3))], l,
                    [self.expr(t, d - 1) for t in self.labels[l][1]],
                    ['bin', 'i', 'and', self.expr('i', d - 1), ['c', 'i', 3]]]
        if k == 'ret':
            return ['ret', [self.expr(t, d - 1) for t in self.labels[0][1]]]
        if k == 'trap':
            return ['trap']
        if k == 'callim':
            t, sig, at = self.indirect(None, d)
            return ['callim', t, list(sig), [self.expr(x, d - 1) for x in sig[0]], at, self.dest(sig[1])]
        fs = self.callable(any_=True)
        if not fs:
            return ['nop']
        f = r.choice(fs)
        return ['callm', f, [self.expr(t, d - 1) for t in self.fsigs[f][0]], self.dest(self.fsigs[f][1])]

    def dest(self, rets):
        return [self.newlocal(t) if self.rng.random() < .7 else None for t in rets]


def rec_module(rng, kind):
    """Functions that call themselves for ever, each in a different manner, counting in a global."""
    inc = ['gs', 0, ['bin', 'i', 'add', ['gg', 0], ['c', 'i', 1]]]
    sp = {'imports': [], 'funcs': [], 'tables': [['f', 4, 4]], 'mem': [1, 1], 'globals': [['i', 1, ['c', 'i', 0]]],
          'elems': [{'mode': 'a', 't': 0, 'ty': 'f', 'items': [0, 1, 2, 3], 'off': ['c', 'i', 0]}], 'datas': [],
          'start': None}
    sp['funcs'] = [
        {'sig': ['', ''], 'loc': '', 'body': [inc, ['callm', 0, [], []]], 'ret': []},
        {'sig': ['i', 'i'], 'loc': 'i', 'body': [inc, ['block', [['drop', ['bin', 'i', 'add', ['lg', 0], ['call', 1, [['lg', 0]]]]]]]],
         'ret': [['c', 'i', 1]]},
        {'sig': ['i', 'i'], 'loc': '', 'body': [inc], 'ret': [['blk', 'i', [], ['calli', 0, ['i', 'i'], [['lg', 0]], ['lg', 0]]]]},
        {'sig': ['i', 'i'], 'loc': 'ii', 'body': [inc, ['loop', 1, 2, [['if', ['c', 'i', 1], [['callm', 3, [['lg', 0]], [2]]], []]], None, 'i']],
         'ret': [['lg', 2]]},
        # exactly as deep as asked
        {'sig': ['i', 'i'], 'loc': '', 'body': [inc, ['if', ['un', 'eqz', ['lg', 0]], [['ret', [['c', 'i', 77]]]], []]],
         'ret': [['call', 4, [['bin', 'i', 'sub', ['lg', 0], ['c', 'i', 1]]]]]},
    ]
    return sp
