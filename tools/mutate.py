"""Mutation campaign: which small changes of pywasm do the checks not notice?

mutate.py list FILE [LO HI]                 writes one line per mutant: id, line, old text, new text
mutate.py run FILE LO HI OUT CHECKS RUNS    runs CHECKS (comma separated) on each mutant, RUNS executions each at most

FILE is relative to the repository. Every mutant is one textual change; the trees live under /tmp and are removed."""
import ast, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYWASM_REPO', '/repo')
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
       ast.GtE: ['>', '<'], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['+'], ast.BitAnd: ['|', '^'],
       ast.BitOr: ['&'], ast.BitXor: ['|'], ast.LShift: ['>>'], ast.RShift: ['<<']}


class Mut:
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.raw = text.encode()
        self.out = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        old = self.raw[a:b].decode()
        if old != new:
            self.out.append((n.lineno, a, b, old, new, what))

    def run(self, lo, hi):
        tree = ast.parse(self.text)
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
        for n in ast.walk(tree):
            if not hasattr(n, 'lineno') or not lo <= n.lineno <= hi:
                continue
            self.one(n)
        self.out.sort(key=lambda x: (x[0], x[1], x[2], x[4]))
        return self.out

    def skip(self, n):
        while n is not None:
            if isinstance(n, (ast.arg, ast.AnnAssign)) or isinstance(n, ast.Assert) and False:
                return True
            if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', 'into_disasm', 'into_single'):
                return True
            n = getattr(n, 'parent', None)
        return False

    def one(self, n):
        if self.skip(n):
            return
        s = self.src
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                self.put(n, '(%s %s %s)' % (s(n.left), o, s(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.Compare):
            for i in range(len(n.ops)):
                left = ([n.left] + n.comparators)[i]
                self.put(n, '(%s %s %s)' % (s(left), {ast.Lt: '<', ast.LtE: '<=', ast.Eq: '=='}.get(type(n.ops[i]), '<'),
                                            s(n.comparators[i])), 'chain')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.put(n, '(%s)' % op.join('(%s)' % s(v) for v in n.values), 'bool')
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            for i in range(len(n.values)):
                self.put(n, '(%s)' % op.join('(%s)' % s(v) for j, v in enumerate(n.values) if j != i), 'operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            self.put(n, '(%s)' % s(n.operand), 'unary')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                self.put(n, '(%s %s %s)' % (s(n.left), o, s(n.right)), 'binop')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.put(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                self.put(n, str(n.value + 1), 'const')
                if n.value:
                    self.put(n, str(n.value - 1), 'const')
        elif isinstance(n, (ast.If, ast.While)):
            self.put(n.test, 'True', 'if')
            self.put(n.test, 'False', 'if')
        elif isinstance(n, ast.IfExp):
            self.put(n, '(%s)' % s(n.body), 'ifexp')
            self.put(n, '(%s)' % s(n.orelse), 'ifexp')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Assert, ast.Delete)):
            if not isinstance(getattr(n, 'parent', None), (ast.Module, ast.ClassDef)):
                self.put(n, 'pass', 'delete')
            if isinstance(n, ast.Return) and n.value is not None and 'ERRNO_SUCCESS' not in s(n) and 'ERRNO_' in s(n):
                self.put(n, 'return [self.ERRNO_SUCCESS]', 'success')
                if 'ERRNO_INVAL' not in s(n):
                    self.put(n, 'return [self.ERRNO_INVAL]', 'errno')
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            if 'debugln' not in s(n):
                self.put(n, 'pass', 'delete')
        elif isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None:
                    self.put(h.type, 'ZeroDivisionError', 'handler')
            if n.finalbody:
                a, b = self.span(n.finalbody[0])[0], self.span(n.finalbody[-1])[1]
                self.out.append((n.finalbody[0].lineno, a, b, self.raw[a:b].decode(), 'pass', 'finally'))
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    a, b = self.off[k.lineno - 1] + k.col_offset, self.off[k.end_lineno - 1] + k.end_col_offset
                    rest = self.raw[:a].rstrip()
                    if rest.endswith(b','):
                        a = len(rest) - 1
                    self.out.append((k.lineno, a, b, self.raw[a:b].decode(), '', 'keyword'))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                self.put(n.slice.lower, '', 'slice')
            if n.slice.upper is not None:
                self.put(n.slice.upper, '', 'slice')
        elif isinstance(n, ast.Attribute) and (n.attr.startswith('RIGHTS_') or n.attr.startswith('FDFLAGS_') or n.attr.startswith('OFLAGS_')):
            if isinstance(n.value, ast.Name):
                self.put(n, '0', 'flag')


def mutants(f, lo=1, hi=10**9):
    return Mut(open(os.path.join(REPO, f)).read()).run(lo, hi)


def worker(slot, f, m, checks, runs):
    tree = '/tmp/mt/%d' % slot
    if not os.path.isdir(tree):
        shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns('.git', '__pycache__', 'example', 'res', 'test'))
    raw = open(os.path.join(REPO, f), 'rb').read()
    p = os.path.join(tree, f)
    open(p, 'wb').write(raw[:m[1]] + m[4].encode() + raw[m[2]:])
    env = dict(os.environ, PYWASM_REPO=tree, PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'judge', checks, str(runs)], env=env,
                           capture_output=True, text=True, timeout=900)
        res = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else 'ERROR ' + r.stderr[-200:].replace('\n', ' | ')
    except subprocess.TimeoutExpired:
        res = 'TIMEOUT'
    open(p, 'wb').write(raw)
    return res


def judge(checks, runs):
    sys.path.insert(0, HERE)
    import random
    from dst.runner import execute, load, relevant, seed_of
    from dst.kernel import SimUnsupported
    runs = int(runs)
    cs = [(c, load(c)) for c in checks.split(',')]
    step = 10
    for base in range(0, runs, step):
        for name, c in cs:
            for i in range(base, base + step):
                try:
                    spec = c.gen(random.Random(seed_of(99, name, i)), 'quick', i)
                    spec.update(prop=name, base=99, index=i)
                    r = execute(c, spec)
                except SimUnsupported as e:
                    print('UNSUPPORTED %s %s' % (name, e))
                    return
                except Exception as e:
                    print('HARNESS %s %r' % (name, e))
                    return
                v = relevant(c, r)
                if v:
                    print('KILLED %s %d %s %s' % (name, i, v[0][0], v[0][1][:120].replace('\n', ' ')))
                    return
    print('SURVIVED')


def main():
    cmd = sys.argv[1]
    if cmd == 'judge':
        return judge(*sys.argv[2:])
    f = sys.argv[2]
    lo, hi = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (1, 10**9)
    ms = mutants(f, lo, hi)
    if cmd == 'list':
        for i, m in enumerate(ms):
            print(i, m[0], m[5], repr(m[3])[:90], '->', repr(m[4])[:90])
        return
    out, checks, runs = sys.argv[5:8]
    if os.environ.get('AGAIN'):      # only what survived an earlier campaign
        keep = {(d['m'][0], d['m'][3], d['m'][4]) for d in map(json.loads, open(os.environ['AGAIN'])) if d['res'] == 'SURVIVED'}
        ms = [m for m in ms if (m[0], m[3], m[4]) in keep]
    n = int(os.environ.get('JOBS', '8'))
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)['m'][:5]) for l in open(out)}
    os.makedirs('/tmp/mt', exist_ok=True)
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)
    fo = open(out, 'a')

    def go(m):
        if tuple(m[:5]) in done:
            return
        s = slots.get()
        try:
            res = worker(s, f, m, checks, runs)
        finally:
            slots.put(s)
        fo.write(json.dumps({'m': m, 'res': res}) + '\n')
        fo.flush()
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, ms))


if __name__ == '__main__':
    main()
