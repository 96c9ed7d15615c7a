"""Keeps a planted bug: plant.py SPEC.py [CHECK...]

SPEC.py defines id, prop, needs, breaks, edits = [(file, old, new), ...] and demo (the text of demo.py). The change is
made in a scratch copy of /repo which is mounted over /repo in a namespace of its own for the build, the tests and the
demonstration; seeded/<id>/ is written only if the tests pass and the demonstration tells the two trees apart. Each
CHECK is then run against the changed copy."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
bug, tmp = spec['id'], '/tmp/plant-%d' % os.getpid()
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def inside(cmd, **kw):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (tmp, cmd)],
                          capture_output=True, text=True, env=env, **kw)


def main():
    for f, old, new in spec['edits']:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(old) == 1, ('occurs', s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', tmp, 'diff'], capture_output=True, text=True).stdout
    lines, cur = [], None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-'):
            lines.append((cur, n)); n += 1
        elif l.startswith(' '):
            n += 1
    orig = 0
    for f, n in lines:
        b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), '6e51034..HEAD', '--', f],
                           capture_output=True, text=True).stdout
        orig += b.startswith('^')
    print('changed lines:', len(lines), 'original:', orig)
    d = '/tmp/demo-%d' % os.getpid()
    os.mkdir(d)
    open(d + '/demo.py', 'w').write(spec['demo'])
    shutil.copy(os.path.join(here, 'tools/guest.py'), d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds; otherwise it is broken\n'
                                    'exec python3 -B "$(dirname "$0")/demo.py"\n')
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True)
    b = inside('bash %s/demo.sh' % d)
    print('demo clean rc', a.returncode, a.stdout[-200:], a.stderr[-900:])
    print('demo bug rc', b.returncode, b.stdout[-200:], b.stderr[-300:])
    o = '/tmp/out-%d.json' % os.getpid()
    t = inside('bash /opt/vp/build.sh && bash /opt/vp/test.sh %s' % o)
    ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0 and orig > 0
    if os.path.exists(o):
        missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(o))['passed'])
        os.unlink(o)
    else:
        missing = {'no output'}
    print('build/tests rc', t.returncode, 'missing', missing)
    if ok and not missing:
        out = os.path.join(here, 'seeded', bug)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print('KEPT', out)
    else:
        print('REJECTED')
    shutil.rmtree(d)
    for c in sys.argv[2:]:
        r = subprocess.run(['python3', '-B', '-m', 'dst.run', c], cwd=here, capture_output=True, text=True,
                           env=dict(env, PYWASM_REPO=tmp, VERIF_EVID='/tmp/ev'))
        print(c, 'rc', r.returncode, '\n'.join(l[:260] for l in (r.stdout + r.stderr).splitlines()[-3:]))


shutil.copytree('/repo', tmp, symlinks=True)
try:
    main()
finally:
    shutil.rmtree(tmp)
