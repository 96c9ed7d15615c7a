from .. import gen as G
from ..lock import LockCheck

PATHS = {'path_open': 10, 'path_create_directory': 4, 'path_filestat_get': 4, 'path_filestat_set_times': 3,
         'path_link': 4, 'path_readlink': 3, 'path_remove_directory': 3, 'path_rename': 5, 'path_symlink': 6,
         'path_unlink_file': 4, 'fd_close': .5, 'fd_readdir': .3, 'fd_write': .3, 'fd_renumber': .2}
PRE = '/home/pre'
OUT = ['../outside', '/home/outside', '../outside/secret', '/etc/passwd', '../outside/sub', '..', '/', '../prefix',
       '../outside/sub/f1', '/secret', '../../../../etc', 'd0/../../outside']


class C01(LockCheck):
    """Confinement: lockstep with the model; in part of the runs another process swaps entries between system calls."""
    id = 'C01'
    runs = {'quick': 5000, 'thorough': 120000}
    nops = (15, 40)
    mix = PATHS
    rule = ('one evaluation is one session of guest calls on a seeded tree (links of every sort, five preopen shapes) '
            'judged call by call against the reference model; sessions of the "race" kind also have another process '
            'swap entries for links to the outside at seeded system calls inside the call. Counted as distinct: '
            'sessions with at least one successful call and a different trace of results, system calls, faults and '
            'interference points.')

    def configs(self, rng):
        return rng.choices([{'name': 'plain'}, {'name': 'race', 'race': .5},
                            {'name': 'faults', 'faults': .3, 'kinds': ('err',)}], [4, 5, 2])[0]

    def tune(self, g, rng):
        g.escape = rng.choice([.1, .3, .5])
        g.deep = rng.choice([.5, .9])
        g.full_rights = .97

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        c = spec['conf']
        if c.get('race') and op['op'].startswith('path_') and rng.random() < c['race']:
            op['hooks'] = self.swaps(g, rng, s, op)
        return op

    def swaps(self, g, rng, s, op):
        """Interference aimed at the very names the call uses."""
        pre = s.k.raw_get(b'/home/pre')
        if pre is None:
            return []
        ents = G.entries(s, pre, 2)
        used = []
        for f in ('path', 'path2'):
            p = op.get(f, '')
            parts = [x for x in p.split('/') if x not in ('', '.')]
            for i in range(1, len(parts) + 1):
                q = '/'.join(parts[:i])
                if '..' not in parts[:i] and len(q) < 200 and '\0' not in q:
                    used.append(PRE + '/' + q)
        alln = [PRE + '/' + G.S(p) for p, n in ents]
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = rng.choice(used) if used and rng.random() < .8 else rng.choice(alln or [PRE + '/a'])
            at = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7])
            x = rng.random()
            if x < .6:
                r = {'op': 'h_swaplink', 'a': a, 'b': PRE + '/moved%d' % rng.randrange(3),
                     't': rng.choice(OUT + ['d0', 'f0', 'lnk'])}
            elif x < .75:
                r = {'op': 'h_swap', 'a': a, 'b': rng.choice(alln or [a])}
            elif x < .85:
                r = {'op': 'h_unlink', 'a': a}
            elif x < .95:
                r = {'op': 'h_symlink', 'a': a, 't': rng.choice(OUT)}
            else:
                r = {'op': 'h_mkdir', 'a': a}
            out.append([at, r])
        out.sort(key=lambda h: h[0])
        return out

    def race(self, spec):
        return bool(spec['conf'].get('race'))

    def relevant(self, cat, info):
        op = (info or {}).get('op', {}).get('op', '')
        if cat == 'escape':
            return True
        if not op.startswith('path_'):
            return False
        if cat in ('success', 'out') and 'NOTCAPABLE' in info.get('expected', ''):
            return True
        return cat in ('fail', 'errno') and info.get('result') in ('PERM', 'NOTCAPABLE', 'LOOP', 'XDEV') or \
            cat == 'fail' and 'NOTCAPABLE' not in info.get('expected', '') or cat in ('exc', 'hang')


CHECK = C01()
