from .. import gen as G
from ..lock import LockCheck

MIX19 = {'path_open': 6, 'fd_close': .7, 'fd_filestat_get': 9, 'path_filestat_get': 7, 'fd_filestat_set_times': 4,
         'fd_filestat_set_size': 4, 'fd_allocate': 3, 'fd_fdstat_get': 3, 'fd_fdstat_set_flags': 2, 'fd_write': 2,
         'path_rename': 5, 'path_unlink_file': 4, 'path_link': 2.5, 'path_symlink': 1, 'path_create_directory': 2,
         'path_remove_directory': 2, 'fd_renumber': .8, 'fd_readdir': 2, 'fd_read': 1, 'path_filestat_set_times': 1,
         'path_readlink': .5}
META = {'fd_filestat_get', 'path_filestat_get', 'fd_filestat_set_times', 'fd_filestat_set_size', 'fd_allocate',
        'fd_fdstat_get', 'fd_fdstat_set_flags', 'fd_readdir'}


class C19(LockCheck):
    """Metadata follows the open object through renames, removals and replacements by the guest and by others."""
    id = 'C19'
    runs = {'quick': 6000, 'thorough': 150000}
    nops = (25, 55)
    mix = MIX19
    prelude = 5
    rule = ('one evaluation is one session of 25-55 calls in which open files and directories are renamed, unlinked, '
            'replaced and recreated by the guest and by host processes (between and inside calls) while metadata is '
            'read and changed through the descriptors; records and host state are compared with the inode model. '
            'Counted as distinct: sessions with at least one successful call and a different trace of results, '
            'system calls, faults and interference.')

    def configs(self, rng):
        return rng.choices([{'name': 'guest'}, {'name': 'others', 'others': .35},
                            {'name': 'others+faults', 'others': .25, 'faults': .2, 'kinds': ('err',)}], [2, 4, 1])[0]

    def init(self, rng):
        return G.world(rng, kind=rng.choice(['data', 'two', 'nested', 'dot']), rich=rng.random() < .6)

    def tune(self, g, rng):
        g.weird, g.escape, g.badfd = .02, .02, .02
        g.full_rights = .97
        g.names = ['a', 'b', 'f0', 'f1', 'd0', 'd1', 'lnk']

    def other(self, rng, s):
        pre = s.k.raw_get(b'/home/pre')
        names = [G.S(p) for p, n in G.entries(s, pre, 2)] if pre is not None and pre.kind == 'dir' else []
        names = [n for n in names if len(n) < 200] or ['f0']
        a = '/home/pre/' + rng.choice(names)
        b = '/home/pre/' + rng.choice(names + ['a', 'b', 'd0/a'])
        return rng.choice([{'op': 'h_rename', 'a': a, 'b': b}, {'op': 'h_unlink', 'a': a}, {'op': 'h_swap', 'a': a, 'b': b},
                           {'op': 'h_create', 'a': b, 'data': G.content(rng)}, {'op': 'h_append', 'a': a, 'data': 'tail'},
                           {'op': 'h_truncate', 'a': a, 'n': rng.choice([0, 3, 50])}, {'op': 'h_link', 'a': a, 'b': b},
                           {'op': 'h_rmdir', 'a': a}, {'op': 'h_mkdir', 'a': b}])

    def next_op(self, g, rng, s, spec, i):
        if i < self.prelude:
            o = g.op('path_open')
            o.update({'path': rng.choice(['f0', 'f1', 'd0', 'f0', '.']), 'ofl': 0, 'dfl': 1, 'base': G.FILE_RIGHTS})
            if o['path'] in ('d0', '.'):
                o.update({'ofl': 2, 'base': G.DIR_RIGHTS, 'inh': G.DIR_RIGHTS | G.FILE_RIGHTS})
            return o
        if rng.random() < spec['conf'].get('others', 0):
            return self.other(rng, s)
        return LockCheck.next_op(self, g, rng, s, spec, i)

    def decorate(self, g, rng, s, spec, op):
        LockCheck.decorate(self, g, rng, s, spec, op)
        if op['op'] in META and op['op'].startswith('fd_') and rng.random() < spec['conf'].get('others', 0) * .5:
            op['hooks'] = [[rng.choice([1, 1, 2, 2, 3]), self.other(rng, s)]]
        return op

    def relevant(self, cat, info):
        op = (info or {}).get('op', {}).get('op', '')
        if op in META:
            return cat in ('out', 'times', 'type', 'flags', 'ns', 'data', 'errno', 'success', 'fail', 'exc', 'pos', 'trace')
        return cat in ('type', 'lost') or (op.startswith('path_') and cat == 'ns')


CHECK = C19()
