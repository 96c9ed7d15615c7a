from .. import gen as G
from ..lock import LockCheck, MIX, SOCKMIX, socks
from ..refwasi import R, U64

MIX6 = dict(MIX, fd_fdstat_set_rights=9, fd_fdstat_get=4, path_open=9, fd_renumber=1.5)
# call -> the rights it needs (on which descriptor argument)
NEED = {'fd_advise': ['FD_ADVISE'], 'fd_allocate': ['FD_ALLOCATE'], 'fd_datasync': ['FD_DATASYNC'],
        'fd_fdstat_set_flags': ['FD_FDSTAT_SET_FLAGS'], 'fd_filestat_get': ['FD_FILESTAT_GET'],
        'fd_filestat_set_size': ['FD_FILESTAT_SET_SIZE'], 'fd_filestat_set_times': ['FD_FILESTAT_SET_TIMES'],
        'fd_pread': ['FD_READ'], 'fd_pwrite': ['FD_WRITE'], 'fd_read': ['FD_READ'], 'fd_write': ['FD_WRITE'],
        'fd_readdir': ['FD_READDIR'], 'fd_seek': ['FD_SEEK'], 'fd_sync': ['FD_SYNC'], 'fd_tell': ['FD_TELL'],
        'path_create_directory': ['PATH_CREATE_DIRECTORY'], 'path_filestat_get': ['PATH_FILESTAT_GET'],
        'path_filestat_set_times': ['PATH_FILESTAT_SET_TIMES'], 'path_link': ['PATH_LINK_SOURCE', 'PATH_LINK_TARGET'],
        'path_open': ['PATH_OPEN', 'PATH_CREATE_FILE', 'PATH_FILESTAT_SET_SIZE'], 'path_readlink': ['PATH_READLINK'],
        'path_remove_directory': ['PATH_REMOVE_DIRECTORY'], 'path_rename': ['PATH_RENAME_SOURCE', 'PATH_RENAME_TARGET'],
        'path_symlink': ['PATH_SYMLINK'], 'path_unlink_file': ['PATH_UNLINK_FILE'], 'sock_accept': ['SOCK_ACCEPT'],
        'sock_recv': ['FD_READ'], 'sock_send': ['FD_WRITE'], 'sock_shutdown': ['SOCK_SHUTDOWN']}


class C06(LockCheck):
    """Rights: every call with each of its rights missing, on every sort of descriptor; rights only ever shrink."""
    id = 'C06'
    runs = {'quick': 6000, 'thorough': 150000}
    nops = (25, 55)
    mix = MIX6
    rule = ('one evaluation is one session of 25-55 calls in which rights are dropped from descriptors (often exactly '
            'the one the next call needs), descriptors are opened with arbitrary 64-bit rights, renumbered and '
            'queried; every call is judged against the rights the model tracks. Counted as distinct: sessions with '
            'at least one successful call and a different trace of results and system calls.')

    def configs(self, rng):
        return {'name': rng.choice(['single right', 'random rights'])}

    def init(self, rng):
        i = G.world(rng, rich=rng.random() < .5)
        if rng.random() < .5:
            i['socks'] = socks(rng, rights=True)
        return i

    def tune(self, g, rng):
        self.mix = dict(MIX6, **SOCKMIX) if g.s.init.get('socks') else MIX6
        g.full_rights = rng.choice([.3, .7, .95])
        g.escape = .03
        g.ignore_rights = .5
        g.std = .1
        self.pend = None

    def next_op(self, g, rng, s, spec, i):
        if i < self.prelude:
            return g.op('path_open')
        if self.pend:
            o, self.pend = self.pend, None
            return o
        if spec['conf']['name'] == 'single right' and rng.random() < .35:
            # drop one right a call needs, make the call
            name = rng.choice([n for n in NEED if s.init.get('socks') or not n.startswith('sock')])
            o = g.op(name)
            f = 'fd2' if rng.random() < .4 and 'fd2' in o else 'fd'
            x = g.g(o.get(f))
            if x is not None and x.open:
                self.pend = o
                return {'op': 'fd_fdstat_set_rights', 'fd': o[f], 'base': x.base & ~R[rng.choice(NEED[name])],
                        'inh': x.inh}
            return o
        return LockCheck.next_op(self, g, rng, s, spec, i)

    def observe(self, r, s, op, bad):
        LockCheck.observe(self, r, s, op, bad)
        if s.out is not None and s.out.errs and 'NOTCAPABLE' in s.expect(s.out) and s.last.val in (76, 63):
            r.probe('denied: ' + op['op'])

    def relevant(self, cat, info):
        i = info or {}
        op = i.get('op', {}).get('op')
        if cat in ('rights', 'norights'):
            return True
        if cat == 'success':
            return 'NOTCAPABLE' in i.get('expected', '')
        if cat in ('fail', 'errno'):
            return i.get('result') in ('NOTCAPABLE', 'PERM') or 'NOTCAPABLE' in i.get('expected', '')
        if cat in ('out', 'exc'):
            return op in ('fd_fdstat_get', 'fd_fdstat_set_rights')
        return cat == 'trace' and 'NOTCAPABLE' in i.get('expected', '')


CHECK = C06()
