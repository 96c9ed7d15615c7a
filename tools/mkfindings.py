"""Writes known-findings.jsonl from the fix commits in /repo (run after each fix commit)."""
import os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
# subject of the commit -> (property, what failed)
WHAT = {
 'positioned reads and writes on a captured': ('C03', 'fd_pread and fd_pwrite on a captured stream read and wrote the stream of the host behind it when that was a file'),
 'report host errors and malformed': ('C02', 'host exceptions (EIO, ENOSPC, EMFILE, bad UTF-8, NUL, huge numbers ...) reached the guest as traps or as unrelated errnos'),
 'keep wasi paths beneath': ('C01', 'symbolic links, sibling directories sharing a name prefix and absolute paths led outside the preopened directory'),
 'fd_seek must not move': ('C04', 'a failing fd_seek moved the offset'),
 'MemInst accesses outside': ('C12', 'negative and out-of-range addresses wrapped around or grew the memory'),
 'fd_read and fd_pread must transfer': ('C03', 'fd_read blocked on a second iovec although data had been read; short reads lost data'),
 'fd_filestat_get must describe': ('C19', 'fd_filestat_get looked the old name up instead of the open file'),
 'MTIM_NOW of fd_filestat': ('C09', 'MTIM_NOW did not set the current time'),
 'fd_datasync must synchronize': ('C08', 'fd_datasync did nothing'),
 'fd_datasync on hosts': ('C08', 'fd_datasync on hosts without os.fdatasync'),
 'honour the descriptor flags': ('C08', 'SYNC/DSYNC/APPEND/NONBLOCK of path_open and fd_fdstat_set_flags were ignored or mistranslated'),
 'random_get must use the secure': ('C18', 'random_get used the seedable generator'),
 'the standard streams are no preopened': ('C05', 'standard streams reported a prestat'),
 'fd_allocate must be atomic': ('C03', 'fd_allocate moved the offset and left traces on failure'),
 'close each host descriptor exactly once': ('C05', 'fd_renumber and fd_close closed descriptors twice or never, including reused numbers'),
 'wasi.main must release': ('C05', 'descriptors leaked and captured output was not rewound on some endings'),
 'path_open must not grant more': ('C06', 'path_open granted more rights than the directory passes on'),
 'path_open must not leak': ('C05', 'path_open leaked the host descriptor when fstat failed'),
 'fd_readdir must report every': ('C07', 'fd_readdir repeated and skipped entries, wrong types and names, endless scans'),
 'poll_oneoff must not leave parts': ('C10', 'poll_oneoff left nbytes and flags of its events unwritten (stale guest memory)'),
 'poll_oneoff must return exactly': ('C10', 'poll_oneoff returned early or late, with wrong events'),
 'sock_accept must return a working': ('C11', 'sock_accept returned a closed connection'),
 'sock_recv must report truncation': ('C11', 'sock_recv reported truncation for streams'),
 'count bytes, not characters': ('C12', 'non-ASCII arguments, environment and link targets were written beyond the declared sizes'),
 'an unknown clock is an error': ('C09', 'an unknown clock was not an error'),
 'a branch to the outermost label': ('C21', 'a br to the outermost label of a called function left the callee frame in place'),
 'run every entry from the embedder': ('C13', 'operands and frames of a failed call survived into later calls'),
 'a declared maximum of 0': ('C14', 'a declared maximum of 0 was ignored'),
 'memory.grow and table.grow must fail': ('C14', 'MemoryError of the host escaped memory.grow and table.grow'),
 'dropping a data segment': ('C15', 'data.drop emptied the segment of the parsed module, visible in other instances'),
 'loading must fail on modules': ('C16', 'truncated modules were loaded half or forever'),
 'i64.div_u must accept': ('C22', 'i64.div_u failed on quotients of 2^63 and more (met while building the reference interpreter)'),
 'only preopened directories have': ('C05', 'renumbered preopens kept and other descriptors gained a prestat'),
 'opening calls must not leave': ('C04', 'path_open and sock_accept with a result pointer outside the memory left a descriptor behind; sock_accept on a socket that does not listen said AGAIN'),
 'unknown descriptor flags': ('C02', 'descriptor flags beyond the known ones were stored and made fd_fdstat_get raise'),
 'random_get must not draw': ('C12', 'random_get drew up to 4 GiB from the host before noticing that the buffer is outside of the memory'),
}
extra = os.path.join(here, 'tools', 'findings_extra.txt')
if os.path.exists(extra):
    for l in open(extra):
        if l.strip():
            k, p, w = l.rstrip('\n').split('\t')
            WHAT[k] = (p, w)
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [v for k, v in WHAT.items() if s[5:].startswith(k)]
    if not m:
        print('MISSING', line)
        continue
    out.append('fixed: property=%s %s %s' % (m[0][0], h, m[0][1]))
path = os.path.join(here, 'known-findings.jsonl')
keep = [l.rstrip('\n') for l in open(path) if l.startswith('{')] if os.path.exists(path) else []
open(path, 'w').write('\n'.join(out + keep) + '\n')
print(len(out), 'fixed', len(keep), 'known')
