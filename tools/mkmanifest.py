"""Writes MANIFEST.json: a check for every property that has a module in dst/checks, the rest not applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'C22': 'a pure function of its operands: no schedule, clock, fault, I/O or second party is involved, so a simulator decides nothing here',
    'C23': 'a pure function of the program: execution is sequential and deterministic, nothing for a scheduler or fault plan to vary',
    'C24': 'a pure function of the bytes; what reading can do to a load (truncation, failing reads) is property C16',
    'C25': 'a pure predicate over two declarations: no schedule, fault or history takes part (what a rejected instantiation leaves behind is in C13 and C21)',
}
NOTE = {}
T = ('deterministic simulation with fault injection: the real pywasm runs on a simulated kernel (files, descriptors, '
     'sockets, clocks, entropy) in one process; seeded search over calls, schedules and faults; oracle: ')
ORACLE = {
    'C01': 'reference model with capability-style path resolution, plus invariants on every object outside the preopens while a simulated process swaps entries between system calls',
    'C02': 'reference model predicting the set of admissible errnos, extended by the errno of every injected host fault',
    'C03': 'byte-sequence model of files, pipes and streams compared after every call under short transfers and host writers',
    'C04': 'full host-state comparison before/after every failed call, errors injected at every system call, then probe and retry',
    'C05': 'descriptor-table ownership model under faults, number reuse by the embedder and every program ending',
    'C06': 'rights model compared with every outcome, single rights withdrawn per call',
    'C07': 'scan model over recorded readdir histories with creations, removals and renames between and inside calls',
    'C08': 'crash at any system call with only durable state surviving, compared with the synced history; failing syncs',
    'C09': 'virtual clocks with jumps and suspensions inside calls; timestamps compared with the inode model',
    'C10': 'virtual-time readiness model: returned events, earliest deadline, wake-up time',
    'C11': 'peer scripts with segmentation, delay, half-close and reset; byte-stream and datagram history model',
    'C12': 'byte-for-byte memory comparison with wild pointers, short transfers and host errors',
    'C13': 'reference interpreter with the failure placed at a seeded instruction (trap, exception, interrupt)',
    'C14': 'reference memory/table model with host allocation failing at seeded grows',
    'C15': 'isolation: each runtime/instance compared with its solo execution under seeded interleavings',
    'C16': 'simulated module file: truncation, failing and short reads, then reload',
    'C17': 'recorded streams and exit status against the program\'s script under short writes and all endings',
    'C18': 'bookkeeping of the simulated entropy source and failing entropy',
    'C19': 'inode model followed through renames, removals and replacements by guest and host between and inside calls',
    'C20': 'POSIX namespace model; linearizability search over seeded interleavings of several guests at system calls',
    'C21': 'reference model of shared objects across seeded link graphs with traps and failed instantiations',
    'C26': 'the seeded options themselves: exact output, files and status of a simulated process whose opens, reads and writes fail',
    'C27': 'trace equality of the same seeded execution with logging off and on, the log stream failing at a seeded write',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'dst', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 -B -m dst.run %s' % i,
                       'thorough_cmd': 'python3 -B -m dst.run %s --tier thorough' % i,
                       'technique': T + ORACLE[i], 'level': 'exploration',
                       'level_note': NOTE.get(i, 'seeded sampling of histories, schedules and faults: evidence, not proof; '
                                              'the host is a simulated kernel, see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -B -c "import dst.runner"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
