"""Writes properties.jsonl (kept as a program so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe_at=None, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if observe_at: a["observe_at"] = observe_at
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

W = ["pywasm/wasi.py"]
C = ["pywasm/core.py"]

p("C01", "WASI paths never reach outside the preopened directory",
  "A WASI path operation only ever opens, creates, removes, renames, links, inspects or modifies objects inside the directory tree behind the descriptor it was given, whatever the path text ('..', absolute, sibling with the same name prefix), whatever symbolic links exist, whatever the preopen is called ('.', '/', nested), and even if another process swaps entries between any two host system calls. An escaping path returns an error (PERM or NOTCAPABLE) and changes nothing, inside or outside. A path that stays inside keeps working, through symbolic links whose targets stay inside as well.",
  ["inputs", "histories", "schedules"],
  "all directory trees, symlink graphs, preopen names and guest paths; all interleavings of a host process renaming/swapping entries with the host system calls of one WASI call",
  "test_wasi_* opens one fixed sibling path and one '..' path; no test has symlinks that leave the tree, a preopen called '.' or '/', or a concurrent renamer",
  W, ["path_open", "path_create_directory", "path_filestat_get", "path_filestat_set_times", "path_link", "path_readlink", "path_remove_directory", "path_rename", "path_symlink", "path_unlink_file", "help_escp"],
  ["system calls issued on the host, host tree outside the preopen, bytes returned to the guest"])

p("C02", "Bad input and host errors come back as the matching WASI errno",
  "A WASI call whose pointers lie inside guest memory always returns to the guest: no malformed argument (unknown descriptor, flag, clock, whence or event type, path that is not UTF-8 or contains NUL, negative or huge number) and no error reported by the host operating system becomes a host exception, a trap or a hang. The value returned is the WASI errno of the failure that actually happened (ENOENT is NOENT, ENOTEMPTY is NOTEMPTY, ENOSPC is NOSPC, EMFILE is MFILE, EIO is IO, ...), never success and never an unrelated code. The runtime stays usable for the following calls.",
  ["inputs", "fault_sequences"],
  "all argument values of all 46 imported functions with in-bounds pointers; every host errno on every host system call a WASI call makes",
  "the tests reach a handful of errors on a healthy Linux filesystem; a disk error, a full disk or an exhausted descriptor table never happens in them",
  W, ["every function registered by bind()", "the except clauses mapping OSError to ERRNO_*"],
  ["return value of the imported function seen by the guest"])

p("C03", "File contents and offsets behave as one byte sequence per open file",
  "Any sequence of fd_read, fd_write, fd_pread, fd_pwrite, fd_seek, fd_tell, fd_allocate, fd_filestat_set_size, append-mode writes and flag changes on any number of descriptors gives the bytes, counts, sizes and offsets of a sequential file: counts returned are exactly the bytes transferred, scattered or gathered over the iovecs in order (zero-length ones included), positioned I/O leaves the offset alone, append writes go to the current end. This stays true when the host transfers fewer bytes than asked, and when other processes append or truncate between calls. A read reports end of file only at the end of the file, and does not block once it has data.",
  ["inputs", "histories", "fault_sequences"],
  "all operation sequences, iovec layouts and offsets; every short read/short write the host may produce; concurrent host writers",
  "tests write and read back one small file with a single iovec; the host never returns a short count in them",
  W, ["fd_read", "fd_write", "fd_pread", "fd_pwrite", "fd_seek", "fd_tell", "fd_allocate", "fd_filestat_set_size", "fd_fdstat_set_flags"],
  ["guest memory, returned counts, host file contents and offsets"])

p("C04", "A WASI call that fails leaves no trace",
  "When a WASI call returns an error, because of its arguments, missing rights or a failing host system call at any point inside the call, the host file tree, every file's contents, every descriptor's offset, flags, rights and open/closed state are exactly as before the call, and no host descriptor has been gained or lost. The only exceptions are fd_close, which releases the descriptor even if the host reports an error, and data that the host itself transferred before the error, which is reported as a partial success. The same call retried once the fault is gone behaves as if the failed attempt had never been made.",
  ["fault_sequences", "histories", "inputs"],
  "every host system call inside every WASI call failing with every errno it can report, in every state reachable by a sequence of calls",
  "no test makes a host call fail in the middle of a WASI call",
  W, ["path_open after os.open", "fd_renumber", "fd_allocate offset juggling", "fd_seek probe", "fd_fdstat_set_flags bookkeeping", "sock_accept"],
  ["host file tree, host descriptor table and offsets before and after the call"])

p("C05", "Descriptors are never leaked, closed twice or used after close",
  "Each open guest descriptor stands for exactly one host descriptor owned by it: closing, renumbering (also onto itself or onto standard streams), failed calls, traps and every way a program can end release each host descriptor exactly once, and a closed guest descriptor returns BADF for ever unless its number is handed out again. The runtime never closes or operates on a host descriptor that it does not currently own, even when the embedder or another thread has reused the number, and never closes the embedder's standard streams. After the entry point returns by any route all descriptors opened for or by the guest are closed and only they.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of open/close/renumber/accept/exit with faults in any of their host calls, with the embedder reusing released descriptor numbers at any time",
  "tests open at most a few descriptors and never look at the host descriptor table",
  W, ["fd_close", "fd_renumber", "path_open", "sock_accept", "main() finally block", "File.host_status/wasm_status"],
  ["host descriptor table: opens, closes and the owner of each number"])

p("C06", "Rights are enforced on every call and can only shrink",
  "A WASI call that needs a right its descriptor lacks returns NOTCAPABLE (or PERM) and has no effect, for every call and every right, on every descriptor including preopens, opened files, standard streams and accepted sockets. fd_fdstat_set_rights can only remove rights; a descriptor obtained by path_open has no more base and inheriting rights than its directory's inheriting rights allow. The rights a guest observes with fd_fdstat_get are exactly those enforced.",
  ["histories", "inputs"],
  "all sequences of opens, rights reductions and renumberings followed by any call, for all 64-bit rights arguments",
  "tests hold full rights on almost every descriptor; one test removes one right",
  W, ["help_perm", "fd_fdstat_set_rights", "path_open rights computation", "sock_accept rights"],
  ["errno returned, host state, fd_fdstat_get output"])

p("C07", "Directory scans report every entry exactly once",
  "A scan of a directory with fd_readdir, restarted from each cookie it was given and with any buffer size large enough for one entry, reports every entry that exists throughout the scan exactly once and nothing that never existed, even while the guest or other processes create, remove and rename other entries between or during the calls. Each record carries the name's exact bytes and length, the entry's own type and inode (also for dangling links and non-ASCII names), and the scan ends: a used size smaller than the buffer is returned only when nothing is left, and every scan reaches such a result. Passing cookie 0 restarts the scan from the current contents, and a previously returned cookie resumes right after its entry.",
  ["histories", "schedules", "inputs"],
  "all directory contents, buffer sizes, cookies and interleavings of creations/removals/renames with the scan",
  "one test lists a small static directory with one large buffer",
  W, ["fd_readdir"],
  ["dirent records and bufused in guest memory"])

p("C08", "Synced data survives a crash; sync failures are reported",
  "After fd_sync or fd_datasync returned success, a crash of the host at any later point preserves every byte previously written through (or to the file behind) that descriptor and its size; after a write through a descriptor opened or switched with the SYNC or DSYNC flag returned success, that write survives. If the host cannot make the data durable the call returns the corresponding error, not success.",
  ["crash_points", "histories", "fault_sequences"],
  "all write/sync histories over several files and descriptors, a crash after any host system call with only durable state surviving, any sync failing",
  "no test crashes the host or looks at durability; a sync that does nothing passes them all",
  W, ["fd_sync", "fd_datasync", "path_open fdflags", "fd_fdstat_set_flags"],
  ["durable image of the files after the crash"])

p("C09", "Clocks and timestamps come from the right clock at the right moment",
  "clock_time_get returns the host's current value, in nanoseconds and at full precision, of exactly the clock asked for; the monotonic clock never goes backwards when the wall clock jumps, and an unknown clock is an error. fd_filestat_set_times and path_filestat_set_times set exactly the requested timestamps to exactly the requested value, or for the NOW flags to the wall-clock time of the call, keep the others unchanged, act on the link or its target as the lookup flags say, and reject contradictory flags without effect.",
  ["inputs", "schedules", "histories"],
  "all clock ids, flag combinations and timestamps; all wall-clock jumps and suspensions between any two host calls",
  "tests call clocks and set times once on a healthy clock and compare at most an exit code",
  W, ["clock_time_get", "clock_res_get", "help_time", "fd_filestat_set_times", "path_filestat_set_times"],
  ["value in guest memory, host timestamps"])

p("C10", "poll_oneoff returns only on, and always on, a ready subscription",
  "poll_oneoff on valid subscriptions returns success with at least one event, only events whose subscription is really ready at return (clock deadline passed on the subscription's own clock, relative or absolute; descriptor readable or writable), each with its own userdata and type and at most once. It blocks until the first subscription is ready, neither returning early nor later than the earliest deadline beyond the host's own delay, whatever the descriptor timing and early wake-ups, also when the wall clock is set while it waits (a wall clock set forward during the wait may leave the wake-up to the time planned before), and a subscription already ready returns without waiting. With no subscriptions it fails with INVAL, and nothing beyond the declared events and count is written.",
  ["schedules", "inputs", "fault_sequences"],
  "all mixes of clock and descriptor subscriptions, all times at which data arrives, all clock jumps, early wake-ups and host delays",
  "one test sleeps on one relative clock on an idle machine; the others poll ready descriptors",
  W, ["poll_oneoff"],
  ["events written, virtual time of return"])

p("C11", "Socket data arrives exactly once, in order, and end states are reported",
  "On stream sockets the bytes the guest receives (over any iovecs, with peek and wait-all) are exactly the bytes sent to it in order without loss or duplication, and those it sends are exactly the bytes counted as sent, whatever short transfers, delays and interleavings the host produces. Accept returns a working, independently owned connection for each pending peer in order and honours the non-blocking flag without changing the listener; shutdown closes exactly the requested direction; end of stream, would-block, reset and other errors are reported as such. Datagrams keep their boundaries and the truncated flag is set exactly when part of a datagram was discarded.",
  ["schedules", "fault_sequences", "inputs"],
  "all peer behaviours (segment sizes, delays, half-close, reset), short transfers, iovec layouts and flag combinations",
  "no existing test uses a socket at all (the httpbin example is not part of the suite)",
  W, ["sock_accept", "sock_recv", "sock_send", "sock_shutdown", "fd_read/fd_write on sockets"],
  ["bytes in guest memory, bytes seen by the simulated peer"])

p("C12", "WASI calls write guest memory only where the guest asked",
  "A WASI call changes no byte of guest memory outside the output buffers described by its arguments (and within them no more than the count it reports), never changes the memory's size, and reads only the input buffers. If any pointer, length or iovec lies outside the memory, even by one byte or by address wrap-around, the call traps or fails with FAULT, leaves every byte outside the declared outputs alone, and the memory remains usable.",
  ["inputs", "fault_sequences"],
  "all pointers, lengths and iovec layouts including those at, across and beyond the end of memory and negative as signed numbers; all short host transfers",
  "tests use compiler-generated, always valid pointers and check only the values they expect",
  ["pywasm/wasi.py", "pywasm/core.py"], ["MemInst.get*/put*", "iovec loops in fd_read/fd_pread/fd_write/sock_recv", "args_get", "environ_get", "fd_readdir", "poll_oneoff"],
  ["linear memory before and after each call"])

p("C13", "A trap or failed call never corrupts later calls",
  "When an invocation ends abnormally (trap, exhausted call stack, exception raised by a host function, interrupt delivered at any instruction, failed instantiation or start function) the failure is raised to the embedder, the effects made before that point on memories, tables and globals are kept and nothing else changes (a bulk operation that an interrupt arrives in may have been carried out in part), and every later invocation on the runtime gives the results it would give had the failed one simply stopped at that instruction. In particular no operand, label, frame or half-executed instruction of the failed call survives, and repeated failures neither accumulate nor shrink the available call depth.",
  ["programs", "histories", "fault_sequences"],
  "all programs and sequences of invocations and instantiations with a trap, host exception or asynchronous interrupt at any instruction",
  "the spec tests check that one call traps; they do not check the state that later calls see on the same runtime, nor interrupts",
  C, ["Machine.invocate", "Machine.instance", "Machine.evaluate", "Stack", "Runtime.invocate", "Preview1.main"],
  ["results of later invocations, memory/table/global contents"])

p("C14", "Memories and tables grow only within their limits and never move data",
  "memory.grow and table.grow return the previous size and append exactly the requested number of zeroed pages (or elements with the given initial value), or return -1 and change nothing, whether refused by the declared maximum, the implementation limit or a failing host allocation; sizes never exceed the declared maximum and never shrink. Existing contents survive any sequence of grows and accesses, every access within the current size works for every instance sharing the object, every access that is even partly outside traps without writing anything, including bulk operations (fill, copy, init) and overlapping copies.",
  ["programs", "histories", "fault_sequences"],
  "all sequences of grow, load, store, bulk and table operations at and around the limits; host allocation failing at any grow",
  "spec tests check fixed sequences on fresh memories; allocation failure never happens in them",
  C, ["MemInst.grow", "TableInst.grow", "memory_grow", "table_grow", "evaluate_mem_load", "evaluate_mem_save", "memory_copy/fill/init", "table_copy/fill/init"],
  ["memory.size/table.size, contents, traps"])

p("C15", "Instances and runtimes do not influence each other",
  "Two runtimes, or two instances in one runtime that do not import each other's objects, behave as if alone, whatever the interleaving of their instantiations, calls, traps and drops, also when they were created from the same parsed module; this includes two runtimes used by different threads at the same time. Each instance has its own memory, tables, globals and data/element segments initialised from the module; dropping a segment, growing a memory or changing a global in one is never visible in another, and the parsed module can be instantiated any number of times. Different WASI contexts likewise share no descriptors, arguments, environment or captured output.",
  ["schedules", "programs", "histories"],
  "all interleavings at host calls and instruction boundaries of any number of runtimes/instances over shared or separate module descriptions",
  "each test builds one runtime with one instance and runs it to completion",
  ["pywasm/core.py", "pywasm/wasi.py"], ["Store", "Machine.allocate", "data_drop/elem_drop", "DataInst/ElemInst", "Preview1.__init__"],
  ["results, memories and globals of each instance compared with a solo run"])

p("C16", "A damaged or interrupted module file is never half-loaded",
  "Loading a module from a file that is truncated anywhere, missing, unreadable, or whose reading fails part-way raises an error at loading (never an endless loop or a module with missing parts) unless what remains is itself a complete module. A failed load or instantiation leaves the runtime's existing instances working and unchanged, closes the file, and the same module can be loaded successfully afterwards.",
  ["inputs", "fault_sequences", "crash_points"],
  "all modules, all truncation points, read errors at any read, all orders of failing and succeeding loads on one runtime",
  "tests load only intact files from a healthy disk",
  ["pywasm/core.py", "pywasm/leb128.py"], ["ModuleDesc.from_reader", "leb128 decode_reader", "Runtime.instance_from_file", "Machine.instance"],
  ["exception or module returned, exports present, host descriptors"])

p("C17", "Program output, input and exit status are delivered completely and in order",
  "Everything a program writes to standard output and error reaches the host descriptor or the capture buffer installed by the embedder, each stream complete and in write order and nothing else, whatever way the program ends; input is consumed from the configured source in order. The entry point returns exactly the code passed to proc_exit (0 when the program returns normally) and stops executing right there, re-raises traps, and leaves captured output rewound for reading in all of these cases. The sequence can be repeated with a fresh context with the same result.",
  ["histories", "programs", "fault_sequences"],
  "all output/exit/trap histories, capture configurations and host short writes",
  "test_wasi_stdout runs one program which writes one line",
  W, ["main", "proc_exit", "fd_write", "fd_read", "help_pipe"],
  ["capture buffers, bytes on simulated host descriptors, return value of main"])

p("C18", "random_get fills the whole buffer from the host's secure entropy",
  "random_get fills exactly the requested bytes with fresh bytes from the operating system's secure random source. The output does not depend on or disturb Python's seedable generator: seeding it identically never makes two requests equal, and requests, contexts and runtimes never repeat each other's output. If the entropy source fails the call reports an error rather than filling the buffer with something else.",
  ["fault_sequences", "inputs", "histories"],
  "all buffer lengths and request sequences, any state of the process-wide generator, an entropy source that fails or blocks",
  "no test can tell secure bytes from a seeded generator's by looking at one sample",
  W, ["random_get"],
  ["bytes in guest memory compared with the simulated entropy stream"])

p("C19", "Descriptor metadata follows the open file, not its old name",
  "fd_filestat_get, fd_filestat_set_times, fd_filestat_set_size, fd_allocate, fd_fdstat_get and directory operations on an open descriptor act on the object that was opened, whatever has been renamed, unlinked, replaced or recreated at its path since, by this guest or by others. Sizes, link counts, inode numbers, types and timestamps returned are the current ones of that object, agree between path and descriptor calls on the same object, and descriptor flags and type reported are those in force.",
  ["histories", "schedules", "inputs"],
  "all histories of opens, renames, unlinks, replacements and metadata calls by several actors",
  "tests stat a file that nothing else touches",
  W, ["fd_filestat_get", "path_filestat_get", "fd_fdstat_get", "fd_readdir", "help_wasm_type"],
  ["filestat/fdstat records in guest memory against the simulated inode"])

p("C20", "Namespace operations are atomic and follow the WASI/POSIX rules",
  "path_open (create, exclusive, truncate, directory, nofollow), path_create_directory, path_link, path_symlink, path_readlink, path_rename, path_remove_directory and path_unlink_file have exactly the effect and result of the corresponding POSIX operation on the confined tree, for every sequence of calls. When several guests or host processes work in the same tree, with their calls interleaved at any host system call, the results of calls that name entries of directories which are not themselves moved meanwhile, and that follow no symbolic link, are those of some sequential order: an exclusive create succeeds for one caller only, a rename is never seen half done, appended records are never lost.",
  ["schedules", "histories", "inputs"],
  "all operation sequences and all interleavings of several guests at host system call boundaries",
  "tests run single operations with one guest on a private directory",
  W, ["path_open", "path_rename", "path_link", "path_symlink", "path_unlink_file", "path_remove_directory", "path_create_directory", "path_readlink"],
  ["host tree and results compared with a sequential reference"])

p("C21", "Linked instances share imported state coherently",
  "When a module imports a memory, table, global or function of another instance or of the embedder, all parties see one object: every write, grow, segment initialisation or call through any of them, from whichever instance or host function and in whatever order, is immediately visible through all others, also when instantiation of one of them fails half-way or a call traps. A function always runs against the memory, tables and globals of the instance that defined it, and the caller's own context is restored when it returns.",
  ["programs", "histories", "schedules"],
  "all link graphs and sequences of calls, writes, grows, table updates, failed instantiations and traps across instances",
  "linking tests are fixed two-module examples without growth, traps or failed instantiation in between",
  C, ["Machine.instance", "Machine.allocate", "evaluate_call", "call_indirect", "exported_memory", "exported_global"],
  ["results and memory/table/global contents through every instance"])

# --- properties outside this family ------------------------------------------------------------------------------
p("C22", "Numeric and vector instructions compute the specified values",
  "Every integer, float, conversion and SIMD instruction yields the bit pattern the WebAssembly specification defines for its operands, or traps exactly where it says so.",
  ["inputs"], "all operand values of all numeric opcodes",
  "fixed vectors sample a tiny part of the operand space",
  ["pywasm/core.py", "pywasm/arith.py"], ["Machine.evaluate numeric cases", "pywasm.arith"])
p("C23", "Structured control flow follows the specification",
  "Blocks, loops, branches, calls and returns transfer control and operands as the WebAssembly specification says for every valid program.",
  ["programs"], "all valid programs",
  "the suite runs a fixed set of programs",
  C, ["evaluate_br", "Label", "Machine.evaluate"])
p("C24", "Every valid binary module decodes to the module it encodes",
  "Each well-formed byte sequence, in any permitted LEB128 width and with any custom sections, decodes to exactly the module it encodes.",
  ["inputs"], "all well-formed binaries",
  "tests load compiler output only",
  ["pywasm/core.py", "pywasm/leb128.py", "pywasm/opcode.py"], ["ModuleDesc.from_reader", "Inst.from_reader"])
p("C25", "Instantiation rejects imports of the wrong type",
  "An import whose kind, signature, mutability or limits do not match the declaration is rejected at instantiation, and a matching one is accepted.",
  ["inputs"], "all pairs of declared and supplied externs",
  "fixed examples only",
  C, ["Machine.instance", "Limits.suit", "FuncType.__eq__"])
p("C26", "Arguments, environment, directories and exit status cross the embedding interface and the command line exactly",
  "Whatever is given to Preview1(args, dirs, envs) or to python -m pywasm (--wasi-args, --wasi-envs, --wasi-dirs, the file) is what the program sees: args_get/environ_get with their sizes calls deliver exactly those strings in that order, as bytes of the host's encoding, terminated, at every moment of the program's life and whatever other calls succeed or fail; the first argument is the file; each directory appears once under its name and leads to the host directory given for it and to no other. The exit status of the process is the program's. --func calls the named function with exactly the values given and prints its results. A program that cannot be started (missing, damaged or unreadable file, missing directory, host error while starting) leaves no trace: nothing printed on standard output, nothing written, and a status other than 0.",
  ["inputs", "fault_sequences", "histories"], "all strings and option orders, all files and host directories, host errors and short writes at any system call while the program starts and prints",
  "the suite starts two programs with short ASCII strings and no failures",
  W + ["pywasm/__main__.py"], ["args_get", "args_sizes_get", "environ_get", "environ_sizes_get", "fd_prestat_get", "fd_prestat_dir_name", "Preview1.__init__", "Preview1.main", "__main__.main_wasi", "__main__.main_wasm"])
p("C27", "Logging never changes a program's behaviour",
  "Running any history of loads, instantiations, calls, traps and WASI calls with debug logging on (pywasm.log.lvl above 0) gives the same results, memories, host system calls, host state, errors and exit codes as running it with logging off, under the same host faults, and also when the log itself cannot be written (closed or broken output, full disk, a character its encoding lacks). Nothing but the log is added to the process's output.",
  ["programs", "histories", "fault_sequences"], "all programs, modules and call histories; every host fault inside them; every failure of the log stream",
  "the suite runs with logging off, and nothing compares the two",
  ["pywasm/log.py", "pywasm/core.py"], ["pywasm.log.debugln", "pywasm.log.println", "the calls of debugln in the decoder, in allocate/instance and in the interpreter loop"],
  ["trace of the same seeded simulated execution with logging off and on"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
