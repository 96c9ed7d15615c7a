From fa8246a8e68b168db474ad9a44b6425fb92fdff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 01/44] fix: report host errors and malformed arguments to the
 guest as wasi errno

An OSError, a path that is not UTF-8 or a huge number raised a Python
exception out of the guest; addresses and descriptors above 2 GiB were
taken as negative numbers.
---
 pywasm/wasi.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..180c6ca 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,5 @@
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -554,7 +555,7 @@ class Preview1:
         runtime.imports['wasi_snapshot_preview1'] = {}
         for e in vec:
             funkype = pywasm.core.FuncType(e[1], e[2])
-            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, e[3])
+            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, self.help_call(*e))
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
@@ -973,6 +974,30 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
+    def help_call(self, name: str, args: typing.List, rets: typing.List, func: typing.Callable) -> typing.Callable:
+        # Wraps a function for being called by a guest: the i32 arguments of wasi functions are unsigned, and an error
+        # of the host is reported to the guest as the corresponding wasi errno.
+        if not rets:
+            return func
+
+        def call(m: pywasm.core.Machine, argv: typing.List[int]) -> typing.List[int]:
+            argv = [v & 0xffffffff if t == pywasm.core.ValType.i32() else v for t, v in zip(args, argv)]
+            try:
+                return func(m, argv)
+            except OSError as e:
+                return [self.help_errno(e)]
+            except UnicodeError:
+                return [self.ERRNO_ILSEQ]
+            except OverflowError:
+                return [self.ERRNO_INVAL]
+        return call
+
+    def help_errno(self, e: OSError) -> int:
+        # Convert an error of the host to the wasi errno, which is named after it.
+        name = errno.errorcode.get(e.errno or 0, 'EIO')
+        name = {'EOPNOTSUPP': 'ENOTSUP', 'EDEADLOCK': 'EDEADLK', 'EWOULDBLOCK': 'EAGAIN'}.get(name, name)
+        return getattr(self, 'ERRNO_' + name[1:], self.ERRNO_IO)
+
     def help_escp(self, root: str, name: str) -> bool:
         return not os.path.normpath(os.path.join(root, name)).startswith(root)
 
-- 
2.43.0


From 6e0808f763b20bb48c331560aee16819c4c182bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 02/44] fix: keep wasi paths beneath the directory they are
 relative to

Paths were compared as text with the preopen's name, so that a sibling
directory with the same prefix, a symbolic link or a concurrent rename
led outside of it, and preopens such as '.' or '/' rejected legitimate
paths. Resolve them component by component on directory descriptors.
---
 pywasm/wasi.py | 209 +++++++++++++++++++++++++++++++------------------
 1 file changed, 131 insertions(+), 78 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 180c6ca..823a64e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,3 +1,4 @@
+import contextlib
 import dataclasses
 import errno
 import fcntl
@@ -998,9 +999,6 @@ class Preview1:
         name = {'EOPNOTSUPP': 'ENOTSUP', 'EDEADLOCK': 'EDEADLK', 'EWOULDBLOCK': 'EAGAIN'}.get(name, name)
         return getattr(self, 'ERRNO_' + name[1:], self.ERRNO_IO)
 
-    def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
-
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
             case x if stat.S_ISBLK(x):
@@ -1021,6 +1019,78 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_name(self, mems: pywasm.core.MemInst, addr: int, size: int) -> str:
+        # Read a path.
+        name = mems.get(addr, size).decode()
+        if '\0' in name:
+            raise OSError(errno.EILSEQ, os.strerror(errno.EILSEQ))
+        return name
+
+    @contextlib.contextmanager
+    def help_path(self, fd: int, name: str, foll: int) -> typing.Iterator[typing.Tuple[int, str]]:
+        # Resolve a path beneath a directory, one component at a time and never letting the host follow a symbolic
+        # link, so that neither '..', nor a symbolic link, nor a concurrent change of the tree leads outside of it.
+        # Yields the host descriptor of the directory of the last component and the last component, which must be
+        # accessed without following it. The last component ends with a slash if a directory is asked for that does
+        # not exist.
+        if not name:
+            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
+        todo = []
+        tail = False
+        nlnk = 0
+        hold = []
+        try:
+            while True:
+                if name.startswith('/'):
+                    raise OSError(errno.EPERM, os.strerror(errno.EPERM))
+                tail = tail if todo else tail or name.endswith('/')
+                todo.extend(reversed([e for e in name.split('/') if e]))
+                name = ''
+                while todo and not name:
+                    here = hold[-1] if hold else self.fd[fd].host_fd
+                    part = todo.pop()
+                    if part == '.':
+                        continue
+                    if part == '..':
+                        if not hold:
+                            raise OSError(errno.EPERM, os.strerror(errno.EPERM))
+                        self.help_shut(hold.pop())
+                        continue
+                    if todo or foll or tail:
+                        try:
+                            name = os.readlink(part, dir_fd=here)
+                        except OSError as e:
+                            # Either not a symbolic link, or to be created.
+                            if e.errno != errno.EINVAL and (e.errno != errno.ENOENT or todo):
+                                raise
+                    if name:
+                        nlnk += 1
+                        if nlnk > 40:
+                            raise OSError(errno.ELOOP, os.strerror(errno.ELOOP))
+                    elif todo:
+                        flag = getattr(os, 'O_PATH', os.O_RDONLY) | os.O_DIRECTORY | os.O_NOFOLLOW
+                        hold.append(os.open(part, flag, dir_fd=here))
+                    else:
+                        if tail:
+                            try:
+                                if not stat.S_ISDIR(os.stat(part, dir_fd=here, follow_symlinks=False).st_mode):
+                                    raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
+                            except FileNotFoundError:
+                                part = part + '/'
+                        yield here, part
+                        return
+                if not name:
+                    yield hold[-1] if hold else self.fd[fd].host_fd, '.'
+                    return
+        finally:
+            for e in hold:
+                self.help_shut(e)
+
+    def help_shut(self, host_fd: int) -> None:
+        # Close a host descriptor. It is released even if the host reports an error.
+        with contextlib.suppress(OSError):
+            os.close(host_fd)
+
     def help_perm(self, fd: int, perm: int) -> bool:
         return self.fd[fd].wasm_rights_base & perm == 0
 
@@ -1075,12 +1145,10 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_PATH_CREATE_DIRECTORY):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_name(mems, args[1], args[2])
         try:
-            os.mkdir(name, dir_fd=file.host_fd)
+            with self.help_path(args[0], name, 0) as (root, name):
+                os.mkdir(name, dir_fd=root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         return [self.ERRNO_SUCCESS]
@@ -1092,13 +1160,11 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_PATH_FILESTAT_GET):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[0]]
         flag = args[1]
-        name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_name(mems, args[2], args[3])
         try:
-            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            with self.help_path(args[0], name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW) as (root, name):
+                info = os.stat(name.rstrip('/'), dir_fd=root, follow_symlinks=False)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         mems.put_u64(args[4], 1)
@@ -1122,24 +1188,23 @@ class Preview1:
         if args[6] & self.FSTFLAGS_MTIM and args[6] & self.FSTFLAGS_MTIM_NOW:
             return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[0]]
         flag = args[1]
-        name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
-        atim = info.st_atime_ns
-        if args[6] & self.FSTFLAGS_ATIM:
-            atim = args[4]
-        if args[6] & self.FSTFLAGS_ATIM_NOW:
-            atim = time.time_ns()
-        mtim = info.st_mtime_ns
-        if args[6] & self.FSTFLAGS_MTIM:
-            mtim = args[5]
-        if args[6] & self.FSTFLAGS_MTIM_NOW:
-            mtim = time.time_ns()
+        name = self.help_name(mems, args[2], args[3])
         try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            with self.help_path(args[0], name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW) as (root, name):
+                name = name.rstrip('/')
+                info = os.stat(name, dir_fd=root, follow_symlinks=False)
+                atim = info.st_atime_ns
+                if args[6] & self.FSTFLAGS_ATIM:
+                    atim = args[4]
+                if args[6] & self.FSTFLAGS_ATIM_NOW:
+                    atim = time.time_ns()
+                mtim = info.st_mtime_ns
+                if args[6] & self.FSTFLAGS_MTIM:
+                    mtim = args[5]
+                if args[6] & self.FSTFLAGS_MTIM_NOW:
+                    mtim = time.time_ns()
+                os.utime(name, ns=(atim, mtim), dir_fd=root, follow_symlinks=False)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         return [self.ERRNO_SUCCESS]
@@ -1153,17 +1218,15 @@ class Preview1:
         if self.help_perm(args[4], self.RIGHTS_PATH_LINK_TARGET):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        stem = self.fd[args[0]]
-        dest = self.fd[args[4]]
-        stem_name = mems.get(args[2], args[3]).decode()
-        dest_name = mems.get(args[5], args[6]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
+        stem = self.help_name(mems, args[2], args[3])
+        dest = self.help_name(mems, args[5], args[6])
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
         try:
-            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)
+            with (
+                self.help_path(args[0], stem, foll) as (stem_root, stem),
+                self.help_path(args[4], dest, 0) as (dest_root, dest),
+            ):
+                os.link(stem.rstrip('/'), dest, src_dir_fd=stem_root, dst_dir_fd=dest_root, follow_symlinks=False)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1180,22 +1243,19 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = mems.get(args[2], args[3]).decode()
+        name = self.help_name(mems, args[2], args[3])
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
-        if '\0' in name:
-            return [self.ERRNO_ILSEQ]
-        if self.help_escp(file.host_name, name):
-            return [self.ERRNO_PERM]
-        flag = 0
-        if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
-            flag |= os.O_NOFOLLOW
+        flag = os.O_NOFOLLOW
+        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
         if args[4] & self.OFLAGS_DIRECTORY:
             flag |= os.O_DIRECTORY
         if args[4] & self.OFLAGS_EXCL:
             flag |= os.O_EXCL
+            if args[4] & self.OFLAGS_CREAT:
+                foll = 0
         if args[4] & self.OFLAGS_TRUNC:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
@@ -1210,7 +1270,10 @@ class Preview1:
             flag |= os.O_APPEND
         wasm_fd = len(self.fd)
         try:
-            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)
+            with self.help_path(args[0], name, foll) as (root, name):
+                if not flag & os.O_CREAT:
+                    name = name.rstrip('/')
+                host_fd = os.open(name, flag, 0o644, dir_fd=root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1276,12 +1339,10 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_PATH_READLINK):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_name(mems, args[1], args[2])
         try:
-            data = os.readlink(name, dir_fd=file.host_fd)
+            with self.help_path(args[0], name, 0) as (root, name):
+                data = os.readlink(name.rstrip('/'), dir_fd=root)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
@@ -1296,12 +1357,10 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_PATH_REMOVE_DIRECTORY):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_name(mems, args[1], args[2])
         try:
-            os.rmdir(name, dir_fd=file.host_fd)
+            with self.help_path(args[0], name, 0) as (root, name):
+                os.rmdir(name, dir_fd=root)
         except NotADirectoryError:
             return [self.ERRNO_NOTDIR]
         except OSError as e:
@@ -1321,16 +1380,14 @@ class Preview1:
         if self.help_perm(args[3], self.RIGHTS_PATH_RENAME_TARGET):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        stem = self.fd[args[0]]
-        dest = self.fd[args[3]]
-        stem_name = mems.get(args[1], args[2]).decode()
-        dest_name = mems.get(args[4], args[5]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
+        stem = self.help_name(mems, args[1], args[2])
+        dest = self.help_name(mems, args[4], args[5])
         try:
-            os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)
+            with (
+                self.help_path(args[0], stem, 0) as (stem_root, stem),
+                self.help_path(args[3], dest, 0) as (dest_root, dest),
+            ):
+                os.rename(stem, dest, src_dir_fd=stem_root, dst_dir_fd=dest_root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1354,15 +1411,13 @@ class Preview1:
         if self.help_perm(args[2], self.RIGHTS_PATH_SYMLINK):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[2]]
-        stem = mems.get(args[0], args[1]).decode()
-        dest = mems.get(args[3], args[4]).decode()
-        if self.help_escp(file.wasm_name, stem):
-            return [self.ERRNO_PERM]
-        if self.help_escp(file.wasm_name, dest):
+        stem = self.help_name(mems, args[0], args[1])
+        dest = self.help_name(mems, args[3], args[4])
+        if stem.startswith('/'):
             return [self.ERRNO_PERM]
         try:
-            os.symlink(stem, dest, dir_fd=file.host_fd)
+            with self.help_path(args[2], dest, 0) as (root, name):
+                os.symlink(stem, name, dir_fd=root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1378,12 +1433,10 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_PATH_UNLINK_FILE):
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        file = self.fd[args[0]]
-        name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
+        name = self.help_name(mems, args[1], args[2])
         try:
-            os.unlink(name, dir_fd=file.host_fd)
+            with self.help_path(args[0], name, 0) as (root, name):
+                os.unlink(name, dir_fd=root)
         except IsADirectoryError:
             return [self.ERRNO_ISDIR]
         except NotADirectoryError:
-- 
2.43.0


From f7c8e270cb3d44dd0e010bdd39c3d5e5985e8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 03/44] fix: fd_seek must not move the offset when it fails

It seeked twice, which left the offset changed on an error and doubled a
relative seek (WHENCE_CUR after the end, WHENCE_END).
---
 pywasm/wasi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 823a64e..f6f4be4 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -912,10 +912,9 @@ class Preview1:
         assert self.WHENCE_END == os.SEEK_END
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        ocur = os.lseek(file.host_fd, 0, args[2])
-        # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
             return [self.ERRNO_INVAL]
+        # Seek before byte 0 is an error though, which is reported by the host.
         offs = os.lseek(file.host_fd, args[1], args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From a082019dd68fefc3ced1d2e44bb2c796dd8aeb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 04/44] fix: MemInst accesses outside of the memory must fail

Slices silently returned fewer bytes, took negative addresses from the
end, and a write past the end made the memory grow.
---
 pywasm/core.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..d3baf2e 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -873,24 +873,31 @@ class MemInst:
         self.grow(type.limits.n)
 
     def get_i32(self, addr: int) -> int:
+        self.need(addr, 4)
         return struct.unpack('<i', self.data[addr:addr+4])[0]
 
     def get_i64(self, addr: int) -> int:
+        self.need(addr, 8)
         return struct.unpack('<q', self.data[addr:addr+8])[0]
 
     def get_u8(self, addr: int) -> int:
+        self.need(addr, 1)
         return self.data[addr]
 
     def get_u16(self, addr: int) -> int:
+        self.need(addr, 2)
         return struct.unpack('<H', self.data[addr:addr+2])[0]
 
     def get_u32(self, addr: int) -> int:
+        self.need(addr, 4)
         return struct.unpack('<I', self.data[addr:addr+4])[0]
 
     def get_u64(self, addr: int) -> int:
+        self.need(addr, 8)
         return struct.unpack('<Q', self.data[addr:addr+8])[0]
 
     def get(self, addr: int, size: int) -> bytearray:
+        self.need(addr, size)
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
@@ -900,26 +907,38 @@ class MemInst:
         self.data.extend(bytearray(n * 64 * 1024))
         self.size += n
 
+    def need(self, addr: int, size: int) -> None:
+        # Accesses must lie within the memory, in particular a write must not extend it.
+        if addr < 0 or size < 0 or addr + size > len(self.data):
+            raise IndexError('pywasm: out of bounds memory access')
+
     def put_i32(self, addr: int, data: int) -> None:
+        self.need(addr, 4)
         self.data[addr:addr+4] = struct.pack('<i', data)
 
     def put_i64(self, addr: int, data: int) -> None:
+        self.need(addr, 8)
         self.data[addr:addr+8] = struct.pack('<q', data)
 
     def put_u8(self, addr: int, data: int) -> None:
+        self.need(addr, 1)
         self.data[addr] = data
 
     def put_u16(self, addr: int, data: int) -> None:
+        self.need(addr, 2)
         self.data[addr:addr+2] = struct.pack('<H', data)
 
     def put_u32(self, addr: int, data: int) -> None:
+        self.need(addr, 4)
         self.data[addr:addr+4] = struct.pack('<I', data)
 
     def put_u64(self, addr: int, data: int) -> None:
+        self.need(addr, 8)
         self.data[addr:addr+8] = struct.pack('<Q', data)
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
+        self.need(addr, len(data))
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-- 
2.43.0


From 6c02edd7608e30b746289ab4085f88e1cb00586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 05/44] fix: fd_read and fd_pread must transfer the data in one
 host call

With one host call per buffer an error after the first one lost the data
already read, a zero-length buffer looked like the end of the file, and a
pipe or terminal that had delivered data was waited on again.
---
 pywasm/wasi.py | 77 ++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f6f4be4..3332485 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -753,21 +753,11 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        offs = args[3]
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = os.pread(file.host_fd, elem_len, offs)
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            offs += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[4], offs - args[3])
+        iovs, size = self.help_iovs(mems, args[1], args[2])
+        mems.need(args[4], 4)
+        data = os.pread(file.host_fd, size, args[3])
+        self.help_fill(mems, iovs, data)
+        mems.put_u32(args[4], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -826,24 +816,14 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        iovs_ptr = args[1]
-        iovs_len = args[2]
-        size = 0
-        for _ in range(iovs_len):
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            data = [
-                lambda: os.read(file.host_fd, elem_len),
-                lambda: file.pipe.read(elem_len),
-            ][self.help_pipe(args[0])]()
-            if len(data) == 0:
-                break
-            mems.put(elem_ptr, bytearray(data))
-            iovs_ptr += 8
-            size += len(data)
-            if len(data) < elem_len:
-                break
-        mems.put_u32(args[3], size)
+        iovs, size = self.help_iovs(mems, args[1], args[2])
+        mems.need(args[3], 4)
+        data = [
+            lambda: os.read(file.host_fd, size),
+            lambda: file.pipe.read(size),
+        ][self.help_pipe(args[0])]()
+        self.help_fill(mems, iovs, data)
+        mems.put_u32(args[3], len(data))
         return [self.ERRNO_SUCCESS]
 
     def fd_readdir(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1018,6 +998,37 @@ class Preview1:
     def help_idir(self, fd: int) -> bool:
         return self.fd[fd].wasm_type == self.FILETYPE_DIRECTORY
 
+    def help_fill(
+        self,
+        mems: pywasm.core.MemInst,
+        iovs: typing.List[typing.Tuple[int, int]],
+        data: bytes,
+    ) -> None:
+        # Distribute data across iovec buffers.
+        offs = 0
+        for elem_ptr, elem_len in iovs:
+            elem = data[offs:offs + elem_len]
+            mems.put(elem_ptr, bytearray(elem))
+            offs += len(elem)
+
+    def help_iovs(
+        self,
+        mems: pywasm.core.MemInst,
+        iovs_ptr: int,
+        iovs_len: int,
+    ) -> typing.Tuple[typing.List[typing.Tuple[int, int]], int]:
+        # Return the iovec buffers, which must lie within the memory, and how many bytes to read into them at most.
+        iovs = []
+        size = 0
+        for _ in range(iovs_len):
+            elem_ptr = mems.get_u32(iovs_ptr)
+            elem_len = mems.get_u32(iovs_ptr + 4)
+            mems.need(elem_ptr, elem_len)
+            iovs.append((elem_ptr, elem_len))
+            iovs_ptr += 8
+            size += elem_len
+        return iovs, min(size, len(mems.data))
+
     def help_name(self, mems: pywasm.core.MemInst, addr: int, size: int) -> str:
         # Read a path.
         name = mems.get(addr, size).decode()
-- 
2.43.0


From 476cd378ca4e46a8567db1af40701d9e26fa00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 06/44] fix: fd_filestat_get must describe the open file

It looked the file up by the name it had when it was opened.
---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 3332485..55bd696 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -695,7 +695,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.fstat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
-- 
2.43.0


From f5c59e5c8955cbd69da0a428cc7c1297a8eb9d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 07/44] fix: MTIM_NOW of fd_filestat_set_times must set the
 current time

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 55bd696..d3bbd69 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -739,7 +739,7 @@ class Preview1:
         if args[3] & self.FSTFLAGS_MTIM:
             mtim = args[2]
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 349df2ab8c7c83707a4ebc945b3ed9561f47b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 08/44] fix: fd_datasync must synchronize the data

---
 pywasm/wasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d3bbd69..0b2f98c 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -635,6 +635,8 @@ class Preview1:
             return [self.ERRNO_BADF]
         if self.help_perm(args[0], self.RIGHTS_FD_DATASYNC):
             return [self.ERRNO_NOTCAPABLE]
+        file = self.fd[args[0]]
+        os.fdatasync(file.host_fd)
         return [self.ERRNO_SUCCESS]
 
     def fd_fdstat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 718b92dee2ca43e1011994e90f690b8d87f67183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 09/44] fix: honour the descriptor flags of path_open and
 fd_fdstat_set_flags

SYNC, DSYNC, RSYNC and NONBLOCK were ignored by path_open, NONBLOCK was
rejected by fd_fdstat_set_flags, which also changed its own view of the
flags before the host accepted them and lost the host's other flags.
---
 pywasm/wasi.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 0b2f98c..8ef369d 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -658,21 +658,20 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
-        if file.wasm_flag ^ args[1] | fyes != fyes:
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
+        if (file.wasm_flag ^ args[1]) | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-        file.host_flag &= ~os.O_APPEND
-        file.host_flag &= ~os.O_NONBLOCK
-        file.wasm_flag &= ~self.FDFLAGS_APPEND
-        file.wasm_flag &= ~self.FDFLAGS_NONBLOCK
+        host_flag = fcntl.fcntl(file.host_fd, fcntl.F_GETFL)
+        host_flag &= ~os.O_APPEND
+        host_flag &= ~os.O_NONBLOCK
         if args[1] & self.FDFLAGS_APPEND:
-            file.host_flag |= os.O_APPEND
-            file.wasm_flag |= self.FDFLAGS_APPEND
+            host_flag |= os.O_APPEND
         if args[1] & self.FDFLAGS_NONBLOCK:
-            file.host_flag |= os.O_NONBLOCK
-            file.wasm_flag |= self.FDFLAGS_NONBLOCK
-        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, file.host_flag)
+            host_flag |= os.O_NONBLOCK
+        fcntl.fcntl(file.host_fd, fcntl.F_SETFL, host_flag)
+        file.host_flag = host_flag
+        file.wasm_flag = args[1]
         return [self.ERRNO_SUCCESS]
 
     def fd_fdstat_set_rights(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1280,6 +1279,12 @@ class Preview1:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
+        if args[7] & self.FDFLAGS_NONBLOCK:
+            flag |= os.O_NONBLOCK
+        if args[7] & (self.FDFLAGS_DSYNC | self.FDFLAGS_RSYNC):
+            flag |= os.O_DSYNC
+        if args[7] & self.FDFLAGS_SYNC:
+            flag |= os.O_SYNC
         wasm_fd = len(self.fd)
         try:
             with self.help_path(args[0], name, foll) as (root, name):
-- 
2.43.0


From 2dd20e3fabab857a5873b6b5778b7259c3374e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 10/44] fix: random_get must use the secure random source of
 the host

The generator of the random module is predictable and can be seeded.
---
 pywasm/wasi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 8ef369d..6207a30 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -5,7 +5,6 @@ import fcntl
 import os
 import platform
 import pywasm.core
-import random
 import select
 import socket
 import stat
@@ -1554,7 +1553,7 @@ class Preview1:
     def random_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
-        mems.put(args[0], bytearray(random.randbytes(args[1])))
+        mems.put(args[0], bytearray(os.urandom(args[1])))
         return [self.ERRNO_SUCCESS]
 
     def sched_yield(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 68d1410f1dec4857cf0bf66c825a948cd97fb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/44] fix: fd_datasync on hosts without fdatasync

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6207a30..630a719 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -635,7 +635,7 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_DATASYNC):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        os.fdatasync(file.host_fd)
+        getattr(os, 'fdatasync', os.fsync)(file.host_fd)
         return [self.ERRNO_SUCCESS]
 
     def fd_fdstat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 487f8df801a9ebf1d43c54e3c252bc9a6260b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 12/44] fix: the standard streams are no preopened directories

fd_prestat_get on them made a guest that enumerates its preopens take
standard input for a directory.
---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 630a719..3870b00 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -762,7 +762,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or args[0] <= self.FD_STDERR or args[0] - 2 > len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -774,7 +774,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or args[0] <= self.FD_STDERR or args[0] - 2 > len(self.dirs):
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-- 
2.43.0


From 94e7603213e7e7770ad9af321970cda583a440db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 13/44] fix: fd_allocate must be atomic and leave the offset
 alone

It appended zeroes through the descriptor, so that a partial or failed
write, an append by others or a failing seek left a wrong size, offset or
zeroes in the middle of the data, and a huge size exhausted the memory.
---
 pywasm/wasi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 3870b00..34943dc 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -608,13 +608,13 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_ALLOCATE):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        size = args[1] + args[2] - os.stat(file.host_fd).st_size
-        if size <= 0:
+        if args[1] < 0 or args[2] < 0:
+            return [self.ERRNO_INVAL]
+        if hasattr(os, 'posix_fallocate'):
+            os.posix_fallocate(file.host_fd, args[1], args[2])
             return [self.ERRNO_SUCCESS]
-        offs = os.lseek(file.host_fd, 0, os.SEEK_CUR)
-        os.lseek(file.host_fd, 0, os.SEEK_END)
-        os.write(file.host_fd, bytearray(size))
-        os.lseek(file.host_fd, offs, os.SEEK_SET)
+        if args[1] + args[2] > os.fstat(file.host_fd).st_size:
+            os.ftruncate(file.host_fd, args[1] + args[2])
         return [self.ERRNO_SUCCESS]
 
     def fd_close(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From acab6a93537b26cf56bdfafc5738c12306293395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 14/44] fix: close each host descriptor exactly once

fd_renumber onto itself closed the descriptor, one moved over a standard
stream was never closed, neither were opened character devices; a failing
close left the guest descriptor open on a host number that may have been
reused; a captured stream lost its capture when it was moved.
---
 pywasm/wasi.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 34943dc..6e30ea1 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -408,6 +408,8 @@ class Preview1:
         wasm_rights_root: int
         wasm_status: int
         wasm_type: int
+        # The standard streams belong to the embedder and are never closed.
+        host_keep: bool = False
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -428,6 +430,7 @@ class Preview1:
             wasm_rights_root=0,
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
+            host_keep=True,
         ))
         self.fd.append(self.File(
             host_fd=sys.stdout.fileno(),
@@ -442,6 +445,7 @@ class Preview1:
             wasm_rights_root=0,
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
+            host_keep=True,
         ))
         self.fd.append(self.File(
             host_fd=sys.stderr.fileno(),
@@ -456,6 +460,7 @@ class Preview1:
             wasm_rights_root=0,
             wasm_status=self.FILE_STATUS_OPENED,
             wasm_type=self.FILETYPE_CHARACTER_DEVICE,
+            host_keep=True,
         ))
         for k, v in sorted(self.dirs.items()):
             k = os.path.normpath(k)
@@ -622,10 +627,11 @@ class Preview1:
         if self.help_badf(args[0]):
             return [self.ERRNO_BADF]
         file = self.fd[args[0]]
-        if file.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-            os.close(file.host_fd)
-            file.host_status = self.FILE_STATUS_CLOSED
+        # The descriptor is released even if the host reports an error.
         file.wasm_status = self.FILE_STATUS_CLOSED
+        file.host_status = self.FILE_STATUS_CLOSED
+        if not file.host_keep:
+            os.close(file.host_fd)
         return [self.ERRNO_SUCCESS]
 
     def fd_datasync(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -859,22 +865,24 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
-        if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
-            os.close(dest.host_fd)
+        if not dest.host_keep:
+            self.help_shut(dest.host_fd)
         dest.host_fd = stem.host_fd
         dest.host_flag = stem.host_flag
         dest.host_name = stem.host_name
         dest.host_status = stem.host_status
         dest.pipe = stem.pipe
-        dest.wasm_fd = stem.wasm_fd
         dest.wasm_flag = stem.wasm_flag
         dest.wasm_name = stem.wasm_name
         dest.wasm_rights_base = stem.wasm_rights_base
         dest.wasm_rights_root = stem.wasm_rights_root
         dest.wasm_status = stem.wasm_status
         dest.wasm_type = stem.wasm_type
+        dest.host_keep = stem.host_keep
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
         return [self.ERRNO_SUCCESS]
@@ -1105,7 +1113,7 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
 
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
-- 
2.43.0


From 3bd39c6c7fcc965bfc6812b9d253b4c6839a555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 15/44] fix: wasi.main must release every descriptor and rewind
 the captured output

A failing close skipped the remaining ones, the guest descriptors stayed
open on closed host numbers, descriptors moved over the standard streams
leaked, as did preopened directories if a later one could not be opened.
---
 pywasm/wasi.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6e30ea1..a0274b4 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -465,8 +465,14 @@ class Preview1:
         for k, v in sorted(self.dirs.items()):
             k = os.path.normpath(k)
             v = os.path.abspath(os.path.normpath(v))
+            try:
+                host_fd = os.open(v, os.O_RDONLY | os.O_DIRECTORY)
+            except OSError:
+                for e in self.fd[self.FD_STDERR + 1:]:
+                    self.help_shut(e.host_fd)
+                raise
             self.fd.append(self.File(
-                host_fd=os.open(v, os.O_RDONLY | os.O_DIRECTORY),
+                host_fd=host_fd,
                 host_flag=os.O_RDONLY | os.O_DIRECTORY,
                 host_name=v,
                 host_status=self.FILE_STATUS_OPENED,
@@ -1134,6 +1140,7 @@ class Preview1:
     def main(self, runtime: pywasm.core.Runtime, module: pywasm.core.ModuleInst) -> int:
         # Attempt to begin execution of instance as a wasi command by invoking its _start() export. If instance does
         # not contain a _start() export, then an exception is thrown.
+        pipe = [e.pipe for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1] if e.pipe]
         try:
             runtime.invocate(module, '_start', [])
         except Exception as e:
@@ -1146,15 +1153,15 @@ class Preview1:
         else:
             return 0
         finally:
-            for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
-                if e.pipe:
-                    e.pipe.seek(0)
-            for e in self.fd[self.FD_STDERR + 1:]:
-                if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
+            for e in pipe:
+                e.seek(0)
+            for e in self.fd:
+                if e.host_keep:
                     continue
                 if e.host_status != self.FILE_STATUS_CLOSED:
-                    os.close(e.host_fd)
                     e.host_status = self.FILE_STATUS_CLOSED
+                    e.wasm_status = self.FILE_STATUS_CLOSED
+                    self.help_shut(e.host_fd)
 
     def path_create_directory(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Create a directory.
-- 
2.43.0


From a7a03593f2bac78661df21ab5f40baa8727988cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 16/44] fix: path_open must not grant more rights than its
 directory passes on

It granted whatever was asked for, and created files without the right to.
---
 pywasm/wasi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a0274b4..32e28fa 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1271,6 +1271,11 @@ class Preview1:
         name = self.help_name(mems, args[2], args[3])
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
+        if args[4] & self.OFLAGS_CREAT and self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
+            return [self.ERRNO_NOTCAPABLE]
+        # Rights can only shrink along the way from a directory to what is opened in it.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
         flag = os.O_NOFOLLOW
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
         if args[4] & self.OFLAGS_CREAT:
@@ -1285,11 +1290,11 @@ class Preview1:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                 return [self.ERRNO_PERM]
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
             flag |= os.O_RDONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
             flag |= os.O_WRONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
@@ -1319,8 +1324,6 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
-        rights_base = args[5]
-        rights_root = args[6]
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From 56648041ba82e14b405506c6d619364ab958d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 17/44] fix: path_open must not leak the host descriptor when
 it fails

A failing fstat left it open, or took a directory for something else.
---
 pywasm/wasi.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 32e28fa..26d7c76 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1324,13 +1324,18 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
+        try:
+            wasm_type = self.help_wasm_type(os.fstat(host_fd))
+        except OSError:
+            self.help_shut(host_fd)
+            raise
         # Drectory does not have the seek right.
-        if os.path.isdir(host_fd):
+        if wasm_type == self.FILETYPE_DIRECTORY:
             void = self.RIGHTS_FD_SEEK
             rights_base &= ~void
             rights_root &= ~void
         # Files shouldn't have rights for path_* syscalls even if manually given.
-        if os.path.isfile(host_fd):
+        if wasm_type == self.FILETYPE_REGULAR_FILE:
             void = sum([
                 self.RIGHTS_PATH_CREATE_DIRECTORY,
                 self.RIGHTS_PATH_CREATE_FILE,
@@ -1361,7 +1366,7 @@ class Preview1:
             wasm_rights_base=rights_base,
             wasm_rights_root=rights_root,
             wasm_status=self.FILE_STATUS_OPENED,
-            wasm_type=self.help_wasm_type(os.fstat(host_fd)),
+            wasm_type=wasm_type,
         ))
         mems.put_u32(args[8], wasm_fd)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 0cd727456270b74d15fec922d693dfbc4645024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 18/44] fix: fd_readdir must report every entry exactly once

A cookie was an index into the current contents, so that a scan skipped or
repeated entries when others were created or removed; a dangling link or a
vanished entry failed the scan, links were reported as their targets, name
lengths were counted in characters, and the name was looked up by path.
---
 pywasm/wasi.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 26d7c76..80c10c4 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -8,6 +8,7 @@ import pywasm.core
 import select
 import socket
 import stat
+import struct
 import sys
 import time
 import typing
@@ -410,6 +411,8 @@ class Preview1:
         wasm_type: int
         # The standard streams belong to the embedder and are never closed.
         host_keep: bool = False
+        # The names of the directory scan in progress.
+        host_list: typing.Optional[typing.List[str]] = None
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -849,23 +852,30 @@ class Preview1:
         dirent = args[1]
         buflen = args[2]
         bufend = dirent + buflen
-        cookie = args[3]
-        result = ['.', '..', *sorted(os.listdir(file.host_fd))]
-        for name in result[cookie:]:
-            if dirent + 24 > bufend:
-                break
-            info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
-            mems.put_u64(dirent, cookie + 1)
-            mems.put_u64(dirent + 8, info.st_ino)
-            mems.put_u32(dirent + 16, len(name))
-            mems.put_u8(dirent + 20, self.help_wasm_type(info))
-            dirent += 24
-            if dirent + len(name) > bufend:
+        cookie = args[3] & 0xffffffffffffffff
+        mems.need(dirent, buflen)
+        mems.need(args[4], 4)
+        # A cookie is a position in the list of names taken when the scan was started, so that it stays valid when
+        # other entries are created or removed in the meantime.
+        host_list = file.host_list
+        if cookie == self.DIRCOOKIE_START or host_list is None:
+            host_list = ['.', '..', *sorted(os.listdir(file.host_fd))]
+        for name in host_list[cookie:]:
+            if dirent >= bufend:
                 break
-            mems.put(dirent, bytearray(name.encode()))
-            dirent += len(name)
             cookie += 1
-        mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
+            try:
+                info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            except FileNotFoundError:
+                continue
+            data = os.fsencode(name)
+            elem = bytearray(struct.pack('<QQIB3x', cookie, info.st_ino, len(data), self.help_wasm_type(info))) + data
+            # The last record is truncated if it does not fit.
+            elem = elem[:bufend - dirent]
+            mems.put(dirent, elem)
+            dirent += len(elem)
+        file.host_list = host_list
+        mems.put_u32(args[4], dirent - args[1])
         return [self.ERRNO_SUCCESS]
 
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -889,6 +899,7 @@ class Preview1:
         dest.wasm_status = stem.wasm_status
         dest.wasm_type = stem.wasm_type
         dest.host_keep = stem.host_keep
+        dest.host_list = stem.host_list
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From fc5b7f046dbe5c645109462f02f5ffa0c9eb69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 19/44] fix: poll_oneoff must return exactly when a
 subscription is ready

It waited for the time since instead of until an absolute deadline, read
the clock id and the flags with the padding behind them, returned without
events after eight seconds, after an early wake-up or on an unknown event
type, and did not know about captured input and output.
---
 pywasm/wasi.py | 52 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 80c10c4..a257ce8 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1502,6 +1502,11 @@ class Preview1:
         nsub = args[2]
         nout = args[3]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        if nsub == 0:
+            return [self.ERRNO_INVAL]
+        mems.need(subs, nsub * 48)
+        mems.need(outs, nsub * 32)
+        mems.need(nout, 4)
         csub = []
         rsub = []
         wsub = []
@@ -1512,13 +1517,17 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
                     nval = mems.get_u64(addr + 24)
-                    flag = mems.get_u32(addr + 40)
-                    ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
-                    ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
-                    csub.append([userdata, ckid, delt, ends])
+                    flag = mems.get_u16(addr + 40)
+                    if ckid > self.CLOCKID_THREAD_CPUTIME_ID:
+                        return [self.ERRNO_INVAL]
+                    ends = nval
+                    if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME == 0:
+                        # A relative timeout does not depend on changes of the real time.
+                        ckid = ckid or self.CLOCKID_MONOTONIC
+                        ends = self.help_time(ckid) + nval
+                    csub.append([userdata, ckid, ends])
                 case self.EVENTTYPE_FD_READ:
                     file = mems.get_u32(addr + 16)
                     if self.help_badf(file):
@@ -1533,19 +1542,22 @@ class Preview1:
                     if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
                         return [self.ERRNO_NOTCAPABLE]
                     wsub.append([userdata, file])
-        # Calculate minimum timeout.
-        delt = 8
-        if csub:
-            delt = min([e[2] for e in csub]) / 1000000000.0
-        ryes, wyes, _ = select.select(
-            [self.fd[fd].host_fd for _, fd in rsub],
-            [self.fd[fd].host_fd for _, fd in wsub],
-            [],
-            delt,
-        )
+                case _:
+                    return [self.ERRNO_INVAL]
+        rfds = [self.fd[fd].host_fd for _, fd in rsub if not self.help_pipe(fd)]
+        wfds = [self.fd[fd].host_fd for _, fd in wsub if not self.help_pipe(fd)]
+        pipe = len(rfds) + len(wfds) < len(rsub) + len(wsub)
+        while True:
+            # Calculate minimum timeout. The host may wake up early, the clock may be changed meanwhile.
+            delt = min([e[2] - self.help_time(e[1]) for e in csub], default=1 << 63)
+            delt = 0 if pipe else min(max(delt, 0) / 1000000000.0, 3600.0)
+            ryes, wyes, _ = select.select(rfds, wfds, [], delt)
+            cyes = [self.help_time(e[1]) >= e[2] for e in csub]
+            if pipe or ryes or wyes or any(cyes):
+                break
         neve = 0
-        for e in csub:
-            if self.help_time(e[1]) < e[3]:
+        for e, done in zip(csub, cyes):
+            if not done:
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
@@ -1553,7 +1565,7 @@ class Preview1:
             outs += 32
             neve += 1
         for e in rsub:
-            if self.fd[e[1]].host_fd not in ryes:
+            if self.fd[e[1]].host_fd not in ryes and not self.help_pipe(e[1]):
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
@@ -1561,7 +1573,7 @@ class Preview1:
             outs += 32
             neve += 1
         for e in wsub:
-            if self.fd[e[1]].host_fd not in wyes:
+            if self.fd[e[1]].host_fd not in wyes and not self.help_pipe(e[1]):
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-- 
2.43.0


From 2a1552e88f56b28bca25f7b718fcb06cceda2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 20/44] fix: sock_accept must return a working connection

It always raised an exception, closed the connection when it was garbage
collected, and made the listener non-blocking.
---
 pywasm/wasi.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a257ce8..d72bc01 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1622,13 +1622,18 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if args[1] & self.FDFLAGS_NONBLOCK:
-            sock.setblocking(False)
+        if args[1] & self.FDFLAGS_NONBLOCK and not select.select([sock], [], [], 0)[0]:
+            return [self.ERRNO_AGAIN]
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        host_flag = os.O_RDWR
+        if args[1] & self.FDFLAGS_NONBLOCK:
+            conn.setblocking(False)
+            host_flag |= os.O_NONBLOCK
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=host_flag,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
-- 
2.43.0


From a36b8d788fdd5402572fccd7971ef1642c43db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 21/44] fix: sock_recv must report truncation only for
 truncated messages

Short reads and the end of the stream were reported as truncated data and
the 16 bit flags were written as 32 bits.
---
 pywasm/wasi.py | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d72bc01..c724cd4 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1663,8 +1663,6 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        iovs_ptr = args[1]
-        iovs_len = args[2]
         ro_flags = 0
         ri_flags = 0
         if args[3] & self.RIFLAGS_RECV_PEEK:
@@ -1672,36 +1670,19 @@ class Preview1:
         if args[3] & self.RIFLAGS_RECV_WAITALL and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
             # Only meaningful for stream sockets.
             ri_flags |= socket.MSG_WAITALL
-        size_all = 0
-        for _ in range(iovs_len):
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            size_all += elem_len
-            iovs_ptr += 8
+        iovs, size = self.help_iovs(mems, args[1], args[2])
+        mems.need(args[4], 4)
+        mems.need(args[5], 2)
         try:
-            data = sock.recv(size_all, ri_flags)
+            data, _, flag, _ = sock.recvmsg(size, 0, ri_flags)
         except BrokenPipeError:
             return [self.ERRNO_PIPE]
-        data_len = len(data)
-        # If no data received, check for connection closure.
-        if data_len == 0 and file.wasm_type == self.FILETYPE_SOCKET_STREAM:
-            ro_flags |= self.EVENTRWFLAGS_FD_READWRITE_HANGUP
-        # Distribute data across iovec buffers.
-        iovs_ptr = args[1]
-        offs = 0
-        for _ in range(iovs_len):
-            if offs >= data_len:
-                break
-            elem_ptr = mems.get_u32(iovs_ptr)
-            elem_len = mems.get_u32(iovs_ptr + 4)
-            size = min(elem_len, data_len - offs)
-            if size > 0:
-                mems.put(elem_ptr, bytearray(data[offs:offs + size]))
-                offs += size
-            iovs_ptr += 8
-        if data_len < size_all:
+        # A message that does not fit into the buffers is truncated.
+        if flag & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
-        mems.put_u32(args[4], data_len)
-        mems.put_u32(args[5], ro_flags)
+        self.help_fill(mems, iovs, data)
+        mems.put_u32(args[4], len(data))
+        mems.put_u16(args[5], ro_flags)
         return [self.ERRNO_SUCCESS]
 
     def sock_send(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 4f84bbd2499a9312e7d787ef383bfeee63298ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 22/44] fix: count bytes, not characters, of arguments,
 environment and links

With non-ASCII text the sizes were too small and the data was written
beyond the guest's buffers.
---
 pywasm/wasi.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index c724cd4..5cc4c16 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -502,8 +502,9 @@ class Preview1:
         for e in self.args:
             mems.put_u32(argv, argv_buf)
             argv += 4
-            mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            data = bytearray(os.fsencode(e))
+            mems.put(argv_buf, data)
+            argv_buf += len(data)
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -512,7 +513,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(os.fsencode(e)) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -592,8 +593,9 @@ class Preview1:
         for e in self.envs:
             mems.put_u32(environ, environ_buf)
             environ += 4
-            mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            data = bytearray(os.fsencode(e))
+            mems.put(environ_buf, data)
+            environ_buf += len(data)
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -602,7 +604,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(os.fsencode(e)) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1392,11 +1394,11 @@ class Preview1:
         name = self.help_name(mems, args[1], args[2])
         try:
             with self.help_path(args[0], name, 0) as (root, name):
-                data = os.readlink(name.rstrip('/'), dir_fd=root)
+                data = os.fsencode(os.readlink(name.rstrip('/'), dir_fd=root))
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 51820dee3eaadb49744de1967a4df25190e552f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 23/44] fix: an unknown clock is an error

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 5cc4c16..846de7e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -575,12 +575,16 @@ class Preview1:
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        if args[0] > self.CLOCKID_THREAD_CPUTIME_ID:
+            return [self.ERRNO_INVAL]
         mems.put_u64(args[1], 1)
         return [self.ERRNO_SUCCESS]
 
     def clock_time_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the time value of a clock.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        if args[0] > self.CLOCKID_THREAD_CPUTIME_ID:
+            return [self.ERRNO_INVAL]
         mems.put_u64(args[2], self.help_time(args[0]))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 0320e97ae79f54d73fad7063b66cdf4875c62747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 24/44] fix: a branch to the outermost label of a called
 function must leave its frame

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index d3baf2e..0e316bf 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1783,7 +1783,7 @@ class Machine:
                 ))
                 self.stack.label.append(Label(
                     nret,
-                    len(self.stack.frame),
+                    len(self.stack.frame) - 1,
                     len(self.stack.value),
                     3,
                     func.code.expr.data,
-- 
2.43.0


From 71a62ef59c6fc72e2338757b6ab28ccaaead495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 25/44] fix: run every entry from the embedder on a stack of
 its own

---
 pywasm/core.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 0e316bf..82f29ad 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1,3 +1,4 @@
+import contextlib
 import ctypes
 import io
 import math
@@ -1621,6 +1622,25 @@ class Machine:
         return inst
 
     def instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
+        with self.fresh():
+            return self.evaluate_instance(module, extern)
+
+    def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+        with self.fresh():
+            return self.evaluate_invocate(addr, args)
+
+    @contextlib.contextmanager
+    def fresh(self) -> typing.Iterator[None]:
+        # Each entry from the embedder runs on a stack of its own. It is discarded however the call ends, so nothing of
+        # a call that was aborted is left behind, and host functions may call back into the machine.
+        stack = self.stack
+        self.stack = Stack()
+        try:
+            yield
+        finally:
+            self.stack = stack
+
+    def evaluate_instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1717,7 +1737,7 @@ class Machine:
         self.stack.frame.pop()
         return newmod
 
-    def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+    def evaluate_invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
         assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
-- 
2.43.0


From 210d60fe8b17d5753a6db3d696d2591e577c313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 26/44] fix: a declared maximum of 0 is a maximum

---
 pywasm/core.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 82f29ad..440d9c2 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -816,26 +816,34 @@ class FuncDesc:
 
 
 class Limits:
-    # Limits are encoded with a preceding flag indicating whether a maximum is present.
+    # Limits are encoded with a preceding flag indicating whether a maximum is present. If the flag is not given, a
+    # maximum of 0 stands for no maximum.
 
-    def __init__(self, n: int, m: int) -> typing.Self:
+    def __init__(self, n: int, m: int, flag: typing.Optional[bool] = None) -> typing.Self:
         self.n = n
         self.m = m
+        self.flag = m != 0 if flag is None else flag
 
     def __repr__(self) -> str:
-        m = 'inf' if self.m == 0 else repr(self.m)
+        m = repr(self.m) if self.flag else 'inf'
         return f'[{self.n}, {m}]'
 
+    def hold(self, size: int) -> bool:
+        # Reports whether the size does not exceed the maximum.
+        return not self.flag or size <= self.m
+
     def suit(self, value: typing.Self) -> bool:
         c1 = self.n >= value.n
-        c2 = value.m == 0
-        c3 = self.m != 0 and value.m != 0 and self.m <= value.m
+        c2 = not value.flag
+        c3 = self.flag and value.flag and self.m <= value.m
         return c1 and (c2 or c3)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         flag = ord(r.read(1))
-        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00)
+        n = pywasm.leb128.u.decode_reader(r)[0]
+        m = pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00
+        return cls(n, m, bool(flag))
 
 
 class MemType:
@@ -902,8 +910,7 @@ class MemInst:
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
-        if self.type.limits.m:
-            assert self.size + n <= self.type.limits.m
+        assert self.type.limits.hold(self.size + n)
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
         self.size += n
@@ -943,7 +950,7 @@ class MemInst:
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
 
 
 class TableType:
@@ -982,14 +989,13 @@ class TableInst:
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
     def grow(self, n: int, v: ValInst) -> None:
-        if self.type.limits.m:
-            assert self.size + n <= self.type.limits.m
+        assert self.type.limits.hold(self.size + n)
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
         self.size += n
 
     def suit(self, l: Limits) -> bool:
-        return Limits(self.size, self.type.limits.m).suit(l)
+        return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
 
 
 class GlobalType:
@@ -2031,7 +2037,7 @@ class Machine:
                     rets = -1
                     # Limit memory size to 64m.
                     cnda = size + incr <= 1024
-                    cndb = mems.type.limits.m == 0 or size + incr <= mems.type.limits.m
+                    cndb = mems.type.limits.hold(size + incr)
                     if cnda and cndb:
                         rets = size
                         mems.grow(incr)
@@ -2813,7 +2819,7 @@ class Machine:
                     init = self.stack.value.pop()
                     rets = -1
                     cnda = size + incr <= 1024
-                    cndb = tabl.type.limits.m == 0 or size + incr <= tabl.type.limits.m
+                    cndb = tabl.type.limits.hold(size + incr)
                     if cnda and cndb:
                         rets = size
                         tabl.grow(incr, init)
-- 
2.43.0


From b953ed9dd7e71cd31d800c4225f875289f45510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 27/44] fix: memory.grow and table.grow must fail when the host
 is out of memory

---
 pywasm/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 440d9c2..f9229d5 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2039,8 +2039,12 @@ class Machine:
                     cnda = size + incr <= 1024
                     cndb = mems.type.limits.hold(size + incr)
                     if cnda and cndb:
-                        rets = size
-                        mems.grow(incr)
+                        # The host may not have enough memory left.
+                        try:
+                            mems.grow(incr)
+                            rets = size
+                        except MemoryError:
+                            pass
                     self.stack.value.append(ValInst.from_i32(rets))
                 case pywasm.opcode.i32_const:
                     a = ValInst.from_i32(instr.args[0])
@@ -2821,8 +2825,12 @@ class Machine:
                     cnda = size + incr <= 1024
                     cndb = tabl.type.limits.hold(size + incr)
                     if cnda and cndb:
-                        rets = size
-                        tabl.grow(incr, init)
+                        # The host may not have enough memory left.
+                        try:
+                            tabl.grow(incr, init)
+                            rets = size
+                        except MemoryError:
+                            pass
                     self.stack.value.append(ValInst.from_i32(rets))
                 case pywasm.opcode.table_size:
                     tabl = self.store.tabl[frame.module.tabl[instr.args[0]]]
-- 
2.43.0


From d7b4fea75f5fb6df0e9e8af5b55f5afa5b54b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 28/44] fix: dropping a data segment must not empty the parsed
 module

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index f9229d5..50eea9b 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1611,7 +1611,7 @@ class Machine:
             addr = self.store.allocate_elem(e.type, elemin[i])
             inst.elem.append(addr)
         for i, e in enumerate(module.data):
-            addr = self.store.allocate_data(e.init)
+            addr = self.store.allocate_data(e.init.copy())
             inst.data.append(addr)
         for _, e in enumerate(module.exps):
             expi = ExportInst(e.name, Extern(e.kind, 0))
-- 
2.43.0


From a05975310bfffdae70b4a0de768745cb3fc276b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 29/44] fix: loading must fail on modules with missing
 functions or data

---
 pywasm/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 50eea9b..93a5595 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1342,7 +1342,11 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        # The number of functions in code section and the number of data segments in data count section, if present.
+        code: int = 0
+        ndat: int = -1
+
+        while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
@@ -1406,6 +1410,7 @@ class ModuleDesc:
                         desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
+                        code += 1
                         pywasm.log.debugln('section code', desc)
                         desc.expr.into_disasm(4)
                 case 0x0b:
@@ -1414,9 +1419,12 @@ class ModuleDesc:
                         data.append(desc)
                         pywasm.log.debugln('section data', desc)
                 case 0x0c:
-                    n = pywasm.leb128.u.decode_reader(section_reader)[0]
-                    pywasm.log.debugln('section data count', n)
+                    ndat = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    pywasm.log.debugln('section data count', ndat)
 
+        # A module that lacks some of the parts it announced is incomplete.
+        assert code == len(func)
+        assert ndat in [-1, len(data)]
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
 
-- 
2.43.0


From 21f8314b347f5e605932d2c030ca8148a1fd0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 30/44] fix: i64.div_u must accept quotients of 2^63 and more

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 93a5595..57e23cd 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2364,7 +2364,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From 4b32e3d4945aa196f74feecda496db0172c566ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 31/44] fix: only preopened directories have a prestat, also
 after fd_renumber

---
 pywasm/wasi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 846de7e..76c5c20 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -413,6 +413,8 @@ class Preview1:
         host_keep: bool = False
         # The names of the directory scan in progress.
         host_list: typing.Optional[typing.List[str]] = None
+        # A directory preopened by the embedder.
+        host_root: bool = False
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -487,6 +489,7 @@ class Preview1:
                 wasm_rights_root=0b00001111111111111111111111111111,
                 wasm_status=self.FILE_STATUS_OPENED,
                 wasm_type=self.FILETYPE_DIRECTORY,
+                host_root=True,
             ))
         # By default, when wasi applications call proc_exit(), wasi.main() will return with the exit code specified
         # rather than terminating the process. Setting this option to 0 will cause the python process to exit with the
@@ -783,7 +786,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] <= self.FD_STDERR or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].host_root:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -795,7 +798,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] <= self.FD_STDERR or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].host_root:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -906,6 +909,7 @@ class Preview1:
         dest.wasm_type = stem.wasm_type
         dest.host_keep = stem.host_keep
         dest.host_list = stem.host_list
+        dest.host_root = stem.host_root
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 6f5fca0260d9ce862754874790cf0c606ca03f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 32/44] fix: opening calls must not leave a descriptor behind
 when they cannot report it

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 76c5c20..5000570 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1290,6 +1290,7 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = self.help_name(mems, args[2], args[3])
+        mems.need(args[8], 4)
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
         if args[4] & self.OFLAGS_CREAT and self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
@@ -1632,8 +1633,11 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
+        if not sock.getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
+            return [self.ERRNO_INVAL]
         if args[1] & self.FDFLAGS_NONBLOCK and not select.select([sock], [], [], 0)[0]:
             return [self.ERRNO_AGAIN]
+        mems.need(args[2], 4)
         conn, _ = sock.accept()
         host_flag = os.O_RDWR
         if args[1] & self.FDFLAGS_NONBLOCK:
-- 
2.43.0


From 6466603c33d38db4753092d19d843441af4fdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 33/44] fix: unknown descriptor flags are an error

---
 pywasm/wasi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 5000570..51d256d 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -229,6 +229,8 @@ class Preview1:
     # Write according to synchronized I/O file integrity completion. In addition to synchronizing the data stored in
     # the file, the implementation may also synchronously update the file's metadata.
     FDFLAGS_SYNC = 1 << 4
+    # All of the descriptor flags there are.
+    FDFLAGS_MASK = (1 << 5) - 1
 
     FD_STDIN = 0
     FD_STDOUT = 1
@@ -1291,6 +1293,8 @@ class Preview1:
         file = self.fd[args[0]]
         name = self.help_name(mems, args[2], args[3])
         mems.need(args[8], 4)
+        if args[7] & ~self.FDFLAGS_MASK:
+            return [self.ERRNO_INVAL]
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
         if args[4] & self.OFLAGS_CREAT and self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
@@ -1633,7 +1637,7 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if not sock.getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
+        if args[1] & ~self.FDFLAGS_MASK or not sock.getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
             return [self.ERRNO_INVAL]
         if args[1] & self.FDFLAGS_NONBLOCK and not select.select([sock], [], [], 0)[0]:
             return [self.ERRNO_AGAIN]
-- 
2.43.0


From b1c5f884f692f5d54d966f7b0bc33eec6c5b1dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 34/44] fix: random_get must not draw gigabytes for a buffer
 outside of the memory

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 51d256d..ba177a3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1614,6 +1614,7 @@ class Preview1:
     def random_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        mems.need(args[0], args[1])
         mems.put(args[0], bytearray(os.urandom(args[1])))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From 091527a26a7828166e3705914210726a60388e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 35/44] fix: report the timestamps of files older than 1970

---
 pywasm/wasi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ba177a3..823113d 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -727,9 +727,9 @@ class Preview1:
         mems.put_u8(args[1] + 16, file.wasm_type)
         mems.put_u64(args[1] + 24, info.st_nlink)
         mems.put_u64(args[1] + 32, info.st_size)
-        mems.put_u64(args[1] + 40, info.st_atime_ns)
-        mems.put_u64(args[1] + 48, info.st_mtime_ns)
-        mems.put_u64(args[1] + 56, info.st_ctime_ns)
+        mems.put_i64(args[1] + 40, info.st_atime_ns)
+        mems.put_i64(args[1] + 48, info.st_mtime_ns)
+        mems.put_i64(args[1] + 56, info.st_ctime_ns)
         return [self.ERRNO_SUCCESS]
 
     def fd_filestat_set_size(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
@@ -1220,9 +1220,9 @@ class Preview1:
         mems.put_u8(args[4] + 16, self.help_wasm_type(info))
         mems.put_u64(args[4] + 24, info.st_nlink)
         mems.put_u64(args[4] + 32, info.st_size)
-        mems.put_u64(args[4] + 40, info.st_atime_ns)
-        mems.put_u64(args[4] + 48, info.st_mtime_ns)
-        mems.put_u64(args[4] + 56, info.st_ctime_ns)
+        mems.put_i64(args[4] + 40, info.st_atime_ns)
+        mems.put_i64(args[4] + 48, info.st_mtime_ns)
+        mems.put_i64(args[4] + 56, info.st_ctime_ns)
         return [self.ERRNO_SUCCESS]
 
     def path_filestat_set_times(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From f54cec5af2df371679777f7cc8d70e3c183189c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 36/44] fix: poll_oneoff must not leave parts of its events
 undefined

---
 pywasm/wasi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 823113d..443f15e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1574,6 +1574,7 @@ class Preview1:
         for e, done in zip(csub, cyes):
             if not done:
                 continue
+            mems.put(outs, bytearray(32))
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
             mems.put_u8(outs + 10, self.EVENTTYPE_CLOCK)
@@ -1582,6 +1583,7 @@ class Preview1:
         for e in rsub:
             if self.fd[e[1]].host_fd not in ryes and not self.help_pipe(e[1]):
                 continue
+            mems.put(outs, bytearray(32))
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
             mems.put_u8(outs + 10, self.EVENTTYPE_FD_READ)
@@ -1590,6 +1592,7 @@ class Preview1:
         for e in wsub:
             if self.fd[e[1]].host_fd not in wyes and not self.help_pipe(e[1]):
                 continue
+            mems.put(outs, bytearray(32))
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
             mems.put_u8(outs + 10, self.EVENTTYPE_FD_WRITE)
-- 
2.43.0


From 8dd31f39a68c35353057f82eff3814ba790bb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 37/44] fix: invoke host functions that a module exports again

---
 pywasm/core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 57e23cd..519be69 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1753,17 +1753,22 @@ class Machine:
 
     def evaluate_invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
         func = self.store.func[addr]
-        assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
         pywasm.log.debugln('invocate', addr, args)
-        locals = LocalsInst(args)
-        for e in func.code.locals:
-            locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
-        self.stack.frame.append(Frame(func.module, locals, len(func.type.rets), 0, 0))
-        self.stack.label.append(Label(len(func.type.rets), 1, 0, 3, func.code.expr.data, 0))
-        self.evaluate()
+        match func.kind:
+            case 0x00:
+                locals = LocalsInst(args)
+                for e in func.code.locals:
+                    locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
+                self.stack.frame.append(Frame(func.module, locals, len(func.type.rets), 0, 0))
+                self.stack.label.append(Label(len(func.type.rets), 1, 0, 3, func.code.expr.data, 0))
+                self.evaluate()
+            case 0x01:
+                # A host function which a module imports and exports again.
+                self.stack.value.extend(args)
+                self.evaluate_call(addr)
         rets = [self.stack.value.pop() for _ in range(len(func.type.rets))][::-1]
         for a, b in zip(func.type.rets, rets):
             assert a == b.type
-- 
2.43.0


From 70db93986822b4b58fb6fb5f64464a6c4d0810dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 38/44] fix: the size of a memory or table must agree with its
 contents when growing is interrupted

---
 pywasm/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 519be69..c34cc4a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -878,9 +878,13 @@ class MemInst:
     def __init__(self, type: MemType) -> typing.Self:
         self.type = type
         self.data = bytearray()
-        self.size = 0
         self.grow(type.limits.n)
 
+    @property
+    def size(self) -> int:
+        # The number of pages. It follows from the data, so that the two agree even if growing is interrupted.
+        return len(self.data) // 65536
+
     def get_i32(self, addr: int) -> int:
         self.need(addr, 4)
         return struct.unpack('<i', self.data[addr:addr+4])[0]
@@ -913,7 +917,6 @@ class MemInst:
         assert self.type.limits.hold(self.size + n)
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
-        self.size += n
 
     def need(self, addr: int, size: int) -> None:
         # Accesses must lie within the memory, in particular a write must not extend it.
@@ -985,14 +988,17 @@ class TableInst:
     def __init__(self, type: TableType) -> typing.Self:
         self.type = type
         self.elem: typing.List[ValInst] = []
-        self.size = 0
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
+    @property
+    def size(self) -> int:
+        # The number of elements, also if growing is interrupted.
+        return len(self.elem)
+
     def grow(self, n: int, v: ValInst) -> None:
         assert self.type.limits.hold(self.size + n)
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
-        self.size += n
 
     def suit(self, l: Limits) -> bool:
         return Limits(self.size, self.type.limits.m, self.type.limits.flag).suit(l)
-- 
2.43.0


From 21c7b26c9b6ed1cbb134fb49f2fb566ee3398754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 39/44] fix: a reader with nothing to give yet is not at the
 end of the module

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c34cc4a..a008bd3 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1354,7 +1354,7 @@ class ModuleDesc:
 
         while True:
             section_id_byte = r.read(1)
-            if not section_id_byte:
+            if len(section_id_byte) == 0:
                 break
             section_id = ord(section_id_byte)
             n = pywasm.leb128.u.decode_reader(r)[0]
-- 
2.43.0


From b34f48df53a201c0820267f6605a1dde16a626b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 40/44] fix: a log that cannot be written must not fail the
 program being logged

---
 pywasm/log.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywasm/log.py b/pywasm/log.py
index 6c655b2..f1b5714 100644
--- a/pywasm/log.py
+++ b/pywasm/log.py
@@ -5,7 +5,11 @@ lvl = 0
 
 def debugln(*args):
     if lvl > 0:
-        println(*args)
+        try:
+            println(*args)
+        except Exception:
+            # A log that cannot be written, or a value that cannot be shown, is no failure of the program being logged.
+            pass
 
 
 def println(*args):
-- 
2.43.0


From 2b91652d1247651d4cb0f49003ab3d726a34117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 41/44] fix: names of preopened directories are bytes in the
 encoding of the host

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 443f15e..f3f2763 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -792,7 +792,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(os.fsencode(file.wasm_name))
         if len(name) > args[2]:
             return [self.ERRNO_NAMETOOLONG]
         mems.put(args[1], name)
@@ -804,7 +804,7 @@ class Preview1:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        name = bytearray(file.wasm_name.encode())
+        name = bytearray(os.fsencode(file.wasm_name))
         mems.put_u8(args[1], self.PREOPENTYPE_DIR)
         mems.put_u32(args[1] + 4, len(name))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 98dae615c5b2b47c18ce0845dd745693dbd3b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 42/44] fix: a captured stream that cannot be rewound loses
 neither descriptors nor the exit status

---
 pywasm/wasi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f3f2763..ca7b46e 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1176,8 +1176,6 @@ class Preview1:
         else:
             return 0
         finally:
-            for e in pipe:
-                e.seek(0)
             for e in self.fd:
                 if e.host_keep:
                     continue
@@ -1185,6 +1183,9 @@ class Preview1:
                     e.host_status = self.FILE_STATUS_CLOSED
                     e.wasm_status = self.FILE_STATUS_CLOSED
                     self.help_shut(e.host_fd)
+            for e in pipe:
+                with contextlib.suppress(OSError, ValueError):
+                    e.seek(0)
 
     def path_create_directory(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Create a directory.
-- 
2.43.0


From 159e1f3d7e6417f72cb68bf2fac9f1ff84617116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 43/44] fix: poll_oneoff and sock_accept take host descriptors
 above 1023

---
 pywasm/wasi.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ca7b46e..b0fcea2 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1160,6 +1160,24 @@ class Preview1:
             case _:
                 return 0
 
+    def help_wait(
+        self,
+        rfds: typing.List[int],
+        wfds: typing.List[int],
+        wait: float,
+    ) -> typing.Tuple[typing.List[int], typing.List[int]]:
+        # Wait until one of the host descriptors is ready. Only poll() takes descriptors of any size.
+        if max(rfds + wfds, default=0) < 1024:
+            ryes, wyes, _ = select.select(rfds, wfds, [], wait)
+            return ryes, wyes
+        poll = select.poll()
+        for e in {*rfds, *wfds}:
+            poll.register(e, select.POLLIN * (e in rfds) | select.POLLOUT * (e in wfds))
+        have = dict(poll.poll(wait * 1000))
+        ryes = [e for e in rfds if have.get(e, 0) & ~select.POLLOUT]
+        wyes = [e for e in wfds if have.get(e, 0) & (select.POLLOUT | select.POLLERR)]
+        return ryes, wyes
+
     def main(self, runtime: pywasm.core.Runtime, module: pywasm.core.ModuleInst) -> int:
         # Attempt to begin execution of instance as a wasi command by invoking its _start() export. If instance does
         # not contain a _start() export, then an exception is thrown.
@@ -1567,7 +1585,7 @@ class Preview1:
             # Calculate minimum timeout. The host may wake up early, the clock may be changed meanwhile.
             delt = min([e[2] - self.help_time(e[1]) for e in csub], default=1 << 63)
             delt = 0 if pipe else min(max(delt, 0) / 1000000000.0, 3600.0)
-            ryes, wyes, _ = select.select(rfds, wfds, [], delt)
+            ryes, wyes = self.help_wait(rfds, wfds, delt)
             cyes = [self.help_time(e[1]) >= e[2] for e in csub]
             if pipe or ryes or wyes or any(cyes):
                 break
@@ -1644,7 +1662,7 @@ class Preview1:
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
         if args[1] & ~self.FDFLAGS_MASK or not sock.getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
             return [self.ERRNO_INVAL]
-        if args[1] & self.FDFLAGS_NONBLOCK and not select.select([sock], [], [], 0)[0]:
+        if args[1] & self.FDFLAGS_NONBLOCK and not self.help_wait([sock.fileno()], [], 0)[0]:
             return [self.ERRNO_AGAIN]
         mems.need(args[2], 4)
         conn, _ = sock.accept()
-- 
2.43.0


From cc8f3dd343aeaaf72fa53a0952c87a1b545c5dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 44/44] fix: positioned reads and writes on a captured stream
 do not go to the stream of the host

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index b0fcea2..afd9af3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -777,6 +777,8 @@ class Preview1:
             return [self.ERRNO_ISDIR]
         if self.help_perm(args[0], self.RIGHTS_FD_READ):
             return [self.ERRNO_NOTCAPABLE]
+        if self.help_pipe(args[0]):
+            return [self.ERRNO_SPIPE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         iovs, size = self.help_iovs(mems, args[1], args[2])
@@ -817,6 +819,8 @@ class Preview1:
             return [self.ERRNO_ISDIR]
         if self.help_perm(args[0], self.RIGHTS_FD_WRITE):
             return [self.ERRNO_NOTCAPABLE]
+        if self.help_pipe(args[0]):
+            return [self.ERRNO_SPIPE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         iovs_ptr = args[1]
-- 
2.43.0

