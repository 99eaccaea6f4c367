From bae0d2b8073b0501b6ee930f9e6364fafd9a726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 01/85] fix: swap resolves relative names against the cwd and
 reports errno

---
 augpathlib/swap.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..3b268d7 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -15,7 +15,8 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
-    libc = ctypes.CDLL(None)
+    AT_FDCWD = -100  # /usr/include/fcntl.h, names are relative to the cwd
+    libc = ctypes.CDLL(None, use_errno=True)
     rnat2_syscall = libc.syscall
     rnat2_syscall.restypes = ctypes.c_int       # returns an int
     rnat2_syscall.argtypes = (ctypes.c_int,     # syscall number
@@ -27,15 +28,11 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
         old_path = os.fspath(self).encode()
         new_path = os.fspath(target).encode()
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
-            raise OSError(value, 'renameat2 failed', self, None, target)
+            raise OSError(ctypes.get_errno(), 'renameat2 failed', self, None, target)
-- 
2.43.0


From 5e38a16cef8d5e309a350cbd05a126ba6a78d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 02/85] fix: ranged reads of exactly one chunk no longer fail

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..f2731c5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1323,7 +1323,7 @@ class LocalPath(EatPath, AugmentedPath):
                     if total < chunksize:
                         nchunks = 0
                         last_chunksize = total
-                    elif total > chunksize:
+                    else:
                         nchunks, last_chunksize = divmod(total, chunksize)
 
                     for _ in range(nchunks):  # FIXME boundscheck ...
-- 
2.43.0


From 023ddb90353b5d6600588892080c5cd3be729329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 03/85] fix: getxattr no longer hides other errors where errno
 has no ENOATTR

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f2731c5..9d2d55c 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,8 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            # ENOATTR is an alias of ENODATA that python only has on macos and bsd
+            if e.errno == errno.ENODATA or e.errno == getattr(errno, 'ENOATTR', errno.ENODATA):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 30e4c72d06b40a6082f22ab07dd15ea3c3b4ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 04/85] fix: import exceptions in repo_patch

---
 augpathlib/repo_patch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..d17963d 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
-- 
2.43.0


From 2124a1f1502309746043286d6045b024c5a7f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 05/85] fix: __all__ lists only names the package has

---
 augpathlib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/__init__.py b/augpathlib/__init__.py
index ef5e6da..02612f9 100644
--- a/augpathlib/__init__.py
+++ b/augpathlib/__init__.py
@@ -44,7 +44,7 @@ __all__ = [
     'PathMeta',
 
     'AugmentedPath',
-    'XattrPath',
+    'EatPath',
     'RepoPath',
     'PackagePath',
     'XopenPath',
@@ -54,7 +54,7 @@ __all__ = [
     'PrimaryCache',
     'SqliteCache',
     'SymlinkCache',
-    'XattrCache',
+    'EatCache',
     'SshCache',
 
     'RemotePath',
-- 
2.43.0


From a7febff9a01a46028fc6f5639c7d02558ef40c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 06/85] fix: PathMeta.__getitem__ returns the value

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..355ac88 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -140,7 +140,7 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
-- 
2.43.0


From 35c47391daacf51ce239037354341f4c3af3a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 07/85] fix: PathMeta equality compares fields, parsed or not

---
 augpathlib/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 355ac88..b2ad794 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -156,7 +156,8 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
+             # compare fields, not the lazily parsed state behind the dates
+             for field, value in self.items():
                   if value != getattr(other, field):
                        return False
              else:
-- 
2.43.0


From 851b666fd876e86513d3d1d13465e116ac4f8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 08/85] fix: crumple returns the location it really moved the
 file to

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..d6fcd94 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -162,7 +162,8 @@ class _CachePath(AugmentedPath):
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                trashed = self._trashed_path_short
+                self.rename(trashed)
             else:
                 raise e
 
-- 
2.43.0


From f5c0685a631548b0bf0cc9f1a845ac6294575974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 09/85] fix: use _meta_setter where cache meta has no property
 setter

---
 augpathlib/caches.py | 2 +-
 augpathlib/core.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index d6fcd94..fa2585c 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -616,7 +616,7 @@ class _CachePath(AugmentedPath):
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
                 nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 9d2d55c..aaf620f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1397,7 +1397,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # so we see things like None type has no attribute xyz because the
                 # cached metadata didn't get set correctly, this is happening in
                 # some subclass where cache.meta doesn't have a setter
-                cache.meta = cmeta  # glories of persisting xattrs :/
+                cache._meta_setter(cmeta)  # glories of persisting xattrs :/
             # yep sometimes the xattrs get  blasted >_<
             assert cache.meta
             assert self.cache.meta
-- 
2.43.0


From a4bd73fda2d5bf28b8b8db074a29ae02f4aaffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 10/85] fix: LocalPath.created returns the value

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index aaf620f..bac14df 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1188,7 +1188,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
-- 
2.43.0


From ae17e9d090e0b03eeef76f8398dcf6aba2ccf274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 11/85] fix: deprecated setup class methods have no self

---
 augpathlib/caches.py  | 2 +-
 augpathlib/core.py    | 2 +-
 augpathlib/remotes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index fa2585c..ee35966 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -47,7 +47,7 @@ class _CachePath(AugmentedPath):
     def setup(cls, local_class, remote_class_factory):
         """ call this once to bind everything together """
 
-        cn = self.__class__.__name__
+        cn = cls.__name__
         warnings.warn(f'{cn}.setup is deprecated please switch to RemotePath._new',
                       DeprecationWarning,
                       stacklevel=2)
diff --git a/augpathlib/core.py b/augpathlib/core.py
index bac14df..c9250fc 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -994,7 +994,7 @@ class LocalPath(EatPath, AugmentedPath):
     def setup(cls, cache_class, remote_class_factory):
         """ call this once to bind everything together """
 
-        cn = self.__class__.__name__
+        cn = cls.__name__
         warnings.warn(f'{cn}.setup is deprecated please switch to RemotePath._new',
                       DeprecationWarning,
                       stacklevel=2)
diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..0d667fa 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -216,7 +216,7 @@ class RemotePath:
     def setup(cls, local_class, cache_class):
         """ call this once to bind everything together """
 
-        cn = self.__class__.__name__
+        cn = cls.__name__
         warnings.warn(f'{cn}.setup is deprecated please switch to RemotePath._new',
                       DeprecationWarning,
                       stacklevel=2)
-- 
2.43.0


From 56cc3473c5f266a19bf083a3728ff8f348093d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 12/85] fix: PackagePath.command uses the rest it computed

---
 augpathlib/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..7271ea0 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -459,7 +459,7 @@ class PackagePath(RepoPath):
 
     def command(self, next_phase='current', rel_comp='release'):
         rest = self.arg_rest
-        rest = ' ' + self.rest if rest else ''
+        rest = ' ' + rest if rest else ''
         nv = self.version_next(next_phase, rel_comp)
         return (
             f'build-release {self.arg_org} {self.arg_repo} {self.arg_folder} '
-- 
2.43.0


From a5a3edc8b6ba500b6f8a4d3f907bc202626c1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 13/85] fix: rmtree calls onerror also when it fails before the
 first entry

---
 augpathlib/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index c9250fc..f5c6e82 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -665,6 +665,7 @@ class AugmentedPath(pathlib.Path):
             elif self == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self  # what onerror is told about
         try:
             if self.is_dir():
                 if self.is_symlink():
-- 
2.43.0


From 57ba9b8c839953d4d8450e844c2ed12e22616702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 14/85] fix: read metadata symlinks written by the first format
 version

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b2ad794..b1ff630 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -450,7 +450,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = 0 if version == 'meta' else int(version[3:])
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From 33ab3feb7f9aae158cb170b7b524d77766831ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 15/85] fix: symlink encoding rejects or escapes every
 separator in every field

---
 augpathlib/meta.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b1ff630..071b40b 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -309,26 +309,24 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
-            return self.subfieldsep.join(value)
+            value = self.subfieldsep.join(value)
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
+        if isinstance(value, str) and (self.pathsep in value or self.fieldsep_esc in value):
+            # decode could not tell these from the escaped form
+            msg = f'Y U DO DIS >:| {field}: {value!r}'
+            raise ValueError(msg)  # FIXME error type
+
         if isinstance(value, str) and '/' in value:
-            if self.pathsep in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-            elif field == 'name':
+            if field == 'name':
                 msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
                 raise ValueError(msg)  # FIXME error type
 
             value = value.replace('/', self.pathsep)
 
         if isinstance(value, str) and self.fieldsep in value:
-            if self.fieldsep_esc in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-
             value = value.replace(self.fieldsep, self.fieldsep_esc)
 
         return _str_encode(field, value)
@@ -338,6 +336,11 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return None
 
         if field == 'errors':
+            if version >= 5:
+                value = (value
+                         .replace(self.pathsep, '/')
+                         .replace(self.fieldsep_esc, self.fieldsep))
+
             return [_ for _ in value.split(self.subfieldsep) if _]
 
         elif field in ('created', 'updated'):
@@ -360,6 +363,11 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
+                if version >= 5:
+                    value = (value
+                             .replace(self.pathsep, '/')
+                             .replace(self.fieldsep_esc, self.fieldsep))
+
                 return value
 
         elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
-- 
2.43.0


From 6e7bd478229d3e38aee63786c777615294238416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 16/85] fix: pass the chunksize when metadata includes an etag

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f5c6e82..3cd5145 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1287,7 +1287,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From 2f502c9f6f6bf89ab2823e532d0300c78efe2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 17/85] fix: meta after meta_no_checksum has a checksum

---
 augpathlib/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 3cd5145..b1e6693 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1243,7 +1243,9 @@ class LocalPath(EatPath, AugmentedPath):
                                                   st.st_mtime)
 
         if hasattr(self, '_meta') and self._meta is not None:
-            if self.__change_tuple == change_tuple:
+            # metadata made without a checksum can't stand in for metadata with one
+            has_checksum = not checksum or self._meta.checksum is not None or not self.is_file()
+            if self.__change_tuple == change_tuple and has_checksum:
                 return self._meta
 
             old_meta = self._meta  # TODO log changes?
-- 
2.43.0


From 318f48298b0dc86b34e5ab1c63668eacbc85e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 18/85] fix: ZipHelper.exists answers for missing files

---
 augpathlib/zip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..1d13bc6 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -121,8 +121,10 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+
+        return self.zip_relative_path.exists()
 
     @property
     def ZipInternalPath(self):
@@ -158,7 +160,7 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if zipfile.is_zipfile(self):
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
-- 
2.43.0


From eec89806824b7a9af77179b4e14ee4220b3b5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 19/85] fix: reading the data of a zip directory raises
 IsADirectoryError

---
 augpathlib/zip.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 1d13bc6..574cc6d 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -101,16 +101,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
-
-                    yield data
-        finally:
-            self.close()
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
 
 ZipInternalPath._bind_flavours()
-- 
2.43.0


From 9c4054d12ba94ca96e00cb8f9c1e816ebb44b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 20/85] fix: init at a new path inside a repository raises
 RepoExistsError

---
 augpathlib/repo.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..c4821d7 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -76,9 +76,7 @@ class RepoHelper:
             repo = None
 
         if repo is not None:
-            if not self.exists():
-                msg = f'how!? {self!r} != {repo.working_dir}'
-                assert repo.working_dir == self.as_posix(), msg
+            if not self.exists() and repo.working_dir == self.as_posix():
                 log.warning(f'stale cache on deleted repo {self!r}')
                 self._repos.pop(self)
             else:
-- 
2.43.0


From 554069168608c1e0e34337fc03b95af2debc55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 21/85] fix: commit never checks out or pops a stash it did not
 make

---
 augpathlib/repo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c4821d7..0f89298 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -304,6 +304,11 @@ class RepoHelper:
         if self.repo.active_branch.is_valid(): # handle the empty repo case
             # HAH take that complexity!
             _mes = self.repo.git.stash('push')
+            if _mes == 'No local changes to save':
+                # nothing was stashed so the top of the stash is not ours
+                return self.repo.index.commit(message=message,
+                                              author_date=date)
+
             try:
                 # FIXME concurrent modification?!
                 try:
-- 
2.43.0


From a9a6627bf0a7b9573b7926a903fe769026e4cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 22/85] fix: restore stashed changes when a ref cannot be
 checked out

---
 augpathlib/repo_patch.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index d17963d..ad1a714 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -68,7 +68,16 @@ class _Reference(git.Reference):
         if self == self.__original_branch:
             return self
 
-        self.checkout()
+        try:
+            self.checkout()
+        except BaseException:
+            # __exit__ will not run so restore the stashed changes here
+            if self.__stash is not None:
+                self.repo.git.stash('pop')
+                self.__stash = None
+
+            raise
+
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-- 
2.43.0


From 00675ab537c8d4f2c6a682191e6f6d1f2d4a2c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 23/85] fix: quote paths in remote shell commands

---
 augpathlib/remotes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 0d667fa..b051426 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -846,7 +847,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
@@ -887,7 +888,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        remote_cmd = (f'{self.cypher_command} {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
@@ -903,7 +904,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {shlex.quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -971,7 +972,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
+            remote_cmd = (f"cd {shlex.quote(self.rpath)};"
                           f"{self._stat_cmd(path='')} {{.,}}*;"
                           "echo '----';"
                           f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-- 
2.43.0


From 590a99ba8611bcdbc9ad55bdc2a04bf454e07a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 24/85] fix: SshRemote.data closes its pipe and reports a
 failed transfer

---
 augpathlib/remotes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index b051426..0827ebb 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -848,15 +848,16 @@ class SshRemote(RemotePath, pathlib.PurePath):
     @property
     def data(self):
         cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
-        p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
-        while True:
-            data = p.stdout.read(4096)  # TODO hinting
-            if not data:
-                break
+        with subprocess.Popen(cmd, stdout=subprocess.PIPE) as p:
+            while True:
+                data = p.stdout.read(4096)  # TODO hinting
+                if not data:
+                    break
 
-            yield data
+                yield data
 
-        p.communicate()
+        if p.returncode:
+            raise OSError(f'{cmd} failed with {p.returncode}')
 
     # reuse meta from local
     # def meta (make it easier to search for this)
-- 
2.43.0


From 37d22c9fb538228a961551bdb4ef68cfd5848826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 25/85] fix: writing empty data gives an empty file

---
 augpathlib/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index b1e6693..d850942 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1357,7 +1357,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1367,7 +1367,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1410,7 +1410,7 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
             f.write(chunk1)
             yield chunk1
-- 
2.43.0


From e79761cf2e98b4dfcd1b18326521e21a25074b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 26/85] fix: directory contexts can be nested and return what
 they should

---
 augpathlib/caches.py |  5 +++--
 augpathlib/core.py   | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index ee35966..d23772a 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,11 +37,12 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
+            cwd = self.local.cwd()  # caches can't exist outside their anchor anymore
             self.chdir()
+            self._entered_from = [*getattr(self, '_entered_from', ()), cwd]
             return self
         else:
-            super().__enter__(self)
+            return super().__enter__()
 
     @classmethod
     def setup(cls, local_class, remote_class_factory):
diff --git a/augpathlib/core.py b/augpathlib/core.py
index d850942..87ffc90 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -734,18 +734,20 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
+            cwd = self.cwd()
             self.chdir()
+            # a stack because the same object can be entered again while inside
+            self._entered_from = [*getattr(self, '_entered_from', ()), cwd]
             return self
         else:
-            super().__enter__()
+            return super().__enter__()
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        if getattr(self, '_entered_from', None):
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
-            super().__exit__(t, v, tb)
+            return super().__exit__(t, v, tb)
 
     @property
     def mimetype(self):
-- 
2.43.0


From bdb321277ed4737cf82556beca77266745c31dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 27/85] fix: swap_carefree puts target back when self cannot be
 moved

---
 augpathlib/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 87ffc90..c141439 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -553,8 +553,16 @@ class AugmentedPath(pathlib.Path):
             # rename target -> temp
             # rename self -> target
             # rename target -> self
-            target.rename(temp)
-            self.rename(target)
+            try:
+                target.rename(temp)
+                try:
+                    self.rename(target)
+                except BaseException:
+                    temp.rename(target)  # put it back
+                    raise
+            except BaseException:
+                temp_dir.rmdir()
+                raise
             temp.rename(self)
             temp_dir.rmdir()
 
-- 
2.43.0


From 93810b9039b002a7ee69c8a8a125c076afd89735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 28/85] fix: move without a remote raises the documented error

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index d23772a..bf13cdc 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -994,7 +994,8 @@ class _CachePath(AugmentedPath):
                     # directory moves that are resolved during pull
                     log.warning(f'what is this!?\n{target}\n{self}')
             elif target.is_broken_symlink():
-                remote._cache = self  # restore the mapping for remote -> self
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
                 raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
             else:
                 raise exc.PathExistsError(f'Target {target} already exists!')
-- 
2.43.0


From 0bd55754f6df0bc2404288a51f7b1341ad8f2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 29/85] fix: fetch a file whose size is exactly the limit

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index bf13cdc..19178ee 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -890,7 +890,7 @@ class _CachePath(AugmentedPath):
             # the file name could be different so we have to return here
             return
 
-        size_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb < size_limit_mb
+        size_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb <= size_limit_mb
         size_not_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb > size_limit_mb
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
-- 
2.43.0


From 981708060af0831e27a2b36d7de1863b6e91a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 30/85] fix: sparse marker files are looked up on the path and
 its parents

---
 augpathlib/caches.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 19178ee..2389faa 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -376,10 +376,13 @@ class _CachePath(AugmentedPath):
                 delattr(self, '_is_sparse_root')
 
     def _sparse_root(self):  # TODO consider SparseHelper
-        return self != self.parent and (self / self._sparse_marker).exists()
+        local = self.local
+        if local != local.parent:
+            return ((local / self._sparse_marker).exists() or
+                    self.parent._sparse_root())
 
     def is_sparse(self):
-        return self._sparse_root() is not None
+        return bool(self._sparse_root())
 
     def _clear_sparse(self):
         mark = self.local / self._sparse_marker
-- 
2.43.0


From 3e8ebdabe2d41ce5f937c94b952242a2e2adf9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 31/85] fix: argument order in ADSHelper._streamname

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index c141439..b75f9fe 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -163,7 +163,7 @@ class ADSHelper(EatHelper):
     def _streamname(self):
         *start, last = self.parts
         if ':' in last:
-            return last.split(1, ':')[-1]
+            return last.split(':', 1)[-1]
 
     @property
     def _streams(self):
-- 
2.43.0


From 72de83af7cbac171e7c6faee6780be53705684a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 32/85] fix: anchorClassHere checks the class it binds

---
 augpathlib/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2389faa..1ca784b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -80,8 +80,9 @@ class _CachePath(AugmentedPath):
         # to construct a live CachePath by sideloading the remote id
         # which is OK for the path where local/remote binding has already
         # been completed
-        if '_anchor' not in self.__class__.__dict__:
-            self.__class__._abstract_class()._anchor = self
+        acls = self.__class__._abstract_class()
+        if '_anchor' not in acls.__dict__:
+            acls._anchor = self
             self.local_data_dir_init()  # call every time for insurance
             self._remote_class.anchorToCache(self, init=remote_init)
 
-- 
2.43.0


From 87176621601bf86a5f9d22920ab7fcdb144bd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 33/85] fix: no library call drops into a debugger

---
 augpathlib/caches.py  | 3 +--
 augpathlib/meta.py    | 4 ----
 augpathlib/package.py | 1 -
 augpathlib/remotes.py | 3 ---
 4 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 1ca784b..872c631 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -794,7 +794,6 @@ class _CachePath(AugmentedPath):
         if root is None:
             raise exc.NotInProjectError(f'{self.parent.local} is not in a project!')
 
-        breakpoint()
         raise NotImplementedError()
         children = list(self.parent.remote.children)  # if this is run from dismatch meta we have issues
         isf = self.is_file()
@@ -854,7 +853,7 @@ class _CachePath(AugmentedPath):
 
     def refresh(self, update_data=False, size_limit_mb=2, force=False):
         if self.meta is None:
-            breakpoint()
+            raise exc.NoCachedMetadataError(self.as_posix())
 
         limit = (size_limit_mb if
                  not self.meta.size or (size_limit_mb > self.meta.size.mb)
diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 071b40b..2e1b0a5 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -390,7 +390,6 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError as e:
-                breakpoint()
                 raise e
 
         return value
@@ -445,7 +444,6 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             l = pathlib.Path(_l).parent
             u = pathlib.Path(_l).parent
             if l.exists() and u.exists():
-                breakpoint()
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
                 raise FileNotFoundError(symlink_path)
@@ -717,7 +715,6 @@ class _PathMetaAsPretty(_PathMetaConverter):
         try:
             table = AsciiTable(rows, title=title).table
         except TypeError as e:
-            breakpoint()
             raise e
 
         return table
@@ -811,7 +808,6 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
         try:
             table = AsciiTable(rows, title=title).table
         except TypeError as e:
-            breakpoint()
             raise e
 
         return table
diff --git a/augpathlib/package.py b/augpathlib/package.py
index 7271ea0..4174f06 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -471,7 +471,6 @@ class PackagePath(RepoPath):
             raise ValueError(f'already released {nv}')
         elif nv == self.version_repo:
             raise ValueError(f'already bumped to {nv} but not released (though maybe not committed?)')
-        breakpoint()
         if pretend:
             print('would bump module', self.module_init_file,
                   'for package name', self.arg_packagename,
diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 0827ebb..1755da5 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -210,8 +210,6 @@ class RemotePath:
         if hasattr(cls, '_cache_anchor'):
             if '_cache_anchor' in cls.__dict__:
                 delattr(cls, '_cache_anchor')
-            else:
-                breakpoint()  # should not happen with these ???
 
     @classmethod
     def setup(cls, local_class, cache_class):
@@ -803,7 +801,6 @@ class SshRemote(RemotePath, pathlib.PurePath):
                         .relative_to(pathlib.PurePath(remote.rpath))
                         .parts)
             except Exception as e:
-                breakpoint()
                 raise e
 
     def refresh(self):
-- 
2.43.0


From 5d464d317b343580d295486294393fe488c1465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 34/85] fix: delxattr of a missing key is silent also where
 that is ENOATTR

---
 augpathlib/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index b75f9fe..c44630a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -287,7 +287,9 @@ class XattrHelper(EatHelper):
         try:
             xattr.remove(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if fail or e.errno != 61:  # 61 -> No data available
+            # ENOATTR is an alias of ENODATA that python only has on macos and bsd
+            missing = errno.ENODATA, getattr(errno, 'ENOATTR', errno.ENODATA)
+            if fail or e.errno not in missing:
                 raise e
 
     def setxattr(self, key, value, namespace=XATTR_DEFAULT_NS):
-- 
2.43.0


From 583a8335b5c185bbcea6b0fde211e83008b6d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 35/85] fix: ADSHelper.xattrs lists only the namespace it was
 asked for

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index c44630a..cef9f6a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -273,7 +273,7 @@ class ADSHelper(EatHelper):
         try:
             # we encode here to match the behavior of the posix version
             return {k[ns_length_p1:].encode():v for k, v in self._xattrs().items()
-                    if k.startswith(namespace)}
+                    if k.startswith(namespace + '.')}
         except FileNotFoundError as e:
             raise FileNotFoundError(self) from e
 
-- 
2.43.0


From 9ee8c9f6035589c9dc29a9010dd941c630aed030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 36/85] fix: metadata of a changed file is not stale after its
 checksum failed

---
 augpathlib/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index cef9f6a..ea65ac1 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1263,8 +1263,6 @@ class LocalPath(EatPath, AugmentedPath):
             old_meta = self._meta  # TODO log changes?
 
 
-        self.__change_tuple = change_tuple  # TODO log or no?
-
         # XXX interpretational note here, nearly all file systems do not have
         # a file birthdate that they track and the remote that we work against
         # treats files as immutable objects, what this means is that posix mtime
@@ -1312,6 +1310,8 @@ class LocalPath(EatPath, AugmentedPath):
                               # man use auth is all bad :/
                               gid=st.st_gid,
                               mode=mode)
+        # only now, if the checksum could not be computed _meta is still the old one
+        self.__change_tuple = change_tuple  # TODO log or no?
 
         return self._meta
 
-- 
2.43.0


From 54bca6532797b42e7c0f97e6956f727f09896aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 37/85] fix: unescape checksum_cypher when reading metadata
 symlinks

---
 augpathlib/meta.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 2e1b0a5..f30b6ce 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -351,9 +351,6 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             #return value.encode()
             return bytes.fromhex(value)
 
-        elif field == 'checksum_cypher':
-            return value
-
         elif field == 'etag':
             checksum, strcount = value.rsplit('-', 1)
             count = int(strcount)
@@ -370,7 +367,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
                 return value
 
-        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
+        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id', 'checksum_cypher'):
             if self.pathsep in value:
                 if field == 'name':
                     if version >= 5:
-- 
2.43.0


From c82b09763212251f82c79cebc76395e0b46f577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 38/85] fix: refuse to encode strings that metadata symlinks
 cannot tell from a missing value

---
 augpathlib/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index f30b6ce..ae5af33 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -314,7 +314,9 @@ class _PathMetaAsSymlink(_PathMetaConverter):
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
-        if isinstance(value, str) and (self.pathsep in value or self.fieldsep_esc in value):
+        if isinstance(value, str) and (value == self.empty or
+                                       self.pathsep in value or
+                                       self.fieldsep_esc in value):
             # decode could not tell these from the escaped form
             msg = f'Y U DO DIS >:| {field}: {value!r}'
             raise ValueError(msg)  # FIXME error type
-- 
2.43.0


From 6661ef64c05a038c05c1d6c0d9f68a7483e8bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 39/85] fix: move checks the id of the target before writing
 metadata to it

---
 augpathlib/caches.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 872c631..8ed4be4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -972,6 +972,21 @@ class _CachePath(AugmentedPath):
 
         do_cast = not isinstance(target, self.__class__)
         if do_cast:
+            if target.exists() or target.is_broken_symlink():
+                # the cast writes meta to the target so look at what is there first
+                try:
+                    existing = self.__class__(target)
+                except exc.NoCachedMetadataError:
+                    existing = None
+
+                if existing is not None and existing.id != self.id:
+                    if existing.is_broken_symlink():
+                        if remote is not None:
+                            remote._cache = self  # restore the mapping for remote -> self
+                        raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
+
+                    raise exc.PathExistsError(f'Target {target} already exists!')
+
             target = self.__class__(target, meta=meta)
 
         if target.exists() or target.is_broken_symlink():
-- 
2.43.0


From fb223c48b1bfe0c3e736d268158019586ef2aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 40/85] fix: smartAnchor checks the root id before it falls
 back to an existing anchor

---
 augpathlib/remotes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 1755da5..445f083 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -149,14 +149,12 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
+            return cls.anchorToCache(path.cache, init=False)  # checks the root id
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+                return cls.anchorToCache(path.cache, init=False)  # checks the root id
             else:
                 raise e
 
-- 
2.43.0


From d81a974764786ccdbddbdc959558c1cda0a2884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 41/85] fix: ssh remotes can anchor again after weighing anchor

---
 augpathlib/remotes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 445f083..aacab45 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -701,7 +701,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         anchor = super().anchorToCache(cache_anchor=cache_anchor, init=init)
         # _cache_anchor has to be bound for _bind_sysid to work
         # that binding happens after init so we do this here
-        cls._bind_sysid()
+        if cls.sysid is None:  # already bound if we weighed anchor and came back
+            cls._bind_sysid()
+
         return anchor
 
     def __init__(self, thing_with_id, *args, cache=None):
-- 
2.43.0


From a4ff8b2357eeb34b13033b87ed2476787bc20735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 42/85] fix: caches do not stay anchored when anchoring the
 remote fails

---
 augpathlib/caches.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 8ed4be4..fbe65a0 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -83,8 +83,12 @@ class _CachePath(AugmentedPath):
         acls = self.__class__._abstract_class()
         if '_anchor' not in acls.__dict__:
             acls._anchor = self
-            self.local_data_dir_init()  # call every time for insurance
-            self._remote_class.anchorToCache(self, init=remote_init)
+            try:
+                self.local_data_dir_init()  # call every time for insurance
+                self._remote_class.anchorToCache(self, init=remote_init)
+            except BaseException as e:
+                acls.weighAnchor()  # do not stay anchored if the remote refuses
+                raise e
 
         else:
             raise ValueError(f'{self.__class__} already anchored to {self.__class__._anchor}')
-- 
2.43.0


From 2c1b7a7a441b6c1a19dac041f7ab12198963044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 43/85] fix: dropAnchor does not take over a file that has the
 name of the root

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index aacab45..9b7125b 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -181,6 +181,9 @@ class RemotePath:
                 else:
                     raise NotImplementedError(f'What\'s a {root}?!')
 
+            elif not path.is_dir():
+                raise NotADirectoryError(f'not a directory {path}')
+
             elif list(path.children):
                 raise exc.DirectoryNotEmptyError(f'has children {path}')
 
-- 
2.43.0


From 26ab4aa8b822e2ee917d4ae391e83560e045119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 44/85] fix: do not send control characters to the interactive
 ssh session

---
 augpathlib/remotes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 9b7125b..b7f3138 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -869,6 +869,12 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #print(remote_cmd)
         if len(remote_cmd) > cls._cols:
             raise exc.CommandTooLongError
+
+        if any(c < ' ' or c == '\x7f' for c in remote_cmd):
+            # the session is interactive so line editing sees these before
+            # the shell does and quotes do not protect anything from it
+            raise ValueError(f'control characters in command {remote_cmd!r}')
+
         n_bytes = cls.session.sendline(remote_cmd)
         cls.session.prompt()
         raw = cls.session.before
-- 
2.43.0


From 16d234ea17726d61c7743a37020f8908c789a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 45/85] fix: the repository of a path with .. is the one it is
 in

---
 augpathlib/repo.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 0f89298..a2de9f0 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -111,6 +111,10 @@ class RepoHelper:
         # https://github.com/git/git/blob/master/setup.c#L903
         # https://github.com/git/git/blob/08da6496b61341ec45eac36afcc8f94242763468/setup.c#L584
         # https://github.com/git/git/blob/bc12974a897308fd3254cf0cc90319078fe45eea/setup.c#L300
+        if '..' in self.parts:
+            # the parent of a path with .. in it is not the folder it is in
+            return self._no_dotdot().working_dir
+
         if (self / '.git').exists():
             if not self.is_absolute():
                 # avoid cases where RepoPath('.') gets put in the repos cache
@@ -127,12 +131,22 @@ class RepoHelper:
             else:
                 return self.parent.working_dir
 
+    def _no_dotdot(self):
+        """ the same location without .. and without following a final symlink """
+        path = self.expanduser().absolute()
+        if path.name == '..':
+            return path.resolve()
+        else:
+            return path.parent.resolve() / path.name
+
     @property
     def repo_relative_path(self):
         """ working directory relative path """
         repo = self.repo
         if repo is not None:
-            if not self.is_absolute():
+            if '..' in self.parts:
+                path = self._no_dotdot()
+            elif not self.is_absolute():
                 path = self.expanduser().absolute()
             else:
                 path = self
-- 
2.43.0


From 2844a065bee3454573b81f398d0a282149832622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 46/85] fix: register a new repository under its working
 directory

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index a2de9f0..9c78799 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -90,7 +90,7 @@ class RepoHelper:
         else:
             repo = self._repo_class.init(self)
 
-        self._repos[self] = repo
+        self._repos[self.__class__(repo.working_dir)] = repo
         return repo
 
     @property
-- 
2.43.0


From 9a8a900814a4333f32584e6ff093abfe19e75736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 47/85] fix: commit includes the path also when it is relative
 to another folder

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 9c78799..a316fc7 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -326,7 +326,7 @@ class RepoHelper:
             try:
                 # FIXME concurrent modification?!
                 try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
+                    self.repo.git.checkout('stash@{0}', '--', self.repo_relative_path.as_posix())  # git runs in the working dir
                 except self._git.exc.GitCommandError:
                     pass
 
-- 
2.43.0


From c2575c659723ba1f905d1d70ff87a1de475dd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 48/85] fix: files that only look like a zip file are not
 treated as one

---
 augpathlib/zip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 574cc6d..75fc491 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -157,11 +157,13 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
+                self._c_zip_path = pzp
                 if zipfile.is_zipfile(self):
                     self._c_zip_path = self
-                    self.ZipInternalPath()
-                else:
-                    self._c_zip_path = pzp
+                    try:
+                        self.ZipInternalPath()
+                    except zipfile.BadZipFile:  # is_zipfile only looks for the magic number
+                        self._c_zip_path = pzp
 
         return self._c_zip_path
 
-- 
2.43.0


From c82154e339244f84f8950c820508aeee1a4764cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 49/85] fix: an empty zip file exists

---
 augpathlib/zip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 75fc491..f8d5eec 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -23,6 +23,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         zipath._bind_flavours()
         paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
         parents = set(parent for path in paths for parent in path.parents)
+        parents.add(zipath('.'))  # the archive itself exists also when it is empty
         zipath._paths = {p:p for p in parents | paths}
         return zipath
 
-- 
2.43.0


From b90e3fb756a3bec84d236acb25149dda09b219f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 50/85] fix: members that are not in the zip file are missing
 and no directories

---
 augpathlib/zip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index f8d5eec..d28bf28 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -74,7 +74,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -84,7 +84,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(self)
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
-- 
2.43.0


From 4ad6d312a7764474114e318112332c3618b779bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 51/85] fix: commit to an empty repository only handles the
 missing tree

---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index a316fc7..ad758bd 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -341,12 +341,13 @@ class RepoHelper:
         else:
             try:
                 self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
+            except ValueError:  # there is no commit to get a tree from
                 commit = self.repo.index.commit(message=message,
                                                 author_date=date)
                 return commit
 
+            raise ValueError('we are not in the situation we though we were in')
+
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
             git add -- {self}
-- 
2.43.0


From 6bea4f964f35ba78a9b0cbbc9e2674a8cca60dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 52/85] fix: stat results of files with consecutive spaces in
 their name

---
 augpathlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..35132df 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -169,7 +169,7 @@ class StatResult:
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # the name may contain spaces
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
-- 
2.43.0


From d0a4747a32c63ccc8000a8a9a13bb3707ca6bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 53/85] fix: etag of data that continues after an early digest

---
 augpathlib/utils.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 35132df..c3f7ca3 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -205,27 +205,17 @@ class etag:
         self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
         remainder, self._remainder = self._remainder, b''
         bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
             chunk = self._remainder
-            self._remainder = bio.read(chunksize)
+            self._remainder = bio.read(self.chunksize)
             if not self._remainder:
                 # the second time around at the end this will break the loop if the chunk
                 # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
+                if len(chunk) < self.chunksize:
                     self._remainder = chunk
                     return
 
@@ -233,23 +223,20 @@ class etag:
                 self._m.update(chunk)  # empty remainder doesn't advance the function
                 digest = self._m.digest()
                 self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+                self._parts.append(digest)
 
     def digest(self):
+        parts = list(self._parts)
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            # in case someone calls an early digest the remainder
+            # has to stay available for the rest of its chunk
+            last = self.cypher()
+            last.update(self._remainder)
+            parts.append(last.digest())
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 17b34481e375fde64e9d85c5f452260931d91963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 54/85] fix: rchildren of a ZipPath that is not in a zip file

---
 augpathlib/zip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index d28bf28..1fa65c2 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -176,8 +176,10 @@ class ZipHelper:
         if self.zip_path is not None:
             for child in self.zip_relative_path.rchildren:
                 yield self.zip_path / child
-        else:
+        elif hasattr(super(), 'rchildren'):
             yield from super().rchildren
+        else:
+            yield from self.rglob('*')
 
     def open(self, *args, **kwargs):
         if self.zip_path is not None:
-- 
2.43.0


From a133acb0f6f1bdfa56711e58b18ff2431180c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 55/85] fix: streams that fail to be read or written stayed
 open

---
 augpathlib/pyads.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/augpathlib/pyads.py b/augpathlib/pyads.py
index f9d4968..6b8b8a3 100644
--- a/augpathlib/pyads.py
+++ b/augpathlib/pyads.py
@@ -108,9 +108,8 @@ class ADS():
             print("Stream name already exists")
             return False
         else:
-            fd = open(fullname, "wb")
-            fd.write(string)
-            fd.close()
+            with open(fullname, "wb") as fd:
+                fd.write(string)
             self.streams.append(stream_name)
             return True
 
@@ -123,7 +122,5 @@ class ADS():
             return False
 
     def get_stream_content(self, stream):
-        fd = open(self.full_filename(stream), "rb")
-        content = fd.read()
-        fd.close()
-        return content
+        with open(self.full_filename(stream), "rb") as fd:
+            return fd.read()
-- 
2.43.0


From 2f83f485c92ff215e9fcd6f7c6a1e729852c3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 56/85] fix: bootstrap went on forever when there was a folder
 the remote does not know

---
 augpathlib/caches.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index fbe65a0..b7bb4ee 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -494,10 +494,11 @@ class _CachePath(AugmentedPath):
                 for d in thisl:
                     ad = self.anchor.local / d
                     if ad.cache is None:
+                        # the remote never knew about it so leave it be
                         log.critical(f'would you fix the nullability already? {d}')
-                        continue
-                    new = ad.cache.refresh()
-                    #log.info(f'{new}')
+                    else:
+                        new = ad.cache.refresh()
+                        #log.info(f'{new}')
                     local_dirs = set(ld for ld in local_dirs
                                      if not ld.as_posix().startswith(d.as_posix()))
                     old_local = local_dirs - rd
-- 
2.43.0


From c713001ec66dc1649218b67f5e26c5c65e816914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 57/85] fix: show dropped the last newline of the file

---
 augpathlib/repo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index ad758bd..67fdbe5 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,3 +1,4 @@
+import io
 import pathlib
 from urllib.parse import urlparse
 from augpathlib import AugmentedPath
@@ -365,8 +366,11 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            # the output as a string is missing the final newline
+            out = io.BytesIO()
+            self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+                               output_stream=out)
+            return out.getvalue()
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From 0079e815c5987aaf1659013f602eae8b4f108325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 58/85] fix: commits of a symlink were those of its target

---
 augpathlib/repo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 67fdbe5..3508ec1 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -216,7 +216,7 @@ class RepoHelper:
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=self._no_dotdot().as_posix(),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -224,7 +224,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=self._no_dotdot().as_posix(),
             # TODO --follow
             max_count=max_count)
 
-- 
2.43.0


From 7ad15c147af1cc263f5205bc94054ca69e4c04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 59/85] fix: names of repositories with dots in them were cut
 short

---
 augpathlib/repo.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 3508ec1..0817adf 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -35,8 +35,14 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
-        return self / name
+        name = pathlib.PurePath(remote).name
+        return self / self._without_git(name)
+
+    @staticmethod
+    def _without_git(path):
+        """ only .git is not part of the name, names can have dots in them """
+        path = path.rstrip('/')
+        return path[:-len('.git')] if path.endswith('.git') else path
 
     def clone_from(self, remote, *, depth=None):
         """ clone_from uses the path of the current object as the
@@ -189,9 +195,9 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(self._without_git(path)) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(self._without_git(path)) / ref / self.repo_relative_path
             return prefix + rpath.as_posix()
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
@@ -203,7 +209,7 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
+        p = pathlib.PurePosixPath(self._without_git(path))
         return f'https://api.github.com/repos{p}' + endpoint
 
     def remote_uri_human(self, ref=None):
-- 
2.43.0


From b042d7b761db14f276457e907c5ed7bd03951e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 60/85] fix: uris of repositories with an ssh:// remote

---
 augpathlib/repo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 0817adf..fde5bfc 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -167,16 +167,19 @@ class RepoHelper:
         remote = repo.remote()
         rnprefix = remote.name + '/'
         url_base = next(remote.urls)
-        if url_base.startswith('git@'):
+        scp_like = url_base.startswith('git@')
+        if scp_like:
             url_base = 'ssh://' + url_base
 
         pu = urlparse(url_base)
         netloc = pu.netloc
         path = pu.path
         if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
+            if scp_like:  # otherwise the group is already in the path
+                _, group = netloc.split(':')
+                path = '/' + group + path
+
             netloc = 'github.com'
-            path = '/' + group + path
 
         return repo, rnprefix, url_base, netloc, path
 
-- 
2.43.0


From 4a9e9241fea2feac7f2ed0e0bec59b0f6e073b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 61/85] fix: releases of packages whose names start with the
 name of this one

---
 augpathlib/package.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 4174f06..8f07778 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -275,7 +275,10 @@ class PackagePath(RepoPath):
         gj = self.github_json
         if gj:
             if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
+                # names can be part of other names and start other names
+                prefix = self.arg_packagename + '-'
+                these = [r for r in gj if r['tag_name'].startswith(prefix) and
+                         r['tag_name'][len(prefix):][:1] in tuple('0123456789')]
             else:
                 these = [r for r in gj if r['tag_name'][0] in '0123456789']
 
@@ -314,7 +317,7 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            match_version = self.arg_packagename + '-[0-9]*'
         else:
             match_version = '[0-9]*'
 
-- 
2.43.0


From fbfe6fa91b46f848e90f66e8b2ece1706d9d2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 62/85] fix: no commits since last release when there never was
 one

---
 augpathlib/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 8f07778..f2aa5b8 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -389,7 +389,7 @@ class PackagePath(RepoPath):
         _tag = self.tag
         tag = _tag if _tag else ''
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                f'{tag}..HEAD' if tag else 'HEAD',
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 24b84b7dbc9ce38a7811e413bc3fc9f2caefb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 63/85] fix: current ref name of a commit before a tag was not
 a ref

---
 augpathlib/repo_patch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index ad1a714..e5f6857 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -19,16 +19,19 @@ class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
             hexsha, *ref_name = self.head.commit.name_rev.split()
             if ref_name:
                 ref_name = ref_name[0]
+                if ref_name.endswith('^0'):  # annotated tags
+                    ref_name = ref_name[:-len('^0')]
+
                 if '/' in ref_name:
                     tags, tag_name = ref_name.split('/', 1)
-                    if tags == 'tags':
-                        return tag_name
-                    elif '~' in tag_name:
+                    if '~' in tag_name or '^' in tag_name:
                         # these refs are unstable because they count
                         # backward from the first named ref that
                         # occures after them in the tree, better to
                         # use the hexsha in those cases
                         return None
+                    elif tags == 'tags':
+                        return tag_name
                     else:
                         return ref_name
                 else:
-- 
2.43.0


From 39c85607ca1b2a8ad3da364b0bdc23694b6434c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 64/85] fix: encoding of relative paths that are not fetched

---
 augpathlib/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ea65ac1..4463478 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -782,7 +782,10 @@ class AugmentedPath(pathlib.Path):
     @property
     def encoding(self):
         if not self.is_absolute():  # needed for safe as_uri
-            self = self.resolve()
+            if self.is_broken_symlink():
+                self = self.absolute()
+            else:
+                self = self.resolve()
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if encoding:
-- 
2.43.0


From b78a1b489b00a68dd0c15fa7cac755e7554b6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 65/85] fix: empty files on ssh remotes were not files

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index b7f3138..27101be 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -968,7 +968,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
-- 
2.43.0


From 6b51a7fe14cd9d48037953edb78771e3669edfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 66/85] fix: access of ssh remotes used permissions of classes
 the user is not in

---
 augpathlib/remotes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 27101be..ee51a93 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -825,9 +825,13 @@ class SshRemote(RemotePath, pathlib.PurePath):
         current = read + write + execute
 
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        # only the first class that applies counts
+        if st.st_uid == self._uid:
+            return bool(u & current)
+        elif st.st_gid in self._gids:
+            return bool(g & current)
+        else:
+            return bool(e & current)
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
-- 
2.43.0


From edc477ce64363b57ba494c83955fb691374a9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 67/85] fix: indexed always failed because an IndexFile is not
 something to diff against

---
 augpathlib/repo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index fde5bfc..078faf8 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -259,7 +259,11 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        kwargs = dict(paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        if not isinstance(other, self._git.IndexFile):
+            kwargs['other'] = other  # the default is the index, an IndexFile cannot be given
+
+        list_ = this.diff(**kwargs)
         if list_:
             return list_[0]
 
-- 
2.43.0


From 3434992fe18a9681b8fc3cf39cf25f95822a4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 68/85] fix: parts of remotes that have a cache started with
 the name of the anchor

---
 augpathlib/remotes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index ee51a93..d256358 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -474,8 +474,7 @@ class RemotePath:
                     for c_parent in cache_parent.parents:
                         if c_parent is None:
                             continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                        elif c_parent.id == remote.id:  # names are not unique
                             break
                         else:
                             parent_names.append(c_parent.name)
-- 
2.43.0


From 8b258ec8d38fdc28c29b2b8b76fb863e084acabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 69/85] fix: the root of a cache is found from relative paths
 as well

---
 augpathlib/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 4463478..20a49e6 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1150,7 +1150,8 @@ class LocalPath(EatPath, AugmentedPath):
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        # relative paths have too few parents to reach the root
+        for variant in (self.absolute(), self.resolve()):
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
@@ -1180,7 +1181,7 @@ class LocalPath(EatPath, AugmentedPath):
             else:
                 # FIXME is it safe to cache the results of finding the root??
                 root = self.find_cache_root(fail=True)
-                rel_path = self.relative_to(root)
+                rel_path = self.absolute().relative_to(root)
             return (rel_path.parts[0] in self._cache_class.cache_ignore or
                     # TODO more conditions
                     False)
-- 
2.43.0


From 0de6a593f3d1b750161baee611f16120afacd0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 70/85] fix: remotes can be members of sets

---
 augpathlib/remotes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index d256358..69d395c 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -567,6 +567,10 @@ class RemotePath:
     def __ne__(self, other):
         return not self == other
 
+    def __hash__(self):
+        # defining __eq__ alone makes instances unhashable
+        return hash(self.id)
+
     def __repr__(self):
         return f'{self.__class__.__name__}({self.id!r})'
 
-- 
2.43.0


From d2bcb32f4067070da0710e935919090fe9a1876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 71/85] fix: only the path itself is meant by its name in git

---
 augpathlib/package.py |  2 +-
 augpathlib/repo.py    | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index f2aa5b8..6bc7268 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -390,7 +390,7 @@ class PackagePath(RepoPath):
         tag = _tag if _tag else ''
         log = self.repo.git.log("--format='%aI %an %h %s'",
                                 f'{tag}..HEAD' if tag else 'HEAD',
-                                '--', *rfs)
+                                '--', *[self._pathspec(f) for f in rfs])
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
 
diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 078faf8..e802970 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -146,6 +146,12 @@ class RepoHelper:
         else:
             return path.parent.resolve() / path.name
 
+    @staticmethod
+    def _pathspec(path):
+        """ a git pathspec that matches only path itself since
+            git treats e.g. * [ and a leading : as magic """
+        return ':(literal)' + path.as_posix()
+
     @property
     def repo_relative_path(self):
         """ working directory relative path """
@@ -225,7 +231,7 @@ class RepoHelper:
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self._no_dotdot().as_posix(),
+                                               paths=self._pathspec(self._no_dotdot()),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -233,7 +239,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self._no_dotdot().as_posix(),
+            paths=self._pathspec(self._no_dotdot()),
             # TODO --follow
             max_count=max_count)
 
@@ -259,7 +265,7 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        kwargs = dict(paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        kwargs = dict(paths=self._pathspec(self.repo_relative_path), create_patch=create_patch)
         if not isinstance(other, self._git.IndexFile):
             kwargs['other'] = other  # the default is the index, an IndexFile cannot be given
 
@@ -340,7 +346,7 @@ class RepoHelper:
             try:
                 # FIXME concurrent modification?!
                 try:
-                    self.repo.git.checkout('stash@{0}', '--', self.repo_relative_path.as_posix())  # git runs in the working dir
+                    self.repo.git.checkout('stash@{0}', '--', self._pathspec(self.repo_relative_path))  # git runs in the working dir
                 except self._git.exc.GitCommandError:
                     pass
 
-- 
2.43.0


From cc59b5a8ce39ca63cc072d0d133ba42d370d1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 72/85] fix: names that begin with a dash are not options of
 other programs

---
 augpathlib/core.py    | 6 +++---
 augpathlib/remotes.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 20a49e6..ac67a55 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1211,7 +1211,7 @@ class LocalPath(EatPath, AugmentedPath):
         """ sometimes python just doesn't have what it takes """
         # we can't define this or use error trapping in self.stat() directly
         # because it will bolox other things that need stat to fail correctly
-        cmd = ['stat', self.as_posix(), '-c', StatResult.stat_format]
+        cmd = ['stat', '-c', StatResult.stat_format, '--', self.as_posix()]
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
         out, errs = p.communicate()
         # local results retain the quotes where pexpect does not
@@ -1573,7 +1573,7 @@ class XopenWindowsHelper(XopenHelper):
         if command is None or not isinstance(command, str):
             command = self._command
 
-        process = subprocess.Popen([command, self],
+        process = subprocess.Popen([command, self.absolute()],  # never an option
                                    stdout=subprocess.DEVNULL,
                                    stderr=subprocess.STDOUT)
 
@@ -1586,7 +1586,7 @@ class XopenPosixHelper(XopenHelper):
         if command is None or not isinstance(command, str):
             command = self._command
 
-        process = subprocess.Popen([command, self.as_posix()],
+        process = subprocess.Popen([command, self.absolute().as_posix()],  # never an option
                                    stdout=subprocess.DEVNULL,
                                    stderr=subprocess.STDOUT)
 
diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 69d395c..5a69422 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -987,9 +987,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if self.is_dir():
             # no children if it is a file sadly
             remote_cmd = (f"cd {shlex.quote(self.rpath)};"
-                          f"{self._stat_cmd(path='')} {{.,}}*;"
+                          f"{self._stat_cmd(path='')} -- {{.,}}*;"
                           "echo '----';"
-                          f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
+                          f"{self.cypher_command} -- {{.,}}*;"  # FIXME fails on directories destroying alignment
                           'cd "${OLDPWD}"')
 
             out = self._ssh(remote_cmd)
-- 
2.43.0


From 0e9df978cea671f0ee991344b1ac99b408c32734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 73/85] fix: only ignored names are left out at the anchor, not
 everything that begins like one

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ac67a55..0cbff3e 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1470,7 +1470,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
-- 
2.43.0


From fc55520f0c62c3b861f287db4065b781c2c9c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 74/85] fix: a link with another name is only missing on a case
 insensitive file system

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index ae5af33..d9fb272 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -441,7 +441,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
         if match_name and symlink_path.name != local_name:
             _l = symlink_path.as_posix().lower()
             l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
+            u = pathlib.Path(_l.upper()).parent
             if l.exists() and u.exists():
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
-- 
2.43.0


From ee7ef7f0a3cd5630355344878d13d9d8e9934b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:04 +0000
Subject: [PATCH 75/85] fix: a checksum uses the cypher asked for even when it
 is the default one

---
 augpathlib/core.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 0cbff3e..d466ed8 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -810,22 +810,22 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
-            elif ((hasattr(self, '_cache_class') and
-                 hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
-                cypher = self._cache_class.cypher
-
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
-                cypher = self.cypher
+            if cypher is None:
+                cypher = default_cypher
+                if (hasattr(self, '_cache_class') and
+                    hasattr(self._cache_class, 'cypher') and
+                    self._cache_class.cypher != cypher):  # FIXME this could be static ...
+                    cypher = self._cache_class.cypher
+
+                elif (hasattr(self, 'cypher') and
+                      self.cypher != cypher):
+                    cypher = self.cypher
 
             m = cypher()
             extra = [c() for c in extra_cyphers]
-- 
2.43.0


From 03587d25b35a1acc03621af5f833bd0a034fe776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 76/85] fix: stored metadata without an etag is not an answer
 when one is asked for

---
 augpathlib/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d466ed8..1bc186b 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1261,7 +1261,9 @@ class LocalPath(EatPath, AugmentedPath):
         if hasattr(self, '_meta') and self._meta is not None:
             # metadata made without a checksum can't stand in for metadata with one
             has_checksum = not checksum or self._meta.checksum is not None or not self.is_file()
-            if self.__change_tuple == change_tuple and has_checksum:
+            # nor metadata made without an etag, or with that of other chunks
+            has_etag = not chunksize or self._meta.chunksize == chunksize or not self.is_file()
+            if self.__change_tuple == change_tuple and has_checksum and has_etag:
                 return self._meta
 
             old_meta = self._meta  # TODO log changes?
-- 
2.43.0


From 310daab9603365f8c10e7497d2bed2055252bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 77/85] fix: a folder that is not in the list of sparse ones
 was bootstrapped sparsely when the list is not empty

---
 augpathlib/caches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b7bb4ee..2fbe827 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -440,6 +440,7 @@ class _CachePath(AugmentedPath):
                     sparse = True
                 else:
                     # if you pass the only mask so do your children
+                    sparse = False  # sparse lists ids and this is not one of them
                     log.info(f'Bootstrapping {meta.id} -> {self.local!r}')
 
                 only = tuple()
-- 
2.43.0


From 512bbaa55088310d88da7c9e5da6f26493e2bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 78/85] fix: the answer to a command nearly as long as the
 terminal is wide was part of the echo of the command

---
 augpathlib/remotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 5a69422..6d5642f 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -690,7 +690,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
             session.login(host, ssh_config=LocalPath('~/.ssh/config').expanduser().as_posix())
             cls._rows = 200
             cls._cols = 200
-            session.setwinsize(cls._rows, cls._cols)  # prevent linewraps of long commands
+            # prevent linewraps of long commands, the prompt is on the same line
+            session.setwinsize(cls._rows, cls._cols + len(session.PROMPT))
             session.prompt()
             atexit.register(lambda:(session.sendeof(), session.close()))
             cls.host = host
-- 
2.43.0


From 6c48cad5b7bbddf0fc8f8ae8fac94329fea664c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 79/85] fix: a command was measured in characters when some of
 them are wider than one column

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 6d5642f..0d64055 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -875,7 +875,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     @classmethod
     def _ssh(cls, remote_cmd):
         #print(remote_cmd)
-        if len(remote_cmd) > cls._cols:
+        if len(remote_cmd.encode()) > cls._cols:
             raise exc.CommandTooLongError
 
         if any(c < ' ' or c == '\x7f' for c in remote_cmd):
-- 
2.43.0


From f433337f95b4f28cc9d6b972caf0c45eba50c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 80/85] fix: a remote whose login failed was bound and could
 not be tried again

---
 augpathlib/remotes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 0d64055..f66769f 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -675,16 +675,14 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if not hasattr(cls, '_anchor'):
             host, path = host_path.split(':', 1)
 
-            cls.root = host_path
-
             if need_flavour and not hasattr(cls, '_flavour'):
                 cls = cls.__windowspath if os.name == 'nt' else cls.__posixpath
 
             if sys.version_info >= (3, 12):  # FIXME HACK
-                cls._anchor = pathlib.PurePath.__new__(cls, path)
-                pathlib.PurePath.__init__(cls._anchor, path)
+                anchor = pathlib.PurePath.__new__(cls, path)
+                pathlib.PurePath.__init__(anchor, path)
             else:
-                cls._anchor = pathlib.PurePath.__new__(cls, path)
+                anchor = pathlib.PurePath.__new__(cls, path)
 
             session = pxssh.pxssh(options=dict(IdentityAgent=os.environ.get('SSH_AUTH_SOCK')))
             session.login(host, ssh_config=LocalPath('~/.ssh/config').expanduser().as_posix())
@@ -700,6 +698,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
             cls._uid, *cls._gids = [int(i) for i in
                                     cls._ssh('echo $(id -u) $(id -G)')
                                     .decode().split(' ')]
+            # last, so that it can be tried again if there is no session
+            cls.root = host_path
+            cls._anchor = anchor
         else:
             raise ValueError(f'{cls} already bound an remote to {cls._anchor}')
 
-- 
2.43.0


From 2faf393447d800a89f7a5dc0900719d7c6b43f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 81/85] fix: a remote whose api has no root to give was bound
 and could not be tried again

---
 augpathlib/remotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index f66769f..c5b3c83 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -69,8 +69,9 @@ class RemotePath:
     def init(cls, identifier):
         """ initialize the api from an identifier and bind the root """
         if not hasattr(cls, '_api'):
-            cls._api = cls._api_class(identifier)
-            cls.root = cls._api.root
+            api = cls._api_class(identifier)
+            cls.root = api.root
+            cls._api = api
 
         else:
             raise ValueError(f'{cls} already bound an api to {cls._api}')
-- 
2.43.0


From d79fc73503626809f59bf67ade2201a60429e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 82/85] fix: a remote file with a backslash in its name had no
 checksum

---
 augpathlib/remotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index c5b3c83..6426b92 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -905,7 +905,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {shlex.quote(self.rpath)} | '
+        # from stdin since lines for names with special characters start with \\
+        remote_cmd = (f'{self.cypher_command} < {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
-- 
2.43.0


From c9de95cb7ce9c83776273496c5ee7800d2caedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 83/85] fix: the checksum of a remote file ignored the cypher
 that was asked for

---
 augpathlib/remotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 6426b92..352793c 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -904,9 +904,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         # whatever cypher we want, unlike in other cases
         return cypher_command_lookup[self._cache_class.cypher]
 
-    def checksum(self, cypher=None):  # FIXME cypher should not be ignored
+    def checksum(self, cypher=None):
+        command = self.cypher_command if cypher is None else cypher_command_lookup[cypher]
         # from stdin since lines for names with special characters start with \\
-        remote_cmd = (f'{self.cypher_command} < {shlex.quote(self.rpath)} | '
+        remote_cmd = (f'{command} < {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
-- 
2.43.0


From 1508298d0a99a112c61c5459eea8a760a2d27de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 84/85] fix: times before 1970 with a fraction were read from
 stat records as earlier than they are

---
 augpathlib/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index c3f7ca3..8d4b54f 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -179,21 +179,22 @@ class StatResult:
         def ns(hr):
             date, time, zone = hr.split(' ')
             time, ns = time.split('.')
-            return '.' + ns
+            return float('.' + ns)
 
         self.st_ino = int(ino)
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        # the fraction always counts up, also before 1970
+        self.st_atime = int(access) + ns(ha)
+        self.st_mtime = int(modified) + ns(hm)
+        self.st_ctime = int(changed) + ns(hc)
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
 
         if hb != '-' and birth != '0':
-            self.st_birthtime = float(birth + ns(hb))
+            self.st_birthtime = int(birth) + ns(hb)
 
 
 class etag:
-- 
2.43.0


From a4cf5e66a276efb5e0cc5cc64a0e23baec881601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 85/85] fix: metadata objects can be pickled and copied again

---
 augpathlib/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index d9fb272..dd32a72 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -5,6 +5,7 @@ import pickle
 import struct
 import pathlib
 from datetime import datetime
+from functools import partial
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
 from augpathlib import exceptions as exc
@@ -148,7 +149,9 @@ class PathMeta:
         yield from (k for k in self.__dict__ if not k.startswith('_'))
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        # the arguments of a callable that is reduced to are positional
+        fields = {k:v for k, v in self.items() if v is not None}
+        return partial(self.__class__, **fields), tuple()
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0

