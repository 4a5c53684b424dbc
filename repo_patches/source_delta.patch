From 7664b36e0e4f08e7688b7b95539357282151133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 01/25] fix: make lock_calls use the lock the library creates

CFunction looked for an attribute named lock, which resolved to a header
lookup and made every call on a library opened with lock_calls=True fail
with NameError.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..8cbb90b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From 482417b94a69e0e9dcb81e06d301e20fff2c83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 02/25] fix: do not alter the parsed definitions when building
 array types

Merging consecutive array declarators extended the list stored in the
parser definitions in place, so that evaluating a multi-dimensional array
a second time (another library using the same parser, a function argument,
a cache written later) gave a type with extra dimensions.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..3404bb8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,7 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From 573a04ff144b5e0a2b237034c23a3ed58792c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 03/25] fix: allow looking up an object by short name after its
 full name

lib(kind, name) raised NameError for a name without prefix when the
prefixed name had been looked up before.
---
 pyclibrary/c_library.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 8cbb90b..e321b27 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -264,16 +264,15 @@ class CLibrary(object, metaclass=CLibraryMeta):
         names = self._all_names_(name)
         objs = self._objs_[typ]
 
-        for n in names:
-            if n in objs:
-                return self.objs[n]
-
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
                 typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
             ):
                 continue
 
+            if n in objs:
+                return objs[n]
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From ae11b2bfb97db992d15e129c6d47ae2733352027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 04/25] fix: never expose incomplete structs and unions

A struct is registered before its fields are set, so a second thread could
get a class without fields, and a struct with an unknown member type raised
an error the first time but gave an empty class the second time. Build
objects under a lock and unregister what a failed construction left behind.
---
 pyclibrary/backends/ctypes.py | 13 +++++++++++++
 pyclibrary/c_library.py       |  7 ++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3404bb8..c1e6cfa 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -292,6 +292,19 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name):
+        # A struct has to be registered before its fields are known (to allow
+        # recursive definitions). Make sure that other threads never see it in
+        # that state and that it does not stay registered if something fails.
+        with self._build_lock_:
+            known = set(self._structs_)
+            try:
+                return self._build_struct(str_type, str_name)
+            except BaseException:
+                for n in set(self._structs_) - known:
+                    del self._structs_[n]
+                raise
+
+    def _build_struct(self, str_type, str_name):
         if str_name not in self._structs_:
             str_name = self._resolve_struct_alias(str_type, str_name)
 
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index e321b27..f79b445 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -199,6 +199,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
         if lock_calls:
             self._lock_ = RLock()
 
+        # Protects the lazy construction of the library objects.
+        self._build_lock_ = RLock()
+
         self._objs_ = {}
         for k in ["values", "functions", "types", "structs", "unions", "enums"]:
             self._objs_[k] = {}
@@ -212,7 +215,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
             raise KeyError("Type must be one of {}".format(typs))
 
         if name not in self._objs_[typ]:
-            self._objs_[typ][name] = self._make_obj_(typ, name)
+            with self._build_lock_:
+                if name not in self._objs_[typ]:
+                    self._objs_[typ][name] = self._make_obj_(typ, name)
 
         return self._objs_[typ][name]
 
-- 
2.43.0


From 8c0bbca1810e49358dbc568e73cb3e1a2dc714fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 05/25] fix: open a library only once when several threads ask
 for it

The registry was checked and filled without a lock: two threads could each
create an object for the same library, and a thread could get a KeyError
when another one dropped the last reference between check and access.
---
 pyclibrary/c_library.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index f79b445..74b3951 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -36,6 +36,7 @@ class CLibraryMeta(type):
 
     backends: dict[str, type["CLibrary"]] = {}
     libs: WeakValueDictionary[str, "CLibrary"] = WeakValueDictionary()
+    libs_lock = RLock()
 
     def __new__(meta, name, bases, dct):
         if name == "CLibrary":
@@ -76,12 +77,11 @@ class CLibraryMeta(type):
             lib_path = get_library_path(lib, backend)
 
         # Check whether or not this library has already been opened.
-        if lib_path in cls.libs:
-            return cls.libs[lib_path]
-
-        else:
-            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
-            cls.libs[lib_path] = obj
+        with cls.libs_lock:
+            obj = cls.libs.get(lib_path)
+            if obj is None:
+                obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
+                cls.libs[lib_path] = obj
             return obj
 
 
-- 
2.43.0


From af10777794c6cdfd784972af9984f87224353fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 06/25] fix: recognise an opened library whatever path it was
 opened with

Only explicit paths were resolved, so the same file reached through a
search location or a backend object loaded through a symbolic link or a
relative path gave a second library object.
---
 pyclibrary/c_library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 74b3951..cc8f8d1 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -76,6 +76,9 @@ class CLibraryMeta(type):
             backend_cls = cls.backends[backend]
             lib_path = get_library_path(lib, backend)
 
+        # All the ways to refer to a file must lead to the same library.
+        lib_path = os.path.realpath(lib_path)
+
         # Check whether or not this library has already been opened.
         with cls.libs_lock:
             obj = cls.libs.get(lib_path)
-- 
2.43.0


From bb5a61bd7f1bc84536ef656747790b79653df043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 07/25] fix: do not fail when parsers are first built in
 several threads

The automatic initialisation was check-then-act: a second thread building
its first parser got 'Can only initialise the parser once', and concurrent
calls to init could both run.
---
 pyclibrary/c_parser.py |  8 ++++----
 pyclibrary/init.py     | 29 +++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..055448b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -368,9 +368,9 @@ def win_defs(version="1500"):
     ]
     if not CParser._init:
         logger.info("Automatic initialisation : OS is assumed to be win32")
-        from .init import auto_init
+        from .init import ensure_init
 
-        auto_init()
+        ensure_init()
     d = os.path.dirname(__file__)
     p = CParser(
         header_files,
@@ -479,9 +479,9 @@ class CParser(object):
     ):
         if not self._init:
             logger.info("Automatic initialisation based on OS detection")
-            from .init import auto_init
+            from .init import ensure_init
 
-            auto_init()
+            ensure_init()
 
         # Holds all definitions
         self.defs = {}
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..eee9cd9 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -13,12 +13,17 @@ are used to declare additional types and modifiers for the parser.
 """
 
 import sys
+from threading import RLock
 
 from .backends import init_libraries
 from .c_library import CLibrary
 from .c_parser import CParser, _init_cparser
 
 
+#: Ensures that the initialisation runs only once.
+_init_lock = RLock()
+
+
 def init(extra_types=None, extra_modifiers=None):
     """Init CParser and CLibrary classes.
 
@@ -30,17 +35,25 @@ def init(extra_types=None, extra_modifiers=None):
         List of modifiers, such as '__stdcall'.
 
     """
-    if CParser._init or CLibrary._init:
-        raise RuntimeError("Can only initialise the parser once")
+    with _init_lock:
+        if CParser._init or CLibrary._init:
+            raise RuntimeError("Can only initialise the parser once")
 
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+        extra_types = extra_types if extra_types else {}
+        extra_modifiers = extra_modifiers if extra_modifiers else []
+
+        _init_cparser(extra_types.keys(), extra_modifiers)
+        init_libraries(extra_types)
+
+        CParser._init = True
+        CLibrary._init = True
 
-    _init_cparser(extra_types.keys(), extra_modifiers)
-    init_libraries(extra_types)
 
-    CParser._init = True
-    CLibrary._init = True
+def ensure_init():
+    """Init CParser and CLibrary based on the OS if it was not done already."""
+    with _init_lock:
+        if not CParser._init:
+            auto_init()
 
 
 WIN_TYPES = {"__int64": None}
-- 
2.43.0


From 88b8a4802f195e6a49647e94eda39f14ad447ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 08/25] fix: do not modify the directory lists passed to the
 find functions

The registered locations were appended to the list of the caller, so that
reusing it searched outdated locations before newer ones.
---
 pyclibrary/utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..dbe5eb9 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -67,10 +67,7 @@ def find_header(h_name, dirs=None):
     OSError : if no matching file can be found.
 
     """
-    if dirs:
-        dirs += HEADER_DIRS[::-1]
-    else:
-        dirs = HEADER_DIRS[::-1]
+    dirs = list(dirs or []) + HEADER_DIRS[::-1]
 
     if sys.platform == "win32":
         pass
@@ -134,10 +131,7 @@ def find_library(name, dirs=None):
     OSError : if no matching file can be found.
 
     """
-    if dirs:
-        dirs += LIBRARY_DIRS[::-1]
-    else:
-        dirs = LIBRARY_DIRS[::-1]
+    dirs = list(dirs or []) + LIBRARY_DIRS[::-1]
 
     for d in dirs:
         path = os.path.join(d, name)
-- 
2.43.0


From 4e93423b3ed1cc97eea4ea817c864d0c809b6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 09/25] fix: use the cache when headers are missing, fail if
 there is none

A missing header raised OSError before the cache was looked at, although
running without the headers is what the cache and check_cache_validity are
meant to allow. A header disappearing after it was located was dropped
silently, since only loaded files were considered by process_all.
---
 pyclibrary/c_parser.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 055448b..63521e3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -718,10 +718,11 @@ class CParser(object):
             if os.path.isfile(header):
                 hs.append(header)
             else:
-                h = find_header(header)
-                if not h:
-                    raise OSError("Cannot find header: {}".format(header))
-                hs.append(h)
+                try:
+                    hs.append(find_header(header))
+                except OSError:
+                    # Let load_file deal with it, there might be a cache file.
+                    hs.append(header)
 
         return hs
 
@@ -746,20 +747,19 @@ class CParser(object):
         if encoding is None:
             encoding = self.default_encoding
 
-        if not os.path.isfile(path):
+        if os.path.isfile(path):
+            with open(path, "r", encoding=encoding) as fd:
+                self.files[path] = fd.read()
+
+            if replace is not None:
+                for s in replace:
+                    self.files[path] = re.sub(s, replace[s], self.files[path])
+        else:
             # Not a fatal error since we might be able to function properly if
-            # there is a cache file.
+            # there is a cache file (process_all fails if there is none).
             mess = "Warning: C header '{}' is missing, this may cause trouble."
             logger.warning(mess.format(path))
             self.files[path] = None
-            return False
-
-        with open(path, "r", encoding=encoding) as fd:
-            self.files[path] = fd.read()
-
-        if replace is not None:
-            for s in replace:
-                self.files[path] = re.sub(s, replace[s], self.files[path])
 
         self.file_order.append(path)
         bn = os.path.basename(path)
@@ -767,7 +767,7 @@ class CParser(object):
         # Only interested in the file names, the directory may change between
         # systems.
         self.init_opts["files"].append(bn)
-        return True
+        return self.files[path] is not None
 
     def _format_parsed_file(self, filename=None):
         from pprint import pformat
@@ -1733,7 +1733,7 @@ class CParser(object):
         """Search all file strings for text, return matching lines."""
         res = []
         for f in self.files:
-            lines = self.files[f].split("\n")
+            lines = (self.files[f] or "").split("\n")
             for i, line in enumerate(lines):
                 if text in line:
                     res.append((f, i, line))
-- 
2.43.0


From b474790c7486752e43811b229261fe954d61f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 10/25] fix: write the cache file atomically

The cache was written in place: concurrent parsers could interleave their
writes into a file mixing options of one with definitions of the other, and
a failing write destroyed the previous cache.
---
 pyclibrary/c_parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 63521e3..aef2ab5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -17,6 +17,7 @@ import re
 import sys
 from inspect import cleandoc
 from traceback import format_exc
+from uuid import uuid4
 
 # Import parsing elements
 from pyparsing import (
@@ -708,8 +709,18 @@ class CParser(object):
         cache["version"] = self.cache_version
         import pickle
 
-        with open(cache_file, "wb") as f:
-            pickle.dump(cache, f)
+        # Never write in place: other processes may be reading or writing the
+        # cache and a failure must not damage the existing one.
+        cache_file = os.path.realpath(cache_file)
+        temp_file = "{}.{}.tmp".format(cache_file, uuid4().hex)
+        try:
+            with open(temp_file, "wb") as f:
+                pickle.dump(cache, f)
+            os.replace(temp_file, cache_file)
+        except BaseException:
+            if os.path.exists(temp_file):
+                os.unlink(temp_file)
+            raise
 
     def find_headers(self, headers):
         """Try to find the specified headers."""
-- 
2.43.0


From 4c83c41bf47046d8fe1f7f52adc59d175ff19c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 11/25] fix: do not hide header changes made while parsing
 behind the cache

The cache got the time at which it was written, which is later than that of
a header modified after it was read (parsing can take minutes): the outdated
definitions were then considered valid forever.
---
 pyclibrary/c_parser.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index aef2ab5..9e1c186 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -509,6 +509,8 @@ class CParser(object):
 
         self.file_order = []
         self.files = {}
+        # Modification time of the files when they were read
+        self.files_mtime_ns = {}
 
         self.default_encoding = encoding
 
@@ -716,12 +718,29 @@ class CParser(object):
         try:
             with open(temp_file, "wb") as f:
                 pickle.dump(cache, f)
+            self._set_cache_mtime(temp_file)
             os.replace(temp_file, cache_file)
         except BaseException:
             if os.path.exists(temp_file):
                 os.unlink(temp_file)
             raise
 
+    def _set_cache_mtime(self, cache_file):
+        """Make the cache older than any file modified after it was read."""
+        mtimes = self.files_mtime_ns
+        if not mtimes:
+            return
+
+        if any(
+            os.path.isfile(f) and os.stat(f).st_mtime_ns != mtimes[f] for f in mtimes
+        ):
+            mtime_ns = 0
+        else:
+            # Modifications from now on are later than all known ones (unless
+            # those are in the future).
+            mtime_ns = min(os.stat(cache_file).st_mtime_ns, max(mtimes.values()))
+        os.utime(cache_file, ns=(mtime_ns, mtime_ns))
+
     def find_headers(self, headers):
         """Try to find the specified headers."""
         hs = []
@@ -759,6 +778,7 @@ class CParser(object):
             encoding = self.default_encoding
 
         if os.path.isfile(path):
+            self.files_mtime_ns[path] = os.stat(path).st_mtime_ns
             with open(path, "r", encoding=encoding) as fd:
                 self.files[path] = fd.read()
 
-- 
2.43.0


From d3c0d18dcf0bee8e0d87ba9e5f04248294a81e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 12/25] fix: invalidate the cache when encoding or copy_from
 change

The cache is documented to be invalidated by any change of the arguments,
but these two were not recorded.
---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9e1c186..8d69972 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -494,6 +494,8 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        self.init_opts["encoding"] = encoding
+        self.init_opts["copy_from"] = []
 
         self.data_list = [
             "types",
@@ -540,6 +542,7 @@ class CParser(object):
                 copy_from = [copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
+                self.init_opts["copy_from"].append(p.file_defs)
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
-- 
2.43.0


From 857d0aefc5e333012a38b9878ef563e2273b7852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 13/25] fix: do not load caches written by a more recent parser

A cache is documented to be loaded only if the version of the parser
matches, but only older versions were rejected.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8d69972..381d69e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -680,7 +680,7 @@ class CParser(object):
                     logger.debug("Cache init opts are OK:")
                     logger.debug("{}".format(cache["opts"]))
 
-                if cache["version"] < self.cache_version:
+                if cache["version"] != self.cache_version:
                     mess = "Cache file is not valid--cache format has changed."
                     logger.debug(mess)
                     return False
-- 
2.43.0


From 153d74b2565a7551e68921f1a9e4e9e94b0f9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 14/25] fix: forget a macro undefined by another file than the
 one defining it

The macro stayed in the definitions of the file that defined it and was
back as soon as these were loaded from a cache or through copy_from.
---
 pyclibrary/c_parser.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 381d69e..d74f40a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1715,16 +1715,13 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from both the definition sets
+        of the files and the global definition set.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        for file_defs in self.file_defs.values():
+            file_defs[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From 3a4e40e98cad72fcbd567582e3936dca775a2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 15/25] fix: do not replace a cache by an empty one

A parser created from a cache alone (without headers) overwrote it with no
definitions when it could not be read or was not valid.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d74f40a..340ce3b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -609,7 +609,9 @@ class CParser(object):
 
             results.append(self.parse_defs(f, return_unparsed))
 
-        if cache is not None:
+        # Without any file to parse there is nothing to gain from a cache, but
+        # the one which could not be loaded would be lost.
+        if cache is not None and self.file_order:
             logger.debug("Writing cache file '{}'".format(cache))
             self.write_cache(cache)
 
-- 
2.43.0


From bd666f56c9f915df2ac4a3f09942c2ccdf40e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 16/25] fix: do not evaluate C identifiers as names of the
 parser module

'#define SEP os' gave the os module as value (and made writing a cache
fail, as it cannot be pickled).
---
 pyclibrary/c_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 340ce3b..0cf8e28 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1676,13 +1676,13 @@ class CParser(object):
         logger.debug("Eval: {}".format(toks))
         try:
             if isinstance(toks, str):
-                val = self.eval(toks, None, self.defs["values"])
+                val = self.eval(toks, {}, self.defs["values"])
             elif toks.array_values != "":
                 val = [
-                    self.eval(x, None, self.defs["values"]) for x in toks.array_values
+                    self.eval(x, {}, self.defs["values"]) for x in toks.array_values
                 ]
             elif toks.value != "":
-                val = self.eval(toks.value, None, self.defs["values"])
+                val = self.eval(toks.value, {}, self.defs["values"])
             else:
                 val = None
             return val
-- 
2.43.0


From b8073c8d3e00822628c591c931104c2f976295f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 17/25] fix: check the age of the cache file that is actually
 read

The modification time was taken from the path before opening it: another
process replacing the cache in between got its definitions validated with
the time of the previous one, and a cache or header removed in between made
the construction fail instead of triggering a re-parsing.
---
 pyclibrary/c_parser.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0cf8e28..71b0fe8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -652,21 +652,22 @@ class CParser(object):
                 logger.debug("Can't find requested cache file.")
                 return False
 
-        # Make sure cache is newer than all input files
-        if check_validity:
-            mtime = os.stat(cache_file).st_mtime
-            for f in self.file_order:
-                # If file does not exist, then it does not count against the
-                # validity of the cache.
-                if os.path.isfile(f) and os.stat(f).st_mtime > mtime:
-                    logger.debug("Cache file is out of date.")
-                    return False
-
         try:
             # Read cache file
             import pickle
 
-            cache = pickle.load(open(cache_file, "rb"))
+            with open(cache_file, "rb") as fd:
+                mtime = os.fstat(fd.fileno()).st_mtime
+                cache = pickle.load(fd)
+
+            # Make sure cache is newer than all input files
+            if check_validity:
+                for f in self.file_order:
+                    # If file does not exist, then it does not count against
+                    # the validity of the cache.
+                    if os.path.isfile(f) and os.stat(f).st_mtime > mtime:
+                        logger.debug("Cache file is out of date.")
+                        return False
 
             # Make sure __init__ options match
             if check_validity:
-- 
2.43.0


From 7aa30b15e8eb0f91fe51426677a4d01d58f5ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 18/25] fix: invalidate the cache when the order of
 replacements changes

Replacements are applied one after the other, so their order matters, but
two dictionaries with a different order compare equal.
---
 pyclibrary/c_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 71b0fe8..351668a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -671,7 +671,11 @@ class CParser(object):
 
             # Make sure __init__ options match
             if check_validity:
-                if cache["opts"] != self.init_opts:
+                # Replacements are made one after the other, hence a different
+                # order is a different option (which == does not notice).
+                if cache["opts"] != self.init_opts or repr(
+                    cache["opts"]["replace"]
+                ) != repr(self.init_opts["replace"]):
                     db = logger.debug
                     db("Cache file is not valid")
                     db("It was created using different initialization options")
-- 
2.43.0


From c75d17629c4b4f91a63618a73aa4749d1af9733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:47 +0000
Subject: [PATCH 19/25] fix: forget initial macros undefined by the files when
 loading a cache

---
 pyclibrary/c_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 351668a..3a9830e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -693,7 +693,14 @@ class CParser(object):
                     return False
 
             # Import all parse results
-            self.import_dict(cache["file_defs"])
+            file_defs = cache["file_defs"]
+            if check_validity:
+                # They include the initial definitions, except for those which
+                # were undefined by the files.
+                self.file_defs.clear()
+                for k in self.data_list:
+                    self.defs[k].clear()
+            self.import_dict(file_defs)
             return True
 
         except Exception:
-- 
2.43.0


From e60858c00b60e2877468176247dc164396605c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:02 +0000
Subject: [PATCH 20/25] fix: build structs referring to each other
 independently of the lookup order

Looking up a struct that points to one containing it by value failed with an
AttributeError unless the other one had been looked up before. Looking up a
struct through a typedef built a second, incompatible class if the struct was
already known, and a struct already known was returned when asking for a union.
Set the fields of structs used through pointers last and register structs and
unions separately.
---
 pyclibrary/backends/ctypes.py | 131 ++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 54 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index c1e6cfa..e052075 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -170,7 +170,7 @@ class CTypesCLibrary(CLibrary):
 
         return obj.value
 
-    def _get_type(self, typ, pointers=True):  # noqa
+    def _get_type(self, typ, pointers=True, building=None):  # noqa
         """Return a ctype object representing the named type.
 
         If pointers is True, the class returned includes all pointer/array
@@ -200,9 +200,13 @@ class CTypesCLibrary(CLibrary):
 
             # structs, unions, enums:
             elif typ[0][:7] == "struct ":
-                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
+                cls = self._get_struct(
+                    "structs", self._defs_["types"][typ[0]][1], building, mods[:1] != ["*"]
+                )
             elif typ[0][:6] == "union ":
-                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
+                cls = self._get_struct(
+                    "unions", self._defs_["types"][typ[0]][1], building, mods[:1] != ["*"]
+                )
             elif typ[0][:5] == "enum ":
                 cls = c_int
 
@@ -279,7 +283,7 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    args = [self._get_type(arg[1], building=building) for arg in m]
                     cls = mkfn(cls, *args)
 
                 else:
@@ -291,28 +295,36 @@ class CTypesCLibrary(CLibrary):
             logger.error("Error while processing type: {}".format(typ))
             raise
 
-    def _get_struct(self, str_type, str_name):
-        # A struct has to be registered before its fields are known (to allow
-        # recursive definitions). Make sure that other threads never see it in
-        # that state and that it does not stay registered if something fails.
+    def _get_struct(self, str_type, str_name, building=None, complete=True):
+        # Recursive definitions require a struct to be known before its fields
+        # are set. Until all the structs it refers to are complete it is only
+        # registered in building, so that it can be seen neither by another
+        # thread nor after a failure.
+        if building is not None:
+            return self._build_struct(str_type, str_name, building, complete)
+
         with self._build_lock_:
-            known = set(self._structs_)
-            try:
-                return self._build_struct(str_type, str_name)
-            except BaseException:
-                for n in set(self._structs_) - known:
-                    del self._structs_[n]
-                raise
-
-    def _build_struct(self, str_type, str_name):
-        if str_name not in self._structs_:
-            str_name = self._resolve_struct_alias(str_type, str_name)
+            classes, pending = building = ({}, {})
+            cls = self._build_struct(str_type, str_name, building)
+            while pending:
+                key, defn = pending.popitem()
+                self._fill_struct(classes[key], defn, building)
+            self._structs_.update(classes)
+            return cls
+
+    def _build_struct(self, str_type, str_name, building, complete=True):
+        classes, pending = building
+        str_name = self._resolve_struct_alias(str_type, str_name)
+        key = (str_type, str_name)
 
+        if key in self._structs_:
+            return self._structs_[key]
+
+        if key not in classes:
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
             # create ctypes class
-            defs = defn["members"][:]
             if str_type == "structs":
 
                 class s(Structure):
@@ -325,40 +337,51 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
-            self._structs_[str_name] = s
-
-            if defn["pack"] is not None:
-                s._pack_ = defn["pack"]
-
-            # Assign names to anonymous members
-            members = []
-            anon = []
-            for i, d in enumerate(defs):
-                if d[0] is None:
-                    c = 0
-                    while True:
-                        name = "anon_member%d" % c
-                        if name not in members:
-                            d = (name, *d[1:])
-                            defs[i] = d
-                            anon.append(name)
-                            break
-                        c += 1
-                members.append(d[0])
-
-            s._anonymous_ = anon
-            # Handle bit field specifications, ctypes only supports bit fields
-            # for integer but I am not sure how to test for it in a nice
-            # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
-                for m in defs
-            ]
-            s._defaults_ = [m[2] for m in defs]
-
-        return self._structs_[str_name]
+            classes[key] = s
+            pending[key] = defn
+
+        # A pointer to a struct does not need its fields. Setting them only once
+        # the structs containing the pointer are complete allows the struct to
+        # contain those.
+        if complete and key in pending:
+            self._fill_struct(classes[key], pending.pop(key), building)
+
+        return classes[key]
+
+    def _fill_struct(self, s, defn, building):
+        """Set the fields of a struct or union."""
+        defs = defn["members"][:]
+
+        if defn["pack"] is not None:
+            s._pack_ = defn["pack"]
+
+        # Assign names to anonymous members
+        members = []
+        anon = []
+        for i, d in enumerate(defs):
+            if d[0] is None:
+                c = 0
+                while True:
+                    name = "anon_member%d" % c
+                    if name not in members:
+                        d = (name, *d[1:])
+                        defs[i] = d
+                        anon.append(name)
+                        break
+                    c += 1
+            members.append(d[0])
+
+        s._anonymous_ = anon
+        # Handle bit field specifications, ctypes only supports bit fields
+        # for integer but I am not sure how to test for it in a nice
+        # fashion.
+        s._fields_ = [
+            (m[0], self._get_type(m[1], building=building))
+            if m[2] is None
+            else (m[0], self._get_type(m[1], building=building), m[2])
+            for m in defs
+        ]
+        s._defaults_ = [m[2] for m in defs]
 
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
-- 
2.43.0


From e7a8cea689a9ec851d5f40c5fade4d42bb091bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:02 +0000
Subject: [PATCH 21/25] fix: release a library once its last reference is gone

The exceptions kept in the cache of pyparsing refer to the frames opening the
library whose headers are parsed. The library was hence kept alive until the
next parsing and opening it again, e.g. with other headers, gave the old one.
---
 pyclibrary/c_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3a9830e..ab39fe9 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1223,11 +1223,16 @@ class CParser(object):
         self.current_file = path
 
         parser = self.build_parser()
-        if return_unparsed:
-            text = parser.suppress().transformString(self.files[path])
-            return re.sub(r"\n\s*\n", "\n", text)
-        else:
-            return [x[0] for x in parser.scanString(self.files[path])]
+        try:
+            if return_unparsed:
+                text = parser.suppress().transformString(self.files[path])
+                return re.sub(r"\n\s*\n", "\n", text)
+            else:
+                return [x[0] for x in parser.scanString(self.files[path])]
+        finally:
+            # The exceptions in the cache of pyparsing keep all the callers
+            # alive, including the library for which the headers are parsed.
+            ParserElement.resetCache()
 
     def build_parser(self):
         """Builds the entire tree of parser elements for the C language (the
-- 
2.43.0


From 8ff8ed619c93f6f8a07a2c1187398426bd26f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:29 +0000
Subject: [PATCH 22/25] fix: survive undecodable output of the tools used to
 find libraries

---
 pyclibrary/thirdparty/find_library.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 1687c14..15599b2 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -15,6 +15,14 @@ if os.name == "posix" and sys.platform.startswith("linux"):
         import re
         import tempfile
 
+        def _output(cmd):
+            # The tools may report file names in any encoding.
+            f = os.popen(cmd)
+            try:
+                return os.fsdecode(f.buffer.read())
+            finally:
+                f.close()
+
         def _findlib_gcc(name):
             expr = r"[^\(\)\s]*lib%s\.[^\(\)\s]*" % re.escape(name)
             fdout, ccout = tempfile.mkstemp()
@@ -25,9 +33,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
             )
             trace = ""
             try:
-                f = os.popen(cmd)
-                trace = f.read()
-                f.close()
+                trace = _output(cmd)
             finally:
                 try:
                     os.unlink(ccout)
@@ -42,11 +48,11 @@ if os.name == "posix" and sys.platform.startswith("linux"):
         def _findlib_ldconfig(name):
             # XXX assuming GLIBC's ldconfig (with option -p)
             expr = r"/[^\(\)\s]*lib%s\.[^\(\)\s]*" % re.escape(name)
-            res = re.search(expr, os.popen("/sbin/ldconfig -p 2>/dev/null").read())
+            res = re.search(expr, _output("/sbin/ldconfig -p 2>/dev/null"))
             if not res:
                 # Hm, this works only for libs needed by the python executable.
                 cmd = "ldd %s 2>/dev/null" % sys.executable
-                res = re.search(expr, os.popen(cmd).read())
+                res = re.search(expr, _output(cmd))
                 if not res:
                     return None
             return res.group(0)
-- 
2.43.0


From 297fe4af51d9e8a34acb79fc08d6e5505a82bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:39 +0000
Subject: [PATCH 23/25] fix: determine the architecture of a library from its
 content only

---
 pyclibrary/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index dbe5eb9..3ff0593 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -201,7 +201,8 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    out = check_output(["file", filename], stderr=subprocess.STDOUT)
+    # Only what the file contains matters, not its name nor that of a link.
+    out = check_output(["file", "-b", "-L", filename], stderr=subprocess.STDOUT)
     out = out.decode("ascii")
     ret = []
     if this_platform.startswith("linux"):
-- 
2.43.0


From 8f8a396a81a7c5a975273616c0a943d2392d7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:39 +0000
Subject: [PATCH 24/25] fix: store the merged definitions in the cache

Files with the same name share one entry of file_defs, so the definitions
rebuilt from it could differ from those of the parser which wrote the cache.
---
 pyclibrary/c_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ab39fe9..1ef8fd5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -462,7 +462,8 @@ class CParser(object):
     #: Increment every time cache structure or parsing changes to invalidate
     #: old cache files.
     # 2 : add C99 integers
-    cache_version = 2
+    # 3 : store the resulting definitions besides those of each file
+    cache_version = 3
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
@@ -701,6 +702,10 @@ class CParser(object):
                 for k in self.data_list:
                     self.defs[k].clear()
             self.import_dict(file_defs)
+            # The definitions of files with the same name are mixed in
+            # file_defs, which does not tell which of them came last.
+            for k, defs in cache.get("defs", {}).items():
+                self.defs[k].update(defs)
             return True
 
         except Exception:
@@ -725,6 +730,7 @@ class CParser(object):
         cache = {}
         cache["opts"] = self.init_opts
         cache["file_defs"] = self.file_defs
+        cache["defs"] = self.defs
         cache["version"] = self.cache_version
         import pickle
 
-- 
2.43.0


From fec07f2cf5d3c2fe46099b26a911e8d04b575704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 25/25] fix: remove the temporary file of the compiler if
 closing it fails

---
 pyclibrary/thirdparty/find_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 15599b2..2a906d0 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -26,13 +26,13 @@ if os.name == "posix" and sys.platform.startswith("linux"):
         def _findlib_gcc(name):
             expr = r"[^\(\)\s]*lib%s\.[^\(\)\s]*" % re.escape(name)
             fdout, ccout = tempfile.mkstemp()
-            os.close(fdout)
             cmd = (
                 "if type gcc >/dev/null 2>&1; then CC=gcc; else CC=cc; fi;"
                 "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + name
             )
             trace = ""
             try:
+                os.close(fdout)
                 trace = _output(cmd)
             finally:
                 try:
-- 
2.43.0

