From bf5c192ad212f1ba873bd7ddcc4f02533c76328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 01/59] fix: removing a key from a MetaTagIndex deadlocked on
 its own lock

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..c8f11c5 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -583,7 +583,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = super()._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 568ab348ca8be5bc64fc2a547dfb87e98e2ca551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 02/59] fix: delete_block(missing_ok=True) raised for a missing
 block

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..a417b92 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -49,7 +49,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From 0b79033ad2007594027a037d43156eca36c5a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 03/59] fix: missing Notepad keys raised FileNotFoundError,
 stored None read as missing

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c8f11c5..850bc98 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -747,10 +747,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not found in this object's space.")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From e5ec9a9b733bd8f7722bc0b10e1841324d64c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 04/59] fix: GridPaper stores ignored exists_ok and the size of
 existing blocks

---
 dustgoggles/codex/codecs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..b607d71 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,11 +133,13 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        if (exists_ok is False) and exists_block(address):
+            raise FileExistsError
+        block = open_block(address, array.size * array.itemsize, True, True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From 9fb685a2fda127b8d748885733aafd976212d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 05/59] fix: GridPaper.get(fetch=False) failed to unpack the
 block

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 850bc98..99cee51 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -849,6 +849,8 @@ class GridPaper(AbstractNotepad):
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
+            if fetch is False:
+                return self.remember(self.index[key], fetch)
             result, block = self.remember(self.index[key], fetch, copy)
             if copy is False:
                 self._open_blocks.append(block)
-- 
2.43.0


From 40f25e0d838dac84fa45324652440ccdc86c3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 06/59] fix: GridPaper.clear() always raised AttributeError

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 99cee51..098cf85 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -923,7 +923,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From 012c5ad0d1dc8b7fa4abdf5a5d131b796bf43572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 07/59] fix: deleting a reserved key destroyed the index's own
 blocks

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 098cf85..86b9a35 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -776,8 +776,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -902,8 +902,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From f18bfc61e62ca4a804257bf7f36b091825d74b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 08/59] fix: re-sticking a differently sized object on a Sticky
 failed

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 86b9a35..cc963c4 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -989,7 +989,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From 826bf44b0b031c37141d421dc3be51dc2bdfdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 09/59] fix: explicitly closed Sticky was closed again at exit

---
 dustgoggles/codex/implements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index cc963c4..8b32e3d 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -982,6 +982,7 @@ class Sticky:
         block = SharedMemory(self.address)
         block.unlink()
         block.close()
+        atexit.unregister(self.close)
 
     def pull(self):
         return self.close()
-- 
2.43.0


From 108c7895fe09f19c94ef923069005a04ca63bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 10/59] fix: deactivating the resource tracker broke other
 resource types

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index a417b92..bf3da97 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -84,14 +84,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From 50fbfd5449e57015798d6a25231679ddba523ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 11/59] fix: AST codec could not decode strings

---
 dustgoggles/codex/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index b607d71..42f894f 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -40,7 +40,7 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        return repr(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From 166fc7cf233259b46a958199194085ff362ff530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 12/59] fix: failed Notepad store left its key listed without a
 value

---
 dustgoggles/codex/implements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 8b32e3d..0f64588 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -763,7 +763,13 @@ class Notepad(AbstractNotepad):
             raise KeyError("'index' is a reserved key prefix")
         try:
             self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
+            try:
+                self.memorize(value, self.address(key), exists_ok)
+            except BaseException:
+                # don't leave a key in the index with no value behind it
+                if not exists_block(self.address(key)):
+                    self.index.remove(key)
+                raise
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
-- 
2.43.0


From d59e8f55eaf46fe9b3641d6b5334cd754f4ce1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 13/59] fix: SlidingLock could be held twice while a claimant
 had not placed its lock

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0f64588..9a62069 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -199,7 +199,7 @@ class SlidingLock:
 
     def _check_acquirement(self):
         for other_number in reversed(range(self.floor, self.number)):
-            if exists_block(f"{self.name}_{other_number}_lock"):
+            if exists_block(f"{self.name}_{other_number}"):
                 if getattr(self, "debug") is True:
                     log(f"{here()},{self.number},{other_number} has precedence")
                 # # # # #
-- 
2.43.0


From 51cdbceeabde11018c2104ac6dbd312072109138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 14/59] fix: SlidingLock could reuse a slot released since it
 read the floor

---
 dustgoggles/codex/implements.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 9a62069..05edc1e 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -184,8 +184,11 @@ class SlidingLock:
             log(f"{here()},{self.number},entering cleanup")
         self.release()
 
+    def _get_floor(self):
+        return int.from_bytes(self.count.buf.tobytes(), "little")
+
     def _renumber(self):
-        self.floor = int.from_bytes(self.count.buf.tobytes(), "little")
+        self.floor = self._get_floor()
         self.number = self.floor + 1
         while self.marker is None:
             try:
@@ -194,6 +197,14 @@ class SlidingLock:
                 )
             except FileExistsError:
                 self.number += 1
+                continue
+            # someone else may have used and released this slot since we
+            # read the floor; if so, it no longer says anything about order
+            if (floor := self._get_floor()) >= self.number:
+                self.marker.unlink()
+                self.marker.close()
+                self.marker = None
+                self.floor, self.number = floor, floor + 1
         if getattr(self, "debug") is True:
             log(f"{here()},{self.number},taking slot {self.number}")
 
-- 
2.43.0


From 2bf384d02dbd27c908a70904825038c7ddbb1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 15/59] fix: rmerge forgot the caller's mapping types below the
 first level

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..6591c76 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -306,7 +306,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From 146235d3f6a57ac8fe17ee416cdba1bf46bbd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 16/59] fix: disjoint exhausted one-shot iterables before
 comparing them

---
 dustgoggles/func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/func.py b/dustgoggles/func.py
index 7aed0f7..75dd0b0 100644
--- a/dustgoggles/func.py
+++ b/dustgoggles/func.py
@@ -72,6 +72,7 @@ def intersection(*iterables: Iterable) -> set:
 
 
 def disjoint(*sets: Iterable) -> list[list]:
+    sets = [tuple(this_set) for this_set in sets]
     shared = intersection(*sets)
     return [
         [file for file in this_set if file not in shared] for this_set in sets
-- 
2.43.0


From 9719a704846852d37ef9d3a916350ef97244a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 17/59] fix: MaybePool.map lost every record of a one-shot
 iterable

---
 dustgoggles/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 6591c76..dd8569e 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -372,6 +372,7 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
+        argrecs = list(argrecs)
         for i, rec in enumerate(argrecs):
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
-- 
2.43.0


From 0a1187170e4bfe049bdf073f9f1938e448707e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 18/59] fix: MaybePool.get misread results of an unchunked map
 after a chunked one

---
 dustgoggles/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index dd8569e..4529090 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -378,6 +378,7 @@ class MaybePool:
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
         if (as_chunks is False) or (self.pool is None):
+            self.chunked = False
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
-- 
2.43.0


From 0f4cf539adb60f85e22e6fdae176e9b598d0e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 19/59] fix: one failing record discarded the results of its
 whole chunk

---
 dustgoggles/structures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 4529090..72412f0 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -358,7 +358,7 @@ class MaybeResult:
 
 def _chunkwrap(func, argrecs):
     return {
-        rec['key']: func(*rec['args'], **rec['kwargs'])
+        rec['key']: MaybeResult(func, rec['args'], rec['kwargs']).value
         for rec in argrecs
     }
 
@@ -413,7 +413,10 @@ class MaybePool:
         for k, v in self.results.items():
             try:
                 if self.chunked is True:
-                    output |= v.get()
+                    for key, result in v.get().items():
+                        if raise_exc and isinstance(result, Exception):
+                            raise result
+                        output[key] = result
                 else:
                     output[k] = v.get()
             except KeyboardInterrupt:
-- 
2.43.0


From 48d9cb803b9d981f7c7b59d44c9285f6b831bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 20/59] fix: check_and_drop_duplicate_columns compared columns
 with themselves

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..4046950 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -50,7 +50,8 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     if len(extra_columns) == 0:
         return dataframe
     for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
+        same_named = dataframe.loc[:, column]
+        test_equality = same_named.eq(same_named.iloc[:, 0], axis=0)
         if not test_equality.all(axis=None):
             raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
-- 
2.43.0


From f65bc7000be6fc59dd22e18a8e5b9e33413af6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 21/59] fix: downcast of nonfinite zeros did not return a
 result dict

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 4046950..8975729 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -210,7 +210,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.float16, library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 794528f7fc21add8a1188f13743064bd3bea86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 22/59] fix: unpack_column added columns to the caller's
 dataframe

---
 dustgoggles/pivot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8975729..0a26fa5 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -319,6 +319,7 @@ def unpack(series: pd.Series):
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
     unpacked = unpack(df[colname])
+    df = df.copy()
     df.loc[unpacked.index, unpacked.columns] = unpacked
     return df.drop(columns=colname)
 
-- 
2.43.0


From 6278817a0d54617b80e951f7197162b68dec71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 23/59] fix: a failed Tracker.dump corrupted the log file

---
 dustgoggles/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..2ee835c 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -82,6 +82,7 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
+        blob = json.dumps(self.log, indent=2).encode('utf-8')
         mode = "rb+" if self.outpath.exists() else "wb"
         with self.outpath.open(mode) as stream:
             if mode == "rb+":
@@ -89,7 +90,7 @@ class Tracker(TrivialTracker):
                 stream.write(b",\n")
             else:
                 stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
+            stream.write(blob)
             stream.write(b"]")
 
     _paused = False
-- 
2.43.0


From c762710667a4a3442c2809feeb1032c538f1f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 24/59] fix: Dynamic.from_function lost the function's source
 and globals

---
 dustgoggles/dynamic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..b2984c2 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -184,8 +184,9 @@ class Dynamic:
         dynamic.func = func
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
-        dynamic.globals_ = func.__globals__
+        source = dynamic.source
         dynamic.__init__(*init_args, **init_kwargs)
+        dynamic.source, dynamic.globals_ = source, func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 11bbb81d17ca1f517769ae86dae2b61f52b29855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 25/59] fix: parquet metadata failed on columns without
 statistics

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..ffe8eba 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -27,7 +27,7 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
-- 
2.43.0


From dace83e09dd38c39e168c4fe6e3aeb78d75ad8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 26/59] fix: sort_chunked passed verbose as columns

---
 dustgoggles/mosaic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index ffe8eba..da03a92 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -156,7 +156,11 @@ def sort_chunked(
     try:
         for window in windows:
             window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+                sort_reader,
+                sort_column,
+                window,
+                relevant_records,
+                verbose=verbose
             )
             if window_table is None:
                 continue
-- 
2.43.0


From f6034a4cc0dab09304a09c5e225cd29441b832a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 27/59] fix: sort_chunked wrote chunks in ascending order
 whatever the direction

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index da03a92..bfb4550 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -153,6 +153,8 @@ def sort_chunked(
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
     windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 9fa578eb6bb15d9af15920bd90fadd71fb5dc73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 28/59] fix: unhashable literals in label text escaped as
 TypeError

---
 dustgoggles/scrape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..b924abd 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,7 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From f4895faa412aa5012eee6d23136e7104468bd9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 29/59] fix: an interrupt while waiting for a SlidingLock left
 its claims behind

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 05edc1e..350c420 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -172,7 +172,7 @@ class SlidingLock:
         try:
             self._renumber()
             self.acquire()
-        except Exception as ex:
+        except BaseException as ex:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},crashing out: {ex}")
             self.release()
-- 
2.43.0


From 2fa89de9c369449564e4d550ed59ea778ef357f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 30/59] fix: removing a key broke an index whose last key was
 not a string

---
 dustgoggles/codex/implements.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 350c420..6bb26ef 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -383,9 +383,7 @@ class TagIndex(ShareableIndex):
         self.length = None
 
     def hash_address(self, key):
-        if not isinstance(key, bytes):
-            key = str(key).encode()
-        namehash = HASHER(key).hexdigest()
+        namehash = HASHER(str(key).encode()).hexdigest()
         return f"{self.name}_name_{namehash}"
 
     def key_address(self, index_ix):
@@ -467,7 +465,7 @@ class TagIndex(ShareableIndex):
                 overwrite=True
             )
             moved_block.buf[:] = lastkey
-            nameblock = SharedMemory(self.hash_address(lastkey))
+            nameblock = SharedMemory(self.hash_address(lastkey.decode()))
             nameblock.buf[:] = found_at.to_bytes(8, "little")
             lastblock.unlink()
             lastblock.close()
-- 
2.43.0


From 0a34714756f80f273cc9c2c1fe5f0837dcd3312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 31/59] fix: closing an index leaked the blocks of its keys

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6bb26ef..02534e2 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -493,6 +493,8 @@ class TagIndex(ShareableIndex):
             return self._delitem(target)
 
     def close(self):
+        for key in self.update():
+            self.remove(key)
         self.memory.unlink()
         self.memory.close()
         if exists_block(f"{self.name}_count"):
-- 
2.43.0


From bea0db1b76f9ee19649e4391672803647a1bedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 32/59] fix: unloading a Dynamic that was never loaded raised
 AttributeError

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index b2984c2..6940bbf 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From 9d42f2dc6a7f53b060ff1ba54cfb5326f4d8b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 33/59] fix: sort_chunked left its reader, and on some errors
 its writer, open

---
 dustgoggles/mosaic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index bfb4550..c1cc5ee 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -139,23 +139,23 @@ def sort_chunked(
         write_kwargs["row_group_size"] = row_group_size
     if use_dictionary is not None:
         open_kwargs["use_dictionary"] = use_dictionary
-    sort_reader = parquet.ParquetFile(input_file)
     meta_records = parquet_metadata_records(input_file)
     relevant_records = [
         rec for rec in meta_records if rec["path_in_schema"] == sort_column
     ]
-    if schema is None:
-        schema = sort_reader.read_row_group(0).schema
-    sort_writer = parquet.ParquetWriter(
-        output_file, version=version, schema=schema, **open_kwargs
-    )
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
     windows[-1] = (windows[-1][0], windows[-1][1] + 1)
     if direction == "descending":
         windows.reverse()
+    sort_reader, sort_writer = parquet.ParquetFile(input_file), None
     try:
+        if schema is None:
+            schema = sort_reader.read_row_group(0).schema
+        sort_writer = parquet.ParquetWriter(
+            output_file, version=version, schema=schema, **open_kwargs
+        )
         for window in windows:
             window_table = read_between(
                 sort_reader,
@@ -176,4 +176,6 @@ def sort_chunked(
             sort_writer.write_table(window_table, **write_kwargs)
             del window_table
     finally:
-        sort_writer.close()
+        sort_reader.close()
+        if sort_writer is not None:
+            sort_writer.close()
-- 
2.43.0


From 89b48964686e32e97a7ee4b452dab08941a5b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 34/59] fix: head_file left its file open when reading it
 failed

---
 dustgoggles/scrape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index b924abd..8b12235 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -76,8 +76,10 @@ def head_file(fn_or_reader, nbytes):
     head_buffer = BytesIO()
     if not hasattr(fn_or_reader, "read"):
         fn_or_reader = open(fn_or_reader, 'rb')
-    head_buffer.write(fn_or_reader.read(nbytes))
-    fn_or_reader.close()
+    try:
+        head_buffer.write(fn_or_reader.read(nbytes))
+    finally:
+        fn_or_reader.close()
     head_buffer.seek(0)
     return head_buffer
 
-- 
2.43.0


From 90829e7968c16ac174bef8d98729e72e8503fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 35/59] fix: an unwritable debug log no longer leaks the lock's
 claims

---
 dustgoggles/codex/implements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 02534e2..831dd66 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -110,8 +110,12 @@ def here():
 
 
 def log(message):
-    with open("../holding/dumplog.csv", "a+") as file:
-        file.write(message + "\n")
+    # a log that can't be written must not break the operation it describes
+    try:
+        with open("../holding/dumplog.csv", "a+") as file:
+            file.write(message + "\n")
+    except OSError:
+        pass
 
 
 def printstack(stack):
-- 
2.43.0


From 99556038b4fdc4b8bd9cd227f03db1fc97bf8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 36/59] fix: to_records accepts level names from a generator

---
 dustgoggles/structures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 72412f0..eaa801d 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -1,8 +1,7 @@
 """structured data and manipulators thereof"""
 from collections import defaultdict, OrderedDict
-from copy import copy
 from functools import reduce, partial
-from itertools import chain
+from itertools import chain, tee
 from multiprocessing import Pool
 from operator import methodcaller, add, getitem, eq
 from typing import (
@@ -34,7 +33,8 @@ def to_records(nested: Mapping, accumulated_levels=None, level_names=None):
         if all([isinstance(value, Mapping) for value in mapping.values()]):
             branch = accumulated_levels.copy()
             branch[level_name] = category
-            records += to_records(mapping, branch, copy(level_names))
+            level_names, lower_names = tee(level_names)
+            records += to_records(mapping, branch, lower_names)
         else:
             category_dict = accumulated_levels | {level_name: category}
             flat = mapping | category_dict
-- 
2.43.0


From bd30bf7c17bc0a7a6eb6f6674417039cdb847f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 37/59] fix: mapping over records no longer edits the caller's
 records

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index eaa801d..d3b8261 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -372,7 +372,7 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
-        argrecs = list(argrecs)
+        argrecs = [dict(rec) for rec in argrecs]
         for i, rec in enumerate(argrecs):
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
-- 
2.43.0


From 9544f449f66d21fcb917f9e170aaa7445465d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 38/59] fix: downcast_df misaligned rows of dataframes without
 a default index

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 0a26fa5..2f7d257 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -259,9 +259,9 @@ def downcast_df(
         if not is_numeric_dtype(col.dtype):
             cast_series.append(col if copy_all is False else col.copy())
             continue
-        cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
-        )
+        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+        recast.index = col.index
+        cast_series.append(recast)
     if reassemble is True:
         return pd.concat(cast_series, axis=1)
     return cast_series
-- 
2.43.0


From c490d110dc63b048f466fc3ee585cb75d19e72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 39/59] fix: downcast failed on empty integer arrays

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 2f7d257..3ab4739 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -198,6 +198,9 @@ def downcast(
             f"This function doesn't handle {arr.dtype} arrays. Cast to an "
             f"integer or real type first if you want to use this function."
         )
+    if arr.size == 0:
+        # there's nothing to recast in this case
+        return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     if arr.dtype.kind in 'ui':
         return _downcast_int_array(arr, library, name)
     arr_finite = arr[np.isfinite(arr)]
-- 
2.43.0


From b82e75ca2b46131829ab8ed4cd703873ae9ddd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 40/59] fix: extract_constants reported missing values and
 wrong labels as constants

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 3ab4739..08e5c01 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -104,7 +104,10 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        by_label = constants if how == "rows" else constants.T
+        if dropna is True:
+            by_label = by_label.bfill()
+        constants = by_label.iloc[0].to_dict()
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From d24c82525f455c254ac13c9d88e545d54d7703de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 41/59] fix: typed_columns treated unsigned Series differently
 from unsigned columns

---
 dustgoggles/pivot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 08e5c01..b82db12 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -135,12 +135,12 @@ def typed_columns(df, typenames):
     """return columns of df of types that match patterns given in typenames."""
     if isinstance(typenames, str):
         typenames = (typenames,)
+    type_pattern = f"u?({'|'.join(typenames)})".lower()
     if isinstance(df.dtypes, np.dtype):
-        if re.match("|".join(typenames).lower(), df.dtypes.name.lower()):
+        if re.match(type_pattern, df.dtypes.name.lower()):
             return df
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
-    type_pattern = f"u?({'|'.join(typenames)})".lower()
     return df[df.dtypes.loc[names.str.match(type_pattern)].index]
 
 
-- 
2.43.0


From fd1842243a9b9b8fdebf0e2dd09af8ef129cd68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 42/59] fix: read_between ignored the requested columns

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index c1cc5ee..b1e0b16 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -115,6 +115,8 @@ def read_between(
         more_than = pac.filter(
             less_than, pac.greater_equal(less_than[field], bounds[0])
         )
+        if columns is not None:
+            more_than = more_than.select(columns)
         bound_groups.append(more_than)
     return pa.concat_tables(bound_groups)
 
-- 
2.43.0


From 1b25959859c0a7ceef3b03965def72b673656f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 43/59] fix: sort_chunked made one chunk too few and failed for
 a single chunk

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index b1e0b16..dfedc32 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -147,7 +147,7 @@ def sort_chunked(
     ]
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
-    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
+    windows = list(windowed(np.linspace(min_value, max_value, n_chunks + 1), 2))
     windows[-1] = (windows[-1][0], windows[-1][1] + 1)
     if direction == "descending":
         windows.reverse()
-- 
2.43.0


From f87806cb02ed2877221b33ab2f93408dd7c9edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 44/59] fix: extended parquet metadata failed if row groups had
 equal sizes

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index dfedc32..4363aa9 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -46,6 +46,8 @@ def _flatten_meta_df(meta_df, extended):
         col_stats = col_slice[
             ["num_values", "total_compressed_size", "total_uncompressed_size"]
         ].sum()
+        # the totals supersede per-group values that happen to be constant
+        constants = keyfilter(lambda k: k not in col_stats.index, constants)
         col_series.append(pd.concat([pd.Series(constants), col_stats]))
     return pd.concat(col_series, axis=1).T
 
-- 
2.43.0


From 1b9d7fe07cf9da30ad16a6d05e6df32b9060bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 45/59] fix: sort_chunked lost the rows holding a huge maximum

---
 dustgoggles/mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 4363aa9..c4d2db7 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -150,7 +150,9 @@ def sort_chunked(
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks + 1), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    # windows exclude their upper bounds; adding 1 does not change huge floats
+    lower, upper = windows[-1]
+    windows[-1] = (lower, max(upper + 1, np.nextafter(upper, np.inf)))
     if direction == "descending":
         windows.reverse()
     sort_reader, sort_writer = parquet.ParquetFile(input_file), None
-- 
2.43.0


From 1e13b1a7d78584dbf8f54568cb2548d089ce1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 46/59] fix: typed_columns failed for Series of pandas' own
 types

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b82db12..1775c28 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -136,7 +136,7 @@ def typed_columns(df, typenames):
     if isinstance(typenames, str):
         typenames = (typenames,)
     type_pattern = f"u?({'|'.join(typenames)})".lower()
-    if isinstance(df.dtypes, np.dtype):
+    if isinstance(df, pd.Series):
         if re.match(type_pattern, df.dtypes.name.lower()):
             return df
         return pd.DataFrame(index=df.index)
-- 
2.43.0


From 0b779effe4d9977887a6118d9528b3359836d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 47/59] fix: numeric_columns selected columns of intervals

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 1775c28..0ef3f5b 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -146,7 +146,7 @@ def typed_columns(df, typenames):
 
 def numeric_columns(df):
     """return 'numeric" columns of df."""
-    return typed_columns(df, ("int", "float"))
+    return typed_columns(df, ("int(?!erval)", "float"))
 
 
 def check_in_dtype_bounds(
-- 
2.43.0


From ef100541e8cc6ee5b3cc416b46de4ccf5561cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 48/59] fix: junction and unique_to_records used up one-shot
 column names

---
 dustgoggles/pivot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 0ef3f5b..8a445a1 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -297,8 +297,9 @@ def downcast_df(
 
 
 def junction(df1, df2, columns, set_method="difference"):
-    keys1 = df1[list(columns)].value_counts().index.to_list()
-    keys2 = df2[list(columns)].value_counts().index.to_list()
+    columns = list(columns)
+    keys1 = df1[columns].value_counts().index.to_list()
+    keys2 = df2[columns].value_counts().index.to_list()
     return getattr(set(keys1), set_method)(set(keys2))
 
 
@@ -331,6 +332,7 @@ def unpack_column(df: pd.DataFrame, colname):
 
 
 def unique_to_records(df, cols):
+    cols = list(cols)
     unique_tuples = df[cols].value_counts().index.to_list()
     records = [
         {col: value for col, value in zip(cols, values)}
-- 
2.43.0


From 0e276d21a1bee1fd2a42fe4408f39fbd508777be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 49/59] fix: read_between used up one-shot records and column
 names

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index c4d2db7..c241f30 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -101,6 +101,8 @@ def read_between(
     managed read-between bounds operation, more efficient in some cases
     than parquet.read_table with specified filters
     """
+    meta_records = list(meta_records)
+    columns = None if columns is None else list(columns)
     bound_records = []
     for rec in meta_records:
         if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
-- 
2.43.0


From a8b4977d7e747a88b7b6ac60bd6740a2554879e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 50/59] fix: read zero-padded numbers of subframe blocks as
 integers

---
 dustgoggles/scrape.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 8b12235..f6af33c 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -52,9 +52,10 @@ def scrape_subframe(label_text: str) -> tuple:
     total lines, total line samples
     if image is not subframed, should be (1, 1, 1200, 1648)
     """
-    return literal_eval(
-        ",".join(
-            re.findall(r"\d+", re.search(SUBFRAME_GROUP, label_text).group())
+    return tuple(
+        int(number)
+        for number in re.findall(
+            r"\d+", re.search(SUBFRAME_GROUP, label_text).group()
         )
     )
 
-- 
2.43.0


From 5c2f86c78f1c9ce42d7fcf6c7e76768d0a70af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:06 +0000
Subject: [PATCH 51/59] fix: a step whose sends were given in a tuple can be
 sent to and tracked

---
 dustgoggles/composition.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..2a46fdf 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -154,9 +154,10 @@ class Composition:
         if (target is None) and (pipe is None):
             raise ValueError(
                 "Either pipe or target must be defined to create a send.")
-        if step_name not in self.sends.keys():
-            self.sends[step_name] = []
-        self.sends[step_name].append((pipe, target, pointer))
+        # a step's sends may have been given in any sequence
+        self.sends[step_name] = [
+            *self.sends.get(step_name, ()), (pipe, target, pointer)
+        ]
 
     def add_insert(
         self,
-- 
2.43.0


From ee79ccebfab74e7530e5168b158d578eb0438560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:42 +0000
Subject: [PATCH 52/59] fix: columns of lists or arrays are compared cell by
 cell when constants are extracted

---
 dustgoggles/pivot.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8a445a1..ad6a3a7 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -57,6 +57,10 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
+def _as_cell(value):
+    return tuple(value) if isinstance(value, (list, np.ndarray)) else value
+
+
 def extract_constants(
     df: pd.DataFrame,
     to_dict=True,
@@ -84,6 +88,9 @@ def extract_constants(
         method = "iterrows" if how == "columns" else "items"
         for ix, series in getattr(df, method)():
             series = series if dropna is False else series.dropna()
+            if series.dtype == object:
+                # pandas compares a Series to a list element by element
+                series = series.map(_as_cell)
             if (len(series) == 0) or (series == series.iloc[0]).all():
                 constant_indices.loc[ix] = True
     except TypeError:
-- 
2.43.0


From 0bcc32204dde9ca92c3b6c9342142d28795b811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:55 +0000
Subject: [PATCH 53/59] fix: a value missing from a nullable column does not
 count as the constant when missing values are kept

---
 dustgoggles/pivot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index ad6a3a7..8764be7 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -91,7 +91,9 @@ def extract_constants(
             if series.dtype == object:
                 # pandas compares a Series to a list element by element
                 series = series.map(_as_cell)
-            if (len(series) == 0) or (series == series.iloc[0]).all():
+            if (len(series) == 0) or (
+                (series == series.iloc[0]).fillna(False).all()
+            ):
                 constant_indices.loc[ix] = True
     except TypeError:
         # TODO: still necessary?
-- 
2.43.0


From d76de1fbd381a4c614e58f05521ae974472259a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 54/59] fix: same-named nullable columns with different values
 are not dropped as duplicates

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8764be7..4046de3 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -52,7 +52,8 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     for column in extra_columns:
         same_named = dataframe.loc[:, column]
         test_equality = same_named.eq(same_named.iloc[:, 0], axis=0)
-        if not test_equality.all(axis=None):
+        # comparisons with values missing from nullable columns are missing
+        if not test_equality.fillna(False).all(axis=None):
             raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
-- 
2.43.0


From 37400d30a164294b9a00adb63847fa59933c73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 55/59] fix: duplicating a block of rows keeps its columns'
 types and large integers

---
 dustgoggles/pivot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 4046de3..4c1948a 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -33,10 +33,8 @@ def dupe_df_block(dataframe: pd.DataFrame, repeats: int):
     """
     create a new dataframe by duplicating "dataframe" "repeats" times
     """
-    return pd.DataFrame(
-        np.repeat(dataframe.values, repeats, axis=0),
-        columns=dataframe.columns,
-    )
+    rows = np.repeat(np.arange(len(dataframe)), repeats)
+    return dataframe.iloc[rows].reset_index(drop=True)
 
 
 # TODO, maybe: allow this to work with columns that have collections
-- 
2.43.0


From b833be94b06fe642952596048e258d76423d5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 56/59] fix: dataframes whose columns are named can be smashed

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 4c1948a..09c64e5 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -315,7 +315,7 @@ def smash(df, by, values=None):
     by = listify(by)
     if values is not None:
         df = df.loc[df[by].isin(values).all(axis=1)]
-    df = df.melt(by)
+    df = df.melt(by, var_name="variable")
     names = reduce(
         lambda x, y: x + "_" + y,
         [v for _, v in df[by + ["variable"]].astype(str).items()],
-- 
2.43.0


From af53e4d905b0fce1970dab2cad4709236f69ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 57/59] fix: series of strings and other pandas types can be
 squeezed

---
 dustgoggles/pivot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 09c64e5..bad261c 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -12,7 +12,7 @@ from typing import Any, Optional, Union, Sequence, Literal
 from cytoolz import valfilter
 import numpy as np
 import pandas as pd
-from pandas.core.dtypes.common import is_numeric_dtype
+from pandas.core.dtypes.common import is_bool_dtype, is_numeric_dtype
 
 from dustgoggles.func import gmap
 
@@ -359,7 +359,7 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
     is not.
     """
     if aggfunc is None:
-        if series.dtype.char == "?":
+        if is_bool_dtype(series.dtype):
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-- 
2.43.0


From 4b43d23bcec812807d60e794240c2118c2e7f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:01 +0000
Subject: [PATCH 58/59] fix: squeezing aggregates by the labels themselves,
 also of a series named 'index' and of missing labels

---
 dustgoggles/pivot.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index bad261c..1e67906 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -363,14 +363,5 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-    df = pd.DataFrame(series).reset_index()
-    ixname = "index" if series.index.name is None else series.index.name
-    sname = 0 if series.name is None else series.name
-    squeezed = df.pivot_table(
-        values=series.name,
-        index=ixname,
-        aggfunc=aggfunc,
-    )[sname]
-    squeezed.index.name = series.index.name
-    squeezed.name = series.name
-    return squeezed
+    levels = list(range(series.index.nlevels))
+    return series.groupby(level=levels, dropna=False).agg(aggfunc)
-- 
2.43.0


From 2e0aac6b0591be1d153856e4fc68c06c31847958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 59/59] fix: dumping a missing key leaves an existing file as
 it was

---
 dustgoggles/codex/implements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 831dd66..21da2ec 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -816,9 +816,11 @@ class Notepad(AbstractNotepad):
     def dump(self, key, fn=None, mode="wb"):
         if fn is None:
             fn = f"{self.prefix}_{key}".replace(".", "_")
+        # a missing key must not cost an existing file its contents
+        raw = self.get_raw(key)
         with open(fn, mode) as file:
             # noinspection PyTypeChecker
-            file.write(self.get_raw(key))
+            file.write(raw)
 
     def close(self, dump=False):
         try:
-- 
2.43.0

