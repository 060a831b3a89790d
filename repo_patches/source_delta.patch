From fef623ecbe2e2beeec62b8f6fed9753ce52b01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 01/68] fix: fillna fills a copy instead of overwriting the
 source array's content

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..92fdf53 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -644,7 +644,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_fillna(cls, array, value):
         if isinstance(array, cls.numpy.ndarray):
-            data = cls.numpy.ma.getdata(array)
+            data = cls.numpy.array(cls.numpy.ma.getdata(array))
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
                 data[mask] = value
-- 
2.43.0


From be363e052618afa31c61f1e2d1d08fee16751123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 02/68] fix: Table fancy indexing no longer rewrites negative
 entries of the caller's index array

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..ff3f4cc 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -527,7 +527,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 length = self._length()
                 negative = (head < 0)
                 if negative.any():
-                    head[negative] += length
+                    head = self.numpy.where(negative, head + length, head)
                 if not self.numpy.bitwise_and(0 <= head, head < length).all():
                     raise IndexError("some indexes out of bounds for length {0}".format(length))
 
-- 
2.43.0


From 91f8e9a23c52cb79f99e911012d5fc3d3f09e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 03/68] fix: SparseArray fancy indexing no longer rewrites
 negative entries of the caller's index array

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..2db1272 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -604,7 +604,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
-                    head[mask] += self._length
+                    head = self.numpy.where(mask, head + self._length, head)
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
-- 
2.43.0


From a25d8b320a3ebd2f6ceafaf90cbfb6b51c243272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 04/68] fix: ChunkedArray.local2global no longer normalizes the
 caller's index array in place

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..588bc0a 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -188,7 +188,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             self._valid()
             original_index = index
             if index < 0:
-                index += self._chunksizes[chunkid]
+                index = index + self._chunksizes[chunkid]
             if not 0 <= index < self._chunksizes[chunkid]:
                 raise IndexError("local index {0} is out of bounds in chunk {1}, which has length {2}".format(original_index, chunkid, self._chunksizes[chunkid]))
             return self.offsets[chunkid] + index
-- 
2.43.0


From 5dcbc93d0ed1c867505849225d5cef15ce58b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 05/68] fix: assigning Table.contents no longer converts the
 values of the caller's dict in place

---
 awkward0/array/table.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index ff3f4cc..1f08456 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -413,9 +413,10 @@ class Table(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if not isinstance(value, dict) or not all(isinstance(n, awkward0.util.string) for n in value):
                 raise TypeError("contents must be a dict from strings to arrays")
-        for n in list(value):
-            value[n] = self._util_toarray(value[n], self.DEFAULTTYPE)
-        self._contents = value
+        contents = OrderedDict()
+        for n in value:
+            contents[n] = self._util_toarray(value[n], self.DEFAULTTYPE)
+        self._contents = contents
 
     def _getnbytes(self, seen):
         if id(self) in seen:
-- 
2.43.0


From c8bc43c88e9daf95bf250b39dd108710e952bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 06/68] fix: JaggedArray.zip no longer replaces the arrays in
 the caller's dict

---
 awkward0/array/jagged.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..7b6aebd 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1760,7 +1760,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
-            for n in columns1:
+            columns1 = columns1.copy()
+            for n in list(columns1):
                 x = columns1[n]
                 if isinstance(x, JaggedArray):
                     if first is None:
-- 
2.43.0


From 1d4fea0a412fc656af17b1f975a9e04dd48bb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 07/68] fix: StringArray.pad passes the axis its padding helper
 requires

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..89bd2f7 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -667,7 +667,7 @@ class StringArray(StringMethods, ObjectArray):
             maskedwhen = ord(maskedwhen)
         import awkward0.array.jagged
         import awkward0.array.masked
-        padded = self._util_pad(self._content, length, True, clip)
+        padded = self._util_pad(self._content, length, True, clip, axis)
         assert isinstance(padded, awkward0.array.jagged.JaggedArray)
         assert isinstance(padded.content, awkward0.array.masked.MaskedArray)
         if padded.content.content is self._content.content:
-- 
2.43.0


From 74e9139f55781551d1334c1560fc3c6007294287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 08/68] fix: ChunkedArray.local2global maps arrays of indexes
 through each chunk's offset without touching its argument

---
 awkward0/array/chunked.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 588bc0a..7147701 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -202,12 +202,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
-                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
-- 
2.43.0


From dcd94c7ee2423a46e2cf13991eb27349d6c3491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 09/68] fix: a function specification shorter than a whitelist
 pattern does not match it

---
 awkward0/persist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..00f4cad 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -63,6 +63,8 @@ def topython(string):
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
+        if len(obj) < len(white):
+            continue
         for n, p in zip(obj, white):
             if not fnmatch.fnmatchcase(n, p):
                 break
-- 
2.43.0


From 65b26d1fa97dc3b626b0e898d2a29ba0f4620603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 10/68] fix: unpickling while reading stored arrays needs
 topython in the whitelist, and the default whitelist does not have it

---
 awkward0/array/base.py | 4 ++--
 awkward0/persist.py    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 92fdf53..8564a5c 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -78,14 +78,14 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         return state
 
     def __setstate__(self, state):
-        out = awkward0.persist.deserialize(state)
+        out = awkward0.persist.deserialize(state, whitelist=awkward0.persist.whitelist + [["awkward0.persist", "topython"]])
         self.__dict__.update(out.__dict__)
         self.__class__ = out.__class__
 
     def __reduce__(self):
         state = {}
         awkward0.persist.serialize(self, state)
-        return (awkward0.persist.deserialize, (state,))
+        return (awkward0.persist.deserialize, (state, "", awkward0.persist.whitelist + [["awkward0.persist", "topython"]]))
 
     def _checkiter(self):
         if not self.allow_iter:
diff --git a/awkward0/persist.py b/awkward0/persist.py
index 00f4cad..f75a113 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -37,13 +37,13 @@ whitelist = [
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
         ["awkward0.util", "frombuffer"],
-        ["awkward0.persist"],
+        ["awkward0.persist", "json2type"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
         ["awkward", "*Array"],
         ["awkward", "Table"],
         ["awkward", "numpy", "frombuffer"],
         ["awkward.util", "frombuffer"],
-        ["awkward.persist"],
+        ["awkward.persist", "json2type"],
         ["awkward.arrow", "_ParquetFile", "fromjson"],
         ["uproot3_methods.classes.*"],
         ["uproot3_methods.profiles.*"],
@@ -569,7 +569,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                out = spec2function(["awkward0.persist", "topython"], whitelist=whitelist)(schema["python"])
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
-- 
2.43.0


From c32e10a8f3a402e82183cdbb80d1886331a34f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 11/68] fix: stored data cannot replace the reader's whitelist

---
 awkward0/persist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index f75a113..b0a990b 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -532,12 +532,12 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 args = [unfill(x) for x in schema.get("args", [])]
 
                 kwargs = {}
+                if "kwargs" in schema:
+                    kwargs.update({n: unfill(x) for n, x in schema["kwargs"].items()})
                 if schema.get("cacheable", False):
                     kwargs["cache"] = cache
-                if schema.get("whitelistable", False):
+                if schema.get("whitelistable", False) or gen is json2type:
                     kwargs["whitelist"] = whitelist
-                if "kwargs" in schema:
-                    kwargs.update({n: unfill(x) for n, x in schema["kwargs"].items()})
 
                 out = gen(*args, **kwargs)
 
-- 
2.43.0


From 8023124ab2ae5bf7a963ee71302b3d106bdee085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 12/68] fix: pandas delegated methods look up the name of the
 object they are given

---
 awkward0/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/pandas.py b/awkward0/pandas.py
index c208f32..6215a8a 100644
--- a/awkward0/pandas.py
+++ b/awkward0/pandas.py
@@ -28,7 +28,7 @@ class DelegatedProperty(Delegated):
 class DelegatedMethod(Delegated):
     def __get__(self, obj, type=None):
         index = object.__getattribute__(obj, "_index")
-        name = object.__getattribute__(bj, "_name")
+        name = object.__getattribute__(obj, "_name")
         method = getattr(object.__getattribute__(obj, "_data"), self.name)
         return delegated_method(method, index, name)
 
-- 
2.43.0


From a2bf50ca6dcee111f1c5a4f1b9e4bf780a73dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 13/68] fix: MaskedArray and IndexedMaskedArray argmin/argmax
 of flat content

---
 awkward0/array/masked.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..27aeb8b 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -388,15 +388,15 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked()].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            index = self._content[self.isunmasked].argmin()
+            return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked()].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            index = self._content[self.isunmasked].argmax()
+            return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
@@ -897,15 +897,15 @@ class IndexedMaskedArray(MaskedArray):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            index = self._content[self._mask[self.isunmasked]].argmin()
+            return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            index = self._content[self._mask[self.isunmasked]].argmax()
+            return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
-- 
2.43.0


From 9cc03ea5f9e5771886848956cc94953f98cbdb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 14/68] fix: IndexedMaskedArray counts, regular and concatenate
 use the mask-index

---
 awkward0/array/masked.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 27aeb8b..273aaed 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -833,8 +833,10 @@ class IndexedMaskedArray(MaskedArray):
     @property
     def counts(self):
         self._valid()
-        out = self._util_counts(self._content)[self._index]
-        out[self.boolmask(maskedwhen=True)] = -1
+        content = self._util_counts(self._content)
+        good = self.boolmask(maskedwhen=False)
+        out = self.numpy.full(len(self), -1, dtype=content.dtype)
+        out[good] = content[self._mask[good]]
         return out
 
     def flatten(self, axis=0):
@@ -853,8 +855,10 @@ class IndexedMaskedArray(MaskedArray):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)[self._index]
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        content = self._util_regular(self._content)
+        good = self.boolmask(maskedwhen=False)
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=self.numpy.float64)
+        out[good] = content[self._mask[good]]
         return out
 
     def indexed(self):
@@ -926,12 +930,13 @@ class IndexedMaskedArray(MaskedArray):
         indexes = []
         offset = 0
         for x in arrays:
-            tmp = x._index.copy()
-            tmp[tmp >= 0] += offset
+            good = x.boolmask(maskedwhen=False)
+            tmp = cls.numpy.full(len(x._mask), -1, dtype=cls.INDEXTYPE)
+            tmp[good] = x._mask[good] + offset
             indexes.append(tmp)
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
         content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0)
 
-        return cls(index, content, maskedwhen=maskedwhen)
+        return cls(index, content)
-- 
2.43.0


From d10666a33e91002883e7465af77502df180b12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 15/68] fix: SparseArray.flatten and pad act on the dense array

---
 awkward0/array/indexed.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 2db1272..06da1e0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -718,15 +718,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         self._valid()
-        out = self._util_flatten(self._content, axis)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_flatten(self.dense, axis)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
+        return self._util_pad(self.dense, length, maskedwhen, clip, axis)
 
     def regular(self):
         self._valid()
-- 
2.43.0


From e88038efe3f34254d6fe155bf3b69aa3a680c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 16/68] fix: SparseArray empty_like, zeros_like and ones_like
 pass length and default by name

---
 awkward0/array/indexed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 06da1e0..7a87f89 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -354,8 +354,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def empty_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.empty_like(self._content), **mine)
         else:
@@ -363,8 +363,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def zeros_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.zeros_like(self._content), **mine)
         else:
@@ -372,8 +372,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def ones_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.ones_like(self._content), **mine)
         else:
-- 
2.43.0


From 34ca2cfb3cab19e2a33750e55b403806d0ac39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 17/68] fix: Table.Row string-list and tuple selection, and
 dir() of a Row

---
 awkward0/array/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 1f08456..37d0962 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import keyword
 import numbers
 import re
 import types
@@ -80,7 +81,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 except KeyError:
                     raise ValueError("no column named {0}".format(repr(where)))
 
-            elif self._util_isstringslice(where):
+            elif self._table._util_isstringslice(where):
                 contents = OrderedDict()
                 for n in where:
                     try:
@@ -96,7 +97,7 @@ class Table(awkward0.array.base.AwkwardArray):
                     index = (index,)
                 if not isinstance(where, tuple):
                     where = (where,)
-                return self._table.Row(table, index + where)
+                return self._table.Row(self._table, index + where)
 
         def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
             if "out" in kwargs:
-- 
2.43.0


From 8519be7f1c667217b7f5bc346f7e8c2b1c8d6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 18/68] fix: Table.regular iterates over the columns under the
 table's view

---
 awkward0/array/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 37d0962..dc5197f 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -784,7 +784,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        pairs = [(n, self._util_regular(x)) for n, x in self.items()]
+        index = self._index()
+        pairs = [(n, self._util_regular(x[index])) for n, x in self._contents.items()]
         out = self.numpy.empty(len(self), [(n, x.dtype, x.shape[1:]) for n, x in pairs])
         for n, x in pairs:
             out[n] = x
-- 
2.43.0


From 888b59e9c75dc686d1d3c0820690b19fb537cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 19/68] fix: ChunkedArray.deepcopy copies each chunk

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 7147701..85522d9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -31,7 +31,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From a1257e2e5319f8237851b5935e28ede87bbd0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 20/68] fix: AppendableArray.copy accepts chunksizes and keeps
 those of the chunks it is given

---
 awkward0/array/chunked.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 85522d9..a6c734d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -41,19 +41,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
@@ -821,19 +821,21 @@ class AppendableArray(ChunkedArray):
         self.dtype = dtype
         self.chunks = chunks
 
-    def copy(self, chunkshape=None, dtype=None, chunks=None):
+    def copy(self, chunkshape=None, dtype=None, chunks=None, chunksizes=None):
         out = self.__class__.__new__(self.__class__)
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
         out._chunks = list(self._chunks)
+        out._chunksizes = list(self._chunksizes)
+        out._types = list(self._types)
         if chunkshape is not None:
             out._chunkshape = chunkshape
         if dtype is not None:
             out._dtype = dtype
         if chunks is not None:
             out.chunks = chunks
-        out._chunksizes = list(self._chunksizes)
-        out._types = list(self._types)
+        if chunksizes is not None:
+            out._chunksizes = list(chunksizes)
         return out
 
     def _mine(self, overrides):
@@ -979,10 +981,10 @@ class AppendableArray(ChunkedArray):
         chunks = []
         for chunk in self._chunks:
             chunks.append(chunk.astype(dtype))
-        return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks)
+        return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks, chunksizes=self._chunksizes)
 
     def fillna(self, value):
         chunks = []
         for chunk in self._chunks:
             chunks.append(self._util_fillna(chunk, value))
-        return self.copy(chunks=chunks)
+        return self.copy(chunks=chunks, chunksizes=self._chunksizes)
-- 
2.43.0


From fbb1355d3e3c77df841f79f850518837636bc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 21/68] fix: topandas of a VirtualArray passes the memo its
 array's conversion requires

---
 awkward0/array/virtual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..8b013f1 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -499,7 +499,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @staticmethod
     def _topandas_doit(virtualarray):
-        return virtualarray.array._topandas()
+        array = virtualarray.array
+        if isinstance(array, awkward0.array.base.AwkwardArray):
+            return array._topandas({})
+        else:
+            return array
 
     _topandas_name = "VirtualSeries"
 
-- 
2.43.0


From 39353650d228129d8905eee0161724b9db5b2bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 22/68] fix: weighted var and std assign their denominator

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 8564a5c..5b53f7d 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -235,7 +235,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 one = self.numpy.true_divide(self.sum(), denom)
                 two = self.numpy.true_divide((self**2).sum(), denom)
             else:
-                denom (self * 0 + weight).sum()
+                denom = (self * 0 + weight).sum()
                 one = self.numpy.true_divide((self * weight).sum(), denom)
                 two = self.numpy.true_divide(((self * weight)**2).sum(), denom)
             if ddof != 0:
-- 
2.43.0


From 182a3e28ba29ab86f14fd2b51798d831317f7622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 23/68] fix: out-of-range SparseArray index raises IndexError

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 7a87f89..38a2a17 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -527,7 +527,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if head < 0:
                 head += self._length
             if not 0 <= head < self._length:
-                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, length))
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, self._length))
 
             match = self.numpy.searchsorted(self._index, head, side="left")
 
-- 
2.43.0


From 058a82632819d3f9c62ca4b90a61f826ef030dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 24/68] fix: SparseArray.deepcopy copies an array default

---
 awkward0/array/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 38a2a17..af9a50b 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -350,6 +350,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         out._index = self._util_deepcopy(out._index)
         out._content = self._util_deepcopy(out._content)
         out._inverse = self._util_deepcopy(out._inverse)
+        if isinstance(out._default, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            out._default = self._util_deepcopy(out._default)
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From c2a9721df6151dfea3977e476411a8fed8cc1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 25/68] fix: StringArray.deepcopy does not share the cached
 offsets

---
 awkward0/array/objects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 89bd2f7..a2b2f9f 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -504,9 +504,7 @@ class StringArray(StringMethods, ObjectArray):
 
     def deepcopy(self, starts=None, stops=None, content=None, encoding=None):
         out = self.copy(starts=starts, stops=stops, content=content, encoding=encoding)
-        out._content._starts = self._util_deepcopy(out._content._starts)
-        out._content._stops = self._util_deepcopy(out._content._stops)
-        out._content._content = self._util_deepcopy(out._content._content)
+        out._content = self._util_deepcopy(out._content)
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From a9acb53ddfb70e410f2d6a13e9c3bdaf7971c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 26/68] fix: JaggedArray.parents assignment requires a new
 validity check

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7b6aebd..4607ca4 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -426,6 +426,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts, self._stops = self.parents2startsstops(value)
         self._offsets, self._counts = None, None
         self._parents = value
+        self._isvalid = False
 
     @property
     def localindex(self):
-- 
2.43.0


From 286be07458b5fb1b3b2ad07cd1dc35bd316175d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 27/68] fix: IndexedMaskedArray.copy assigns through the
 properties; maskedwhen requires a new validity check

---
 awkward0/array/masked.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 273aaed..2d8f591 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -700,11 +700,11 @@ class IndexedMaskedArray(MaskedArray):
         out._maskedwhen = self._maskedwhen
         out._isvalid = self._isvalid
         if mask is not None:
-            out._mask = mask
+            out.mask = mask
         if content is not None:
-            out._content = content
+            out.content = content
         if maskedwhen is not None:
-            out._maskedwhen = maskedwhen
+            out.maskedwhen = maskedwhen
         return out
 
     def __awkward_serialize__(self, serializer):
@@ -750,6 +750,7 @@ class IndexedMaskedArray(MaskedArray):
             if not self._util_isinteger(value):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
+        self._isvalid = False
 
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
-- 
2.43.0


From 2b10e28882356f654bc1afb3e5b8eef643f6cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 28/68] fix: SparseArray.length assignment discards the cached
 inverse and validity

---
 awkward0/array/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index af9a50b..cdde982 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -403,6 +403,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if value < 0:
                 raise ValueError("length must be a non-negative integer")
         self._length = value
+        self._inverse = None
+        self._isvalid = False
 
     @property
     def index(self):
-- 
2.43.0


From 84bc7d401c2b7f75eea5da57aafb64192e3b672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 29/68] fix: ChunkedArray forgets offsets and types that no
 longer apply; AppendableArray copies do not share a growing chunk

---
 awkward0/array/chunked.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index a6c734d..545f093 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -81,6 +81,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise TypeError("chunks must be iterable")
         self._chunks = [self._util_toarray(x, self.DEFAULTTYPE) for x in value]
         self._types = [None] * len(self._chunks)
+        self._offsets = None
 
     @property
     def chunksizes(self):
@@ -518,6 +519,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     del chunk[x]
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
+        self._types = [None] * len(self._chunks)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
@@ -829,13 +831,15 @@ class AppendableArray(ChunkedArray):
         out._chunksizes = list(self._chunksizes)
         out._types = list(self._types)
         if chunkshape is not None:
-            out._chunkshape = chunkshape
+            out.chunkshape = chunkshape
         if dtype is not None:
-            out._dtype = dtype
+            out.dtype = dtype
         if chunks is not None:
             out.chunks = chunks
         if chunksizes is not None:
             out._chunksizes = list(chunksizes)
+        if chunks is None and len(out._chunks) > 0 and out._chunksizes[-1] < len(out._chunks[-1]):
+            out._chunks[-1] = self._util_deepcopy(out._chunks[-1])     # append and extend write into its unused part
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From 656981674f1b6534398e8cd405a37717ea6c7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 30/68] fix: VirtualArray copies, reassignment and column
 bookkeeping do not use another array's materialization

---
 awkward0/array/virtual.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 8b013f1..d9756d7 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -55,7 +55,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         out._type = self._type
         out._nbytes = self._nbytes
         out._persistvirtual = self._persistvirtual
-        out._array = self._array
+        # a TransientKey identifies only the object that made it
+        out._array = None if isinstance(self._array, VirtualArray.TransientKey) else self._array
         if self._setitem is None:
             out._setitem = None
         else:
@@ -84,7 +85,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        out._array = self._util_deepcopy(out.array) if out._cache is None and out.ismaterialized else None
         if out._setitem is not None:
             for n in list(out._setitem):
                 out._setitem[n] = self._util_deepcopy(out._setitem[n])
@@ -153,7 +154,16 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             if not callable(value):
                 raise TypeError("generator must be a callable")
         self._generator = value
+        self._forget()
 
+    def _forget(self):
+        # the materialized array was made by another generator, args, or kwargs
+        if isinstance(self.__dict__.get("_array"), VirtualArray.TransientKey) and self._cache is not None:
+            try:
+                del self._cache[self._array]
+            except KeyError:
+                pass
+        self._array = None
 
     @property
     def args(self):
@@ -164,6 +174,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if not isinstance(value, tuple):
             value = (value,)
         self._args = value
+        self._forget()
 
     @property
     def kwargs(self):
@@ -175,6 +186,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             if not isinstance(value, dict):
                 raise TypeError("kwargs must be a dict")
         self._kwargs = dict(value)
+        self._forget()
 
     @property
     def cache(self):
@@ -261,7 +273,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     raise TypeError("nbytes must be an integer or None")
                 if value < 0:
                     raise ValueError("nbytes must be a non-negative integer or None")
-            self._nbytes = value
+        self._nbytes = value
 
     def __len__(self):
         return self.shape[0]
@@ -375,13 +387,15 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if self._setitem is None:
             self._setitem = OrderedDict()
         self._setitem[where] = what
+        if self._delitem is not None and where in self._delitem:
+            self._delitem.remove(where)
 
     def __delitem__(self, where):
         del self.array[where]
         if self._type is not None:
             self._type = awkward0.type.fromarray(self.array)
         if self._setitem is not None and where in self._setitem:
-            del self._setitem
+            del self._setitem[where]
         if self._delitem is None:
             self._delitem = []
         if where not in self._delitem:
-- 
2.43.0


From 38b5bb3319a18f15ae5c2e90510aebd4b502c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:30 +0000
Subject: [PATCH 31/68] fix: AppendableArray.chunkshape assignment does not
 depend on validation; ChunkedArray.deepcopy does not share the cached offsets

---
 awkward0/array/chunked.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 545f093..7083d56 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -32,6 +32,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
         out._chunks = [self._util_deepcopy(x) for x in out._chunks]
+        out._offsets = None
         return out
 
     def _mine(self, overrides):
@@ -885,7 +886,7 @@ class AppendableArray(ChunkedArray):
                     raise TypeError("chunkshape must be a positive integer or a tuple of integers")
                 except AssertionError:
                     raise ValueError("chunkshape must be a positive integer or tuple of positive integers")
-                self._chunkshape = tuple(value)
+            self._chunkshape = tuple(value)
 
     @property
     def dtype(self):
-- 
2.43.0


From 40c7fd73027306dbe3694d389a9d900d45b7831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 32/68] fix: Table.copy converts the contents it is given as
 assigning contents does

---
 awkward0/array/table.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index dc5197f..9e9d194 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -326,13 +326,9 @@ class Table(awkward0.array.base.AwkwardArray):
         out._base = self._base
         out._rowstart = self._rowstart
         out._rowname = self._rowname
-        out._contents = self._contents
-        if contents is not None and isinstance(contents, dict):
-            out._contents = OrderedDict(contents.items())
-        elif contents is not None:
-            out._contents = OrderedDict(contents)
-        else:
-            out._contents = OrderedDict(self._contents.items())
+        out._contents = OrderedDict(self._contents.items())
+        if contents is not None:
+            out.contents = OrderedDict(contents)
         return out
 
     def deepcopy(self, contents=None):
-- 
2.43.0


From 0f2075e4a93c668d2f140912fee183f4ddde33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 33/68] fix: whole-array validation rejects indexes at the
 content length, short bit masks, short union indexes and non-integer or
 negative tags

---
 awkward0/array/indexed.py |  4 ++--
 awkward0/array/masked.py  | 12 ++++++++----
 awkward0/array/union.py   | 19 +++++++++----------
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index cdde982..023e691 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -126,8 +126,8 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._index) != 0 and self._index.reshape(-1).max() > len(self._content):
-                    raise ValueError("maximum index ({0}) is beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
+                if len(self._index) != 0 and self._index.reshape(-1).max() >= len(self._content):
+                    raise ValueError("maximum index ({0}) is at or beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
 
                 self._isvalid = True
 
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 2d8f591..53671ae 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -552,6 +552,9 @@ class BitMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
+                if len(self._mask) < self._ceildiv8(len(self._content)):
+                    raise ValueError("mask has {0} bits but the content has length {1}".format(8*len(self._mask), len(self._content)))
+
                 self._isvalid = True
 
     def __iter__(self, checkiter=True):
@@ -770,10 +773,11 @@ class IndexedMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._mask) != 0:
-                    if self._mask.max() > len(self._content):
-                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
-                    if (self._mask[self._mask != self._maskedwhen] < 0).any():
+                index = self._mask[self._mask != self._maskedwhen]
+                if len(index) != 0:
+                    if index.max() >= len(self._content):
+                        raise ValueError("maximum mask-index ({0}) is at or beyond the length of the content ({1})".format(index.max(), len(self._content)))
+                    if (index < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
 
                 self._isvalid = True
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..a9f7544 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -103,6 +103,13 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @tags.setter
     def tags(self, value):
         value = self._util_toarray(value, self.TAGTYPE, self.numpy.ndarray)
+        if self.check_prop_valid:
+            if len(value) == 0:
+                raise ValueError("tags must be non-empty")
+            if not self._util_isintegertype(value.dtype.type):
+                raise TypeError("tags must have integer dtype")
+            if (value < 0).any():
+                raise ValueError("tags must be a non-negative array")
         tagsmax = value.max()
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
@@ -116,14 +123,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             value = value.astype(self.numpy.uint64)
         else:
             raise ValueError("maximum tag must be at most {0}".format(self.numpy.iinfo(self.numpy.uint64).max))
-
-        if self.check_prop_valid:
-            if len(value) == 0:
-                raise ValueError("tags must be non-empty")
-            if not self._util_isintegertype(value.dtype.type):
-                raise TypeError("tags must have integer dtype")
-            if (value < 0).any():
-                raise ValueError("tags must be a non-negative array")
         self._tags = value
         self._isvalid = False
 
@@ -258,8 +257,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._tags.shape) > len(self._index.shape):
-                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags.shape), len(self._index.shape)))
+                if len(self._tags) > len(self._index):
+                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags), len(self._index)))
 
                 if self._tags.shape[1:] != self._index.shape[1:]:
                     raise ValueError("tags dimensionality ({0}) must be equal to index dimensionality ({1})".format(self._tags.shape[1:], self._index.shape[1:]))
-- 
2.43.0


From 0f4de784f65ee45d59afbd97d0f92ac33dad2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 34/68] fix: pad, _tojagged, argmin/argmax and reductions check
 validity before using starts, stops, index or tags; JaggedArray concatenation
 ignores surplus stops

---
 awkward0/array/indexed.py | 4 ++++
 awkward0/array/jagged.py  | 6 +++++-
 awkward0/array/union.py   | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 023e691..46d204b 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -248,6 +248,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self._util_flatten(self._content[self._index], axis)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
+        self._valid()
         return self._util_pad(self._content[self._index], length, maskedwhen, clip, axis)
 
     def regular(self):
@@ -275,15 +276,18 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
+        self._valid()
         if isinstance(self._content, self.numpy.ndarray):
             return self._content[self._index]
         else:
             return self._content._prepare(ufunc, identity, dtype)[self._index]
 
     def argmin(self):
+        self._valid()
         return self._content[self._index].argmin()
 
     def argmax(self):
+        self._valid()
         return self._content[self._index].argmax()
 
     @classmethod
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 4607ca4..53be7d6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -882,6 +882,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.tojagged(self.numpy.array([data]))
 
     def _tojagged(self, starts=None, stops=None, copy=True):
+        self._valid()
+
         if starts is None and stops is None:
             if copy:
                 starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self._stops)
@@ -1634,7 +1636,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
+        stops = cls.numpy.concatenate([x._stops[:len(x._starts)] for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
@@ -1854,6 +1856,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if not self._util_isinteger(axis) or axis < 0:
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
+        self._valid()
+
         if axis > 0:
             return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
 
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index a9f7544..172ad04 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -500,6 +500,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
+        self._valid()
+
         if dtype is None and issubclass(self.dtype.type, (self.numpy.bool_, self.numpy.bool)):
             dtype = self.numpy.dtype(type(identity))
         if dtype is None:
-- 
2.43.0


From dfee941822054cf279fabaaaf5dd79258d0770f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 35/68] fix: masked arrays use content only up to the mask's
 length, their own maskedwhen and in-range bit positions in every operation

---
 awkward0/array/masked.py | 55 +++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 53671ae..9dfebbf 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -226,7 +226,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
-                inputs[i] = inputs[i]._content[tokeep]
+                inputs[i] = inputs[i]._content[:len(tokeep)][tokeep]
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
             else:
@@ -255,7 +255,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     @property
     def counts(self):
         self._valid()
-        content = self._util_counts(self._content)
+        content = self._util_counts(self._content[:len(self)])
         out = self.numpy.full(self.shape, -1, dtype=content.dtype)
         mask = self.boolmask(maskedwhen=False)
         out[mask] = content[mask]
@@ -290,7 +290,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[mask]
+        goodcontent = self._content[:len(mask)][mask]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -307,7 +307,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)
+        out = self._util_regular(self._content[:len(self)]).astype(self.numpy.float64)
         out[self.boolmask(maskedwhen=True)] = float("nan")
         return out
 
@@ -360,8 +360,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             content = self._content._prepare(ufunc, identity, dtype)
 
-        if content is self._content or not content.flags.owndata:
-            content = content.copy()
+        content = content[:len(self)].copy()
 
         if ufunc is None:
             content[self.ismasked] = self.numpy.nan
@@ -388,18 +387,18 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked].argmin()
+            index = self._content[:len(self)][self.isunmasked].argmin()
             return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked].argmax()
+            index = self._content[:len(self)][self.isunmasked].argmax()
             return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def fillna(self, value):
-        out = self._util_fillna(self._content, value)
+        out = self._util_fillna(self._content[:len(self)], value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         out[self.boolmask(maskedwhen=True)] = value
@@ -409,7 +408,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
         mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
+        content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x)] for x in arrays])
         return cls(mask, content, maskedwhen=True)
 
     _topandas_name = "MaskedSeries"
@@ -441,7 +440,7 @@ class BitMaskedArray(MaskedArray):
         if maskedwhen:
             mask = cls.numpy.zeros(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
         else:
-            mask = cls.numpy.ones(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
+            mask = cls.numpy.full(cls._ceildiv8(len(content)), 255, dtype=cls.BITMASKTYPE)
         return cls(mask, content, maskedwhen=maskedwhen, lsborder=lsborder)
 
     @classmethod
@@ -616,7 +615,9 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
-            bytepos, bitmask = self._maskat(where)
+            if not -len(self) <= where < len(self):
+                raise IndexError("index {0} is out of bounds for size {1}".format(where, len(self)))
+            bytepos, bitmask = self._maskat(where + len(self) if where < 0 else where)
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
         elif isinstance(where, slice):
@@ -626,7 +627,7 @@ class BitMaskedArray(MaskedArray):
         else:
             where = self.numpy.array(where, copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
-                byteposes, bitmasks = self._maskat(where)
+                byteposes, bitmasks = self._maskat(self.numpy.where(where < 0, where + len(self), where))
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
 
@@ -846,7 +847,7 @@ class IndexedMaskedArray(MaskedArray):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[self._mask[self._mask >= 0]]
+        goodcontent = self._content[self._mask[mask]]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -879,14 +880,26 @@ class IndexedMaskedArray(MaskedArray):
         if isinstance(self._content, self.numpy.ndarray):
             if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
+            if ufunc is None:
+                content = self.numpy.zeros(self._content.shape, dtype=self.numpy.float32)
+                content[self.numpy.isnan(self._content)] = self.numpy.nan
+            elif ufunc is self.numpy.count_nonzero:
+                content = self.numpy.ones(self._content.shape, dtype=self.numpy.int8)
+                content[self.numpy.isnan(self._content)] = 0
+                content[self._content == 0] = 0
+            elif dtype is None:
                 content = self._content
             else:
                 content = self._content.astype(dtype)
         else:
             content = self._content._prepare(ufunc, identity, dtype)
 
-        if identity == self.numpy.inf:
+        dtype = content.dtype
+
+        if ufunc is None:
+            identity = self.numpy.nan
+
+        elif identity == self.numpy.inf:
             if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 identity = True
             elif self._util_isintegertype(dtype.type):
@@ -899,7 +912,8 @@ class IndexedMaskedArray(MaskedArray):
                 identity = self.numpy.iinfo(dtype.type).min
 
         out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
-        out[self.isunmasked] = content[self.mask[self.mask >= 0]]
+        isunmasked = self.isunmasked
+        out[isunmasked] = content[self._mask[isunmasked]]
         return out
 
     def argmin(self):
@@ -921,12 +935,7 @@ class IndexedMaskedArray(MaskedArray):
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         out = self.numpy.append(out, value)
-        if (self.mask < -1).any():
-            mask = self.mask.copy()
-            mask[mask < -1] = -1
-        else:
-            mask = self.mask
-        return out[mask]
+        return out[self.numpy.where(self.boolmask(maskedwhen=True), -1, self._mask)]
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-- 
2.43.0


From a57d2f88c84960a564c21a9596756a96dc8e37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:21 +0000
Subject: [PATCH 36/68] fix: concatenate dispatches on the class that
 implements it and rejects invalid arrays

---
 awkward0/array/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 5b53f7d..79cde86 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -577,11 +577,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             arrays = (self,) + tuple(arrays)
 
         def resolve(t):
-            for b in t.__bases__:
-                if issubclass(t, AwkwardArray):
-                    return resolve(b)
-            else:
-                return t
+            for b in t.__mro__:
+                if "_concatenate_axis0" in b.__dict__:
+                    return b
+            return t
 
         if all(type(x) == cls.numpy.ndarray for x in arrays):
             return cls.numpy.concatenate(arrays, axis=axis)
@@ -594,7 +593,8 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 raise NotImplementedError("axis > 0 for different types")
 
         for x in arrays:
-            x.valid()
+            if isinstance(x, AwkwardArray):
+                x.valid(exception=True)
 
         if axis == 0:
             return type(arrays[0])._concatenate_axis0(arrays)
-- 
2.43.0


From c94e64e3823ded9b0e897013c10654f2337ab389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 37/68] fix: JaggedArray with stops longer than starts uses
 only the stops that belong to starts

---
 awkward0/array/jagged.py | 66 ++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 53be7d6..04ba73d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -291,7 +291,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
@@ -355,11 +355,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -412,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
@@ -480,15 +480,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                nonempty = (self._starts != self.stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = self.stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
-                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
+                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.max(), len(self._content)))
 
             self._isvalid = True
 
@@ -569,9 +569,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
+                    thyself._stops.shape = self._starts.shape
 
-                head = head._tojagged(thyself._starts, thyself._stops, copy=False)
+                head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
                 intheadsum = inthead.sum()
 
@@ -599,7 +599,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self.stops[head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
@@ -850,7 +850,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             tmp = self.compact()
             tmpparents = self.offsets2parents(tmp.offsets)
 
-            index = self.JaggedArray(tmp._starts, tmp._stops, (self.numpy.arange(tmp._stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
+            index = self.JaggedArray(tmp._starts, tmp.stops, (self.numpy.arange(tmp.stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
 
             data = data.compact()
             return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
@@ -886,9 +886,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if starts is None and stops is None:
             if copy:
-                starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self._stops)
+                starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self.stops)
             else:
-                starts, stops = self._starts, self._stops
+                starts, stops = self._starts, self.stops
 
         elif stops is None:
             starts = self._util_toarray(starts, self.INDEXTYPE)
@@ -992,7 +992,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         for jaggedarray in inputs:
             if isinstance(jaggedarray, JaggedArray):
-                starts, stops, parents, good = jaggedarray._starts, jaggedarray._stops, None, None
+                starts, stops, parents, good = jaggedarray._starts, jaggedarray.stops, None, None
                 break
         else:
             assert False
@@ -1062,7 +1062,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1422,13 +1422,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
@@ -1449,9 +1449,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
             offsets = self.numpy.arange(0, (length + 1)*last, last)
             outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            outerstops = offsets[1:].reshape(out._starts.shape[:-2] + (-1,))
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
@@ -1506,7 +1506,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if len(thyself._starts.shape) > 1:
             thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself._stops.reshape(-1)
+            thyself._stops = thyself.stops.reshape(-1)
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
@@ -1582,7 +1582,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self._argminmax(False)
 
     def _argminmax(self, ismin):
-        if len(self._starts) == len(self._stops) == 0:
+        if len(self._starts) == 0:
             return self.copy(content=self.numpy.array([], dtype=self.INDEXTYPE))
 
         if len(self._content.shape) != 1:
@@ -1749,14 +1749,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         first = None
         def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
+            starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)
             if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
                 return x
             else:
                 offsets = x.counts2offsets(stops - starts)
                 starts, stops = offsets[:-1], offsets[1:]
                 starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._stops.shape[1:])
+                stops = stops.reshape((-1,) + x._starts.shape[1:])
                 return x._tojagged(starts, stops, copy=False)
 
         if isinstance(columns1, JaggedArray):
@@ -1770,7 +1770,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if first is None:
                         columns1[n] = first = ready(x)
                     else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
+                        columns1[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
@@ -1779,7 +1779,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns2[i] = first = ready(x)
                 else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
             x = columns3[n]
@@ -1787,7 +1787,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns3[n] = first = ready(x)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns3[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
@@ -1807,13 +1807,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1824,7 +1824,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1835,7 +1835,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1844,13 +1844,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 table = cls.Table.fget(None)(columns1, *columns2, **columns3)
             else:
                 table = cls.Table.fget(None).named("tuple", columns1, *columns2)
-            return cls.JaggedArray.fget(None)(first._starts, first._stops, table)
+            return cls.JaggedArray.fget(None)(first._starts, first.stops, table)
         else:
             if isinstance(columns1, dict) or len(columns3) > 0:
                 table = first.Table(columns1, *columns2, **columns3)
             else:
                 table = first.Table.named("tuple", columns1, *columns2)
-            return first.JaggedArray(first._starts, first._stops, table)
+            return first.JaggedArray(first._starts, first.stops, table)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From 4982fe459e21bad2f4aa93b8a212382c2cb79c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 38/68] fix: JaggedArray flatten(axis=1), pad(axis>0), tojagged
 and doubly jagged selection respect sliced and reordered arrays; _valid does
 not mark unchecked arrays as valid

---
 awkward0/array/jagged.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 04ba73d..fa53fd3 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -490,7 +490,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
                         raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.max(), len(self._content)))
 
-            self._isvalid = True
+            if self.check_whole_valid:
+                self._isvalid = True
 
     @classmethod
     def _validstartsstops(cls, starts, stops):
@@ -537,7 +538,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             head = head[0]
 
             if isinstance(self._content, JaggedArray) and isinstance(head._content, JaggedArray):
-                return self.copy(content=self._content[head._content])
+                if not self.numpy.array_equal(self.counts, head.counts):
+                    raise ValueError("jagged array used as index has different counts from the jagged array it is selecting from")
+                offsets = self.counts2offsets(self.counts.reshape(-1))
+                return self.copy(starts=offsets[:-1].reshape(self._starts.shape), stops=offsets[1:].reshape(self._starts.shape), content=self.flatten()[head.flatten()])
 
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
@@ -847,13 +851,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self._starts) == 0:
                 return self.copy(content=data._content)
 
-            tmp = self.compact()
-            tmpparents = self.offsets2parents(tmp.offsets)
-
-            index = self.JaggedArray(tmp._starts, tmp.stops, (self.numpy.arange(tmp.stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
-
-            data = data.compact()
-            return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
+            index = (self.localindex + self._starts).flatten()
+            return self.copy(content=data.flatten()[self.IndexedArray.invert(index)])
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
             if len(self._starts) != len(data):
@@ -1411,12 +1410,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._util_flatten(self._content, axis - 1))
 
         elif axis == 1:
-            self = self.compact()
-            innercounts = self._util_counts(self._content)
+            content = self.flatten()
+            innercounts = self._util_counts(content)
             if (innercounts < 0).any():
                 raise ValueError("cannot flatten an array containing scalar values")
             counts = self.JaggedArray.fromcounts(self.counts, innercounts).sum()
-            return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(counts, self._util_flatten(content, axis - 1))
 
         else:
             if len(self) == 0:
@@ -1859,7 +1858,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if axis > 0:
-            return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
+            return self.copy(content=self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
 
         flatstarts = self._starts.reshape(-1)
 
-- 
2.43.0


From 7b7523fca739883c15a760d5bc9caf954e6d5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 39/68] fix: masked arrays check validity before flatten,
 fillna, argmin/argmax and reductions

---
 awkward0/array/masked.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9dfebbf..94e7a76 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -289,6 +289,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.copy(content=self._util_flattentuple(self._content))
 
     def flatten(self, axis=0):
+        self._valid()
         mask = self.boolmask(maskedwhen=False)
         goodcontent = self._content[:len(mask)][mask]
         content = self._util_flatten(goodcontent, axis)
@@ -337,6 +338,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
+        self._valid()
         if isinstance(self._content, awkward0.array.table.Table):
             out = self._content.copy(contents={})
             for n, x in self._content._contents.items():
@@ -384,6 +386,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return content
 
     def argmin(self):
+        self._valid()
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
@@ -391,6 +394,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def argmax(self):
+        self._valid()
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
@@ -398,6 +402,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def fillna(self, value):
+        self._valid()
         out = self._util_fillna(self._content[:len(self)], value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
@@ -846,6 +851,7 @@ class IndexedMaskedArray(MaskedArray):
         return out
 
     def flatten(self, axis=0):
+        self._valid()
         mask = self.boolmask(maskedwhen=False)
         goodcontent = self._content[self._mask[mask]]
         content = self._util_flatten(goodcontent, axis)
@@ -871,6 +877,7 @@ class IndexedMaskedArray(MaskedArray):
         return self
 
     def _prepare(self, ufunc, identity, dtype):
+        self._valid()
         if isinstance(self._content, awkward0.array.table.Table):
             out = self._content.copy(contents={})
             for n, x in self._content._contents.items():
@@ -917,6 +924,7 @@ class IndexedMaskedArray(MaskedArray):
         return out
 
     def argmin(self):
+        self._valid()
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
@@ -924,6 +932,7 @@ class IndexedMaskedArray(MaskedArray):
             return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def argmax(self):
+        self._valid()
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
@@ -931,6 +940,7 @@ class IndexedMaskedArray(MaskedArray):
             return self.numpy.searchsorted(self.numpy.cumsum(self.isunmasked), index, side="right")
 
     def fillna(self, value):
+        self._valid()
         out = self._util_fillna(self._content, value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
-- 
2.43.0


From bb67ba56ce0241fa38ed61974950761f61e6763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 40/68] fix: type equality compares every part of both types,
 independent of sharing and recursion, and equal types have equal hashes

---
 awkward0/type.py | 121 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 83 insertions(+), 38 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..1d7bf84 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -138,7 +138,12 @@ class Type(object):
 
     @staticmethod
     def _canonical(x, seen):
-        if id(x) not in seen:
+        if id(x) in seen:
+            x = seen[id(x)][1]
+
+        else:
+            original = x
+
             # apply string-integer commutation so that TableTypes are nested as deeply as possible
             if isinstance(x, TableType) and len(x._fields) > 0 and all(isinstance(y, ArrayType) for y in x._fields.values()):
                 newtable = TableType.__new__(TableType)
@@ -157,20 +162,27 @@ class Type(object):
 
             # apply union(X, union(Y)) == union(X, Y)
             if isinstance(x, UnionType) and any(isinstance(y, UnionType) for y in x._possibilities):
-                possibilities = []
-                for y in x._possibilities:
-                    if isinstance(y, UnionType):
-                        possibilities.extend(y._possibilities)
-                    else:
-                        possibilities.append(y)
+                possibilities, flattened = [], set()
+                def flatten(union):
+                    if id(union) not in flattened:
+                        flattened.add(id(union))
+                        for y in union._possibilities:
+                            if isinstance(y, UnionType):
+                                flatten(y)
+                            else:
+                                possibilities.append(y)
+                flatten(x)
                 x = UnionType.__new__(UnionType)
                 x._possibilities = possibilities
 
             # apply optional(optional(X)) == optional(X)
-            if isinstance(x, OptionType) and isinstance(x._type, OptionType):
+            options = set()
+            while isinstance(x, OptionType) and isinstance(x._type, OptionType) and id(x) not in options:
+                options.add(id(x))
                 x = x._type
 
-            seen.add(id(x))
+            # hold on to both, so that their ids are not reused
+            seen[id(original)] = seen[id(x)] = (original, x)
             if isinstance(x, ArrayType):
                 x._to = Type._canonical(x._to, seen)
             elif isinstance(x, TableType):
@@ -188,17 +200,32 @@ class Type(object):
         if not isinstance(other, Type):
             return False
         else:
-            one = Type._canonical(Type._copy(self, {}), set())
-            two = Type._canonical(Type._copy(other, {}), set())
+            one = Type._canonical(Type._copy(self, {}), {})
+            two = Type._canonical(Type._copy(other, {}), {})
             return one._eq(two, set(), ignoremask=False)
 
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        # equal types must have equal hashes, however their parts are nested, shared or ordered
+        return Type._canonical(Type._copy(self, {}), {})._hash(4)
+
+    @staticmethod
+    def _hash2(x, depth):
+        if isinstance(x, Type):
+            return x._hash(depth - 1) if depth > 0 else 0
+        elif isinstance(x, numpy.dtype) and x.kind in "biufcmM":
+            return hash(x)
+        else:
+            return 0
+
     @staticmethod
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(two, Type):
+            return False           # numpy.dtype would compare itself with two.dtype
         elif one == two:
             return True
         elif callable(one) and callable(two):
@@ -293,8 +320,10 @@ class ArrayType(Type):
             return False
         elif isinstance(self._to, numpy.dtype):
             return True
-        else:
+        elif isinstance(self._to, Type):
             return self._to._isnumpy(seen)
+        else:
+            return False
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
@@ -331,23 +360,23 @@ class ArrayType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, ArrayType) and self._takes == other._takes:
                 return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
             else:
                 return False
 
-    def __hash__(self):
-        return hash((ArrayType, self._takes, self._to))
+    def _hash(self, depth):
+        return hash((ArrayType, self._takes, self._hash2(self._to, depth)))
 
 class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
         for n, x in fields.items():
-            self._fields[n] = x
+            self[n] = x
 
     @property
     def shape(self):
@@ -424,10 +453,10 @@ class TableType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
                 for n in self._fields:
                     if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
@@ -437,8 +466,8 @@ class TableType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((TableType, tuple((n, self._fields[n]) for n in sorted(self._fields))))
+    def _hash(self, depth):
+        return hash((TableType, tuple((n, self._hash2(self._fields[n], depth)) for n in sorted(self._fields))))
 
 class UnionType(Type):
     def __init__(self, *possibilities):
@@ -509,21 +538,28 @@ class UnionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
+                unmatched = list(other._possibilities)
+                for x in self._possibilities:
+                    for i, y in enumerate(unmatched):
+                        trial = set(seen)
+                        if self._eq2(x, y, trial, ignoremask=ignoremask):
+                            seen.update(trial)
+                            del unmatched[i]
+                            break
+                    else:
                         return False
                 else:
                     return True    # nothing failed in the loop over possibilities
             else:
                 return False
 
-    def __hash__(self):
-        return hash((UnionType, tuple(self._possibilities)))
+    def _hash(self, depth):
+        return hash((UnionType, tuple(sorted(self._hash2(x, depth) for x in self._possibilities))))
 
 class OptionType(Type):
     def __init__(self, type):
@@ -567,14 +603,21 @@ class OptionType(Type):
         seen.add(id(self))
         if isinstance(self._type, numpy.dtype):
             return True
-        else:
+        elif isinstance(self._type, Type):
             return self._type._isnumpy(seen)
+        else:
+            return False
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
             return False
         seen.add(id(self))
-        return self._type._hascolumn(name, seen)
+        if isinstance(self._type, numpy.dtype):
+            return self._type.names is not None and name in self._type.names
+        elif isinstance(self._type, Type):
+            return self._type._hascolumn(name, seen)
+        else:
+            return False
 
     def _subrepr(self, labeled, seen):
         return "OptionType({0})".format(self._type._repr(labeled, seen) if isinstance(self._type, Type) else repr(self._type))
@@ -591,20 +634,22 @@ class OptionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
-                if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
+                trial = set(seen)
+                if self._eq2(self._type, other._type, trial, ignoremask=ignoremask):
+                    seen.update(trial)
                     return True
             if ignoremask:    # applied asymmetrically; only the left can ignore mask
                 return self._eq2(self._type, other, seen, ignoremask=ignoremask)
             else:
                 return False
 
-    def __hash__(self):
-        return hash((OptionType, self._type))
+    def _hash(self, depth):
+        return hash((OptionType, self._hash2(self._type, depth)))
 
 ###############################################################################
 
-- 
2.43.0


From 7c234cada0c336f7b541dd0cd642ce2fa06f8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 41/68] fix: walks for nbytes, columns, rowname and type keep
 visited arrays alive (ids are not reused); ChunkedArray rowname marks itself
 visited; UnionArray rowname compares all contents and nbytes counts tags and
 index

---
 awkward0/array/base.py    | 12 ++++++------
 awkward0/array/chunked.py |  5 +++--
 awkward0/array/indexed.py |  4 ++--
 awkward0/array/jagged.py  |  2 +-
 awkward0/array/masked.py  |  2 +-
 awkward0/array/objects.py |  2 +-
 awkward0/array/table.py   |  4 ++--
 awkward0/array/union.py   | 18 +++++++++---------
 awkward0/array/virtual.py |  8 ++++----
 awkward0/type.py          |  1 +
 10 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 79cde86..001b669 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -154,7 +154,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     @property
     def nbytes(self):
-        return self._getnbytes(set())
+        return self._getnbytes({})           # ids of arrays already counted, with the arrays to keep the ids from being reused
 
     def tolist(self):
         import awkward0.array.table
@@ -665,7 +665,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     @property
     def columns(self):
-        return self._util_columns(set())
+        return self._util_columns({})
 
     @classmethod
     def _util_rowname_descend(cls, array, seen):
@@ -679,7 +679,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     @property
     def rowname(self):
-        return self._util_rowname(set())
+        return self._util_rowname({})
 
     @property
     def istuple(self):
@@ -687,7 +687,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         return self.rowname == "tuple" and columns == [str(x) for x in range(len(columns))]
 
     def unzip(self):
-        return tuple(self[column_name] for column_name in self._util_columns(set()))
+        return tuple(self[column_name] for column_name in self._util_columns({}))
 
 class AwkwardArrayWithContent(AwkwardArray):
     """
@@ -723,13 +723,13 @@ class AwkwardArrayWithContent(AwkwardArray):
     def _util_columns(self, seen):
         if id(self) in seen:
             return []
-        seen.add(id(self))
+        seen[id(self)] = self
         return self._util_columns_descend(self._content, seen)
 
     def _util_rowname(self, seen):
         if id(self) in seen:
             raise TypeError("not a Table, so there is no rowname")
-        seen.add(id(self))
+        seen[id(self)] = self
         return self._util_rowname_descend(self._content, seen)
 
     def astype(self, dtype):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 7083d56..4895804 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -247,7 +247,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             return sum(x.nbytes if isinstance(x, self.numpy.ndarray) else x._getnbytes(seen) for x in self._chunks)
 
     def __len__(self):
@@ -757,7 +757,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def _util_columns(self, seen):
         if id(self) in seen:
             return []
-        seen.add(id(self))
+        seen[id(self)] = self
         for chunkid in range(len(self._chunks)):
             self.knowchunksizes(chunkid + 1)
             if self._chunksizes[chunkid] > 0:
@@ -767,6 +767,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def _util_rowname(self, seen):
         if id(self) in seen:
             raise TypeError("not a Table, so there is no rowname")
+        seen[id(self)] = self
         for chunkid in range(len(self._chunks)):
             self.knowchunksizes(chunkid + 1)
             if self._chunksizes[chunkid] > 0:
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 46d204b..a4c4b59 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -105,7 +105,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             return self._index.nbytes + (self._content.nbytes if isinstance(self._content, self.numpy.ndarray) else self._content._getnbytes(seen))
 
     def __len__(self):
@@ -475,7 +475,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             return self._index.nbytes + (self._content.nbytes if isinstance(self._content, self.numpy.ndarray) else self._content._getnbytes(seen))
 
     def __len__(self):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index fa53fd3..ae7cd79 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -447,7 +447,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             if self.offsetsaliased(self._starts, self._stops):
                 return self._starts.base.nbytes + (self._content.nbytes if isinstance(self._content, self.numpy.ndarray) else self._content._getnbytes(seen))
             else:
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 94e7a76..f657aba 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -128,7 +128,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             return self._mask.nbytes + (self._content.nbytes if isinstance(self._content, self.numpy.ndarray) else self._content._getnbytes(seen))
 
     def __len__(self):
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index a2b2f9f..3d37a08 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -151,7 +151,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             return (self._content.nbytes if isinstance(self._content, self.numpy.ndarray) else self._content._getnbytes(seen))
 
     def __len__(self):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 9e9d194..b4618b0 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -419,7 +419,7 @@ class Table(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             return sum(x.nbytes if isinstance(x, self.numpy.ndarray) else x._getnbytes(seen) for x in self._contents.values())
 
     def __len__(self):
@@ -873,7 +873,7 @@ class Table(awkward0.array.base.AwkwardArray):
     def _util_columns(self, seen):
         if id(self) in seen:
             return []
-        seen.add(id(self))
+        seen[id(self)] = self
         return list(self._contents)
 
     def astype(self, dtype):
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 172ad04..d233679 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -229,8 +229,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
-            return sum(x.nbytes if isinstance(x, self.numpy.ndarray) else x._getnbytes(seen) for x in self._contents)
+            seen[id(self)] = self
+            return self._tags.nbytes + self._index.nbytes + sum(x.nbytes if isinstance(x, self.numpy.ndarray) else x._getnbytes(seen) for x in self._contents)
 
     def __len__(self):
         return len(self._tags)
@@ -534,7 +534,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _util_columns(self, seen):
         if id(self) in seen:
             return []
-        seen.add(id(self))
+        seen[id(self)] = self
         out = None
         for content in self._contents:
             tmp = self._util_columns_descend(content, seen)
@@ -550,14 +550,14 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _util_rowname(self, seen):
         if id(self) in seen:
             raise TypeError("not a Table, so there is no rowname")
-        seen.add(id(self))
+        seen[id(self)] = self
         out = None
         for content in self._contents:
-            tmp = self._util_rowname_descend(content, seen)
-        if out is None:
-            out = tmp
-        elif out != tmp:
-            raise TypeError("union of multiple Tables with different names, so there is no single rowname")
+            tmp = self._util_rowname_descend(content, dict(seen))
+            if out is None:
+                out = tmp
+            elif out != tmp:
+                raise TypeError("union of multiple Tables with different names, so there is no single rowname")
         if out is None:
             raise TypeError("not a Table, so there is no rowname")
         else:
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index d9756d7..892186e 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -254,7 +254,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return 0
         else:
-            seen.add(id(self))
+            seen[id(self)] = self
             if self._nbytes is None or self.ismaterialized:
                 array = self.array
                 return (array.nbytes if isinstance(array, self.numpy.ndarray) else array._getnbytes(seen))
@@ -263,7 +263,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @property
     def nbytes(self):
-        return self._getnbytes(set())
+        return self._getnbytes({})
 
     @nbytes.setter
     def nbytes(self, value):
@@ -486,13 +486,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def _util_columns(self, seen):
         if id(self) in seen:
             return []
-        seen.add(id(self))
+        seen[id(self)] = self
         return self._util_columns_descend(self.array, seen)
 
     def _util_rowname(self, seen):
         if id(self) in seen:
             raise TypeError("not a Table, so there is no rowname")
-        seen.add(id(self))
+        seen[id(self)] = self
         return self._util_rowname_descend(self.array, seen)
 
     def astype(self, dtype):
diff --git a/awkward0/type.py b/awkward0/type.py
index 1d7bf84..556248b 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -673,6 +673,7 @@ def fromarray(array):
 def _fromarray(array, seen):
     if id(array) not in seen:
         seen[id(array)] = placeholder = Placeholder()
+        placeholder.array = array            # keep it alive, so that its id is not reused
 
         if isinstance(array, numpy.ndarray):
             if array.dtype.names is None:
-- 
2.43.0


From 8da68db10b4f272ee9795854ee3682972006b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 42/68] fix: a TableType without fields can be printed

---
 awkward0/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 556248b..0a07f41 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -437,7 +437,7 @@ class TableType(Type):
         return "TableType({0})".format(", ".join("{0}={1}".format(n, x._repr(labeled, seen) if isinstance(x, Type) else repr(x)) for n, x in self._fields.items()))
 
     def _substr(self, labeled, seen, indent):
-        width = max(len(repr(n)) for n in self._fields.keys())
+        width = max([0] + [len(repr(n)) for n in self._fields.keys()])
         subindent = indent + (" " * width) + "    "
         out = []
         for n, x in self._fields.items():
-- 
2.43.0


From 51c2ce5b824db260b13e5e288973fb114d2a6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 43/68] fix: persisting keeps row names, assigned virtual
 columns and nbytes, shared materialized arrays, padded and masked Numpy
 arrays; loaded files honour their schema suffix

---
 awkward0/array/objects.py |  2 +-
 awkward0/array/table.py   |  9 ++++++---
 awkward0/array/virtual.py |  7 +++++--
 awkward0/persist.py       | 31 +++++++++++++++++++++++--------
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 3d37a08..b16d1ac 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -361,7 +361,7 @@ def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
     else:
-        return decoder(x, errors="replace")[0]
+        return decoder(x, "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index b4618b0..1d7f505 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -290,11 +290,12 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     @classmethod
-    def frompairs(cls, pairs, rowstart=0):
+    def frompairs(cls, pairs, rowstart=0, rowname="Row"):
         out = cls()
         for n, x in pairs:
             out[n] = x
         out._rowstart = rowstart
+        out.rowname = rowname
         return out
 
     @classmethod
@@ -374,7 +375,8 @@ class Table(awkward0.array.base.AwkwardArray):
                 [n, serializer(x, "Table.contents")]
                 for n, x in self._contents.items()
             ]},
-            {"json": self.rowstart}
+            {"json": int(self.rowstart)},
+            {"json": self._rowname},
         )
         if isinstance(self._view, tuple):
             start, step, length = self._view
@@ -632,7 +634,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         if isinstance(where, awkward0.util.string):
             try:
-                len(what)
+                if not isinstance(what, awkward0.array.base.AwkwardArray):
+                    len(what)
             except TypeError:
                 what = self.numpy.full(len(self), what)
             self._contents[where] = self._util_toarray(what, self.DEFAULTTYPE)
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 892186e..f9e27d4 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -112,7 +112,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __awkward_serialize__(self, serializer):
         self._valid()
 
-        if self._persistvirtual:
+        if self._persistvirtual and not self._setitem and not self._delitem:
             out = serializer.encode_call(
                 ["awkward0", "VirtualArray"],
                 serializer(self._generator, "VirtualArray.generator"),
@@ -130,6 +130,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             if self._persistentkey is not None:
                 others["persistentkey"] = serializer(self._persistentkey)
 
+            if self._nbytes is not None:
+                others["nbytes"] = {"json": int(self._nbytes)}
             if self._type is not None:
                 others["type"] = serializer.encode_call(
                     ["awkward0.persist", "json2type"],
@@ -140,7 +142,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 out["kwargs"] = others
         else:
             out = serializer(self.array, "VirtualArray.array")
-            out.pop("id")
+            if "id" in out:
+                serializer.seen.alias(self, out["id"])
 
         return out
 
diff --git a/awkward0/persist.py b/awkward0/persist.py
index b0a990b..b8e0532 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -262,6 +262,10 @@ class ObjRef(object):
         self._i2r[id(obj)] = ref
         self._r2o[ref] = obj
 
+    def alias(self, obj, ref):
+        # obj is held on to by the reference it was first given, so its id is not reused
+        self._i2r[id(obj)] = ref
+
     def __getitem__(self, obj):
         if obj not in self:
             self[obj] = self.nextid()
@@ -481,18 +485,28 @@ class BlobSerializer(Serializer):
         return dict(read=key)
 
     def _encode_numpy(self, obj, context):
+        if isinstance(obj, numpy.ma.MaskedArray) and obj.ndim == 1:
+            return self.encode_call(["awkward0", "MaskedArray"], self(numpy.ma.getmaskarray(obj), context), self(numpy.ma.getdata(obj), context))
+        elif isinstance(obj, numpy.ma.MaskedArray) or obj.dtype.hasobject:
+            return self.encode_python(obj)       # not (only) a buffer of numbers
+
+        packed = json2dtype(json.loads(json.dumps(dtype2json(obj.dtype))))
+        data = obj
+        if obj.dtype != packed:                  # the description has no padding between fields
+            data = obj.astype(packed)
+
         if obj.ndim > 1:
-            dtype = numpy.dtype((obj.dtype, obj.shape[1:]))
+            dtype = numpy.dtype((packed, obj.shape[1:]))
         else:
-            dtype = obj.dtype
+            dtype = packed
 
         buf = None
         for policy in self._parse_compression(self.compression):
             if policy.test(obj, context):
-                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(obj.ravel()), ref=obj))
+                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(data.ravel()), ref=obj))
                 break
         else:
-            buf = self._put_raw(obj.ravel(), ref=obj)
+            buf = self._put_raw(data.ravel(), ref=obj)
 
         return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
 
@@ -738,13 +752,13 @@ class Load(Mapping):
 
     def __iter__(self):
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
-                yield n[:-5]
+            if n.endswith(self.schemasuffix):
+                yield n[:len(n) - len(self.schemasuffix)]
 
     def __len__(self):
         count = 0
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
+            if n.endswith(self.schemasuffix):
                 count += 1
         return count
 
@@ -755,7 +769,8 @@ class Load(Mapping):
         self._file.f.close()
 
     def __del__(self):
-        self.close()
+        if hasattr(self, "_file"):       # the file was opened
+            self.close()
 
     def __enter__(self, *args, **kwds):
         return self
-- 
2.43.0


From e35566a9da5420a1be6a136bf19cb0f82864b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 44/68] fix: operations on table views apply the view to every
 column (like, pad, astype, fillna, reductions, ufuncs on rows, arrow
 conversion); empty reversed views stay empty; ufuncs with several outputs on
 tables

---
 awkward0/array/indexed.py | 10 ++----
 awkward0/array/jagged.py  | 10 ++----
 awkward0/array/masked.py  | 15 ++-------
 awkward0/array/table.py   | 68 ++++++++++++++++-----------------------
 awkward0/arrow.py         |  8 ++---
 5 files changed, 39 insertions(+), 72 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index a4c4b59..50dabd7 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -260,10 +260,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._mapcolumns(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             prepared = self._prepare(ufunc, identity, dtype)
@@ -745,10 +742,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._mapcolumns(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             prepared = self._prepare(ufunc, identity, dtype)
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ae7cd79..05b639e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1466,10 +1466,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents=[])
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
+            return self._content._mapcolumns(lambda x: self.copy(content=x)._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.base.AwkwardArray):
             thyself = self.copy(content=self._content._prepare(ufunc, identity, dtype))
@@ -1498,10 +1495,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             thyself = self.copy()
 
         if isinstance(thyself._content, awkward0.array.table.Table):
-            out = thyself._content.copy(contents=[])
-            for n, x in thyself._content._contents.items():
-                out[n] = thyself.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
+            return thyself._content._mapcolumns(lambda x: thyself.copy(content=x)._reduce(ufunc, identity, dtype))
 
         if len(thyself._starts.shape) > 1:
             thyself._starts = thyself._starts.reshape(-1)
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f657aba..dc2a1bd 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -322,10 +322,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._mapcolumns(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             prepared = self._prepare(ufunc, identity, dtype)
@@ -340,10 +337,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _prepare(self, ufunc, identity, dtype):
         self._valid()
         if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
+            return self._content._mapcolumns(lambda x: self.copy(content=x)._prepare(ufunc, identity, dtype))
 
         if isinstance(self._content, self.numpy.ndarray):
             if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
@@ -879,10 +873,7 @@ class IndexedMaskedArray(MaskedArray):
     def _prepare(self, ufunc, identity, dtype):
         self._valid()
         if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
+            return self._content._mapcolumns(lambda x: self.copy(content=x)._prepare(ufunc, identity, dtype))
 
         if isinstance(self._content, self.numpy.ndarray):
             if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 1d7f505..d093c14 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -111,7 +111,9 @@ class Table(awkward0.array.base.AwkwardArray):
             inputs = list(inputs)
             for i in range(len(inputs)):
                 if isinstance(inputs[i], Table.Row):
-                    inputs[i] = inputs[i]._table[inputs[i]._index : inputs[i]._index + 1]
+                    row = inputs[i]
+                    inputs[i] = row._table.copy()
+                    inputs[i]._view = (row._index, 1, 1)
 
             result = getattr(ufunc, method)(*inputs, **kwargs)
 
@@ -349,9 +351,17 @@ class Table(awkward0.array.base.AwkwardArray):
         out._contents = OrderedDict()
         return out
 
+    def _mapcolumns(self, function):
+        out = self.empty_like()
+        out._rowstart = self._rowstart
+        for n in self._contents:
+            out[n] = function(self[n])
+        return out
+
     def zeros_like(self, **overrides):
         out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
+        for n in self._contents:
+            x = self[n]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.zeros_like(x)
             else:
@@ -360,7 +370,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def ones_like(self, **overrides):
         out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
+        for n in self._contents:
+            x = self[n]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.ones_like(x)
             else:
@@ -460,6 +471,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0, 0, step)
             stop = start + step*length
             if stop < 0:
                 stop = None
@@ -699,12 +712,10 @@ class Table(awkward0.array.base.AwkwardArray):
         for n, x in inputsdict.items():
             newcolumns[n] = getattr(ufunc, method)(*x, **kwargs)
 
+            numoutputs = len(newcolumns[n]) if isinstance(newcolumns[n], tuple) else False
             if tuplelen is None:
-                if isinstance(x, tuple):
-                    tuplelen = len(x)
-                else:
-                    tuplelen = False
-            elif isinstance(x, tuple) != tuplelen:
+                tuplelen = numoutputs
+            elif numoutputs != tuplelen:
                 raise AssertionError("ufuncs return tuples of different lengths or some tuples and some non-tuples")
 
         assert len(newcolumns) != 0
@@ -735,7 +746,7 @@ class Table(awkward0.array.base.AwkwardArray):
             out = [table.empty_like() for i in range(tuplelen)]
             for n in inputsdict:
                 for i in range(tuplelen):
-                    out[i][n] = newcolumns[n]
+                    out[i][n] = newcolumns[n][i]
             return tuple(out)
 
     @property
@@ -776,10 +787,7 @@ class Table(awkward0.array.base.AwkwardArray):
         raise ValueError("cannot flatten through a Table")
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_pad(x, length, maskedwhen, clip, axis)
-        return out
+        return self._mapcolumns(lambda x: self._util_pad(x, length, maskedwhen, clip, axis))
 
     def regular(self):
         self._valid()
@@ -798,19 +806,7 @@ class Table(awkward0.array.base.AwkwardArray):
             contents = OrderedDict()
             for n, x in out._contents.items():
                 if isinstance(x, Table) and x.istuple:
-                    if x._view is None:
-                        view = slice(x._length())
-
-                    elif isinstance(x._view, tuple):
-                        start, step, length = x._view
-                        stop = start + step*length
-                        if stop < 0:
-                            stop = None
-                        view = slice(start, stop, step)
-
-                    else:
-                        view = x._view
-
+                    view = x._index()
                     for y in x._contents.values():
                         contents[str(len(contents))] = y[view]
 
@@ -832,10 +828,7 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         if self._hasjagged():
-            out = self.copy(contents={})
-            for n, x in self._contents.items():
-                out[n] = self._util_reduce(x, ufunc, identity, dtype)
-            return out
+            return self._mapcolumns(lambda x: self._util_reduce(x, ufunc, identity, dtype))
 
         else:
             out = self.Table.named({
@@ -855,8 +848,9 @@ class Table(awkward0.array.base.AwkwardArray):
             return out.Row(out, 0)
 
     def _prepare(self, ufunc, identity, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
+        out = self.empty_like()
+        for n in self._contents:
+            x = self[n]
             if isinstance(x, self.numpy.ndarray):
                 if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
                     dtype = self.numpy.dtype(type(identity))
@@ -880,16 +874,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return list(self._contents)
 
     def astype(self, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = x.astype(dtype)
-        return out
+        return self._mapcolumns(lambda x: x.astype(dtype))
 
     def fillna(self, value):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_fillna(x, value)
-        return out
+        return self._mapcolumns(lambda x: self._util_fillna(x, value))
 
     @classmethod
     def _concatenate_axis0(cls, tables):
diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3a7d08b..0ebb1b1 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -180,7 +180,7 @@ def toarrow(obj):
             return recurse(obj.content, mask)
 
         elif isinstance(obj, awkward0.array.table.Table):
-            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in obj.contents.values()], list(obj.contents))
+            return pyarrow.StructArray.from_arrays([recurse(obj[n], mask) for n in obj.contents], list(obj.contents))
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
             contents = []
@@ -217,14 +217,14 @@ def toarrow(obj):
             content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
         else:
             content = obj.content[obj.mask]
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.content[n], mask) for n in obj.content.contents], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
         mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.content[n], mask) for n in obj.content.contents], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.table.Table):
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in obj.contents.values()], list(obj.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj[n], None) for n in obj.contents], list(obj.contents))])
 
     else:
         return recurse(obj, None)
-- 
2.43.0


From dd0c639e75704e44becd41c52029168deaa2bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 45/68] fix: fromiter keeps objects without attributes next to
 objects of the same class that have some

---
 awkward0/generate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..6909670 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -248,7 +248,10 @@ class ObjectFillable(Fillable):
         self.content.clear()
 
     def matches(self, tpe):
-        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and (len(tpe[0]) == 0 or self.content.matches(tpe[0]))
+        if isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls:
+            return self.content.matches(JaggedFillable if len(tpe[0]) == 0 else tpe[0])
+        else:
+            return False
 
     def append(self, obj, tpe):
         if tpe is None:
-- 
2.43.0


From aa8ce4377fb21bc01c79a17c635859e9fbea7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 46/68] fix: virtual arrays given another cache after
 materialization, columns deleted after being assigned or assigned by list,
 pandas conversion under the array's own persistent key

---
 awkward0/array/virtual.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index f9e27d4..f1ba2bc 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -200,6 +200,9 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if not value is None and not (callable(getattr(value, "__getitem__", None)) and callable(getattr(value, "__setitem__", None)) and callable(getattr(value, "__delitem__", None))):
                 raise TypeError("cache must be None, a dict, or have __getitem__/__setitem__/__delitem__ methods")
+        if isinstance(self.__dict__.get("_array"), VirtualArray.TransientKey) and value is not self._cache:
+            # nobody else would remove the TransientKey from the old cache
+            self._forget()
         self._cache = value
 
     @property
@@ -327,15 +330,17 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     return self.materialize()
             else:
                 # abnormal state (7)
-                self._cache[self.key] = self._array
-                return self._array
+                array = self._array
+                self._array = self.key
+                self._cache[self._array] = array
+                return array
 
     @property
     def ismaterialized(self):
-        if self._cache is None:
+        if self._cache is None or not isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
             return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
         else:
-            return self._array is not None and self._array in self._cache
+            return self._array in self._cache
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
@@ -344,7 +349,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 array[n] = x
         if self._delitem is not None:
             for n in self._delitem:
-                del array[n]
+                try:
+                    del array[n]
+                except KeyError:
+                    # it was assigned before it was deleted: the generated array doesn't have it
+                    pass
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -384,6 +393,14 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array[where]
 
     def __setitem__(self, where, what):
+        if not isinstance(where, awkward0.util.string) and self._util_isstringslice(where):
+            what = what.unzip()
+            if len(where) != len(what):
+                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            for x, y in zip(where, what):
+                self[x] = y
+            return
+
         self.array[where] = what
         if self._type is not None:
             self._type = awkward0.type.fromarray(self.array)
@@ -394,6 +411,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._delitem.remove(where)
 
     def __delitem__(self, where):
+        if not isinstance(where, awkward0.util.string) and self._util_isstringslice(where):
+            for x in where:
+                del self[x]
+            return
+
         del self.array[where]
         if self._type is not None:
             self._type = awkward0.type.fromarray(self.array)
@@ -529,6 +551,6 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return seen[id(self)]
         else:
-            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, persistentkey=self.persistentkey, type=self.type, nbytes=self.nbytes, persistvirtual=self.persistvirtual)
+            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, type=self._type, nbytes=self._nbytes, persistvirtual=self.persistvirtual)
             out.__class__ = awkward0.pandas.mixin(type(self))
             return out
-- 
2.43.0


From 299c46efc2f0fb0c5c6d5a50c96e6ba009ad85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 47/68] fix: materializing a virtual array again under another
 key leaves nothing in the cache under its transient key

---
 awkward0/array/virtual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index f1ba2bc..1d58ef3 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -366,6 +366,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._array = array
         else:
             # states (3) and (4)
+            self._forget()
             self._array = self.key
             self._cache[self._array] = array
 
-- 
2.43.0


From 903dfb17de67cce011de0e49789fbb1640a1b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 48/68] fix: UnionArray counts, boolmask, regular and
 serialization with an index longer than the tags; assigning a column gives
 each row its own value

---
 awkward0/array/union.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index d233679..fa483f7 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -69,7 +69,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         self._valid()
         for tag in self.numpy.unique(self._tags):
             mask = self._tags == tag
-            if not self.numpy.array_equal(self._index[mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
+            if not self.numpy.array_equal(self._index[:len(self._tags)][mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
                 return False
         return True
 
@@ -327,17 +327,19 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if isinstance(where, awkward0.util.string):
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what)
+                mask = (self._tags == tag)
+                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+                self._contents[tag][where] = self.IndexedArray(inverseindex, what[mask])
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
+                mask = (self._tags == tag)
+                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
                 for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y)
+                    self._contents[tag][x] = self.IndexedArray(inverseindex, y[mask])
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
@@ -425,7 +427,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def boolmask(self, maskedwhen=True):
@@ -434,7 +436,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.MASKTYPE)
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def choose(self, n):
@@ -477,7 +479,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def _hasjagged(self):
-- 
2.43.0


From 4703989311cbda39fe1f9d1b5cf102121b535451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 49/68] fix: SparseArray.boolmask without stored elements has
 one value per element; a column of a UnionArray keeps each tag with its
 content

---
 awkward0/array/indexed.py | 2 +-
 awkward0/array/union.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 50dabd7..cc76d04 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -654,7 +654,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.numpy.bool_)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index fa483f7..7ee2c93 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -293,14 +293,15 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         self._valid()
 
         if self._util_isstringslice(where):
+            alltags = self.numpy.unique(self._tags)
             contents = []
-            for tag in self.numpy.unique(self._tags):
+            for tag in alltags:
                 contents.append(self._contents[tag][where])
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
             else:
-                return self.copy(contents=contents)
+                return self.copy(tags=self.numpy.searchsorted(alltags, self._tags).astype(self._tags.dtype), contents=contents)
 
         if isinstance(where, tuple) and len(where) == 0:
             return self
-- 
2.43.0


From 69fc0d420f05148d09c41c493ecce6633858e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 50/68] fix: SparseArray selected by a sparse boolean array or
 when nothing is stored

---
 awkward0/array/indexed.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index cc76d04..cab4963 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -581,8 +581,11 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(self._length, head._length))
 
             # the new index is a cumsum (starting at zero) of the boolean values
+            length = self.numpy.count_nonzero(head._content)
+            if len(self._index) == 0 or len(head._index) == 0:
+                return self.copy(length=length, index=self._index[:0], content=self._content[:0])
+
             index = self.numpy.cumsum(head._content)
-            length = index[-1]
             index[1:] = index[:-1]
             index[0] = 0
 
@@ -593,7 +596,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
             # find the mask's sparse elements in my sparse elements
             match2 = self.numpy.searchsorted(self._index, head._index, side="left")
-            match2[match2 >= len(head._index)] = len(head._index) - 1
+            match2[match2 >= len(self._index)] = len(self._index) - 1
             index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
 
             return self.copy(length=length, index=index, content=content)
@@ -614,8 +617,11 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
-                match[match >= len(self._index)] = len(self._index) - 1
-                explicit = (self._index[match] == head)
+                if len(self._index) == 0:
+                    explicit = self.numpy.zeros(len(head), dtype=self.BOOLTYPE)
+                else:
+                    match[match >= len(self._index)] = len(self._index) - 1
+                    explicit = (self._index[match] == head)
 
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
-- 
2.43.0


From ed9174cd7b05f2435c2f323c00398bbff01e4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 51/68] fix: assigning a column to a SparseArray of tables
 terminates and takes the values at the stored positions

---
 awkward0/array/indexed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index cab4963..dd3837f 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -672,13 +672,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
 
         test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, bool):
+        while not isinstance(test, (bool, self.numpy.bool_, self.numpy.bool)):
             test = test.any()
 
         if test:
             raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
 
-        return IndexedArray(self._inverse, what)
+        return IndexedArray(self._index, what)
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-- 
2.43.0


From 279a56c78a98e390c2ed5faeb544dd9bb44462af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 52/68] fix: StringArray.flattentuple and StringArray.astype
 keep the strings

---
 awkward0/array/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index b16d1ac..3410d5c 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -525,6 +525,12 @@ class StringArray(StringMethods, ObjectArray):
         jagged = self._content.ones_like(**overrides)
         return self.copy(jagged.starts, jagged.stops, jagged.content, **mine)
 
+    def astype(self, dtype):
+        return self.copy(content=self._content.content.astype(dtype))
+
+    def flattentuple(self):
+        return self.copy()
+
     def __awkward_serialize__(self, serializer):
         self._valid()
         if self._content.offsetsaliased(self.starts, self.stops) and len(self.starts) > 0 and self.starts[0] == 0:
-- 
2.43.0


From 1936b600ecb7b83199ab1f2e3c169a7fe0a34903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 53/68] fix: toarrow makes missing lists null, not lists of
 nulls

---
 awkward0/arrow.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 0ebb1b1..283fc3a 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -126,14 +126,18 @@ def toarrow(obj):
             return recurse(obj.dense, mask)
 
         elif isinstance(obj, awkward0.array.jagged.JaggedArray):
-            obj = obj.compact()
-            if mask is not None:
-                mask = obj.tojagged(mask).flatten()
+            if mask is None:
+                obj = obj.compact()
+                offsets = obj.offsets
+            else:
+                # a null offset makes a null list, which must not have any items
+                obj = obj.JaggedArray.fromcounts(obj.numpy.where(mask, 0, obj.counts), obj[~mask].flatten())
+                offsets = pyarrow.array(obj.offsets.astype(numpy.int32), mask=obj.numpy.append(mask, False))
             arrow_type = pyarrow.ListArray
             # 64bit offsets not yet completely golden in arrow
             # if hasattr(pyarrow, 'LargeListArray') and obj.starts.itemsize > 4:
             #     arrow_type = pyarrow.LargeListArray
-            return arrow_type.from_arrays(obj.offsets, recurse(obj.content, mask))
+            return arrow_type.from_arrays(offsets, recurse(obj.content, None))
 
         elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
             thismask = obj.boolmask(maskedwhen=True)
-- 
2.43.0


From b8772860f255438213ebd148ea98c49aa05e5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 54/68] fix: toarrow makes missing strings null

---
 awkward0/arrow.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 283fc3a..d8b6581 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -163,12 +163,12 @@ def toarrow(obj):
                 # if hasattr(pyarrow, 'LargeBinaryArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
-                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [None, offsets, content])
+                convert = lambda length, offsets, content, valid: arrow_type.from_buffers(arrow_offset_type, length, [valid, offsets, content])
             elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content)
+                convert = lambda length, offsets, content, valid: arrow_type.from_buffers(length, offsets, content, valid)
             else:
                 raise ValueError("only encoding=None or encoding='utf-8' can be converted to Arrow")
 
@@ -177,7 +177,11 @@ def toarrow(obj):
             if offsets.dtype != numpy.dtype(numpy.int32):
                 offsets = offsets.astype(numpy.int32)
 
-            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content))
+            valid = None
+            if mask is not None:
+                valid = pyarrow.py_buffer(awkward0.array.masked.BitMaskedArray.bool2bit(numpy.logical_not(mask), lsborder=True))
+
+            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content), valid)
 
         elif isinstance(obj, awkward0.array.objects.ObjectArray):
             # throw away Python object interpretation, which Arrow can't handle while being multilingual
-- 
2.43.0


From 15e5af61b8e003fd685bade9c1c0035e38aa14e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 55/68] fix: toarrow takes the rows that a masked array's mask
 describes

---
 awkward0/arrow.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index d8b6581..294033b 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -141,19 +141,19 @@ def toarrow(obj):
 
         elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
             thismask = obj.boolmask(maskedwhen=True)
-            if mask is not None:
-                thismask = mask | thismask
             if len(obj.content) == 0:
                 content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
             else:
-                content = obj.content[obj.mask]
+                content = obj.content[obj.numpy.where(thismask, 0, obj.mask)]
+            if mask is not None:
+                thismask = mask | thismask
             return recurse(content, thismask)
 
         elif isinstance(obj, awkward0.array.masked.MaskedArray):   # includes BitMaskedArray
             thismask = obj.boolmask(maskedwhen=True)
             if mask is not None:
                 thismask = mask | thismask
-            return recurse(obj.content, thismask)
+            return recurse(obj.content[:len(obj)], thismask)
 
         elif isinstance(obj, awkward0.array.objects.StringArray):
             if obj.encoding is None and hasattr(pyarrow.BinaryArray, 'from_buffers'):
@@ -222,14 +222,15 @@ def toarrow(obj):
     elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
         mask = obj.boolmask(maskedwhen=True)
         if len(obj.content) == 0:
-            content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
+            columns = [obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE) for n in obj.content.contents]
         else:
-            content = obj.content[obj.mask]
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.content[n], mask) for n in obj.content.contents], list(obj.content.contents))])
+            content = obj.content[obj.numpy.where(mask, 0, obj.mask)]
+            columns = [content[n] for n in obj.content.contents]
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
         mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.content[n], mask) for n in obj.content.contents], list(obj.content.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.content[n][:len(obj)], mask) for n in obj.content.contents], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.table.Table):
         return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj[n], None) for n in obj.contents], list(obj.contents))])
-- 
2.43.0


From cc66ad3f80ed953cd0fdd1d3a5e05e6373dd82e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 56/68] fix: fromarrow of a sliced Arrow array gives that slice

---
 awkward0/arrow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 294033b..d13b5e7 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -423,9 +423,10 @@ def fromarrow(obj):
 
     if isinstance(obj, pyarrow.lib.Array):
         buffers = obj.buffers()
-        out = popbuffers(obj, obj.type, buffers, len(obj))
+        # a sliced array has the buffers of the whole array
+        out = popbuffers(obj, obj.type, buffers, obj.offset + len(obj))
         assert len(buffers) == 0
-        return out
+        return out[obj.offset:] if obj.offset > 0 else out
 
     elif isinstance(obj, pyarrow.lib.ChunkedArray):
         chunks = [x for x in obj.chunks if len(x) > 0]
-- 
2.43.0


From f3548611314928ae7ca850f5c5fe44e416b45446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 57/68] fix: fromarrow of structs and unions with current
 pyarrow

---
 awkward0/arrow.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index d13b5e7..73f4928 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -20,6 +20,10 @@ import awkward0.util
 
 ################################################################################ type conversions
 
+def _numchildren(tpe):
+    # num_children was renamed
+    return tpe.num_fields if hasattr(tpe, "num_fields") else tpe.num_children
+
 def schema2type(schema):
     import pyarrow
 
@@ -33,7 +37,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(_numchildren(tpe)):
                 x = awkward0.type.ArrayType(tpe[i].name, recurse(tpe[i].type, tpe[i].nullable))
                 if out is None:
                     out = x
@@ -53,7 +57,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(_numchildren(tpe)):
                 x = recurse(tpe[i].type, nullable)
                 if out is None:
                     out = x
@@ -265,7 +269,7 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 1) == 1
             mask = buffers.pop(0)
             pairs = []
-            for i in range(tpe.num_children):
+            for i in range(_numchildren(tpe)):
                 pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
@@ -305,7 +309,7 @@ def fromarrow(obj):
             assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(_numchildren(tpe)):
                 try:
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
@@ -330,7 +334,7 @@ def fromarrow(obj):
             tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(_numchildren(tpe)):
                 try:
                     sublength = index[tags == i].max() + 1
                 except ValueError:
-- 
2.43.0


From f936bec131988c21c3f93e260ccf4850b015db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 58/68] fix: IndexedMaskedArray applies the whole of a
 multi-part index

---
 awkward0/array/masked.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index dc2a1bd..7a08817 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -830,10 +830,12 @@ class IndexedMaskedArray(MaskedArray):
 
         else:
             maskindex = self._mask[head]
-            if tail != () and (maskindex == self._maskedwhen).any():
+            if tail == ():
+                return self.copy(mask=maskindex)
+            elif (maskindex == self._maskedwhen).any():
                 raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
             else:
-                return self.copy(mask=maskindex)
+                return self.copy(mask=self.numpy.arange(len(maskindex), dtype=self.INDEXTYPE), content=self._content[(maskindex,) + tail], maskedwhen=-1)
 
     @property
     def counts(self):
-- 
2.43.0


From e984f0b118cd99e1f65acaec9b953ab4b8a5d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 59/68] fix: UnionArray applies the whole of an index and pairs
 operands element by element

---
 awkward0/array/union.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 7ee2c93..199306f 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -319,8 +319,16 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                 return self._contents[0][(index,) + tail]
             elif (tags == tags[0]).all():
                 return self._contents[tags[0]][(index,) + tail]
-            else:
+            elif tail == ():
                 return self.copy(tags=tags, index=index)
+            else:
+                contents = []
+                newindex = self.numpy.empty(tags.shape, dtype=self.INDEXTYPE)
+                for tag, content in enumerate(self._contents):
+                    mask = (tags == tag)
+                    newindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
+                    contents.append(content[(index[mask],) + tail] if mask.any() else content[:0])
+                return self.copy(tags=tags, index=newindex, contents=contents)
 
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
@@ -375,6 +383,9 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if any(x.shape != tags[0].shape for x in tags[1:]):
             raise ValueError("cannot {0} UnionArrays because tag shapes differ".format(ufunc))
 
+        inputs = [self.numpy.array(x) if isinstance(x, (list, tuple)) else x for x in inputs]
+        perelement = [x.shape[:len(tags[0].shape)] == tags[0].shape if isinstance(x, self.numpy.ndarray) else isinstance(x, awkward0.array.base.AwkwardArray) and len(x) == len(tags[0]) for x in inputs]
+
         combos = self.numpy.stack(tags, axis=-1).view([(str(i), x.dtype) for i, x in enumerate(tags)]).reshape(tags[0].shape)
 
         outtags = self.numpy.empty(tags[0].shape, dtype=self.TAGTYPE)
@@ -388,7 +399,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             outtags[mask] = outtag
             outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
 
-            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+            result = getattr(ufunc, method)(*[x[mask] if y else x for x, y in zip(inputs, perelement)], **kwargs)
 
             if isinstance(result, tuple):
                 if out is None:
-- 
2.43.0


From d93ed27c29f2efc81a5e0d07801d0e07c381f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 60/68] fix: SparseArray applies the rest of an index to the
 elements, and its default list is empty

---
 awkward0/array/indexed.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index dd3837f..d13ecf6 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -442,7 +442,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._default is None:
             if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self.JaggedArray([0], [0], self._content.content)
+                return self._content.content[:0]
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
@@ -573,7 +573,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 index = index[::-1]
                 content = content[::-1]
 
-            return self.copy(length=length, index=index, content=content)[tail]
+            return self._tail(self.copy(length=length, index=index, content=content), tail)
 
         elif isinstance(head, SparseArray) and len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
             head._valid()
@@ -583,7 +583,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             # the new index is a cumsum (starting at zero) of the boolean values
             length = self.numpy.count_nonzero(head._content)
             if len(self._index) == 0 or len(head._index) == 0:
-                return self.copy(length=length, index=self._index[:0], content=self._content[:0])
+                return self._tail(self.copy(length=length, index=self._index[:0], content=self._content[:0]), tail)
 
             index = self.numpy.cumsum(head._content)
             index[1:] = index[:-1]
@@ -599,7 +599,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             match2[match2 >= len(self._index)] = len(self._index) - 1
             index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
 
-            return self.copy(length=length, index=index, content=content)
+            return self._tail(self.copy(length=length, index=index, content=content), tail)
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -628,13 +628,24 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 tags[explicit] = 1
                 index[explicit] = self.numpy.arange(self.numpy.count_nonzero(explicit))
 
+                if len(head) == 0:
+                    return self._tail(self.copy(length=0, index=self._index[:0], content=self._content[:0]), tail)
+
                 content = self._content[match[explicit]]
                 default = self.numpy.array([self.default])
-                return self.UnionArray(tags, index, [default, content])[tail]
+                return self.UnionArray(tags, index, [default, content])[(slice(None),) + tail if tail != () else ()]
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    @staticmethod
+    def _tail(out, tail):
+        # the rest of an index is for the elements, stored or not
+        if tail == ():
+            return out
+        default = out.default[tail] if len(out._index) < out._length else None
+        return out.copy(content=out._content[(slice(None),) + tail], default=default)
+
     def _getinverse(self):
         if self._inverse is None:
             self._inverse = self.numpy.searchsorted(self._index, self.numpy.arange(self._length, dtype=self.INDEXTYPE), side="left")
-- 
2.43.0


From c651f612b6221a38e59bc4fb2daff080df90d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 61/68] fix: the unused room of an AppendableArray's last chunk
 belongs to no result

---
 awkward0/array/chunked.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 4895804..8dbc2ed 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -296,7 +296,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
             else:
                 out = self.numpy.empty(self.shape, dtype=self.dtype)
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._used(), self._slices()):
                     out[slc] = chunk
                 return out
         else:
@@ -329,7 +329,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise ValueError("A ChunkedArray can only be used as a slice of a ChunkedArray if they have the same chunk sizes")
             chunks = []
             chunksizes = []
-            for c, h in zip(self.chunks, head.chunks):
+            for c, h in zip(self._used(), head._used()):
                 if isinstance(c, awkward0.array.virtual.VirtualArray):
                     c = c.array
                 if isinstance(h, awkward0.array.virtual.VirtualArray):
@@ -485,7 +485,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
 
                 chunks = []
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._used(), self._slices()):
                     x = chunk[head[slc]]
                     if len(x) > 0:
                         x = x[(slice(None),) + tail]
@@ -497,6 +497,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _used(self):
+        return self._chunks
+
     def _aligned(self, what):
         self.knowchunksizes()
         what.knowchunksizes()
@@ -550,7 +553,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             batch = []
             for x in inputs:
                 if isinstance(x, ChunkedArray):
-                    batch.append(x._chunks[i])
+                    batch.append(x._used()[i])
                 elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                     batch.append(x[slc])
                 else:
@@ -596,10 +599,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def counts(self):
-        return self.numpy.concatenate([self._util_counts(x) for x in self._chunks])
+        return self.numpy.concatenate([self._util_counts(x) for x in self._used()])
 
     def boolmask(self, maskedwhen=True):
-        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._chunks])
+        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._used()])
 
     def choose(self, n):
         out = self.copy(chunks=[x.choose(n) for x in self._chunks])
@@ -672,7 +675,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        return self.numpy.concatenate([self._util_regular(x) for x in self._chunks])
+        return self.numpy.concatenate([self._util_regular(x) for x in self._used()])
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
@@ -800,8 +803,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             chunksizes = [y for x in arrays for y in x._chunksizes]
         else:
             chunksizes = []
-        chunks = [y for x in arrays for y in x._chunks]
-        return cls(chunks, chunksizes)
+        chunks = [y for x in arrays for y in x._used()]
+        return awkward0.array.objects.Methods.maybemixin(cls, cls.ChunkedArray.fget(None))(chunks, chunksizes)
 
     _topandas_name = "ChunkedSeries"
 
@@ -930,6 +933,15 @@ class AppendableArray(ChunkedArray):
     def knowchunksizes(self, until=None):
         pass
 
+    def flatten(self, axis=0):
+        return self.ChunkedArray(self._used()).flatten(axis)
+
+    def pad(self, length, maskedwhen=True, clip=False, axis=0):
+        return self.ChunkedArray(self._used()).pad(length, maskedwhen, clip, axis)
+
+    def _used(self):
+        return [x if len(x) == n else x[:n] for x, n in zip(self._chunks, self._chunksizes)]
+
     @property
     def offsets(self):
         return self.JaggedArray.counts2offsets(self._chunksizes)
-- 
2.43.0


From bfdebf33a3200f62f16a8587ab8da5441133d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 62/68] fix: count, mean and their kind work on the non-jagged
 contents of chunked arrays and tables; argmin and argmax pass over empty
 chunks

---
 awkward0/array/base.py    |  6 ++++++
 awkward0/array/chunked.py | 22 ++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 001b669..0ffbfb7 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -540,6 +540,12 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array._reduce(ufunc, identity, dtype)
 
+        elif ufunc is None:
+            return (1 - cls.numpy.isnan(array)).sum()
+
+        elif ufunc is cls.numpy.count_nonzero:
+            return cls.numpy.count_nonzero(array)
+
         elif len(array) == 0:
             if dtype is None:
                 dtype = array.dtype
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8dbc2ed..380fb19 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -703,6 +703,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 this = self._util_reduce(chunk[:self._chunksizes[chunkid]], ufunc, identity, dtype)
                 if out is None:
                     out = this
+                elif ufunc is None or ufunc is self.numpy.count_nonzero:
+                    out = out + this
                 else:
                     out = ufunc(out, this)
 
@@ -718,19 +720,23 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            self.knowchunksizes()
+            chunkids = [i for i, size in enumerate(self._chunksizes) if size > 0]
+            chunks = self._used()
+            indexes = [chunks[i].argmin() for i in chunkids]
+            best = self.numpy.argmin([chunks[i][index] for i, index in zip(chunkids, indexes)])
+            return self.offsets[chunkids[best]] + indexes[best]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            self.knowchunksizes()
+            chunkids = [i for i, size in enumerate(self._chunksizes) if size > 0]
+            chunks = self._used()
+            indexes = [chunks[i].argmax() for i in chunkids]
+            best = self.numpy.argmax([chunks[i][index] for i, index in zip(chunkids, indexes)])
+            return self.offsets[chunkids[best]] + indexes[best]
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
-- 
2.43.0


From 757cdd5ae3a9621da52ee62ff84b448c055a0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 63/68] fix: tables are concatenated row by row, whatever the
 lengths of their columns

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index d093c14..c43aa0f 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -894,7 +894,7 @@ class Table(awkward0.array.base.AwkwardArray):
             else:
                 concatenate = content_type.concatenate
 
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+            out._contents[n] = concatenate([t._contents[n][t._index()] for t in tables], axis=0)
 
         out._valid()
         return out
-- 
2.43.0


From 08c7cfc8c5bf5ad1f0e4968a10418e30353933d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:19 +0000
Subject: [PATCH 64/68] fix: ChunkedArray applies the rest of a multi-part
 index, and takes an empty list as one

---
 awkward0/array/chunked.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 380fb19..0d1acb0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -439,6 +439,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
         else:
             head = self.numpy.array(head, copy=False)
+            if head.shape == (0,) and not issubclass(head.dtype.type, (self.numpy.bool_, self.numpy.bool)):
+                head = head.astype(self.INDEXTYPE)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0 and len(self._chunks) == 0:
                     return self.copy(chunks=[])[tail]
@@ -457,7 +459,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
                         localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
+                        chunks.append(self._chunks[cid][(localindex,) + tail])
                     return self.copy(chunks=chunks)
 
                 elif self._util_isnumpy(self.type):
-- 
2.43.0


From e2661ce0b1ab3bae7b85835d2947b34243bc0bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 65/68] fix: ObjectArray makes its objects for a multi-part
 index, for both results of a ufunc and when concatenated

---
 awkward0/array/objects.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 3410d5c..f4463de 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -198,7 +198,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=content)
 
         else:
-            return [x[tail] for x in content]   # FIXME: in self.copy(content=content), right?
+            return [x[tail] for x in self.copy(content=content)]
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
@@ -219,6 +219,8 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._util_iscomparison(ufunc):
             return result
+        elif isinstance(result, tuple):
+            return tuple(self.copy(content=x) for x in result)
         else:
             return self.copy(content=result)
 
@@ -282,9 +284,11 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        out = arrays[0].copy(content=[])
-        out._content = arrays[0]._content.__class__.concatenate([a._content for a in arrays])
-        return out
+        first = arrays[0]
+        if not all(x._generator == first._generator and x._args == first._args and x._kwargs == first._kwargs for x in arrays):
+            tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+            return cls.UnionArray.fget(None).fromtags(tags, arrays)
+        return first.copy(content=awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0))
 
     _topandas_name = "ObjectSeries"
 
-- 
2.43.0


From 0231a0c9f6d1c7dfd3989af5e23cb68b2743402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 66/68] fix: JaggedArray.fromparents of nothing is no lists,
 not an IndexError

---
 awkward0/array/jagged.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 05b639e..ea3e161 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -74,6 +74,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def parents2startsstops(cls, parents, length=None):
         # FIXME for 1.0: use length to add empty lists at the end of the jagged array or truncate
         # assumes that children are contiguous, but not necessarily in order or fully covering (allows empty lists)
+        if len(parents) == 0:
+            empty = cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+            return empty, empty.copy()
+
         tmp = cls.numpy.nonzero(parents[1:] != parents[:-1])[0] + 1
         changes = cls.numpy.empty(len(tmp) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         changes[0] = 0
-- 
2.43.0


From 4f6bff5a69838d21e58d755a53ffee41d0d221ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 67/68] fix: JaggedArray.fromuniques of nothing is no lists,
 not an empty one

---
 awkward0/array/jagged.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ea3e161..0c56823 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -100,6 +100,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def uniques2offsetsparents(cls, uniques):
         # assumes that children are contiguous, in order, and fully covering (can't have empty lists)
         # values are ignored, apart from uniqueness
+        if len(uniques) == 0:
+            empty = cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+            return cls.JaggedArray.fget(None).counts2offsets(empty), empty
+
         changes = cls.numpy.nonzero(uniques[1:] != uniques[:-1])[0] + 1
 
         offsets = cls.numpy.empty(len(changes) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
-- 
2.43.0


From 722f22d6018a937cb6f4962d01621e6f27b042a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 68/68] fix: jagged masks of, and broadcasting into, lists that
 are all empty

---
 awkward0/array/jagged.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0c56823..f8d161f 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -860,6 +860,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 return self.copy(content=data._content)
 
             index = (self.localindex + self._starts).flatten()
+            if len(index) == 0:
+                nowhere = self.numpy.zeros_like(self._starts)   # only empty lists: their starts can be beyond the (empty) content
+                return self.copy(starts=nowhere, stops=nowhere, content=data.flatten())
             return self.copy(content=data.flatten()[self.IndexedArray.invert(index)])
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
@@ -929,6 +932,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self._stops or self.numpy.array_equal(stops, self._stops)):
             return self.copy(starts=starts, stops=stops, content=(self._util_deepcopy(self._content) if copy else self._content))
 
+        elif len(self._content) == 0:
+            nowhere = self.numpy.zeros_like(starts)             # only empty lists: nothing to put in the gaps before them
+            return self.copy(starts=nowhere, stops=nowhere, content=self._content)
+
         else:
             if self.offsetsaliased(starts, stops):
                 parents = self.offsets2parents(starts.base)
-- 
2.43.0

