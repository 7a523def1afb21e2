From 294679ade12deee986e11f601f8fbea4a896c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 01/48] fix: read and write big endian doubles in big endian
 byte order

---
 src/avb/ioctx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..35fac2d 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -450,11 +450,11 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_double_be(f):
-        return unpack(b"<d", f.read(8))[0]
+        return unpack(b">d", f.read(8))[0]
 
     @staticmethod
     def write_double_be(f, value):
-        f.write(pack(b"<d", value))
+        f.write(pack(b">d", value))
 
     @staticmethod
     def read_fourcc_be(f):
-- 
2.43.0


From a4a3d02a6a16395670a02ff49bcd7a6f5c0d51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 02/48] fix: terminate data descriptors so that they can be
 saved and read on their own

---
 src/avb/essence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..518ceee 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -1337,6 +1337,9 @@ class DataDescriptor(MediaFileDescriptor):
         self.min_sample_size = ctx.read_s32(f)
         self.max_sample_size = ctx.read_s32(f)
 
+        if self.class_id[:] == b'DATD':
+            ctx.read_assert_tag(f, 0x03)
+
     def write(self, f):
         super(DataDescriptor, self).write(f)
         ctx = self.root.octx
@@ -1349,6 +1352,9 @@ class DataDescriptor(MediaFileDescriptor):
         ctx.write_s32(f, self.min_sample_size)
         ctx.write_s32(f, self.max_sample_size)
 
+        if self.class_id[:] == b'DATD':
+            ctx.write_u8(f, 0x03)
+
 @utils.register_class
 class ANCDataDescriptor(DataDescriptor):
     class_id = b'ANCD'
-- 
2.43.0


From a8e630840a247ff1c37a57513303b32aff4b2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 03/48] fix: save objects whose optional mob id or utf-8 name
 is absent

---
 src/avb/components.py  |  6 ++++--
 src/avb/misc.py        | 27 +++++++++++++++++----------
 src/avb/trackgroups.py |  6 ++++--
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..6810561 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -295,8 +295,10 @@ class SourceClip(Clip):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x03)
 
-        lo = self.mob_id.material.time_low
-        hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
+        lo = hi = 0
+        if hasattr(self, 'mob_id'):
+            lo = self.mob_id.material.time_low
+            hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
 
         ctx.write_u32(f, lo)
         ctx.write_u32(f, hi)
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..72f47eb 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -575,8 +575,10 @@ class MSMLocator(core.AVBObject):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x02)
 
-        lo = self.mob_id.material.time_low
-        hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
+        lo = hi = 0
+        if hasattr(self, 'mob_id'):
+            lo = self.mob_id.material.time_low
+            hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
         ctx.write_u32(f, lo)
         ctx.write_u32(f, hi)
 
@@ -634,8 +636,10 @@ class Position(core.AVBObject):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
-        lo = self.mob_id.material.time_low
-        hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
+        lo = hi = 0
+        if hasattr(self, 'mob_id'):
+            lo = self.mob_id.material.time_low
+            hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
         ctx.write_u32(f, lo)
         ctx.write_u32(f, hi)
 
@@ -821,10 +825,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
@@ -863,8 +868,10 @@ class MobRef(core.AVBObject):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
-        lo = self.mob_id.material.time_low
-        hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
+        lo = hi = 0
+        if hasattr(self, 'mob_id'):
+            lo = self.mob_id.material.time_low
+            hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
 
         ctx.write_u32(f, lo)
         ctx.write_u32(f, hi)
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..28e6f75 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1087,8 +1087,10 @@ class Composition(TrackGroup):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x02)
 
-        lo = self.mob_id.material.time_low
-        hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
+        lo = hi = 0
+        if hasattr(self, 'mob_id'):
+            lo = self.mob_id.material.time_low
+            hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
         ctx.write_u32(f, lo)
         ctx.write_u32(f, hi)
         ctx.write_datetime(f, self.last_modified)
-- 
2.43.0


From 2a7f592790d4cfa8c711e1788950316d6a8b84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 04/48] fix: save audio suite effects whose mob id has its high
 bit set

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 28e6f75..fb92549 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From bf43fb68d8a28d1c63afd54857b107ecb7e9e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 05/48] fix: save MPEG audio sub frame alignment as the
 unsigned value it is read as

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index 518ceee..38126e7 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From 191a418283699d3c0da480da1b159684c4f63248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 06/48] fix: refuse to write strings that would not be read
 back

---
 src/avb/ioctx.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 35fac2d..ded8b43 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -166,10 +166,18 @@ class AVBIOContext(object):
             return
 
         data = s.encode(encoding)
+        # null bytes at either end are padding and not part of the text
+        if data[:1] == b'\x00' or data[-1:] == b'\x00':
+            raise ValueError("string cannot start or end with a null character")
+
         if encoding == 'utf-8':
             data = b'\x00\x00' + data
 
         size = len(data)
+        # 0xFFFF marks a string that is not present
+        if size >= 65535:
+            raise ValueError("string too long: %d bytes" % size)
+
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From e39cc3e89cd77d6b74ae68983308d41b143c9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 07/48] fix: copies are independent of the original and keep
 missing properties missing

---
 src/avb/attributes.py |  2 ++
 src/avb/core.py       | 33 +++++++++++++++------------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..d2c63e4 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -61,6 +61,8 @@ class Attributes(AVBPropertyData):
                 obj[key] = value[:]
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
+            elif value is None:
+                obj[key] = None
             else:
                 obj[key] = value.copy(root)
         return obj
diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..c35b264 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -5,6 +5,7 @@ from __future__ import (
     division,
     )
 
+import copy
 import sys
 from collections import OrderedDict
 from . import utils
@@ -74,7 +75,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(copy_value(item, root))
         return obj
 
     def extend(self, x):
@@ -163,6 +164,14 @@ def walk_references(obj):
         yield obj
 
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    elif isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    return copy.deepcopy(value)
+
+
 class AVBObject(object):
     propertydefs = []
     propertydefs_dict = None
@@ -220,24 +229,12 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+        # drop defaults, properties missing in the original stay missing
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From e967321cb954eb4b996f39354705b3ae13fdf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 08/48] fix: objects do not share mutable default values

---
 src/avb/bin.py  | 2 +-
 src/avb/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..508829c 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend(dict(column) for column in default_bin_columns)
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index c35b264..109709e 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -188,7 +188,7 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            self.__setattr__(pdef.name, copy.deepcopy(pdef.default))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From c0af661de64a6eafacea02b40f6530056b83e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 09/48] fix: audio suite plugins can be created and copied

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index fb92549..681e74d 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -414,8 +414,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__(self)
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From a0e291741fe6e5eb9cf50dce95349d67f2082654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 10/48] fix: reference lists behave like lists of the objects
 they hold

---
 src/avb/core.py | 71 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 109709e..8d1f919 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -78,8 +78,15 @@ class AVBRefList(list):
             obj.append(copy_value(item, root))
         return obj
 
+    def resolved(self):
+        return [value for value in self]
+
+    def replace(self, values):
+        super(AVBRefList, self).__setitem__(slice(None), values)
+        self.mark_modified()
+
     def extend(self, x):
-        super(AVBRefList, self).extend(x)
+        super(AVBRefList, self).extend([value for value in x])
         self.mark_modified()
 
     def append(self, x):
@@ -91,7 +98,7 @@ class AVBRefList(list):
         self.mark_modified()
 
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
+        super(AVBRefList, self).__delitem__(self.resolved().index(x))
         self.mark_modified()
 
     def pop(self, i=-1):
@@ -99,17 +106,20 @@ class AVBRefList(list):
         self.mark_modified()
         return result
 
+    def index(self, x, *args):
+        return self.resolved().index(x, *args)
+
+    def count(self, x):
+        return self.resolved().count(x)
+
     def clear(self):
-        super(AVBRefList, self)
-        self.mark_modified()
+        self.replace([])
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
-        self.mark_modified()
+        self.replace(sorted(self.resolved(), key=key, reverse=reverse))
 
     def reverse(self):
-        super(AVBRefList, self)
-        self.mark_modified()
+        self.replace(self.resolved()[::-1])
 
     def deref(self, value):
         if isinstance(value, INT_FORMAT):
@@ -120,9 +130,14 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        value = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(item) for item in value]
+        return self.deref(value)
 
     def __setitem__(self, index, value):
+        if isinstance(index, slice):
+            value = [item for item in value]
         super(AVBRefList, self).__setitem__(index, value)
         self.mark_modified()
 
@@ -134,6 +149,44 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
+    def __contains__(self, x):
+        return x in self.resolved()
+
+    def __eq__(self, other):
+        if not isinstance(other, list):
+            return NotImplemented
+        return self.resolved() == [value for value in other]
+
+    def __ne__(self, other):
+        if not isinstance(other, list):
+            return NotImplemented
+        return self.resolved() != [value for value in other]
+
+    __hash__ = None
+
+    def __add__(self, other):
+        return self.resolved() + other
+
+    def __radd__(self, other):
+        return other + self.resolved()
+
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
+    def __mul__(self, n):
+        return self.resolved() * n
+
+    __rmul__ = __mul__
+
+    def __imul__(self, n):
+        self.replace(self.resolved() * n)
+        return self
+
 def walk_references(obj):
 
     if isinstance(obj, list):
-- 
2.43.0


From a6792fa425d3f83e8d46af4cb4b37e824e50c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 11/48] fix: attribute dictionaries never expose raw references
 and record every change

---
 src/avb/attributes.py |  9 +++++++++
 src/avb/core.py       | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index d2c63e4..85eb2ce 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -50,6 +50,15 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return result
 
+    def popitem(self, last=True):
+        result = super(Attributes, self).popitem(last)
+        self.mark_modified()
+        return result
+
+    def move_to_end(self, key, last=True):
+        super(Attributes, self).move_to_end(key, last)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
diff --git a/src/avb/core.py b/src/avb/core.py
index 8d1f919..232ed70 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -47,9 +47,37 @@ class AVBPropertyData(OrderedDict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        return [self.deref(value) for value in super(AVBPropertyData, self).values()]
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+    def pop(self, *args, **kwargs):
+        return self.deref(super(AVBPropertyData, self).pop(*args, **kwargs))
+
+    def popitem(self, last=True):
+        key, value = super(AVBPropertyData, self).popitem(last)
+        return key, self.deref(value)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __eq__(self, other):
+        if isinstance(other, OrderedDict):
+            return list(self.items()) == list(other.items())
+        elif isinstance(other, dict):
+            return dict(self.items()) == other
+        return NotImplemented
+
+    def __ne__(self, other):
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
+
+    __hash__ = None
+
 @utils.register_helper_class
 class AVBRefList(list):
     propertydefs = []
-- 
2.43.0


From 8b8f38bb2f4d8f44626ddf4544a5455326b7f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 12/48] fix: finding a mob reflects the current contents of the
 bin

---
 src/avb/bin.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 508829c..2978c07 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -371,21 +371,25 @@ class Bin(core.AVBObject):
 
     def find_by_mob_id(self, mob_id):
 
+        # the index is only trusted if its entry still is what the bin contains
+        item, mob = self._mob_dict.get(mob_id, (None, None))
+        if mob and item.mob is mob and mob.get('mob_id', None) == mob_id and item in self.items:
+            return mob
+
         # build mob_id dictionary
-        if not self._mob_dict:
-            for mob in self.mobs:
-                self._mob_dict[mob.mob_id] = mob
+        self._mob_dict = {}
+        for item in self.items:
+            mob = item.mob
+            if mob and 'mob_id' in mob.property_data:
+                self._mob_dict[mob.mob_id] = (item, mob)
 
-        return self._mob_dict.get(mob_id, None)
+        return self._mob_dict.get(mob_id, (None, None))[1]
 
     def add_mob(self, mob):
         bin_item = self.root.create.BinItem()
         bin_item.mob = mob
         self.items.append(bin_item)
 
-        if self._mob_dict:
-            self._mob_dict[mob.mob_id] = mob
-
         return bin_item
 
     @property
-- 
2.43.0


From 6e3d2bc38b3f54a7e25b51e50950d5258abe1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 13/48] fix: listing dependant mobs ends if mobs refer to each
 other

---
 src/avb/trackgroups.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 681e74d..10ff952 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -230,28 +230,31 @@ class TrackGroup(Component):
             Yields all mobs that this mob is dependant on in depth first order.
         """
 
+        def source_mobs(mob):
+            clips = [obj for obj in walk_references(mob) if isinstance(obj, SourceClip)]
+            for clip in reversed(clips):
+                ref_mob = clip.mob
+                if ref_mob:
+                    yield ref_mob
+
+        # mobs that are being processed count as visited, mobs can refer to each other
         visited = set()
-        stack = [self]
+        if 'mob_id' in self.property_data:
+            visited.add(self.mob_id)
+        stack = [(self, source_mobs(self))]
 
         while stack:
-            mob = stack[-1]
-            children_processed = True
-
-            for obj in walk_references(mob):
-                if isinstance(obj, SourceClip):
-                    ref_mob = obj.mob
-                    if not ref_mob:
-                        continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
-
-            if children_processed:
+            mob, children = stack[-1]
+
+            for ref_mob in children:
+                if ref_mob.mob_id not in visited:
+                    visited.add(ref_mob.mob_id)
+                    stack.append((ref_mob, source_mobs(ref_mob)))
+                    break
+            else:
                 stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
-                    if mob is not self:
-                        yield mob
+                if mob is not self:
+                    yield mob
 
 
 @utils.register_class
-- 
2.43.0


From 694fe89e1895c8f05ab27fd59b95a4cb5f49989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 14/48] fix: tracks without a component have no media kind

---
 src/avb/trackgroups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 10ff952..e324114 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -46,8 +46,9 @@ class Track(core.AVBObject):
 
     @property
     def media_kind(self):
-        if hasattr(self, 'component'):
-            return self.component.media_kind
+        component = self.get('component', None)
+        if component:
+            return component.media_kind
 
     @property
     def flags(self):
-- 
2.43.0


From a0627a2a7b56fb419e19c2997823e8c392fb007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 15/48] fix: find the track of a source clip if other tracks
 have optional parts missing

---
 src/avb/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 6810561..eb6ed0e 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -325,7 +325,8 @@ class SourceClip(Clip):
         mob = self.mob
         if mob:
             for track in mob.tracks:
-                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:
+                component = track.get('component', None)
+                if component and track.get('index', None) == self.track_id and self.media_kind == component.media_kind:
                     return track
 
 @utils.register_class
-- 
2.43.0


From db1114c2b50f619651408fa9e4390064539dc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 16/48] fix: the nearest component at the start of a component
 is the component itself

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index eb6ed0e..e45f8d9 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -211,7 +211,7 @@ class Sequence(Component):
                     return index, position
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index, last_pos
 
             last_component = component
-- 
2.43.0


From 3ea2b1fda88e331c0cbe54b1a7001e8ad3f766e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 17/48] fix: created mobs get the name they are given

---
 src/avb/trackgroups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index e324114..1153402 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1042,7 +1042,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
-- 
2.43.0


From 9d24a4379d24182a2bc9351499c991a608c205e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 18/48] fix: creating a mob of an unknown type is an error

---
 src/avb/trackgroups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 1153402..a37a8a8 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1052,7 +1052,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 720f261cb9259f983c0b4eefd5d36a733ebd025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:58 +0000
Subject: [PATCH 19/48] fix: bin items without a mob are not listed as mobs

---
 src/avb/bin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 2978c07..1f58b92 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -395,7 +395,9 @@ class Bin(core.AVBObject):
     @property
     def mobs(self):
         for item in self.items:
-            yield item.mob
+            mob = item.mob
+            if mob:
+                yield mob
 
     def toplevel(self):
         for mob in self.mobs:
-- 
2.43.0


From 8113522c43c236a79a0770d69e5f9a8f74c0c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 20/48] fix: bezier interpolation always finds the value of the
 curve

---
 src/avb/interpolation.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..ff29b7c 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -56,7 +56,7 @@ def bezier_cubic_roots(pa, pb, pc, pd):
             return result
 
         # quadratic solution
-        q = math.sqrt(b*b - 4*a*c)
+        q = math.sqrt(max(0.0, b*b - 4*a*c))
         a2 = 2.0*a
         root = (q-b)/a2
         if valid_root(root):
@@ -152,7 +152,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
@@ -175,13 +175,25 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     pd = p3[0] - x
 
     # solve for x = 0
-    roots = bezier_cubic_roots(pa, pb, pc, pd)
-    if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+    roots = [min(1.0, max(0.0, r)) for r in bezier_cubic_roots(pa, pb, pc, pd)]
+
+    # there can be floating point error, use the best root
+    root = None
+    if roots:
+        root = min(roots, key=lambda r: abs(cubic_bezier(pa, pb, pc, pd, r)))
+
+    if root is None or abs(cubic_bezier(pa, pb, pc, pd, root)) > EPSILON * (pd - pa):
+        # the handles are between p0 and p3, so the x axis never decreases
+        start, end = 0.0, 1.0
+        for i in range(64):
+            root = (start + end) * 0.5
+            if cubic_bezier(pa, pb, pc, pd, root) < 0.0:
+                start = root
+            else:
+                end = root
 
     # use the root as t for y
-    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
+    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], root)
     return y
 
 def bezier_interpolate_old(p0, p1, p2, p3, t):
-- 
2.43.0


From f1362d2b76d0cacc003e8cf151c1d04eb234904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 21/48] fix: the value at a control point is the value of the
 control point

---
 src/avb/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index e45f8d9..2233b2e 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -716,7 +716,8 @@ class ParamClip(Clip):
         p1 = self.control_points[index]
 
         # clamp if t outside of range
-        if t < p1.time or index + 1 >= len(self.control_points):
+        # or exactly on a control point
+        if t <= p1.time or index + 1 >= len(self.control_points):
             return float(p1.value)
 
         if self.interp == 'ConstantInterp':
-- 
2.43.0


From 8e0002c2eb589cf8ea588eaa71e2631d5dbbda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 22/48] fix: integrate speed curves up to an end before the
 first control point

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 2233b2e..0360932 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -805,7 +805,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
-- 
2.43.0


From e8eaeddeb5c90c895572959618aa9f59731067cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 23/48] fix: integrate empty and single frame ranges

---
 src/avb/interpolation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index ff29b7c..fafa3d8 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -309,6 +309,7 @@ def integrate_iter(value_at_func, start, end):
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
         yield t, pos
 
-    t += 0.5
-    pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
-    yield t, pos
\ No newline at end of file
+    if end > start:
+        t = float(end-1)
+        pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
+        yield t, pos
\ No newline at end of file
-- 
2.43.0


From 534b5c02cb79981a2028e55135e77d219bc4c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 24/48] fix: refuse integers that do not fit into a mob id

---
 src/avb/mobid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/mobid.py b/src/avb/mobid.py
index c7d0ec2..d6cab08 100644
--- a/src/avb/mobid.py
+++ b/src/avb/mobid.py
@@ -324,6 +324,8 @@ class MobID(object):
     @int.setter
     def int(self, value):
         # NOTE: interpreted as big endian
+        if value < 0 or value >> 256:
+            raise ValueError("mob id must fit in 32 bytes")
         self.bytes_le = bytearray(bytes_from_int(value, 32, byte_order='big'))
 
     def __int__(self):
-- 
2.43.0


From 3b5c83a6a332ddb16dc363e6ccccc27a1977be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 25/48] fix: read decimal floats as the nearest float

---
 src/avb/_ext_core.cpp | 4 ++++
 src/avb/ioctx.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..239a6a4 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -226,6 +226,10 @@ static inline double read_exp10_encoded_float(Buffer *f)
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
+    // dividing is exact, 0.001 and the like are not
+    if (exp10 < 0 && exp10 >= -22)
+        return mantissa / pow(10.0, -(int)exp10);
+
     return mantissa * pow(10.0, (int)exp10);
 }
 
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index ded8b43..f56a58c 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -129,6 +129,10 @@ class AVBIOContext(object):
         mantissa = self.read_s32(f)
         exp10 = self.read_s16(f)
 
+        # dividing is exact, 0.001 and the like are not
+        if -22 <= exp10 < 0:
+            return float(mantissa) / pow(10, -exp10)
+
         return float(mantissa) * pow(10, exp10)
 
     def write_exp10_encoded_float(self, f, value):
-- 
2.43.0


From 76511e81762dd07c21cfe5f26ea261bf4db47cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 26/48] fix: write decimal floats without accumulating errors

---
 src/avb/ioctx.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index f56a58c..86d82e3 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -14,7 +14,7 @@ from .utils import AVBObjectRef
 from .mobid import MobID
 
 exp10_pretty = {
-5994: (59940, -3),
+(5994, -2): (59940, -3),
 }
 
 class AVBIOContext(object):
@@ -136,22 +136,30 @@ class AVBIOContext(object):
         return float(mantissa) * pow(10, exp10)
 
     def write_exp10_encoded_float(self, f, value):
-        exponent = 0
-        while int(value) != value:
-            if abs(value * 10) >= 0x7FFFFFFF:
+        # as many decimal digits as fit into the mantissa
+        for precision in (9, 8):
+            digits, exponent = ('%.*e' % (precision, value)).split('e')
+            mantissa = int(digits.replace('.', ''))
+            exponent = int(exponent) - precision
+            if -0x80000000 <= mantissa <= 0x7FFFFFFF:
                 break
-            if exponent <= -6:
-                break
-            value *= 10
-            exponent -= 1
+
+        while exponent < 0 and mantissa % 10 == 0:
+            mantissa //= 10
+            exponent += 1
+
+        if exponent > 0:
+            # too big for a fraction, must be exact
+            if mantissa * 10 ** exponent != value:
+                raise ValueError("cannot encode float: %s" % str(value))
+            if -0x80000000 <= mantissa * 10 ** exponent <= 0x7FFFFFFF:
+                mantissa *= 10 ** exponent
+                exponent = 0
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
-            self.write_s32(f, exp10_pretty[value][0])
-            self.write_s16(f, exp10_pretty[value][1])
-        else:
-            self.write_s32(f, int(value))
-            self.write_s16(f, exponent)
+        mantissa, exponent = exp10_pretty.get((mantissa, exponent), (mantissa, exponent))
+        self.write_s32(f, mantissa)
+        self.write_s16(f, exponent)
 
 
     def read_string(self, f, encoding = 'macroman'):
-- 
2.43.0


From 2a3f47b5e08a5efd4687f447a80d9b70077f43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 27/48] fix: save times inside the repeated hour at the end of
 daylight saving

---
 src/avb/ioctx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 86d82e3..d31a97f 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -92,6 +92,12 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        # mktime knows neither the time zone of d nor which one of two
+        # repeated local times at the end of daylight saving it is
+        if hasattr(d, 'timestamp'):
+            return int(d.timestamp())
+
+        # python 2
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From 895a3ab3d397c3f38cdf25184b08a1393cc437d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:42 +0000
Subject: [PATCH 28/48] fix: factory attributes keep building their own class

---
 src/avb/file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..7f0ff4a 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -7,6 +7,7 @@ from __future__ import (
 
 import datetime
 
+import functools
 import struct
 import io
 import os
@@ -58,11 +59,9 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        return functools.partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
 
@@ -84,9 +83,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 4bd3820f05898c677f264978a4f9b1c55ea7b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:42 +0000
Subject: [PATCH 29/48] fix: walk shared references once, deep references and
 report cycles

---
 src/avb/core.py | 59 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 232ed70..2eebde9 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -215,8 +215,14 @@ class AVBRefList(list):
         self.replace(self.resolved() * n)
         return self
 
-def walk_references(obj):
-
+def is_referable(obj):
+    return bool(getattr(obj, 'class_id', None))
+
+def direct_references(obj):
+    """
+    objects obj refers to, either itself or by the lists and
+    helper objects it contains
+    """
     if isinstance(obj, list):
         property_values = obj
     elif isinstance(obj, dict):
@@ -229,20 +235,47 @@ def walk_references(obj):
     for v in property_values:
         if isinstance(v, utils.AVBObjectRef):
             v = v.value
-        if v is None:
-            continue
 
-        if isinstance(v, list):
+        if is_referable(v):
+            yield v
+        elif isinstance(v, list):
             for item in v:
-                for sub_v in walk_references(item):
-                    yield sub_v
+                if is_referable(item):
+                    yield item
+                else:
+                    for sub_v in direct_references(item):
+                        yield sub_v
 
-        if hasattr(v, 'class_id') and v.class_id:
-            for sub_v in walk_references(v):
-                yield sub_v
-
-    if hasattr(obj, 'class_id') and obj.class_id:
-        yield obj
+def walk_references(obj):
+    """
+    every object reachable from obj once, after the objects it refers to
+    """
+    # the same object can be a different instance if it was not held
+    def get_key(obj):
+        if hasattr(obj, 'instance_id'):
+            return (id(obj.root), obj.instance_id)
+        return id(obj)
+
+    visited = set()
+    active = set([get_key(obj)])
+    stack = [(obj, direct_references(obj))]
+
+    while stack:
+        parent, references = stack[-1]
+        for v in references:
+            key = get_key(v)
+            if key in active:
+                raise ValueError("object refers to itself: %s" % str(v.class_id))
+            if key not in visited:
+                active.add(key)
+                stack.append((v, direct_references(v)))
+                break
+        else:
+            stack.pop()
+            active.remove(get_key(parent))
+            visited.add(get_key(parent))
+            if is_referable(parent):
+                yield parent
 
 
 def copy_value(value, root):
-- 
2.43.0


From cb5b68b6f7859a34dcb94fa6beadd2e89ac45a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:12 +0000
Subject: [PATCH 30/48] fix: refuse to save every object of another file

---
 src/avb/file.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 7f0ff4a..a2da769 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -320,8 +320,6 @@ class AVBFile(object):
 
     def write_object(self, f, obj):
         buffer = io.BytesIO()
-        if self.octx != obj.root.octx:
-            raise ValueError("object is from different file: " + str(obj))
         obj.write(buffer)
         data = buffer.getvalue()
         assert data[-1:] == b'\x03'
@@ -350,8 +348,9 @@ class AVBFile(object):
             with io.open(path, 'wb') as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
-                    if obj.instance_id in self.ref_mapping:
-                        continue
+                    # instance ids are only unique within one file
+                    if obj.root is not self:
+                        raise ValueError("object is from different file: " + str(obj))
 
                     self.next_chunk_id += 1
                     self.ref_mapping[obj.instance_id] = self.next_chunk_id
-- 
2.43.0


From db0e7d7f73c6ec1eca1628dcfa720c0f2e286f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:12 +0000
Subject: [PATCH 31/48] fix: refuse files without root object

---
 src/avb/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index a2da769..71180c9 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -175,6 +175,10 @@ class AVBFile(object):
 
             f.seek(size, os.SEEK_CUR)
 
+        # incomplete files have no root object
+        if not 0 < self.root_index <= num_objects:
+            raise ValueError("bad root index: %d" % self.root_index)
+
         self.content = self.read_object(self.root_index)
 
     def setup_empty(self):
-- 
2.43.0


From 1953c5bd992b1e1dc2d9ee9826932a197ffed8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 32/48] fix: a failed save keeps the file and saving over the
 opened file works

---
 src/avb/file.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index 71180c9..22d3e96 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -11,6 +11,8 @@ import functools
 import struct
 import io
 import os
+import shutil
+import uuid
 import binascii
 import traceback
 import array
@@ -344,6 +346,32 @@ class AVBFile(object):
         #     raise Exception()
 
     def write(self, path, byte_order='little'):
+
+        # pipes and devices cannot be replaced
+        if isinstance(path, int) or (os.path.exists(path) and not os.path.isfile(path)):
+            self.write_file(path, byte_order)
+            return
+
+        # Replace the file after everything is written. It stays intact if
+        # writing fails and it could be the file objects are read from.
+        path = os.path.realpath(path)
+        if hasattr(os, 'fsdecode'):
+            path = os.fsdecode(path)
+        temp_path = os.path.join(os.path.dirname(path), str('.%s.avb.tmp') % uuid.uuid4().hex)
+
+        try:
+            self.write_file(temp_path, byte_order)
+            if os.path.exists(path):
+                shutil.copymode(path, temp_path)
+
+            # python 2 has no replace
+            getattr(os, 'replace', os.rename)(temp_path, path)
+        except:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
+
+    def write_file(self, path, byte_order):
         self.next_chunk_id = 0
         self.ref_mapping = {}
         ctx = AVBIOContext(byte_order)
-- 
2.43.0


From b0bbab1051b6a19fdfdff30fe1b964667f1eea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:02 +0000
Subject: [PATCH 33/48] fix: keep changes of helper objects, lists and binary
 data made in place

---
 src/avb/attributes.py |  5 +++++
 src/avb/core.py       | 12 ++++++++++++
 src/avb/file.py       |  7 +++++++
 3 files changed, 24 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 85eb2ce..7a72202 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -33,6 +33,11 @@ class Attributes(AVBPropertyData):
         if not self.root.reading:
             self.root.add_modified(self)
 
+    def deref(self, value):
+        if isinstance(value, bytearray) and hasattr(self, 'instance_id'):
+            self.root.hold(self)
+        return super(Attributes, self).deref(value)
+
     def __setitem__(self, key, value):
         super(Attributes, self).__setitem__(key, value)
         self.mark_modified()
diff --git a/src/avb/core.py b/src/avb/core.py
index 2eebde9..2ccbc63 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -9,6 +9,7 @@ import copy
 import sys
 from collections import OrderedDict
 from . import utils
+from .mobid import MobID
 
 sentinel = object()
 
@@ -286,6 +287,15 @@ def copy_value(value, root):
     return copy.deepcopy(value)
 
 
+def is_record(value):
+    """
+    True for values that can be changed in place without their owner noticing
+    """
+    if isinstance(value, (AVBObject, list, dict, bytearray, MobID)):
+        return not is_referable(value)
+    return False
+
+
 class AVBObject(object):
     propertydefs = []
     propertydefs_dict = None
@@ -331,6 +341,8 @@ class AVBObject(object):
     def __getattr__(self, name):
         v = self.property_data.get(name, sentinel)
         if v is not sentinel:
+            if is_record(v) and hasattr(self, 'instance_id'):
+                self.root.hold(self)
             return v
 
         raise AttributeError("'%s' has no attribute '%s'" % (self.__class__.__name__, name))
diff --git a/src/avb/file.py b/src/avb/file.py
index 22d3e96..b3539a4 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -107,6 +107,7 @@ class AVBFile(object):
         self.create = AVBFactory(self)
         self.object_cache = WeakValueDictionary()
         self.modified_objects = {}
+        self.held_objects = {}
         self.next_object_id = 0
 
         self.octx = None
@@ -197,6 +198,12 @@ class AVBFile(object):
     def add_modified(self, obj):
         self.modified_objects[obj.instance_id] = obj
 
+    def hold(self, obj):
+        # Changes of lists and helper objects are not noticed, objects that
+        # have handed out one need to stay. Saving does not change anything.
+        if self.octx is None:
+            self.held_objects[obj.instance_id] = obj
+
     def write_header(self, f):
 
         ctx = self.octx
-- 
2.43.0


From 2901169b2ba022264890a35cb8976d92ffa1739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 34/48] fix: mobs can be created with a name argument

---
 src/avb/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index b3539a4..f092ca7 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -65,11 +65,11 @@ class AVBFactory(object):
     def __getattr__(self, name):
         return functools.partial(self.from_name, name)
 
-    def from_name(self, name, *args, **kwargs):
+    def from_name(self, class_name, *args, **kwargs):
 
-        classobj = utils.AVBClassName_dict.get(name, None)
+        classobj = utils.AVBClassName_dict.get(class_name, None)
         if not classobj:
-            raise ValueError("could not find class for: " + name)
+            raise ValueError("could not find class for: " + class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
-- 
2.43.0


From 43f71f82157f10a23cbf6e9bb378c10cf0a144e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 35/48] fix: refuse optional descriptor values that are only
 saved together

---
 src/avb/essence.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index 38126e7..4b127af 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -831,7 +831,8 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.first_frame_offset)
 
-        if hasattr(self, 'client_fill_start'):
+        # these are saved together, it's an error if only some are present
+        if hasattr(self, 'client_fill_start') or hasattr(self, 'client_fill_end'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x04)
             ctx.write_u8(f, 71)
@@ -852,7 +853,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.frame_start_offset)
 
-        if hasattr(self, 'valid_box') and hasattr(self, 'essence_box') and hasattr(self, 'source_box'):
+        if hasattr(self, 'valid_box') or hasattr(self, 'essence_box') or hasattr(self, 'source_box'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x08)
 
@@ -919,7 +920,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.source_box[3][1])
 
-        if hasattr(self, 'framing_box') and hasattr(self, 'reformatting_option'):
+        if hasattr(self, 'framing_box') or hasattr(self, 'reformatting_option'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 9)
 
@@ -953,7 +954,7 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 80)
             ctx.write_raw_uuid(f, self.transfer_characteristic)
 
-        if hasattr(self, 'color_primaries') and hasattr(self, 'coding_equations'):
+        if hasattr(self, 'color_primaries') or hasattr(self, 'coding_equations'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 11)
             ctx.write_u8(f, 80)
@@ -1286,7 +1287,8 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 77)
             ctx.write_u64(f, self.frame_index_offset)
 
-        if hasattr(self, 'has_comp_min_ref'):
+        comp_refs = ('has_comp_min_ref', 'comp_min_ref', 'has_comp_max_ref', 'comp_max_ref')
+        if any(hasattr(self, name) for name in comp_refs):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x02)
             ctx.write_u8(f, 66)
@@ -1301,7 +1303,7 @@ class RGBADescriptor(DIDDescriptor):
             ctx.write_u8(f, 72)
             ctx.write_u32(f, self.comp_max_ref)
 
-        if hasattr(self, 'alpha_min_ref'):
+        if hasattr(self, 'alpha_min_ref') or hasattr(self, 'alpha_max_ref'):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x03)
             ctx.write_u8(f, 72)
-- 
2.43.0


From 73dd55db0500b5ad9ed55ab3e02c16c0b6996bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 36/48] fix: refuse fixed size lists that are too long

---
 src/avb/bin.py         | 10 +++++-----
 src/avb/essence.py     | 10 ++++++++--
 src/avb/ioctx.py       |  2 ++
 src/avb/misc.py        |  1 +
 src/avb/trackgroups.py |  5 +++--
 5 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 1f58b92..516e56f 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -340,8 +340,8 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, self.display_mode)
         ctx.write_bool(f, self.sifted)
 
-        for i in range(6):
-            s = self.sifted_settings[i]
+        assert len(self.sifted_settings) == 6
+        for s in self.sifted_settings:
             ctx.write_s16(f, s.method)
             ctx.write_string(f, s.string)
             ctx.write_string(f, s.column)
@@ -349,9 +349,9 @@ class Bin(core.AVBObject):
 
         ctx.write_s16(f, len(self.sort_columns))
 
-        for col in self.sort_columns:
-            ctx.write_u8(f, col[0])
-            ctx.write_string(f, col[1])
+        for direction, col in self.sort_columns:
+            ctx.write_u8(f, direction)
+            ctx.write_string(f, col)
 
         ctx.write_s16(f, self.mac_font)
         ctx.write_s16(f, self.mac_font_size)
diff --git a/src/avb/essence.py b/src/avb/essence.py
index 4b127af..4c12517 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -792,8 +792,9 @@ class DIDDescriptor(MediaFileDescriptor):
 
         ctx.write_s16(f, self.frame_layout)
 
-        ctx.write_s32(f, self.aspect_ratio[0])
-        ctx.write_s32(f, self.aspect_ratio[1])
+        numerator, denominator = self.aspect_ratio
+        ctx.write_s32(f, numerator)
+        ctx.write_s32(f, denominator)
 
         ctx.write_s32(f, len(self.line_map) * 4)
         for i in self.line_map:
@@ -857,6 +858,9 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x08)
 
+            for box in (self.valid_box, self.essence_box, self.source_box):
+                assert [len(point) for point in box] == [2, 2, 2, 2]
+
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.valid_box[0][0])
             ctx.write_u8(f, 71)
@@ -924,6 +928,8 @@ class DIDDescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 9)
 
+            assert [len(point) for point in self.framing_box] == [2, 2, 2, 2]
+
             # print("\n??!", peek_data(f).encode('hex'), '\n')
             ctx.write_u8(f, 71)
             ctx.write_s32(f, self.framing_box[0][0])
diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index d31a97f..1be56bc 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -328,6 +328,7 @@ class AVBIOContext(object):
         return [a,b,c,d]
 
     def write_rect(self, f, v):
+        assert len(v) == 4
         self.write_s16(f, 1)
         self.write_s16(f, v[0])
         self.write_s16(f, v[1])
@@ -344,6 +345,7 @@ class AVBIOContext(object):
         return [r,g,b]
 
     def write_rgb_color(self, f, v):
+        assert len(v) == 3
         self.write_s16(f, 1)
         self.write_u16(f, v[0])
         self.write_u16(f, v[1])
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 72f47eb..7f3e4b2 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -938,6 +938,7 @@ class Marker(MobRef):
         #version
         ctx.write_s16(f, 1)
 
+        assert len(self.color) == 3
         for c in self.color:
             ctx.write_u16(f, c)
 
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index a37a8a8..fae4b65 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -813,8 +813,9 @@ class MotionEffect(TimeWarp):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x03)
 
-        ctx.write_s32(f, self.speed_ratio[0])
-        ctx.write_s32(f, self.speed_ratio[1])
+        num, den = self.speed_ratio
+        ctx.write_s32(f, num)
+        ctx.write_s32(f, den)
 
         if hasattr(self, 'offset_adjust'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From 347bf334918f9c48ad117b8dcc08f7c412bfa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 37/48] fix: refuse selectors and plugin lists that cannot be
 read back

---
 src/avb/trackgroups.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index fae4b65..8d6e4a3 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -546,6 +546,8 @@ class AudioSuitePluginEffect(TrackEffect):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        # anything else cannot be read
+        assert len(self.plugins) == 1
         ctx.write_s32(f, len(self.plugins))
         for plugin in self.plugins:
             ctx.write_string(f, plugin.name)
@@ -1017,6 +1019,7 @@ class Selector(TrackGroup):
         ctx.write_u8(f, 0x02)
         ctx.write_u8(f, 0x01)
 
+        assert self.selected < len(self.tracks)
         ctx.write_bool(f, self.is_ganged)
         ctx.write_u16(f, self.selected)
 
-- 
2.43.0


From a5cfb4fd043976956ca858d240c7d5348b203790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:24 +0000
Subject: [PATCH 38/48] fix: refuse control points and boxes of a wrong size

---
 src/avb/components.py | 4 ++++
 src/avb/misc.py       | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/avb/components.py b/src/avb/components.py
index 0360932..caa5724 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -630,6 +630,7 @@ class ParamClip(Clip):
         ctx.write_s32(f, len(self.control_points))
 
         for cp in self.control_points:
+            assert len(cp.offset) == 2
             ctx.write_s32(f, cp.offset[0])
             ctx.write_s32(f, cp.offset[1])
             ctx.write_s32(f, cp.timescale)
@@ -914,17 +915,20 @@ class ControlClip(Clip):
 
         ctx.write_s32(f, len(self.control_points))
         for cp in self.control_points:
+            assert len(cp.offset) == 2
             ctx.write_s32(f, cp.offset[0])
             ctx.write_s32(f, cp.offset[1])
             ctx.write_s32(f, cp.time_scale)
 
             ctx.write_bool(f, True)
+            assert len(cp.value) == 2
             ctx.write_s32(f, cp.value[0])
             ctx.write_s32(f, cp.value[1])
 
             ctx.write_s16(f, len(cp.pp))
             for pp in cp.pp:
                 ctx.write_s16(f, pp.code)
+                assert len(pp.value) == 2
                 ctx.write_s32(f, pp.value[0])
                 ctx.write_s32(f, pp.value[1])
 
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 7f3e4b2..d8e0944 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -353,6 +353,7 @@ class EffectParamList(core.AVBObject):
             ctx.write_s32(f, p.crop_top)
             ctx.write_s32(f, p.crop_bottom)
 
+            assert len(p.box) == 4
             # boxTop
             ctx.write_s32(f, p.box[0])
             # boxBottom
-- 
2.43.0


From 8a92e848bf11e4bfb01f1bc73c0e02008f3cb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 39/48] fix: chunk hex dumps of big endian files had a little
 endian header

---
 src/avb/file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index f092ca7..1df1d81 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -44,8 +44,12 @@ class AVBChunk(object):
     def hex(self):
         ctx = self.root.ictx
 
-        header = ctx.reverse_str(self.class_id)
-        size = struct.pack(b"<I", self.size)
+        if ctx.byte_order == 'little':
+            header = ctx.reverse_str(self.class_id)
+            size = struct.pack(b"<I", self.size)
+        else:
+            header = self.class_id
+            size = struct.pack(b">I", self.size)
         data =  header + size + self.read()
         return binascii.hexlify(data)
 
-- 
2.43.0


From 8cafb7ac98e6949cee09dcd6d7c2abf869dc5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 40/48] fix: a damaged object count could exhaust the memory

---
 src/avb/file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 1df1d81..23a3e90 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -172,16 +172,18 @@ class AVBFile(object):
 
         self.root_chunk = AVBChunk(self, b'OBJD', pos, f.tell() - pos)
 
-        self.object_positions = array.array(str('L'), [0 for i in range(num_objects+1)])
-        self.next_object_id = len(self.object_positions)
+        # the number of objects is not trusted before they are found
+        self.object_positions = array.array(str('L'), [0])
 
         for i in range(num_objects):
-            self.object_positions[i+1] = f.tell()
+            self.object_positions.append(f.tell())
             class_id = f.read(4)
             size = ctx.read_u32(f)
 
             f.seek(size, os.SEEK_CUR)
 
+        self.next_object_id = len(self.object_positions)
+
         # incomplete files have no root object
         if not 0 < self.root_index <= num_objects:
             raise ValueError("bad root index: %d" % self.root_index)
-- 
2.43.0


From fe62cfa2660b198d2c518524501ca92de7d36c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:58 +0000
Subject: [PATCH 41/48] fix: new documents had no chunk directory

---
 src/avb/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 23a3e90..a689e1a 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -113,6 +113,8 @@ class AVBFile(object):
         self.modified_objects = {}
         self.held_objects = {}
         self.next_object_id = 0
+        self.object_positions = array.array(str('L'))
+        self.fast_readers = {}
 
         self.octx = None
         self.ictx = None
@@ -128,7 +130,6 @@ class AVBFile(object):
 
         f = self.f
         file_bytes = f.read(2)
-        self.fast_readers = {}
         if file_bytes == LE_BYTE_ORDER:
             ctx = AVBIOContext('little')
             if use_ext:
-- 
2.43.0


From 5fade0e01d4cd1b5cd3e6f489d88af48a0515266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:56 +0000
Subject: [PATCH 42/48] fix: a damaged object size could exhaust the memory

---
 src/avb/file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index a689e1a..8bf0137 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -185,6 +185,9 @@ class AVBFile(object):
 
         self.next_object_id = len(self.object_positions)
 
+        f.seek(0, os.SEEK_END)
+        self.file_size = f.tell()
+
         # incomplete files have no root object
         if not 0 < self.root_index <= num_objects:
             raise ValueError("bad root index: %d" % self.root_index)
@@ -294,6 +297,9 @@ class AVBFile(object):
         else:
             class_id, size = struct.unpack(b">4sI", f.read(8))
 
+        # the size is not trusted before it fits into the file
+        assert object_pos + 8 + size <= self.file_size
+
         data = bytearray(size)
         bytes_read = f.readinto(data)
         assert bytes_read == size
-- 
2.43.0


From 05d4a5056acac1288d20b2fc2e8a27847ebc4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:37 +0000
Subject: [PATCH 43/48] fix: the compiled reader gave other values than the
 Python reader

---
 src/avb/_ext.pyx      | 43 ++++++++++++++++++++++---------------------
 src/avb/_ext_core.cpp | 14 ++++++++------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..8735567 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -80,6 +80,7 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef struct StringData:
         const char *name
         StringType type
+        bint optional
         vector[uint8_t] data
 
     cdef struct BytesData:
@@ -212,11 +213,11 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
@@ -230,7 +231,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
@@ -292,20 +293,24 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef object macroman_string(vector[uint8_t] &data):
     cdef const char * ptr
 
+    if data.size() == 0:
+        return u""
+
+    ptr = <const char *>&data[0]
+    return ptr[:data.size()].strip(b'\x00').decode("macroman")
+
+cdef void strings2dict(dict d, Properties *p):
     cdef StringData item
-    cdef size_t data_size;
 
     for item in p.strings:
-        data_size = item.data.size()
+        value = macroman_string(item.data)
+        if item.optional:
+            value = value or None
 
-        if data_size > 0:
-            ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
-        else:
-            d[item.name.decode('utf-8')] = u""
+        d[item.name.decode('utf-8')] = value
 
 cdef void children2dict(object root, dict d, Properties *p):
     cdef ChildData item
@@ -349,7 +354,10 @@ cdef void bytearray2dict(dict d, Properties *p):
     cdef size_t size
     for item in p.bytearrays:
         size = item.data.size()
-        if size:
+        if item.name == b'compress_method':
+            ptr = &item.data[0]
+            d[item.name.decode('utf-8')] = <bytes> ptr[:size]
+        elif size:
             ptr = &item.data[0]
             d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
         else:
@@ -418,12 +426,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = <int32_t>item.value
 
         elif item.type == STR_ATTR:
-            data_size = item.data.size()
-            if data_size > 0:
-                ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
-            else:
-                value = ""
+            value = macroman_string(item.data)
 
         elif item.type == OBJ_ATTR:
             value = utils.AVBObjectRef(root, item.value)
@@ -436,9 +439,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             else:
                 value = bytearray()
 
-        data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[macroman_string(item.name)] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 239a6a4..04b19ea 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -128,6 +128,7 @@ struct ControlPointData {
 struct StringData {
     const char *name;
     StringType type;
+    bool optional;
     vector<uint8_t> data;
 };
 
@@ -253,7 +254,7 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
     }
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t)
+static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool optional = false)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
@@ -261,6 +262,7 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 
     s.name = name;
     s.type = t;
+    s.optional = optional;
     read_data16(f, s.data);
 }
 
@@ -432,12 +434,12 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN, true);
+    add_string(p, f, "effect_id", MACROMAN, true);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
@@ -818,7 +820,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1112,7 +1114,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From 8f48901316bb0aa3b2fb414914989bfae6d9fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 44/48] fix: saved files depended on the reader

---
 src/avb/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 2ccbc63..7af99e2 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -229,7 +229,9 @@ def direct_references(obj):
     elif isinstance(obj, dict):
         property_values = obj.values()
     elif hasattr(obj, 'property_data'):
-        property_values = obj.property_data.values()
+        # not in the order they were read or set
+        data = obj.property_data
+        property_values = [data[pdef.name] for pdef in obj.propertydefs if pdef.name in data]
     else:
         property_values = []
 
-- 
2.43.0


From 192363faed7c4614d7b733aa5fb955930481617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:48 +0000
Subject: [PATCH 45/48] fix: the compiled reader accepted damaged data and
 could read outside of it or exhaust the memory

---
 src/avb/_ext.pyx      | 178 ++++++++++++++++++------------------------
 src/avb/_ext_core.cpp | 116 +++++++++++++++++++++------
 2 files changed, 164 insertions(+), 130 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 8735567..b358f6a 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -150,11 +150,29 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef int read_trackeffect(Buffer *f, Properties *p) except+
     cdef int read_selector(Buffer *f, Properties *p) except+
     cdef int read_composition(Buffer *f, Properties *p) except+
-    cdef int read_media_descriptor(Buffer *f, Properties *p) except+
-    cdef int read_did_descriptor(Buffer *f, Properties *p) except+
+    cdef int read_media_descriptor_object(Buffer *f, Properties *p) except+
+    cdef int read_did_descriptor_object(Buffer *f, Properties *p) except+
     cdef int read_cdci_descriptor(Buffer *f, Properties *p) except+
     cdef int read_effectparamlist(Buffer *f, Properties *p) except+
 
+cdef int init_buffer(Buffer *buf, const unsigned char[:] data) except -1:
+    if data.shape[0] == 0:
+        raise ValueError("no data")
+
+    buf.root = &data[0]
+    buf.ptr =  &data[0]
+    buf.end = &data[-1]
+    buf.error_message = ""
+    return 0
+
+cdef int check_buffer(Buffer *buf, int ret, object name) except -1:
+    if ret < 0 or buf.error_message[0] != 0:
+        raise ValueError("Error reading %s: %s" % (name, buf.error_message.decode("utf-8")))
+
+    if buf.ptr != buf.end + 1:
+        raise ValueError("Error reading %s: data after the end" % name)
+    return 0
+
 cdef class AVBPropertyData(dict):
 
     def deref(self, value):
@@ -172,21 +190,29 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef object object_ref(object root, uint32_t index):
+    ref = AVBObjectRef(root, index)
+    if not root.check_refs or ref.valid:
+        return ref
+    raise ValueError("bad index: %d" % index)
+
+cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
         reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
+        for i in item.data:
+            object_ref(root, i)
         reflist.extend(item.data)
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -221,7 +247,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = object_ref(root, cp.value)
 
             pp_list = []
             for pp in cp.pp:
@@ -245,7 +271,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef void ints2dict(dict d, Properties* p) except *:
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -254,23 +280,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef void dates2dict(dict d, Properties* p) except *:
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef void doubles2dict(dict d, Properties *p) except *:
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef void bools2dict(dict d,  Properties *p) except *:
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef void uuid2dict(dict d, Properties *p) except *:
     cdef bytes data
 
     cdef BytesData item
@@ -282,7 +308,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef void mob_id2dict(dict d, Properties *p) except *:
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -302,7 +328,7 @@ cdef object macroman_string(vector[uint8_t] &data):
     ptr = <const char *>&data[0]
     return ptr[:data.size()].strip(b'\x00').decode("macroman")
 
-cdef void strings2dict(dict d, Properties *p):
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef StringData item
 
     for item in p.strings:
@@ -312,7 +338,7 @@ cdef void strings2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = value
 
-cdef void children2dict(object root, dict d, Properties *p):
+cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
     cdef Properties child_properties
 
@@ -336,7 +362,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef void int_array2dict(dict d, Properties *p) except *:
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -348,7 +374,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
@@ -398,10 +424,7 @@ cdef dict process_poperties(object root, Properties *p):
 
 def read_attr_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef AttrData item
     cdef vector[AttrData] d
@@ -415,8 +438,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_attributes(&buf, d)
 
-    if ret < 0:
-        raise ValueError("Error reading Attributes: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"Attributes")
 
     for item in d:
 
@@ -429,7 +451,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = macroman_string(item.data)
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
@@ -456,18 +478,14 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
 
 def read_sequence_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_sequence(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"SEQU")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -475,18 +493,14 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
 
 def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_sourceclip(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"SCLP")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -494,10 +508,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramclip_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -506,8 +517,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(6)
         ret = read_paramclip(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"PRCL")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -516,18 +526,14 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
 
 def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_paramitem(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"PRIT")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -536,18 +542,14 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
 
 def read_trackref_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_trackref(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"TRKR")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -555,18 +557,14 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
 
 def read_filler_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_filler(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"FILL")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -574,18 +572,14 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
 
 def reads_selector_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_selector(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"SLCT")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -593,10 +587,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
 
 def read_composition_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -606,8 +597,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         p.strings.reserve(2)
         ret = read_composition(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"CMPO")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -616,18 +606,14 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
 
 def read_media_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_media_descriptor(&buf, &p)
+        ret = read_media_descriptor_object(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"MDES")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -636,18 +622,14 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
 
 def read_did_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_did_descriptor(&buf, &p)
+        ret = read_did_descriptor_object(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"DIDD")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -657,18 +639,14 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
 
 def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_cdci_descriptor(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"CDCI")
 
     # print_property_sizes(&p)
     cdef dict result = process_poperties(root, &p)
@@ -677,10 +655,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
 
 def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
@@ -689,8 +664,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(12)
         ret = read_trackeffect(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"TKFX")
 
     cdef dict result = process_poperties(root, &p)
 
@@ -699,18 +673,14 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
 
 def read_effectparamlist_data(root, object_instance, const unsigned char[:] data):
     cdef Buffer buf
-    buf.root = &data[0]
-    buf.ptr =  &data[0]
-    buf.end = &data[-1]
-    buf.error_message = ""
+    init_buffer(&buf, data)
 
     cdef Properties p
     cdef int ret
     with nogil:
         ret = read_effectparamlist(&buf, &p)
 
-    if ret < 0:
-        raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
+    check_buffer(&buf, ret, u"FXPS")
 
     cdef dict result = process_poperties(root, &p)
 
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 04b19ea..679c697 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -1,5 +1,7 @@
 #include <vector>
 #include <math.h>
+#include <stdio.h>
+#include <stdlib.h>
 
 #ifdef _MSC_VER
 
@@ -170,9 +172,21 @@ static inline uint8_t read_u8(Buffer *f)
 {
     if (f->ptr <= f->end)
         return *f->ptr++;
+    f->error_message = "unexpected end of data";
     return 0;
 }
 
+// counts are not trusted before their items fit into the data
+static inline bool has_items(Buffer *f, uint32_t count, size_t item_size)
+{
+    if (f->ptr <= f->end && count <= (size_t)(f->end - f->ptr + 1) / item_size)
+        return true;
+    if (count == 0)
+        return true;
+    f->error_message = "unexpected end of data";
+    return false;
+}
+
 #define S1(x) #x
 #define S2(x) S1(x)
 #define ASSERT_MESSAGE "Assert error: " __FILE__ " : " S2(__LINE__)
@@ -188,6 +202,11 @@ static inline uint8_t read_u8(Buffer *f)
         return -1; \
     } \
 
+#define check_items(f, count, item_size) \
+    if (!has_items(f, count, item_size)) { \
+        return -1; \
+    } \
+
 static inline bool read_bool(Buffer *f)
 {
     return read_u8(f) == 0x01;
@@ -231,12 +250,26 @@ static inline double read_exp10_encoded_float(Buffer *f)
     if (exp10 < 0 && exp10 >= -22)
         return mantissa / pow(10.0, -(int)exp10);
 
+    if (exp10 > 308) {
+        f->error_message = "float too large";
+        return 0;
+    }
+
+    // pow is not exact for all of these
+    if (exp10 > 22) {
+        char value[8];
+        sprintf(value, "1e%d", (int)exp10);
+        return mantissa * strtod(value, NULL);
+    }
+
     return mantissa * pow(10.0, (int)exp10);
 }
 
 static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    if (!has_items(f, size, 1))
+        return;
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
@@ -267,12 +300,11 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 }
 
 static inline bool iter_ext(Buffer *f) {
-     uint8_t tag = read_u8(f);
-     if (tag == 0x01)
-        return true;
+     if (f->ptr > f->end || *f->ptr != 0x01)
+        return false;
 
-     f->ptr--;
-     return false;
+     f->ptr++;
+     return true;
 }
 
 
@@ -464,7 +496,7 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -472,6 +504,7 @@ static int read_sequence(Buffer *f, Properties *p)
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
+    check_items(f, count, 4);
     reflist.data.reserve(count);
     for (size_t i =0; i < count; i++) {
         reflist.data.push_back(read_u32le(f));
@@ -483,7 +516,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -493,7 +526,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -503,7 +536,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -519,7 +552,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -535,7 +568,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -544,7 +577,14 @@ static int read_paramclip(Buffer *f, Properties *p)
     ControlPointValueType value_type = (ControlPointValueType)read_u16le(f);
     add_int(p, "value_type", value_type);
 
+    if (value_type != CP_TYPE_INT && value_type != CP_TYPE_DOUBLE && value_type != CP_TYPE_REFERENCE) {
+        fprintf(stderr, "unknown value_type: %d\n", value_type);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+
     uint32_t point_count = read_u32le(f);
+    check_items(f, point_count, 18);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -576,6 +616,7 @@ static int read_paramclip(Buffer *f, Properties *p)
         }
 
         uint16_t pp_count = read_u16le(f);
+        check_items(f, pp_count, 8);
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
@@ -664,7 +705,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -677,7 +718,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -686,6 +727,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
     int32_t track_count =  (int32_t)read_u32le(f);
+    check_items(f, (uint32_t)track_count, 2);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -757,7 +799,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -790,17 +832,25 @@ static int read_trackeffect(Buffer *f, Properties *p)
         }
     }
 
+    read_assert_tag(f, 0x03);
+
     return 0;
 }
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
+    uint16_t selected = read_u16le(f);
+    add_uint(p, "selected",  selected);
+
+    if (selected >= p->children[p->children.size()-1].data.size()) {
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
 
     read_assert_tag(f, 0x03);
 
@@ -809,7 +859,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -831,7 +881,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -900,7 +950,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -928,6 +978,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
     size_t line_map_byte_size = read_u32le(f);
+    check_items(f, line_map_byte_size, 1);
     for (size_t i = 0; i < line_map_byte_size/4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
@@ -1108,7 +1159,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
 
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1144,6 +1195,20 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
     return 0;
 }
 
+static int read_media_descriptor_object(Buffer *f, Properties *p)
+{
+    check(read_media_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+    return 0;
+}
+
+static int read_did_descriptor_object(Buffer *f, Properties *p)
+{
+    check(read_did_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+    return 0;
+}
+
 static int read_effectparamlist(Buffer *f, Properties *p)
 {
     read_assert_tag(f, 0x02);
@@ -1160,6 +1225,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
     child.name = "parameters";
 
     vector <Properties> &parameters = child.data;
+    check_items(f, parameter_count, 102);
     parameters.resize(parameter_count);
 
     for (size_t i = 0; i < parameter_count; i++) {
@@ -1207,6 +1273,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
         uint32_t color_count =read_u32le(f);
         vector<int64_t> &colors = add_int_array(&param, "colors");
+        check_items(f, color_count, 4);
         colors.reserve(color_count);
 
         for (size_t j=0; j < color_count; j++) {
@@ -1215,6 +1282,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
         uint32_t param_size = read_u32le(f);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
+        check_items(f, param_size, 1);
         user_param.resize(param_size);
         for (size_t j=0; j < param_size; j++) {
             user_param[j] = read_u8(f);
@@ -1236,14 +1304,11 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_items(f, attr_count, 8);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
+        AttrData *ptr = &d[i];
         ptr->type = (AttrType)read_u32le(f);
         read_data16(f, ptr->name);
         switch (ptr->type) {
@@ -1264,7 +1329,6 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From 040a61e628c5fb760ce65627090374db82d49098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:11 +0000
Subject: [PATCH 46/48] fix: negative counts were read as empty lists and lost
 when saved

---
 src/avb/attributes.py  | 2 ++
 src/avb/bin.py         | 1 +
 src/avb/components.py  | 1 +
 src/avb/essence.py     | 2 ++
 src/avb/misc.py        | 5 +++++
 src/avb/trackgroups.py | 1 +
 6 files changed, 12 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 7a72202..11edeed 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -155,6 +155,7 @@ class ParameterList(AVBRefList):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
             self.append(ref)
@@ -183,6 +184,7 @@ class TimeCrumbList(AVBRefList):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s16(f)
+        assert count >= 0
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
             self.append(ref)
diff --git a/src/avb/bin.py b/src/avb/bin.py
index 516e56f..8e54d7d 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -283,6 +283,7 @@ class Bin(core.AVBObject):
             self.sifted_settings.append(s)
 
         sort_column_count = ctx.read_s16(f)
+        assert sort_column_count >= 0
         self.sort_columns = []
         for i in range(sort_column_count):
             direction = ctx.read_u8(f)
diff --git a/src/avb/components.py b/src/avb/components.py
index caa5724..bea017d 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -871,6 +871,7 @@ class ControlClip(Clip):
 
         self.interp_kind = ctx.read_s32(f)
         count = ctx.read_s32(f)
+        assert count >= 0
         self.control_points = []
         # print(self.interp_kind, count)
         #
diff --git a/src/avb/essence.py b/src/avb/essence.py
index 4c12517..6541ec2 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -217,6 +217,7 @@ class MultiDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.descriptors = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
@@ -590,6 +591,7 @@ class DIDDescriptor(MediaFileDescriptor):
         self.aspect_ratio = [numerator, denominator]
 
         line_map_byte_size = ctx.read_s32(f)
+        assert line_map_byte_size >= 0
         self.line_map = []
         if line_map_byte_size:
             for i in range(line_map_byte_size // 4):
diff --git a/src/avb/misc.py b/src/avb/misc.py
index d8e0944..0003985 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -259,6 +259,7 @@ class EffectParamList(core.AVBObject):
         self.window_offset = ctx.read_s32(f)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.keyframe_size = ctx.read_s32(f)
         self.parameters = []
 
@@ -756,6 +757,7 @@ class MPGPosition(DIDPosition):
 
         # NOTE: I think leading_discard_fields == 2 * leader_length
         leader_length = ctx.read_s16(f)
+        assert leader_length >= 0
         if leader_length > 0:
             leading_discard_fields = ctx.read_s16(f)
             for i in range(leader_length):
@@ -1000,6 +1002,7 @@ class TrackerDataSlot(core.AVBObject):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.tracker_data = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
@@ -1100,10 +1103,12 @@ class TrackerData(core.AVBObject):
         ctx.read_assert_tag(f, 0x01)
 
         setting_size = ctx.read_s16(f)
+        assert setting_size >= 0
         self.settings = bytearray(f.read(setting_size))
         self.clip_version = ctx.read_u32(f)
 
         count = ctx.read_s16(f)
+        assert count >= 0
         self.clips = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8d6e4a3..6fe2e0c 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -113,6 +113,7 @@ class TrackGroup(Component):
         self.num_scalars = ctx.read_s32(f)
 
         track_count = ctx.read_s32(f)
+        assert track_count >= 0
         self.tracks = []
         # print("tracks:", track_count)
         # really annoying, tracks can have variable lengths!!
-- 
2.43.0


From 368d12ae9631aa3bde627f232b217bd6c5c6704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:25 +0000
Subject: [PATCH 47/48] fix: changes of lists and helper objects handed out by
 get() were lost

---
 src/avb/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index 7af99e2..269b255 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -328,6 +328,8 @@ class AVBObject(object):
     def get(self, key, default):
         for property_key, value in self.property_data.items():
             if property_key == key:
+                if is_record(value) and hasattr(self, 'instance_id'):
+                    self.root.hold(self)
                 return value
         return default
 
-- 
2.43.0


From 7be859a3bd70d8a9a6835117dfc78c310527cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:41 +0000
Subject: [PATCH 48/48] fix: a bin view with more format descriptors than the
 count can hold was saved unreadable

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 8e54d7d..53e2297 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -152,7 +152,7 @@ class BinViewSetting(Setting):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 69)
-            ctx.write_u16(f, len(self.format_descriptors))
+            ctx.write_s16(f, len(self.format_descriptors))
 
             for d in self.format_descriptors:
                 ctx.write_u8(f, 69)
-- 
2.43.0

