From 320251461727dcb2d6d4f49e83217159c947c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 01/73] fix: adding a list or dict to an owned container
 recursed forever

---
 jsonclasses/jsonclassify.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e226dc8..a128967 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -803,11 +803,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
     if isinstance(val, dict):
-        odict[key] = to_owned_dict(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_dict(
+            self, val, concat_keypath(odict.keypath, key)))
     if isinstance(val, list):
-        odict[key] = to_owned_list(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_list(
+            self, val, concat_keypath(odict.keypath, key)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -866,11 +866,11 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
     if isinstance(val, dict):
-        olist[idx] = to_owned_dict(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_dict(
+            self, val, concat_keypath(olist.keypath, idx)))
     if isinstance(val, list):
-        olist[idx] = to_owned_list(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_list(
+            self, val, concat_keypath(olist.keypath, idx)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From ad845c0e60fcfc6a484074cfd7a0033689da35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 02/73] fix: inserting at a negative index reported the wrong
 position

---
 jsonclasses/olist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 456e1b3..f6316a8 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -64,7 +64,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         curlen = len(self)
         self.owner.__olist_will_change__(self)
         super().insert(index, value)
-        idx = min(curlen, index)
+        idx = min(curlen, index) if index >= 0 else max(0, curlen + index)
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
-- 
2.43.0


From 6cfba595deae37aff6912219a64f3c3951f2d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 03/73] fix: slice assignment on owned lists reported wrong
 positions and lost generators

---
 jsonclasses/olist.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index f6316a8..416b919 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -148,16 +148,13 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         elif isinstance(args[0], slice):
             slc: slice = args[0]
             remove_list = self[slc]
-            start = slc.start or 0
-            step = slc.step or 1
-            if start < 0:
-                start = len_self + start
-            start = min(max(0, start), len_self)
+            add_list = list(args[1])
+            start, _, step = slc.indices(len_self)
             self.owner.__olist_will_change__(self)
-            super().__setitem__(*args)
+            super().__setitem__(slc, add_list)
             for item in remove_list:
                 self.owner.__olist_del__(self, item)
-            for item in args[1]:
+            for item in add_list:
                 self.owner.__olist_add__(self, start, item)
                 start += step
         else:
-- 
2.43.0


From 5343a7b645ad95b88734e3fbc3bccad769144973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 04/73] fix: owned lists can be extended with any iterable

---
 jsonclasses/olist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 416b919..4a89544 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -53,6 +53,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
 
     def extend(self, values: Iterable[_T]) -> None:
         curlen = len(self)
+        values = list(values)
         if len(values) > 0:
             self.owner.__olist_will_change__(self)
         super().extend(values)
@@ -99,6 +100,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         return super().__add__(x)
 
     def __iadd__(self, x: Iterable[_T]) -> OwnedList[_T]:
+        x = list(x)
         if len(x) > 0:
             self.owner.__olist_will_change__(self)
         curlen = len(self)
-- 
2.43.0


From 99fd55d3e088ecb48398dc31e78a517ace95697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 05/73] fix: setdefault without a default value was not tracked
 as a modification

---
 jsonclasses/odict.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index aa941bc..dadf5da 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -77,16 +77,14 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def setdefault(self, *args) -> _VT:
         will_set = False
         len_args = len(args)
-        if len_args == 2:
-            try:
-                self[args[0]]
-            except KeyError:
-                will_set = True
+        if 1 <= len_args <= 2:
+            will_set = args[0] not in self
         if will_set:
             self.owner.__odict_will_change__(self)
         retval = super().setdefault(*args)
         if will_set:
-            self.owner.__odict_add__(self, args[0], args[1])
+            self.owner.__odict_add__(self, args[0], retval)
+            retval = self[args[0]]
         return retval
 
     def update(self, *args, **kwargs: _VT) -> None:
-- 
2.43.0


From 5ae5be1bfbabfd9a60722ae51aca30062e57cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 06/73] fix: updating an owned dict from a generator of pairs
 lost the pairs

---
 jsonclasses/odict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index dadf5da..619a455 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -98,10 +98,10 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         elif isinstance(args[0], Iterable):
             new_dict = dict(args[0], **kwargs)
         else:
-            new_dict = {}
+            return super().update(*args, **kwargs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        super().update(*args, **kwargs)
+        super().update(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
@@ -134,7 +134,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         new_dict = dict(rhs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        retval = super().__ior__(rhs)
+        retval = super().__ior__(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
-- 
2.43.0


From b212c4351cb960e67ee5c3a7f19c85b74c1a5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:16 +0000
Subject: [PATCH 07/73] fix: persisted_modified_fields failed after a nested
 container was modified

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a128967..0bcc5fd 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -300,7 +300,8 @@ def persisted_modified_fields(self: JObject) -> tuple[str]:
     retval: list[str] = []
     cdef = self.__class__.cdef
     for name in self._modified_fields:
-        if cdef.field_named(name).fdef.fstore != FStore.TEMP:
+        field = cdef.field_named(initial_keypath(name))
+        if field.fdef.fstore != FStore.TEMP:
             retval.append(name)
     return tuple(retval)
 
-- 
2.43.0


From 015f3cd9cb9c1bb65ecf4d5d1ef6c11a16d9c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:48 +0000
Subject: [PATCH 08/73] fix: the remembered previous value of a container
 followed later changes of the old container

---
 jsonclasses/jsonclassify.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 0bcc5fd..02734e8 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -733,7 +733,13 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
         if self.__class__.cdef.jconf.reset_all_fields or \
                 field.fdef.has_reset_modifier:
             if name not in self.previous_values:
-                self.previous_values[name] = getattr(self, name)
+                previous = getattr(self, name)
+                if not field.fdef.has_linked:
+                    if isinstance(previous, list):
+                        previous = unowned_copy_list(previous)
+                    elif isinstance(previous, dict):
+                        previous = unowned_copy_dict(previous)
+                self.previous_values[name] = previous
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
-- 
2.43.0


From 7220036882e2f53fe91f6ccd96c6db15340f5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 09/73] fix: replacing list items with themselves unlinked
 objects that are still in the list

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 02734e8..f935351 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -904,7 +904,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
         field = cdef.field_named(olist.keypath)
     except ValueError:
         field = None
-    if field and field.fdef.is_ref:
+    if field and field.fdef.is_ref and not any(v is val for v in olist):
         self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
             ## TODO: replace the underneath implementation
-- 
2.43.0


From 3170301a67c8960d39df57218331b8e2380fb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 10/73] fix: replacing an item of a referenced list left the
 stored ids behind

---
 jsonclasses/jsonclassify.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index f935351..517c6b9 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -868,9 +868,9 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val._id is None:
-                    raise ValueError('a referenced object must have a valid primary key')
+            if val._id is None:
+                raise ValueError('a referenced object must have a valid primary key')
+            if val._id not in rlist:
                 rlist.insert(idx, val._id)
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
@@ -893,7 +893,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._is_modified = True
         flist = getattr(self, fname)
         if isinstance(flist, list):
-            if len(flist) != len(olist):
+            if val not in olist:
                 # TODO: reorder flist here
                 # TODO: replace the underneath implementation
                 match = next((v for v in flist if v._id == val), "PLACEHOLDER")
@@ -911,9 +911,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val is not None and val._id in rlist:
-                    rlist.remove(val._id)
+            if val is not None and val._id in rlist:
+                rlist.remove(val._id)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From bd6835910aa12751a96bfc7db5eb290411de4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 11/73] fix: sorting a referenced list left the stored ids in
 the old order

---
 jsonclasses/jsonclassify.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 517c6b9..607fdd2 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -920,7 +920,14 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
 
 
 def __olist_sor__(self, olist: OwnedList) -> None:
-    # TODO: sort local keys here
+    # keep stored ids in the order of the objects
+    field = next((f for f in self.__class__.cdef.fields
+                  if f.name == olist.keypath), None)
+    if field is not None and field.fdef.fstore == FStore.LOCAL_KEY:
+        rlist = getattr(self, self.__class__.cdef.jconf.ref_name_strategy(field))
+        ids = [item._id for item in olist if item is not None]
+        if len(ids) == len(rlist):
+            list.__setitem__(rlist, slice(None), ids)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 2f96de324cc1835c12708517107e9fb30e466e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 12/73] fix: a list of ids assigned to an object was no longer
 kept in step

---
 jsonclasses/jsonclassify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 607fdd2..b46a5ff 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -704,9 +704,12 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
+            value = to_owned_list(self, value or [], name)
+        self.__original_setattr__(name, value)
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
+        return
     # use original setattr for non JSON class fields
     try:
         field = self.__class__.cdef.field_named(name)
-- 
2.43.0


From 23a00c63e559088685e18d875ef4fceaea737552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 13/73] fix: an object unlinked from the other side did not
 report itself modified

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index b46a5ff..a709890 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -959,7 +959,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
                 if of.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = item.__class__.cdef.jconf.ref_name_strategy
                     item.__original_setattr__(tsfm(other_field), None)
-                    item._modified_fields.add(other_field.name)
+                    if not item.is_new:
+                        item._is_modified = True
+                        item._modified_fields.add(other_field.name)
                 item._add_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
-- 
2.43.0


From 7d93551a0a344eaa96d3a63d496753b083992411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:19 +0000
Subject: [PATCH 14/73] fix: only the first object unlinked from a one-way list
 was remembered

---
 jsonclasses/jsonclassify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a709890..702f7e1 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -951,7 +951,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         self._add_unlinked_object(field.name, item)
         other_field = field.foreign_field
         if other_field is None:
-            return
+            continue
         if other_field.fdef.ftype == FType.INSTANCE:
             if getattr(item, other_field.name) is self:
                 item.__original_setattr__(other_field.name, None)
@@ -985,7 +985,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         self._del_unlinked_object(field.name, item)
         other_field = field.foreign_field
         if other_field is None:
-            return
+            continue
         if other_field.fdef.ftype == FType.INSTANCE:
             if getattr(item, other_field.name) != self:
                 setattr(item, other_field.name, self)
-- 
2.43.0


From b2bb00ef136d299c4b766c350d6db1305521464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:18 +0000
Subject: [PATCH 15/73] fix: an object given twice in one input lost its
 write-once value

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index b5526ba..53a4a8c 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -168,7 +168,7 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks:
+                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-- 
2.43.0


From e31c162be76efdfba966857e7f034352b3c86472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:28 +0000
Subject: [PATCH 16/73] fix: read-only and write-once references could be set
 through their reference id

---
 jsonclasses/modifiers/instanceof_modifier.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 53a4a8c..d8f7422 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -146,11 +146,18 @@ class InstanceOfModifier(Modifier):
                     if fdef.fstore == FStore.LOCAL_KEY:
                         tsfm = dest.__class__.cdef.jconf.ref_name_strategy
                         refname = tsfm(field)
-                        if ctx.val.get(refname) is not None:
-                            setattr(dest, refname, ctx.val.get(refname))
-                        crefname = dest.__class__.cdef.jconf.output_key_strategy(refname)
-                        if ctx.val.get(crefname) is not None:
-                            setattr(dest, refname, ctx.val.get(crefname))
+                        allow_write_ref = True
+                        if fdef.write_rule == WriteRule.NO_WRITE:
+                            allow_write_ref = False
+                        if fdef.write_rule == WriteRule.WRITE_ONCE:
+                            if getattr(dest, refname):
+                                allow_write_ref = False
+                        if allow_write_ref:
+                            if ctx.val.get(refname) is not None:
+                                setattr(dest, refname, ctx.val.get(refname))
+                            crefname = dest.__class__.cdef.jconf.output_key_strategy(refname)
+                            if ctx.val.get(crefname) is not None:
+                                setattr(dest, refname, ctx.val.get(crefname))
                     pass
                 elif ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
-- 
2.43.0


From 5576c821c12ed2f9829fd94634376d85de41c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:36 +0000
Subject: [PATCH 17/73] fix: the reference id of a write-only reference
 appeared in JSON output

---
 jsonclasses/modifiers/instanceof_modifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index d8f7422..1db3765 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -221,8 +221,9 @@ class InstanceOfModifier(Modifier):
                 rk = val.__class__.cdef.jconf.ref_name_strategy(field)
                 jrk = val.__class__.cdef.jconf.output_key_strategy(rk)
                 valatk = getattr(val, rk)
-                if output_null or (valatk is not None):
-                    retval[jrk] = valatk
+                if fd.read_rule != ReadRule.NO_READ or ignore_writeonly:
+                    if output_null or (valatk is not None):
+                        retval[jrk] = valatk
             if fd.fstore == FStore.LOCAL_KEY and (isrf or no_key_refs):
                 continue
             if fd.fstore == FStore.FOREIGN_KEY and (isrf or no_key_refs):
-- 
2.43.0


From 57618417534fea74474a63ce557d86f1cc6195ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:46 +0000
Subject: [PATCH 18/73] fix: pick and omit raised, and omit removed fields from
 the class definition

---
 jsonclasses/jsonclassify.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 702f7e1..c0653bb 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -171,8 +171,8 @@ def pick(self: JObject, picks: list[str]) -> None:
     Partial picks some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
-    self._partial_picks = picks
+    self._is_partial = True
+    self._partial_picks = list(picks)
 
 
 def omit(self: JObject, omits: list[str]) -> None:
@@ -180,14 +180,12 @@ def omit(self: JObject, omits: list[str]) -> None:
     Partial omits some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     if hasattr(self, '_partial_picks'):
         picks = self._partial_picks
     else:
         picks = self.cdef._field_names
-    for o in omits:
-        picks.remove(o)
-    self._partial_picks = picks
+    self._partial_picks = [p for p in picks if p not in omits]
 
 def validate(self: JObject, all_fields: Optional[bool] = None) -> JObject:
     """Validate the jsonclass object's validity. Raises ValidationException
-- 
2.43.0


From 587f1bd6203af52abb121da1ae87e54ac66577dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 19/73] fix: setting through a key path ignored read-only and
 write-once marks

---
 jsonclasses/jsonclassify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c0653bb..9d84274 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union, cast
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
-from .fdef import FDef, FStore, FType
+from .fdef import FDef, FStore, FType, WriteRule
 from .types import Types
 from .modifiers.instanceof_modifier import InstanceOfModifier
 from .jfield import JField
@@ -82,6 +82,10 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         items = keypath_split(key)
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        if fdef.write_rule == WriteRule.NO_WRITE:
+            continue
+        if fdef.write_rule == WriteRule.WRITE_ONCE and dest is not None:
+            continue
         used_items = [items[0]]
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
-- 
2.43.0


From 30fa45662eacb6ff6c4b8a2ff04320625cc0d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:23 +0000
Subject: [PATCH 20/73] fix: a key path starting at an unknown key raised
 AttributeError

---
 jsonclasses/jsonclassify.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 9d84274..20fdaea 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -80,6 +80,13 @@ def _set(self: JObject,
 def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
     for key, value in kwargs.items():
         items = keypath_split(key)
+        cdef = self.__class__.cdef
+        items[0] = next((f.name for f in cdef.fields
+                         if items[0] in (f.name, f.json_name)), items[0])
+        if items[0] not in cdef._field_names:
+            if cdef.jconf.strict_input:
+                raise ValidationException({key: 'key is not allowed'}, self)
+            continue
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
         if fdef.write_rule == WriteRule.NO_WRITE:
-- 
2.43.0


From c3c172cf609ea223f75c0cc98669f8120d4aea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:05 +0000
Subject: [PATCH 21/73] fix: validating a non-object in an object field raised
 AttributeError

---
 jsonclasses/modifiers/instanceof_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 1db3765..1ba32dd 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -29,16 +29,16 @@ class InstanceOfModifier(Modifier):
         # only validate if there is a value
         if ctx.val is None:
             return
+        cls = cast(type, ctx.fdef.inst_cls)
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         # only validate an instance once in the circular referenced map
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
-        cls = cast(type, ctx.fdef.inst_cls)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
-        if not isinstance(ctx.val, cls):
-            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
         if only_validate_modified:
-- 
2.43.0


From c58fe38c5f0d49deab1f9d2323b159db67885690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:01 +0000
Subject: [PATCH 22/73] fix: validating a required reference of an object
 inside a list or dict raised ValueError

---
 jsonclasses/modifiers/instanceof_modifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 1ba32dd..30a81e5 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -53,10 +53,11 @@ class InstanceOfModifier(Modifier):
                 if only_validate_modified and fname not in modified_fields:
                     continue
             try:
+                vctx = ctx._replace(owner=val)
                 if field.fdef.ftype == FType.INSTANCE:
-                    fval_ctx = ctx.nexto(fval, fname, ffdef)
+                    fval_ctx = vctx.nexto(fval, fname, ffdef)
                 else:
-                    fval_ctx = ctx.nextvo(fval, fname, ffdef, ctx.original or val)
+                    fval_ctx = vctx.nextvo(fval, fname, ffdef, ctx.original or val)
                 field.types.modifier.validate(fval_ctx)
             except ValidationException as exception:
                 if all_fields:
-- 
2.43.0


From 0f766eafcbf37212b99c910100058be3590316d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:09 +0000
Subject: [PATCH 23/73] fix: validating an absent required list of references
 raised AttributeError

---
 jsonclasses/modifiers/required_modifier.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/required_modifier.py b/jsonclasses/modifiers/required_modifier.py
index caf7467..23b5f36 100644
--- a/jsonclasses/modifiers/required_modifier.py
+++ b/jsonclasses/modifiers/required_modifier.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 from ..fdef import FDef
 from .modifier import Modifier
-from ..fdef import FStore
+from ..fdef import FStore, FType
 from ..jconf import JConf
 from ..isjsonclass import isjsonobject
 if TYPE_CHECKING:
@@ -24,6 +24,12 @@ class RequiredModifier(Modifier):
             return
         if storage == FStore.LOCAL_KEY:
             if ctx.val is None:  # check key presence
+                if ctx.fdef.ftype == FType.LIST:
+                    field = ctx.cdefowner.field_named(str(ctx.keypatho[-1]))
+                    local_key = ctx.jconfowner.ref_name_strategy(field)
+                    if not getattr(ctx.owner, local_key):
+                        ctx.raise_vexc('value required')
+                    return
                 jconf: JConf = ctx.holder.__class__.cdef.jconf
                 ko = str(ctx.keypathh[0])
                 field = ctx.holder.__class__.cdef.field_named(ko)
-- 
2.43.0


From 57f097af024eb14356dd8df77197c6ba499dc8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:21 +0000
Subject: [PATCH 24/73] fix: input that is no object in a list of references
 raised AttributeError

---
 jsonclasses/jsonclassify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 20fdaea..ddd8327 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -776,7 +776,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 else:
                     keys = []
                     for item in value:
-                        if item is not None:
+                        if isjsonobject(item):
                             keys.append(item._id)
                     olist = to_owned_list(self, keys, rname)
                     self.__original_setattr__(rname, olist)
@@ -955,7 +955,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
     if field.fdef.ftype == FType.LIST:
         if not isinstance(value, list):
             return
-        items = list(value)
+        items = [item for item in value if isjsonobject(item)]
     for item in items:
         self._add_unlinked_object(field.name, item)
         other_field = field.foreign_field
@@ -989,7 +989,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
     if field.fdef.ftype == FType.LIST:
         if not isinstance(value, list):
             return
-        items = value
+        items = [item for item in value if isjsonobject(item)]
     for item in items:
         self._del_unlinked_object(field.name, item)
         other_field = field.foreign_field
-- 
2.43.0


From 95adf26eba364d75c7321ce83a2b64f41bfad72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:17 +0000
Subject: [PATCH 25/73] fix: JSON output of an aware datetime was no readable
 datetime

---
 jsonclasses/modifiers/datetime_modifier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 6752e62..0bf2473 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -34,4 +34,9 @@ class DatetimeModifier(TypeModifier):
             return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return None if ctx.val is None else ctx.val.isoformat()[:23] + 'Z'
+        if ctx.val is None:
+            return None
+        val = ctx.val
+        if val.tzinfo is not None:
+            val = val.astimezone(timezone.utc).replace(tzinfo=None)
+        return val.isoformat(timespec='milliseconds') + 'Z'
-- 
2.43.0


From 357f9b1b36f970885fb89c78fa93379464913cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:53 +0000
Subject: [PATCH 26/73] fix: enum fields accepting values dropped names and
 unknown input

---
 jsonclasses/modifiers/enum_modifier.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/modifiers/enum_modifier.py b/jsonclasses/modifiers/enum_modifier.py
index 2e35866..903c536 100644
--- a/jsonclasses/modifiers/enum_modifier.py
+++ b/jsonclasses/modifiers/enum_modifier.py
@@ -41,20 +41,17 @@ class EnumModifier(Modifier):
                 return enum_class(ctx.val)
             except ValueError:
                 pass
-        elif isinstance(ctx.val, str):
+        if isinstance(ctx.val, str):
             if enum_input.__contains__(EnumInput.NAME):
                 try:
                     return enum_class[ctx.val]
                 except KeyError:
                     pass
             if enum_input.__contains__(EnumInput.LOWERCASE_NAME):
-                try:
-                    return enum_class[ctx.val.upper()]
-                except KeyError:
-                    pass
-            ctx.raise_vexc('unknown enum value')
-        else:
-            ctx.raise_vexc('unknown enum value')
+                for name, member in enum_class.__members__.items():
+                    if name.lower() == ctx.val.lower():
+                        return member
+        ctx.raise_vexc('unknown enum value')
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From 7586e9c513725befc627a1cae25d028abf3ea53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:08 +0000
Subject: [PATCH 27/73] fix: input that is no list for a list of references
 raised TypeError

---
 jsonclasses/jsonclassify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index ddd8327..7ab1fa3 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -706,10 +706,10 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
             else:
                 new_list = []
                 curvals = getattr(self, field_name)
-                if curvals is None:
+                if not isinstance(curvals, list):
                     curvals = []
                 for item in value:
-                    existitem = next((v for v in curvals if v._id == item), None)
+                    existitem = next((v for v in curvals if isjsonobject(v) and v._id == item), None)
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
@@ -770,7 +770,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 if isjsonobject(value):
                     self.__original_setattr__(rname, value._id)
             elif field.fdef.ftype == FType.LIST:
-                if value is None:
+                if not isinstance(value, list):
                     olist = to_owned_list(self, [], rname)
                     self.__original_setattr__(rname, olist)
                 else:
-- 
2.43.0


From 6999be01a8540860ac36a792708d75e9612e695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:24 +0000
Subject: [PATCH 28/73] fix: input that is no object for a reference left the
 id of the former object

---
 jsonclasses/jsonclassify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 7ab1fa3..3dc9179 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -765,10 +765,10 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             rname = rkes(field)
             if field.fdef.ftype == FType.INSTANCE:
-                if value is None:
-                    self.__original_setattr__(rname, None)
                 if isjsonobject(value):
                     self.__original_setattr__(rname, value._id)
+                else:
+                    self.__original_setattr__(rname, None)
             elif field.fdef.ftype == FType.LIST:
                 if not isinstance(value, list):
                     olist = to_owned_list(self, [], rname)
-- 
2.43.0


From 13cfec5efa68f5d12c8f75c7506011c1ad0549e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:35 +0000
Subject: [PATCH 29/73] fix: objects given twice in one input under the JSON
 name of their primary key were not recognised

---
 jsonclasses/modifiers/instanceof_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 30a81e5..8a6b0a8 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -104,8 +104,8 @@ class InstanceOfModifier(Modifier):
         cls = cast(type[JObject], ctx.fdef.inst_cls)
         pfield = cls.cdef.primary_field
         if pfield:
-            pkey = pfield.name
-            pvalue = cast(Union[str, int, None], ctx.val.get(pkey))
+            pvalue = cast(Union[str, int, None],
+                          self._get_field_value(pfield, ctx))
         else:
             pvalue = None
         soft_apply_mode = False
-- 
2.43.0


From 94605f7e7b4cdb13e460faab56bf9bb30ebc3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 30/73] fix: replacing a linked object by an equal one that is
 part of a cycle raised RecursionError

---
 jsonclasses/jsonclassify.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 3dc9179..90e6cbd 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -533,7 +533,7 @@ def _add_unlinked_object(self: JObject,
     """Add an object into unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj not in self._unlinked_objects[field_name]:
+    if not any(o is obj for o in self._unlinked_objects[field_name]):
         self._unlinked_objects[field_name].append(obj)
 
 
@@ -543,8 +543,8 @@ def _del_unlinked_object(self: JObject,
     """Remove an object from unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj in self._unlinked_objects[field_name]:
-        self._unlinked_objects[field_name].remove(obj)
+    self._unlinked_objects[field_name] = [
+        o for o in self._unlinked_objects[field_name] if o is not obj]
 
 
 def _clear_unlinked_object(self: JObject) -> None:
@@ -678,6 +678,17 @@ def __is_private_attr__(name: str) -> bool:
     return name.startswith('_')
 
 
+def __is_same_value__(field: JField, value: Any, current: Any) -> bool:
+    if not field.fdef.is_ref:
+        return value == current
+    # comparing linked objects by their fields may never end
+    def same(a: Any, b: Any) -> bool:
+        return a is b or not (isjsonobject(a) and isjsonobject(b)) and a == b
+    if isinstance(value, list) and isinstance(current, list):
+        return len(value) == len(current) and all(map(same, value, current))
+    return same(value, current)
+
+
 def __setattr__(self: JObject, name: str, value: Any) -> None:
     # use original setattr for private fields
     if __is_private_attr__(name):
@@ -736,7 +747,8 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 ctx = Ctx.rootctxp(self, name, None, value)
                 field.fdef.setter.modifier.transform(ctx)
             return
-    if hasattr(self, name) and value == getattr(self, name):
+    if hasattr(self, name) and __is_same_value__(
+            field, value, getattr(self, name)):
         return
     # track modified and previous value
     if not self.is_new:
@@ -996,7 +1008,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if other_field is None:
             continue
         if other_field.fdef.ftype == FType.INSTANCE:
-            if getattr(item, other_field.name) != self:
+            if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
-- 
2.43.0


From 2f4c237be8d0645ab5a4d19971898b9fd680e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:58 +0000
Subject: [PATCH 31/73] fix: an eager mark after a presave mark made presave
 steps run on input and twice on save

---
 jsonclasses/modifiers/chained_modifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/chained_modifier.py b/jsonclasses/modifiers/chained_modifier.py
index 21b469c..9c94d71 100644
--- a/jsonclasses/modifiers/chained_modifier.py
+++ b/jsonclasses/modifiers/chained_modifier.py
@@ -37,7 +37,7 @@ class ChainedModifier(Modifier):
 
     @property
     def _levidx(self) -> Optional[int]:
-        return self._last_vidx(EagerModifier)
+        return ChainedModifier(self.vs[:self._fpvidx])._last_vidx(EagerModifier)
 
     @property
     def _fpvidx(self) -> Optional[int]:
@@ -50,7 +50,6 @@ class ChainedModifier(Modifier):
         This is from the beginning to the last eager modifier before the first
         preserialize modifier.
         """
-        # TODO: accounting into e and p
         return self.vs[:self._levidx] if self._levidx is not None else []
 
     @property
-- 
2.43.0


From 58c524da21e4c17bc9fd0b2df00327ce4e65fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:57 +0000
Subject: [PATCH 32/73] fix: a type description used by two classes resolved
 names in the graph of the last one

---
 jsonclasses/cdef.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 27da2c8..165d70e 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -65,7 +65,8 @@ class CDef:
             name = field.name
             self._field_names.append(name)
             if isinstance(field.default, Types):
-                types = field.default
+                # each class resolves its own copy of a types description
+                types = Types(field.default)
                 default = None
             elif field.default == cast(Any, field).default_factory:
                 types = rtypes(field.type)
@@ -100,6 +101,10 @@ class CDef:
                 self._auth_by_fields.append(jfield)
         self._tuple_fields: tuple[JField, ...] = tuple(self._list_fields)
 
+    def __deepcopy__(self: CDef, memo: dict[int, Any]) -> CDef:
+        # like a class, a class definition is not copied
+        return self
+
     @property
     def cls(self: CDef) -> type:
         """The JSON class on which this class definition is defined.
-- 
2.43.0


From 9e9edd10e28f9b22d3bf65fe5f175135edc2a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:06 +0000
Subject: [PATCH 33/73] fix: field permission checks written as functions
 raised AttributeError

---
 jsonclasses/modifiers/cancu_modifier.py | 10 +++++-----
 jsonclasses/modifiers/canr_modifier.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 9c336ae..71745c0 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -21,15 +21,15 @@ class CanCUModifier(Modifier):
         if ctx.operator is None:
             ctx.raise_vexc('operator not present')
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return
             if result is True:
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 77dc639..44b4c38 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -22,15 +22,15 @@ class CanRModifier(Modifier):
         if ctx.operator is None:
             return None
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return ctx.val
             if result is True:
-- 
2.43.0


From 2d323d959b10f3b9a8318a3c9f279b3ea8c2aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:06 +0000
Subject: [PATCH 34/73] fix: a permission check failing in its eager part was
 not reported as unauthorized

---
 jsonclasses/jsonclassify.py             | 2 +-
 jsonclasses/modifiers/cancu_modifier.py | 2 +-
 jsonclasses/modifiers/canr_modifier.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 90e6cbd..120edd4 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -592,8 +592,8 @@ def _can_cu_check_common(self: JObject,
     for callback in callbacks:
         if isinstance(callback, Types):
             ctx = Ctx.rootctx(self, CtxCfg())
-            tval = callback.modifier.transform(ctx)
             try:
+                tval = callback.modifier.transform(ctx)
                 callback.modifier.validate(ctx.nval(tval))
             except ValidationException:
                 raise UnauthorizedActionException(f'cannot {action}')
diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 71745c0..5836365 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -40,8 +40,8 @@ class CanCUModifier(Modifier):
                 ctx.raise_vexc(result)
             raise ValueError('invalid modifier')
         else:
-            transformed = self.checker.modifier.transform(ctx)
             try:
+                transformed = self.checker.modifier.transform(ctx)
                 self.checker.modifier.validate(ctx.nval(transformed))
             except ValidationException:
                 ctx.raise_vexc('operation is not permitted')
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 44b4c38..7080995 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -41,8 +41,8 @@ class CanRModifier(Modifier):
                 return None
             raise ValueError('invalid modifier')
         else:
-            transformed = self.checker.modifier.transform(ctx)
             try:
+                transformed = self.checker.modifier.transform(ctx)
                 self.checker.modifier.validate(ctx.nval(transformed))
                 return ctx.val
             except ValidationException:
-- 
2.43.0


From 7bcb065bf076ab60e34de6250f6fd0423d617d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:06 +0000
Subject: [PATCH 35/73] fix: saving skipped every second object unlinked from a
 list

---
 jsonclasses/jsonclassify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 120edd4..d4c5919 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -361,8 +361,8 @@ def save(self: JObject,
     self._set_on_save()
     self._database_write()
     for _, lst in self.unlinked_objects.items():
-        for item in lst:
-            lst.remove(item)
+        while lst:
+            item = lst.pop(0)
             item.save(validate_all_fields=validate_all_fields,
                       skip_validation=skip_validation)
     return self
-- 
2.43.0


From 1c2c2413f2aa754300b31a058756688292daa45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:06 +0000
Subject: [PATCH 36/73] fix: completing a partial object made the next
 modification raise AttributeError

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index d4c5919..4270c10 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -390,7 +390,7 @@ def complete(self: JObject) -> JObject:
     """Fetch missing field values from the underlying ORM.
     """
     if self.is_partial:
-        saved_modified_fields = list(self._modified_fields)
+        saved_modified_fields = set(self._modified_fields)
         saved_is_modified = self._is_modified
         self._orm_complete()
         self._is_modified = saved_is_modified
-- 
2.43.0


From e6aca01295d467abad749ceb818e3c2fb966aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:52 +0000
Subject: [PATCH 37/73] fix: saving wrote the on-save values of a linked object
 into the link to it

---
 jsonclasses/modifiers/instanceof_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 8a6b0a8..5f0175f 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -266,7 +266,8 @@ class InstanceOfModifier(Modifier):
                             continue
                 if field.fdef.fstore != FStore.CALCULATED:
                     field_value = getattr(value, field.name)
-                    fctx = ctx.nextv(field_value, field.name, field.fdef)
+                    fctx = ctx.nextvo(field_value, field.name, field.fdef, value)
+                    fctx = fctx._replace(parent=value, keypathp=[field.name])
                     tsfmd = field.types.modifier.serialize(fctx)
                     setattr(value, field.name, tsfmd)
                 if value.is_modified or value.is_new:
-- 
2.43.0


From 01d934d8facc55c5aa4b978d9b5e75b98bbcf071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:29 +0000
Subject: [PATCH 38/73] fix: hasprefix on lists only accepted the prefix itself

---
 jsonclasses/modifiers/hasprefix_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index bc2ed94..22ff304 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -15,7 +15,8 @@ class HasPrefixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[:len(ctx.val)] == self.resolve_param(self.prefix, ctx):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
-- 
2.43.0


From 79d3d627ff794af05a7613937c654f8a23833c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:33 +0000
Subject: [PATCH 39/73] fix: the empty list was not taken as a suffix of a list

---
 jsonclasses/modifiers/hassuffix_modifier.py  | 3 ++-
 jsonclasses/modifiers/issuffixof_modifier.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index db23f28..624f31c 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -15,7 +15,8 @@ class HasSuffixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[-len(self.resolve_param(self.suffix, ctx)):] == self.resolve_param(self.suffix, ctx):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if len(suffix) > len(ctx.val) or not ctx.val[len(ctx.val) - len(suffix):] == suffix:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index d496d41..87831eb 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -15,7 +15,8 @@ class IsSuffixOfModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not self.resolve_param(self.suffix, ctx)[-len(ctx.val):] == ctx.val:
+            full = self.resolve_param(self.suffix, ctx)
+            if len(ctx.val) > len(full) or not full[len(full) - len(ctx.val):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
-- 
2.43.0


From 5595095ee51d2df7df1863632f526c23bd3a0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:37 +0000
Subject: [PATCH 40/73] fix: oneisvalid did not call the validators given as
 functions

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index fc55979..8fbf1cf 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -34,9 +34,9 @@ class OneIsValidModifier(Modifier):
             else:
                 params_len = len(signature(item).parameters)
                 if params_len == 1:
-                    result = callable(ctx.val)
+                    result = item(ctx.val)
                 elif params_len == 2:
-                    result = callable(ctx.val, ctx)
+                    result = item(ctx.val, ctx)
                 if result is None:
                     return
                 if result is True:
-- 
2.43.0


From 562d0fccaac0338d6404686f5082adf59e7108fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:41 +0000
Subject: [PATCH 41/73] fix: hexcolor accepted any text beginning with six hex
 digits

---
 jsonclasses/modifiers/hexcolor_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hexcolor_modifier.py b/jsonclasses/modifiers/hexcolor_modifier.py
index 8751d34..fe95ec4 100644
--- a/jsonclasses/modifiers/hexcolor_modifier.py
+++ b/jsonclasses/modifiers/hexcolor_modifier.py
@@ -1,7 +1,7 @@
 """module for hexcolor modifier."""
 from __future__ import annotations
 from typing import Any, cast, TYPE_CHECKING
-from re import compile, match
+from re import compile, fullmatch
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class HexColorModifier(Modifier):
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(hex_color_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(hex_color_regex, ctx.val) is None:
             ctx.raise_vexc('value is not hex color string')
\ No newline at end of file
-- 
2.43.0


From e20b860101b640903bc6de26745d55473c72a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:45 +0000
Subject: [PATCH 42/73] fix: email accepted any text after an address

---
 jsonclasses/modifiers/email_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/email_modifier.py b/jsonclasses/modifiers/email_modifier.py
index 7def333..4b7c89c 100644
--- a/jsonclasses/modifiers/email_modifier.py
+++ b/jsonclasses/modifiers/email_modifier.py
@@ -1,17 +1,17 @@
 """module for email modifier."""
 from __future__ import annotations
 from typing import TYPE_CHECKING
-from re import compile, match
+from re import compile, fullmatch
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
 
 
-email_regex = compile(r'\b[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\.[A-Z|a-z]{2,}\b')
+email_regex = compile(r'\b[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\.[A-Za-z]{2,}(\.[A-Za-z0-9-]+)*')
 
 class EmailModifier(Modifier):
     """Email modifier raises if value is not valid email."""
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(email_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(email_regex, ctx.val) is None:
             ctx.raise_vexc('value is not email string')
-- 
2.43.0


From c1ca3cb6884641b19c431d80b7a2a5f36885b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:50 +0000
Subject: [PATCH 43/73] fix: prepending a number to text raised TypeError

---
 jsonclasses/modifiers/prepend_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/prepend_modifier.py b/jsonclasses/modifiers/prepend_modifier.py
index a9496fa..60a387b 100644
--- a/jsonclasses/modifiers/prepend_modifier.py
+++ b/jsonclasses/modifiers/prepend_modifier.py
@@ -17,6 +17,6 @@ class PrependModifier(Modifier):
         if isinstance(ctx.val, list):
             return [self.resolve_param(self.item, ctx)] + ctx.val
         elif type(ctx.val) is str:
-            return self.resolve_param(self.item, ctx) + ctx.val
+            return str(self.resolve_param(self.item, ctx)) + ctx.val
         else:
             return ctx.val
-- 
2.43.0


From 7868dd820acf8be65ba11470cd544355006f6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:55 +0000
Subject: [PATCH 44/73] fix: random text longer than its alphabet raised
 ValueError

---
 jsonclasses/modifiers/random_alnumpuncs_modifier.py | 4 ++--
 jsonclasses/modifiers/random_alnums_modifier.py     | 4 ++--
 jsonclasses/modifiers/random_digits_modifier.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/random_alnumpuncs_modifier.py b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
index 068d9eb..0add636 100644
--- a/jsonclasses/modifiers/random_alnumpuncs_modifier.py
+++ b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnumpuncs modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,4 +20,4 @@ class RandomAlnumpuncsModifier(Modifier):
         punctuation = r"""!"#$%&'()*+,-./:;<=>?@[\]^_`{|}~"""
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(punctuation+ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(punctuation+ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_alnums_modifier.py b/jsonclasses/modifiers/random_alnums_modifier.py
index 3606493..7827130 100644
--- a/jsonclasses/modifiers/random_alnums_modifier.py
+++ b/jsonclasses/modifiers/random_alnums_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnums modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -19,4 +19,4 @@ class RandomAlnumsModifier(Modifier):
         ascii_uppercase = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_digits_modifier.py b/jsonclasses/modifiers/random_digits_modifier.py
index e3f2c90..1141e89 100644
--- a/jsonclasses/modifiers/random_digits_modifier.py
+++ b/jsonclasses/modifiers/random_digits_modifier.py
@@ -1,7 +1,7 @@
 """module for random digits modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,4 +16,4 @@ class RandomDigitsModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         digits = '0123456789'
-        return ''.join(sample(digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(digits, k=self.resolve_param(self.length, ctx)))
-- 
2.43.0


From 512279555a1934c8598f3adf1d152fabf0fc86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:29 +0000
Subject: [PATCH 45/73] fix: before and after raised TypeError comparing a
 parsed datetime to a date or naive datetime

---
 jsonclasses/modifiers/after_modifier.py  | 27 +++++++++---------------
 jsonclasses/modifiers/before_modifier.py | 16 +++++++-------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/jsonclasses/modifiers/after_modifier.py b/jsonclasses/modifiers/after_modifier.py
index 39bbe56..6df6993 100644
--- a/jsonclasses/modifiers/after_modifier.py
+++ b/jsonclasses/modifiers/after_modifier.py
@@ -1,7 +1,7 @@
 """module for after modifier."""
 from __future__ import annotations
 from typing import Callable, TYPE_CHECKING
-from datetime import date, datetime
+from datetime import date, datetime, timezone
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -17,20 +17,13 @@ class AfterModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        value = ctx.val
         point = self.resolve_param(self.point, ctx)
-        if type(value) is date and type(point) is date:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        if type(value) is datetime and type(point) is datetime:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        else:
-            value = value
-            point = point
-            if type(value) is date:
-                value = datetime.combine(value, datetime.min.time())
-            if type(point) is date:
-                point = datetime.combine(point, datetime.min.time())
-            if value <= point:
-                ctx.raise_vexc('value is too early')
+        if point is None:
+            return
+        if self.instant(ctx.val) <= self.instant(point):
+            ctx.raise_vexc('value is too early')
+
+    def instant(self, value: date | datetime) -> datetime:
+        if type(value) is date:
+            value = datetime.combine(value, datetime.min.time())
+        return value if value.tzinfo else value.replace(tzinfo=timezone.utc)
diff --git a/jsonclasses/modifiers/before_modifier.py b/jsonclasses/modifiers/before_modifier.py
index 2ed8c69..50428c9 100644
--- a/jsonclasses/modifiers/before_modifier.py
+++ b/jsonclasses/modifiers/before_modifier.py
@@ -1,7 +1,7 @@
 """module for before modifier."""
 from __future__ import annotations
 from typing import Callable, Union, TYPE_CHECKING
-from datetime import date, datetime
+from datetime import date, datetime, timezone
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,13 +16,13 @@ class BeforeModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        value = ctx.val
         point = self.resolve_param(self.point, ctx)
-        if type(value) is date:
-            value = datetime.combine(ctx.val, datetime.min.time())
-        if type(point) is date:
-            point = datetime.combine(self.resolve_param(self.point, ctx), datetime.min.time())
         if point is None:
-            return ctx.val
-        if value >= point:
+            return
+        if self.instant(ctx.val) >= self.instant(point):
             ctx.raise_vexc('value is too late')
+
+    def instant(self, value: date | datetime) -> datetime:
+        if type(value) is date:
+            value = datetime.combine(value, datetime.min.time())
+        return value if value.tzinfo else value.replace(tzinfo=timezone.utc)
-- 
2.43.0


From 2507010038f29cacac81c924c573a2aa9a9a4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 46/73] fix: the offset of a datetime text was dropped

---
 jsonclasses/modifiers/datetime_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 0bf2473..77a0a6a 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -22,6 +22,8 @@ class DatetimeModifier(TypeModifier):
         elif isinstance(ctx.val, str):
             try:
                 retval = datetime.fromisoformat(ctx.val.replace('Z', ''))
+                if retval.tzinfo is not None:
+                    return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
             except ValueError:
                 ctx.raise_vexc('wrong datetime format')
-- 
2.43.0


From 0ba43e4dd3802d2bc063e0f2e3c4e64d73df51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:53 +0000
Subject: [PATCH 47/73] fix: tsupdated started with a local time without offset

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index c80d2ac..96447ef 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1305,7 +1305,7 @@ class Types:
         """This modifier adds a default current time and a set on save.
         """
         return Types(self,
-                     DefaultModifier(datetime.now),
+                     DefaultModifier(lambda: datetime.now(timezone.utc)),
                      PreserializeModifier(),
                      SetOnSaveModifier(lambda: datetime.now(timezone.utc)))
 
-- 
2.43.0


From 9ce987227e7bc0750e8f0a7d575250bb5717492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:42 +0000
Subject: [PATCH 48/73] fix: validating a linked object in a list with a
 compare mark raised AttributeError

---
 jsonclasses/modifiers/instanceof_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 5f0175f..7f7b48e 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -53,7 +53,8 @@ class InstanceOfModifier(Modifier):
                 if only_validate_modified and fname not in modified_fields:
                     continue
             try:
-                vctx = ctx._replace(owner=val)
+                vctx = ctx._replace(owner=val, parent=val,
+                                    keypathp=[], fkeypathp=[])
                 if field.fdef.ftype == FType.INSTANCE:
                     fval_ctx = vctx.nexto(fval, fname, ffdef)
                 else:
-- 
2.43.0


From 403d7cf3ebfd0f925855f621adc3387d55e155e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:42 +0000
Subject: [PATCH 49/73] fix: umininterval raised TypeError when the old or new
 value is null

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index 96447ef..f027bed 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1313,7 +1313,7 @@ class Types:
         """This modifier compares old and new value against the time interval.
         """
         def compare_callable(old: datetime, new: datetime):
-            if new >= old + interval:
+            if old is None or new is None or new >= old + interval:
                 return None
             return 'time interval too short'
         return Types(self,
-- 
2.43.0


From 73949026017c2d162c13cebf269fbe76bcf085f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:01 +0000
Subject: [PATCH 50/73] fix: filtering failed on items a type description
 rejects in its eager part

---
 jsonclasses/modifiers/filter_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/filter_modifier.py b/jsonclasses/modifiers/filter_modifier.py
index 4c746d5..5839f75 100644
--- a/jsonclasses/modifiers/filter_modifier.py
+++ b/jsonclasses/modifiers/filter_modifier.py
@@ -20,8 +20,8 @@ class FilterModifier(Modifier):
         if isinstance(self.callback, Types):
             result = []
             for v in ctx.val:
-                tsfmd = self.callback.modifier.transform(ctx.nval(v))
                 try:
+                    tsfmd = self.callback.modifier.transform(ctx.nval(v))
                     self.callback.modifier.validate(ctx.nval(tsfmd))
                     result.append(v)
                 except:
-- 
2.43.0


From 669242fd648e86c84da3c15b0e1dac90e64ca9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:01 +0000
Subject: [PATCH 51/73] fix: oneisvalid failed when a type description rejects
 in its eager part

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index 8fbf1cf..d222eb2 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -25,8 +25,8 @@ class OneIsValidModifier(Modifier):
         for item in self.subroutines:
             from ..types import Types
             if isinstance(item, Types):
-                tresult = item.modifier.transform(ctx)
                 try:
+                    tresult = item.modifier.transform(ctx)
                     item.modifier.validate(ctx.nval(tresult))
                     return
                 except ValidationException:
-- 
2.43.0


From 5a5439574f1f324c4bc7b4c7636a51e363b0f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:14 +0000
Subject: [PATCH 52/73] fix: a datetime assigned to a date field was written as
 malformed JSON text

---
 jsonclasses/modifiers/date_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/date_modifier.py b/jsonclasses/modifiers/date_modifier.py
index 7f3e81e..e415607 100644
--- a/jsonclasses/modifiers/date_modifier.py
+++ b/jsonclasses/modifiers/date_modifier.py
@@ -35,4 +35,4 @@ class DateModifier(TypeModifier):
         return None if ctx.val is None else self._jsondate(ctx.val)
 
     def _jsondate(self, d: date) -> str:
-        return d.isoformat() + 'T00:00:00.000Z'
+        return date(d.year, d.month, d.day).isoformat() + 'T00:00:00.000Z'
-- 
2.43.0


From 0b70a135d0424d2a6d463047b21c841409423b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:14 +0000
Subject: [PATCH 53/73] fix: datetime text whose UTC instant is out of range
 raised OverflowError

---
 jsonclasses/modifiers/datetime_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 77a0a6a..0af2699 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -25,7 +25,7 @@ class DatetimeModifier(TypeModifier):
                 if retval.tzinfo is not None:
                     return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
-            except ValueError:
+            except (ValueError, OverflowError):
                 ctx.raise_vexc('wrong datetime format')
         elif type(ctx.val) is date:
             retval = datetime(ctx.val.year,
-- 
2.43.0


From 7011d63fc0dae62022aa1c4afee66699d4ad4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 54/73] fix: annotations like int | None were rejected when
 evaluated

---
 jsonclasses/rtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index d23e43e..ccb2e8a 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -8,6 +8,7 @@ from typing import (
 from datetime import date, datetime
 from enum import Enum
 from re import match, split
+from types import UnionType
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -205,7 +206,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     elif get_origin(anytypes) is dict:
         dict_type = types.dictof(get_args(anytypes)[1])
         return dict_type if opt else dict_type.required
-    elif get_origin(anytypes) == Union:
+    elif get_origin(anytypes) in (Union, UnionType):
         required: bool = True
         types_to_build_union: list[Any] = []
         args = get_args(anytypes)
-- 
2.43.0


From 0494a36d453b9028428ad96a0b8c884324639bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:58 +0000
Subject: [PATCH 55/73] fix: an optional annotation of a class given by name
 was required

---
 jsonclasses/rtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index ccb2e8a..78d7336 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -185,7 +185,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     """
     from .types import types
     if isinstance(anytypes, str):
-        return str_to_types(anytypes)
+        return str_to_types(anytypes, opt)
     elif anytypes is str:
         return types.str if opt else types.str.required
     elif anytypes is int:
@@ -238,7 +238,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
         instance_type = types.objof(anytypes)
         return instance_type if opt else instance_type.required
     elif isinstance(anytypes, ForwardRef):
-        return str_to_types(anytypes.__forward_arg__)
+        return str_to_types(anytypes.__forward_arg__, opt)
     else:
         raise ValueError(f'{anytypes} is not a valid JSON Class type.')
 
-- 
2.43.0


From d72146b66bfa871ea38d821521b05fb5f97a5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:27 +0000
Subject: [PATCH 56/73] fix: nested brackets, None and Optional inside
 annotation text were misread

---
 jsonclasses/rtypes.py | 150 +++++++++++++++++++-----------------------
 1 file changed, 67 insertions(+), 83 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 78d7336..3e32c34 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -7,7 +7,7 @@ from typing import (
 )
 from datetime import date, datetime
 from enum import Enum
-from re import match, split
+from re import match
 from types import UnionType
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
@@ -46,49 +46,56 @@ def apply_link_specifier(types: Types, specifier: str) -> Types:
     else:
         raise TypeError(f"wrong format of link specifier '{specifier}'")
 
-def union_split(arg: str) -> list[str]:
+def split_outside(arg: str, separator: str) -> list[str]:
+    """Split a type string at the separators which are not inside brackets.
+
+    Args:
+        arg (str): The type string.
+        separator (str): The separator, '|' or ','.
+
+    Returns:
+        list[str]: The stripped parts.
+    """
     result = ['']
     depth = 0
     for c in arg:
-        match c:
-            case '[':
-                depth += 1
-                result[-1] += c
-            case ']':
-                depth -= 1
-                result[-1] += c
-            case '|':
-                if depth < 1:
-                    result.append('')
-                else:
-                    result[-1] += c
-            case _:
-                result[-1] += c
+        if c == separator and depth == 0:
+            result.append('')
+            continue
+        if c == '[':
+            depth += 1
+        elif c == ']':
+            depth -= 1
+        result[-1] += c
     return [r.strip() for r in result]
 
-def merge_back_dicts(args: list[str]) -> list[str]:
-    """This method is used for union arguments parsing. When union contains
-    dict, dict is separated wrongly by split method. This function merge
-    dicts back.
+
+def union_members(arg: str) -> tuple[list[str], bool]:
+    """Get the alternatives of a type string, and whether it's optional.
 
     Args:
-        args (list[str]): A list of string tokens.
+        arg (str): The type string.
 
     Returns:
-        list[str]: The renovated string tokens.
+        tuple[list[str], bool]: The alternatives and the optionality.
     """
-    retval = []
-    do_not_push_next = False
-    for idx, arg in enumerate(args):
-        if do_not_push_next:
-            do_not_push_next = False
+    members: list[str] = []
+    opt = False
+    for part in split_outside(arg, '|'):
+        if part == 'None':
+            opt = True
             continue
-        if match('^[Dd]ict\\[', arg):
-            retval.append(arg + ', ' + args[idx + 1])
-            do_not_push_next = True
-        else:
-            retval.append(arg)
-    return retval
+        match_data = match('^(Union|Optional)\\[(.*)\\]$', part)
+        if match_data is None:
+            members.append(part)
+            continue
+        opt = opt or match_data.group(1) == 'Optional'
+        for item in split_outside(match_data.group(2), ','):
+            item_members, item_opt = union_members(item)
+            members.extend(item_members)
+            opt = opt or item_opt
+    return members, opt
+
 
 def str_to_types(anytypes: str, opt: bool = False) -> Types:
     """
@@ -118,57 +125,34 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
     elif anytypes == 'Any':
         return types.any if opt else types.any.required
     else:
-        union_args = union_split(anytypes)
-        if len(union_args) == 1:
-            if anytypes.startswith('Union['):
-                match_data = match('^Union\\[(.*)\\]', anytypes)
-                assert match_data is not None
-                all_item_types = match_data.group(1)
-                types_to_build_union = split(", *", all_item_types)
-                types_to_build_union = merge_back_dicts(types_to_build_union)
-                results = []
-                for t in types_to_build_union:
-                    results.append(str_to_types(t, True))
-                union = types.union(results)
-                return union if opt else union.required
-            elif anytypes.startswith('Optional['):
-                match_data = match('^Optional\\[(.*)\\]', anytypes)
-                assert match_data is not None
-                item_type = match_data.group(1)
-                return str_to_types(item_type, opt=True)
-            elif match('^[Ll]ist\\[', anytypes):
-                match_data = match('[Ll]ist\\[(.*)\\]', anytypes)
-                assert match_data is not None
-                item_type = match_data.group(1)
-                list_type = types.listof(str_to_types(item_type))
-                return list_type if opt else list_type.required
-            elif match('^[Dd]ict\\[', anytypes):
-                match_data = match('[Dd]ict\\[.+, *(.*)\\]', anytypes)
-                assert match_data is not None
-                item_type = match_data.group(1)
-                dict_type = types.dictof(str_to_types(item_type))
-                return dict_type if opt else dict_type.required
-            elif anytypes.startswith('Annotated['):
-                match_data = match('^(Annotated)\\[(.+), *(.+)\\]', anytypes)
-                assert match_data is not None
-                instance_type = match_data.group(2)
-                link_specifier = match_data.group(3)
-                types = str_to_types(instance_type, opt)
-                return apply_link_specifier(types, link_specifier)
-            else:
-                return types._unresolved(anytypes) if opt else types._unresolved(anytypes).required
+        members, member_opt = union_members(anytypes)
+        opt = opt or member_opt
+        if len(members) > 1:
+            union = types.union([str_to_types(t, True) for t in members])
+            return union if opt else union.required
+        if members and members[0] != anytypes:
+            return str_to_types(members[0], opt)
+        if match('^[Ll]ist\\[', anytypes):
+            match_data = match('[Ll]ist\\[(.*)\\]', anytypes)
+            assert match_data is not None
+            item_type = match_data.group(1)
+            list_type = types.listof(str_to_types(item_type))
+            return list_type if opt else list_type.required
+        elif match('^[Dd]ict\\[', anytypes):
+            match_data = match('[Dd]ict\\[(.*)\\]', anytypes)
+            assert match_data is not None
+            item_type = split_outside(match_data.group(1), ',')[1]
+            dict_type = types.dictof(str_to_types(item_type))
+            return dict_type if opt else dict_type.required
+        elif anytypes.startswith('Annotated['):
+            match_data = match('^(Annotated)\\[(.+), *(.+)\\]', anytypes)
+            assert match_data is not None
+            instance_type = match_data.group(2)
+            link_specifier = match_data.group(3)
+            types = str_to_types(instance_type, opt)
+            return apply_link_specifier(types, link_specifier)
         else:
-            union_results = [r for r in union_args if r != 'None']
-            if len(union_args) != len(union_results):
-                opt = True
-            if len(union_results) == 1:
-                return str_to_types(union_results[0], opt)
-            else:
-                results = []
-                for t in union_results:
-                    results.append(str_to_types(t, True))
-                union = types.union(results)
-                return union if opt else union.required
+            return types._unresolved(anytypes) if opt else types._unresolved(anytypes).required
 
 
 def to_types(anytypes: Any, opt: bool = False) -> Types:
-- 
2.43.0


From 6316655b18907373e3c9897fa36d66c37b60610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:40 +0000
Subject: [PATCH 57/73] fix: optional items of an annotated list or dict
 rejected null

---
 jsonclasses/fdef.py   | 5 ++++-
 jsonclasses/rtypes.py | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index a99c6a1..9c98d5f 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -351,7 +351,10 @@ class FDef:
             self.cdef.jconf.cgraph,
             self.cdef.name)
         if self._resolved_item_types.fdef.item_nullability == Nullability.UNDEFINED:
-            self._resolved_item_types = self._resolved_item_types.required
+            # an annotation states optionality itself, while descriptions of
+            # items are implicitly required
+            if isinstance(self.raw_item_types, Types):
+                self._resolved_item_types = self._resolved_item_types.required
         return self._resolved_item_types
 
     @property
diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 3e32c34..492d2e4 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -136,13 +136,13 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
             match_data = match('[Ll]ist\\[(.*)\\]', anytypes)
             assert match_data is not None
             item_type = match_data.group(1)
-            list_type = types.listof(str_to_types(item_type))
+            list_type = types.listof(item_type)
             return list_type if opt else list_type.required
         elif match('^[Dd]ict\\[', anytypes):
             match_data = match('[Dd]ict\\[(.*)\\]', anytypes)
             assert match_data is not None
             item_type = split_outside(match_data.group(1), ',')[1]
-            dict_type = types.dictof(str_to_types(item_type))
+            dict_type = types.dictof(item_type)
             return dict_type if opt else dict_type.required
         elif anytypes.startswith('Annotated['):
             match_data = match('^(Annotated)\\[(.+), *(.+)\\]', anytypes)
-- 
2.43.0


From 1191f83dc10ba687ff4d66b74edbbac401c5446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 58/73] fix: class and enum names in a union were never
 resolved

---
 jsonclasses/fdef.py                     | 16 ++++++++++++++++
 jsonclasses/modifiers/union_modifier.py | 23 +++++++++--------------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index 9c98d5f..fb0db75 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -145,6 +145,7 @@ class FDef:
         self._enum_input: Optional[EnumInput] = None
         self._enum_output: Optional[EnumOutput] = None
         self._raw_union_types: Optional[list[Types]] = None
+        self._resolved_union_types: Optional[list[Types]] = None
         self._raw_item_types: Optional[Any] = None
         self._raw_inst_types: Optional[str | type[JObject]] = None
         self._resolved_union_types: Optional[list[Types]] = None
@@ -325,6 +326,21 @@ class FDef:
         self._resolve_if_needed()
         return self._raw_union_types
 
+    @property
+    def union_types(self: FDef) -> list[Types]:
+        """The resolved union types of this union field.
+        """
+        self._resolve_if_needed()
+        if self._resolved_union_types is not None:
+            return self._resolved_union_types
+        resolved: list[Types] = []
+        for types in cast(Any, self._raw_union_types):
+            types.fdef._cdef = self.cdef
+            resolved.append(
+                rnamedtypes(types, self.cdef.jconf.cgraph, self.cdef.name))
+        self._resolved_union_types = resolved
+        return self._resolved_union_types
+
     # subtypes
 
     @property
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 6c16b05..1fb9288 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -1,7 +1,8 @@
 """module for union modifier."""
 from __future__ import annotations
 from typing import TYPE_CHECKING, Any
-from ..excs import ValidationException
+from ..excs import (JSONClassNotFoundException, UnresolvedTypeNameException,
+                    ValidationException)
 from .modifier import Modifier
 from ..rtypes import rtypes
 from ..fdef import FDef, FType
@@ -23,21 +24,19 @@ class UnionModifier(Modifier):
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 return types.modifier.transform(ctx.alterfdef(types.fdef))
-            except:
+            except (UnresolvedTypeNameException, JSONClassNotFoundException):
+                raise
+            except Exception:
                 continue
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 types.modifier.validate(ctx.alterfdef(types.fdef))
                 return
@@ -48,9 +47,7 @@ class UnionModifier(Modifier):
     def serialize(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 newctx = ctx.alterfdef(types.fdef)
                 types.modifier.validate(newctx)
@@ -62,9 +59,7 @@ class UnionModifier(Modifier):
     def tojson(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 newctx = ctx.alterfdef(types.fdef)
                 types.modifier.validate(newctx)
-- 
2.43.0


From f2779d033d274a01c684c64801557feff53b684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 59/73] fix: a union read values as its first alternative
 although another one accepts them

---
 jsonclasses/modifiers/union_modifier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 1fb9288..bac44aa 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -6,6 +6,7 @@ from ..excs import (JSONClassNotFoundException, UnresolvedTypeNameException,
 from .modifier import Modifier
 from ..rtypes import rtypes
 from ..fdef import FDef, FType
+from ..mgraph import MGraph
 if TYPE_CHECKING:
     from ..ctx import Ctx
 
@@ -24,14 +25,21 @@ class UnionModifier(Modifier):
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
+        readable = []
         for types in ctx.fdef.union_types:
+            newctx = ctx.alterfdef(types.fdef)
             try:
-                return types.modifier.transform(ctx.alterfdef(types.fdef))
+                val = types.modifier.transform(newctx)
+                readable.append(val)
+                # the mark graph of transforming has different meaning
+                vctx = newctx.nval(val)._replace(mgraph=MGraph())
+                types.modifier.validate(vctx)
+                return val
             except (UnresolvedTypeNameException, JSONClassNotFoundException):
                 raise
             except Exception:
                 continue
-        return ctx.val
+        return readable[0] if readable else ctx.val
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From 3135dea1723cbf8e8df0e97f40fe80a217916147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:32 +0000
Subject: [PATCH 60/73] fix: an unknown item type name was reported once and
 then accepted anything

---
 jsonclasses/fdef.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index fb0db75..bdeb70b 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -360,17 +360,15 @@ class FDef:
             return cast(Types, None)
         if self._resolved_item_types is not None:
             return self._resolved_item_types
-        self._resolved_item_types = rtypes(self.raw_item_types)
-        self._resolved_item_types.fdef._cdef = self.cdef
-        self._resolved_item_types = rnamedtypes(
-            self._resolved_item_types,
-            self.cdef.jconf.cgraph,
-            self.cdef.name)
-        if self._resolved_item_types.fdef.item_nullability == Nullability.UNDEFINED:
+        types = rtypes(self.raw_item_types)
+        types.fdef._cdef = self.cdef
+        types = rnamedtypes(types, self.cdef.jconf.cgraph, self.cdef.name)
+        if types.fdef.item_nullability == Nullability.UNDEFINED:
             # an annotation states optionality itself, while descriptions of
             # items are implicitly required
             if isinstance(self.raw_item_types, Types):
-                self._resolved_item_types = self._resolved_item_types.required
+                types = types.required
+        self._resolved_item_types = types
         return self._resolved_item_types
 
     @property
-- 
2.43.0


From 222a9bbfc7d577e58d74c99fcf9efb3eeabcd33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:38 +0000
Subject: [PATCH 61/73] fix: an invalid object of a union was accepted by a
 later alternative naming its class

---
 jsonclasses/mgraph.py                   | 13 +++++++++++++
 jsonclasses/modifiers/union_modifier.py |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index ecbd0c9..93223e8 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -60,6 +60,19 @@ class MGraph:
     def __init__(self):
         self._class_tables: dict[str, MarkClassTable] = {}
 
+    def snapshot(self) -> dict[str, tuple[dict, dict]]:
+        """Remember the marks, see `restore`."""
+        return {name: (dict(table._primary_key_table),
+                       dict(table._memory_id_table))
+                for name, table in self._class_tables.items()}
+
+    def restore(self, snapshot: dict[str, tuple[dict, dict]]) -> None:
+        """Forget the marks which are put after the snapshot is taken."""
+        for name, table in self._class_tables.items():
+            primary, memory = snapshot.get(name, ({}, {}))
+            table._primary_key_table = dict(primary)
+            table._memory_id_table = dict(memory)
+
     def class_table(self, cls: type) -> MarkClassTable[JObject]:
         if self._class_tables.get(cls.__name__) is None:
             self._class_tables[cls.__name__] = MarkClassTable()
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index bac44aa..2c53c77 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -44,12 +44,14 @@ class UnionModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
+        marked = ctx.mgraph.snapshot()
         for types in ctx.fdef.union_types:
             try:
                 types.modifier.validate(ctx.alterfdef(types.fdef))
                 return
             except ValidationException:
-                continue
+                # objects which failed are not marked as validated
+                ctx.mgraph.restore(marked)
         ctx.raise_vexc('value is not of any provided type')
 
     def serialize(self, ctx: Ctx) -> Any:
-- 
2.43.0


From f1bdb1de0e40994aa6624f59e068663b2b1887c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 62/73] fix: a wrong type inside a collection of a union was
 not reported

---
 jsonclasses/fdef.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index bdeb70b..485d581 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -336,8 +336,14 @@ class FDef:
         resolved: list[Types] = []
         for types in cast(Any, self._raw_union_types):
             types.fdef._cdef = self.cdef
-            resolved.append(
-                rnamedtypes(types, self.cdef.jconf.cgraph, self.cdef.name))
+            types = rnamedtypes(types, self.cdef.jconf.cgraph, self.cdef.name)
+            resolved.append(types)
+            # report wrong types inside of collections and unions, too
+            fdef = types.fdef
+            while fdef.item_types is not None:
+                fdef = fdef.item_types.fdef
+            if fdef._raw_union_types is not None:
+                fdef.union_types
         self._resolved_union_types = resolved
         return self._resolved_union_types
 
-- 
2.43.0


From e568e44d470e46287e9aa653c741c9f47c9dbc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:38 +0000
Subject: [PATCH 63/73] fix: redefining a class without source raised OSError
 instead of the redefinition error

---
 jsonclasses/excs.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index b6f4415..dff1b35 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -1,11 +1,21 @@
 """This module defines all excs that JSON classes uses."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING
-from inspect import getmodule, getsourcelines
+from inspect import getmodule, getsourcefile, getsourcelines
 if TYPE_CHECKING:
     from .jobject import JObject
 
 
+def _location(cls: type) -> str:
+    """Where the class is defined. Classes which are created at runtime do not
+    have source.
+    """
+    try:
+        return f'{getsourcefile(cls)}:{getsourcelines(cls)[1]}'
+    except (OSError, TypeError):
+        return cls.__module__
+
+
 class UnresolvedTypeNameException(Exception):
     """Unresolved type name in graph.
     """
@@ -53,19 +63,11 @@ class JSONClassRedefinitionException(Exception):
             exist_class(type): The existing class which the user defined.
         """
         name = new_class.__name__
-        original_module = getmodule(exist_class)
-        assert original_module is not None
-        original_file = original_module.__file__
-        original_line = getsourcelines(exist_class)[1]
-        new_module = getmodule(new_class)
-        assert new_module is not None
-        new_file = new_module.__file__
-        new_line = getsourcelines(new_class)[1]
         graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
-                   f'`{original_file}:{original_line}`, '
-                   f'new `{name}` defined at `{new_file}:{new_line}`')
+                   f'`{_location(exist_class)}`, '
+                   f'new `{name}` defined at `{_location(new_class)}`')
         super().__init__(message)
 
 
-- 
2.43.0


From 1b43eaa51771dc0f0ed9c4b0b7a0d6ad3be230b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:44 +0000
Subject: [PATCH 64/73] fix: redefining an enum raised AttributeError instead
 of the redefinition error

---
 jsonclasses/cgraph.py | 4 +---
 jsonclasses/excs.py   | 7 +++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index a261cab..250f175 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -5,7 +5,6 @@ from enum import Enum
 from .jconf import JConf
 from .keypath import camelize_key, reference_key, underscore_key
 from .excs import (JSONClassRedefinitionException,
-                         JSONClassTypedDictRedefinitionException,
                          JSONClassNotFoundException,
                          JSONClassTypedDictNotFoundException)
 if TYPE_CHECKING:
@@ -143,8 +142,7 @@ class CGraph:
         """
         exist_def = self._enum_map.get(enum_class.__name__)
         if exist_def:
-            raise JSONClassTypedDictRedefinitionException(enum_class,
-                                                          exist_def.cls)
+            raise JSONClassRedefinitionException(enum_class, exist_def, self)
         self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index dff1b35..bc8a3f6 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -54,16 +54,19 @@ class JSONClassRedefinitionException(Exception):
     exists before in the same graph.
     """
 
-    def __init__(self, new_class: type, exist_class: type[JObject]) -> None:
+    def __init__(self, new_class: type, exist_class: type,
+                 graph: Any = None) -> None:
         """Create an exception that notifies the user that a class with
         duplicated name is defined twice.
 
         Args:
             new_class (type): The new class which is putting on the graph.
             exist_class(type): The existing class which the user defined.
+            graph (Any): The graph, needed if the class is an enum class.
         """
         name = new_class.__name__
-        graph = exist_class.cdef.jconf.cgraph
+        if graph is None:
+            graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{_location(exist_class)}`, '
-- 
2.43.0


From c67f993ec3d20eb2882b1679eff990358d452225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:51 +0000
Subject: [PATCH 65/73] fix: an enum defined with class_graph=None was not on
 the default graph

---
 jsonclasses/jsonenum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonenum.py b/jsonclasses/jsonenum.py
index f16bf4c..b55636f 100644
--- a/jsonclasses/jsonenum.py
+++ b/jsonclasses/jsonenum.py
@@ -42,7 +42,7 @@ def jsonenum(
     if cls is not None:
         if not isinstance(cls, type):
             raise ValueError('@jsonenum should be used to decorate a class.')
-        cgraph = CGraph(class_graph)
+        cgraph = CGraph(class_graph or 'default')
         cgraph.put_enum(cls)
         return cls
     else:
-- 
2.43.0


From e3e77a0d18cedcc10f3f4fbf4251331704844b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:56 +0000
Subject: [PATCH 66/73] fix: a configuration path naming a key inside a list
 raised ValueError

---
 jsonclasses/uconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/uconf.py b/jsonclasses/uconf.py
index af545b2..40d5652 100644
--- a/jsonclasses/uconf.py
+++ b/jsonclasses/uconf.py
@@ -26,7 +26,7 @@ class UserConf:
             return None
         cur = keypaths[0]
         if isinstance(val, list):
-            if int(cur) < len(val):
+            if cur.isdecimal() and int(cur) < len(val):
                 next = val[int(cur)]
             else:
                 next = None
-- 
2.43.0


From bd58232eae502d02cd42fb45cbab751f1df389c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:07 +0000
Subject: [PATCH 67/73] fix: callbacks written as type descriptions raised
 TypeError

---
 jsonclasses/jsonclassify.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 4270c10..c58dddc 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -626,7 +626,11 @@ def _can_read_check(self: JObject) -> None:
 
 
 def _run_on_create_callbacks(self: JObject) -> None:
+    from .types import Types
     for callback in self.__class__.cdef.jconf.on_create:
+        if isinstance(callback, Types):
+            callback.modifier.transform(Ctx.rootctx(self, CtxCfg()))
+            continue
         params_len = len(signature(callback).parameters)
         if params_len == 1:
             callback(self)
@@ -635,7 +639,11 @@ def _run_on_create_callbacks(self: JObject) -> None:
 
 
 def _run_on_update_callbacks(self: JObject) -> None:
+    from .types import Types
     for callback in self.__class__.cdef.jconf.on_update:
+        if isinstance(callback, Types):
+            callback.modifier.transform(Ctx.rootctx(self, CtxCfg()))
+            continue
         params_len = len(signature(callback).parameters)
         if params_len == 1:
             callback(self)
@@ -644,7 +652,11 @@ def _run_on_update_callbacks(self: JObject) -> None:
 
 
 def _run_on_delete_callbacks(self: JObject) -> None:
+    from .types import Types
     for callback in self.__class__.cdef.jconf.on_delete:
+        if isinstance(callback, Types):
+            callback.modifier.transform(Ctx.rootctx(self, CtxCfg()))
+            continue
         params_len = len(signature(callback).parameters)
         if params_len == 1:
             callback(self)
-- 
2.43.0


From 516e940ee6f6be25b144a17e9fb19b3d57ac467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:19 +0000
Subject: [PATCH 68/73] fix: unsaved objects without id passed as the same
 object in permission checks

---
 jsonclasses/modifiers/isobj_modifier.py  | 4 +++-
 jsonclasses/modifiers/isthis_modifier.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/isobj_modifier.py b/jsonclasses/modifiers/isobj_modifier.py
index f0d35f4..53b43cb 100644
--- a/jsonclasses/modifiers/isobj_modifier.py
+++ b/jsonclasses/modifiers/isobj_modifier.py
@@ -22,6 +22,8 @@ class IsObjModifier(Modifier):
         transformed = self.getter.modifier.transform(ctx)
         if transformed is None:
             ctx.raise_vexc('comparing value not found')
+        if ctx.val is transformed:
+            return
         this = cast(JObject | ObjRef, ctx.val)
         that = cast(JObject | ObjRef, transformed)
         if isjsonobject(this):
@@ -36,6 +38,6 @@ class IsObjModifier(Modifier):
         else:
             that_cls = that.cls
             that_id = that.id
-        if that_cls == this_cls and that_id == this_id:
+        if this_id is not None and that_cls == this_cls and that_id == this_id:
             return
         ctx.raise_vexc('objects are not equal')
diff --git a/jsonclasses/modifiers/isthis_modifier.py b/jsonclasses/modifiers/isthis_modifier.py
index 22b42c6..14516a8 100644
--- a/jsonclasses/modifiers/isthis_modifier.py
+++ b/jsonclasses/modifiers/isthis_modifier.py
@@ -15,6 +15,6 @@ class IsThisModifier(Modifier):
         if ctx.val is ctx.owner:
             return None
         if ctx.val.__class__ == ctx.owner.__class__:
-            if ctx.val._id == ctx.owner._id:
+            if ctx.val._id is not None and ctx.val._id == ctx.owner._id:
                 return None
         ctx.raise_vexc('value is not this')
-- 
2.43.0


From 468b024ce873cb4c3d8a63db466a9bab9c8c391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:38 +0000
Subject: [PATCH 69/73] fix: a class name in isobjof was resolved once for all
 graphs

---
 jsonclasses/modifiers/isobjof_modifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/isobjof_modifier.py b/jsonclasses/modifiers/isobjof_modifier.py
index ea9caee..e1321d7 100644
--- a/jsonclasses/modifiers/isobjof_modifier.py
+++ b/jsonclasses/modifiers/isobjof_modifier.py
@@ -15,7 +15,8 @@ class IsObjOfModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             ctx.raise_vexc('none is not object of a class')
-        if type(self.cls) is str:
-            self.cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(self.cls).cls
-        if not isinstance(ctx.val, self.cls):
-            ctx.raise_vexc(f'value is not instance of {self.cls.__name__}')
+        cls = self.cls
+        if type(cls) is str:
+            cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(cls).cls
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
-- 
2.43.0


From d578a2f78f4c7cd3afc16add656e1071c2e46721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 70/73] fix: linked objects with equal contents were taken for
 each other

---
 jsonclasses/jsonclassify.py | 10 +++++++---
 jsonclasses/olist.py        |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c58dddc..aafb95c 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -999,8 +999,11 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
             if isinstance(other_list, list):
-                if self in other_list:
-                    other_list.remove(self)
+                # equal objects are not the same object
+                idx = next((i for i, v in enumerate(other_list)
+                            if v is self), None)
+                if idx is not None:
+                    del other_list[idx]
                     item._add_unlinked_object(other_field.name, self)
 
 
@@ -1028,7 +1031,8 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
-                if self not in getattr(item, other_field.name):
+                if not any(v is self
+                           for v in getattr(item, other_field.name)):
                     getattr(item, other_field.name).append(self)
                     item._del_unlinked_object(other_field.name, self)
         self.__link_graph__(item)
diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 4a89544..83ec126 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -70,8 +70,9 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
 
     def remove(self, value: _T) -> None:
         self.owner.__olist_will_change__(self)
+        removed = next((v for v in self if v is value or v == value), value)
         super().remove(value)
-        self.owner.__olist_del__(self, value)
+        self.owner.__olist_del__(self, removed)
 
     def sort(self, **kwargs) -> None:  # TODO: fix argument type hint
         self.owner.__olist_will_change__(self)
-- 
2.43.0


From f88fec00cf43bafdc3a6f2a1f154da2ea0fb98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:07 +0000
Subject: [PATCH 71/73] fix: a class validating all fields stopped at a field's
 first broken rule

---
 jsonclasses/modifiers/chained_modifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/chained_modifier.py b/jsonclasses/modifiers/chained_modifier.py
index 9c94d71..63926ea 100644
--- a/jsonclasses/modifiers/chained_modifier.py
+++ b/jsonclasses/modifiers/chained_modifier.py
@@ -87,7 +87,10 @@ class ChainedModifier(Modifier):
                 modifier.validate(ctx)
             except ValidationException as exception:
                 ctor.receive(exception.keypath_messages)
-                if not ctx.ctxcfg.all_fields:
+                all_fields = ctx.ctxcfg.all_fields
+                if all_fields is None and isjsonobject(ctx.owner):
+                    all_fields = ctx.cdefowner.jconf.validate_all_fields
+                if not all_fields:
                     break
         if ctor.has_msgs:
             ctx.raise_mvexc(ctor.messages)
-- 
2.43.0


From 1187fe2080cc6a04876ca7b2ddc3b29880699a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 72/73] fix: fetching references or missing values left
 modification reports and previous values behind

---
 jsonclasses/jsonclassify.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index aafb95c..3e3fb08 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -392,9 +392,11 @@ def complete(self: JObject) -> JObject:
     if self.is_partial:
         saved_modified_fields = set(self._modified_fields)
         saved_is_modified = self._is_modified
+        saved_previous_values = dict(self._previous_values)
         self._orm_complete()
         self._is_modified = saved_is_modified
         self._modified_fields = saved_modified_fields
+        self._previous_values = saved_previous_values
     return self
 
 
@@ -406,44 +408,48 @@ def include(self: JObject, field_name: str) -> JObject:
         cls = cast(ORMObject, field.fdef.inst_cls)
     elif field.fdef.ftype == FType.LIST:
         cls = field.fdef.item_types.fdef.inst_cls
-    modified_fields = self.modified_fields
-    is_modified = self.is_modified
     if field.fdef.fstore == FStore.LOCAL_KEY:
         if field.fdef.ftype == FType.INSTANCE:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             ridname = rkes(field)
             rid = getattr(self, ridname)
             result = cls.id(rid).exec()
-            setattr(self, field.name, result)
         elif field.fdef.ftype == FType.LIST:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             ridname = rkes(field)
             rids = getattr(self, ridname)
             result = cls.ids(rids).exec()
-            setattr(self, field.name, result)
     elif field.fdef.fstore == FStore.FOREIGN_KEY:
         if field.fdef.use_join_table:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.find(**{idref: [self._id]}).exec()
-            setattr(self, field.name, result)
         elif field.fdef.ftype == FType.INSTANCE:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.one(**{idref: self._id}).exec()
-            setattr(self, field.name, result)
         elif field.fdef.ftype == FType.LIST:
             ffield = field.foreign_field
             rkes = cls.cdef.jconf.ref_name_strategy
             idref = rkes(ffield)
             result = cls.find(**{idref: [self._id]}).exec()
-            setattr(self, field.name, result)
-    setattr(self, '_modified_fields', set(modified_fields))
-    setattr(self, '_is_modified', is_modified)
+    else:
+        return self
+    # what is fetched is in step with the database, linking it is no change
+    fetched = result if isinstance(result, list) else [result]
+    status = [(obj, set(obj._modified_fields), obj._is_modified,
+               dict(obj._previous_values))
+              for obj in [self, *fetched] if isjsonobject(obj)]
+    setattr(self, field.name, result)
+    for obj, modified_fields, is_modified, previous_values in status:
+        setattr(obj, '_modified_fields', modified_fields)
+        setattr(obj, '_is_modified', is_modified)
+        setattr(obj, '_previous_values', previous_values)
     return self
 
+
 def _orm_complete(self: JObject) -> JObject:
     """ORM method override. Fetch missing field values and assign to this object.
     """
-- 
2.43.0


From 67c2722995f8306c1048c3c16c60dbb993a7bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 73/73] fix: changing the JSON form of an object changed the
 object

---
 jsonclasses/modifiers/chained_modifier.py    | 11 ++++++++++-
 jsonclasses/modifiers/instanceof_modifier.py |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/chained_modifier.py b/jsonclasses/modifiers/chained_modifier.py
index 63926ea..f793c34 100644
--- a/jsonclasses/modifiers/chained_modifier.py
+++ b/jsonclasses/modifiers/chained_modifier.py
@@ -8,6 +8,9 @@ from .modifier import Modifier
 from .eager_modifier import EagerModifier
 from .preserialize_modifier import PreserializeModifier
 from ..isjsonclass import isjsonobject
+from ..odict import OwnedDict
+from ..olist import OwnedList
+from ..outils import unowned_copy_dict, unowned_copy_list
 if TYPE_CHECKING:
     from ..ctx import Ctx
 
@@ -102,7 +105,13 @@ class ChainedModifier(Modifier):
         return val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return reduce(lambda val, v: v.tojson(ctx.nval(val)), self.vs, ctx.val)
+        val = reduce(lambda val, v: v.tojson(ctx.nval(val)), self.vs, ctx.val)
+        # don't hand out the containers of the object
+        if isinstance(val, OwnedList):
+            return unowned_copy_list(val)
+        if isinstance(val, OwnedDict):
+            return unowned_copy_dict(val)
+        return val
 
     def serialize(self, ctx: Ctx) -> Any:
         val = ctx.val
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 7f7b48e..a88acb3 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -225,7 +225,8 @@ class InstanceOfModifier(Modifier):
                 valatk = getattr(val, rk)
                 if fd.read_rule != ReadRule.NO_READ or ignore_writeonly:
                     if output_null or (valatk is not None):
-                        retval[jrk] = valatk
+                        retval[jrk] = (list(valatk) if isinstance(valatk, list)
+                                       else valatk)
             if fd.fstore == FStore.LOCAL_KEY and (isrf or no_key_refs):
                 continue
             if fd.fstore == FStore.FOREIGN_KEY and (isrf or no_key_refs):
-- 
2.43.0

