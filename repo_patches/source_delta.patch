From a18f1b027cb70b8f8b8640259d12d57b68a27077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 1/9] fix: keep sorted lists intact when update fails to sort

SortedList.update and SortedKeyList.update appended the new values to the
stored runs before sorting; when the values could not be compared the list
was left with an unsorted run unknown to its maxima, length and index.
---
 src/sortedcontainers/sortedlist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..5ac4d0c 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,8 +277,7 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists, []) + values
                 values.sort()
                 self._clear()
             else:
@@ -1777,8 +1776,7 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists, []) + values
                 values.sort(key=self._key)
                 self._clear()
             else:
-- 
2.43.0


From 3263b4d737557093d2ed35c9410847c803726008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 2/9] fix: keep the sorted set intact when add fails to compare

SortedSet.add left a value that cannot be compared in its set, a member that
is not listed.
---
 src/sortedcontainers/sortedset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..4fb129f 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.remove(value)
+                raise
 
     _add = add
 
-- 
2.43.0


From 8de399e41ab8bef6ff8c0b65efe2a2d7355a0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 3/9] fix: keep the sorted set intact when a bulk update fails
 to sort

SortedSet.update and symmetric_difference_update changed the set and cleared
the list before sorting; values that cannot be compared left the list empty.
---
 src/sortedcontainers/sortedset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 4fb129f..2e9a2ab 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -603,9 +603,11 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.symmetric_difference_update(other)
+        values = sorted(_set.symmetric_difference(other), key=self._key)
+        _set.clear()
+        _set.update(values)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __ixor__ = symmetric_difference_update
@@ -651,9 +653,10 @@ class SortedSet(MutableSet, Sequence):
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
             _list = self._list
+            values = sorted(_set.union(values), key=self._key)
             _set.update(values)
             _list.clear()
-            _list.update(_set)
+            _list.update(values)
         else:
             _add = self._add
             for value in values:
-- 
2.43.0


From 75b4f726b0b226279b1aa8de325593a8f1be85c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 4/9] fix: keep the sorted dict intact when setdefault fails to
 compare

---
 src/sortedcontainers/sorteddict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..c6d0422 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
-- 
2.43.0


From 0d43188ef9d02a542412726bb3ada470afd57443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 5/9] fix: keep the sorted dict intact when update fails

SortedDict.update stored the items before sorting the keys (and, when empty,
while still reading a possibly malformed argument), leaving items that are
not listed, or no keys listed at all.
---
 src/sortedcontainers/sorteddict.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index c6d0422..6147e4f 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -498,8 +498,10 @@ class SortedDict(dict):
 
         """
         if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
+            pairs = dict(*args, **kwargs)
+            keys = sorted(pairs, key=self._key)
+            dict.update(self, pairs)
+            self._list_update(keys)
             return
 
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
@@ -508,9 +510,12 @@ class SortedDict(dict):
             pairs = dict(*args, **kwargs)
 
         if (10 * len(pairs)) > len(self):
+            keys = list(dict.__iter__(self))
+            keys.extend(key for key in pairs if key not in self)
+            keys.sort(key=self._key)
             dict.update(self, pairs)
             self._list_clear()
-            self._list_update(dict.__iter__(self))
+            self._list_update(keys)
         else:
             for key in pairs:
                 self._setitem(key, pairs[key])
-- 
2.43.0


From a241d64fc10f47cca88fa7832be5a5f470774150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 6/9] fix: keep sets and dicts intact when a removed value
 cannot be compared

An argument equal to a member but not comparable with the others (1+0j for 1)
was taken out of the set or dict before the list refused it.
---
 src/sortedcontainers/sorteddict.py | 4 +++-
 src/sortedcontainers/sortedset.py  | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 6147e4f..0d2aefa 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -227,8 +227,10 @@ class SortedDict(dict):
         :raises KeyError: if key not found
 
         """
-        dict.__delitem__(self, key)
+        if key not in self:
+            raise KeyError(key)
         self._list_remove(key)
+        dict.__delitem__(self, key)
 
     def __iter__(self):
         """Return an iterator over the keys of the sorted dict.
diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 2e9a2ab..fc3d85a 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -397,8 +397,8 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         if value in _set:
-            _set.remove(value)
             self._list.remove(value)
+            _set.remove(value)
 
     _discard = discard
 
@@ -450,8 +450,11 @@ class SortedSet(MutableSet, Sequence):
         :raises KeyError: if `value` is not in sorted set
 
         """
-        self._set.remove(value)
+        _set = self._set
+        if value not in _set:
+            raise KeyError(value)
         self._list.remove(value)
+        _set.remove(value)
 
     def difference(self, *iterables):
         """Return the difference of two or more sets as a new sorted set.
-- 
2.43.0


From 855f181b1e977ac82b8791303bc48b0e03c2bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 7/9] fix: keep the key function in num * SortedKeyList

SortedKeyList inherited __rmul__ from SortedList, which is bound to
SortedList.__mul__ and builds a list without the key function.
---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 5ac4d0c..795f177 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2425,6 +2425,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From 1eec1180498ee7f97f8e3e45cb651ada0230de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 8/9] fix: keep the key function in iterable - SortedSet

The inherited Set.__rsub__ builds a sorted set without the key function, in
the wrong order or failing on values that have no order of their own.
---
 src/sortedcontainers/sortedset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index fc3d85a..8936507 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -479,6 +479,10 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From 57046aaf67df01aaca0d359aafda7c7f30917a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:28 +0000
Subject: [PATCH 9/9] fix: keep the sorted set intact when intersection_update
 fails to sort

An intersection may keep the operand's objects; where these cannot be compared
(1+0j for 1) the set was changed and the list left empty.
---
 src/sortedcontainers/sortedset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 8936507..1bf26d2 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -558,9 +558,11 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.intersection_update(*iterables)
+        values = sorted(_set.intersection(*iterables), key=self._key)
+        _set.clear()
+        _set.update(values)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __iand__ = intersection_update
-- 
2.43.0

