From 9fe2eb89e42dd1e7a4db2b983b04dfc264e30210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 01/49] fix: decide relation/clan/multiclan membership from the
 elements

A set whose only element is the empty set was taken for a relation (and its
nested forms for a clan), and a component that is the empty set made the
ground set computation assert.
---
 algebraixlib/algebras/clans.py      | 6 +++---
 algebraixlib/algebras/multiclans.py | 7 ++++---
 algebraixlib/algebras/relations.py  | 6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..6827c30 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -404,7 +404,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -427,13 +427,13 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_clan:
+    if not is_member(obj):
         # If known to not be a clan, it's also not an absolute clan. No further caching.
         return False
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
     if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_clan = all(_relations.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_clan == CacheStatus.UNKNOWN:
             if is_absolute_clan:
                 # If it is an absolute clan, it is also a clan.
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..b722d3d 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -373,7 +373,8 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        is_multiclan = obj.is_multiset and \
+            all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -396,7 +397,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_multiclan:
+    if not is_member(obj):
         # If known to not be a multiclan, it's also not an absolute multiclan. No further caching.
         return False
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
@@ -404,7 +405,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_multiclan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_mclan = all(_relations.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_multiclan == CacheStatus.UNKNOWN:
             if is_absolute_mclan:
                 # If it is an absolute multiclan, it is also a multiclan.
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..d7edf55 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -196,7 +196,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         of this operation is cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        is_relation = obj.is_set and all(elem.is_couplet for elem in obj.data)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -219,7 +219,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
         of this operation is cached.
     """
-    if obj.cached_is_not_relation:
+    if not is_member(obj):
         # If known to not be a relation, it's also not an absolute relation. No further caching.
         return False
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
@@ -227,7 +227,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_relation == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_relation = all(_couplets.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_relation == CacheStatus.UNKNOWN:
             if is_absolute_relation:
                 # If it is an absolute relation, it is also a relation.
-- 
2.43.0


From 6d47adc69674cba82cb02655d00f8885093f8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 02/49] fix: remember that the empty set and multiset are
 right-regular

clans/multiclans.is_right_regular(empty) raised StopIteration.
---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..0740e1f 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..c794b1c 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -94,6 +94,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
     flags.f.transitive = CacheStatus.IS
-- 
2.43.0


From 72a4ba9f14207cf093106534622672d281d5f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 03/49] fix: multiclans.is_right_regular cached and returned
 "regular"

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index b722d3d..e70325f 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -610,8 +610,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 56ce9b5ff6209a45fe21074a717b006bc95f04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 04/49] fix: relations.is_reflexive follows the documented
 definition

Only diagonals were accepted; the glossary asks for x->x for every left and
right x.
---
 algebraixlib/algebras/relations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index d7edf55..adc529d 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -436,7 +436,8 @@ def is_reflexive(rel, _checked=True) -> bool:
         if rel is _undef.Undef():
             return _undef.make_or_raise_undef(2)
     if rel.cached_reflexive == CacheStatus.UNKNOWN:
-        reflexive = all(_couplets.is_reflexive(couplet, _checked=False) for couplet in rel)
+        reflexive = all(rel.has_element(_mo.Couplet(couplet.left)) and
+                        rel.has_element(_mo.Couplet(couplet.right)) for couplet in rel)
         rel.cache_reflexive(CacheStatus.from_bool(reflexive))
     return rel.cached_reflexive == CacheStatus.IS
 
-- 
2.43.0


From dd3734469fe39de0b18fa8a84691f822d91bf22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 05/49] fix: the power set of the empty set is regular and
 right-regular

---
 algebraixlib/algebras/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..de79f11 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,8 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            result.cache_regular(CacheStatus.from_bool(set_.is_empty))
+            result.cache_right_regular(CacheStatus.from_bool(set_.is_empty))
     return result
 
 
-- 
2.43.0


From 5c5907cc51440f42d536ad7aa577dc174b6acb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 06/49] fix: clans.from_set is right-regular only if it has at
 most one relation

---
 algebraixlib/algebras/clans.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 6827c30..9203c47 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -702,7 +702,8 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
+    clan.cache_right_regular(CacheStatus.from_bool(clan.cardinality <= 1))
     return clan
 
 
-- 
2.43.0


From f8f1ff6e065cc67cba4927b33a30ae5c692af566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 07/49] fix: multiclans.superstrict keeps the multiplicities of
 its first operand

As documented for multi-cross-superstriction and done by substrict.
---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index e70325f..b336496 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -299,7 +299,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From 11d3a8b39a0f8ad2e3350d78bc77450c0d920e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 08/49] fix: multiclans.get_rights_for_left accepts the empty
 multiclan

It raised StopIteration.
---
 algebraixlib/algebras/multiclans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index b336496..fbf482d 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -501,6 +501,8 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        return mclan
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From dd946e47ded4a14999fbb31d609c18c5a7d10a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 09/49] fix: regularity of sets of clans compares the left
 (right) sets of the elements

The elements of sets of (sets of ...) clans have no get_lefts()/get_rights().
---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From f3ec8e8e97d98472b2e4b9dfd8667643fc3aaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 10/49] fix: an empty right component is a valid part of a
 structure

get_ground_set() of anything containing a couplet whose right is empty asserted.
---
 algebraixlib/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..8779897 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -309,9 +309,8 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(left, Structure)
+        assert isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From a706f837e16311f90139a70eabd2643135f24244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 11/49] fix: subscripting a multiclan builds its result before
 it becomes a Multiset

The counts were added to an empty Multiset, which kept the remembered
properties of the empty multiset (e.g. being a multiclan).
---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 0740e1f..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -305,12 +305,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From f2382b69f1e840760f0682897341781db09a10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 12/49] fix: find the power set level of sets whose elements
 have different structures

Sets of sets of clans whose elements differ in structure were not recognized.
---
 algebraixlib/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 8779897..01c440e 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -559,6 +559,11 @@ class PowerSet(Structure):
         """
 
         def recurse_through_powerset_levels(structure_under_test, powerset_level=0):
+            if type(structure_under_test) == Union:
+                # All elements of a union must be at the same level.
+                levels = set(recurse_through_powerset_levels(element, powerset_level)
+                             for element in structure_under_test.data)
+                return levels.pop() if len(levels) == 1 else 0
             if type(structure_under_test) != PowerSet:
                 return 0
             powerset_level += 1
-- 
2.43.0


From b672d5aefc0bc251b48368793d18494ece55d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 13/49] fix: functional cross-unions may lose the relations
 that are not (right-)functional

The result was remembered as not (right-)functional because of relations that
need not take part in it.
---
 algebraixlib/algebras/clans.py      | 4 ----
 algebraixlib/algebras/multiclans.py | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 9203c47..57f4c5a 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +230,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index fbf482d..8d06c5e 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 64bddc21033b06cdd65b37d3943d7f888e569f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 14/49] fix: clans.lhs_cross_functional_union remembers only
 what follows from its operands

Relations of the right operand may be dropped, and the result may be regular
even though relations of the left operand were kept unchanged.
---
 algebraixlib/algebras/clans.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 57f4c5a..f83b4a0 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -196,10 +196,8 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
+            if lhs.cached_is_not_right_functional:
                 result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 607c9324da3f5cbf893b27f00c4dfe39073c0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 15/49] fix: a part of something that is not a clan or
 multiclan may be one

---
 algebraixlib/partition.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..fd82c40 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,7 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from .cache_status import CacheStatus
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -70,6 +71,11 @@ def _create_partition_dict_from_multiset(mset, class_invariant_func):
     return partition_dict
 
 
+def _component_status(status):
+    """Return what is known about a component when ``status`` is known about the whole."""
+    return status if status == CacheStatus.IS else CacheStatus.UNKNOWN
+
+
 def partition(set_or_mset, class_invariant_func):
     r"""Return ``set_or_mset`` partitioned according to ``class_invariant_func``.
 
@@ -88,13 +94,13 @@ def partition(set_or_mset, class_invariant_func):
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(_component_status(set_or_mset.cached_clan))
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(_component_status(set_or_mset.cached_multiclan))
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -119,12 +125,12 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(_component_status(set_or_mset.cached_clan)), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(_component_status(set_or_mset.cached_multiclan)), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From c89b67fb308fe341c380d4e3b30ced8740884851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 16/49] fix: the ground set of the empty multiset is a set of
 (nothing, count) pairs

It was the same as the one of the empty set, so that sets containing an empty
multiset were taken for sets of clans.
---
 algebraixlib/mathobjects/multiset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index efddd9a..2331a38 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -184,7 +184,8 @@ class Multiset(MathObject):
     def get_ground_set(self) -> _structure.Structure:
         """Return the :term:`ground set` of the lowest-level algebra of this :class:`Multiset`."""
         if len(self.data) == 0:
-            return _structure.Structure()
+            return _structure.PowerSet(_structure.CartesianProduct(
+                _structure.Structure(), _structure.GenesisSetN()))
 
         elements_ground_set = _structure.Union(elem.get_ground_set() for elem in self.data)
         if len(elements_ground_set.data) == 1:
-- 
2.43.0


From 20a1cbe4ae872e50f2b4b984ba4f3cae82217eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 17/49] fix: a wrong-kind operand of defined_at and
 multisets.some raises at level 1 like everywhere else

---
 algebraixlib/algebras/clans.py      | 2 +-
 algebraixlib/algebras/multiclans.py | 2 +-
 algebraixlib/algebras/multisets.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index f83b4a0..9043a29 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -734,7 +734,7 @@ def diag(*args, _checked=True) -> 'PP(M x M)':
 def defined_at(clan: 'PP(M x M)', left: '( M )', _checked=True):
     r"""Return the :term:`relation`\s of ``clan`` that are defined for ``left``."""
     if not is_member(clan):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(clan)
     if left is _undef.Undef():
         return _undef.make_or_raise_undef(2)
     result = _extension.unary_extend(
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 8d06c5e..412e15e 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -893,7 +893,7 @@ def diag(*args, _checked=True) -> 'P(P(M x M) x N)':
 def defined_at(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True):
     r"""Return the :term:`relation`\s of ``mclan`` that are defined for ``left``."""
     if not is_member(mclan):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(mclan)
     if left is _undef.Undef():
         return _undef.make_or_raise_undef(2)
     result = _extension.unary_multi_extend(
diff --git a/algebraixlib/algebras/multisets.py b/algebraixlib/algebras/multisets.py
index 18c534c..1e9cd97 100755
--- a/algebraixlib/algebras/multisets.py
+++ b/algebraixlib/algebras/multisets.py
@@ -511,7 +511,7 @@ def some(mset: _mo.Multiset):
         returned.
     """
     if not is_member(mset):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(mset)
     if mset.cardinality == 0:
         return _undef.make_or_raise_undef(2)
     return next(iter(mset))
-- 
2.43.0


From b59578f6d363f77c72780b0324c0e22a7d3027d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 18/49] fix: defined_at of a clan is defined at raise level 1
 when only some relations are not defined there

---
 algebraixlib/algebras/relations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index adc529d..c96d6d7 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -609,5 +609,5 @@ def defined_at(rel, left, _checked=True):
     """Return ``rel`` if it has a :term:`couplet` with left component ``left`` else `Undef()`."""
     result = get_rights_for_left(rel, left, _checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     return rel
-- 
2.43.0


From 1dfbbbe48f3b4333796ec22ff664de81283504d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 19/49] fix: import_csv decides regularity from its own rows
 only

---
 algebraixlib/import_export/csv.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..ef250bb 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    left_sets = set()  # The distinct sets of columns that have values (one if all rows have the same).
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -165,14 +165,13 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            left_sets.add(frozenset(filtered_row))
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
@@ -183,18 +182,18 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             return _mo.Multiset(_import_csv(csv_file_or_filepath),
                                 direct_load=True).cache_multiclan(
                 CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                CacheStatus.from_bool(import_csv.regular))
+                CacheStatus.from_bool(len(left_sets) <= 1))
         else:
             return _mo.Set(_import_csv(csv_file_or_filepath), direct_load=True)\
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
     else:
         with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                    CacheStatus.from_bool(import_csv.regular))
+                    CacheStatus.from_bool(len(left_sets) <= 1))
             else:
                 return _mo.Set(_import_csv(file), direct_load=True)\
                     .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                    .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                    .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
-- 
2.43.0


From 4d85e823aa7d1d5e1f9836226e34e92e2b7d6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 20/49] fix: import_csv keeps line breaks inside cells as they
 are in the file

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index ef250bb..38b6370 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -188,7 +188,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
                 .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
     else:
-        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
+        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-- 
2.43.0


From d0e8462503e8f18fd3824b767ddd3978b5f57868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 21/49] fix: export_csv refuses an empty clan without columns
 instead of failing

---
 algebraixlib/import_export/csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 38b6370..2e99f60 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -58,6 +58,8 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
             and _multiclans.is_regular(absolute_clan_or_multiclan)
     if ordered_lefts is None and not (regular_clan or regular_mclan):
         return False
+    if ordered_lefts is None and len(absolute_clan_or_multiclan) == 0:
+        return False  # There is no relation that could provide the columns.
 
     if ordered_lefts is None:
         # Since this clan is regular, get first relation to acquire left set.
-- 
2.43.0


From 7e88891f6c4c9658941ba48f3b2ea93f10c2c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 22/49] fix: exported files and imported JSON files are UTF-8
 in every locale

---
 algebraixlib/import_export/json.py | 2 +-
 algebraixlib/util/miscellaneous.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index ec77a51..27fff88 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -49,5 +49,5 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     if hasattr(json_file_or_filepath, "readlines"):  # support StringIO
         return _import_json(json_file_or_filepath)
     else:
-        with open(json_file_or_filepath) as file:
+        with open(json_file_or_filepath, encoding='utf-8') as file:
             return _import_json(file)
diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 544d598..c2d2ede 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -149,7 +149,7 @@ def write_to_file_or_path(file_or_path, data_functor):
     """
     if isinstance(file_or_path, str):
         # 'with' syntax handles close no matter what.
-        with open(file_or_path, "w+", newline='') as out_file:
+        with open(file_or_path, "w+", encoding='utf-8', newline='') as out_file:
             data_functor(out_file)
     else:
         # Assume 'file_or_path' is a writer-type object.
-- 
2.43.0


From 898de86222f752fb09c5ed5ed9e9453780d2a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 23/49] fix: xml_to_str closes the file it opens

---
 algebraixlib/import_export/xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 89d6f37..5b20728 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -118,11 +118,12 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
         that contains an ellipsis.) Ignored if 0 or if ``pre_len`` is 0.
     """
 
-    if not hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
-        xml_file_or_filepath = open(xml_file_or_filepath, encoding='utf-8')
-
     from xml.dom.minidom import parse
-    xml_data = parse(xml_file_or_filepath)
+    if hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
+        xml_data = parse(xml_file_or_filepath)
+    else:
+        with open(xml_file_or_filepath, encoding='utf-8') as file:
+            xml_data = parse(file)
     xml_str = xml_data.toprettyxml(indent_text)
 
     # Remove duplicate whitespace
-- 
2.43.0


From cfa5b981ecada21dcf9ddcf5dbaadf159d891918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 24/49] fix: export_csv keeps columns apart whose names are
 equal as Python values

---
 algebraixlib/import_export/csv.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 2e99f60..cb2eeb4 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -86,13 +86,14 @@ def _csv_dict_writer(file_or_path, ordered_columns: _collections.Sequence,
         function).
     :param ordered_columns: A `Sequence` of column names (atoms). The columns are
         written in the given order.
-    :param data: A `Sequence` of rows, where each row is a dictionary, mapping a column name to its
-        value in the given row. Both the column name and the value are atoms.
+    :param data: A `Sequence` of rows, where each row is a dictionary, mapping the position of a
+        column in ``ordered_columns`` to its value in the given row.
     """
     def write_data(out_file):
+        # (Keyed by position; different atoms like 1 and True are equal as dictionary keys.)
         writer = _csv.DictWriter(
-            f=out_file, fieldnames=ordered_columns, dialect='excel')
-        writer.writeheader()
+            f=out_file, fieldnames=range(len(ordered_columns)), dialect='excel')
+        writer.writerow(dict(enumerate(ordered_columns)))
         for row in data:
             writer.writerow(row)
 
@@ -105,16 +106,16 @@ def _convert_clan_to_list_of_dicts(ordered_lefts: 'P( A )', absolute_clan: 'PP(A
     :param ordered_lefts: The left components of ``absolute_clan`` that are converted.
     :param absolute_clan: A regular, absolute clan that is converted into a list of dictionaries.
     :return: A list of dictionaries. Every dictionary represents a single relation in
-        ``absolute_clan``. The lefts of the relation become the keys, the rights become the values
-        of the dictionary.
+        ``absolute_clan``. The positions of the lefts in ``ordered_lefts`` become the keys, the
+        rights become the values of the dictionary.
     """
     for rel in absolute_clan:
         left_to_right_dict = {}
-        for left in ordered_lefts:
+        for column, left in enumerate(ordered_lefts):
             # Get the right component associated with left and add it to our row.
             right = _relations.get_right(rel, left)
             if right is not _ud.Undef():
-                left_to_right_dict[left] = right.value
+                left_to_right_dict[column] = right.value
         # Add right component dictionary to result
         yield left_to_right_dict
 
-- 
2.43.0


From dcb50a9d098cfb8cf2357a10eadc68f9aa7bc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 25/49] fix: import_graph converts blank nodes to IRIs as
 documented

---
 algebraixlib/import_export/rdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..fd4ed06 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,8 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
-    return _convert_graph_to_mathobjects(graph)
+    return _convert_graph_to_mathobjects(graph.skolemize())
 
 
 class _ExportTable(_abc.ABC):
-- 
2.43.0


From 670a29112c0437360b729afb8c7b13f06f58096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 26/49] fix: import_graph falls back to Turtle for any file
 object without a guessable name

---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index fd4ed06..8bd47bc 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -48,7 +48,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From d81278d59ff8fe15da127c8d1abac9215a6d1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 27/49] fix: triple_match matches the empty string

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..aa8a769 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value[:1] in ('?', '$'):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From aee360c018770023a74ec48c65bdda5a8fbb02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 28/49] fix: export_table writes a table without rows

---
 algebraixlib/import_export/rdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 8bd47bc..d071da5 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -193,10 +193,9 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        for row_index, relation in enumerate(self._clan):
+            if row_index > 0:
+                self._row_between_relations()
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 046cfb2f39da1d70f37bcb3368e7e49d5f9221ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 29/49] fix: export_table writes well-formed JSON for missing
 values and special characters

---
 algebraixlib/import_export/rdf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index d071da5..4b798d2 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -289,6 +290,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
         def _body_end(self):
             self._file.write(']}')
         def _row_start(self):
+            self._row_has_items = False
             self._file.write('{')
         def _row_between_relations(self):
             self._file.write(',')
@@ -298,8 +300,9 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             pass
         def _write_item(self, left, right, prefix_separator):
             if right is not _ud.Undef():
-                if prefix_separator:
+                if self._row_has_items:
                     self._file.write(', ')
+                self._row_has_items = True
                 self._write_atom(left)
                 self._file.write(': {"type":')
                 if isinstance(right.value, _rdflib.URIRef):
@@ -317,7 +320,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From 33f69c8ed15d57d5ff01d4344139b5dce99e0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 30/49] fix: slicing a multiclan accepts a plain number as
 offset

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 412e15e..3ba30eb 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -697,7 +697,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
-- 
2.43.0


From 9983ea7346949a7eeb9d61f47373e41e539f2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 31/49] fix: a slice of a multiclan that starts and ends in one
 relation has the right multiplicity

---
 algebraixlib/algebras/multiclans.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 3ba30eb..edbac12 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -729,6 +729,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
     if start_offset == 0 and end_offset >= float('inf'):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
+    if end_offset <= start_offset:
+        # Nothing selected.
+        return []
 
     # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
     # and the resulting multiplicities in these first and last tuples (which may be different from
@@ -758,6 +761,10 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
         # list bounds.
         end_index = len(counter_list)
 
+    if start_index == end_index:
+        # The selected range starts and ends in the same tuple.
+        first_multiple = last_multiple = end_offset - start_offset
+
     # If needed, adjust the multiplicities of the first and last tuple in the selected range.
     if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
         counter_list[start_index] = (counter_list[start_index][0], first_multiple)
-- 
2.43.0


From 0c599f6f34f546aa1198ed3adfb1c7dbbd773b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 32/49] fix: order_slice accepts comparisons that return True
 or False as documented

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index edbac12..0b2a397 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -838,7 +838,7 @@ def order_slice_to_listgen(mclan: 'P(P(M x M) x N)', less_than_f,
         def __lt__(self, other) -> bool:
             assert isinstance(other, Key)
             result = self._lt(self._rel, other._rel)
-            return result.value
+            return _mo.Atom(result).value  # Accept both bool and Atom results.
 
     def make_key(multiset_tuple) -> Key:
         result = Key(relation=multiset_tuple[0], less_than=less_than_f)
-- 
2.43.0


From c8a129774da96fab5a3b62e2707568aa8914b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 33/49] fix: slicing a multiclan with an undefined limit is
 undefined

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 0b2a397..320d334 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -705,10 +705,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
-        elif isinstance(limit, int) or limit == float('inf'):
-            limit = _mo.Atom(limit)
         elif limit is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+        elif isinstance(limit, int) or limit == float('inf'):
+            limit = _mo.Atom(limit)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From 017210a772471a426d9f1e8b1edc2e26b99037b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 34/49] fix: a FunctionTimer that fails to start or to print
 its end does not shift the indentation

---
 algebraixlib/util/miscellaneous.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index c2d2ede..7c5f9a4 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -199,12 +199,12 @@ class FunctionTimer:
     def __init__(self, is_function: bool=True, quiet: bool=False, args: []=None,
             notime: bool=False, walltime: bool=False):
         """Store time and caller's function name, increase indent, print caller's arguments."""
-        FunctionTimer._indent += 1
+        self._ended = True  # There is nothing to end until the timer has started.
         self._notime = notime
         self._quiet = quiet
         self._timer = _time.perf_counter if walltime else _time.process_time
         self._time_str = 'elapsed' if walltime else 'used'
-        start_format = self.get_indent() + '...{0} START '
+        start_format = self.get_indent(additional=1) + '...{0} START '
         if is_function:
             current_frame = _inspect.currentframe()
             outer_frames = _inspect.getouterframes(current_frame)
@@ -229,6 +229,7 @@ class FunctionTimer:
         if not self._quiet:
             print(start_format.format(self.func_name, arguments))
 
+        FunctionTimer._indent += 1
         self._ended = False
         self.start_time = self._timer()
 
@@ -275,9 +276,11 @@ class FunctionTimer:
         :param short: Print a short lap result without the full content of ``variable_name``.
         :param max_length: Maximal length of print. Defaults to 10000 characters.
         """
-        if not self._quiet:
-            self._print('END', variable_name, desc, short, frames_up=1, max_length=max_length)
-        self._final_outdent()
+        try:
+            if not self._quiet:
+                self._print('END', variable_name, desc, short, frames_up=1, max_length=max_length)
+        finally:
+            self._final_outdent()
 
     def _print(self, label: str, variable_name: str, desc: str, short: bool, frames_up: int,
                max_length: int):
-- 
2.43.0


From 213899334002753d0e4a2587ab9a214313d274bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 35/49] fix: mojson keeps values nested in tuples and lists

---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From e967a3c0e97656adbe73948b0b8b2321f0b71f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 36/49] fix: objects are pickled and copied by their contents,
 not with hashes and remembered state

---
 algebraixlib/mathobjects/atom.py     | 6 +++---
 algebraixlib/mathobjects/couplet.py  | 4 ++++
 algebraixlib/mathobjects/multiset.py | 4 ++++
 algebraixlib/mathobjects/set.py      | 4 ++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..0db83fb 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -195,6 +195,6 @@ class Atom(MathObject):
         """Return the instance's string representation."""
         return repr(self._value)
 
-    def __getnewargs__(self):
-        """Necessary to allow Atom to be pickled"""
-        return Atom.__repr__(self),
+    def __reduce__(self):
+        """Pickle and copy the value only (hashes differ between processes)."""
+        return type(self), (self._value,)
diff --git a/algebraixlib/mathobjects/couplet.py b/algebraixlib/mathobjects/couplet.py
index 77c965d..2254c7a 100755
--- a/algebraixlib/mathobjects/couplet.py
+++ b/algebraixlib/mathobjects/couplet.py
@@ -159,6 +159,10 @@ class Couplet(MathObject):
                 'algebraixlib.mathobjects.couplet.Couplet', self.left, self.right)
         return self._hash
 
+    def __reduce__(self):
+        """Pickle and copy the contents only (hashes differ between processes)."""
+        return type(self), (self.left, self.right)
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Couplet(left={left}, right={right})'.format(
diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 2331a38..91c2861 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -272,6 +272,10 @@ class Multiset(MathObject):
             self._hash = _misc.get_hash(*multiset_parts)
         return self._hash
 
+    def __reduce__(self):
+        """Pickle and copy the contents only (hashes differ between processes)."""
+        return type(self), (dict(self.data),)
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Multiset({{{0}}})'.format(', '.join(
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index c794b1c..602b5db 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -272,6 +272,10 @@ class Set(MathObject):
             self._hash = _misc.get_hash('algebraixlib.mathobjects.set.Set', self.data)
         return self._hash
 
+    def __reduce__(self):
+        """Pickle and copy the contents only (hashes differ between processes)."""
+        return type(self), (tuple(self.data),)
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Set({0})'.format(', '.join(repr(elem) for elem in sorted(self.data)))
-- 
2.43.0


From b7f446cd8011055db7db2ca2ccafa77856bc982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 37/49] fix: copying or unpickling the undefined value gives
 the same single object

---
 algebraixlib/undef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebraixlib/undef.py b/algebraixlib/undef.py
index c6af9d4..5ccd632 100644
--- a/algebraixlib/undef.py
+++ b/algebraixlib/undef.py
@@ -51,6 +51,10 @@ class Undef:
         """Prevent comparisons on Undef; raise a TypeError."""
         raise TypeError("Boolean conversion is not supported by Undef")
 
+    def __reduce__(self):
+        """Pickle and copy as the singleton."""
+        return Undef, ()
+
     def __repr__(self):
         """Return the instance's code representation."""
         return 'Undef()'
-- 
2.43.0


From 4ba37326e892e87f09900f83bda2bc9448b61eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 38/49] fix: the undefined value is created while importing,
 not by whichever thread comes first

---
 algebraixlib/undef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebraixlib/undef.py b/algebraixlib/undef.py
index 5ccd632..2748062 100644
--- a/algebraixlib/undef.py
+++ b/algebraixlib/undef.py
@@ -278,6 +278,10 @@ class Undef:
         return False
 
 
+# Create the singleton now; threads that need it first at the same time must not each create one.
+Undef()
+
+
 class RaiseOnUndef:
     """Manage the level for `make_or_raise_undef`. Implemented as static class."""
 
-- 
2.43.0


From cf6104aab06720461d9f7adc64c19d7f2b1ee0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 39/49] fix: regularity of sets of (sets of) clans is
 undefined, not a TypeError, where an element's is undefined

---
 algebraixlib/algebras/properties.py | 52 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 1a667ba..218dfba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -327,17 +327,21 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
 
     # Check higher (not yet defined) algebras.
     if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
-        mo_iter = iter(mo)
-        elem1 = next(mo_iter)
-        if not is_regular(elem1):
-            mo.cache_regular(CacheStatus.IS_NOT)
-            return False
-        elem1_lefts = elem1.get_left_set()
-        regular = all(
-            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
-            for elem in mo_iter)
-        mo.cache_regular(CacheStatus.from_bool(regular))
-        return mo.cached_is_regular
+        elem1_lefts = None
+        for elem in mo:
+            elem_regular = is_regular(elem, _checked=False)
+            if elem_regular is _undef.Undef():
+                mo.cache_regular(CacheStatus.N_A)
+                return _undef.make_or_raise_undef(2)
+            if elem_regular:
+                elem_lefts = elem.get_left_set()
+                if elem1_lefts is None:
+                    elem1_lefts = elem_lefts
+            if not elem_regular or elem_lefts != elem1_lefts:
+                mo.cache_regular(CacheStatus.IS_NOT)
+                return False
+        mo.cache_regular(CacheStatus.IS)
+        return True
 
     # Nothing applied: 'regular' is not defined.
     mo.cache_regular(CacheStatus.N_A)
@@ -375,17 +379,21 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
 
     # Check higher (not yet defined) algebras.
     if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
-        mo_iter = iter(mo)
-        elem1 = next(mo_iter)
-        if not is_right_regular(elem1):
-            mo.cache_right_regular(CacheStatus.IS_NOT)
-            return False
-        elem1_rights = elem1.get_right_set()
-        right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
-            for elem in mo_iter)
-        mo.cache_right_regular(CacheStatus.from_bool(right_regular))
-        return mo.cached_is_right_regular
+        elem1_rights = None
+        for elem in mo:
+            elem_right_regular = is_right_regular(elem, _checked=False)
+            if elem_right_regular is _undef.Undef():
+                mo.cache_right_regular(CacheStatus.N_A)
+                return _undef.make_or_raise_undef(2)
+            if elem_right_regular:
+                elem_rights = elem.get_right_set()
+                if elem1_rights is None:
+                    elem1_rights = elem_rights
+            if not elem_right_regular or elem_rights != elem1_rights:
+                mo.cache_right_regular(CacheStatus.IS_NOT)
+                return False
+        mo.cache_right_regular(CacheStatus.IS)
+        return True
 
     # Nothing applied: 'right-regular' is not defined.
     mo.cache_right_regular(CacheStatus.N_A)
-- 
2.43.0


From 51d994ccbc7a5015ad4c976ca835983c38cf78fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 40/49] fix: a union of structures keeps no member that is a
 subset of another, in whatever order they come

---
 algebraixlib/structure.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 01c440e..0ea8a35 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -410,18 +410,13 @@ class Union(Structure):
         def _add_element(new_element):
             """Add an element (a Structure) to the union if it is not already in it."""
             assert isinstance(new_element, Structure)
-            for existing_element in writeable_union:
-                if new_element.is_subset(existing_element):
-                    # To be added element is subset of existing element: nothing to add.
-                    break
-                elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
-                    writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+            if any(new_element.is_subset(element) for element in writeable_union):
+                # To be added element is subset of existing element: nothing to add.
+                return
+            # To be added element replaces all existing elements of which it is a superset.
+            writeable_union.difference_update(
+                [element for element in writeable_union if element.is_subset(new_element)])
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From ebdc41cbb596da9ff812012c72c2b45bd649afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 41/49] fix: atoms, numbers and power sets are subsets of a
 union that contains them

---
 algebraixlib/structure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 0ea8a35..16b3014 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -543,6 +549,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From 6d1b7e570fa40f5459cc2622f281aa37dad7ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 42/49] fix: a cartesian product is a subset of a union that
 contains all of M

---
 algebraixlib/structure.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 16b3014..922c253 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -354,10 +354,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From 9c745a227ae3450bb01d50be66cab3a67a775099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 43/49] fix: a structure and a union of only that structure are
 equal in both directions and hash alike

---
 algebraixlib/structure.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 922c253..523f489 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,6 +117,8 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == Structure
 
     # ----------------------------------------------------------------------------------------------
@@ -181,6 +183,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
@@ -237,6 +241,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
@@ -286,6 +292,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
@@ -373,6 +381,8 @@ class CartesianProduct(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
         return False
@@ -503,6 +513,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # A union of one structure is the same as that structure.
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -580,6 +593,8 @@ class PowerSet(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
         return False
-- 
2.43.0


From 077b0a074328bc985691a06874b5076a3a37fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 44/49] fix: short LaTeX of a multiset abbreviates by distinct
 elements and tells how many are not shown

---
 algebraixlib/util/latexprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..b4cd5fd 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -265,11 +265,12 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
         result += separator.join(
             [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
                 sorted(mset.data.items()), Config.short_set_len)])
         result += separator + _Tokens.ellipsis
+        result += '({0})'.format(len(mset.data) - Config.short_set_len)
     else:
         result += separator.join([latex_mset(elem_key, multiple)
                                   for elem_key, multiple in sorted(mset.data.items())])
-- 
2.43.0


From 3078105aae454f395b9c821c8283526915487df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 45/49] fix: short LaTeX of a set parenthesizes couplets
 according to the elements it shows

---
 algebraixlib/util/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index b4cd5fd..1c34808 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -202,7 +202,7 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in sorted(set_.data)[:Config.short_set_len]]
         else:
             is_couplet_list = [elem.is_couplet for elem in set_]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
-- 
2.43.0


From 04044b1411596ed03d49da33918c2bb0a3307c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 46/49] fix: create_simple_web_page returns a page instead of
 failing on its own template

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..e2f7fc0 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -210,7 +210,7 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-- 
2.43.0


From 6a5bf00a17ca7c317c8ba801cb8a03d073679621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 47/49] fix: create_simple_web_page escapes what it shows

---
 algebraixlib/util/html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index e2f7fc0..1efd1a8 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -208,12 +208,13 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
     <body>
         <h1>MathJax is Easy!</h1>
         <h2>Input:</h2>
-        <div id="dataAlgebraArea">{data_algebra_in!s}</div>
+        <div id="dataAlgebraArea">{data_algebra_in}</div>
         <h2>Output:</h2>
         <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=_html.escape(str(mathobj)),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0


From 795311336ac5dd051f88e3008f3d7238d0fc3595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 48/49] fix: HTML pages show a text as a text, not one line per
 character

---
 algebraixlib/util/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 1efd1a8..0d3b6c0 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -150,7 +150,7 @@ def as_html_handle_data_algebra(mathobj):
     if isinstance(mathobj, _mo.MathObject):
         # print this one math object
         return "$$" + _html.escape(_latexprinter.math_object_to_latex(mathobj)) + "$$"
-    elif isinstance(mathobj, _collections.Iterable):
+    elif isinstance(mathobj, _collections.Iterable) and not isinstance(mathobj, (str, bytes)):
         temp = ""
         for elem in mathobj:
             if isinstance(elem, _mo.MathObject):
-- 
2.43.0


From 43b614987347ecf97fce7adde2982cd390fbb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 49/49] fix: unary_extend recognizes an undefined operand in
 unchecked calls

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0

