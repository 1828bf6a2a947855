From 9a4c3c56f7c9b6855db784b1b46e2ad30dd3673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:05 +0000
Subject: [PATCH 01/71] fix: keep a sequence list sorted when an entry starts
 at time 0

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..4647111 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,7 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        if this_time is not None and all(s is not None for s in self.starts):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From ed9c63e254620fd8dcd60a36595fa5a999adad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:09 +0000
Subject: [PATCH 02/71] fix: concatenating sequence lists keeps a plain list of
 values

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 4647111..fb35ffc 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -229,7 +229,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 3806b68090751687bc631d1583d31bda34f729d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 03/71] fix: membership test of a non-sequence in a sequence
 list is False

---
 src/aligned_textgrid/sequence_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index fb35ffc..95b7e40 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -58,7 +58,10 @@ class SequenceList(Sequence):
         
         if other in self._values:
             return True
-        
+
+        if not hasattr(other, "return_praatio"):
+            return False
+
         self_tuples = [tuple(x.return_praatio()) for x in self]
         other_tuple = tuple(other.return_praatio())
         if other_tuple in self_tuples:
-- 
2.43.0


From b61e422f10692fd4cef02bb7b0e4123436914128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:16 +0000
Subject: [PATCH 04/71] fix: custom_classes returns classes in the named return
 order

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From d9f27c41283d0f944a6d407c181c356fbd23d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:19 +0000
Subject: [PATCH 05/71] fix: get_class_hierarchy starts from a fresh list on
 every call

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 48af75d..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From 751cb12b12f9b3681ca6aa49769b2b8d2ce3f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:24 +0000
Subject: [PATCH 06/71] fix: the maximum time of a points group is its latest
 point

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..adefbd7 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -318,7 +318,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From 3599465223f3483bdf29889d4ad3b94a7535fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 07/71] fix: distance to a neighbouring point at time 0 is
 defined

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From a4a497687b7f544d714112c696c7b894059a3d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 08/71] fix: a point outside every interval of a tier has no
 interval

---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From 0d212b1b5bf6e5937af2077d16901c6bcaec8f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:42 +0000
Subject: [PATCH 09/71] fix: setting a new super instance leaves the previous
 one

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..0bc92c8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -127,6 +127,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From fffda5ff25cae0c5d19856358cff96fcc18d84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:47 +0000
Subject: [PATCH 10/71] fix: appending to a subset list updates within and
 contains

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 0bc92c8..1dcd103 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -183,6 +183,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             # avoid recursion
             if not self is subset_instance.super_instance:
                 subset_instance.set_super_instance(self)
+            self.contains = self._subset_list
             #self.validate()
         elif isinstance(subset_instance, self.subset_class):
             pass
-- 
2.43.0


From fdf31bc12ee8273f8c92b1c459d069a5fa4dd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 11/71] fix: setting a subset list takes over all given
 intervals and releases replaced ones

---
 src/aligned_textgrid/sequences/sequences.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 1dcd103..87ceb83 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -150,11 +150,16 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
+            orig_list = self._subset_list
             self._subset_list = SequenceList(*subset_list)
-            for element in subset_list:
+            for element in self._subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
                     element.super_instance = self
+            for orig in orig_list:
+                if not any(orig is element for element in self._subset_list):
+                    orig.super_instance = None
+                    orig.within = None
 
             #self._set_within()
             self.contains = self._subset_list
-- 
2.43.0


From 237f6610f48ef42d6c24134ef9bf49a5e670cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:57 +0000
Subject: [PATCH 12/71] fix: adding to an interval keeps the intervals already
 in its subset list

---
 src/aligned_textgrid/sequences/sequences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 87ceb83..56c3ae8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -98,6 +98,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         self_copy.__dict__ = self.__dict__
 
         if issubclass(self.entry_class, other.superset_class):
+            for sub in self_copy.subset_list:
+                sub.super_instance = self_copy
             self_copy.subset_list += [other]
             return self_copy
         if issubclass(self.entry_class, other.subset_class):
-- 
2.43.0


From f9f37e0ba3d31b08fce91fe4cc73b26d54823aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:01 +0000
Subject: [PATCH 13/71] fix: fusing links the new neighbour back to the fused
 interval

---
 src/aligned_textgrid/sequences/sequences.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 56c3ae8..acbf06d 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -604,7 +604,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.end = fusee.end
-            fuser.fol = fusee.fol
+            if fusee.fol.label == "#":
+                fuser.set_final()
+            else:
+                fuser.set_fol(fusee.fol)
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -635,7 +638,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.start = fusee.start
-            fuser.prev = fusee.prev
+            if fusee.prev.label == "#":
+                fuser.set_initial()
+            else:
+                fuser.set_prev(fusee.prev)
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
-- 
2.43.0


From e1801e149c0dd137dfa81f0e1e498183f797c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 14/71] fix: popping from any top-level tier resets precedence

---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..ca6c8a9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -171,7 +171,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
+            if issubclass(self.superset_class, Top):
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From 1c26e6db5976607daf09ac1e9d4e122663cd50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:34 +0000
Subject: [PATCH 15/71] fix: precedence on a tier does not cross the edges of
 supersets

---
 src/aligned_textgrid/sequences/tiers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ca6c8a9..e4d5bda 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -138,11 +138,13 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
     def __set_precedence(self)->None:
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0:
+            if idx == 0 or \
+               self._sequence_list[idx-1].super_instance is not seq.super_instance:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1:
+            if idx == len(self._sequence_list)-1 or \
+               self._sequence_list[idx+1].super_instance is not seq.super_instance:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-- 
2.43.0


From f4329b24709fc6fb93dff6e04335838c7c0032cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 16/71] fix: popping from a tier without supersets resets
 precedence

---
 src/aligned_textgrid/sequences/tiers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index e4d5bda..2ac38db 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -173,8 +173,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if issubclass(self.superset_class, Top):
-                self.__set_precedence()
+            self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
 
-- 
2.43.0


From 8c0913d0f4657248cd2bf7b9c5034feec18282a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 17/71] fix: an interval removed from its superset no longer
 links to former siblings

---
 src/aligned_textgrid/sequences/sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index acbf06d..3bf520b 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -162,6 +162,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 if not any(orig is element for element in self._subset_list):
                     orig.super_instance = None
                     orig.within = None
+                    orig.set_initial()
+                    orig.set_final()
 
             #self._set_within()
             self.contains = self._subset_list
@@ -224,8 +226,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         
         self.super_instance = None
         self.within = None
-
-
+        self.set_initial()
+        self.set_final()
 
     def _set_subset_precedence(self)->None:
         """summary
-- 
2.43.0


From 1ac417da1d8c14e0a15ae5898889f0ae5295c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:08 +0000
Subject: [PATCH 18/71] fix: points appended or concatenated to a point tier
 get neighbours and tier

---
 src/aligned_textgrid/points/tiers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index adefbd7..c6f9688 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -100,7 +100,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         self.name = name
         entry_order = np.argsort([x.time for x in self.entry_list])
         self.entry_list = [self.entry_list[idx] for idx in entry_order]
-        self.sequence_list = SequenceList()
+        self._sequence_list = SequenceList()
        
         for entry in self.entry_list:
             this_point = self.entry_class._cast(entry)
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From 649261e612f7ea6d21d5e7eabce039065ceac7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 19/71] fix: a point tier made from a point tier has its
 current points

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index c6f9688..28e5642 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From 08ceaa3cf84fa93ff95a5384625360f8b3f02c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:16 +0000
Subject: [PATCH 20/71] fix: an entry appended to an empty tier gets the entry
 class of the tier

---
 src/aligned_textgrid/mixins/tiermixins.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..3381200 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -106,6 +106,7 @@ class TierMixins:
         if new in self:
             return
         
+        new = self.entry_class._cast(new)
         ## triggers precedence resetting
         self.sequence_list += [new]
         if hasattr(new, "subset_list") \
-- 
2.43.0


From b60035d45a138f6b383d72b0f66ce500993e1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:21 +0000
Subject: [PATCH 21/71] fix: tiers of a group that stops short of the bottom
 class are within it

---
 src/aligned_textgrid/mixins/tiermixins.py   |  6 ++++--
 src/aligned_textgrid/sequences/sequences.py |  3 ++-
 src/aligned_textgrid/sequences/tiers.py     | 15 ++++++++-------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 3381200..30d9a01 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -111,14 +111,16 @@ class TierMixins:
         self.sequence_list += [new]
         if hasattr(new, "subset_list") \
            and len(new) > 0 \
-           and self.within:
+           and self.within \
+           and self.within_index + 1 < len(self.within):
             down_tier = self.within_index+1
             for interval in new.subset_list:
                 self.within[down_tier].append(interval, re_relate = False)
         
         if hasattr(new, "super_instance")\
            and new.super_instance \
-           and self.within:
+           and self.within \
+           and self.within_index > 0:
             uptier  = self.within_index-1
             self.within[uptier].append(new.super_instance, re_relate = False)
             
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 3bf520b..bdbeab6 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -113,7 +113,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             self.subset_list += [other]
             if self.intier and self.intier.within:
                 self_tier_idx = self.intier.within_index
-                self.intier.within[self_tier_idx+1].append(other, re_relate = False)
+                if self_tier_idx + 1 < len(self.intier.within):
+                    self.intier.within[self_tier_idx+1].append(other, re_relate = False)
             return
         raise ValueError("Appended SequenceInterval must be the subset class of the original.")
 
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 2ac38db..bdc0d53 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -249,15 +249,15 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             new = self.entry_class((s, e, ""))
             self.sequence_list.append(new)
 
-        if issubclass(self.subset_class, Bottom):
-            if self.within:
-                self.within.re_relate()
-                return
-        
-        if self.within:
+        if not self.within:
+            return
+
+        if self.within_index + 1 < len(self.within):
             next_tier = self.within[self.within_index+1]
             next_tier.cleanup()
 
+        self.within.re_relate()
+
         # existing_intervals = self.sequence_list
 
         # n_existing = len(existing_intervals)
@@ -569,7 +569,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    done = True
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 57085611b75403a6ad4ed0793268ea22551a64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:25 +0000
Subject: [PATCH 22/71] fix: intervals added by tier cleanup get neighbours and
 tier

---
 src/aligned_textgrid/sequences/tiers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index bdc0d53..7c55e37 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -248,6 +248,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         for s,e in zip(new_starts, new_ends):
             new = self.entry_class((s, e, ""))
             self.sequence_list.append(new)
+        self.__set_precedence()
 
         if not self.within:
             return
-- 
2.43.0


From 2d62e74af9101e9c2de4e85b41195ad92e06c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:54 +0000
Subject: [PATCH 23/71] fix: an interval that overlaps no superset is not
 forced into the nearest one

---
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 7c55e37..a701c7a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -419,7 +419,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # For each lower interval
                 # get the index of the upper interval
                 # it has the most overlap with.
+                # Intervals that overlap with none are left unrelated.
                 upper_container = overlaps.argmax(axis = 1)
+                upper_container[max_overlaps <= 0] = -1
                 lower_idx = np.arange(len(lower_tier))
 
                 _starts = np.array([
@@ -439,7 +441,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 starts = np.ma.masked_array(_starts, _starts < 0)
                 ends = np.ma.masked_array(_ends, _ends < 0)
                 
-                mismatches = lower_durations - max_overlaps
+                mismatches = (lower_durations - max_overlaps)[max_overlaps > 0]
                 any_mismatch = bool(np.any(mismatches > 0))
 
                 # any_mismatch = bool(np.any(start_match > 0))
-- 
2.43.0


From a99200491b0354fc9e6a1883e8531e283e275306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 24/71] fix: blank intervals that close gaps in a superset are
 on the lower tier too

---
 src/aligned_textgrid/sequences/tiers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index a701c7a..039cc01 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -467,14 +467,14 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
 
                 # Close internal gaps
                 for lowers in lower_sequences:
-                    if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
+                    if not np.allclose(lowers.starts[1:], lowers.ends[:-1]):
                         boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
                         for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                            new = lowers[0].entry_class((s, e, ""))
+                            lowers.append(new)
+                            lower_tier.append(new, re_relate = False)
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From 83a035c3cbbd87f1378a21de7d06fbde690e108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:22 +0000
Subject: [PATCH 25/71] fix: group cleanup projects missing supersets up
 through every tier

---
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 039cc01..3283042 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -621,7 +621,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         """
         not_tight = False
         
-        for tier in self:
+        # from the bottom up, so that projected intervals are themselves
+        # projected up
+        for tier in reversed(self.tier_list):
             starts = tier.starts
             ends = tier.ends
 
-- 
2.43.0


From 3217241b31d615f31e449fd98762c83f5f2b2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:25 +0000
Subject: [PATCH 26/71] fix: grid cleanup extends only interval groups that are
 too short, and relates the added intervals

---
 src/aligned_textgrid/aligned_textgrid.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..3919dcd 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -473,6 +473,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tg.cleanup()
             
             interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            if len(interval_tgs) < 1:
+                return
+
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
@@ -480,7 +483,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -494,8 +497,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
@@ -507,8 +510,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From 7e602d6143dd0d3bdfa889d5e424c15a2c248243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 27/71] fix: empty groups do not share one default tier

---
 src/aligned_textgrid/points/tiers.py    | 5 ++++-
 src/aligned_textgrid/sequences/tiers.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 28e5642..cff3e3f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -251,8 +251,11 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self|None = None
     ):
+        if tiers is None:
+            tiers = [SequencePointTier()]
+
         if isinstance(tiers, PointsGroup):
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 3283042..240ae1a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -368,9 +368,12 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self|None = None,
         delay_cleanup = False
     ):
+        if tiers is None:
+            tiers = [SequenceTier()]
+
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0


From ae6d7996d32e427441e13657e9be0669ecb0e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 28/71] fix: concatenating groups works for points and keeps
 entries equal to ones on the left

---
 src/aligned_textgrid/mixins/tiermixins.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 30d9a01..ec5606f 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -300,9 +300,7 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
-                    continue
-                if interval in t1:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
                 interval._shift(increment)
                 t1.append(interval)
-- 
2.43.0


From bd7f70f16ed9c73287621a442f3966b7b82a30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:20 +0000
Subject: [PATCH 29/71] fix: popping the only class of a grid removes its
 groups

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 3919dcd..a470e81 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -375,9 +375,6 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if not(isinstance(new, Sequence) and all([isinstance(v, TierGroupMixins) for v in new])):
             raise ValueError("Ony a list of TierGroups can be set as tier groups.")
         
-        if len(new) < 1:
-            return
-        
         self._tier_groups = new
         self.contains = self.tier_groups
 
-- 
2.43.0


From 7f56f4ee5b38ac352a4a9a1bc685686fcd6ceceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:24 +0000
Subject: [PATCH 30/71] fix: regrouping resets precedence and containment on
 every tier

---
 src/aligned_textgrid/sequences/tiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 240ae1a..9a23986 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -150,6 +150,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
                 seq.set_fol(self._sequence_list[idx+1])
         if issubclass(self.superset_class, Top):
             self.contains = self._sequence_list
+        else:
+            self.contains = []
 
     def __set_intier(
             self,
@@ -510,6 +512,10 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
+
+        ## triggers precedence resetting
+        for tier in self.tier_list:
+            tier.sequence_list = tier.sequence_list
     
     def __getitem__(
             self,
-- 
2.43.0


From fdf9f597536afe9b49aa07c72e800260bb82bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:46 +0000
Subject: [PATCH 31/71] fix: group accessors of a grid follow its current
 groups

---
 src/aligned_textgrid/aligned_textgrid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index a470e81..cec5ab0 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -344,6 +344,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
         return tier_groups
     
     def _set_group_names(self):
+        for name in getattr(self, "_group_accessors", []):
+            if isinstance(self.__dict__.get(name), TierGroupMixins):
+                delattr(self, name)
+        self._group_accessors = []
+
         tier_group_names = [x.name for x in self.tier_groups]
         duplicate_names = [
             name 
@@ -363,6 +368,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         for idx, name in enumerate(tier_group_names):
             setattr(self, name, self.tier_groups[idx])
+        self._group_accessors = tier_group_names
 
     @property
     def tier_groups(self) -> list[TierGroup|PointsGroup|None]:
@@ -648,6 +654,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -730,7 +737,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
-        self.contains = self.tier_groups            
+        self.contains = self.tier_groups
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From 150f1424ce94fdd048b3c24eb787cc11942d57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 32/71] fix: the extent of groups and grids ignores empty tiers

---
 src/aligned_textgrid/aligned_textgrid.py | 15 ++++++++++++---
 src/aligned_textgrid/points/tiers.py     | 12 ++++++------
 src/aligned_textgrid/sequences/tiers.py  | 10 ++++++++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index cec5ab0..0e0eebe 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -398,13 +398,19 @@ class AlignedTextGrid(Sequence, WithinMixins):
     def xmin(self)->np.array:
         if len(self) == 0:
             raise ValueError('No minimum time for empty TextGrid.')
-        return np.array([tgroup.xmin for tgroup in self.tier_groups]).min()
+        return min(
+            (tgroup.xmin for tgroup in self.tier_groups if tgroup.xmin is not None),
+            default = None
+        )
 
     @property
     def xmax(self)->np.array:
         if len(self) == 0:
             raise ValueError('No maximum time for empty TextGrid.')
-        return np.array([tgroup.xmax for tgroup in self.tier_groups]).max()
+        return max(
+            (tgroup.xmax for tgroup in self.tier_groups if tgroup.xmax is not None),
+            default = None
+        )
     
     def append(self, tier_group:TierGroup):
         """Append a new TierGroup to an existing 
@@ -475,7 +481,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 if isinstance(tg, TierGroup):
                     tg.cleanup()
             
-            interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            interval_tgs = [
+                tg for tg in self
+                if isinstance(tg, TierGroup) and tg.xmin is not None
+            ]
             if len(interval_tgs) < 1:
                 return
 
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cff3e3f..604ea7f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -322,17 +322,17 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self):
-        times = np.array(
-            [t.xmin for t in self.tier_list]
+        return min(
+            (t.xmin for t in self.tier_list if len(t) > 0),
+            default = None
         )
-        return times.min()
 
     @property    
     def xmax(self):
-        times = np.array(
-            [t.xmax for t in self.tier_list]
+        return max(
+            (t.xmax for t in self.tier_list if len(t) > 0),
+            default = None
         )
-        return times.max()
     
     def __repr__(self):
         n_tiers = len(self.tier_list)
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 9a23986..1edf12d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -598,11 +598,17 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self)->float:
-        return np.array([tier.xmin for tier in self.tier_list]).min()
+        return min(
+            (tier.xmin for tier in self.tier_list if len(tier) > 0),
+            default = None
+        )
     
     @property
     def xmax(self)->float:
-        return np.array([tier.xmax for tier in self.tier_list]).max()
+        return max(
+            (tier.xmax for tier in self.tier_list if len(tier) > 0),
+            default = None
+        )
     
     def _project_up(self, interval:SequenceInterval)->None:
         """
-- 
2.43.0


From 3dd79be8fbcd8d7919e59a9972a273ed97e40ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:47 +0000
Subject: [PATCH 33/71] fix: an empty point tier has no nearest point

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 604ea7f..27ad1b1 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -193,6 +193,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         Returns:
             (int): The index of the nearest point within the tier
         """
+        if len(self) < 1:
+            return None
         out_idx = np.abs(self.times-time).argmin()
         return out_idx
     
@@ -209,6 +211,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             (SequencePoint): the nearest point to `time`
         """
         out_idx = self.get_nearest_point_index(time)
+        if out_idx is None:
+            return None
         return self.sequence_list[out_idx]
 
     def return_tier(self, name:str|None = None) -> PointTier:
-- 
2.43.0


From a3603e3137196e150d7f421594ef9d93e798c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:50 +0000
Subject: [PATCH 34/71] fix: empty tiers contribute no rows to a data frame

---
 src/aligned_textgrid/outputs/to_dataframe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index a678a94..b1e1529 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -69,6 +69,9 @@ def tier_to_df(
         with_subset: bool = True
         ) -> pl.DataFrame:
     
+    if len(obj) < 1:
+        return pl.DataFrame()
+
     all_interval_dfs = [
         sequence_to_df(x, with_subset) for x in obj
     ]
@@ -90,7 +93,7 @@ def tiergroup_to_df(
         ]
         out_df = pl.concat(all_df, how = "diagonal")
 
-    if hasattr(obj, "name"):
+    if hasattr(obj, "name") and out_df.height > 0:
        out_df = out_df.with_columns(
             name=pl.lit(obj.name)
         )
-- 
2.43.0


From 318dac84ccf6b50f85885988659264ec46f25566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:53 +0000
Subject: [PATCH 35/71] fix: a grid with an empty tier can be saved

---
 src/aligned_textgrid/aligned_textgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 0e0eebe..b4c6569 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -820,7 +820,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     name = f"{name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
-                out_tg.addTier(tier = tier.return_tier(name))
+                if len(tier) > 0:
+                    out_tg.addTier(tier = tier.return_tier(name))
+                else:
+                    empty_tier = PointTier if isinstance(tier, SequencePointTier) else IntervalTier
+                    out_tg.addTier(tier = empty_tier(name, [], self.xmin, self.xmax))
         return out_tg
 
     def save_textgrid(
-- 
2.43.0


From f13f4ce200d2541e13a129d4f73de4e40a2fb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:21 +0000
Subject: [PATCH 36/71] fix: an interval added to its superset keeps its own
 subset list

---
 src/aligned_textgrid/sequences/sequences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index bdbeab6..35b9721 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -103,6 +103,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             self_copy.subset_list += [other]
             return self_copy
         if issubclass(self.entry_class, other.subset_class):
+            for sub in self_copy.subset_list:
+                sub.super_instance = self_copy
             other.subset_list += [self_copy]
             return self_copy
         
-- 
2.43.0


From 1c7a03c226a94bb3a50f3be8547e563bfe20b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:06 +0000
Subject: [PATCH 37/71] fix: interleaving without a tier to take the timing
 from is refused before anything changes

---
 src/aligned_textgrid/aligned_textgrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index b4c6569..8cb18fd 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -626,6 +626,13 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
+        for tg in self.tier_groups:
+            if specified_class in tg.entry_classes and not copy_class in tg.entry_classes:
+                raise ValueError(
+                    f"TierGroup {tg.name} has no tier {timing_from} the new tier "
+                    "to take the timing from."
+                )
+
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
-- 
2.43.0


From fe418baa3f9e7a7964ae3156dfc75d862f86681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:09 +0000
Subject: [PATCH 38/71] fix: interleaving and popping a class update the tiers
 of every group

---
 src/aligned_textgrid/aligned_textgrid.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 8cb18fd..6627ebc 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -343,6 +343,17 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 tier_groups.append(PointsGroup(point_tier_list))   
         return tier_groups
     
+    def _update_tier_classes(self):
+        """
+        Make every interval tier follow the class links of its entry class
+        """
+        for tg in self.tier_groups:
+            if not isinstance(tg, TierGroup):
+                continue
+            for tier in tg:
+                tier.superset_class = tier.entry_class.superset_class
+                tier.subset_class = tier.entry_class.subset_class
+
     def _set_group_names(self):
         for name in getattr(self, "_group_accessors", []):
             if isinstance(self.__dict__.get(name), TierGroupMixins):
@@ -636,6 +647,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
+        self._update_tier_classes()
+
         new_tiergoups = []
 
         for tg in self.tier_groups:
@@ -658,10 +671,6 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 insert_index = orig_entry_classes.index(down_class)
                 tier_list.insert(insert_index, new_tier)
                 
-                for tier in tier_list:
-                    tier.superset_class = tier.entry_class.superset_class
-                    tier.subset_class = tier.entry_class.subset_class
-
                 new_tg = TierGroup(tier_list)
                 new_tg.name = tg.name
                 new_tiergoups.append(new_tg)
@@ -740,9 +749,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             if not isinstance(pop_tier_sub, Bottom):
                 pop_tier_sub.set_superset_class(pop_tier_super)
 
-            for tier in keep_tiers:
-                tier.superset_class = tier.entry_class.superset_class
-                tier.subset_class = tier.entry_class.subset_class
+            self._update_tier_classes()
             new_tg = TierGroup(keep_tiers)
             for seq in new_tg[-1]:
                 seq.subset_list = []
-- 
2.43.0


From 6cf0b2357b3118890fb033ad5d99be4fb059b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:12 +0000
Subject: [PATCH 39/71] fix: a group that does not fit the hierarchy of a grid
 is refused instead of losing tiers

---
 src/aligned_textgrid/aligned_textgrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 6627ebc..1c3d6c2 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -466,6 +466,12 @@ class AlignedTextGrid(Sequence, WithinMixins):
         """
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
+        for upper, lower in zip(new_classes, new_classes[1:]):
+            if issubclass(upper, SequenceInterval) and not upper.subset_class is lower:
+                raise ValueError(
+                    f"A TierGroup with {upper.__name__} and {lower.__name__} tiers "
+                    "does not fit into the class hierarchy of the AlignedTextGrid."
+                )
         for cl, tier in zip(new_classes, tier_group):
             entries = [cl._cast(i) for i in tier]
             tier.__init__(entries, entry_class = cl)
-- 
2.43.0


From 37b376ceb7bcf760ac0850130e46402d4f87f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:15 +0000
Subject: [PATCH 40/71] fix: a tier refused by a group in a grid keeps its
 entry class

---
 src/aligned_textgrid/mixins/tiermixins.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index ec5606f..80504aa 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -236,10 +236,10 @@ class TierGroupMixins:
                 f"can be appended to a {self.__class__.__name__}"
             ))
         
+        new_class = new.entry_class
         if self.within:
             self.within._reclone_classes([new.entry_class])
             new_class, = self.within._swap_classes([new.entry_class], self.within._cloned_classes)
-            new.__init__(new, entry_class=new_class)
         
         possible_set = {SequenceBaseClass}
         existing_set = set()
@@ -255,7 +255,7 @@ class TierGroupMixins:
             existing_set = {tier.entry_class for tier in self}
 
         existing_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in existing_set
         ]
 
@@ -266,7 +266,7 @@ class TierGroupMixins:
             ))
 
         possible_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in possible_set
         ]
 
@@ -276,6 +276,9 @@ class TierGroupMixins:
                 "does not fit into the sequence hierarchy."
             ))
 
+        if not new_class is new.entry_class:
+            new.__init__(new, entry_class=new_class)
+
         orig_tiers = self.tier_list
         orig_tiers += [new]
 
-- 
2.43.0


From 303d7768c55cc49763474389a46e2b0b136f37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 41/71] fix: a flat class list that repeats a hierarchy uses
 every tier once

---
 src/aligned_textgrid/aligned_textgrid.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 1c3d6c2..ec1007d 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -278,6 +278,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         ## Nestifying hierarchywise
         entry_list = []
+        used_idxes = set()
         for top_idx in top_idxes:
             this_tierlist = []
             this_entrylist = []
@@ -292,12 +293,19 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     done = True
                     break
 
-                try:
-                    next_idx = entry_classes.index(curr.subset_class)
-                except ValueError:
+                # repeated classes are assigned in order
+                next_idx = next(
+                    (
+                        i for i, c in enumerate(entry_classes)
+                        if c is curr.subset_class and i not in used_idxes
+                    ),
+                    None
+                )
+                if next_idx is None:
                     done = True
                     break
 
+                used_idxes.add(next_idx)
                 this_tierlist.append(textgrid.tiers[next_idx])
                 this_entrylist.append(entry_classes[next_idx])
 
-- 
2.43.0


From 6674d1faca770e0627c516a02b891190d609c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:36 +0000
Subject: [PATCH 42/71] fix: group cleanup fills supersets whose children stop
 short even if tiers have no internal gaps

---
 src/aligned_textgrid/sequences/tiers.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 1edf12d..8dbe41e 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -634,19 +634,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         This will fill any gaps between intervals with intervals
         with an empty label.
         """
-        not_tight = False
-        
         # from the bottom up, so that projected intervals are themselves
         # projected up
         for tier in reversed(self.tier_list):
-            starts = tier.starts
-            ends = tier.ends
-
-            if not np.allclose(
-                starts[1:], ends[:-1]
-            ):
-                not_tight = True
-
             if issubclass(tier.entry_class, Top):
                 continue
 
@@ -661,9 +651,6 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         self._project_up(i)
                 self.re_relate()        
 
-        if not not_tight:
-            return
-        
         for tier in self:
             tier.cleanup()
         
-- 
2.43.0


From 3945954d5d26494b9f2bbccac3a32bb9d23749f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:50 +0000
Subject: [PATCH 43/71] fix: entry classes may be given as tuples

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index ec1007d..33bdb4d 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -187,7 +187,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         flat_classes = entry_classes
 
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
         unique_classes = list(set(flat_classes))
@@ -332,7 +332,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(entry_classes)
         # This check seems overly cautious, since 
         # _nestify_tiers should always return a list of lists.
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             entry_classes = [self._swap_classes(ecs, self._cloned_classes) for ecs in entry_classes]
         else:
             entry_classes = self._swap_classes(entry_classes, self._cloned_classes)
-- 
2.43.0


From 1b6bd8596fa2c09e97438d6ee8214da85e70ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:34 +0000
Subject: [PATCH 44/71] fix: a single tier can be saved as a textgrid

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 27ad1b1..ed50abe 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -238,7 +238,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 8dbe41e..aa02ce3 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -341,7 +341,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From bae3a46ca272b1323c85aeae46b05e4db0593ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:37 +0000
Subject: [PATCH 45/71] fix: repeated tier names are saved under names no other
 tier has

---
 src/aligned_textgrid/aligned_textgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 33bdb4d..142c88c 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -839,12 +839,15 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 A `praatio` `Textgrid`
         """
         out_tg = Textgrid()
+        all_names = [tier.name for group in self.tier_groups for tier in group]
         tier_names = []
         dup_idx = 0
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
                 if name in tier_names:
+                    while f"{name}_{dup_idx}" in all_names + tier_names:
+                        dup_idx += 1
                     name = f"{name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
-- 
2.43.0


From a3acc3b6c7dd848ee306cc1da8f5e2b0299058cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:41 +0000
Subject: [PATCH 46/71] fix: tiers of an appended group keep their names

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 142c88c..2e1daf6 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -482,7 +482,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 )
         for cl, tier in zip(new_classes, tier_group):
             entries = [cl._cast(i) for i in tier]
+            name = tier.name
             tier.__init__(entries, entry_class = cl)
+            tier.name = name
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From 200f8e8c8168964d3f800b72892650094856070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 47/71] fix: intervals added by tier cleanup in a group do not
 cross superset edges

---
 src/aligned_textgrid/sequences/tiers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index aa02ce3..adc376d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -247,9 +247,21 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         boundaries = np.unique(np.concatenate([self.starts, self.ends]))
         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], self.starts)]
         new_ends = boundaries[1:][~np.isin(boundaries[1:], self.ends)]
+        # within a group, a filled gap doesn't cross the edges of supersets
+        cuts = np.array([])
+        if self.within and self.within_index > 0:
+            up_tier = self.within[self.within_index-1]
+            cuts = np.concatenate([up_tier.starts, up_tier.ends])
+
         for s,e in zip(new_starts, new_ends):
-            new = self.entry_class((s, e, ""))
-            self.sequence_list.append(new)
+            inner = [
+                c for c in np.unique(cuts)
+                if s < c < e and not np.allclose(c, s) and not np.allclose(c, e)
+            ]
+            edges = [s, *inner, e]
+            for start, end in zip(edges, edges[1:]):
+                new = self.entry_class((start, end, ""))
+                self.sequence_list.append(new)
         self.__set_precedence()
 
         if not self.within:
-- 
2.43.0


From 52cf62ef9d4cae5cfe0f4b4776233b4d3936a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:43 +0000
Subject: [PATCH 48/71] fix: group cleanup fills empty lower tiers

---
 src/aligned_textgrid/sequences/tiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index adc376d..0296a68 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -665,6 +665,12 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
 
         for tier in self:
             tier.cleanup()
+
+        for upper, lower in zip(self.tier_list, self.tier_list[1:]):
+            if len(lower) > 0:
+                continue
+            for i in upper:
+                lower.append(lower.entry_class((i.start, i.end, "")), re_relate = False)
         
         self.re_relate()
 
-- 
2.43.0


From 59c34ee1b8aa5fe6b649af471ca694c8b9f56cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:53 +0000
Subject: [PATCH 49/71] fix: tiers with whole-number times can be shifted by
 fractions

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index ed50abe..b9f59cd 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -176,7 +176,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             return None
         
     def _shift(self, increment):
-        self.times += increment
+        self.times = self.times + increment
     
     def cleanup(self):
         pass
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 0296a68..8119e6c 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -216,8 +216,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             i.end = t
 
     def _shift(self, increment:float) -> None:
-        self.starts += increment
-        self.ends   += increment
+        self.starts = self.starts + increment
+        self.ends   = self.ends + increment
 
     @property
     def labels(self)->list[str]:
-- 
2.43.0


From a6a83683988387590ee183d00dea641c20a91402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:54 +0000
Subject: [PATCH 50/71] fix: class names that contain Top or Bottom do not
 break the hierarchy

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 35b9721..b1b3d35 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -50,7 +50,7 @@ class HierarchyMixins:
         """
         if superset_class is None:
             cls.superset_class = None
-        elif "Top" in cls.__name__ :
+        elif issubclass(cls, Top):
             cls.superset_class = None
         elif issubclass(superset_class, HierarchyPart) and not superset_class is cls:
             cls.superset_class = superset_class
@@ -76,7 +76,7 @@ class HierarchyMixins:
 
         if subset_class is None:
             cls.subset_class = None
-        elif "Bottom" in cls.__name__:
+        elif issubclass(cls, Bottom):
             cls.subset_class = None
         elif issubclass(subset_class, HierarchyPart) and not subset_class is cls:
             cls.subset_class = subset_class
-- 
2.43.0


From 9c40711c3960cf0ebb9bf630568e9cb27e4a616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:58 +0000
Subject: [PATCH 51/71] fix: whole and fractional times can be combined in a
 data frame

---
 src/aligned_textgrid/outputs/to_dataframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index b1e1529..e6eea9a 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -39,7 +39,7 @@ def sequence_to_df(
     sub_df_rows = None
     if len(obj.contains) > 0 and with_subset:
         sub_df_list = [sequence_to_df(x) for x in obj.contains]
-        sub_df = pl.concat(sub_df_list, how="diagonal")
+        sub_df = pl.concat(sub_df_list, how="diagonal_relaxed")
         sub_df_rows = sub_df.shape[0]
 
     out_dict = {
@@ -76,7 +76,7 @@ def tier_to_df(
         sequence_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_interval_dfs, how="diagonal")
+    out_df = pl.concat(all_interval_dfs, how="diagonal_relaxed")
     return out_df
 
 
@@ -91,7 +91,7 @@ def tiergroup_to_df(
         all_df = [
             tier_to_df(x, with_subset) for x in obj
         ]
-        out_df = pl.concat(all_df, how = "diagonal")
+        out_df = pl.concat(all_df, how = "diagonal_relaxed")
 
     if hasattr(obj, "name") and out_df.height > 0:
        out_df = out_df.with_columns(
@@ -110,7 +110,7 @@ def textgrid_to_df(
         tiergroup_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_df, how="diagonal")
+    out_df = pl.concat(all_df, how="diagonal_relaxed")
 
     return out_df
 
-- 
2.43.0


From a1a17cb88c5fd0283d0f18eb51e05de9328763c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:01 +0000
Subject: [PATCH 52/71] fix: intervals that are in no tier can be converted to
 a data frame

---
 src/aligned_textgrid/outputs/to_dataframe.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index e6eea9a..b01e47d 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -49,11 +49,7 @@ def sequence_to_df(
 
     df = pl.DataFrame(out_dict, schema=col_names)
     if sub_df_rows:
-        df = df.with_columns(
-            n=pl.lit(sub_df_rows)
-        ).select(
-            pl.exclude("n").repeat_by("n").explode()
-        )
+        df = pl.concat([df] * sub_df_rows)
         df = pl.concat([df, sub_df], how="horizontal")
 
     if isinstance(obj, SequencePoint) or not with_subset:
-- 
2.43.0


From 6503eaeebdd9e975b7af2584d3a11fc1ae1e69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:39 +0000
Subject: [PATCH 53/71] fix: loops over the same interval can be nested

---
 src/aligned_textgrid/sequences/sequences.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index b1b3d35..2c0f7f7 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -431,20 +431,11 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         return self.subset_list[idx]
 
     def __iter__(self):
-        self.current = 0
-        return self
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
     
-    def __next__(self):
-        if self.current < len(self.subset_list):
-            this_seg = self.subset_list[self.current]
-            self.current+=1
-            return this_seg
-        else:
-            raise StopIteration
-        
     def index(
             self,
             subset_instance:'SequenceInterval'
-- 
2.43.0


From 07c8f40d07d1ab6074188637e1090a01c2a8c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:55 +0000
Subject: [PATCH 54/71] fix: a group can be concatenated to an empty group

---
 src/aligned_textgrid/mixins/tiermixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 80504aa..84ac45e 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -300,7 +300,7 @@ class TierGroupMixins:
                 A TierGroup or PointsGroup to append.
         """
         self._class_check(new)
-        increment = self.xmax
+        increment = self.xmax if self.xmax is not None else 0
         for t1, t2 in zip(self, new):
             for interval in t2:
                 if getattr(interval, "super_instance", None) is not None:
-- 
2.43.0


From 578162482ba3523562e53bd8e8951e9fb61848e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:57 +0000
Subject: [PATCH 55/71] fix: an interval appended to a tier in a group takes
 the place of blank intervals it overlaps

---
 src/aligned_textgrid/mixins/tiermixins.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 84ac45e..e140ab6 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -107,6 +107,8 @@ class TierMixins:
             return
         
         new = self.entry_class._cast(new)
+        if hasattr(new, "subset_list") and self.within and (re_relate or new.label != ""):
+            self._make_room(new)
         ## triggers precedence resetting
         self.sequence_list += [new]
         if hasattr(new, "subset_list") \
@@ -129,6 +131,23 @@ class TierMixins:
 
 
 
+    def _make_room(self, new:'SequenceInterval'):
+        """Remove blank intervals (which fill gaps in a TierGroup) that overlap 
+        with an interval to be appended.
+        """
+        for interval in list(self):
+            overlap = min(interval.end, new.end) - max(interval.start, new.start)
+            if interval.label == "" and overlap > 0 and not np.isclose(overlap, 0):
+                self._pop_blank(interval)
+
+    def _pop_blank(self, interval:'SequenceInterval'):
+        for sub in list(interval.subset_list):
+            sub.remove_superset()
+            if sub.label == "" and sub.intier:
+                sub.intier._pop_blank(sub)
+        interval.remove_superset()
+        self.pop(interval)
+
     def concat(self:TierType, new:TierType):
         """Horizontally concatenate a new tier.
 
-- 
2.43.0


From a4cb21e99f42f9ad1044573d4fa11e36131f0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:03 +0000
Subject: [PATCH 56/71] fix: a child can be appended to an interval in a grid
 that has no children

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 2c0f7f7..feabc2e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -112,6 +112,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
 
     def append(self, other:'SequenceInterval')->None:
         if issubclass(self.subset_class, other.entry_class):
+            other = self.subset_class._cast(other)
             self.subset_list += [other]
             if self.intier and self.intier.within:
                 self_tier_idx = self.intier.within_index
-- 
2.43.0


From d47247a0e3ba1a44d7e65de7525c81808f082c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 57/71] fix: a group renamed by appending a tier is reachable
 by its new name

---
 src/aligned_textgrid/mixins/tiermixins.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index e140ab6..f73ab11 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -302,9 +302,8 @@ class TierGroupMixins:
         orig_tiers += [new]
 
         self.__init__(orig_tiers)
-        
-
-        pass
+        if self.within:
+            self.within._set_group_names()
 
     def concat(self:TierGroupType, new:TierType):
         """Horizontally concatenate a tier group.
-- 
2.43.0


From 5b7e6d4fe3ae5f807fb54f74f620089e8ab141d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:44 +0000
Subject: [PATCH 58/71] fix: tierwise navigation does not wrap around from the
 first to the last entry

---
 src/aligned_textgrid/mixins/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 8e03039..a8c69d2 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -178,7 +178,10 @@ class InTierMixins:
             (SequenceInterval|SequencePoint): The entry at the relative index
         """
         if not self.intier is None:
-            return self.intier[self.tier_index + idx]
+            target_idx = self.tier_index + idx
+            if target_idx < 0:
+                raise IndexError("Relative index is before the beginning of the tier.")
+            return self.intier[target_idx]
         else:
             return None
         
-- 
2.43.0


From 6a1d7088e85d7c576ef0098b5d27fc50c19ad3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:27 +0000
Subject: [PATCH 59/71] fix: entries refused by a concatenation of lists are
 not moved

---
 src/aligned_textgrid/sequence_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 95b7e40..f5120b0 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -224,6 +224,8 @@ class SequenceList(Sequence):
                 SequenceIntervals or SequencePoints
         """
         intervals = SequenceList(*intervals)
+        for value in intervals:
+            self._entry_class_checker(value)
 
         increment = 0
         if len(self.ends) > 0:
-- 
2.43.0


From e3cf54762e9e329d2fdb33833b00e68ab2bfaff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:28 +0000
Subject: [PATCH 60/71] fix: tiers that do not form one hierarchy are refused
 by a group instead of being dropped

---
 src/aligned_textgrid/sequences/tiers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 8119e6c..7f52f47 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -597,6 +597,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     break
                 
                 top_to_bottom.append(tiers[next_idx])
+        if len(top_to_bottom) != len(tiers):
+            raise ValueError("The tiers of a TierGroup must form one hierarchy.")
         self.contains = top_to_bottom
         return(top_to_bottom)
             
-- 
2.43.0


From 9b821d5e4a18f3096eca96ba3e129752d829af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:04 +0000
Subject: [PATCH 61/71] fix: an uncertain turning point without override has no
 override

---
 src/aligned_textgrid/polar/polar_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index dcbdad3..53f489f 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -87,7 +87,7 @@ class TurningPoints(SequencePoint):
     @property
     def override(self):
         override_value = self.label.split(",")[-1]
-        if override_value == "0":
+        if override_value.replace("?", "") == "0":
             return None
         return override_value
 
-- 
2.43.0


From a0d032c8b8e785a2d53a9fccd985af64e3985753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:53 +0000
Subject: [PATCH 62/71] fix: copies of an AlignedTextGrid have entry classes of
 their own

A grid restored by cloudpickle in the same process (or by deepcopy) shared its entry classes with the original, so interleaving or popping a class in one broke the hierarchy of the other.
---
 src/aligned_textgrid/aligned_textgrid.py | 37 ++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 2e1daf6..285adc3 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -115,6 +115,43 @@ class AlignedTextGrid(Sequence, WithinMixins):
     
     def __setstate__(self, d):
         self.__dict__ = d
+        self._renew_classes()
+
+    def _renew_classes(self):
+        """
+        Clone the entry classes of a copied AlignedTextGrid, which may be 
+        shared with the original.
+        """
+        if not all([tgr.__dict__ for tgr in self.tier_groups]):
+            # part of a larger object that isn't restored yet
+            return
+
+        new_classes = {}
+        for c in [c for ecs in self.entry_classes for c in ecs]:
+            if c in new_classes:
+                continue
+            if issubclass(c, SequencePoint):
+                new_classes[c] = clone_class(c)
+            elif issubclass(c.superset_class, Top):
+                new_classes.update(
+                    zip(
+                        get_class_hierarchy(c), 
+                        get_class_hierarchy(clone_class(c))
+                    )
+                )
+
+        self._cloned_classes = [new_classes.get(c, c) for c in self._cloned_classes]
+        for tier in [tier for tgr in self.tier_groups for tier in tgr]:
+            tier.entry_class = new_classes.get(tier.entry_class, tier.entry_class)
+            tier.sequence_list.entry_class = tier.entry_class
+            for entry in tier:
+                tier.entry_class._cast(entry)
+                if isinstance(entry, SequenceInterval):
+                    entry.subset_list.entry_class = new_classes.get(
+                        entry.subset_list.entry_class,
+                        entry.subset_list.entry_class
+                    )
+        self._update_tier_classes()
 
     def _process_textgrid_arg(self, arg, entry_classes):
 
-- 
2.43.0


From 0478bee7718038a95c29c2d76a9a2616842d469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:59 +0000
Subject: [PATCH 63/71] fix: tier names are available for PointsGroups and
 grids that have them

AlignedTextGrid.tier_names raised an AttributeError when one of the groups was a PointsGroup.
---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index b9f59cd..1ed8b8f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -323,6 +323,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
+
+    @property
+    def tier_names(self):
+        return [x.name for x in self.tier_list]
     
     @property
     def xmin(self):
-- 
2.43.0


From 71e627af8420ab5e1029acbee3b126218f940063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:02 +0000
Subject: [PATCH 64/71] fix: a PointsGroup keeps the name it was given

Appending a PointsGroup to an AlignedTextGrid, or re-relating it, replaced its name; a TierGroup keeps it.
---
 src/aligned_textgrid/points/tiers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 1ed8b8f..bbb0759 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -260,12 +260,14 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
         if tiers is None:
             tiers = [SequencePointTier()]
 
+        name = None
         if isinstance(tiers, PointsGroup):
+            name = tiers.name
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        self._name = name if name else self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From 7189f61f28953a6e1374b35fab57eef0b402f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 65/71] fix: groups and tiers named like an attribute don't
 replace it

A TextGrid with tiers 'id - words' and 'id - phones' could not be read, and names like 'shift' or 'contains' replaced the method or property of the AlignedTextGrid or TierGroup.
---
 src/aligned_textgrid/aligned_textgrid.py  | 8 +++++++-
 src/aligned_textgrid/mixins/tiermixins.py | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 285adc3..0ac271d 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -423,8 +423,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
             return
         
         for idx, name in enumerate(tier_group_names):
+            if hasattr(type(self), name) or name in self.__dict__:
+                warnings.warn(
+                    f"{name} is an attribute of {type(self).__name__}. "
+                    "The named accessor for this TierGroup is unavailable."
+                )
+                continue
             setattr(self, name, self.tier_groups[idx])
-        self._group_accessors = tier_group_names
+            self._group_accessors.append(name)
 
     @property
     def tier_groups(self) -> list[TierGroup|PointsGroup|None]:
diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index f73ab11..8caa7b8 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -346,6 +346,13 @@ class TierGroupMixins:
             return
 
         for idx, name in enumerate(entry_class_names):
+            if hasattr(type(self), name) or \
+               not isinstance(self.__dict__.get(name, self.tier_list[idx]), TierMixins):
+                warnings.warn(
+                    f"{name} is an attribute of {type(self).__name__}. "
+                    "The named accessor for this tier is unavailable."
+                )
+                continue
             setattr(self, name, self.tier_list[idx])
 
     @property
-- 
2.43.0


From 53b86688a51abde95d511bbc5c377b0119a7204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:09 +0000
Subject: [PATCH 66/71] fix: an interval whose equal is already a child does
 not claim the superset

---
 src/aligned_textgrid/sequences/sequences.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index feabc2e..f682c9d 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -136,6 +136,9 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
+            if not any(self is element for element in super_instance.subset_list):
+                # an equal interval is already in the subset list
+                self.super_instance = None
         else:
             raise Exception(f"The superset_class was defined as {self.superset_class.__name__}, but provided super_instance was {type(super_instance).__name__}")
                         
-- 
2.43.0


From 3ab188a328febe18e39e68cc0a663c9a8da1b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:14 +0000
Subject: [PATCH 67/71] fix: removing an interval by an equal one releases the
 interval removed

---
 src/aligned_textgrid/sequence_list.py       | 22 ++++++++++-----------
 src/aligned_textgrid/sequences/sequences.py |  2 +-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index f5120b0..eb9cf55 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -244,12 +244,15 @@ class SequenceList(Sequence):
             x (SequenceInterval):
                 The SequenceInterval to remove.
         """
-        self_tuples = [tuple(x.return_praatio()) for x in self]
-        x_tuple = tuple(x.return_praatio())        
-        pop_idx = self_tuples.index(x_tuple)
-        self._values.pop(pop_idx)
-        if hasattr(x, "super_instance"):
-            x.remove_superset()
+        pop_idx = next((idx for idx, value in enumerate(self) if value is x), None)
+        if pop_idx is None:
+            self_tuples = [tuple(x.return_praatio()) for x in self]
+            x_tuple = tuple(x.return_praatio())        
+            pop_idx = self_tuples.index(x_tuple)
+        removed = self._values.pop(pop_idx)
+        if hasattr(removed, "super_instance"):
+            removed.remove_superset()
+        return removed
 
     def pop(self:Sequence[SeqVar], x:SeqVar)->None:
         """Pop a SequenceInterval
@@ -259,9 +262,4 @@ class SequenceList(Sequence):
                 SequenceInterval to pop
         """
         if x in self:
-            self_tuples = [tuple(x.return_praatio()) for x in self]
-            x_tuple = tuple(x.return_praatio())        
-            pop_idx = self_tuples.index(x_tuple)
-            self._values.pop(pop_idx)
-            if hasattr(x, "super_instance"):
-                x.remove_superset()
+            self.remove(x)
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index f682c9d..6570e49 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -216,7 +216,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             #warnings.warn("Provided subset_instance was not in the subset list")
             return
         
-        self._subset_list.remove(subset_instance)
+        subset_instance = self._subset_list.remove(subset_instance)
         subset_instance.super_instance = None
         subset_instance.within = None
         self._set_subset_precedence()
-- 
2.43.0


From 8f97a9da9cb9b4f8c24be26a38a310a29edb6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 68/71] fix: a blank interval appended to a tier in a group
 takes the place of blank intervals it overlaps

---
 src/aligned_textgrid/mixins/tiermixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 8caa7b8..663ace9 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -107,7 +107,7 @@ class TierMixins:
             return
         
         new = self.entry_class._cast(new)
-        if hasattr(new, "subset_list") and self.within and (re_relate or new.label != ""):
+        if hasattr(new, "subset_list") and self.within:
             self._make_room(new)
         ## triggers precedence resetting
         self.sequence_list += [new]
-- 
2.43.0


From ef0d72337341318b0decc1c0f17e028deda23ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 69/71] fix: reconciling boundaries of a lower tier no longer
 breaks the tiling above it

---
 src/aligned_textgrid/sequences/tiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 7f52f47..bdb638b 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -517,6 +517,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     if any_mismatch and not delay_cleanup:
                         s_start = np.array([u.start, u.first.start]).max()
                         s_end = np.array([u.end, u.last.end]).min()
+                        if u.super_instance is not None:
+                            # already aligned to its own superset
+                            s_start, s_end = u.start, u.end
                         u.start = s_start
                         u.first.start = s_start
                         u.end = s_end
-- 
2.43.0


From 518d98b49ad382adabd1da7b2e4d6187d48f5cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 70/71] fix: entries labelled # that have a time are linked and
 fused like any other

---
 src/aligned_textgrid/mixins/mixins.py       | 10 ++++++++--
 src/aligned_textgrid/points/points.py       |  4 ++--
 src/aligned_textgrid/sequences/sequences.py | 12 ++++++------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index a8c69d2..4a73682 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -44,6 +44,12 @@ class PrecedenceMixins:
         last (SequenceInterval): The last interval in the subset list
     """
 
+    @property
+    def _is_boundary(self)->bool:
+        """Boundaries are labelled `#` and, unlike other entries, have no time"""
+        time = self.time if hasattr(self, "time") else self.start
+        return self.label == "#" and time is None
+
     @property
     def first(self)->'SequenceInterval':
         if hasattr(self, "subset_list") and len(self.subset_list) > 0:
@@ -76,7 +82,7 @@ class PrecedenceMixins:
         """
         if next_int is self:
             raise Exception(f"A segment can't follow itself.")
-        if self.label == "#":
+        if self._is_boundary:
             return
         if self.fol is next_int:
             return
@@ -100,7 +106,7 @@ class PrecedenceMixins:
         """
         if prev_int is self:
             raise Exception("A segment can't precede itself.")
-        if self.label == "#":
+        if self._is_boundary:
             return
         if self.prev is prev_int:
             return
diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 278e8b7..5ba76ab 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -93,9 +93,9 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         self.fol:SequencePoint|None = None
         self.prev:SequencePoint|None = None
 
-        if self.label != "#":
+        if not self._is_boundary:
             self.set_final()
-        if self.label != "#":
+        if not self._is_boundary:
             self.set_initial()
 
 
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 6570e49..a9da5ba 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -418,9 +418,9 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         self.prev = None
 
         ## prevent infinite recursion
-        if self.label != "#":
+        if not self._is_boundary:
             self.set_final()
-        if self.label != "#":
+        if not self._is_boundary:
             self.set_initial()
 
         self._subset_list = SequenceList()
@@ -601,10 +601,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         fuser = self
         fusee = self.fol
 
-        if not fusee.label == "#":
+        if not fusee._is_boundary:
 
             fuser.end = fusee.end
-            if fusee.fol.label == "#":
+            if fusee.fol._is_boundary:
                 fuser.set_final()
             else:
                 fuser.set_fol(fusee.fol)
@@ -635,10 +635,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         fusee = self.prev
         fuser = self
 
-        if not fusee.label == "#":
+        if not fusee._is_boundary:
 
             fuser.start = fusee.start
-            if fusee.prev.label == "#":
+            if fusee.prev._is_boundary:
                 fuser.set_initial()
             else:
                 fuser.set_prev(fusee.prev)
-- 
2.43.0


From 0417dc66505238df086eb0ed941117880754a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:47 +0000
Subject: [PATCH 71/71] fix: groups and grids keep their own list of tiers and
 groups

A PointsGroup and the tier_groups of a grid were the very list they were
given: appending a tier grew the caller's list and any other group made from
it, and a tuple could not be appended to.
---
 src/aligned_textgrid/aligned_textgrid.py | 2 +-
 src/aligned_textgrid/points/tiers.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 0ac271d..4f58f87 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -443,7 +443,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if not(isinstance(new, Sequence) and all([isinstance(v, TierGroupMixins) for v in new])):
             raise ValueError("Ony a list of TierGroups can be set as tier groups.")
         
-        self._tier_groups = new
+        self._tier_groups = list(new)
         self.contains = self.tier_groups
 
     @property
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index bbb0759..bd477a2 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -264,7 +264,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
         if isinstance(tiers, PointsGroup):
             name = tiers.name
             tiers = [tier for tier in tiers]
-        self.tier_list = tiers
+        self.tier_list = list(tiers)
         self.contains = self.tier_list
         self._set_tier_names()
         self._name = name if name else self.make_name()
-- 
2.43.0

