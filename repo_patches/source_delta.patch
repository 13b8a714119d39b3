From 3946b40d4ee5fcd9bbf82c403ec459222752047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 01/33] fix: BitPacker::setFieldDynamic with a full-width or
 oversize segment

A field covering the whole 64-bit word shifted by 64 (undefined), and for 8/16-bit
words integer promotion kept the bits of an oversize segment, corrupting the
neighbouring fields.
---
 src/vt/utils/bits/bits_packer.impl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vt/utils/bits/bits_packer.impl.h b/src/vt/utils/bits/bits_packer.impl.h
index 7329336..8181421 100644
--- a/src/vt/utils/bits/bits_packer.impl.h
+++ b/src/vt/utils/bits/bits_packer.impl.h
@@ -120,10 +120,12 @@ BitPacker::setFieldDynamic(
                 "BitField must be non-bool integral type");
   // sizeof(UnsignedBitField) is guaranteed to be the same as sizeof(BitField)
   using UnsignedBitField = std::make_unsigned_t<BitField>;
-  auto const nbits = (sizeof(BitField) * 8) - len;
-  field = field & ~(gen_bit_mask(len) << start);
+  // a shift by the full width of the word is undefined: len may cover it all
+  uint64_t const mask = static_cast<size_t>(len) < sizeof(uint64_t) * 8 ?
+    gen_bit_mask(len) : ~static_cast<uint64_t>(0);
+  field = field & ~(mask << start);
   auto seg = bit_cast<UnsignedBitField>(static_cast<BitField>(segment));
-  UnsignedBitField bits = ((seg << nbits) >> nbits) << start;
+  UnsignedBitField bits = (seg & mask) << start;
   field = field | bit_cast<BitField>( bits );
 }
 
-- 
2.43.0


From ddca485a8983f7fe08b33050d8423ae15c04d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 02/33] fix: IntegralSet::clear() left the element count
 unchanged

---
 src/vt/termination/interval/integral_set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index ff76a61..227a73c 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -229,6 +229,7 @@ struct IntegralSetBase {
   void clear() {
     set_.clear();
     lb_ = ub_ = 0;
+    elms_ = 0;
     hint_ = set_.end();
   }
 
-- 
2.43.0


From 8567bbf8fd971c7222bfbc33bfbac2e22aa5867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 03/33] fix: copying or moving an IntegralSet kept an iterator
 into the source set

---
 src/vt/termination/interval/integral_set.h | 30 +++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index 227a73c..d24c483 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -79,9 +79,33 @@ struct IntegralSetBase {
   using PositionType        = typename IntervalType::PositionEnum;
 
   IntegralSetBase() : hint_(set_.end()) { }
-  IntegralSetBase(IntegralSetBase const&) = default;
-  IntegralSetBase(IntegralSetBase&&) = default;
-  IntegralSetBase& operator=(IntegralSetBase const&) = default;
+
+  // The insertion hint is an iterator into this set's own tree, so it must not
+  // be copied (or moved) along with the contents
+  IntegralSetBase(IntegralSetBase const& other)
+    : lb_(other.lb_),
+      ub_(other.ub_),
+      set_(other.set_),
+      hint_(set_.end()),
+      elms_(other.elms_)
+  { }
+  IntegralSetBase(IntegralSetBase&& other)
+    : lb_(other.lb_),
+      ub_(other.ub_),
+      set_(std::move(other.set_)),
+      hint_(set_.end()),
+      elms_(other.elms_)
+  {
+    other.clear();
+  }
+  IntegralSetBase& operator=(IntegralSetBase const& other) {
+    lb_   = other.lb_;
+    ub_   = other.ub_;
+    set_  = other.set_;
+    hint_ = set_.end();
+    elms_ = other.elms_;
+    return *this;
+  }
 
   explicit IntegralSetBase(DomainT base)
     : lb_(base),
-- 
2.43.0


From 1450aebed5b3b30379a986dc97ead0411d7d9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 04/33] fix: IntegralSet insertion of values already present
 miscounted and lost elements

---
 src/vt/termination/interval/integral_set.h | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index d24c483..c5b0c51 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -164,13 +164,34 @@ struct IntegralSetBase {
       lb_, ub_, elms_, i, hint_ == set_.end()
     );
 
+    IntervalType ins{i.lower(), i.upper()};
+
+    // Values that are already in the set must be neither counted nor inserted
+    // again: absorb the intervals that overlap the one being inserted
+    while (elms_ != 0 and ins.lower() <= ub_ and ins.upper() >= lb_) {
+      auto it = set_.find(ins);
+      if (it == set_.end()) {
+        break;
+      }
+      if (it->lower() <= ins.lower() and it->upper() >= ins.upper()) {
+        return it;
+      }
+      ins = IntervalType{
+        std::min<DomainT>(it->lower(), ins.lower()),
+        std::max<DomainT>(it->upper(), ins.upper())
+      };
+      elms_ -= it->width();
+      set_.erase(it);
+      hint_ = set_.end();
+    }
+
     auto iter = elms_ == 0 ? set_.end() : hint_;
 
     // Expand the global bounds in this interval set
-    insertGlobal(i);
+    insertGlobal(ins);
 
     // Insert interval into the compressed tree
-    return insertSet(iter,std::move(i));
+    return insertSet(iter,std::move(ins));
   }
 
   template <
-- 
2.43.0


From ec08d99af87eab7e9f417d84fb687f14b9709302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 05/33] fix: EpochWindow::allocateNewEpoch spun forever when
 the next epoch was active

---
 src/vt/epoch/epoch_window.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..5ca1d31 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -110,9 +110,9 @@ EpochType EpochWindow::allocateNewEpoch() {
   // be allocated
   do {
     EpochType next = EpochType{*next_epoch_};
-    if (terminated_epochs_.contains(next)) {
-      (*next_epoch_)++;
+    (*next_epoch_)++;
 
+    if (terminated_epochs_.contains(next)) {
       // Tell the system the epoch is now active
       activateEpoch(next);
       return next;
-- 
2.43.0


From 591513e1d097eb58bfc96820edfd1e14c08b5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 06/33] fix: EpochManip::getNextRootedEpoch allocated two
 epochs and leaked one

---
 src/vt/epoch/epoch_manip.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_manip.cc b/src/vt/epoch/epoch_manip.cc
index 0ce8109..70834a7 100644
--- a/src/vt/epoch/epoch_manip.cc
+++ b/src/vt/epoch/epoch_manip.cc
@@ -104,8 +104,7 @@ EpochType EpochManip::getNextRootedEpoch(
   eEpochCategory const& category
 ) {
   auto const root_node = theContext()->getNode();
-  auto const arch_epoch = getNextRootedEpoch(category, root_node);
-  return getTerminatedWindow(arch_epoch)->allocateNewEpoch();
+  return getNextRootedEpoch(category, root_node);
 }
 
 EpochType EpochManip::getNextRootedEpoch(
-- 
2.43.0


From f3d0152bfc7d65d040533245bf54a4542ec614fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 07/33] fix: collective epochs with a category shared the
 window of plain collective epochs

---
 src/vt/epoch/epoch_manip.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/epoch/epoch_manip.cc b/src/vt/epoch/epoch_manip.cc
index 70834a7..91389b6 100644
--- a/src/vt/epoch/epoch_manip.cc
+++ b/src/vt/epoch/epoch_manip.cc
@@ -122,7 +122,8 @@ EpochType EpochManip::getArchetype(EpochType epoch) const {
 
 EpochWindow* EpochManip::getTerminatedWindow(EpochType epoch) {
   auto const is_rooted = isRooted(epoch);
-  if (is_rooted and epoch != term::any_epoch_sentinel) {
+  auto const has_category = category(epoch) != eEpochCategory::NoCategoryEpoch;
+  if ((is_rooted or has_category) and epoch != term::any_epoch_sentinel) {
     auto const& arch_epoch = getArchetype(epoch);
     auto iter = terminated_epochs_.find(arch_epoch);
     if (iter == terminated_epochs_.end()) {
-- 
2.43.0


From ff1be8e8c812fb754499fbd052bafd7db0a4e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 08/33] fix: iterating an IntegralSet that holds the value zero
 failed an assertion

---
 src/vt/termination/interval/interval.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vt/termination/interval/interval.h b/src/vt/termination/interval/interval.h
index 6d3dd12..35621fa 100644
--- a/src/vt/termination/interval/interval.h
+++ b/src/vt/termination/interval/interval.h
@@ -78,9 +78,7 @@ public:
 
   DomainT get(std::size_t i) const {
     auto const val = lb_ + static_cast<DomainT>(i);
-    vtAssert(lb_ not_eq sentinel, "Lower bound must be valid");
-    vtAssert(ub_ not_eq sentinel, "Upper bound must be valid");
-    vtAssert(val <= ub_,          "Must be in interval range");
+    vtAssert(val <= ub_, "Must be in interval range");
     return val;
   }
 
-- 
2.43.0


From 55e00215e0695ad410b1d35420300ce532c77c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 09/33] fix: group Range::getSize dropped the last node of a
 strided range

The size was rounded down, so a range whose stride does not divide its
extent reported one node too few (zero for a one-node range), and splitN
could drop nodes entirely.
---
 src/vt/group/region/group_range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..25c0748 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,7 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  return (hi_ - lo_ + stride_ - 1) / stride_;
 }
 
 /*virtual*/ void Range::sort() {
-- 
2.43.0


From 558ea4cbb1960170210f463c06cd1396f90917c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 10/33] fix: group Range::contains ignored the offset of a
 strided range

The stride was tested against the node number instead of the distance
from the low bound, so {1,3,5} claimed 2 and 4 and denied 1, 3 and 5.
---
 src/vt/group/region/group_range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index 25c0748..7829eb1 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -76,7 +76,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
-- 
2.43.0


From f47cbec901332eaf80240e9820bc78f22f92f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 11/33] fix: group Range::split put the middle of a strided
 range between its nodes

The second half started at an unaligned node, so the halves were not a
partition of the range.
---
 src/vt/group/region/group_range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index 7829eb1..cf26a33 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -114,7 +114,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  auto const& span = static_cast<BoundType>(size / 2) * stride_;
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
-- 
2.43.0


From f2692b148aa1b48b1df6c7c2cf206a5c86db6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 12/33] fix: Tree::getNumDescendants() left out the direct
 children

The count for the whole tree added up the descendants of each child but
not the children themselves, so a root with two leaves reported zero.
---
 src/vt/collective/tree/tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/collective/tree/tree.cc b/src/vt/collective/tree/tree.cc
index 2f86909..eecccc8 100644
--- a/src/vt/collective/tree/tree.cc
+++ b/src/vt/collective/tree/tree.cc
@@ -106,7 +106,7 @@ std::size_t Tree::getNumDescendants(NodeType child) const {
 std::size_t Tree::getNumDescendants() const {
   auto total_size = 0;
   foreachChild([this,&total_size](NodeType child){
-    total_size += getNumDescendants(child);
+    total_size += getNumDescendants(child) + 1;
   });
   return total_size;
 }
-- 
2.43.0


From b84727de7ba410f12fabab7a53b3c655f4539ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 13/33] fix: block mapping of large index spaces used a rounded
 quotient

The block size was computed with a floating-point division, which is not
exact for more than 2^53 elements: with 2^63-1 elements on three nodes the
last index mapped to node 3. Use the integer quotient.
---
 src/vt/topos/mapping/dense/dense.impl.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/vt/topos/mapping/dense/dense.impl.h b/src/vt/topos/mapping/dense/dense.impl.h
index 2f6a5ab..7463e38 100644
--- a/src/vt/topos/mapping/dense/dense.impl.h
+++ b/src/vt/topos/mapping/dense/dense.impl.h
@@ -131,10 +131,7 @@ inline NodeType blockMapDenseFlatIndex(
   IndexElmType flat_idx = *flat_idx_ptr;
   IndexElmType num_elems = *num_elems_ptr;
 
-  double const& elms_as_dbl = static_cast<double>(num_elems);
-  double const& res_as_dbl = static_cast<double>(num_resources);
-  double const& bin_floor_dbl = std::floor(elms_as_dbl / res_as_dbl);
-  IndexElmType const& bin_size_floor = static_cast<IndexElmType>(bin_floor_dbl);
+  IndexElmType const& bin_size_floor = num_elems / num_resources;
   IndexElmType const& rem_elms = num_elems % num_resources;
   IndexElmType const& num_first_set = rem_elms * (bin_size_floor + 1);
 
-- 
2.43.0


From b53c617bb4863f59443c1dd4d86dc25805328f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 14/33] fix: Pool::tryGrowAllocation: account the growth
 against the oversize, so that the block is freed into its own pool

---
 src/vt/pool/pool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..bcb800e 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -45,6 +45,7 @@
 #include "vt/pool/pool.h"
 #include "vt/pool/static_sized/memory_pool_equal.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <cstdint>
 #include <cassert>
@@ -231,6 +232,9 @@ Pool::tryGrowAllocation(std::byte* buf, size_t grow_amount) {
 
   auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
   header->alloc_size += grow_amount;
+  // The growth consumes the requested oversize first: the remaining space (and
+  // thus the pool that the block is returned to) is computed from their sum
+  header->oversize -= std::min(header->oversize, grow_amount);
   return true;
 }
 
-- 
2.43.0


From 3265ea7d4ac25b9907b8c5d716f2076aaed27567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 15/33] fix: PriorityManip: use the level layout of the
 priority masks (unused bits at the low end)

---
 src/vt/scheduler/priority_manip.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/scheduler/priority_manip.cc b/src/vt/scheduler/priority_manip.cc
index 7bf01af..6d103c2 100644
--- a/src/vt/scheduler/priority_manip.cc
+++ b/src/vt/scheduler/priority_manip.cc
@@ -55,7 +55,7 @@ namespace vt { namespace sched {
   PriorityType& field, PriorityLevelType level, PriorityType priority
 ) {
   auto const l_inv = priority_num_levels - level - 1;
-  auto const offset = l_inv * priority_level_bits;
+  auto const offset = l_inv * priority_level_bits + priority_remainder;
   BitPackerType::setFieldDynamic(offset, priority_level_bits, field, priority);
 }
 
@@ -63,7 +63,7 @@ namespace vt { namespace sched {
   PriorityType const& field, PriorityLevelType level
 ) {
   auto const l_inv = priority_num_levels - level - 1;
-  auto const offset = l_inv * priority_level_bits;
+  auto const offset = l_inv * priority_level_bits + priority_remainder;
   return BitPackerType::getFieldDynamic<PriorityType>(
     offset, priority_level_bits, field
   );
-- 
2.43.0


From afe07b82d2a0b4b79e31d515f3c06ba0fcac056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 16/33] fix: run termination actions from a detached list, so
 an action may add another

---
 src/vt/termination/term_action.cc | 35 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/vt/termination/term_action.cc b/src/vt/termination/term_action.cc
index ce90145..f55065d 100644
--- a/src/vt/termination/term_action.cc
+++ b/src/vt/termination/term_action.cc
@@ -80,11 +80,14 @@ void TermAction::afterAddEpochAction(EpochType const& epoch) {
 void TermAction::queueActions(EpochType epoch) {
   if (epoch == term::any_epoch_sentinel) {
     // @todo: should this be delayed also?
-    for (auto&& action : global_term_actions_) {
+    // An action may add another one: run from a detached list, so the additions
+    // stay for the next global termination
+    ActionVecType actions;
+    actions.swap(global_term_actions_);
+
+    for (auto&& action : actions) {
       action();
     }
-
-    global_term_actions_.clear();
   } else {
     auto make_runnable = [&](EpochType encap_epoch){
       auto msg = makeMessage<ActionMsg>(epoch, encap_epoch);
@@ -133,14 +136,17 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // An action may add another one for the same epoch: detach the list before
+      // running it, so the addition is neither lost nor disturbs the iteration
+      ActionVecType actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_actions_.erase(iter);
     }
   }
 
@@ -150,14 +156,17 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_callable_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // An action may add another one for the same epoch: detach the list before
+      // running it, so the addition is neither lost nor disturbs the iteration
+      std::vector<CallableActionType> actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_callable_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action->invoke();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_callable_actions_.erase(iter);
     }
   }
 }
-- 
2.43.0


From 070f1ab1069ca06c0bd137d2c492d58f8a811060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:09 +0000
Subject: [PATCH 17/33] fix: a time trigger never becomes due before it last
 ran, so a pass over the triggers ends

---
 src/vt/timetrigger/trigger.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vt/timetrigger/trigger.h b/src/vt/timetrigger/trigger.h
index bbb8882..4c47fef 100644
--- a/src/vt/timetrigger/trigger.h
+++ b/src/vt/timetrigger/trigger.h
@@ -48,6 +48,7 @@
 #include "vt/timing/timing_type.h"
 #include "vt/timing/timing.h"
 
+#include <algorithm>
 #include <chrono>
 
 namespace vt { namespace timetrigger {
@@ -85,8 +86,12 @@ struct Trigger {
    * \return the next time this should be triggered
    */
   TimeType nextTriggerTime() const {
-    return TimeType{
-      (last_trigger_time_.milliseconds() + period_.count()) / 1000.0};
+    // rounding must not make the next time precede the last one; otherwise, a
+    // trigger that just ran could be ready again at the same time, forever
+    return std::max(
+      last_trigger_time_,
+      TimeType{(last_trigger_time_.milliseconds() + period_.count()) / 1000.0}
+    );
   }
 
   /**
-- 
2.43.0


From b749679ff98d1aa78d24c6d9563ae1100a214dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 18/33] fix: callback to a collection element stays usable
 after its first send

The listener behind makeSend(proxy[idx]) was single use although the pipe is
persistent, so the second send of the same callback found no listener.
---
 src/vt/pipe/callback/proxy_send/callback_proxy_send.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
index cfb681a..5b5f9ca 100644
--- a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
+++ b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
@@ -68,14 +68,16 @@ struct CallbackProxySend : CallbackBase<signal::Signal<MsgT>> {
 
   CallbackProxySend(
     HandlerType const in_handler, IndexedProxyType const& in_proxy
-  ) : proxy_(in_proxy.getCollectionProxy()),
+  ) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+      proxy_(in_proxy.getCollectionProxy()),
       idx_(in_proxy.getElementProxy().getIndex()), handler_(in_handler)
   { }
 
   CallbackProxySend(
     HandlerType const in_handler, ProxyType const& in_proxy,
     IndexType const& in_idx
-  ) : proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
+  ) : CallbackBase<SignalBaseType>(CallbackPersistTag),
+      proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
   { }
 
   template <typename SerializerT>
-- 
2.43.0


From 4dee13b6d264ad660f72dd13f190fcca8d66c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 19/33] fix: ComponentPack::foreach passed null for components
 that were extracted

After Runtime::finalize extracted ArgConfig and Context, the fatal-error hook
called through foreach would dereference the null slots.
---
 src/vt/runtime/component/component_pack.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/component_pack.cc b/src/vt/runtime/component/component_pack.cc
index 4d414ae..f75a12f 100644
--- a/src/vt/runtime/component/component_pack.cc
+++ b/src/vt/runtime/component/component_pack.cc
@@ -83,7 +83,10 @@ ComponentPack::~ComponentPack() {
 
 void ComponentPack::foreach(std::function<void(BaseComponent*)> apply) {
   for (auto&& elm : live_components_) {
-    apply(elm.get());
+    // components that have been extracted leave an empty slot behind
+    if (elm != nullptr) {
+      apply(elm.get());
+    }
   }
 }
 
-- 
2.43.0


From 9ec977ca4f5f501328081f800b7ecbf768dc6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 20/33] fix: component sort wrote out of bounds for a
 dependency never registered

A component may depend on a type that was not registered with the pack; its
index can exceed those of all registered ones, so the visited arrays were too
short and the error was not diagnosed.
---
 src/vt/runtime/component/component_pack.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vt/runtime/component/component_pack.cc b/src/vt/runtime/component/component_pack.cc
index f75a12f..c5771b8 100644
--- a/src/vt/runtime/component/component_pack.cc
+++ b/src/vt/runtime/component/component_pack.cc
@@ -149,13 +149,12 @@ void ComponentPack::addAllRequiredComponents() {
 std::list<int> ComponentPack::topoSort() {
   std::list<int> order;
 
-  registry::AutoHandlerType max_idx = 0;
-  for (auto&& r : registered_components_) {
-    max_idx = std::max(r, max_idx);
-  }
+  // Any component type may be named as a dependency, also one that was never
+  // registered with this pack
+  auto const num_types = registry::getRegistry().size();
 
-  auto visited = std::make_unique<bool[]>(max_idx + 1);
-  auto visiting = std::make_unique<bool[]>(max_idx + 1);
+  auto visited = std::make_unique<bool[]>(num_types);
+  auto visiting = std::make_unique<bool[]>(num_types);
   //fmt::print("added size={}\n", added_components_.size());
   for (auto&& i : added_components_) {
     if (visited[i] == false) {
-- 
2.43.0


From 58f2b628abae0ed8126feb25f684d81314a8c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 21/33] fix: epoch stack overflows when more than 64 epochs are
 nested

The stack was a fixed array of 64 entries with no bounds check, so the 65th
nested push (nested handlers, scopes or runInEpoch calls each add one) wrote
past the end of it, into whatever follows in the termination detector.
---
 src/vt/termination/termination.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vt/termination/termination.h b/src/vt/termination/termination.h
index c88cb5f..7403023 100644
--- a/src/vt/termination/termination.h
+++ b/src/vt/termination/termination.h
@@ -74,13 +74,12 @@ using DijkstraScholtenTerm = term::ds::StateDS;
 struct EpochStack {
   using DataType = epoch::detail::EpochImplType;
 
-  void push(DataType in) { stack_[cur_++] = in; }
-  DataType top() const { return stack_[cur_-1]; }
-  void pop() { cur_--; }
-  unsigned int size() const { return cur_; }
+  void push(DataType in) { stack_.push_back(in); }
+  DataType top() const { return stack_.back(); }
+  void pop() { stack_.pop_back(); }
+  unsigned int size() const { return stack_.size(); }
 
-  int cur_ = 0;
-  std::array<DataType, 64> stack_;
+  std::vector<DataType> stack_;
 };
 
 /**
-- 
2.43.0


From 1917ede134f145681bf94ada374381090f38b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:48 +0000
Subject: [PATCH 22/33] fix: popEpoch() returns the epoch it popped

Popping whatever is on top returned the epoch below it instead, and read past
the bottom of the stack when the last one was popped.
---
 src/vt/termination/termination.impl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vt/termination/termination.impl.h b/src/vt/termination/termination.impl.h
index cd9325d..2faf1f2 100644
--- a/src/vt/termination/termination.impl.h
+++ b/src/vt/termination/termination.impl.h
@@ -172,7 +172,12 @@ inline EpochType TerminationDetector::popEpoch(EpochType epoch) {
     epoch, non_zero, non_zero ? EpochType{epoch_stack_.top()} : no_epoch
   );
   if (epoch == no_epoch) {
-    return non_zero ? epoch_stack_.pop(),EpochType{epoch_stack_.top()} : no_epoch;
+    if (not non_zero) {
+      return no_epoch;
+    }
+    auto const popped = EpochType{epoch_stack_.top()};
+    epoch_stack_.pop();
+    return popped;
   } else {
     return non_zero && epoch == EpochType{epoch_stack_.top()} ?
       epoch_stack_.pop(),epoch :
-- 
2.43.0


From 899c2cf870252a52b5b09890eebe5a25e05db11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 23/33] fix: a nested collection handler leaves the outer
 element's context in place

Finishing a collection handler cleared the collection context instead of
restoring the one it had replaced, so a handler that ran another element's
handler inside it (invoke, or a nested scheduler) had no element context for
the rest of its body: reductions from there failed and getIndex() had none.
---
 src/vt/context/runnable_context/collection.cc     |  4 ++--
 src/vt/context/runnable_context/collection.h      | 14 +++++++++++---
 src/vt/context/runnable_context/collection.impl.h | 14 +++++++++-----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/vt/context/runnable_context/collection.cc b/src/vt/context/runnable_context/collection.cc
index b2ae3f3..ef12375 100644
--- a/src/vt/context/runnable_context/collection.cc
+++ b/src/vt/context/runnable_context/collection.cc
@@ -46,11 +46,11 @@
 namespace vt { namespace ctx {
 
 void Collection::start() {
-  set_(elm_);
+  set_(*this);
 }
 
 void Collection::finish() {
-  clear_();
+  clear_(*this);
 }
 
 void Collection::suspend() {
diff --git a/src/vt/context/runnable_context/collection.h b/src/vt/context/runnable_context/collection.h
index 3328939..3d51306 100644
--- a/src/vt/context/runnable_context/collection.h
+++ b/src/vt/context/runnable_context/collection.h
@@ -44,6 +44,10 @@
 #if !defined INCLUDED_VT_CONTEXT_RUNNABLE_CONTEXT_COLLECTION_H
 #define INCLUDED_VT_CONTEXT_RUNNABLE_CONTEXT_COLLECTION_H
 
+#include "vt/configs/types/types_type.h"
+#include "vt/configs/types/types_sentinels.h"
+
+#include <cstddef>
 #include <functional>
 
 namespace vt { namespace vrt { namespace collection {
@@ -79,7 +83,7 @@ struct Collection {
   void start();
 
   /**
-   * \brief Remove the collection context
+   * \brief Remove the collection context, restoring the one it replaced
    */
   void finish();
 
@@ -87,9 +91,13 @@ struct Collection {
   void resume();
 
 private:
-  std::function<void(std::byte* in_elm)> set_;   /**< Set context function */
-  std::function<void()> clear_;             /**< Clear context function */
+  /// Set context function, which saves the context it replaces
+  std::function<void(Collection& self)> set_;
+  /// Clear context function, which restores the context replaced
+  std::function<void(Collection const& self)> clear_;
   std::byte* elm_ = nullptr;                     /**< The element (untyped) */
+  void const* prev_idx_ = nullptr;               /**< The replaced index */
+  VirtualProxyType prev_proxy_ = no_vrt_proxy;   /**< The replaced proxy */
 };
 
 }} /* end namespace vt::ctx */
diff --git a/src/vt/context/runnable_context/collection.impl.h b/src/vt/context/runnable_context/collection.impl.h
index 6a756cc..6e2ca0a 100644
--- a/src/vt/context/runnable_context/collection.impl.h
+++ b/src/vt/context/runnable_context/collection.impl.h
@@ -55,14 +55,18 @@ template <typename IndexT>
   vrt::collection::Indexable<IndexT>* elm
 ) {
   elm_ = reinterpret_cast<std::byte*>(elm);
-  set_ = [](std::byte* in_elm){
-    auto e = reinterpret_cast<vrt::collection::Indexable<IndexT>*>(in_elm);
+  set_ = [](Collection& self){
+    using Holder = vrt::collection::CollectionContextHolder<IndexT>;
+    auto e = reinterpret_cast<vrt::collection::Indexable<IndexT>*>(self.elm_);
     auto& idx_ = e->getIndex();
     auto proxy_ = e->getProxy();
-    vrt::collection::CollectionContextHolder<IndexT>::set(&idx_, proxy_);
+    self.prev_idx_ = Holder::index();
+    self.prev_proxy_ = Holder::proxy();
+    Holder::set(&idx_, proxy_);
   };
-  clear_ = []{
-    vrt::collection::CollectionContextHolder<IndexT>::clear();
+  clear_ = [](Collection const& self){
+    using Holder = vrt::collection::CollectionContextHolder<IndexT>;
+    Holder::set(static_cast<IndexT const*>(self.prev_idx_), self.prev_proxy_);
   };
 }
 
-- 
2.43.0


From 18cf01e946663b5cbfce1f08eb01c923c043060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:58 +0000
Subject: [PATCH 24/33] fix: a one-time scheduler trigger runs once

The list of one-time triggers was cleared only after all of them had run, so
when the event occurred again inside one of them (a nested scheduler loop, for
instance) they ran again, without end if it was that trigger that caused it;
and the nested pass emptied the list the outer one was walking.
---
 src/vt/scheduler/scheduler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index d2c6ba1..31cebed 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -352,10 +352,13 @@ void Scheduler::triggerEvent(SchedulerEventType const& event) {
     t();
   }
 
-  for (auto& t : event_triggers_once[event]) {
+  // Take the one-time triggers out first: the event may occur again, or more of
+  // them be registered, while they run
+  TriggerContainerType once;
+  once.swap(event_triggers_once[event]);
+  for (auto& t : once) {
     t();
   }
-  event_triggers_once[event].clear();
 }
 
 void Scheduler::registerTrigger(
-- 
2.43.0


From 287d0c1be801843aaabb9c53713860b987de0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:20 +0000
Subject: [PATCH 25/33] fix: the node where a message is delivered is not told
 so itself

A node may send a message to an entity before the entity is created on (or
migrates to) that very node. The home then remembers that node as having
asked, and after delivery sent it an eager update naming itself as the
delivery node, which handleEagerUpdate asserts against.
---
 src/vt/topos/location/location.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index c9b0b10..38c9dbe 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -444,7 +444,9 @@ void EntityLocationCoord<EntityID>::sendEagerUpdate(
   );
 
   auto this_node = theContext()->getNode();
-  if (ask_node != this_node) {
+  // The node where it was delivered may itself have asked (before the entity
+  // was created there or moved there); it does not need to be told
+  if (ask_node != this_node and ask_node != deliver_node) {
     vtAssert(ask_node != uninitialized_destination, "Ask node must be valid");
     proxy_[ask_node].template send<&ThisType::handleEagerUpdate>(
       id, home_node, deliver_node
-- 
2.43.0


From a4c0f52c5ea29f7cd00d5302420831aa4145e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 26/33] fix: an earlier subphase made current again keeps the
 later ones' LB data

Adding time or communication resized the per-subphase data of the phase to
end at the current subphase, dropping what had been recorded for later ones.
---
 src/vt/elm/elm_lb_data.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..dd6e62d 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -50,6 +50,20 @@
 
 namespace vt { namespace elm {
 
+namespace {
+
+/// The slot for \c subphase, growing \c slots as needed (but never shrinking
+/// it: an earlier subphase may become current again within a phase)
+template <typename T>
+T& subphaseSlot(std::vector<T>& slots, SubphaseType subphase) {
+  if (slots.size() <= subphase) {
+    slots.resize(subphase + 1);
+  }
+  return slots.at(subphase);
+}
+
+} /* end anon namespace */
+
 void ElementLBData::start(TimeType time) {
   auto const start_time = time;
   cur_time_ = start_time;
@@ -104,16 +118,14 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
+  subphaseSlot(subphase_comm_[cur_phase_], cur_subphase_)[key].sendMsg(bytes);
 }
 
 void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
+  subphaseSlot(subphase_comm_[cur_phase_], cur_subphase_)[key].receiveMsg(bytes);
 }
 
 void ElementLBData::recvObjData(
@@ -143,8 +155,7 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
+  subphaseSlot(subphase_timings_[cur_phase_], cur_subphase_) += timeLoad;
 
   vt_debug_print(
     verbose,lb,
-- 
2.43.0


From c96de9158b16d98064ac4c19595c1037d55ae3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 27/33] fix: refuse an LB to be run every 0 phases when the LB
 file is read

"% 0 Name" was accepted, and looking up the LB for any phase not listed
exactly then divided by zero (printing the configuration never ended).
---
 src/vt/vrt/collection/balance/read_lb.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index efbf17d..9596e30 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -219,6 +219,12 @@ int eatWhitespace(std::ifstream& file) {
       if (mod == -1) {
         mod = 1;
       }
+      if (mod == 0) {
+        auto err_msg = fmt::format(
+          "Every 0 phases is not a valid specification: name={}\n", lb_name
+        );
+        vtAbort(err_msg);
+      }
       config_prec_.push_back(mod);
       map = &config_mod_;
     } else {
-- 
2.43.0


From 2881078df5e41edaf6e37cd6f057f6620fabdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 28/33] fix: an LB parameter's value may contain '='

The parameter was split at every '=', so "a=b=c" defined "a" as "b=c" and
also a parameter "a=b" as "c".
---
 src/vt/vrt/collection/balance/read_lb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index 9596e30..ffeb610 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -280,6 +280,7 @@ ReadLBConfig::parseParams(std::vector<std::string> params) {
         value = p.substr(i + 1, p.length() - 1);
         param_map[key] = value;
         found = true;
+        break;
       }
     }
     if (not found) {
-- 
2.43.0


From 681d6ffc325dd63ec646c9868d9bf7cf33b18dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:48 +0000
Subject: [PATCH 29/33] fix: trailing blanks after LB parameters do not swallow
 the next line

The reader looked for another parameter without skipping blanks first, so
'GreedyLB c=1 ' followed by a further line took the first word of that line
for a parameter and aborted.
---
 src/vt/vrt/collection/balance/read_lb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index ffeb610..b8a14dd 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -183,10 +183,10 @@ int eatWhitespace(std::ifstream& file) {
       std::string param;
       file >> param;
       params.push_back(param);
+      // Trailing blanks must not carry the parameters over to the next line
+      eatWhitespace(file);
     }
 
-    eatWhitespace(file);
-
     while (file.peek() == '\n') {
       file.get();
     }
-- 
2.43.0


From cfee7158b193989a1bc53d4129f1adee99df3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:48 +0000
Subject: [PATCH 30/33] fix: the LB decided for a phase is remembered whichever
 way it was decided

With load balancing off, or with OfflineLB given by name, only the phase was
remembered: asked again in the same phase, the decision for an earlier phase
was returned.
---
 src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc b/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
index d54ba31..19d7830 100644
--- a/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
+++ b/src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc
@@ -107,6 +107,7 @@ LBType LBManager::decideLBToRun(PhaseType phase, bool try_file) {
     return cached_lb_;
   } else {
     cached_phase_ = phase;
+    cached_lb_ = LBType::NoLB;
   }
 
   LBType the_lb = LBType::NoLB;
@@ -119,10 +120,9 @@ LBType LBManager::decideLBToRun(PhaseType phase, bool try_file) {
   //--- User-specified map without any change, thus do not run
   if (theConfig()->vt_lb_name == get_lb_names()[LBType::OfflineLB]) {
     if (theLBDataReader()->needsLB(phase)) {
-      return LBType::OfflineLB;
-    } else {
-      return LBType::NoLB;
+      cached_lb_ = LBType::OfflineLB;
     }
+    return cached_lb_;
   }
 
   auto& spec_file = theConfig()->vt_lb_file_name;
-- 
2.43.0


From 4130ebed5f4a4c957c994a4fa646a37af66f09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:26 +0000
Subject: [PATCH 31/33] fix: RandomLB on a node without migratable objects
 leaves its loop

---
 src/vt/vrt/collection/balance/randomlb/randomlb.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/randomlb/randomlb.cc b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
index 42032a7..8d8aa4f 100644
--- a/src/vt/vrt/collection/balance/randomlb/randomlb.cc
+++ b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
@@ -127,7 +127,11 @@ void RandomLB::runLB(LoadType) {
   }
 
   // we skip the first object to be certain we never end up with zero objects
-  for (auto it = ++objs.begin(); it != objs.end(); ++it) {
+  auto it = objs.begin();
+  if (it != objs.end()) {
+    ++it;
+  }
+  for (; it != objs.end(); ++it) {
     auto const to_node = dist(gen);
     if (to_node != this_node) {
       vt_debug_print(
-- 
2.43.0


From ee4f1c51d6883bce1398fbb83bb18edd04ebdaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:26 +0000
Subject: [PATCH 32/33] fix: a phase given for this node without migratable
 objects has an (empty) distribution

---
 src/vt/vrt/collection/balance/lb_data_restart_reader.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
index be21ad3..4768618 100644
--- a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
+++ b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
@@ -103,11 +103,12 @@ void LBDataRestartReader::readHistory(LBDataHolder const& lbdh) {
     auto iter = lbdh.node_data_.find(phase);
     if (iter != lbdh.node_data_.end()) {
       last_found_phase = phase;
+      // The phase has a distribution even when no object is on this node
+      if (history_[phase] == nullptr) {
+        history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
+      }
       for (auto const& obj : iter->second) {
         if (obj.first.isMigratable()) {
-          if (history_[phase] == nullptr) {
-            history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
-          }
           history_[phase]->insert(obj.first);
         }
       }
-- 
2.43.0


From 27f31a0dbf54e3f8cb9e7241853e006c0ab20095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:26 +0000
Subject: [PATCH 33/33] fix: a location update for one phase leaves the
 identical phases sharing its distribution alone

---
 src/vt/vrt/collection/balance/lb_data_restart_reader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
index 4768618..83cf04e 100644
--- a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
+++ b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
@@ -165,8 +165,13 @@ void LBDataRestartReader::update(UpdateMsg* msg) {
   vtAssert(iter != history_[msg->phase]->end(), "Must exist");
   auto elm = *iter;
   elm.curr_node = msg->curr_node;
-  history_[msg->phase]->erase(iter);
-  history_[msg->phase]->insert(elm);
+  auto& distro = history_[msg->phase];
+  if (distro.use_count() > 1) {
+    // Shared with phases identical to this one, in which the element stays here
+    distro = std::make_shared<std::set<ElementIDStruct>>(*distro);
+  }
+  distro->erase(elm);
+  distro->insert(elm);
 }
 
 void LBDataRestartReader::checkBothEnds(Coord& coord) {
-- 
2.43.0

