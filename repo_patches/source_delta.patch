From de77bcc481bed5e780ed072ff72e720b4c22844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 01/26] fix: division of bit strings with unknown bits has an
 unknown result

---
 jlm/rvsdg/bitstring/value-representation.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jlm/rvsdg/bitstring/value-representation.hpp b/jlm/rvsdg/bitstring/value-representation.hpp
index c68a588..f4a6a12 100644
--- a/jlm/rvsdg/bitstring/value-representation.hpp
+++ b/jlm/rvsdg/bitstring/value-representation.hpp
@@ -220,6 +220,14 @@ private:
     if (divisor.nbits() == 0)
       throw util::Error("Division by zero.");
 
+    // Without knowing all bits of the operands, nothing is known about the result.
+    if (!is_known() || !divisor.is_known())
+    {
+      quotient = repeat(nbits(), 'X');
+      remainder = repeat(nbits(), 'X');
+      return;
+    }
+
     for (size_t n = 0; n < nbits(); n++)
     {
       remainder = remainder.shl(1);
-- 
2.43.0


From c2adc8786b2c678752a053e38820f473e34cfefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 02/26] fix: fold unary bit operations in the region of the
 operation

---
 jlm/rvsdg/bitstring/bitoperation-classes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/rvsdg/bitstring/bitoperation-classes.cpp b/jlm/rvsdg/bitstring/bitoperation-classes.cpp
index 1dc2639..578b1bf 100644
--- a/jlm/rvsdg/bitstring/bitoperation-classes.cpp
+++ b/jlm/rvsdg/bitstring/bitoperation-classes.cpp
@@ -26,7 +26,7 @@ BitUnaryOperation::foldConstant(
   if (constantOperation)
   {
     return std::vector({ &BitConstantOperation::create(
-        *constantNode->region(),
+        *operands[0]->region(),
         operation.reduce_constant(constantOperation->value())) });
   }
 
-- 
2.43.0


From 9badd3183434310cd02bd51d20ac3a0f2695065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 03/26] fix: shift amounts of wide constants need not fit a
 machine integer

---
 jlm/llvm/ir/operators/IntegerOperations.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/ir/operators/IntegerOperations.cpp b/jlm/llvm/ir/operators/IntegerOperations.cpp
index dbcfc29..2234894 100644
--- a/jlm/llvm/ir/operators/IntegerOperations.cpp
+++ b/jlm/llvm/ir/operators/IntegerOperations.cpp
@@ -9,6 +9,20 @@
 namespace jlm::llvm
 {
 
+/**
+ * Determines the number of bits to shift by. All amounts that are at least as big as the number of
+ * bits shift out every bit. They need not be representable as a machine integer.
+ */
+static size_t
+getShiftAmount(const IntegerValueRepresentation & amount)
+{
+  const auto numBits = amount.nbits();
+  if (amount.uge(IntegerValueRepresentation(numBits, numBits)) == '1')
+    return numBits;
+
+  return amount.to_uint();
+}
+
 template<typename TBinOp>
 static IntegerValueRepresentation
 foldBinaryOperation(const IntegerValueRepresentation & r1, const IntegerValueRepresentation & r2)
@@ -50,11 +64,11 @@ foldBinaryOperation(const IntegerValueRepresentation & r1, const IntegerValueRep
   else if constexpr (std::is_same_v<TBinOp, IntegerURemOperation>)
     return IntegerValueRepresentation(r1.umod(r2));
   else if constexpr (std::is_same_v<TBinOp, IntegerAShrOperation>)
-    return IntegerValueRepresentation(r1.ashr(r2.to_uint()));
+    return IntegerValueRepresentation(r1.ashr(getShiftAmount(r2)));
   else if constexpr (std::is_same_v<TBinOp, IntegerShlOperation>)
-    return IntegerValueRepresentation(r1.shl(r2.to_uint()));
+    return IntegerValueRepresentation(r1.shl(getShiftAmount(r2)));
   else if constexpr (std::is_same_v<TBinOp, IntegerLShrOperation>)
-    return IntegerValueRepresentation(r1.shr(r2.to_uint()));
+    return IntegerValueRepresentation(r1.shr(getShiftAmount(r2)));
   else if constexpr (std::is_same_v<TBinOp, IntegerOrOperation>)
     return IntegerValueRepresentation(r1.lor(r2));
   else if constexpr (std::is_same_v<TBinOp, IntegerAndOperation>)
-- 
2.43.0


From afe67436421babe4f25b4768604d076d5cd32bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 04/26] fix: a constant wider than 64 bits selects the default
 alternative

---
 jlm/llvm/ir/operators/ControlOperations.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/operators/ControlOperations.cpp b/jlm/llvm/ir/operators/ControlOperations.cpp
index 4f8a6c4..97f5f8d 100644
--- a/jlm/llvm/ir/operators/ControlOperations.cpp
+++ b/jlm/llvm/ir/operators/ControlOperations.cpp
@@ -24,8 +24,13 @@ foldMatchOperationWithConstant(
   if (!constantOperation)
     return std::nullopt;
 
-  const auto controlAlternative =
-      matchOperation.alternative(constantOperation->Representation().to_uint());
+  // The match operation only maps values of at most 64 bits. All others select the default.
+  const auto & representation = constantOperation->Representation();
+  const bool isMappable =
+      representation.nbits() <= 64 || representation.slice(64, representation.nbits()) == 0;
+  const auto controlAlternative = isMappable
+                                    ? matchOperation.alternative(representation.to_uint())
+                                    : matchOperation.default_alternative();
 
   auto & controlConstantResult = rvsdg::ControlConstantOperation::create(
       *operand.region(),
-- 
2.43.0


From b9a681091774b5761480e117718dafa9861363c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 05/26] fix: keep the order of the memory states when reducing
 a load of an alloca

---
 jlm/llvm/ir/operators/Load.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index 71d452d..db57c13 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -148,14 +148,14 @@ perform_load_alloca_reduction(
   const auto allocaNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[0]);
 
   std::vector<rvsdg::Output *> loadstates;
-  std::vector<rvsdg::Output *> otherstates;
+  std::vector<rvsdg::Output *> results(operands.size(), nullptr);
   for (size_t n = 1; n < operands.size(); n++)
   {
     const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*operands[n]);
     if (!is<AllocaOperation>(node) || node == allocaNode)
       loadstates.push_back(operands[n]);
     else
-      otherstates.push_back(operands[n]);
+      results[n] = operands[n];
   }
 
   auto ld = LoadNonVolatileOperation::Create(
@@ -164,9 +164,13 @@ perform_load_alloca_reduction(
       op.GetLoadedType(),
       op.GetAlignment());
 
-  std::vector<rvsdg::Output *> results(1, ld[0]);
-  results.insert(results.end(), std::next(ld.begin()), ld.end());
-  results.insert(results.end(), otherstates.begin(), otherstates.end());
+  results[0] = ld[0];
+  for (size_t n = 1, s = 1; n < results.size(); n++)
+  {
+    if (results[n] == nullptr)
+      results[n] = ld[s++];
+  }
+
   return results;
 }
 
-- 
2.43.0


From b6cb15ff88fdefc8fd4ba769a1191b29aba8b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 06/26] fix: keep the order of the memory states when reducing
 a store to an alloca

---
 jlm/llvm/ir/operators/Store.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index fabf118..0a1664d 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -110,15 +110,16 @@ perform_store_alloca_reduction(
   auto value = operands[1];
   auto address = operands[0];
   auto alloca_state = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*address)->output(1);
-  std::unordered_set<jlm::rvsdg::Output *> states(
-      std::next(std::next(operands.begin())),
-      operands.end());
+  std::vector<rvsdg::Output *> results(std::next(operands.begin(), 2), operands.end());
 
   auto outputs =
       StoreNonVolatileOperation::Create(address, value, { alloca_state }, op.GetAlignment());
-  states.erase(alloca_state);
-  states.insert(outputs[0]);
-  return { states.begin(), states.end() };
+  for (auto & result : results)
+  {
+    if (result == alloca_state)
+      result = outputs[0];
+  }
+  return results;
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0


From 058a32bf9c9bedebd41e18d3a558ddeacbea4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 07/26] fix: a store with several states from one merge keeps
 all its state results

---
 jlm/llvm/ir/operators/Store.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 0a1664d..68f272b 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -99,7 +99,10 @@ perform_store_mux_reduction(
       operands[1],
       memStateMergeOperands,
       op.GetAlignment());
-  return { MemoryStateMergeOperation::Create(states) };
+
+  // All memory states of the store originate from the same merge
+  const auto mergedState = MemoryStateMergeOperation::Create(states);
+  return std::vector<rvsdg::Output *>(op.NumMemoryStates(), mergedState);
 }
 
 static std::vector<jlm::rvsdg::Output *>
-- 
2.43.0


From cbb3cd304d0ba79c33827f042691e9a7e971ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 08/26] fix: only drop an overwritten store when the
 overwriting store takes all its states

---
 jlm/llvm/ir/operators/Store.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 68f272b..1f6313c 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -202,6 +202,16 @@ StoreNonVolatileOperation::normalizeStoreStore(
   if (&llvm::traceOutput(store1Address) != &llvm::traceOutput(store2Address))
     return std::nullopt;
 
+  // All users of store1's memory states must be memory states of store2. Otherwise, store1 would stay
+  // alive without being ordered before store2.
+  size_t numStore1Users = 0;
+  for (auto & memoryState : MemoryStateOutputs(*store1Node))
+  {
+    numStore1Users += memoryState.nusers();
+  }
+  if (numStore1Users != store2Op.NumMemoryStates())
+    return std::nullopt;
+
   // Check that all memory state inputs originate from store1 AND have no other users
   std::vector<rvsdg::Output *> newMemoryStates;
   for (size_t n = 2; n < operands.size(); n++)
-- 
2.43.0


From dfc79a3986ceba4271b7eb6ef575d8c923697e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 09/26] fix: only lift loads and stores over an IO barrier when
 they are inside their allocation

---
 jlm/llvm/ir/operators/Load.cpp  | 19 ++++++++++++-------
 jlm/llvm/ir/operators/Store.cpp | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/jlm/llvm/ir/operators/Load.cpp b/jlm/llvm/ir/operators/Load.cpp
index db57c13..c221cf0 100644
--- a/jlm/llvm/ir/operators/Load.cpp
+++ b/jlm/llvm/ir/operators/Load.cpp
@@ -349,6 +349,12 @@ getAllocationSizeInBytes(const rvsdg::Output & output)
       rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(output);
   if (allocaOperation)
   {
+    // An allocation of zero elements has no bytes that could be accessed.
+    const auto count =
+        tryGetConstantSignedInteger(*AllocaOperation::getCountInput(*allocaNode).origin());
+    if (count == 0)
+      return std::nullopt;
+
     return GetTypeAllocSize(*allocaOperation->allocatedType());
   }
 
@@ -386,16 +392,15 @@ LoadNonVolatileOperation::normalizeIOBarrierAddress(
   if (!allocationSizeInBytes.has_value())
     return std::nullopt;
 
-  size_t offsetInBytes = 0;
-  if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
-  {
-    offsetInBytes = offsetInBytesOpt.value();
-  }
+  const auto offsetInBytes = pointerOrigin.getOffsetInBytes();
+  if (!offsetInBytes.has_value() || *offsetInBytes < 0)
+    return std::nullopt;
 
   // This transformation is only valid if the affected bytes by the load operation are within the
   // size of the allocation site.
-  if (offsetInBytes + GetTypeStoreSize(*loadOperation.GetLoadedType())
-      > allocationSizeInBytes.value())
+  const size_t accessSizeInBytes = GetTypeStoreSize(*loadOperation.GetLoadedType());
+  if (accessSizeInBytes > *allocationSizeInBytes
+      || static_cast<size_t>(*offsetInBytes) > *allocationSizeInBytes - accessSizeInBytes)
     return std::nullopt;
 
   auto & loadNode = CreateNode(
diff --git a/jlm/llvm/ir/operators/Store.cpp b/jlm/llvm/ir/operators/Store.cpp
index 1f6313c..b7f9635 100644
--- a/jlm/llvm/ir/operators/Store.cpp
+++ b/jlm/llvm/ir/operators/Store.cpp
@@ -271,6 +271,12 @@ getAllocationSizeInBytes(const rvsdg::Output & output)
       rvsdg::TryGetSimpleNodeAndOptionalOp<AllocaOperation>(output);
   if (allocaOperation)
   {
+    // An allocation of zero elements has no bytes that could be accessed.
+    const auto count =
+        tryGetConstantSignedInteger(*AllocaOperation::getCountInput(*allocaNode).origin());
+    if (count == 0)
+      return std::nullopt;
+
     return GetTypeAllocSize(*allocaOperation->allocatedType());
   }
 
@@ -309,16 +315,15 @@ StoreNonVolatileOperation::normalizeIOBarrierAddress(
   if (!allocationSizeInBytes.has_value())
     return std::nullopt;
 
-  size_t offsetInBytes = 0;
-  if (const auto offsetInBytesOpt = pointerOrigin.getOffsetInBytes(); offsetInBytesOpt.has_value())
-  {
-    offsetInBytes = offsetInBytesOpt.value();
-  }
+  const auto offsetInBytes = pointerOrigin.getOffsetInBytes();
+  if (!offsetInBytes.has_value() || *offsetInBytes < 0)
+    return std::nullopt;
 
   // This transformation is only valid if the affected bytes by the store operation are within the
   // size of the allocation site.
-  if (offsetInBytes + GetTypeStoreSize(storeOperation.GetStoredType())
-      > allocationSizeInBytes.value())
+  const size_t accessSizeInBytes = GetTypeStoreSize(storeOperation.GetStoredType());
+  if (accessSizeInBytes > *allocationSizeInBytes
+      || static_cast<size_t>(*offsetInBytes) > *allocationSizeInBytes - accessSizeInBytes)
     return std::nullopt;
 
   auto & storeNode = CreateNode(
-- 
2.43.0


From b50bfaa0b98bcaf17b58203304414cea58de426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 10/26] fix: keep allocas in their loop and divisions in their
 branch when hoisting nodes

Hoisting an alloca out of a loop merged the objects of all iterations, hoisting
a division or remainder out of a branch introduced undefined behaviour, and a
memory state routed through two different structural nodes was considered loop
invariant.
---
 jlm/llvm/opt/push.cpp | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/opt/push.cpp b/jlm/llvm/opt/push.cpp
index 6f9fc19..fd2a1e5 100644
--- a/jlm/llvm/opt/push.cpp
+++ b/jlm/llvm/opt/push.cpp
@@ -3,7 +3,9 @@
  * See COPYING for terms of redistribution.
  */
 
+#include <jlm/llvm/ir/operators/alloca.hpp>
 #include <jlm/llvm/ir/operators/delta.hpp>
+#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
 #include <jlm/llvm/ir/RvsdgModule.hpp>
 #include <jlm/llvm/opt/push.hpp>
 #include <jlm/rvsdg/control.hpp>
@@ -103,10 +105,10 @@ NodeHoisting::isInvariantMemoryStateLoopVar(const rvsdg::ThetaNode::LoopVar & lo
   if (loopVar.pre->nusers() != 1)
     return false;
 
-  const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.pre->Users().begin());
-  const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(*loopVar.post->origin());
+  const auto userNode = rvsdg::TryGetOwnerNode<rvsdg::Node>(*loopVar.pre->Users().begin());
+  const auto originNode = rvsdg::TryGetOwnerNode<rvsdg::Node>(*loopVar.post->origin());
 
-  if (userNode != originNode)
+  if (userNode == nullptr || userNode != originNode)
     return false;
 
   return true;
@@ -179,6 +181,28 @@ NodeHoisting::computeTargetRegion(const rvsdg::Output & output) const
   throw std::logic_error("Unhandled output type!");
 }
 
+/**
+ * Restricts the hoisting of \p node to \p targetRegion such that \p node does not leave any
+ * subregion of a structural node of type \p TStructuralNode.
+ */
+template<typename TStructuralNode>
+static rvsdg::Region &
+restrictTargetRegion(const rvsdg::Node & node, rvsdg::Region & targetRegion)
+{
+  auto region = node.region();
+  while (region != &targetRegion && !dynamic_cast<const TStructuralNode *>(region->node()))
+    region = region->node()->region();
+
+  return *region;
+}
+
+static bool
+isDivisionOrRemainder(const rvsdg::Node & node)
+{
+  return is<IntegerSDivOperation>(&node) || is<IntegerUDivOperation>(&node)
+      || is<IntegerSRemOperation>(&node) || is<IntegerURemOperation>(&node);
+}
+
 rvsdg::Region &
 NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
 {
@@ -219,6 +243,15 @@ NodeHoisting::computeTargetRegion(const rvsdg::Node & node) const
 
   // Return the lowestmost common target region in the region tree among all inputs
   JLM_ASSERT(greatestCommonTargetRegion);
+
+  // An alloca creates a new object each time it is executed. It can therefore not leave a loop.
+  if (is<AllocaOperation>(&node))
+    return restrictTargetRegion<rvsdg::ThetaNode>(node, *greatestCommonTargetRegion);
+
+  // Undefined divisions and remainders must not be executed if they were guarded by a branch.
+  if (isDivisionOrRemainder(node))
+    return restrictTargetRegion<rvsdg::GammaNode>(node, *greatestCommonTargetRegion);
+
   return *greatestCommonTargetRegion;
 }
 
-- 
2.43.0


From 189cad02713c4368b304e335cd8673719cd6a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 11/26] fix: determine gamma subregion roles only for distinct
 alternatives

A branch whose alternatives all end (or all repeat) the loop has no exit and
repetition subregion; redirecting loop variables by them changed their value.
---
 jlm/llvm/opt/PredicateCorrelation.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/PredicateCorrelation.cpp b/jlm/llvm/opt/PredicateCorrelation.cpp
index edb42ac..9aefc99 100644
--- a/jlm/llvm/opt/PredicateCorrelation.cpp
+++ b/jlm/llvm/opt/PredicateCorrelation.cpp
@@ -223,6 +223,12 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
+    // Without distinct alternatives, the subregions have no distinct roles
+    if (controlAlternatives[0] == controlAlternatives[1])
+    {
+      return std::nullopt;
+    }
+
     GammaSubregionRoles roles;
     if (controlAlternatives[0] == 0)
     {
@@ -247,9 +253,17 @@ determineGammaSubregionRoles(const ThetaGammaPredicateCorrelation & correlation)
       return std::nullopt;
     }
 
-    GammaSubregionRoles roles;
     const auto matchOperation =
         util::assertedCast<const rvsdg::MatchOperation>(&matchNode->GetOperation());
+
+    // Without distinct alternatives, the subregions have no distinct roles
+    if (matchOperation->alternative(alternatives[0])
+        == matchOperation->alternative(alternatives[1]))
+    {
+      return std::nullopt;
+    }
+
+    GammaSubregionRoles roles;
     if (matchOperation->alternative(alternatives[0]) == 0)
     {
       roles.exitSubregion = correlation.gammaNode().subregion(0);
-- 
2.43.0


From 84cb5c000f801756004b5abac06b36669b956f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 12/26] fix: inline functions of a phi node into functions
 outside of the phi node

---
 jlm/llvm/opt/inlining.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/inlining.cpp b/jlm/llvm/opt/inlining.cpp
index a4eebf7..59a14ca 100644
--- a/jlm/llvm/opt/inlining.cpp
+++ b/jlm/llvm/opt/inlining.cpp
@@ -14,6 +14,7 @@
 #include <jlm/llvm/opt/inlining.hpp>
 #include <jlm/rvsdg/gamma.hpp>
 #include <jlm/rvsdg/MatchType.hpp>
+#include <jlm/rvsdg/Phi.hpp>
 #include <jlm/rvsdg/theta.hpp>
 #include <jlm/rvsdg/Trace.hpp>
 #include <jlm/rvsdg/traverser.hpp>
@@ -94,6 +95,27 @@ FunctionInlining::FunctionInlining()
     : Transformation("FunctionInlining")
 {}
 
+/**
+ * Recursion variables and functions of a phi node are not accessible from outside the phi node.
+ * Finds the corresponding phi output if \p output is defined in a phi node \p region is not part of.
+ */
+static rvsdg::Output &
+leavePhiNodes(rvsdg::Output & output, const rvsdg::Region & region)
+{
+  const auto phiNode = dynamic_cast<rvsdg::PhiNode *>(output.region()->node());
+  if (phiNode == nullptr || output.region() == &region
+      || rvsdg::Region::isAncestor(region, *output.region()))
+    return output;
+
+  for (auto & fixVar : phiNode->GetFixVars())
+  {
+    if (fixVar.recref == &output || fixVar.result->origin() == &output)
+      return leavePhiNodes(*fixVar.output, region);
+  }
+
+  return output;
+}
+
 /**
  * A function body has access to the function's context variables,
  * so inlining requires these context variables to be routed into the call's region.
@@ -113,7 +135,8 @@ routeContextVariablesToRegion(rvsdg::Region & region, const rvsdg::LambdaNode &
   for (auto & ctxvar : callee.GetContextVars())
   {
     auto & traced = tracer.trace(*ctxvar.input->origin());
-    auto & routed = rvsdg::RouteToRegion(traced, region);
+    auto & available = leavePhiNodes(traced, region);
+    auto & routed = rvsdg::RouteToRegion(available, region);
     deps.push_back(&routed);
   }
 
-- 
2.43.0


From b21a50dc7278890ff747629cc1ea0656c2248907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:10 +0000
Subject: [PATCH 13/26] fix: keep the kind of the first and last LLVM attribute
 of every class

FirstEnumAttr, LastEnumAttr, and so on, are aliases of real attribute kinds in LLVM. Listing them
in the translation table turned AllocAlign, ByRef, and Alignment into the markers.
---
 jlm/llvm/frontend/LlvmModuleConversion.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/jlm/llvm/frontend/LlvmModuleConversion.cpp b/jlm/llvm/frontend/LlvmModuleConversion.cpp
index f2e86c7..fb5792d 100644
--- a/jlm/llvm/frontend/LlvmModuleConversion.cpp
+++ b/jlm/llvm/frontend/LlvmModuleConversion.cpp
@@ -252,7 +252,6 @@ ConvertAttributeKind(const ::llvm::Attribute::AttrKind & kind)
 
   static std::unordered_map<::llvm::Attribute::AttrKind, Attribute::kind> map(
       { { ak::None, Attribute::kind::None },
-        { ak::FirstEnumAttr, Attribute::kind::FirstEnumAttr },
         { ak::AllocAlign, Attribute::kind::AllocAlign },
         { ak::AllocatedPointer, Attribute::kind::AllocatedPointer },
         { ak::AlwaysInline, Attribute::kind::AlwaysInline },
@@ -326,16 +325,12 @@ ConvertAttributeKind(const ::llvm::Attribute::AttrKind & kind)
         { ak::Writable, Attribute::kind::Writable },
         { ak::WriteOnly, Attribute::kind::WriteOnly },
         { ak::ZExt, Attribute::kind::ZExt },
-        { ak::LastEnumAttr, Attribute::kind::LastEnumAttr },
-        { ak::FirstTypeAttr, Attribute::kind::FirstTypeAttr },
         { ak::ByRef, Attribute::kind::ByRef },
         { ak::ByVal, Attribute::kind::ByVal },
         { ak::ElementType, Attribute::kind::ElementType },
         { ak::InAlloca, Attribute::kind::InAlloca },
         { ak::Preallocated, Attribute::kind::Preallocated },
         { ak::StructRet, Attribute::kind::StructRet },
-        { ak::LastTypeAttr, Attribute::kind::LastTypeAttr },
-        { ak::FirstIntAttr, Attribute::kind::FirstIntAttr },
         { ak::Alignment, Attribute::kind::Alignment },
         { ak::AllocKind, Attribute::kind::AllocKind },
         { ak::AllocSize, Attribute::kind::AllocSize },
@@ -345,7 +340,6 @@ ConvertAttributeKind(const ::llvm::Attribute::AttrKind & kind)
         { ak::StackAlignment, Attribute::kind::StackAlignment },
         { ak::UWTable, Attribute::kind::UWTable },
         { ak::VScaleRange, Attribute::kind::VScaleRange },
-        { ak::LastIntAttr, Attribute::kind::LastIntAttr },
         { ak::EndAttrKinds, Attribute::kind::EndAttrKinds } });
 
   JLM_ASSERT(map.find(kind) != map.end());
-- 
2.43.0


From 5a4ead04357ee03e0558c377d81fb3ffeff7e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 14/26] fix: treat calls as modifications in load chain
 separation

---
 jlm/llvm/opt/LoadChainSeparation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jlm/llvm/opt/LoadChainSeparation.cpp b/jlm/llvm/opt/LoadChainSeparation.cpp
index 11723b1..7348969 100644
--- a/jlm/llvm/opt/LoadChainSeparation.cpp
+++ b/jlm/llvm/opt/LoadChainSeparation.cpp
@@ -439,6 +439,7 @@ LoadChainSeparation::traceModRefChains(rvsdg::Output & startOutput, ModRefChainS
               {
                 // FIXME: I really would like that state edges through calls would be recognized as
                 // either modifying or just referencing.
+                hasModRefChainLinkAboveInRegion = true;
                 traceModRefChains(*CallOperation::GetMemoryStateInput(node).origin(), summary);
                 doneTracing = true;
               },
-- 
2.43.0


From 67fcbbe3893922310266a16906fc0d14676892d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:54 +0000
Subject: [PATCH 15/26] fix: do not compare addresses of different loop
 iterations in store value forwarding

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 118 ++++++++++++++++++++++++--
 1 file changed, 110 insertions(+), 8 deletions(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index faec2db..b4ebd81 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -37,6 +37,9 @@
 #include <memory>
 #include <optional>
 #include <queue>
+#include <unordered_map>
+#include <unordered_set>
+#include <vector>
 
 namespace jlm::llvm
 {
@@ -521,14 +524,92 @@ public:
   }
 
 private:
+  /**
+   * Checks if a value depends on a node.
+   * @param output an output, which may be in a subregion of a node in the \p node's region
+   * @param node the node to search for among the predecessors of \p output
+   * @return true if \p output is computed from any of the \p node's outputs.
+   */
+  static bool
+  dependsOnNode(const rvsdg::Output & output, const rvsdg::Node & node)
+  {
+    // Find the node in the same region as the given node that provides or contains the output
+    const rvsdg::Region * region = output.region();
+    const auto * current = rvsdg::TryGetOwnerNode<rvsdg::Node>(output);
+    while (region != node.region())
+    {
+      if (region->IsRootRegion())
+        return false;
+      current = region->node();
+      region = current->region();
+    }
+
+    std::vector<const rvsdg::Node *> worklist;
+    std::unordered_set<const rvsdg::Node *> visited;
+    const auto visit = [&](const rvsdg::Node * predecessor)
+    {
+      if (predecessor && visited.insert(predecessor).second)
+        worklist.push_back(predecessor);
+    };
+    visit(current);
+    while (!worklist.empty())
+    {
+      const auto predecessor = worklist.back();
+      worklist.pop_back();
+      if (predecessor == &node)
+        return true;
+      for (auto & input : predecessor->Inputs())
+        visit(rvsdg::TryGetOwnerNode<rvsdg::Node>(*input.origin()));
+    }
+
+    return false;
+  }
+
+  /**
+   * The response to an alias analysis query only relates values from the same loop iterations.
+   * If a loop back-edge has been taken on the way to another memory operation,
+   * that operation may have been performed in an earlier iteration of the loops surrounding it.
+   * For each of these loops, at least one of the two addresses must therefore be invariant.
+   * @param otherNode the other memory operation
+   * @param otherAddress the traced address of the other memory operation
+   * @return true if alias analysis queries hold in all loop iterations.
+   */
+  bool
+  isComparableAcrossIterations(
+      const rvsdg::SimpleNode & otherNode,
+      const rvsdg::Output & otherAddress) const
+  {
+    const auto & loadedBase = *TracePointerOriginPrecise(*loadedAddress).BasePointer;
+    const auto & otherBase = *TracePointerOriginPrecise(otherAddress).BasePointer;
+
+    const auto isInside = [](const rvsdg::Output & output, const rvsdg::Region & region)
+    {
+      return output.region() == &region || rvsdg::Region::isAncestor(*output.region(), region);
+    };
+
+    for (const rvsdg::Region * region = otherNode.region(); !region->IsRootRegion();
+         region = region->node()->region())
+    {
+      const auto thetaNode = dynamic_cast<const rvsdg::ThetaNode *>(region->node());
+      if (!thetaNode || !isInside(otherBase, *region))
+        continue;
+
+      if (isInside(loadedBase, *region) || dependsOnNode(loadedBase, *thetaNode))
+        return false;
+    }
+
+    return true;
+  }
+
   /**
    * Performs a simple alias analysis query between the \ref loadNode and the given store node,
    * to determine if they read and write from the same exact address,
    * possibly interfere, or if the operations are guaranteed to be fully independent.
    * @param storeNode the StoreOperation node
+   * @param loopBackEdgeTaken true if any loop back edge has been traced on the way to the store
    */
   aa::AliasAnalysis::AliasQueryResponse
-  queryAliasAnalysisWithStore(rvsdg::SimpleNode & storeNode)
+  queryAliasAnalysisWithStore(rvsdg::SimpleNode & storeNode, bool loopBackEdgeTaken)
   {
     JLM_ASSERT(is<StoreOperation>(&storeNode));
 
@@ -539,6 +620,9 @@ private:
     // Trace the store address now, to avoid duplicate work when multiple alias analyses are used
     const auto & tracedStoredAddress = llvm::traceOutput(storeAddress);
 
+    if (loopBackEdgeTaken && !isComparableAcrossIterations(storeNode, tracedStoredAddress))
+      return aa::AliasAnalysis::MayAlias;
+
     // Query the alias analysis
     const auto response =
         aliasAnalysis.Query(*loadedAddress, loadedTypeSize, tracedStoredAddress, storedSize);
@@ -551,9 +635,10 @@ private:
    * Performs a simple alias analysis query between the LoadTracingInfo's \ref loadNode,
    * and the other load node given as a parameter, to determine if they read from the same address.
    * @param otherLoadNode the LoadOperation node
+   * @param loopBackEdgeTaken true if any loop back edge has been traced on the way to the load
    */
   aa::AliasAnalysis::AliasQueryResponse
-  queryAliasAnalysisWithLoad(rvsdg::SimpleNode & otherLoadNode)
+  queryAliasAnalysisWithLoad(rvsdg::SimpleNode & otherLoadNode, bool loopBackEdgeTaken)
   {
     JLM_ASSERT(is<LoadOperation>(&otherLoadNode));
 
@@ -564,6 +649,9 @@ private:
     // Trace the store address now, to avoid duplicate work when multiple alias analyses are used
     const auto & tracedOtherLoadAddress = llvm::traceOutput(otherLoadAddress);
 
+    if (loopBackEdgeTaken && !isComparableAcrossIterations(otherLoadNode, tracedOtherLoadAddress))
+      return aa::AliasAnalysis::MayAlias;
+
     // Query the alias analysis
     const auto response =
         aliasAnalysis.Query(*loadedAddress, loadedTypeSize, tracedOtherLoadAddress, otherLoadSize);
@@ -642,12 +730,14 @@ private:
         storeNode && storeOp)
     {
       // Lookup or create a store node info entry
-      auto [it, inserted] = storeNodeInfo.emplace(storeNode, StoreNodeInfo::ClobberNoForward);
+      auto [it, inserted] = storeNodeInfo.emplace(
+          std::make_pair(storeNode, loopBackEdgeTaken),
+          StoreNodeInfo::ClobberNoForward);
 
       // If the store has not been encountered before, determine forwarding / clobbering
       if (inserted)
       {
-        const auto aliasReponse = queryAliasAnalysisWithStore(*storeNode);
+        const auto aliasReponse = queryAliasAnalysisWithStore(*storeNode, loopBackEdgeTaken);
         switch (aliasReponse)
         {
         case aa::AliasAnalysis::MayAlias:
@@ -696,12 +786,14 @@ private:
         otherLoadNode && otherLoadOp)
     {
       // Lookup or create a load node info entry
-      auto [it, inserted] = loadNodeInfo.emplace(otherLoadNode, LoadNodeInfo::NoClobber);
+      auto [it, inserted] = loadNodeInfo.emplace(
+          std::make_pair(otherLoadNode, loopBackEdgeTaken),
+          LoadNodeInfo::NoClobber);
 
       // If the load has not been encountered before, determine if forwarding is possible
       if (inserted)
       {
-        const auto aliasReponse = queryAliasAnalysisWithLoad(*otherLoadNode);
+        const auto aliasReponse = queryAliasAnalysisWithLoad(*otherLoadNode, loopBackEdgeTaken);
         switch (aliasReponse)
         {
         case aa::AliasAnalysis::MayAlias:
@@ -929,9 +1021,19 @@ private:
   rvsdg::RegionPredicateTrace & regionPredicateTrace;
 
   // Map containing info about each store node relevant to value forwarding.
-  std::unordered_map<rvsdg::SimpleNode *, StoreNodeInfo> storeNodeInfo;
+  // The boolean in the key is true if any loop back-edges have been taken.
+  std::unordered_map<
+      std::pair<rvsdg::SimpleNode *, bool>,
+      StoreNodeInfo,
+      util::Hash<std::pair<rvsdg::SimpleNode *, bool>>>
+      storeNodeInfo;
   // Map containing info about each load node relevant to value forwarding.
-  std::unordered_map<rvsdg::SimpleNode *, LoadNodeInfo> loadNodeInfo;
+  // The boolean in the key is true if any loop back-edges have been taken.
+  std::unordered_map<
+      std::pair<rvsdg::SimpleNode *, bool>,
+      LoadNodeInfo,
+      util::Hash<std::pair<rvsdg::SimpleNode *, bool>>>
+      loadNodeInfo;
 
   /* The last value origin on the memory state chain before the given input.
    * The boolean in the key is true if any loop back-edges have been taken.
-- 
2.43.0


From 3effaf3ba5e54019939fe6c436f34c87eea7463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 16/26] fix: keep loads of constant globals that are not a
 single element

---
 jlm/llvm/opt/StoreValueForwarding.cpp | 139 +++++++++++++++++---------
 1 file changed, 89 insertions(+), 50 deletions(-)

diff --git a/jlm/llvm/opt/StoreValueForwarding.cpp b/jlm/llvm/opt/StoreValueForwarding.cpp
index b4ebd81..55467bd 100644
--- a/jlm/llvm/opt/StoreValueForwarding.cpp
+++ b/jlm/llvm/opt/StoreValueForwarding.cpp
@@ -1226,7 +1226,8 @@ copyRegionSlice(
   }
 }
 
-static rvsdg::Output &
+// Returns nullptr if a value that the copied nodes depend on is not available in the target region.
+static rvsdg::Output *
 copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
 {
   auto deltaNode = util::assertedCast<rvsdg::DeltaNode>(output.region()->node());
@@ -1237,97 +1238,131 @@ copyDeltaRegionSlice(rvsdg::Output & output, rvsdg::Region & targetRegion)
   for (auto oldArgument : regionSlice.arguments.Items())
   {
     auto ctxVar = deltaNode->MapBinderContextVar(*oldArgument);
-    auto & newArgument = rvsdg::RouteToRegion(*ctxVar.input->origin(), targetRegion);
+    auto & origin = *ctxVar.input->origin();
+    if (&targetRegion != origin.region()
+        && !rvsdg::Region::isAncestor(targetRegion, *origin.region()))
+    {
+      // The delta node is part of a phi node that does not contain the target region
+      return nullptr;
+    }
+
+    auto & newArgument = rvsdg::RouteToRegion(origin, targetRegion);
     substitutionMap.insert(oldArgument, &newArgument);
   }
 
   copyRegionSlice(targetRegion, regionSlice, substitutionMap);
-  return substitutionMap.lookup(output);
+  return &substitutionMap.lookup(output);
 }
 
-static rvsdg::Output &
+/**
+ * Copies the part of a constant global that is loaded.
+ * @param elementOffsetInBytes the offset of the loaded bytes
+ * @param output the initial value of (an element of) the global
+ * @param targetRegion the region to copy to
+ * @param loadedType the type of the loaded value
+ * @return the copied value, or nullptr if the loaded bytes are not a single supported element.
+ */
+static rvsdg::Output *
 copyDeltaElement(
     const uint64_t elementOffsetInBytes,
     rvsdg::Output & output,
     rvsdg::Region & targetRegion,
     const std::shared_ptr<const rvsdg::Type> & loadedType)
 {
+  // The load might be in unreachable code, in which case it can access anything
+  if (elementOffsetInBytes >= GetTypeAllocSize(*output.Type()))
+  {
+    return nullptr;
+  }
+
+  const auto copyDeltaScalar = [&]() -> rvsdg::Output *
+  {
+    if (elementOffsetInBytes != 0 || *output.Type() != *loadedType)
+    {
+      return nullptr;
+    }
+
+    return copyDeltaRegionSlice(output, targetRegion);
+  };
+
   if (const auto node = rvsdg::TryGetOwnerNode<rvsdg::SimpleNode>(output))
   {
     return rvsdg::MatchTypeWithDefault(
         node->GetOperation(),
-        [&](const IntegerConstantOperation &) -> rvsdg::Output &
+        [&](const IntegerConstantOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          auto copiedOutput = &copyDeltaRegionSlice(output, targetRegion);
-
-          const auto loadBitType = util::assertedCast<const rvsdg::BitType>(loadedType.get());
-          const auto copiedBitType =
-              util::assertedCast<const rvsdg::BitType>(copiedOutput->Type().get());
-          if (copiedBitType->nbits() == loadBitType->nbits())
+          const auto loadBitType = dynamic_cast<const rvsdg::BitType *>(loadedType.get());
+          const auto elementBitType =
+              util::assertedCast<const rvsdg::BitType>(output.Type().get());
+          // FIXME: We would need to shift the integer if only its upper bytes are loaded, and to
+          // concat multiple integers if the load is wider than the integer.
+          if (elementOffsetInBytes != 0 || loadBitType == nullptr
+              || loadBitType->nbits() > elementBitType->nbits())
           {
-            return *copiedOutput;
+            return nullptr;
           }
 
-          if (loadBitType->nbits() < copiedBitType->nbits())
+          const auto copiedOutput = copyDeltaRegionSlice(output, targetRegion);
+          if (elementBitType->nbits() == loadBitType->nbits())
           {
-            return *TruncOperation::createNode(*copiedOutput, loadedType).output(0);
+            return copiedOutput;
           }
 
-          // FIXME: In this case, we would need to concat multiple integers.
-          return *copiedOutput;
+          return TruncOperation::createNode(*copiedOutput, loadedType).output(0);
         },
-        [&](const ConstantFP &) -> rvsdg::Output &
+        [&](const ConstantFP &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return copyDeltaScalar();
         },
-        [&](const ConstantPointerNullOperation &) -> rvsdg::Output &
+        [&](const ConstantPointerNullOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return copyDeltaScalar();
         },
-        [&](const FunctionToPointerOperation &) -> rvsdg::Output &
+        [&](const FunctionToPointerOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return copyDeltaScalar();
         },
-        [&](const IntToPtrOperation &) -> rvsdg::Output &
+        [&](const IntToPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return copyDeltaScalar();
         },
-        [&](const GetElementPtrOperation &) -> rvsdg::Output &
+        [&](const GetElementPtrOperation &) -> rvsdg::Output *
         {
-          JLM_ASSERT(elementOffsetInBytes == 0);
-          return copyDeltaRegionSlice(output, targetRegion);
+          return copyDeltaScalar();
         },
-        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output &
+        [&](const ConstantAggregateZeroOperation &) -> rvsdg::Output *
         {
+          if (elementOffsetInBytes + GetTypeStoreSize(*loadedType)
+              > GetTypeAllocSize(*output.Type()))
+          {
+            // The load also reads bytes that follow after the zeros
+            return nullptr;
+          }
+
           if (is<PointerType>(loadedType))
           {
-            return *ConstantPointerNullOperation::createNode(targetRegion).output(0);
+            return ConstantPointerNullOperation::createNode(targetRegion).output(0);
           }
 
           if (const auto bitType = std::dynamic_pointer_cast<const rvsdg::BitType>(loadedType))
           {
-            return *IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
+            return IntegerConstantOperation::Create(targetRegion, bitType->nbits(), 0).output(0);
           }
 
           if (const auto floatType = std::dynamic_pointer_cast<const FloatingPointType>(loadedType))
           {
             const auto zero = ConstantFP::getZeroRepresentation(floatType->size());
-            return *ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
+            return ConstantFP::createNode(targetRegion, floatType->size(), zero).output(0);
           }
 
           if (const auto vectorType = std::dynamic_pointer_cast<const FixedVectorType>(loadedType))
           {
-            return *ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
+            return ConstantAggregateZeroOperation::createNode(targetRegion, vectorType).output(0);
           }
 
-          throw std::logic_error("Unsupported load type");
+          return nullptr;
         },
-        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output &
+        [&](const ConstantArrayOperation & constantArrayOperation) -> rvsdg::Output *
         {
           const auto arrayType = constantArrayOperation.type();
           const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
@@ -1339,7 +1374,7 @@ copyDeltaElement(
               targetRegion,
               loadedType);
         },
-        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output &
+        [&](const ConstantDataArrayOperation & constantDataArrayOperation) -> rvsdg::Output *
         {
           const auto arrayType = constantDataArrayOperation.type();
           const auto elementSizeInBytes = GetTypeAllocSize(*arrayType->GetElementType());
@@ -1351,7 +1386,7 @@ copyDeltaElement(
               targetRegion,
               loadedType);
         },
-        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output &
+        [&](const ConstantStructOperation & constantStruct) -> rvsdg::Output *
         {
           auto & structType = constantStruct.type();
 
@@ -1384,16 +1419,15 @@ copyDeltaElement(
               targetRegion,
               loadedType);
         },
-        [&]() -> rvsdg::Output &
+        [&]() -> rvsdg::Output *
         {
-          throw std::logic_error("Unsupported operation: " + node->DebugString());
+          return nullptr;
         });
   }
 
   if (rvsdg::TryGetRegionParentNode<rvsdg::DeltaNode>(output))
   {
-    JLM_ASSERT(elementOffsetInBytes == 0);
-    return copyDeltaRegionSlice(output, targetRegion);
+    return copyDeltaScalar();
   }
 
   throw std::logic_error("Unsupported output owner");
@@ -1417,21 +1451,26 @@ StoreValueForwarding::forwardLoadWithoutMemoryStates(
   }
 
   JLM_ASSERT(tracedDelta.gepConstants.size() <= 1);
-  const uint64_t offsetInBytes =
+  const int64_t offsetInBytes =
       tracedDelta.gepConstants.empty() ? 0 : tracedDelta.gepConstants.front().getOffsetInBytes();
-  auto & newOutput = copyDeltaElement(
+  if (offsetInBytes < 0)
+  {
+    return;
+  }
+
+  const auto newOutput = copyDeltaElement(
       offsetInBytes,
       deltaResultOrigin,
       *loadNode.region(),
       loadOperation->GetLoadedType());
 
-  if (*loadOperation->GetLoadedType() != *newOutput.Type())
+  if (newOutput == nullptr)
   {
-    // FIXME:
     return;
   }
 
-  LoadOperation::LoadedValueOutput(loadNode).divert_users(&newOutput);
+  JLM_ASSERT(*loadOperation->GetLoadedType() == *newOutput->Type());
+  LoadOperation::LoadedValueOutput(loadNode).divert_users(newOutput);
   context_->numForwardedLoadsWithoutMemoryState++;
 }
 
-- 
2.43.0


From 9d91a2716e31e2682e4ddca25db06ce7c28a08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 17/26] fix: split only aggregates whose elements are accessed
 one at a time

---
 jlm/llvm/opt/AggregateAllocaSplitting.cpp | 98 ++++++++++++++++++++---
 jlm/llvm/opt/AggregateAllocaSplitting.hpp |  4 +-
 2 files changed, 90 insertions(+), 12 deletions(-)

diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.cpp b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
index 22961b0..491a1b5 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.cpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.cpp
@@ -101,26 +101,59 @@ AggregateAllocaSplitting::isSplitableType(const rvsdg::Type & type)
   // FIXME: We currently only look at alloca nodes with a struct type. We might be able
   // to do something for alloca nodes with array types as well.
   const auto structType = dynamic_cast<const StructType *>(&type);
-  if (!structType)
+  if (!structType || structType->numElements() == 0)
     return false;
 
   for (const auto & elementType : structType->elementTypes())
   {
-    if (IsAggregateType(*elementType))
+    if (IsAggregateType(*elementType) && !isSplitableType(*elementType))
     {
-      return isSplitableType(*elementType);
+      return false;
     }
   }
 
   return true;
 }
 
+/**
+ * Determines the element that a GetElementPtrOperation node addresses.
+ * @param gepNode a GetElementPtrOperation node
+ * @param allocatedType the type of the alloca node that provides the base address of \p gepNode
+ * @return the type of the element, or nullptr if \p gepNode does not provide the address of
+ * a non-aggregate element of the allocated type.
+ */
+static std::shared_ptr<const rvsdg::Type>
+getAddressedElementType(
+    const rvsdg::SimpleNode & gepNode,
+    const std::shared_ptr<const rvsdg::Type> & allocatedType)
+{
+  const auto gepConstant = GetElementPtrOperation::tryGetAsConstant(gepNode);
+  if (!gepConstant.has_value() || *gepConstant->pointeeType != *allocatedType
+      || gepConstant->indices[0] != 0)
+  {
+    return nullptr;
+  }
+
+  auto type = allocatedType;
+  for (size_t n = 1; n < gepConstant->indices.size(); ++n)
+  {
+    const auto structType = std::dynamic_pointer_cast<const StructType>(type);
+    if (!structType || gepConstant->indices[n] >= structType->numElements())
+      return nullptr;
+
+    type = structType->getElementType(gepConstant->indices[n]);
+  }
+
+  return IsAggregateType(*type) ? nullptr : type;
+}
+
 std::optional<AggregateAllocaSplitting::AllocaTraceInfo>
 AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 {
-  [[maybe_unused]] auto allocaOperation =
+  const auto allocaOperation =
       dynamic_cast<const AllocaOperation *>(&allocaNode.GetOperation());
   JLM_ASSERT(allocaOperation && isSplitableType(*allocaOperation->allocatedType()));
+  const auto allocatedType = allocaOperation->allocatedType();
 
   auto & address = AllocaOperation::getPointerOutput(allocaNode);
   auto & count = AllocaOperation::getCountInput(allocaNode);
@@ -135,7 +168,7 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
   bool isSplitable = true;
   AllocaTraceInfo allocaTraceInfo(allocaNode);
 
-  util::HashSet<rvsdg::Output *> seen;
+  util::HashSet<rvsdg::Output *> seen{ &address };
   std::deque<rvsdg::Output *> toVisit{ &address };
   auto addToVisitSet = [&](rvsdg::Output & output)
   {
@@ -232,7 +265,9 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
                   [&](const GetElementPtrOperation &)
                   {
                     JLM_ASSERT(userNode->input(0) == &user);
-                    JLM_ASSERT(GetElementPtrOperation::tryGetAsConstant(simpleNode).has_value());
+                    if (!getAddressedElementType(simpleNode, allocatedType))
+                      return false;
+
                     allocaTraceInfo.allocaConsumers.push_back(&simpleNode);
                     return true;
                   },
@@ -259,9 +294,44 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
   if (!isSplitable)
     return std::nullopt;
 
+  // The address must be the only value that flows to the visited outputs, and it must be available
+  // wherever it is used.
+  const auto & allocaRegion = *allocaNode.region();
+  for (const auto output : seen.Items())
+  {
+    if (output == &address)
+      continue;
+
+    if (output->region() != &allocaRegion
+        && !rvsdg::Region::isAncestor(*output->region(), allocaRegion))
+      return std::nullopt;
+
+    if (const auto gammaNode = rvsdg::TryGetOwnerNode<rvsdg::GammaNode>(*output))
+    {
+      for (const auto branchResult : gammaNode->MapOutputExitVar(*output).branchResult)
+      {
+        if (!seen.Contains(branchResult->origin()))
+          return std::nullopt;
+      }
+    }
+    else if (const auto thetaNode = rvsdg::TryGetOwnerNode<rvsdg::ThetaNode>(*output))
+    {
+      if (!seen.Contains(thetaNode->MapOutputLoopVar(*output).post->origin()))
+        return std::nullopt;
+    }
+    else if (const auto thetaNode = rvsdg::TryGetRegionParentNode<rvsdg::ThetaNode>(*output))
+    {
+      const auto loopVar = thetaNode->MapPreLoopVar(*output);
+      if (!seen.Contains(loopVar.input->origin()) || !seen.Contains(loopVar.post->origin()))
+        return std::nullopt;
+    }
+  }
+
   for (const auto allocaConsumer : allocaTraceInfo.allocaConsumers)
   {
-    if (!checkGetElementPtrUsers(*allocaConsumer))
+    if (!checkGetElementPtrUsers(
+            *allocaConsumer,
+            *getAddressedElementType(*allocaConsumer, allocatedType)))
       return std::nullopt;
   }
 
@@ -269,10 +339,13 @@ AggregateAllocaSplitting::isSplitable(rvsdg::SimpleNode & allocaNode)
 }
 
 bool
-AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode)
+AggregateAllocaSplitting::checkGetElementPtrUsers(
+    const rvsdg::SimpleNode & gepNode,
+    const rvsdg::Type & elementType)
 {
   [[maybe_unused]] auto gepOperation =
       dynamic_cast<const GetElementPtrOperation *>(&gepNode.GetOperation());
+  const auto elementSize = GetTypeAllocSize(elementType);
   auto & address = *gepNode.output(0);
 
   bool hasOnlyLoadsAndStores = true;
@@ -370,16 +443,19 @@ AggregateAllocaSplitting::checkGetElementPtrUsers(const rvsdg::SimpleNode & gepN
               auto & operation = simpleNode.GetOperation();
               return rvsdg::MatchTypeWithDefault(
                   operation,
-                  [&](const LoadOperation &)
+                  [&](const LoadOperation & loadOperation)
                   {
-                    return true;
+                    // The load must not access more than the element
+                    return GetTypeStoreSize(*loadOperation.GetLoadedType()) <= elementSize;
                   },
                   [&](const StoreOperation &)
                   {
                     if (&user != &StoreOperation::AddressInput(simpleNode))
                       return false;
 
-                    return true;
+                    // The store must not access more than the element
+                    const auto storedType = StoreOperation::StoredValueInput(simpleNode).Type();
+                    return GetTypeStoreSize(*storedType) <= elementSize;
                   },
                   [&](const IOBarrierOperation &)
                   {
diff --git a/jlm/llvm/opt/AggregateAllocaSplitting.hpp b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
index 6eb409a..a90e417 100644
--- a/jlm/llvm/opt/AggregateAllocaSplitting.hpp
+++ b/jlm/llvm/opt/AggregateAllocaSplitting.hpp
@@ -44,7 +44,9 @@ private:
   splitAllocaNode(const AllocaTraceInfo & allocaTraceInfo);
 
   static bool
-  checkGetElementPtrUsers(const rvsdg::SimpleNode & gepNode);
+  checkGetElementPtrUsers(
+      const rvsdg::SimpleNode & gepNode,
+      const rvsdg::Type & elementType);
 
   static std::optional<AllocaTraceInfo>
   isSplitable(rvsdg::SimpleNode & allocaNode);
-- 
2.43.0


From b4c0bbcc85cc2c9a6fd2cbee02ac5a168428b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:15 +0000
Subject: [PATCH 18/26] fix: fixed and scalable vector types are different
 types

---
 jlm/llvm/ir/types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index 38f7ee9..d42e6e5 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -274,7 +274,7 @@ FixedVectorType::~FixedVectorType() noexcept = default;
 bool
 FixedVectorType::operator==(const jlm::rvsdg::Type & other) const noexcept
 {
-  return VectorType::operator==(other);
+  return rvsdg::is<FixedVectorType>(other) && VectorType::operator==(other);
 }
 
 std::size_t
@@ -296,7 +296,7 @@ ScalableVectorType::~ScalableVectorType() noexcept = default;
 bool
 ScalableVectorType::operator==(const jlm::rvsdg::Type & other) const noexcept
 {
-  return VectorType::operator==(other);
+  return rvsdg::is<ScalableVectorType>(other) && VectorType::operator==(other);
 }
 
 std::size_t
-- 
2.43.0


From 043219a77aecfba67d4aba4ef2746f838a172040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 19/26] fix: elements of vectors are tightly packed

---
 jlm/llvm/ir/types.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index d42e6e5..3a83698 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -382,6 +382,20 @@ MemoryStateType::Create()
   return std::shared_ptr<const MemoryStateType>(std::shared_ptr<void>(), &instance);
 }
 
+/**
+ * Gets the number of bits that an element of the given \p type occupies in a vector.
+ */
+static size_t
+getVectorElementSizeInBits(const rvsdg::Type & type)
+{
+  if (const auto bits = dynamic_cast<const rvsdg::BitType *>(&type))
+  {
+    return bits->nbits();
+  }
+
+  return GetTypeStoreSize(type) * 8;
+}
+
 size_t
 GetTypeStoreSize(const rvsdg::Type & type)
 {
@@ -455,9 +469,9 @@ GetTypeStoreSize(const rvsdg::Type & type)
   }
   if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
   {
-    // In LLVM, vectors always have alignment >= the number of bytes of data stored in the vector
-    const auto bytesNeeded = vectorType->size() * GetTypeAllocSize(*vectorType->Type());
-    return bytesNeeded;
+    // In LLVM, the elements of a vector are tightly packed, without any padding between them
+    const auto bitsNeeded = vectorType->size() * getVectorElementSizeInBits(*vectorType->Type());
+    return (bitsNeeded + 7) / 8;
   }
   if (rvsdg::is<rvsdg::FunctionType>(type))
   {
-- 
2.43.0


From d1651e0a91b5dfe71b856b4d7dc4845956334253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:37 +0000
Subject: [PATCH 20/26] fix: integers wider than 128 bit are aligned to 16
 bytes

---
 jlm/llvm/ir/types.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jlm/llvm/ir/types.cpp b/jlm/llvm/ir/types.cpp
index 3a83698..8e683eb 100644
--- a/jlm/llvm/ir/types.cpp
+++ b/jlm/llvm/ir/types.cpp
@@ -9,6 +9,7 @@
 #include <jlm/util/Math.hpp>
 #include <jlm/util/strfmt.hpp>
 
+#include <algorithm>
 #include <numeric>
 #include <unordered_map>
 
@@ -498,8 +499,14 @@ GetTypeAllocSize(const rvsdg::Type & type)
 size_t
 GetTypeAlignment(const rvsdg::Type & type)
 {
-  if (jlm::rvsdg::is<rvsdg::BitType>(type) || jlm::rvsdg::is<PointerType>(type)
-      || jlm::rvsdg::is<FloatingPointType>(type) || jlm::rvsdg::is<VectorType>(type))
+  if (jlm::rvsdg::is<rvsdg::BitType>(type))
+  {
+    // Integers are aligned to their byte size, rounded up to a power of two, but never to more than
+    // the alignment of the widest integer in the data layout, i.e., 128 bit.
+    return std::min<size_t>(util::RoundUpToPowerOf2(GetTypeStoreSize(type)), 16);
+  }
+  if (jlm::rvsdg::is<PointerType>(type) || jlm::rvsdg::is<FloatingPointType>(type)
+      || jlm::rvsdg::is<VectorType>(type))
   {
     // These types all have alignment equal to their byte size, rounded up to a power of two
     return util::RoundUpToPowerOf2(GetTypeStoreSize(type));
-- 
2.43.0


From 57c527f120ac6b545c1622f9d6f2f94b4ac2b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:27 +0000
Subject: [PATCH 21/26] fix: getelementptr indices past the last field of a
 structure are rejected

---
 jlm/llvm/ir/operators/GetElementPtr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jlm/llvm/ir/operators/GetElementPtr.cpp b/jlm/llvm/ir/operators/GetElementPtr.cpp
index e5daca8..81654e8 100644
--- a/jlm/llvm/ir/operators/GetElementPtr.cpp
+++ b/jlm/llvm/ir/operators/GetElementPtr.cpp
@@ -134,7 +134,7 @@ GetElementPtrOperation::getIndexedType(
         return nullptr;
 
       auto idx = constantOperation->Representation().to_uint();
-      if (idx > structType->numElements())
+      if (idx >= structType->numElements())
         return nullptr;
 
       currentType = structType->getElementType(idx);
-- 
2.43.0


From b43fa7efc4acf4d56ab7235e97ee62c6023f1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 22/26] fix: constant offsets of getelementptr operations that
 index into vectors

---
 jlm/llvm/ir/operators/GetElementPtr.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jlm/llvm/ir/operators/GetElementPtr.cpp b/jlm/llvm/ir/operators/GetElementPtr.cpp
index 81654e8..963ae7d 100644
--- a/jlm/llvm/ir/operators/GetElementPtr.cpp
+++ b/jlm/llvm/ir/operators/GetElementPtr.cpp
@@ -97,6 +97,15 @@ GetElementPtrOperation::Constant::getOffsetInBytes() const noexcept
       return offsetInBytes;
     }
 
+    if (const auto vectorType = dynamic_cast<const VectorType *>(&type))
+    {
+      // The elements of a vector are tightly packed, without any padding between them
+      const auto & elementType = *vectorType->Type();
+      int64_t offsetInBytes = indexValue * GetTypeStoreSize(elementType);
+      offsetInBytes += computeIntraTypeOffset(index + 1, elementType);
+      return offsetInBytes;
+    }
+
     throw std::logic_error("Unknown GetElementPtr type");
   };
 
-- 
2.43.0


From 821c99d7784267d0765e4d55efce0fed9723f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:41 +0000
Subject: [PATCH 23/26] fix: LocalAliasAnalysis: an address of an earlier
 iteration is not the one of this iteration

---
 jlm/llvm/ir/Trace.cpp                          |  1 +
 jlm/llvm/ir/Trace.hpp                          |  7 +++++++
 .../opt/alias-analyses/LocalAliasAnalysis.cpp  | 18 ++++++++++++++++++
 .../opt/alias-analyses/LocalAliasAnalysis.hpp  |  7 +++++++
 4 files changed, 33 insertions(+)

diff --git a/jlm/llvm/ir/Trace.cpp b/jlm/llvm/ir/Trace.cpp
index 17f3aff..05c97ea 100644
--- a/jlm/llvm/ir/Trace.cpp
+++ b/jlm/llvm/ir/Trace.cpp
@@ -305,6 +305,7 @@ traceAllPointerOriginsInternal(
     JLM_ASSERT(!rvsdg::ThetaLoopVarIsInvariant(loopVar));
 
     // Trace both from the post and the loop variable input
+    traceCollection.TracedToEarlierIteration = true;
     return traceAllPointerOriginsInternal(
                loopVar.post->origin(),
                offsetInBytes,
diff --git a/jlm/llvm/ir/Trace.hpp b/jlm/llvm/ir/Trace.hpp
index 2b504d7..020e44f 100644
--- a/jlm/llvm/ir/Trace.hpp
+++ b/jlm/llvm/ir/Trace.hpp
@@ -133,6 +133,13 @@ struct TraceCollection
    * LoadNonVolatileOperation, or the return value of a \ref CallOperation.
    */
   std::unordered_map<const rvsdg::Output *, std::optional<int64_t>> TopOrigins{};
+
+  /**
+   * True if tracing went from the loop variable of a theta node to its value at the end of an
+   * iteration. A top origin inside of a theta node then also stands for the value its output had
+   * in an earlier iteration.
+   */
+  bool TracedToEarlierIteration = false;
 };
 
 /**
diff --git a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
index 4d06444..15ff556 100644
--- a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
+++ b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp
@@ -108,7 +108,14 @@ LocalAliasAnalysis::Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Outp
     const auto & [p1Base, p1Offset] = *p1TraceCollection.TopOrigins.begin();
     const auto & [p2Base, p2Offset] = *p2TraceCollection.TopOrigins.begin();
     if (p1Base == p2Base)
+    {
+      // The same top origin is a different value in each iteration of the loop it is in
+      if ((p1TraceCollection.TracedToEarlierIteration || p2TraceCollection.TracedToEarlierIteration)
+          && IsInsideTheta(*p1Base))
+        return MayAlias;
+
       return QueryOffsets(p1Offset, s1, p2Offset, s2);
+    }
   }
 
   // From this point on we give up on MustAlias
@@ -182,6 +189,17 @@ LocalAliasAnalysis::Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Outp
   return MayAlias;
 }
 
+bool
+LocalAliasAnalysis::IsInsideTheta(const rvsdg::Output & output)
+{
+  for (auto region = output.region(); !region->IsRootRegion(); region = region->node()->region())
+  {
+    if (dynamic_cast<const rvsdg::ThetaNode *>(region->node()))
+      return true;
+  }
+  return false;
+}
+
 AliasAnalysis::AliasQueryResponse
 LocalAliasAnalysis::QueryOffsets(
     std::optional<int64_t> offset1,
diff --git a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp
index bf2d240..f2ff89a 100644
--- a/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp
+++ b/jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp
@@ -53,6 +53,13 @@ public:
   Query(const rvsdg::Output & p1, size_t s1, const rvsdg::Output & p2, size_t s2) override;
 
 private:
+  /**
+   * Checks if the given output is computed inside of a theta node, and can thus have a different
+   * value in each iteration.
+   */
+  [[nodiscard]] static bool
+  IsInsideTheta(const rvsdg::Output & output);
+
   /**
    * Given two pointers with the same base pointer
    *  p1 = base + offset1
-- 
2.43.0


From 484dbf31e7dd1c2fa69006b6358fc20ab5a7b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:42 +0000
Subject: [PATCH 24/26] fix: Andersen: select operations on pointers

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 22 ++++++++++++++++++++++
 jlm/llvm/opt/alias-analyses/Andersen.hpp |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 8a338f9..215113a 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -682,6 +682,10 @@ Andersen::AnalyzeSimpleNode(const rvsdg::SimpleNode & node)
       {
         AnalyzeFreeze(node);
       },
+      [&](const SelectOperation &)
+      {
+        AnalyzeSelect(node);
+      },
       [&](const MemCpyOperation &)
       {
         AnalyzeMemcpy(node);
@@ -967,6 +971,24 @@ Andersen::AnalyzeFreeze(const rvsdg::SimpleNode & node)
   Set_->MapRegisterToExistingPointerObject(output, operandPO);
 }
 
+void
+Andersen::AnalyzeSelect(const rvsdg::SimpleNode & node)
+{
+  JLM_ASSERT(is<SelectOperation>(node.GetOperation()));
+
+  const auto & output = *node.output(0);
+  if (!IsOrContainsPointerType(*output.Type()))
+    return;
+
+  // The result is one of the two last operands
+  const auto outputPO = Set_->CreateRegisterPointerObject(output);
+  for (size_t n = 1; n < 3; n++)
+  {
+    const auto operandPO = Set_->GetRegisterPointerObject(*node.input(n)->origin());
+    Constraints_->AddConstraint(SupersetConstraint(outputPO, operandPO));
+  }
+}
+
 void
 Andersen::AnalyzeMemcpy(const rvsdg::SimpleNode & node)
 {
diff --git a/jlm/llvm/opt/alias-analyses/Andersen.hpp b/jlm/llvm/opt/alias-analyses/Andersen.hpp
index dee5a4b..e9e9133 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.hpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.hpp
@@ -391,6 +391,9 @@ private:
   void
   AnalyzeFreeze(const rvsdg::SimpleNode & node);
 
+  void
+  AnalyzeSelect(const rvsdg::SimpleNode & node);
+
   void
   AnalyzeMemcpy(const rvsdg::SimpleNode & node);
 
-- 
2.43.0


From 985091858c7543652c948ea00f2dc8aebd7abb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:42 +0000
Subject: [PATCH 25/26] fix: Andersen: registers unified with a memory object
 without pointers keep their targets

---
 jlm/llvm/opt/alias-analyses/Andersen.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/jlm/llvm/opt/alias-analyses/Andersen.cpp b/jlm/llvm/opt/alias-analyses/Andersen.cpp
index 215113a..2dc88f3 100644
--- a/jlm/llvm/opt/alias-analyses/Andersen.cpp
+++ b/jlm/llvm/opt/alias-analyses/Andersen.cpp
@@ -1748,13 +1748,6 @@ Andersen::ConstructPointsToGraphFromPointerObjectSet(
   // PointerObject's points-to set.
   auto applyPointsToSet = [&](PointsToGraph::NodeIndex ptgNode, PointerObjectIndex index)
   {
-    // PointerObjectSets that are marked as not containing pointers can be added to the
-    // PointsToGraph without any explicit or implicit pointees.
-    if (!set.CanPoint(index))
-    {
-      return;
-    }
-
     // Mark nodes that target everything that is externally available
     if (set.IsPointingToExternal(index))
     {
@@ -1790,6 +1783,12 @@ Andersen::ConstructPointsToGraphFromPointerObjectSet(
   // Now add all edges from memory node to memory node.
   for (auto [pointerObjectSetIndex, ptgNode] : memoryNodeMapping)
   {
+    // PointerObjects that are marked as not containing pointers can be added to the
+    // PointsToGraph without any explicit or implicit pointees. This only holds for the memory
+    // object itself: registers it has been unified with can still point.
+    if (!set.CanPoint(pointerObjectSetIndex))
+      continue;
+
     applyPointsToSet(ptgNode, pointerObjectSetIndex);
   }
 
-- 
2.43.0


From fe0fa723cd95e473826ca91ce60bc1a7246af899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:54 +0000
Subject: [PATCH 26/26] fix: Andersen: hybrid cycle detection only collapses
 cycles that hold for each pointee

---
 .../opt/alias-analyses/PointerObjectSet.cpp   | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
index 819e794..0679ba7 100644
--- a/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
+++ b/jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp
@@ -1462,6 +1462,28 @@ PointerObjectConstraintSet::PerformOfflineVariableSubstitution(bool storeRefCycl
     // The idea: Any pointee of p should be unified with a, if *p and a are in the same SCC
     // NOTE: We do not use equivalence set labels here, as they represent more than just cycles
 
+    // The edges *subset -> *superset only relate the unions of the points-to sets of all pointees.
+    // They say nothing about a single pointee, so cycles through them must not be collapsed.
+    const size_t derefNodeOffset = Set_.NumPointerObjects();
+    for (size_t node = derefNodeOffset; node < totalNodeCount; node++)
+    {
+      util::HashSet<PointerObjectIndex> regularSuccessors;
+      for (auto successor : successors[node].Items())
+      {
+        if (successor < derefNodeOffset)
+          regularSuccessors.insert(successor);
+      }
+      successors[node] = std::move(regularSuccessors);
+    }
+
+    sccIndex.clear();
+    reverseTopologicalOrder.clear();
+    numSccs = util::FindStronglyConnectedComponents<size_t>(
+        totalNodeCount,
+        GetSuccessors,
+        sccIndex,
+        reverseTopologicalOrder);
+
     // First find one unification root representing each SCC
     std::vector<std::optional<PointerObjectIndex>> unificationRootPerSCC(numSccs, std::nullopt);
     for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
@@ -1471,7 +1493,6 @@ PointerObjectConstraintSet::PerformOfflineVariableSubstitution(bool storeRefCycl
     }
 
     // Assign unification roots to ref nodes that belong to SCCs with at least one regular node
-    const size_t derefNodeOffset = Set_.NumPointerObjects();
     for (PointerObjectIndex i = 0; i < Set_.NumPointerObjects(); i++)
     {
       if (auto optRoot = unificationRootPerSCC[sccIndex[i + derefNodeOffset]])
-- 
2.43.0

