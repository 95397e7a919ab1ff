From 1a4a23e185a57f9fccfa539c7d3e2b30dc81e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 01/70] fix: evaluate binary operations in the linear constant
 analysis at their bit width

Unsigned division/remainder were computed as signed ones, the result was
reported although it does not fit into the operation's type (the machine
result wraps), and INT64_MIN % -1 crashed the analysis.
---
 .../Problems/IDELinearConstantAnalysis.cpp    | 57 +++++++++++++------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..31f4a7a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -41,7 +41,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/MathExtras.h"
 
-#include <limits>
+#include <algorithm>
 #include <memory>
 #include <utility>
 
@@ -95,9 +95,13 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
- * @return Result of binary operation
+ * @param BitWidth Width of the operands' integer type. The operands are given
+ * as sign-extended 64-bit values
+ * @return Result of binary operation, or BOTTOM, if it is undefined or does not
+ * fit into a signed integer of BitWidth bits
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned BitWidth) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -108,6 +112,13 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  auto CheckedResult = [BitWidth](int64_t Res) -> l_t {
+    if (BitWidth < 64 && !llvm::isIntN(BitWidth, Res)) {
+      return Bottom{};
+    }
+    return Res;
+  };
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
@@ -115,38 +126,47 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return CheckedResult(Res);
 
   case llvm::Instruction::Sub:
     if (llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return CheckedResult(Res);
 
   case llvm::Instruction::Mul:
     if (llvm::MulOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return CheckedResult(Res);
 
   case llvm::Instruction::UDiv:
-  case llvm::Instruction::SDiv:
-    if (Lop == std::numeric_limits<int64_t>::min() &&
-        Rop == -1) { // Would produce and overflow, as the complement of min is
-                     // not representable in a signed type.
+  case llvm::Instruction::URem: {
+    if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    if (Rop == 0) { // Division by zero is UB, so we return Bot
+    if (BitWidth > 64 && (Lop < 0 || Rop < 0)) {
+      // The unsigned operands are not representable in 64 bits
       return Bottom{};
     }
-    return Lop / Rop;
+    auto Width = std::min(BitWidth, 64U);
+    auto ULop = uint64_t(Lop) & llvm::maxUIntN(Width);
+    auto URop = uint64_t(Rop) & llvm::maxUIntN(Width);
+    auto URes = Op == llvm::Instruction::UDiv ? ULop / URop : ULop % URop;
+    return llvm::SignExtend64(URes, Width);
+  }
 
-  case llvm::Instruction::URem:
+  case llvm::Instruction::SDiv:
   case llvm::Instruction::SRem:
+    if (Lop == llvm::minIntN(std::min(BitWidth, 64U)) &&
+        Rop == -1) { // Would produce and overflow, as the complement of min is
+                     // not representable in a signed type.
+      return Bottom{};
+    }
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    return Lop % Rop;
+    return Op == llvm::Instruction::SDiv ? Lop / Rop : Lop % Rop;
 
   case llvm::Instruction::And:
     return Lop & Rop;
@@ -210,18 +230,21 @@ struct BinOp {
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 Lic->getBitWidth());
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(),
+                                 Ric->getBitWidth());
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source,
+                                 Lic->getBitWidth());
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From 5554d54a3d02a01961e9009910a05ecb30efed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 02/70] fix: do not treat unsigned saturating intrinsics as
 plain binary operations in the LCA

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 31f4a7a..02f575b 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -602,6 +602,12 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     }
 
     if (Curr == SuccNode && CurrNode != SuccNode) {
+      if (llvm::isa<llvm::SaturatingInst>(BinIntrinsic) &&
+          !BinIntrinsic->isSigned()) {
+        // The result of an unsigned saturating operation differs from the one
+        // of the plain binary operation without overflowing as signed integer
+        return AllBottom<l_t>{};
+      }
       return lca::BinOp{OP, Lop, Rop, CurrNode};
     }
   }
-- 
2.43.0


From 4d7293d9c8f1e4585aed462f8aa563d7fab59a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 03/70] fix: advance BitVectorSet iterators along the set's
 elements

operator+=, operator+ and operator- stepped through the shared element
universe (in hash order) instead of the elements of the set.
---
 include/phasar/Utils/BitVectorSet.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..d5444e9 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -95,7 +95,7 @@ private:
 
     BitVectorSetIterator<D> &operator+=(const difference_type &Movement) {
       for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
+        ++*this;
       }
       return *this;
     }
@@ -125,17 +125,17 @@ private:
     }
 
     BitVectorSetIterator<D> operator+(const difference_type &Movement) {
-      auto OldPtr = PosPtr;
-      for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
-      }
       auto Temp(*this);
-      PosPtr = OldPtr;
+      Temp += Movement;
       return Temp;
     }
 
     difference_type operator-(const BitVectorSetIterator<D> &OtherIterator) {
-      return std::distance(OtherIterator.getPtr(), this->getPtr());
+      difference_type Dist = 0;
+      for (auto It = OtherIterator; It != *this; ++It) {
+        ++Dist;
+      }
+      return Dist;
     }
 
     // T& operator*(){return pos_ptr->second;}
-- 
2.43.0


From 7d5913fb4af28914b3da07dabc94199cf736cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 04/70] fix: hash all empty BitVectorSets equally

A set that became empty by erasing its elements compares equal to a
default-constructed one, but had a different hash.
---
 include/phasar/Utils/BitVectorSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index d5444e9..c9ef8d9 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -304,7 +304,7 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
+    if (BV.empty()) {
       return {};
     }
     auto Words = BV.Bits.getData();
-- 
2.43.0


From c7aa3615d6f8ed54665c77d3db3df7f2da62e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 05/70] fix: joining a CSTDFILEIOState with itself yields that
 state

---
 .../TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
index c7cad79..9048450 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
@@ -40,7 +40,7 @@ template <> struct JoinLatticeTraits<CSTDFILEIOState> {
     if (L == top() || R == bottom()) {
       return R;
     }
-    if (L == bottom() || R == top()) {
+    if (L == bottom() || R == top() || L == R) {
       return L;
     }
     return bottom();
-- 
2.43.0


From 11c62fe68d217341d05f75bbe0f3093c6bfa0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 06/70] fix: joining two extended-taint edge values no longer
 depends on the order of the operands

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
index c7570f6..1faa1bc 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
@@ -103,7 +103,7 @@ EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
   }
   for (const auto *Succ : llvm::successors(Sani2->getParent())) {
     if (&Succ->front() == Sani1) {
-      return Sani2; // result from previous join
+      return Sani1; // result from previous join
     }
 
     if (Succs.count(&Succ->front())) {
-- 
2.43.0


From 4e4f8ec5584aa14f4f225ce52926a6cd357401d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 07/70] fix: joining two extended-taint sanitizers is
 independent of the operand order in loops and for branches to one block

---
 .../ExtendedTaintAnalysis/EdgeDomain.cpp         | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
index 1faa1bc..5756e74 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
@@ -94,30 +94,32 @@ EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
   }
 
   llvm::SmallPtrSet<const llvm::Instruction *, 2> Succs;
-  llvm::SmallVector<const llvm::Instruction *, 2> Intersection;
+  llvm::SmallPtrSet<const llvm::Instruction *, 2> Intersection;
   for (const auto *Succ : llvm::successors(Sani1->getParent())) {
-    if (&Succ->front() == Sani2) {
-      return Sani2; // result from previous join
-    }
     Succs.insert(&Succ->front());
   }
   for (const auto *Succ : llvm::successors(Sani2->getParent())) {
     if (&Succ->front() == Sani1) {
-      return Sani1; // result from previous join
+      // result from previous join -- unless both sanitizers precede each other
+      return Succs.count(Sani2) ? nullptr : Sani1;
     }
 
     if (Succs.count(&Succ->front())) {
-      Intersection.push_back(&Succ->front());
+      Intersection.insert(&Succ->front());
     }
   }
 
+  if (Succs.count(Sani2)) {
+    return Sani2; // result from previous join
+  }
+
   if (Intersection.size() == 1) {
     // Move the sanitizer to the first common
     // successor instruction. This is safe, since
     // the (tainted) Values from the branches
     // cannot be used after the merge point,
     // because they do not dominate the uses there.
-    return Intersection.front();
+    return *Intersection.begin();
   }
 
   // the only situation where this is possible is a while-
-- 
2.43.0


From fc9b789eeb697c4ace23d7b16e2f4ab5c213ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 08/70] fix: TransferEdgeFunctions with different loads are not
 equal

---
 .../Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
index 9e085a6..3b3464e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
@@ -34,7 +34,7 @@ auto TransferEdgeFunction::computeTarget(ByConstRef<l_t> Source) const -> l_t {
 
 bool operator==(const TransferEdgeFunction &LHS,
                 const TransferEdgeFunction &RHS) noexcept {
-  return LHS.To == RHS.To;
+  return LHS.Load == RHS.Load && LHS.To == RHS.To;
 }
 
 llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
-- 
2.43.0


From dd289f6260ab8d29c8360bc37daea6d325b5a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 09/70] fix: composing the all-sanitized edge function keeps
 the value the second function yields

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
index a071077..0f1dd67 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
@@ -1,6 +1,7 @@
 #include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.h"
 
 #include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
+#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/GenEdgeFunction.h"
 
 namespace psr::XTaint {
 
@@ -32,7 +33,7 @@ AllSanitized::compose(EdgeFunctionRef<AllSanitized> This,
   case EdgeDomain::Kind::Sanitized:
     return This;
   default:
-    return SecondFunction;
+    return GenEdgeFunction{Res};
   }
 }
 
-- 
2.43.0


From 0aa382214097a336f0f21be081b97796d583ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 10/70] fix: constant extended-taint edge functions can hold
 the sanitized value

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h   | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h
index c246c57..f8b5e00 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h
@@ -94,14 +94,6 @@ public:
 } // namespace psr::XTaint
 
 namespace psr {
-template <> struct NonTopBotValue<XTaint::EdgeDomain> {
-  using type = const llvm::Instruction *;
-
-  static type unwrap(XTaint::EdgeDomain Value) noexcept {
-    return Value.getSanitizer();
-  }
-};
-
 template <> struct JoinLatticeTraits<XTaint::EdgeDomain> {
   static constexpr auto bottom() noexcept { return Bottom{}; }
   static constexpr auto top() noexcept { return Top{}; }
-- 
2.43.0


From bb94e85afb7e49ad4a3cd99ef86a292675fb0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 11/70] fix: mapFactsToCallee must not pass a moved-from fact
 to the predicate

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..243abe8 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -158,7 +158,7 @@ mapFactsToCallee(const llvm::CallBase *CallSite, const llvm::Function *DestFun,
       Container Res;
       if (DestFunAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
-        Res.insert(std::move(Source));
+        Res.insert(Source);
       } else if (CSAndPropGlob.getInt() &&
                  !LLVMZeroValue::isLLVMZeroValue(Source) &&
                  llvm::isa<llvm::Constant>(Source)) {
@@ -166,7 +166,7 @@ mapFactsToCallee(const llvm::CallBase *CallSite, const llvm::Function *DestFun,
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
         // ConstantExpr and ConstantAggregate
-        Res.insert(std::move(Source));
+        Res.insert(Source);
       }
 
       const auto *CS = CSAndPropGlob.getPointer();
-- 
2.43.0


From 84dd8f937723da6b86b682eac34deaa3ce75b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 12/70] fix: mapFactsToCaller returned the zero fact although
 disabled

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index 243abe8..699c514 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From 686c528d02e27822790a778b5dbb6e0c0155fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:47 +0000
Subject: [PATCH 13/70] fix: StableVector::shrink_to_fit of an empty vector
 left dangling pointers

---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From 423a7d165e3f5559cd75bb0663e4a95cd1342b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 14/70] fix: CallStringCTX::operator< used a member that does
 not exist

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 2e835c6..098c4ff 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -65,7 +65,7 @@ public:
 
   friend bool operator<(const CallStringCTX<N, K> &Lhs,
                         const CallStringCTX<N, K> &Rhs) {
-    return Lhs.cs < Rhs.cs;
+    return Lhs.CallString < Rhs.CallString;
   }
 
   llvm::raw_ostream &print(llvm::raw_ostream &OS) const {
-- 
2.43.0


From 5b001eab8b64bc6af01dc3f22baee5539ad07cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 15/70] fix: CallStringCTX with limit 0 grew without bound

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 098c4ff..1fe2858 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -30,10 +30,10 @@ public:
   }
 
   void push_back(N Stmt) { // NOLINT
-    if (CallString.size() > KLimit - 1) {
+    CallString.push_back(Stmt);
+    if (CallString.size() > KLimit) {
       CallString.pop_front();
     }
-    CallString.push_back(Stmt);
   }
 
   N pop_back() { // NOLINT
-- 
2.43.0


From d0202e2560c18c7630fe2889f6c1bf05f447769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:05 +0000
Subject: [PATCH 16/70] fix: Table::column did not compile

---
 include/phasar/Utils/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/Utils/Table.h b/include/phasar/Utils/Table.h
index 24ac50a..d70be2f 100644
--- a/include/phasar/Utils/Table.h
+++ b/include/phasar/Utils/Table.h
@@ -124,8 +124,8 @@ public:
     // Returns a view of all mappings that have the given column key.
     std::unordered_map<R, V> Column;
     for (const auto &Row : Tab) {
-      if (Row.second.count(ColumnKey)) {
-        Column[Row.first] = Row.second[ColumnKey];
+      if (auto It = Row.second.find(ColumnKey); It != Row.second.end()) {
+        Column[Row.first] = It->second;
       }
     }
     return Column;
-- 
2.43.0


From 209498abcdc801cff59626ba91d0568037574d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:05 +0000
Subject: [PATCH 17/70] fix: JumpFunctions::removeFunction dropped all
 functions of the target from one view

---
 .../phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h b/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
index 85a80fe..55fbf80 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
@@ -195,7 +195,16 @@ public:
         Find != TargetValToFunc.end()) {
       TargetValToFunc.erase(Find);
     }
-    return NonEmptyLookupByTargetNode.erase(Target);
+    auto TargetIt = NonEmptyLookupByTargetNode.find(Target);
+    if (TargetIt == NonEmptyLookupByTargetNode.end() ||
+        !TargetIt->second.contains(SourceVal, TargetVal)) {
+      return false;
+    }
+    TargetIt->second.remove(SourceVal, TargetVal);
+    if (TargetIt->second.empty()) {
+      NonEmptyLookupByTargetNode.erase(TargetIt);
+    }
+    return true;
   }
 
   /**
-- 
2.43.0


From c295b6497094e97b98b40381a0d540f91fd0606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 18/70] fix: CallGraph::deserialize added edges for invalid
 call-site ids

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
-- 
2.43.0


From e83a5315873b842d5f7852d4d1a05e885bd4fca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 19/70] fix: InterMonoSolver skipped the remaining callees of a
 call site after a known one

---
 include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
index 0be77db..2c4afb8 100644
--- a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
+++ b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
@@ -95,7 +95,7 @@ protected:
     // Add inter- and intra-edges of callee(s)
     for (auto Callee : ICF->getCalleesOfCallAt(Src)) {
       if (AddedFunctions.find(Callee) != AddedFunctions.end()) {
-        break;
+        continue;
       }
       AddedFunctions.insert(Callee);
       // Add call Edge(s)
-- 
2.43.0


From 7070fcce68a2a124b1fae623a9ddcee8a32704e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 20/70] fix: InterMonoSolver::processExit overwrote facts of
 other return sites

---
 include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
index 2c4afb8..a054104 100644
--- a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
+++ b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
@@ -333,7 +333,6 @@ public:
                        Analysis[RetSite][CTXRm].end());
           Merge.insert(Out[CTXRm].begin(), Out[CTXRm].end());
           Analysis[RetSite][CTXRm] = Merge;
-          Analysis[Dst][CTXRm] = Merge;
           // IMProblem.merge(Analysis[RetSite][CTXRm], Out[CTXRm]);
           llvm::outs() << "Merged to: ";
           IMProblem.printContainer(llvm::outs(), Merge);
-- 
2.43.0


From 927a952a89b6870e1be16e33608e905a21162686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 21/70] fix: SolverResults::resultAt reported the default value
 for unreachable facts

Facts without an entry are implicitly top. For BinaryDomain, the
default-constructed value is BOTTOM, so IFDS results claimed that every
unreachable fact holds.
---
 include/phasar/DataFlow/IfdsIde/SolverResults.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/phasar/DataFlow/IfdsIde/SolverResults.h b/include/phasar/DataFlow/IfdsIde/SolverResults.h
index 65da6d5..91cc0f7 100644
--- a/include/phasar/DataFlow/IfdsIde/SolverResults.h
+++ b/include/phasar/DataFlow/IfdsIde/SolverResults.h
@@ -19,6 +19,7 @@
 
 #include "phasar/Domain/BinaryDomain.h"
 #include "phasar/Utils/ByRef.h"
+#include "phasar/Utils/JoinLattice.h"
 #include "phasar/Utils/PAMMMacros.h"
 #include "phasar/Utils/Printer.h"
 #include "phasar/Utils/Table.h"
@@ -48,6 +49,14 @@ public:
 
   [[nodiscard]] ByConstRef<l_t> resultAt(ByConstRef<n_t> Stmt,
                                          ByConstRef<d_t> Node) const {
+    if constexpr (HasJoinLatticeTraits<l_t>) {
+      // Facts that are not reachable at Stmt are implicitly top, which does not
+      // need to be the default-constructed value
+      if (!self().Results.contains(Stmt, Node)) {
+        static const l_t Top = JoinLatticeTraits<l_t>::top();
+        return Top;
+      }
+    }
     return self().Results.get(Stmt, Node);
   }
 
-- 
2.43.0


From 125b3a1efef618705a247e6f6fa3c65a81496390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 22/70] fix: ExplodedSuperGraph::saveEdges used the source fact
 after moving it away

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..80b45a4 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -193,7 +193,7 @@ public:
   template <typename Container>
   void saveEdges(n_t Curr, d_t CurrNode, n_t Succ, const Container &SuccNodes,
                  ESGEdgeKind Kind) {
-    auto PredId = getNodeIdOrNull(Curr, std::move(CurrNode));
+    auto PredId = getNodeIdOrNull(Curr, CurrNode);
 
     /// The Identity CTR-flow on the zero-value has no meaning at all regarding
     /// path sensitivity, so skip it
-- 
2.43.0


From 69e9892908368426bc871c625ae330622b764bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 23/70] fix: ExplodedSuperGraph asserted on call-to-return
 edges that start at a seed

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index 80b45a4..abaf289 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -316,7 +316,6 @@ private:
     if (MaySkipEdge && SuccNode == CurrNode) {
       // This CTR edge carries no information, so skip it.
       // We still want to create the destination node for the ret-FF later
-      assert(PredId);
       if (Inserted) {
         SuccVtxNode = makeNode();
         NodeAdjOwner.back().PredecessorIdx = Node::NoPredId;
-- 
2.43.0


From 792d3335a8fea3597e0438b49924f15f5501bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 24/70] fix: ExplodedSuperGraph stored seeds under a vertex
 that holds another fact

---
 .../DataFlow/PathSensitivity/ExplodedSuperGraph.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index abaf289..ee4e200 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -201,6 +201,17 @@ public:
     for (const d_t &SuccNode : SuccNodes) {
       saveEdge(PredId, Curr, CurrNode, Succ, SuccNode, MaySkipEdge);
     }
+
+    if (!PredId) {
+      // For the seeds that are not preserved: The FlowFactVertexMap still needs
+      // a node for them, which must hold their own value
+      auto [It, Inserted] = FlowFactVertexMap.try_emplace(
+          std::make_pair(Curr, CurrNode), NodeDataOwner.size());
+      if (Inserted) {
+        NodeDataOwner.push_back(NodeData{CurrNode, Curr});
+        NodeAdjOwner.emplace_back();
+      }
+    }
   }
 
   // NOLINTNEXTLINE(readability-identifier-naming)
@@ -301,10 +312,10 @@ private:
       auto &NodAdj = NodeAdjOwner.emplace_back();
       NodData.Value = SuccNode;
 
-      if (!PredId) {
+      if (!PredId && SuccNode == CurrNode) {
         // For the seeds: Just that the FlowFactVertexMap is filled at that
         // position...
-        FlowFactVertexMap[std::make_pair(Curr, CurrNode)] = Ret;
+        FlowFactVertexMap.try_emplace(std::make_pair(Curr, CurrNode), Ret);
       }
 
       NodAdj.PredecessorIdx = PredId.value_or(Node::NoPredId);
-- 
2.43.0


From 03f15bf126aab489d86a6a0128972f3bb7f4bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 25/70] fix: ExplodedSuperGraph::nodes() did not compile,
 getNumNeighbors() returned a bool

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index ee4e200..cc3bdb6 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -98,7 +98,7 @@ public:
       return !Owner->NodeAdjOwner[NodeId].Neighbors.empty();
     }
 
-    [[nodiscard]] bool getNumNeighbors() const noexcept {
+    [[nodiscard]] size_t getNumNeighbors() const noexcept {
       assert(*this);
       return Owner->NodeAdjOwner[NodeId].Neighbors.size();
     }
@@ -146,6 +146,8 @@ public:
   };
 
   class BuildNodeRef {
+    friend ExplodedSuperGraph;
+
   public:
     [[nodiscard]] NodeRef operator()(size_t NodeId) const noexcept {
       return NodeRef(NodeId, Owner);
-- 
2.43.0


From cfbc6e013895e7ed08477c3e5545fea3ca0bab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 26/70] fix: ExplodedSuperGraph cut vertices off from all roots
 when a loop leads back to a root

---
 .../PathSensitivity/ExplodedSuperGraph.h      | 38 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index cc3bdb6..2674117 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -18,9 +18,11 @@
 #include "phasar/Utils/Utilities.h"
 
 #include "llvm/ADT/DenseMapInfo.h"
+#include "llvm/ADT/DenseSet.h"
 #include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/Sequence.h"
 #include "llvm/ADT/SmallPtrSet.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/TinyPtrVector.h"
 #include "llvm/ADT/iterator_range.h"
 #include "llvm/IR/Instructions.h"
@@ -296,6 +298,37 @@ private:
     return std::nullopt;
   }
 
+  /// Whether a walk over predecessors and neighbors, starting at StartId, can
+  /// arrive at a root other than RootId, i.e. whether RootId may be connected to
+  /// the predecessor StartId without cutting off nodes from all roots.
+  [[nodiscard]] bool reachesOtherRoot(std::optional<size_t> StartId,
+                                      size_t RootId) const {
+    if (!StartId) {
+      return true;
+    }
+
+    llvm::SmallDenseSet<size_t> Visited{*StartId};
+    llvm::SmallVector<size_t> WorkList{*StartId};
+    while (!WorkList.empty()) {
+      auto NodeId = WorkList.pop_back_val();
+      const auto &Adj = NodeAdjOwner[NodeId];
+
+      if (Adj.PredecessorIdx != Node::NoPredId) {
+        if (Visited.insert(Adj.PredecessorIdx).second) {
+          WorkList.push_back(Adj.PredecessorIdx);
+        }
+      } else if (NodeId != RootId) {
+        return true;
+      }
+      for (auto NBIdx : Adj.Neighbors) {
+        if (Visited.insert(NBIdx).second) {
+          WorkList.push_back(NBIdx);
+        }
+      }
+    }
+    return false;
+  }
+
   void saveEdge(std::optional<size_t> PredId, n_t Curr, d_t CurrNode, n_t Succ,
                 d_t SuccNode, bool MaySkipEdge) {
     auto [SuccVtxIt, Inserted] = FlowFactVertexMap.try_emplace(
@@ -358,9 +391,10 @@ private:
     }
 
     // Node has already been created, but MaySkipEdge above prevented us from
-    // connecting with the pred. Now, we have a non-skippable edge to connect to
+    // connecting with the pred. Now, we have a non-skippable edge to connect to.
+    // Stay a root, if all paths from the pred lead back here (loops).
     NodeRef SuccVtx(SuccVtxNode, this);
-    if (!SuccVtx.predecessor()) {
+    if (!SuccVtx.predecessor() && reachesOtherRoot(PredId, SuccVtxNode)) {
       NodeAdjOwner[SuccVtxNode].PredecessorIdx =
           PredId.value_or(Node::NoPredId);
       NodeDataOwner[SuccVtxNode].Source = Curr;
-- 
2.43.0


From 4248c02c375a10d17cb30f01b6ac9a0f146fe370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:51 +0000
Subject: [PATCH 27/70] fix: IDEInstInteractionAnalysis joined the identity
 with all-top to all-top

---
 .../DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
index b4410d1..2bcabb5 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
@@ -1064,7 +1064,8 @@ public:
   EdgeFunction<l_t> combine(const EdgeFunction<l_t> &FirstFunction,
                             const EdgeFunction<l_t> &OtherFunction) override {
     /// XXX: Here, we underapproximate joins with EdgeIdentity
-    if (llvm::isa<EdgeIdentity<l_t>>(FirstFunction)) {
+    if (llvm::isa<EdgeIdentity<l_t>>(FirstFunction) &&
+        !llvm::isa<AllTop<l_t>>(OtherFunction)) {
       return OtherFunction;
     }
     if (llvm::isa<EdgeIdentity<l_t>>(OtherFunction) &&
-- 
2.43.0


From ecbc901dfa166408cbb6bd86158928f7bb94c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 28/70] fix: IDEInstInteractionAnalysis never recognized the
 callee's sret parameter

---
 .../IfdsIde/Problems/IDEInstInteractionAnalysis.h    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
index 2bcabb5..e1ab151 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
@@ -48,6 +48,7 @@
 #include "llvm/Support/raw_os_ostream.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <functional>
 #include <initializer_list>
 #include <map>
@@ -813,14 +814,15 @@ public:
   }
 
   inline EdgeFunctionType getCallEdgeFunction(n_t CallSite, d_t SrcNode,
-                                              f_t /* DestinationMethod */,
+                                              f_t DestinationMethod,
                                               d_t DestNode) override {
     // Handle the case in which a parameter that has been artificially
     // introduced by the compiler is passed. Such a value must be generated from
     // the zero value, to reflact the fact that the data flows from the callee
     // to the caller (at least) according to the source code.
     //
-    // Let a_i be an argument that is annotated by the sret attribute.
+    // Let a_i be the formal parameter for an argument that is annotated by the
+    // sret attribute.
     //
     // 0 --> a_i
     //
@@ -834,9 +836,11 @@ public:
     //
     std::set<d_t> SRetParams;
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
-    for (unsigned Idx = 0; Idx < CS->arg_size(); ++Idx) {
+    for (unsigned Idx = 0, End = std::min<unsigned>(
+                               CS->arg_size(), DestinationMethod->arg_size());
+         Idx < End; ++Idx) {
       if (CS->paramHasAttr(Idx, llvm::Attribute::StructRet)) {
-        SRetParams.insert(CS->getArgOperand(Idx));
+        SRetParams.insert(DestinationMethod->getArg(Idx));
       }
     }
     if (isZeroValue(SrcNode) && SRetParams.count(DestNode)) {
-- 
2.43.0


From 1772feccfca2444f03baeeb7c49bbb3b91674fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:28 +0000
Subject: [PATCH 29/70] fix: minimizeGraph never merged nodes with three or
 more differently ordered edges

---
 include/phasar/Utils/DFAMinimizer.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/phasar/Utils/DFAMinimizer.h b/include/phasar/Utils/DFAMinimizer.h
index 9c08a3b..d8cfea0 100644
--- a/include/phasar/Utils/DFAMinimizer.h
+++ b/include/phasar/Utils/DFAMinimizer.h
@@ -18,6 +18,8 @@
 #include "llvm/ADT/SmallBitVector.h"
 #include "llvm/ADT/SmallVector.h"
 
+#include <algorithm>
+
 namespace psr {
 
 template <typename GraphTy>
@@ -175,6 +177,17 @@ template <typename GraphTy>
           Changed = true;
           continue;
         }
+      } else if (traits_t::outDegree(G, LHS) > 2) {
+        // The transitions may come in any order here as well
+        const auto &LEdges = traits_t::outEdges(G, LHS);
+        const auto &REdges = traits_t::outEdges(G, RHS);
+        if (std::is_permutation(LEdges.begin(), LEdges.end(), REdges.begin(),
+                                REdges.end(), isEquivalent)) {
+          makeEquivalent(LHS, RHS);
+          I = removeAt(I);
+          Changed = true;
+          continue;
+        }
       }
     }
   }
-- 
2.43.0


From 6cd6424f4400b6efb45d99ce0f7ef1eb1df47bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 30/70] fix: EdgeValue subtracted the left operand from itself

---
 .../DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 93e4089..1309cc6 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -266,7 +266,7 @@ EdgeValue operator-(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   switch (Lhs.VariantType) {
   case EdgeValue::Integer:
     return {std::get<llvm::APInt>(Lhs.ValVariant) -
-            std::get<llvm::APInt>(Lhs.ValVariant)};
+            std::get<llvm::APInt>(Rhs.ValVariant)};
   case EdgeValue::FloatingPoint:
     return {std::get<llvm::APFloat>(Lhs.ValVariant) -
             std::get<llvm::APFloat>(Rhs.ValVariant)};
-- 
2.43.0


From d6145194230fa690d5b7754f06885a97988b1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 31/70] fix: EdgeValue divided by a constant zero

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 1309cc6..69e03b0 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -297,6 +297,9 @@ EdgeValue operator/(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   }
   switch (Lhs.VariantType) {
   case EdgeValue::Integer:
+    if (std::get<llvm::APInt>(Rhs.ValVariant).isZero()) {
+      return {nullptr};
+    }
     return {std::get<llvm::APInt>(Lhs.ValVariant)
                 .sdiv(std::get<llvm::APInt>(Rhs.ValVariant))};
   case EdgeValue::FloatingPoint:
@@ -313,6 +316,9 @@ EdgeValue operator%(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   }
   switch (Lhs.VariantType) {
   case EdgeValue::Integer:
+    if (std::get<llvm::APInt>(Rhs.ValVariant).isZero()) {
+      return {nullptr};
+    }
     return {std::get<llvm::APInt>(Lhs.ValVariant)
                 .srem(std::get<llvm::APInt>(Rhs.ValVariant))};
   case EdgeValue::FloatingPoint: {
@@ -549,6 +555,9 @@ EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
     }
     switch (VariantType) {
     case EdgeValue::Integer:
+      if (std::get<llvm::APInt>(Other.ValVariant).isZero()) {
+        return {nullptr};
+      }
       return {std::get<llvm::APInt>(ValVariant)
                   .udiv(std::get<llvm::APInt>(Other.ValVariant))};
     default:
@@ -561,6 +570,9 @@ EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
     }
     switch (VariantType) {
     case EdgeValue::Integer:
+      if (std::get<llvm::APInt>(Other.ValVariant).isZero()) {
+        return {nullptr};
+      }
       return {std::get<llvm::APInt>(ValVariant)
                   .urem(std::get<llvm::APInt>(Other.ValVariant))};
     default:
-- 
2.43.0


From 0e59cd6cd6055b4b2534d717e153b18be112760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 32/70] fix: EdgeValue::typecast kept the bit width of integers

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp         | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 69e03b0..d182568 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -477,10 +477,7 @@ EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
   case Integer:
     switch (VariantType) {
     case Integer:
-      if (std::get<llvm::APInt>(ValVariant).getBitWidth() <= Bits) {
-        return *this;
-      }
-      return {std::get<llvm::APInt>(ValVariant) & ((1 << Bits) - 1)};
+      return {std::get<llvm::APInt>(ValVariant).sextOrTrunc(Bits)};
     case FloatingPoint: {
       bool Unused;
       llvm::APSInt Ai(Bits);
-- 
2.43.0


From 3d7934e2e28e963dcd4c919768ffa06e4246b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 33/70] fix: EdgeValue::typecast rounded and dropped the sign
 when casting to integer

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index d182568..1732d20 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -480,11 +480,16 @@ EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
       return {std::get<llvm::APInt>(ValVariant).sextOrTrunc(Bits)};
     case FloatingPoint: {
       bool Unused;
-      llvm::APSInt Ai(Bits);
+      llvm::APSInt Ai(Bits, /*isUnsigned*/ false);
 
-      std::get<llvm::APFloat>(ValVariant)
-          .convertToInteger(Ai, llvm::APFloat::roundingMode::NearestTiesToEven,
+      auto Status = std::get<llvm::APFloat>(ValVariant)
+                        .convertToInteger(
+                            Ai, llvm::APFloat::roundingMode::TowardZero,
                             &Unused);
+      if (Status == llvm::APFloat::opInvalidOp) {
+        // not representable as signed integer of this width
+        return {nullptr};
+      }
 
       return {Ai};
     }
-- 
2.43.0


From 41a2bd2f09a8aafcfb6f2358759e75d36345e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 34/70] fix: EdgeValue computed the IEEE remainder for frem

---
 .../DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 1732d20..441796b 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -323,7 +323,7 @@ EdgeValue operator%(const EdgeValue &Lhs, const EdgeValue &Rhs) {
                 .srem(std::get<llvm::APInt>(Rhs.ValVariant))};
   case EdgeValue::FloatingPoint: {
     llvm::APFloat Fl = std::get<llvm::APFloat>(Lhs.ValVariant);
-    Fl.remainder(std::get<llvm::APFloat>(Rhs.ValVariant));
+    Fl.mod(std::get<llvm::APFloat>(Rhs.ValVariant));
     return {std::move(Fl)};
   }
   default:
-- 
2.43.0


From cefaeca8f5ab5a3f379f897264cb5769281f096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 35/70] fix: EdgeValue mixed integers of different or large bit
 widths

---
 .../Problems/IDEGeneralizedLCA/EdgeValue.cpp  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 441796b..2adb32c 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -161,7 +161,11 @@ bool EdgeValue::tryGetInt(int64_t &Res) const {
   if (VariantType != Integer) {
     return false;
   }
-  Res = std::get<llvm::APInt>(ValVariant).getSExtValue();
+  const auto &Val = std::get<llvm::APInt>(ValVariant);
+  if (Val.getMinSignedBits() > 64) {
+    return false;
+  }
+  Res = Val.getSExtValue();
   return true;
 }
 
@@ -212,9 +216,12 @@ bool operator==(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   switch (Lhs.VariantType) {
   case EdgeValue::Top:
     return true;
-  case EdgeValue::Integer:
-    return std::get<llvm::APInt>(Lhs.ValVariant) ==
-           std::get<llvm::APInt>(Rhs.ValVariant);
+  case EdgeValue::Integer: {
+    const auto &L = std::get<llvm::APInt>(Lhs.ValVariant);
+    const auto &R = std::get<llvm::APInt>(Rhs.ValVariant);
+    auto Width = std::max(L.getBitWidth(), R.getBitWidth());
+    return L.sextOrTrunc(Width) == R.sextOrTrunc(Width);
+  }
   case EdgeValue::FloatingPoint: {
     auto Cp = std::get<llvm::APFloat>(Lhs.ValVariant)
                   .compare(std::get<llvm::APFloat>(Rhs.ValVariant));
@@ -515,6 +522,11 @@ EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
 
 EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
                                   const EdgeValue &Other) const {
+  if (VariantType == Integer && Other.VariantType == Integer &&
+      std::get<llvm::APInt>(ValVariant).getBitWidth() !=
+          std::get<llvm::APInt>(Other.ValVariant).getBitWidth()) {
+    return {nullptr};
+  }
   switch (Op) {
   case llvm::BinaryOperator::BinaryOps::Add:
   case llvm::BinaryOperator::BinaryOps::FAdd:
-- 
2.43.0


From 7e77b597b7bcb2d45068ef9019c66a776b036bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 36/70] fix: equal floating-point EdgeValues got different
 hashes

---
 .../DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h | 6 ++----
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp        | 6 ++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h
index 783698c..defd6c2 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h
@@ -118,14 +118,12 @@ template <> struct hash<psr::glca::EdgeValue> {
   size_t operator()(const psr::glca::EdgeValue &Val) const {
     auto Hash = hash<int>()(Val.getKind());
     int64_t AsInt;
-    double AsFloat;
     string AsString;
     if (Val.tryGetInt(AsInt)) {
       return hash<int64_t>()(AsInt) * 31 + Hash;
     }
-    if (Val.tryGetFP(AsFloat)) {
-      return hash<double>()(round(AsFloat)) * 31 + Hash;
-    }
+    // Floating-point values compare approximately, so close values must not
+    // get different hashes
     if (Val.tryGetString(AsString)) {
       return hash<string>()(AsString) * 31 + Hash;
     }
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 2adb32c..acb8bdc 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -228,6 +228,12 @@ bool operator==(const EdgeValue &Lhs, const EdgeValue &Rhs) {
     if (Cp == llvm::APFloat::cmpResult::cmpEqual) {
       return true;
     }
+    if (std::get<llvm::APFloat>(Lhs.ValVariant).isNaN() ||
+        std::get<llvm::APFloat>(Rhs.ValVariant).isNaN()) {
+      // As set elements, NaNs need to be equal to themselves
+      return std::get<llvm::APFloat>(Lhs.ValVariant).isNaN() &&
+             std::get<llvm::APFloat>(Rhs.ValVariant).isNaN();
+    }
     auto D1 = std::get<llvm::APFloat>(Lhs.ValVariant).convertToDouble();
     auto D2 = std::get<llvm::APFloat>(Rhs.ValVariant).convertToDouble();
 
-- 
2.43.0


From fe6fe32043973801c9d5208f8443face46608bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 37/70] fix: EdgeValue(float) created incomparable values

---
 .../DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index acb8bdc..cd6d900 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -149,7 +149,8 @@ EdgeValue::EdgeValue(double Double) : VariantType(EdgeValue::FloatingPoint) {
 }
 
 EdgeValue::EdgeValue(float Float) : VariantType(EdgeValue::FloatingPoint) {
-  ValVariant = llvm::APFloat(Float);
+  // All values use the same semantics, see the other constructors
+  ValVariant = llvm::APFloat(double(Float));
 }
 
 EdgeValue::EdgeValue(std::string &&Vs) : VariantType(EdgeValue::String) {
-- 
2.43.0


From 56b6875629a591c373c8ed88b99f9b6954fda055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 38/70] fix: EdgeValue destroyed its value twice and on
 self-assignment before copying it

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index cd6d900..273e72e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -111,13 +111,9 @@ EdgeValue::EdgeValue(const EdgeValue &Ev) : VariantType(Ev.VariantType) {
   }
 }
 
-EdgeValue &EdgeValue::operator=(const EdgeValue &Ev) {
-  this->~EdgeValue();
-  new (this) EdgeValue(Ev);
-  return *this;
-}
+EdgeValue &EdgeValue::operator=(const EdgeValue &Ev) = default;
 
-EdgeValue::~EdgeValue() { ValVariant.~variant(); }
+EdgeValue::~EdgeValue() = default;
 
 EdgeValue::EdgeValue(llvm::APInt &&Vi) : VariantType(EdgeValue::Integer) {
   ValVariant = llvm::APInt(std::move(Vi));
-- 
2.43.0


From 54a9c35f706931d105405d51a79e61db99921f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 39/70] fix: EdgeValue crashed on constants other than literals

---
 .../Problems/IDEGeneralizedLCA/EdgeValue.cpp  | 43 ++++++++++---------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 273e72e..e942cac 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -55,34 +55,35 @@ const EdgeValue EdgeValue::TopValue = EdgeValue(nullptr);
 EdgeValue::EdgeValue(const llvm::Value *Val) : VariantType(Top) {
   if (const auto *Const = llvm::dyn_cast<llvm::Constant>(Val)) {
     if (Const->getType()->isIntegerTy()) {
-      VariantType = Integer;
-      ValVariant =
-          llvm::APInt(llvm::cast<llvm::ConstantInt>(Const)->getValue());
+      // may be undef or a constant expression as well
+      if (const auto *ConstInt = llvm::dyn_cast<llvm::ConstantInt>(Const)) {
+        VariantType = Integer;
+        ValVariant = llvm::APInt(ConstInt->getValue());
+      }
     } else if (Const->getType()->isFloatingPointTy()) {
-      VariantType = FloatingPoint;
-      const auto &ConstFP = llvm::cast<llvm::ConstantFP>(Const)->getValueAPF();
-
-      llvm::APFloat Apf(ConstFP);
-      bool Unused;
-      Apf.convert(llvm::APFloat::IEEEdouble(),
-                  llvm::APFloat::roundingMode::NearestTiesToEven, &Unused);
-      ValVariant = llvm::APFloat(Apf);
+      if (const auto *ConstFP = llvm::dyn_cast<llvm::ConstantFP>(Const)) {
+        VariantType = FloatingPoint;
+        llvm::APFloat Apf(ConstFP->getValueAPF());
+        bool Unused;
+        Apf.convert(llvm::APFloat::IEEEdouble(),
+                    llvm::APFloat::roundingMode::NearestTiesToEven, &Unused);
+        ValVariant = llvm::APFloat(Apf);
+      }
     } else if (llvm::isa<llvm::ConstantPointerNull>(Const)) {
       VariantType = String;
       ValVariant = std::string();
     } else if (const auto *Gep = llvm::dyn_cast<llvm::GEPOperator>(Const);
                Gep && Gep->getResultElementType()->isIntegerTy()) {
-      VariantType = String;
+      // may point to something else than a string literal as well
       if (const auto *Glob =
-              llvm::dyn_cast<llvm::GlobalVariable>(Gep->getPointerOperand())) {
-        ValVariant = std::string(
-            llvm::cast<llvm::ConstantDataArray>(Glob->getInitializer())
-                ->getAsCString()
-                .str());
-      } else {
-        // inttoptr
-        ValVariant = nullptr;
-        VariantType = Top;
+              llvm::dyn_cast<llvm::GlobalVariable>(Gep->getPointerOperand());
+          Glob && Glob->hasInitializer()) {
+        if (const auto *Data = llvm::dyn_cast<llvm::ConstantDataArray>(
+                Glob->getInitializer());
+            Data && Data->isCString()) {
+          VariantType = String;
+          ValVariant = Data->getAsCString().str();
+        }
       }
     } else {
       Val = nullptr;
-- 
2.43.0


From 41a98e297e55c545caa68d79a0f039c0fda69c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 40/70] fix: joining a too large constant set with a smaller
 one did not bound it

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index e942cac..c24c0d4 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -667,10 +667,10 @@ ev_t join(const ev_t &Lhs, const ev_t &Rhs, size_t MaxSize) {
 
   for (const auto &Elem : Rhs) {
     Ret.insert(Elem);
-    if (Ret.size() > MaxSize) {
-      // llvm::outs() << "\t=> <TOP>" << std::endl;
-      return {{nullptr}};
-    }
+  }
+  if (Ret.size() > MaxSize) {
+    // llvm::outs() << "\t=> <TOP>" << std::endl;
+    return {{nullptr}};
   }
   // llvm::outs() << "\t=> " << ret << std::endl;
 
-- 
2.43.0


From af3ad6a1889ee3e7c65f29c43b5476d60eb28e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:03 +0000
Subject: [PATCH 41/70] fix: LLVMAliasSet::mergeWith did not merge sets that
 alias in the other one

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 26 +++++--------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..9380dcc 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -656,28 +656,12 @@ void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
   AnalyzedFunctions.insert(OtherPTI.AnalyzedFunctions.begin(),
                            OtherPTI.AnalyzedFunctions.end());
   // merge points-to sets
-  for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
+  for (const AliasSetTy *Set : OtherPTI.Owner.getAllAliasSets()) {
+    // The pointers of Set may already be spread over several sets here. All of
+    // them alias each other now
     for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
-      }
-    }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
+      addSingletonAliasSet(ElemPtr);
+      mergeAliasSets(*Set->begin(), ElemPtr);
     }
   }
 }
-- 
2.43.0


From bb639adfb15f90510230af1e828298b2449babfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 42/70] fix: LLVMBasedBackwardCFG::getPredsOf crashed on the
 virtual return

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..39ea483 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -40,9 +40,7 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
   if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+    return this->base_t::getStartPointsOfImpl(getFunctionOfImpl(Inst));
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
-- 
2.43.0


From a1ca14db933a59060325e1f2d3eb50a249fee093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 43/70] fix: LLVMBasedBackwardCFG::getExitPointsOf returned a
 null statement for unknown functions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 39ea483..4331a2b 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -95,9 +95,13 @@ auto LLVMBasedBackwardCFG ::getStartPointsOfImpl(f_t Fun) const
 
 auto LLVMBasedBackwardCFG ::getExitPointsOfImpl(f_t Fun) const
     -> llvm::SmallVector<n_t, 2> {
-  return BackwardRets.empty()
-             ? this->base_t::getStartPointsOfImpl(Fun)
-             : llvm::SmallVector<n_t, 2>{BackwardRets.lookup(Fun)};
+  if (BackwardRets.empty()) {
+    return this->base_t::getStartPointsOfImpl(Fun);
+  }
+  if (const auto *BRet = BackwardRets.lookup(Fun)) {
+    return {BRet};
+  }
+  return {};
 }
 
 bool LLVMBasedBackwardCFG ::isExitInstImpl(n_t Inst) const noexcept {
-- 
2.43.0


From 2273478be8c025814574b853bcf1bc7990f7e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 44/70] fix: LLVMBasedBackwardCFG::getAllControlFlowEdges
 ignored only some debug instructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 4331a2b..71cc739 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -69,13 +70,8 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
-- 
2.43.0


From 138aae323b1145566e74f1021e9ca4421f4397d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 45/70] fix: LLVMBasedBackwardCFG::getAllControlFlowEdges
 listed the edges of the forward view

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 71cc739..f8d90b5 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -77,7 +77,7 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From d2dc9d92de9e0bda863b412db5221c80474a9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 46/70] fix: LLVMBasedCFG::isStartPoint did not respect
 IgnoreDbgInstructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..44fbf1d 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -170,7 +170,8 @@ bool detail::LLVMBasedCFGImpl<Derived>::isStartPointImpl(
   if (Inst == FirstInst) {
     return true;
   }
-  return llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
+  return IgnoreDbgInstructions &&
+         llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
          Inst == FirstInst->getNextNonDebugInstruction(false);
 }
 
-- 
2.43.0


From 9935689520a8b5ff4114e21019ff81b43b0e11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:34 +0000
Subject: [PATCH 47/70] fix: LLVMBasedCFG::getPredsOf did not skip the
 already-initialized edges that getSuccsOf skips

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 22 ++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 44fbf1d..334e24d 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -48,17 +48,17 @@ auto detail::LLVMBasedCFGImpl<Derived>::getPredsOfImpl(n_t I) const
   // lead to our instruction in question!
 
   llvm::SmallVector<n_t, 2> Preds;
-  std::transform(llvm::pred_begin(I->getParent()),
-                 llvm::pred_end(I->getParent()), std::back_inserter(Preds),
-                 [](const llvm::BasicBlock *BB) {
-                   assert(BB && "BB under analysis was not well formed.");
-                   const llvm::Instruction *Pred = BB->getTerminator();
-                   if (llvm::isa<llvm::DbgInfoIntrinsic>(Pred)) {
-                     Pred = Pred->getPrevNonDebugInstruction(
-                         false /*Only debug instructions*/);
-                   }
-                   return Pred;
-                 });
+  for (const auto *BB : llvm::predecessors(I->getParent())) {
+    assert(BB && "BB under analysis was not well formed.");
+    const llvm::Instruction *Pred = BB->getTerminator();
+    if (const auto *Branch = llvm::dyn_cast<llvm::BranchInst>(Pred);
+        Branch && Branch->getSuccessor(0) != I->getParent() &&
+        isStaticVariableLazyInitializationBranch(Branch)) {
+      // getSuccsOf skips the "already initialized" case
+      continue;
+    }
+    Preds.push_back(Pred);
+  }
 
   return Preds;
 }
-- 
2.43.0


From e7c99df3457acbf7643a08188085b3dfc075b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:34 +0000
Subject: [PATCH 48/70] fix: isBranchTarget missed targets behind debug
 instructions, and switches in the backward view

---
 .../ControlFlow/LLVMBasedBackwardCFG.cpp          |  9 +--------
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp       | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index f8d90b5..eab1529 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -116,14 +116,7 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
-  }
-  return false;
+  return this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 334e24d..dad2328 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -24,6 +24,15 @@
 
 namespace psr {
 
+static const llvm::Instruction *firstInstOf(const llvm::BasicBlock *BB,
+                                            bool IgnoreDbgInstructions) {
+  const auto *Inst = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(Inst)) {
+    return Inst->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return Inst;
+}
+
 template <typename Derived>
 auto detail::LLVMBasedCFGImpl<Derived>::getFunctionOfImpl(
     n_t Inst) const noexcept -> f_t {
@@ -205,9 +214,9 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
     if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
+      return firstInstOf(B->getSuccessor(1), IgnoreDbgInstructions) == Succ;
     }
-    return &B->getSuccessor(0)->front() == Succ;
+    return firstInstOf(B->getSuccessor(0), IgnoreDbgInstructions) == Succ;
   }
   return false;
 }
@@ -217,7 +226,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (firstInstOf(BB, IgnoreDbgInstructions) == Succ) {
         return true;
       }
     }
-- 
2.43.0


From f5022b59bf1dd7fa9c0cc55dac2290c0bfe14649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:16 +0000
Subject: [PATCH 49/70] fix: LLVMBasedBackwardICFG::allNonCallStartNodes left
 out the forward start points

---
 .../ControlFlow/LLVMBasedBackwardICFG.cpp          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
index f029a39..62fcf89 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
@@ -10,6 +10,9 @@
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
 
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
+#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
+
+#include "llvm/IR/InstrTypes.h"
 
 namespace psr {
 LLVMBasedBackwardICFG::LLVMBasedBackwardICFG(LLVMBasedICFG *ForwardICFG)
@@ -37,7 +40,16 @@ bool LLVMBasedBackwardICFG::isVirtualFunctionCallImpl(n_t Inst) const {
 
 auto LLVMBasedBackwardICFG::allNonCallStartNodesImpl() const
     -> std::vector<n_t> {
-  return ForwardICFG->allNonCallStartNodes();
+  // The start points of the forward view are not the ones of this view
+  std::vector<n_t> NonCallStartNodes;
+  const auto *IRDB = ForwardICFG->getIRDB();
+  NonCallStartNodes.reserve(2 * IRDB->getNumFunctions());
+  for (const auto *Inst : IRDB->getAllInstructions()) {
+    if (!llvm::isa<llvm::CallBase>(Inst) && !isStartPoint(Inst)) {
+      NonCallStartNodes.push_back(Inst);
+    }
+  }
+  return NonCallStartNodes;
 }
 
 auto LLVMBasedBackwardICFG::getCalleesOfCallAtImpl(n_t Inst) const noexcept
-- 
2.43.0


From 3abfe3f1c0d2130dcf027f6fa0ef5db50c26bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 50/70] fix: initialize the va_list allocation in
 IDETypeStateAnalysis' return flow

A variadic callee without a va_list (it never reads its variadic
arguments) left the pointer uninitialized, so an unrelated fact could be
mapped to the variadic actuals.
---
 .../DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
index 4580fda..75c1207 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
@@ -124,7 +124,7 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
     container_type Res;
     // Handle C-style varargs functions
     if (CalleeFun->isVarArg() && !CalleeFun->isDeclaration()) {
-      const llvm::Instruction *AllocVarArg;
+      const llvm::Instruction *AllocVarArg = nullptr;
       // Find the allocation of %struct.__va_list_tag
       for (const auto &BB : *CalleeFun) {
         for (const auto &I : BB) {
-- 
2.43.0


From a97c5e05d5a2abb4effcfbf8722424c09c896538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:47 +0000
Subject: [PATCH 51/70] fix: do not truncate integer constants wider than 64
 bits in the linear constant analysis

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 02f575b..e84bd3e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -83,6 +83,22 @@ llvm::hash_code hash_value(const GenConstant &EF) noexcept {
 using TTT = decltype(hash_value(std::declval<GenConstant>()));
 static_assert(is_llvm_hashable_v<GenConstant>);
 
+/// The value of CI, or BOTTOM if it is not representable in 64 bits
+static l_t getConstantValue(const llvm::ConstantInt *CI) {
+  if (CI->getValue().getMinSignedBits() > 64) {
+    return Bottom{};
+  }
+  return CI->getSExtValue();
+}
+
+static EdgeFunction<l_t> genConstant(const llvm::ConstantInt *CI) {
+  l_t Val = getConstantValue(CI);
+  if (const auto *IntConst = std::get_if<int64_t>(&Val)) {
+    return GenConstant{*IntConst};
+  }
+  return AllBottom<l_t>{};
+}
+
 /**
  * The following binary operations are computed:
  *  - addition
@@ -230,7 +246,7 @@ struct BinOp {
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+      return executeBinOperation(Op, getConstantValue(Lic), getConstantValue(Ric),
                                  Lic->getBitWidth());
     }
     if (Source == Bottom{}) {
@@ -238,12 +254,12 @@ struct BinOp {
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue(),
+      return executeBinOperation(Op, Source, getConstantValue(Ric),
                                  Ric->getBitWidth());
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source,
+      return executeBinOperation(Op, getConstantValue(Lic), Source,
                                  Lic->getBitWidth());
     }
 
@@ -276,13 +292,13 @@ struct BinOp {
   friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
                                        const BinOp &BOP) {
     if (const auto *LIC = llvm::dyn_cast<llvm::ConstantInt>(BOP.Lop)) {
-      OS << LIC->getSExtValue();
+      OS << LIC->getValue();
     } else {
       OS << "ID:" << getMetaDataID(BOP.Lop);
     }
     OS << ' ' << opToChar(BOP.Op) << ' ';
     if (const auto *RIC = llvm::dyn_cast<llvm::ConstantInt>(BOP.Rop)) {
-      OS << RIC->getSExtValue();
+      OS << RIC->getValue();
     } else {
       OS << "ID:" << getMetaDataID(BOP.Rop);
     }
@@ -439,7 +455,7 @@ IDELinearConstantAnalysis::initialSeeds() {
         if (GV->hasInitializer()) {
           if (const auto *ConstInt =
                   llvm::dyn_cast<llvm::ConstantInt>(GV->getInitializer())) {
-            Seeds.addSeed(SP, GV, ConstInt->getSExtValue());
+            Seeds.addSeed(SP, GV, lca::getConstantValue(ConstInt));
           }
         }
       }
@@ -504,9 +520,7 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
       if (isZeroValue(CurrNode) && llvm::isa<llvm::ConstantInt>(ValueOperand)) {
         PHASAR_LOG_LEVEL(DEBUG, "Case: Storing constant integer.");
         PHASAR_LOG_LEVEL(DEBUG, ' ');
-        const auto *CI = llvm::dyn_cast<llvm::ConstantInt>(ValueOperand);
-        auto IntConst = CI->getSExtValue();
-        return lca::GenConstant{IntConst};
+        return lca::genConstant(llvm::cast<llvm::ConstantInt>(ValueOperand));
       }
       // Case II: Storing an integer typed value.
       if (CurrNode != SuccNode && ValueOperand->getType()->isIntegerTy()) {
@@ -556,8 +570,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallEdgeFunction(
       const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
       const auto *Actual = CS->getArgOperand(getFunctionArgumentNr(A));
       if (const auto *CI = llvm::dyn_cast<llvm::ConstantInt>(Actual)) {
-        auto IntConst = CI->getSExtValue();
-        return lca::GenConstant{IntConst};
+        return lca::genConstant(CI);
       }
     }
   }
@@ -572,8 +585,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
     const auto *Return = llvm::cast<llvm::ReturnInst>(ExitStmt);
     auto *ReturnValue = Return->getReturnValue();
     if (auto *CI = llvm::dyn_cast_or_null<llvm::ConstantInt>(ReturnValue)) {
-      auto IntConst = CI->getSExtValue();
-      return lca::GenConstant{IntConst};
+      return lca::genConstant(CI);
     }
   }
   return EdgeIdentity<l_t>{};
-- 
2.43.0


From dfe2d251015590ef9910d5a705b38b77db101546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:34 +0000
Subject: [PATCH 52/70] fix: do not truncate integers wider than 64 bits when
 EdgeValue casts them to floating point

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index c24c0d4..70e1652 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -509,11 +509,17 @@ EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
     }
   case FloatingPoint:
     switch (VariantType) {
-    case Integer:
+    case Integer: {
+      int64_t Val;
+      if (!tryGetInt(Val)) {
+        // not representable in 64 bits
+        return {nullptr};
+      }
       if (Bits > 32) {
-        return {(double)std::get<llvm::APInt>(ValVariant).getSExtValue()};
+        return {(double)Val};
       }
-      return {(float)std::get<llvm::APInt>(ValVariant).getSExtValue()};
+      return {(float)Val};
+    }
     case FloatingPoint:
       return *this;
     default:
-- 
2.43.0


From 7701d0c68dc2963191cb5926adc6b8fb1eb753c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:11 +0000
Subject: [PATCH 53/70] fix: do not kill tainted formal parameters and globals
 after their only use in a function

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..39b0770 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -183,9 +183,21 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
+/// A value is dead after its only use, unless it outlives the function that
+/// contains this use: Pointer-typed formal parameters are mapped back to the
+/// actual parameters at the end of the function and globals are visible
+/// everywhere.
+static bool isDeadAfterUse(d_t Val) noexcept {
+  if (llvm::isa<llvm::Constant>(Val) ||
+      (llvm::isa<llvm::Argument>(Val) && Val->getType()->isPointerTy())) {
+    return false;
+  }
+  return !Val->hasNUsesOrMore(2);
+}
+
 static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
                                                                   d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+  if (!isDeadAfterUse(From)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -202,8 +214,8 @@ static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
 
 static IFDSTaintAnalysis::FlowFunctionPtrType
 transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
-  bool KillFrom1 = !From1->hasNUsesOrMore(2);
-  bool KillFrom2 = !From2->hasNUsesOrMore(2);
+  bool KillFrom1 = isDeadAfterUse(From1);
+  bool KillFrom2 = isDeadAfterUse(From2);
 
   if (KillFrom1) {
     if (KillFrom2) {
@@ -270,7 +282,7 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (!isDeadAfterUse(Store->getValueOperand())) {
       Gen.insert(Store->getValueOperand());
     }
 
-- 
2.43.0


From 0d25bc4934b93055839c5ebc5a5a42ddd8bd1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:54 +0000
Subject: [PATCH 54/70] fix: analyze the bodies of callees that return a struct
 in memory (sret) in IFDSTaintAnalysis

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 39b0770..49b3796 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -407,14 +407,6 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // populateWithMayAliases(Leak, CallSite);
   populateWithMustAliases(Kill, CallSite);
 
-  if (CS->hasStructRetAttr()) {
-    const auto *SRet = CS->getArgOperand(0);
-    if (!Gen.count(SRet)) {
-      // SRet is guaranteed to be written to by the call. If it does not
-      // generate it, we can freely kill it
-      Kill.insert(SRet);
-    }
-  }
   if (Gen.empty() && Leak.empty() && Kill.empty()) {
     if (Llvmfdff.contains(DestFun)) {
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
@@ -445,9 +437,21 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       });
     }
 
-    // not found
-    return nullptr;
+    if (!DestFun->isDeclaration()) {
+      // no summary; analyze the body of the callee
+      return nullptr;
+    }
   }
+
+  if (CS->hasStructRetAttr()) {
+    const auto *SRet = CS->getArgOperand(0);
+    if (!Gen.count(SRet)) {
+      // SRet is guaranteed to be written to by the call. If it does not
+      // generate it, we can freely kill it
+      Kill.insert(SRet);
+    }
+  }
+
   if (Gen.empty()) {
     if (!Leak.empty() || !Kill.empty()) {
       return lambdaFlow([Leak{std::move(Leak)}, Kill{std::move(Kill)}, this,
-- 
2.43.0


From 112b5f05ce53a63cf0666163288433d84986e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:40 +0000
Subject: [PATCH 55/70] fix: apply sanitizers of calls that also generate
 taints in IFDSTaintAnalysis

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 49b3796..1176334 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -478,7 +478,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -491,6 +492,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From f3cfb938e91c7c9c51f729f44249ef16482d3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 56/70] fix: apply the registered sanitizer callback in
 collectSanitizedFacts

---
 .../phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
index aa7941d..40933f4 100644
--- a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
+++ b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
@@ -79,6 +79,12 @@ template <typename ContainerTy,
 void collectSanitizedFacts(ContainerTy &Dest, const LLVMTaintConfig &Config,
                            const llvm::CallBase *CB,
                            const llvm::Function *Callee) {
+  const auto &Callback = Config.getRegisteredSanitizerCallBack();
+  if (Callback) {
+    auto CBSanitized = Callback(CB);
+    Dest.insert(CBSanitized.begin(), CBSanitized.end());
+  }
+
   for (unsigned I = 0, End = Callee->arg_size(); I < End; ++I) {
     if (Config.isSanitizer(Callee->getArg(I))) {
       Dest.insert(CB->getArgOperand(I));
-- 
2.43.0


From ed7c605efe0a644438df281f7cedb8646356ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 57/70] fix: keep tainted pointer arguments of calls without
 known callees in IFDSTaintAnalysis

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 1176334..71bd7a7 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -368,8 +368,11 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
 
   const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
 
-  bool HasDeclOnly = llvm::any_of(
-      Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
+  // Note: If no callee is known, there is no return-flow either
+  bool HasDeclOnly =
+      Callees.empty() || llvm::any_of(Callees, [](const auto *DestFun) {
+        return DestFun->isDeclaration();
+      });
 
   return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
     return HasDeclOnly || !Arg->getType()->isPointerTy();
-- 
2.43.0


From af0fb9b7bcf721368ab8fc6d94d486835b61afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:43 +0000
Subject: [PATCH 58/70] fix: keep tainted pointer arguments of calls to
 declarations and unknown callees in InterMonoTaintAnalysis

---
 .../DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp
index 04830d7..da5d6c4 100644
--- a/lib/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/Mono/Problems/InterMonoTaintAnalysis.cpp
@@ -19,6 +19,7 @@
 #include "phasar/Utils/Logger.h"
 #include "phasar/Utils/Utilities.h"
 
+#include "llvm/ADT/STLExtras.h"
 #include "llvm/IR/Function.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instruction.h"
@@ -153,7 +154,11 @@ InterMonoTaintAnalysis::mono_container_t InterMonoTaintAnalysis::callToRetFlow(
   }
   Out.erase(Kill);
   Out.insert(Gen);
-  if (Gen.empty() && Kill.empty()) {
+  bool HasDeclOnly =
+      Callees.empty() || llvm::any_of(Callees, [](const auto *Callee) {
+        return Callee->isDeclaration();
+      });
+  if (Gen.empty() && Kill.empty() && !HasDeclOnly) {
     // erase pointer arguments, since they are now propagated in the retFF
     for (unsigned Idx = 0; Idx < CS->arg_size(); ++Idx) {
       if (CS->getArgOperand(Idx)->getType()->isPointerTy()) {
-- 
2.43.0


From 16ddae5aa88827811f30da6a0e3a7db300876c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 59/70] fix: pass the alias information to the resolver in
 buildLLVMBasedCallGraph

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From 7b48d7725156492b5a47dd9a49758b08ff3d271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 60/70] fix: types without virtual functions have no vtable in
 LLVMVFTableProvider

---
 lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp b/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
index b34384b..a068990 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp
@@ -55,7 +55,8 @@ LLVMVFTableProvider::LLVMVFTableProvider(const LLVMProjectIRDB &IRDB)
     : LLVMVFTableProvider(*IRDB.getModule()) {}
 
 bool LLVMVFTableProvider::hasVFTable(const llvm::StructType *Type) const {
-  return TypeVFTMap.count(Type);
+  auto It = TypeVFTMap.find(Type);
+  return It != TypeVFTMap.end() && !It->second.empty();
 }
 
 const LLVMVFTable *
-- 
2.43.0


From b3a853c09c5ea3ae2517bc9a1370c3444ae8d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 61/70] fix: do not take calls of function pointers in structs
 and arrays for virtual calls

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e55edef..98a267f 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -48,7 +48,9 @@ std::optional<unsigned> psr::getVFTIndex(const llvm::CallBase *CallSite) {
   }
   const auto *GEP =
       llvm::dyn_cast<llvm::GetElementPtrInst>(Load->getPointerOperand());
-  if (GEP == nullptr) {
+  // A slot of a vtable is addressed with a single index; everything else is a
+  // function pointer in a struct or an array
+  if (GEP == nullptr || GEP->getNumIndices() != 1) {
     return std::nullopt;
   }
   if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(GEP->getOperand(1))) {
-- 
2.43.0


From 6196a52d749c348fd3257b4de87e0026ca00a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 62/70] fix: find the virtual functions of classes with virtual
 bases in LLVMVFTable

---
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 2b6b443..cd23a65 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -9,11 +9,13 @@
 
 #include "phasar/PhasarLLVM/TypeHierarchy/LLVMVFTable.h"
 
+#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
 #include "phasar/PhasarLLVM/TypeHierarchy/LLVMVFTableData.h"
 #include "phasar/Utils/NlohmannLogging.h"
 
 #include "llvm/IR/Function.h"
 #include "llvm/IR/GlobalAlias.h"
+#include "llvm/IR/GlobalVariable.h"
 #include "llvm/IR/Operator.h"
 #include "llvm/Support/raw_ostream.h"
 
@@ -73,14 +75,26 @@ void LLVMVFTable::printAsJson(llvm::raw_ostream &OS) const {
   Data.printAsJson(OS);
 }
 
+static unsigned getFirstFunctionOffset(const llvm::ConstantArray &VT) {
+  for (unsigned Idx = 2, End = VT.getNumOperands(); Idx != End; ++Idx) {
+    const auto *Entry = VT.getOperand(Idx)->stripPointerCasts();
+    if (llvm::isa<llvm::GlobalVariable>(Entry) &&
+        Entry->getName().startswith(LLVMTypeHierarchy::TypeInfoPrefix)) {
+      return Idx + 1;
+    }
+  }
+  return 2;
+}
+
 std::vector<const llvm::Function *>
 LLVMVFTable::getVFVectorFromIRVTable(const llvm::ConstantStruct &VT) {
   std::vector<const llvm::Function *> VFS;
   for (const auto &Op : VT.operands()) {
     if (const auto *CA = llvm::dyn_cast<llvm::ConstantArray>(Op)) {
-      // Start iterating at offset 2, because offset 0 is vbase offset, offset 1
-      // is RTTI
-      for (const auto *It = std::next(CA->operands().begin(), 2);
+      // The functions start after the RTTI entry. It usually is at offset 1
+      // (after the offset-to-top), but vbase- and vcall-offsets may precede.
+      for (const auto *It = std::next(CA->operands().begin(),
+                                      getFirstFunctionOffset(*CA));
            It != CA->operands().end(); ++It) {
         const auto &COp = *It;
         if (const auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(COp)) {
-- 
2.43.0


From ef7a38edcd8f6123e68abfd7c9f7b5b2826f45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 63/70] fix: accept covariant return types when matching
 indirect call targets

---
 lib/PhasarLLVM/Utils/LLVMShorthands.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
index 99f8095..6d2c2dc 100644
--- a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
@@ -112,7 +112,10 @@ bool psr::matchesSignature(const llvm::Function *F,
     return false;
   }
   if (F->arg_size() == FType->getNumParams() &&
-      F->getReturnType() == FType->getReturnType()) {
+      (ExactMatch ? F->getReturnType() == FType->getReturnType()
+                  // covariant return types
+                  : isTypeMatchForFunctionArgument(F->getReturnType(),
+                                                   FType->getReturnType()))) {
     unsigned Idx = 0;
     for (const auto &Arg : F->args()) {
       bool TypeMissMatch =
-- 
2.43.0


From 8f765d33fc4b31abad564b8cd391d23661647f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 64/70] fix: do not dereference the missing parameter of a
 function without parameters in RTAResolver

---
 lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..1b2de5a 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -133,6 +133,7 @@ void RTAResolver::resolveAllocatedStructTypes() {
             if (const auto *CTor = llvm::dyn_cast<llvm::CallBase>(User)) {
               // potential call to the structures ctor
               if (CTor->getCalledFunction() &&
+                  CTor->getCalledFunction()->arg_size() != 0 &&
                   getNthFunctionArgument(CTor->getCalledFunction(), 0)
                           ->getType() == Cast->getDestTy() &&
                   !Cast->getDestTy()->isOpaquePointerTy()) {
-- 
2.43.0


From 058a2b71cf1ba196c56724d8a14f50cf5dad356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 65/70] fix: consider global objects and arrays of objects as
 allocated in RTAResolver

---
 .../ControlFlow/Resolver/RTAResolver.cpp       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 1b2de5a..811b29a 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -102,13 +102,23 @@ void RTAResolver::resolveAllocatedStructTypes() {
 
   llvm::DenseSet<const llvm::StructType *> AllocatedStructTypes;
 
+  auto AddAllocatedType = [&AllocatedStructTypes](const llvm::Type *Ty) {
+    while (const auto *ArrayTy = llvm::dyn_cast<llvm::ArrayType>(Ty)) {
+      Ty = ArrayTy->getElementType();
+    }
+    if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(Ty)) {
+      AllocatedStructTypes.insert(StructTy);
+    }
+  };
+
+  for (const auto &Glob : IRDB->getModule()->globals()) {
+    AddAllocatedType(Glob.getValueType());
+  }
+
   for (const auto *Fun : IRDB->getAllFunctions()) {
     for (const auto &Inst : llvm::instructions(Fun)) {
       if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(&Inst)) {
-        if (const auto *StructTy =
-                llvm::dyn_cast<llvm::StructType>(Alloca->getAllocatedType())) {
-          AllocatedStructTypes.insert(StructTy);
-        }
+        AddAllocatedType(Alloca->getAllocatedType());
       } else if (const auto *CallSite = llvm::dyn_cast<llvm::CallBase>(&Inst);
                  CallSite && CallSite->getCalledFunction()) {
         // check if an instance of a user-defined type is allocated on the
-- 
2.43.0


From 3ef2d2ef8ef3311d5e033ce87482e70541050b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 66/70] fix: do not duplicate null entries when deserializing
 vtables in DIBasedTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index be0f02c..dcb5a37 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -286,6 +286,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     for (const auto &FuncName : Curr) {
       if (FuncName == LLVMVFTable::NullFunName) {
         CurrVTable.push_back(nullptr);
+        continue;
       }
       CurrVTable.push_back(IRDB->getFunction(FuncName));
     }
-- 
2.43.0


From fc59e441f8310b68478436494efd8d270a3b0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 67/70] fix: skip unknown derived types when deserializing
 LLVMTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 23dbdcc..b4d2484 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -121,7 +121,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
     auto Vtx = TypeVertexMap.at(SrcType);
     for (const auto &CurrEdge : SerElement.getValue()) {
       const auto *DestType = NameToStructType[CurrEdge];
-      if (!SrcType) {
+      if (!DestType) {
         continue;
       }
       auto DestVtx = TypeVertexMap.at(DestType);
-- 
2.43.0


From 66dc4eac6413a8527d2174341bf93ea9c535493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:12 +0000
Subject: [PATCH 68/70] fix: serialize the hierarchy of DIBasedTypeHierarchy by
 unique type names

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp        | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index dcb5a37..a47a97c 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -243,17 +243,6 @@ stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
   llvm::report_fatal_error("DIType doesn't exist: " + DITypeName);
 }
 
-static const llvm::DIType *stringToDIType(const llvm::DebugInfoFinder &DIF,
-                                          llvm::StringRef DITypeName) {
-  for (const auto *Type : DIF.types()) {
-    if (Type->getName() == DITypeName) {
-      return Type;
-    }
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist " + DITypeName);
-}
-
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     const LLVMProjectIRDB *IRDB, const DIBasedTypeHierarchyData &SerializedData)
     : TransitiveDerivedIndex(SerializedData.TransitiveDerivedIndex) {
@@ -276,7 +265,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
 
   Hierarchy.reserve(SerializedData.Hierarchy.size());
   for (const auto &Curr : SerializedData.Hierarchy) {
-    Hierarchy.push_back(stringToDIType(DIF, Curr));
+    Hierarchy.push_back(stringToDICompositeType(DIF, Curr));
   }
 
   for (const auto &Curr : SerializedData.VTables) {
@@ -361,7 +350,7 @@ DIBasedTypeHierarchyData DIBasedTypeHierarchy::getTypeHierarchyData() const {
 
   Data.Hierarchy.reserve(Hierarchy.size());
   for (const auto &Curr : Hierarchy) {
-    Data.Hierarchy.push_back(Curr->getName().str());
+    Data.Hierarchy.push_back(getTypeName(Curr).str());
   }
 
   for (const auto &Curr : VTables) {
-- 
2.43.0


From 3a7b36e95d76e85cadca77e036a8de0f6db7b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 69/70] fix: allow anonymous types in DIBasedTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index a47a97c..3d41a77 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -198,9 +198,10 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
         }
         if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
           VertexTypes.push_back(Composite);
-          NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
-
-          assert(!getCompositeTypeName(Composite).empty());
+          // C allows anonymous structs and unions
+          if (auto Name = getCompositeTypeName(Composite); !Name.empty()) {
+            NameToType.try_emplace(Name, Composite);
+          }
         }
       }
     }
-- 
2.43.0


From 60fe7b99f5492cbaab22cbfe99177f05ad3c654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:28 +0000
Subject: [PATCH 70/70] fix: do not dereference null entries when printing
 vtables

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index b4d2484..f0e41b8 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -373,7 +373,7 @@ void LLVMTypeHierarchy::print(llvm::raw_ostream &OS) const {
   for (const auto &[Ty, VFT] : TypeVFTMap) {
     OS << "Virtual function table for: " << Ty->getName() << '\n';
     for (const auto *F : VFT) {
-      OS << "\t-" << F->getName() << '\n';
+      OS << "\t-" << (F ? F->getName() : LLVMVFTable::NullFunName) << '\n';
     }
   }
 }
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index cd23a65..1cb030e 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -43,7 +43,7 @@ int LLVMVFTable::getIndex(const llvm::Function *F) const {
 
 void LLVMVFTable::print(llvm::raw_ostream &OS) const {
   for (const auto *F : VFT) {
-    OS << F->getName();
+    OS << (F ? F->getName() : NullFunName);
     if (F != VFT.back()) {
       OS << '\n';
     }
-- 
2.43.0

