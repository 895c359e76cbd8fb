From e9d968a80fa70d0854e97298d8345b1aa5fb7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 01/40] fix: reject memory accesses whose offset + size wraps
 around

---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ef75e92..c146699 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -398,7 +398,8 @@ bool Memory::isAddressValid(size_t address, size_t size) const
   size_t buffer = extractBuffer(address);
   size_t offset = extractOffset(address);
   if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||
-      offset + size > m_memory[buffer]->size)
+      size > m_memory[buffer]->size ||
+      offset > m_memory[buffer]->size - size)
   {
     return false;
   }
-- 
2.43.0


From 4c036d3fbd027104d85565ce3722f57c0e197ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 02/40] fix: Memory::getBuffer dereferenced the empty slot of a
 freed buffer

---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index c146699..61c0741 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -348,7 +348,8 @@ unsigned int Memory::getAddressSpace() const
 const Memory::Buffer* Memory::getBuffer(size_t address) const
 {
   size_t buf = extractBuffer(address);
-  if (buf == 0 || buf >= m_memory.size() || !m_memory[buf]->data)
+  if (buf == 0 || buf >= m_memory.size() || !m_memory[buf] ||
+      !m_memory[buf]->data)
   {
     return NULL;
   }
-- 
2.43.0


From 3dadf71689018786a37753f1e9b7d55a95da12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 03/40] fix: Memory::mapBuffer checked the bounds of the wrong
 range

---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index 61c0741..b8c0f01 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -429,6 +429,7 @@ bool Memory::load(unsigned char* dest, size_t address, size_t size) const
 
 void* Memory::mapBuffer(size_t address, size_t offset, size_t size)
 {
+  address += offset;
   size_t buffer = extractBuffer(address);
 
   // Bounds check
@@ -437,7 +438,7 @@ void* Memory::mapBuffer(size_t address, size_t offset, size_t size)
     return NULL;
   }
 
-  return m_memory[buffer]->data + offset + extractOffset(address);
+  return m_memory[buffer]->data + extractOffset(address);
 }
 
 bool Memory::store(const unsigned char* source, size_t address, size_t size)
-- 
2.43.0


From 5954b80d24799584850505b17fed83bd6c61f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 04/40] fix: round 64-bit signed integers to float once in
 sitofp

Converting through double first rounds twice, giving a float that is not
the nearest one for some 64-bit operands.
---
 src/core/WorkItem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..5f93b23 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1466,7 +1466,11 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    int64_t in = op.getSInt(i);
+    if (result.size == 4)
+      result.setFloat((float)in, i);
+    else
+      result.setFloat((double)in, i);
   }
 }
 
-- 
2.43.0


From 14448ebf7ef727c6612867a3edd89b9ab181e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 05/40] fix: keep only the low bit when truncating to a one-bit
 integer

---
 src/core/WorkItem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 5f93b23..87c7383 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1264,9 +1264,13 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
+
+  // One-bit integers are stored as a byte holding either 0 or 1
+  bool toBool = instruction->getType()->getScalarSizeInBits() == 1;
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(op.getUInt(i), i);
+    uint64_t value = op.getUInt(i);
+    result.setUInt(toBool ? value & 1 : value, i);
   }
 }
 
-- 
2.43.0


From 8a7c797c8c959fd46c691db461e31e64b4b5adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 06/40] fix: represent true as 1 in vectors of one-bit integers

Vector comparisons stored 0xFF in each true lane while constants and
scalar comparisons store 1, so zext of a vector comparison gave 255 and
xor with a constant true vector did not negate it.
---
 src/core/WorkItem.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 87c7383..dc7cf13 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -988,7 +988,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1039,7 +1038,7 @@ INSTRUCTION(fcmp)
       r = !llvm::CmpInst::isOrdered(pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1155,7 +1154,6 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
@@ -1201,7 +1199,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1412,7 +1410,7 @@ INSTRUCTION(sext)
   for (unsigned i = 0; i < result.num; i++)
   {
     int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
+    if (operand->getType()->getScalarSizeInBits() == 1)
     {
       val = val ? -1 : 0;
     }
-- 
2.43.0


From c3e8915255428628594947721d9a7ad5069cd6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 07/40] fix: fcmp false is false for NaN operands

---
 src/core/WorkItem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index dc7cf13..63b9480 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1033,7 +1033,7 @@ INSTRUCTION(fcmp)
     }
 
     // Deal with NaN operands
-    if (std::isnan(a) || std::isnan(b))
+    if (pred != llvm::CmpInst::FCMP_FALSE && (std::isnan(a) || std::isnan(b)))
     {
       r = !llvm::CmpInst::isOrdered(pred);
     }
-- 
2.43.0


From c3a0e7c3f3e09878771841d588d1da31a5b52fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 08/40] fix: extractvalue and insertvalue copied past
 three-component vectors

---
 src/core/WorkItem.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 63b9480..be7ad4d 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -967,7 +967,7 @@ INSTRUCTION(extractval)
   }
 
   // Copy target value to result
-  memcpy(result.data, getOperand(agg).data + offset, getTypeSize(type));
+  memcpy(result.data, getOperand(agg).data + offset, result.size * result.num);
 }
 
 INSTRUCTION(fadd)
@@ -1245,9 +1245,8 @@ INSTRUCTION(insertval)
   }
 
   // Copy inserted value into result
-  const llvm::Value* value = insert->getInsertedValueOperand();
-  memcpy(result.data + offset, getOperand(value).data,
-         getTypeSize(value->getType()));
+  TypedValue value = getOperand(insert->getInsertedValueOperand());
+  memcpy(result.data + offset, value.data, value.size * value.num);
 }
 
 INSTRUCTION(inttoptr)
-- 
2.43.0


From d23c160dc1a9cca7dc95b94d10baaab9045ae068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 09/40] fix: alloca ignored the number of elements to allocate

---
 src/core/WorkItem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index be7ad4d..47ae82e 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -790,7 +790,9 @@ INSTRUCTION(alloc)
   const llvm::Type* type = allocInst->getAllocatedType();
 
   // Perform allocation
-  unsigned size = getTypeSize(type);
+  size_t size = getTypeSize(type);
+  if (allocInst->isArrayAllocation())
+    size *= getOperand(allocInst->getArraySize()).getUInt();
   size_t address = m_privateMemory->allocateBuffer(size);
   if (!address)
     FATAL_ERROR("Insufficient private memory (alloca)");
-- 
2.43.0


From d0feece54d6caa28b457ff10006962465c214cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 10/40] fix: integer min, max and clamp read vector lanes of
 scalar operands

---
 src/core/WorkItemBuiltins.cpp | 46 ++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..012688b 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -457,13 +457,27 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        bool vec = ARG(1)->getType()->isVectorTy();
+        uint64_t x = UARGV(0, i);
+        uint64_t minval = vec ? UARGV(1, i) : UARG(1);
+        uint64_t maxval = vec ? UARGV(2, i) : UARG(2);
+        result.setUInt(_clamp_(x, minval, maxval), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        bool vec = ARG(1)->getType()->isVectorTy();
+        int64_t x = SARGV(0, i);
+        int64_t minval = vec ? SARGV(1, i) : SARG(1);
+        int64_t maxval = vec ? SARGV(2, i) : SARG(2);
+        result.setSInt(_clamp_(x, minval, maxval), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -495,13 +509,23 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _max_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        uint64_t x = UARGV(0, i);
+        uint64_t y = ARG(1)->getType()->isVectorTy() ? UARGV(1, i) : UARG(1);
+        result.setUInt(_max_(x, y), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _max_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        int64_t x = SARGV(0, i);
+        int64_t y = ARG(1)->getType()->isVectorTy() ? SARGV(1, i) : SARG(1);
+        result.setSInt(_max_(x, y), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -533,13 +557,23 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _min_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        uint64_t x = UARGV(0, i);
+        uint64_t y = ARG(1)->getType()->isVectorTy() ? UARGV(1, i) : UARG(1);
+        result.setUInt(_min_(x, y), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _min_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        int64_t x = SARGV(0, i);
+        int64_t y = ARG(1)->getType()->isVectorTy() ? SARGV(1, i) : SARG(1);
+        result.setSInt(_min_(x, y), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
-- 
2.43.0


From 24c484c65647c56492d2fe5f8bd57342dea119e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 11/40] fix: 64-bit signed add_sat and sub_sat of zero and
 INT64_MIN

---
 src/core/WorkItemBuiltins.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 012688b..69de6d3 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1937,10 +1937,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) < 0) == (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
@@ -2293,10 +2293,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) < 0) != (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From f941b140a958de27c273923d0ce14ed41e9cd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 12/40] fix: 64-bit signed mad_sat compares the full product
 with the result range

---
 src/core/WorkItemBuiltins.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 69de6d3..4f97241 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2138,23 +2138,21 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
-        {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
+      {
+        // Compute the exact 128-bit result as hi:sum
+        int64_t hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+        uint64_t lo = UARGV(0, i) * UARGV(1, i);
+        uint64_t sum = lo + UARGV(2, i);
+        hi += (sum < lo) - (SARGV(2, i) < 0);
+
+        sresult = sum;
+        if (hi != (sresult >> 63))
         {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
-          {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
-          }
+          sresult = (hi < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
+      }
       default:
         FATAL_ERROR("Unsupported argument type: %c",
                     getOverloadArgType(overload));
-- 
2.43.0


From a9529ce7dfceaab9e98bd38ecce490a3e90656b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 13/40] fix: rotate of a 64-bit value by a multiple of 64
 shifts by the width

---
 src/core/WorkItemBuiltins.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 4f97241..698c689 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2249,7 +2249,7 @@ class WorkItemBuiltins
       uint64_t width = (result.size << 3);
       uint64_t v = UARGV(0, i);
       uint64_t ls = UARGV(1, i) % width;
-      uint64_t rs = width - ls;
+      uint64_t rs = (width - ls) % width;
       result.setUInt((v << ls) | (v >> rs), i);
     }
   }
-- 
2.43.0


From d3610284281c26772f38a2a916e4742c95ad0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 14/40] fix: isnormal of a float denormal

---
 src/core/WorkItemBuiltins.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 698c689..20d954b 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2784,6 +2784,10 @@ class WorkItemBuiltins
   {
     return isnormal(x);
   }
+  static int64_t _isnormf_(double x)
+  {
+    return isnormal((float)x);
+  }
   static int64_t _isord_(double x, double y)
   {
     return !isunordered(x, y);
@@ -2797,6 +2801,12 @@ class WorkItemBuiltins
     return signbit(x);
   }
 
+  DEFINE_BUILTIN(isnormal_builtin)
+  {
+    rel1arg(workItem, callInst, fnName, overload, result,
+            getOverloadArgType(overload) == 'f' ? _isnormf_ : _isnorm_);
+  }
+
   DEFINE_BUILTIN(all)
   {
     unsigned num = 1;
@@ -3857,7 +3867,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("isfinite", rel1arg, _isfin_);
   ADD_BUILTIN("isinf", rel1arg, _isinf_);
   ADD_BUILTIN("isnan", rel1arg, _isnan_);
-  ADD_BUILTIN("isnormal", rel1arg, _isnorm_);
+  ADD_BUILTIN("isnormal", isnormal_builtin, NULL);
   ADD_BUILTIN("isordered", rel2arg, _isord_);
   ADD_BUILTIN("isunordered", rel2arg, _isuord_);
   ADD_BUILTIN("select", select_builtin, NULL);
-- 
2.43.0


From f2b09acfd827603624cde5c88437c06b10fb0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 15/40] fix: bitselect on float operands selected bits of their
 values widened to double

---
 src/core/WorkItemBuiltins.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 20d954b..a19c1c7 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2850,23 +2850,12 @@ class WorkItemBuiltins
     return ((a & ~c) | (b & c));
   }
 
-  static double _fbitselect_(double a, double b, double c)
-  {
-    uint64_t _a = *(uint64_t*)&a;
-    uint64_t _b = *(uint64_t*)&b;
-    uint64_t _c = *(uint64_t*)&c;
-    uint64_t _r = _ibitselect_(_a, _b, _c);
-    return *(double*)&_r;
-  }
-
   DEFINE_BUILTIN(bitselect)
   {
     switch (getOverloadArgType(overload))
     {
     case 'f':
     case 'd':
-      f3arg(workItem, callInst, fnName, overload, result, _fbitselect_);
-      break;
     case 'h':
     case 't':
     case 'j':
-- 
2.43.0


From aaf31b27ebfb103521debc3d6427d39abe433011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 16/40] fix: as_type3 of a four-component vector wrote past the
 result

---
 src/core/WorkItemBuiltins.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index a19c1c7..7af1dfb 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3124,7 +3124,8 @@ class WorkItemBuiltins
   DEFINE_BUILTIN(astype)
   {
     TypedValue src = workItem->getOperand(ARG(0));
-    memcpy(result.data, src.data, src.size * src.num);
+    memcpy(result.data, src.data,
+           std::min(src.size * src.num, result.size * result.num));
   }
 
   static void setConvertRoundingMode(const string& name, int def)
-- 
2.43.0


From 8222169cb6a8f07fbe81ea11030e7f9bc61cb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 17/40] fix: round signed integers only once in convert_float

---
 src/core/WorkItemBuiltins.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 7af1dfb..f7eed73 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3183,8 +3183,14 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setFloat(SARGV(0, i), i);
+      {
+        int64_t in = SARGV(0, i);
+        if (result.size == 4)
+          result.setFloat((float)in, i);
+        else
+          result.setFloat((double)in, i);
         break;
+      }
       case 'f':
       case 'd':
         result.setFloat(FARGV(0, i), i);
-- 
2.43.0


From d7df1fec9055376c3fd759eb4cb88ea1214fc127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 18/40] fix: round doubles only once in convert_half

---
 src/core/WorkItemBuiltins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index f7eed73..53feae6 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3231,6 +3231,8 @@ class WorkItemBuiltins
         f = (float)SARGV(0, i);
         break;
       case 'd':
+        result.setUInt(cl_half_from_double(FARGV(0, i), rmode), i);
+        continue;
       case 'f':
         f = FARGV(0, i);
         break;
-- 
2.43.0


From c6d315ad3ecd3ecf05cc05b82ef2d09649a1e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 19/40] fix: saturating conversions of NaN to signed integers
 return zero

---
 src/core/WorkItemBuiltins.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 53feae6..09d6017 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3387,8 +3387,11 @@ class WorkItemBuiltins
       case 'd':
         if (sat)
         {
-          r = rint(_clamp_((long double)FARGV(0, i), (long double)min,
-                           (long double)max));
+          // NaN is converted to zero
+          const double in = FARGV(0, i);
+          r = in != in ? 0
+                       : rint(_clamp_((long double)in, (long double)min,
+                                      (long double)max));
         }
         else
         {
-- 
2.43.0


From ab111e76cb929881b52769a6ee60a4171f304912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 20/40] fix: honour the rounding mode in float to integer
 conversions

---
 src/core/WorkItemBuiltins.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 09d6017..b9dce2b 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3314,7 +3314,8 @@ class WorkItemBuiltins
         }
         else
         {
-          r = rint(FARGV(0, i));
+          // Not rint, which GCC expands inline assuming round-to-nearest
+          r = nearbyint(FARGV(0, i));
         }
         break;
       default:
@@ -3395,7 +3396,8 @@ class WorkItemBuiltins
         }
         else
         {
-          r = rint(FARGV(0, i));
+          // Not rint, which GCC expands inline assuming round-to-nearest
+          r = nearbyint(FARGV(0, i));
         }
         break;
       default:
-- 
2.43.0


From 63356dbc7986ad2a0896f773d317126a75494590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 21/40] fix: memory checker compares accesses with the mapped
 bytes of a buffer only

---
 src/plugins/MemCheck.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..ca29b36 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -175,9 +175,9 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
   for (auto region = m_mapRegions.begin(); region != m_mapRegions.end();
        region++)
   {
-    if (region->type == MapRegion::WRITE &&
-        address < region->address + region->size &&
-        address + size >= region->address)
+    size_t start = region->address + region->offset;
+    if (region->type == MapRegion::WRITE && address < start + region->size &&
+        address + size > start)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -206,8 +206,8 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
   for (auto region = m_mapRegions.begin(); region != m_mapRegions.end();
        region++)
   {
-    if (address < region->address + region->size &&
-        address + size >= region->address)
+    size_t start = region->address + region->offset;
+    if (address < start + region->size && address + size > start)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
-- 
2.43.0


From 97fbcca3126961a456afcd806291bd752a6714ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 22/40] fix: transfer commands count rows with size_t

A region, fill or image with more than 2^32 rows or elements never
completed, because the unsigned loop counter wrapped before it reached
the size_t bound.
---
 src/core/Queue.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..4584237 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -52,9 +52,9 @@ void Queue::executeCopyBufferRect(CopyRectCommand* cmd)
 {
   // Perform copy
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
       // Compute addresses
       size_t src = cmd->src + cmd->src_offset[0] + y * cmd->src_offset[1] +
@@ -71,7 +71,7 @@ void Queue::executeCopyBufferRect(CopyRectCommand* cmd)
 void Queue::executeFillBuffer(FillBufferCommand* cmd)
 {
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned i = 0; i < cmd->size / cmd->pattern_size; i++)
+  for (size_t i = 0; i < cmd->size / cmd->pattern_size; i++)
   {
     memory->store(cmd->pattern, cmd->address + i * cmd->pattern_size,
                   cmd->pattern_size);
@@ -82,11 +82,11 @@ void Queue::executeFillImage(FillImageCommand* cmd)
 {
   Memory* memory = m_context->getGlobalMemory();
 
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
-      for (unsigned x = 0; x < cmd->region[0]; x++)
+      for (size_t x = 0; x < cmd->region[0]; x++)
       {
         size_t address = cmd->base + (cmd->origin[0] + x) * cmd->pixelSize +
                          (cmd->origin[1] + y) * cmd->rowPitch +
@@ -124,9 +124,9 @@ void Queue::executeReadBuffer(BufferCommand* cmd)
 void Queue::executeReadBufferRect(BufferRectCommand* cmd)
 {
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
       unsigned char* host = cmd->ptr + cmd->host_offset[0] +
                             y * cmd->host_offset[1] + z * cmd->host_offset[2];
@@ -152,9 +152,9 @@ void Queue::executeWriteBufferRect(BufferRectCommand* cmd)
 {
   // Perform write
   Memory* memory = m_context->getGlobalMemory();
-  for (unsigned z = 0; z < cmd->region[2]; z++)
+  for (size_t z = 0; z < cmd->region[2]; z++)
   {
-    for (unsigned y = 0; y < cmd->region[1]; y++)
+    for (size_t y = 0; y < cmd->region[1]; y++)
     {
       const unsigned char* host = cmd->ptr + cmd->host_offset[0] +
                                   y * cmd->host_offset[1] +
-- 
2.43.0


From 6de01ba80402e8245594435b9bb974ca53dcdadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:28 +0000
Subject: [PATCH 23/40] fix: range checks of transfer requests must not wrap
 around

offset + cb (or origin + size) overflowed for huge values, so requests
outside the buffer were accepted.
---
 src/runtime/runtime.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..d82f509 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,12 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+// Check whether a range of bytes lies within a buffer
+static bool rangeInBuffer(cl_mem buffer, size_t offset, size_t size)
+{
+  return offset <= buffer->size && size <= buffer->size - offset;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -1518,7 +1524,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (!rangeInBuffer(buffer, region.origin, region.size))
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -3785,7 +3791,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!rangeInBuffer(buffer, offset, cb))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -3934,7 +3940,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!rangeInBuffer(buffer, offset, cb))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4084,14 +4090,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (!rangeInBuffer(dst_buffer, dst_offset, cb))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (!rangeInBuffer(src_buffer, src_offset, cb))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
@@ -4253,7 +4259,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
-  if (offset + cb > buffer->size)
+  if (!rangeInBuffer(buffer, offset, cb))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4801,7 +4807,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (!rangeInBuffer(buffer, offset, cb))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
-- 
2.43.0


From a2f2f196dadc833a699bf15ce536074d791e8d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 24/40] fix: rectangular transfer checks must not wrap around

The end of the region was computed modulo 2^64, so huge origins, regions
or pitches were accepted although they lie outside of the buffer; empty
regions and missing origins were not rejected for reads and writes.
---
 src/runtime/runtime.cpp | 78 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d82f509..557461e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -258,6 +258,32 @@ static bool rangeInBuffer(cl_mem buffer, size_t offset, size_t size)
   return offset <= buffer->size && size <= buffer->size - offset;
 }
 
+// Advance a position by count * pitch bytes, unless this would exceed limit
+static bool advance(size_t& position, size_t limit, size_t count, size_t pitch)
+{
+  if (count && pitch > (limit - position) / count)
+  {
+    return false;
+  }
+  position += count * pitch;
+  return true;
+}
+
+// Check whether a rectangular region of bytes lies within a buffer
+static bool rectInBuffer(cl_mem buffer, const size_t* origin,
+                         const size_t* region, size_t rowPitch,
+                         size_t slicePitch)
+{
+  size_t limit = buffer->size;
+  size_t end = 0;
+  return advance(end, limit, origin[0], 1) &&
+         advance(end, limit, region[0], 1) &&
+         advance(end, limit, origin[1], rowPitch) &&
+         advance(end, limit, region[1] - 1, rowPitch) &&
+         advance(end, limit, origin[2], slicePitch) &&
+         advance(end, limit, region[2] - 1, slicePitch);
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -3850,6 +3876,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!buffer_origin)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, buffer_origin);
+  }
+  if (!host_origin)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, host_origin);
+  }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -3887,9 +3925,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!rectInBuffer(buffer, buffer_origin, region, buffer_row_pitch,
+                    buffer_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -3999,6 +4036,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!buffer_origin)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, buffer_origin);
+  }
+  if (!host_origin)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, host_origin);
+  }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4036,9 +4085,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!rectInBuffer(buffer, buffer_origin, region, buffer_row_pitch,
+                    buffer_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4170,6 +4218,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
+  if (!src_origin)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, src_origin);
+  }
+  if (!dst_origin)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, dst_origin);
+  }
   if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
@@ -4206,17 +4262,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       dst_origin[1] * dst_row_pitch + dst_origin[0];
 
   // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
-  if (src_end > src_buffer->size)
+  if (!rectInBuffer(src_buffer, src_origin, region, src_row_pitch,
+                    src_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds source buffer size (" << src_buffer->size
                                                           << " bytes)");
   }
-  if (dst_end > dst_buffer->size)
+  if (!rectInBuffer(dst_buffer, dst_origin, region, dst_row_pitch,
+                    dst_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds destination buffer size ("
-- 
2.43.0


From 84426e98277dc27e7c089696676f08167d601c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 25/40] fix: clEnqueueMapImage must not map regions outside of
 the image

The checks reported an error but carried on and mapped the region anyway.
---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 557461e..9db3eba 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4941,6 +4941,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "Values in region cannot be 0");
+    return NULL;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4975,6 +4976,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[0] + region[0] > width ("
                    << origin[0] << " + " << region[0] << " > " << width
                    << " )");
+    return NULL;
   }
   if (origin[1] + region[1] > height)
   {
@@ -4982,6 +4984,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[1] + region[1] > height ("
                    << origin[1] << " + " << region[1] << " > " << height
                    << " )");
+    return NULL;
   }
   if (origin[2] + region[2] > depth)
   {
@@ -4989,6 +4992,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[2] + region[2] > depth ("
                    << origin[2] << " + " << region[2] << " > " << depth
                    << " )");
+    return NULL;
   }
 
   // Compute byte offset and size
-- 
2.43.0


From 5d309beaf9dadd832642714238435d366b49de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 26/40] fix: image transfer requests must lie inside the image

Reads, writes and copies only checked that the last byte was inside of
the memory object, so regions exceeding a row or slice were accepted; the
checks of fill and map requests could wrap around.
---
 src/runtime/runtime.cpp | 75 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 69 insertions(+), 6 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9db3eba..f012025 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -284,6 +284,27 @@ static bool rectInBuffer(cl_mem buffer, const size_t* origin,
          advance(end, limit, region[2] - 1, slicePitch);
 }
 
+// Check whether a region of pixels lies within an image
+static bool regionInImage(const cl_image* image, const size_t* origin,
+                          const size_t* region)
+{
+  size_t extent[3] = {image->desc.image_width, image->desc.image_height,
+                      image->desc.image_depth};
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    extent[1] = image->desc.image_array_size;
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    extent[2] = image->desc.image_array_size;
+
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (origin[i] > extent[i] || region[i] > extent[i] - origin[i])
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -4381,6 +4402,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
   }
+  if (!origin || !region)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (!region[0] || !region[1] || !region[2])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4409,21 +4434,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (origin[0] > width || region[0] > width - origin[0])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[0] + region[0] > width ("
                       << origin[0] << " + " << region[0] << " > " << width
                       << " )");
   }
-  if (origin[1] + region[1] > height)
+  if (origin[1] > height || region[1] > height - origin[1])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[1] + region[1] > height ("
                       << origin[1] << " + " << region[1] << " > " << height
                       << " )");
   }
-  if (origin[2] + region[2] > depth)
+  if (origin[2] > depth || region[2] > depth - origin[2])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[2] + region[2] > depth ("
@@ -4564,6 +4589,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (!origin || !region || !regionInImage(img, origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds image bounds");
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
@@ -4618,6 +4648,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (!origin || !region || !regionInImage(img, origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds image bounds");
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
@@ -4690,6 +4725,17 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
     return err;
   }
 
+  if (!src_origin || !region || !regionInImage(src, src_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds image bounds");
+  }
+  if (!dst_origin || !region || !regionInImage(dst, dst_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds image bounds");
+  }
+
   size_t srcPixelSize = getPixelSize(&src->format);
   size_t dstPixelSize = getPixelSize(&dst->format);
 
@@ -4745,6 +4791,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   }
 
   cl_image* src = (cl_image*)src_image;
+  if (!src_origin || !region || !regionInImage(src, src_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds image bounds");
+  }
+
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
@@ -4795,6 +4847,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   }
 
   cl_image* dst = (cl_image*)dst_image;
+  if (!dst_origin || !region || !regionInImage(dst, dst_origin, region))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Region exceeds image bounds");
+  }
+
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
@@ -4923,6 +4981,11 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_row_pitch);
     return NULL;
   }
+  if (!origin || !region)
+  {
+    SetErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+    return NULL;
+  }
   if (map_flags & CL_MAP_WRITE &&
       image->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
@@ -4970,7 +5033,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (origin[0] > width || region[0] > width - origin[0])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[0] + region[0] > width ("
@@ -4978,7 +5041,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                    << " )");
     return NULL;
   }
-  if (origin[1] + region[1] > height)
+  if (origin[1] > height || region[1] > height - origin[1])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[1] + region[1] > height ("
@@ -4986,7 +5049,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                    << " )");
     return NULL;
   }
-  if (origin[2] + region[2] > depth)
+  if (origin[2] > depth || region[2] > depth - origin[2])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[2] + region[2] > depth ("
-- 
2.43.0


From d0dbafce2d925ea2f2e5ac163f6c7b64510ae5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:49 +0000
Subject: [PATCH 27/40] fix: linear index of a work-group must be unique in 2D
 and 3D ranges

---
 src/core/WorkGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..20e0846 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -36,8 +36,8 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
 
   m_groupIndex =
     (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y)) *
+       kernelInvocation->getNumGroups().x);
 
   // Allocate local memory
   m_localMemory =
-- 
2.43.0


From 2d17dfacd23722b39b7cb888ca60ef81bebbe9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:49 +0000
Subject: [PATCH 28/40] fix: switching to a work-item of a remainder work-group
 must not run work-items outside of the range

---
 src/core/KernelInvocation.cpp | 26 +++++++++++++++++---------
 src/core/KernelInvocation.h   |  1 +
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..151ef5e 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -138,6 +138,20 @@ size_t KernelInvocation::getWorkDim() const
   return m_workDim;
 }
 
+Size3 KernelInvocation::getWorkGroupSize(const Size3& wgid) const
+{
+  Size3 wgsize = m_localSize;
+
+  // Handle remainder work-groups
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
+      wgsize[i] = m_globalSize[i] % wgsize[i];
+  }
+
+  return wgsize;
+}
+
 void KernelInvocation::run(const Context* context, Kernel* kernel,
                            unsigned int workDim, Size3 globalOffset,
                            Size3 globalSize, Size3 localSize)
@@ -203,14 +217,7 @@ void KernelInvocation::runWorker(int id)
           break;
 
         Size3 wgid = m_workGroups[index];
-        Size3 wgsize = m_localSize;
-
-        // Handle remainder work-groups
-        for (unsigned i = 0; i < 3; i++)
-        {
-          if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
-            wgsize[i] = m_globalSize[i] % wgsize[i];
-        }
+        Size3 wgsize = getWorkGroupSize(wgid);
 
         workerState.workGroup = new WorkGroup(this, wgid, wgsize);
         m_context->notifyWorkGroupBegin(workerState.workGroup);
@@ -302,7 +309,8 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
     {
       if (group == *pItr)
       {
-        workerState.workGroup = new WorkGroup(this, group);
+        workerState.workGroup =
+          new WorkGroup(this, group, getWorkGroupSize(group));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
         found = true;
 
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index ef03c8e..9dde296 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -39,6 +39,7 @@ private:
                    unsigned int workDim, Size3 globalOffset, Size3 globalSize,
                    Size3 localSize);
   virtual ~KernelInvocation();
+  Size3 getWorkGroupSize(const Size3& wgid) const;
   void run();
 
   // Kernel launch parameters
-- 
2.43.0


From 206ba89c4e3e002508993ea5f1d146c4dcbbc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:03 +0000
Subject: [PATCH 29/40] fix: a work-group switched away from while at a barrier
 must resume

---
 src/core/KernelInvocation.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 151ef5e..fa73b42 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -224,27 +224,25 @@ void KernelInvocation::runWorker(int id)
       }
 
       // Execute work-group
-      workerState.workItem = workerState.workGroup->getNextWorkItem();
-      while (workerState.workItem)
+      while (true)
       {
-        // Run work-item until complete or at barrier
-        while (workerState.workItem->getState() == WorkItem::READY)
+        workerState.workItem = workerState.workGroup->getNextWorkItem();
+        if (!workerState.workItem)
         {
-          workerState.workItem->step();
-        }
+          // No more work-items in READY state
+          // Check if there are work-items at a barrier
+          if (!workerState.workGroup->hasBarrier())
+            break;
 
-        // Move to next work-item
-        workerState.workItem = workerState.workGroup->getNextWorkItem();
-        if (workerState.workItem)
+          // Resume execution
+          workerState.workGroup->clearBarrier();
           continue;
+        }
 
-        // No more work-items in READY state
-        // Check if there are work-items at a barrier
-        if (workerState.workGroup->hasBarrier())
+        // Run work-item until complete or at barrier
+        while (workerState.workItem->getState() == WorkItem::READY)
         {
-          // Resume execution
-          workerState.workGroup->clearBarrier();
-          workerState.workItem = workerState.workGroup->getNextWorkItem();
+          workerState.workItem->step();
         }
       }
 
-- 
2.43.0


From a1eabe80f7bb417bcc2c9548b393a79867a3eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:48 +0000
Subject: [PATCH 30/40] fix: async work-group copies of 2^32 or more elements
 never completed

---
 src/core/WorkGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index 20e0846..9b74d87 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -212,7 +212,7 @@ void WorkGroup::clearBarrier()
       size_t src = itr->src;
       size_t dest = itr->dest;
       unsigned char* buffer = new unsigned char[itr->size];
-      for (unsigned i = 0; i < itr->num; i++)
+      for (size_t i = 0; i < itr->num; i++)
       {
         srcMem->load(buffer, src, itr->size);
         destMem->store(buffer, dest, itr->size);
-- 
2.43.0


From 5cdbe5e6cf6c8b2b57d66b92058f39ef90d84935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:24 +0000
Subject: [PATCH 31/40] fix: clSetKernelArg crashed for a NULL argument value
 or a NULL sampler

---
 src/runtime/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f012025..9b26635 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3161,6 +3161,11 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
+  if (!arg_value && !isSampler && addr == CL_KERNEL_ARG_ADDRESS_PRIVATE)
+  {
+    ReturnErrorArg(kernel->program->context, CL_INVALID_ARG_VALUE, arg_value);
+  }
+
   // Prepare argument value
   oclgrind::TypedValue value;
   value.data = new unsigned char[arg_size];
@@ -3180,6 +3185,10 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
       {
         ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
       }
+      if (!*(cl_sampler*)arg_value)
+      {
+        ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
+      }
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
     }
     else
-- 
2.43.0


From de5337baee0f44c2eb59e7611bf2ecb05e15d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:24 +0000
Subject: [PATCH 32/40] fix: clEnqueueNDRangeKernel crashed for a NULL kernel
 or a work-group size of zero

---
 src/runtime/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9b26635..b8d3fd8 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5186,6 +5186,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
@@ -5212,6 +5216,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (local_work_size && local_work_size[i] == 0)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "]=0");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
-- 
2.43.0


From af52b60cebfcb9ccd99b5bf331adc13d00e852a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 33/40] fix: a context property with value zero truncated the
 list of context properties

---
 src/runtime/runtime.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b8d3fd8..8ef20a8 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1096,10 +1096,10 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
 
   if (properties)
   {
-    int num = 1;
+    int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
@@ -1146,7 +1146,7 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
     int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
-- 
2.43.0


From db33cfb3d88e08b6a80cb5eebfe313354939978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 34/40] fix: clGetProgramInfo crashed for a NULL entry in
 CL_PROGRAM_BINARIES

---
 src/runtime/runtime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8ef20a8..f956f61 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2915,7 +2915,10 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-      program->program->getBinary(((unsigned char**)param_value)[0]);
+      // Skip binaries that the caller does not want
+      unsigned char* binary = ((unsigned char**)param_value)[0];
+      if (binary)
+        program->program->getBinary(binary);
     }
     else
     {
-- 
2.43.0


From 77d77a6af0d2a6257e50f581a2bc36886f95eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 35/40] fix: clGetKernelInfo read the kernel attributes from a
 destroyed string

---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f956f61..d87d4ea 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3266,6 +3266,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_program program;
   } result_data;
   const char* str = 0;
+  std::string attributes;
 
   switch (param_name)
   {
@@ -3290,8 +3291,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
-- 
2.43.0


From c811f3a9532110dafd97269a12d215f06bec114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 36/40] fix: clGetKernelArgInfo returned an undefined character
 for an empty string

---
 src/runtime/runtime.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d87d4ea..970fcc7 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3349,6 +3349,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
   } result_data;
 
   std::string str_data;
+  const char* str = NULL;
 
   switch (param_name)
   {
@@ -3365,6 +3366,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
   case CL_KERNEL_ARG_TYPE_NAME:
     str_data = kernel->kernel->getArgumentTypeName(arg_indx).str();
     result_size = str_data.size() + 1;
+    str = str_data.c_str();
     break;
   case CL_KERNEL_ARG_TYPE_QUALIFIER:
     result_size = sizeof(cl_kernel_arg_type_qualifier);
@@ -3373,6 +3375,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
   case CL_KERNEL_ARG_NAME:
     str_data = kernel->kernel->getArgumentName(arg_indx).str();
     result_size = str_data.size() + 1;
+    str = str_data.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
@@ -3387,8 +3390,8 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
                       ParamValueSizeTooSmall);
     }
 
-    if (str_data.size())
-      memcpy(param_value, str_data.c_str(), result_size);
+    if (str)
+      memcpy(param_value, str, result_size);
     else
       memcpy(param_value, &result_data, result_size);
   }
-- 
2.43.0


From b7954af0c0b8b04843d7e9a3189b0fab504d5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 37/40] fix: clCreateSamplerWithProperties left the reference
 count uninitialised

---
 src/runtime/runtime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 970fcc7..3c6bad1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6064,6 +6064,7 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
-- 
2.43.0


From 66d86533e97f68a89f2c99798711c6929d36f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:49 +0000
Subject: [PATCH 38/40] fix: samplers and events did not hold a reference on
 their context

---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/runtime.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..2a16344 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  clRetainContext(_event->context);
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 3c6bad1..d459f7f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2348,6 +2348,8 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->sampler = bitfield;
   sampler->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
@@ -2379,6 +2381,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
@@ -3636,6 +3639,8 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->queue = NULL;
   event->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return event;
 }
@@ -3671,6 +3676,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    clReleaseContext(event->context);
     delete event;
   }
 
@@ -6071,6 +6077,8 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
                                sampler_properties + numProperties);
   }
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
-- 
2.43.0


From 3478354f1e8e92958b21c280be68f8c195c93c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:44 +0000
Subject: [PATCH 39/40] fix: a command ran although a command it waits for had
 failed, and finish left commands queued behind a failed one

---
 src/core/Queue.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 4584237..6f28108 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -177,11 +177,13 @@ void Queue::execute(Command* command, bool flush)
   auto it = std::find(m_queue.begin(), m_queue.end(), command);
 
   // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then add event associated with
-  // previous (older) command as a dependency
+  // is not out of order OR needs to be flushed, then execute the previous
+  // (older) command first, even if this command turns out not to execute
   if (it != m_queue.begin() && (!m_out_of_order || flush))
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    Command* previous = *std::prev(it);
+    execute(previous, flush);
+    command->execBefore.push_front(previous);
   }
 
   // Make sure all events in the wait list are complete before executing
@@ -204,6 +206,9 @@ void Queue::execute(Command* command, bool flush)
         // If it's not a user event, execute the associated command
         evt->queue->execute(evt->command, flush);
         command->execBefore.push_front(evt->command);
+
+        // Check the event again, as the associated command may have failed
+        command->waitList.push_front(evt);
       }
       else
       {
-- 
2.43.0


From 7b0e39a68f53e51c55a81c6725cb067ea0815c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:44 +0000
Subject: [PATCH 40/40] fix: the instruction counter lost calls and overran its
 totals when work-groups call different functions

---
 src/plugins/InstructionCounter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..93a79cc 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -242,6 +242,8 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       {
         opcode = COUNTED_CALL_BASE + m_functions.size();
         m_functions.push_back(func);
+        if (opcode >= m_instructionCounts.size())
+          m_instructionCounts.resize(opcode + 1);
       }
       else
       {
-- 
2.43.0

