From 9f63a50cc81859c08e9bd950ca7fe844a2a4d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 01/39] fix: <=, > and >= were parsed as <

---
 src/infixExpr/ExprParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..1b13dc6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -83,11 +83,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From c3cc6555ddc7c3171128dcbd9ceedc0a9681ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 02/39] fix: the parser stopped after the first == or != of a
 chain

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 1b13dc6..4f820d6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -72,7 +72,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
-- 
2.43.0


From aa8a81a82fd06aeb4b8d9fcb49aead58dfd5f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 03/39] fix: % was parsed but not evaluated

---
 src/infixExpr/ExprTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..7ac0d32 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,12 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD :
+        {
+            Value quotient;
+            left.modAssignAndQuotient(right, quotient);
+            return left;
+        }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
-- 
2.43.0


From 465a03928dc7a4b70126aab307cec44dc64d9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 04/39] fix: x ** 0 evaluated to 0

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 7ac0d32..2522538 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -67,7 +67,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From 1f488403b36c8971327fafab83199869a043bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 05/39] fix: >> used only the low 64 bits of its count

---
 src/infixExpr/ExprTree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 2522538..e2dbbc6 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -62,7 +62,10 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         left.shiftLeftAssign(right.toU64());
         return left;
     case TokenType::SHIFTRIGHT :
-        left.shiftRightAssign(right.toU64());
+        if (right.flagsContains(BNFlag::POSITIVE) && right.getMagU32Count() > 2) // out of the range of u64
+            left.shiftRightAssign(std::numeric_limits<std::uint64_t>::max());
+        else
+            left.shiftRightAssign(right.toU64());
         return left;
     case TokenType::POW :
         // TODO: Opt it
-- 
2.43.0


From 4b5331a598020e7cfb618fe9662b346f641845f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 06/39] fix: assigning 4294967295 left a leading zero limb,
 INT64_MIN overflowed

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..ab72fb7 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,11 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
 
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = -u64;
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From 5e5df7d9729b837c1f2a513edb996e413001a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 07/39] fix: operator>(int64, BigInteger) was inverted

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..d867276 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -332,7 +332,7 @@ bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { retu
 
 bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
 bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
 
 bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
 bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-- 
2.43.0


From c145d55527eb2947b71021ced5d80f87e36d48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 08/39] fix: GetUInt64 of the C binding compared with
 (int64_t)UINT64_MAX

---
 c/src/pgbn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..5074d36 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -169,8 +169,8 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
     if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
+        b->impl->flagsContains(pgbn::BNFlag::NEGATIVE) ||
+        b->impl->getMagU32Count() > 2 // more than 64 bits
     ) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
-- 
2.43.0


From 235ae38dd836568245227eb075e3cc7e4b844e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 09/39] fix: the C handle of the per-thread status was shared
 by all threads

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index 5074d36..a4c8c24 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From f8b5df09bbead201036c7aadce9ae2c31a002797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 10/39] fix: fromString accepted characters that are not digits
 of the radix

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index ab72fb7..51afe16 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -578,7 +578,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -591,7 +591,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From 0946828927c38b27c97c98850b1a00acea5e4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 11/39] fix: fromString did not report success for zero

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 51afe16..491241f 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -557,6 +557,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 83559bddd6ff7cd3e47e95dd03143c2d540d504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 12/39] fix: growing a slice exposed the stale elements of an
 earlier, longer value

---
 src/Slice.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..d2a1cc3 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -113,7 +113,10 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (hi > count()) { // the new elements may reuse the room of dropped ones
+            m_data->resize(m_lo + hi);
+            std::fill(m_data->begin() + m_hi, m_data->end(), T{});
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From c517d82451c74b89f8769ace3b4e28e7abe615a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 13/39] fix: negative powers of 256 were imported as negative
 powers of 2**32

---
 src/BigIntegerImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 491241f..148c9ad 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -720,7 +720,8 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         for (; i < len && bytes[i] == 0; ++i);
 
         if (i == len) { // - pow2
-            m_mag.append(1);
+            if (len % 4 == 0) m_mag.append(1);
+            else m_mag[len / 4] = static_cast<std::uint32_t>(1) << (len % 4 * 8);
             return *this;
         }          
 
-- 
2.43.0


From ad495b0bbc1de0234b00ba50c30ea8f26c2d1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 14/39] fix: notBits kept leading zero limbs and a signed zero

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 148c9ad..b0de502 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1206,6 +1206,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From 6dfee9dc68ba0be51083b3338020edadf9fedcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 15/39] fix: using or assigning a moved-from BigInteger
 dereferenced null

---
 src/BigInteger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index d867276..8bc9794 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -35,7 +35,7 @@ pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerI
 
 // move
 pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
-    other.m_pImpl = nullptr;
+    other.m_pImpl.reset(new BigIntegerImpl{}); // a moved-from object can be used again
 }
 
 // from POD-integer : only for int64_t
@@ -65,7 +65,7 @@ pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
     if (this == &other) return *this;
 
     m_pImpl = std::move(other.m_pImpl);
-    other.m_pImpl = nullptr;
+    other.m_pImpl.reset(new BigIntegerImpl{}); // a moved-from object can be used again
 
     return *this;
 }
-- 
2.43.0


From aea2fda5dae4a5a141b97f86911c245e813ff74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 16/39] fix: long division left the lazy cache of the reused
 quotient and remainder

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index b0de502..06b7537 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1557,6 +1557,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite();
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From 9cd9aa20b4cef4fbec0756893e49efdf3f488fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 17/39] fix: notifyAllPop raced with waiting workers and could
 lose the wake-up

---
 src/parallel/SimpleConcurrenceQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..395a453 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,6 +72,7 @@ public:
     }
 
     void notifyAllPop() {
+        std::lock_guard<std::mutex> _(m_mutex);
         m_alwaysPop = true;
         m_cond.notify_all();
     }
-- 
2.43.0


From 4e899c442562574f286eadfd61889ea6f22388cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 18/39] fix: peval hung when a registered function threw

---
 src/infixExpr/ExprTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index e2dbbc6..ae6c0e1 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -142,8 +142,12 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        auto temp = node->evalCallback(node, true);
+        node->valPromise.set_value(temp);
+    } catch (...) { // the parent(or peval's caller) gets it instead of waiting for ever
+        node->valPromise.set_exception(std::current_exception());
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From 5fb67a2ae68b6be5bfc01f2100f2bf33698f4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 19/39] fix: concurrent reads of one negative integer raced on
 its lazy cache

---
 src/BigIntegerImpl.cpp | 18 ++++++++++++------
 src/BigIntegerImpl.h   |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 06b7537..83360fb 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1109,7 +1109,7 @@ void BigIntegerImpl::modAssignAndQuotient(std::int64_t i64, BigIntegerImpl & q)
 
 #define DEFINE_BITWISE(operator, otherlen, getU32Index) \
     m_mag.cloneData(); \
-    getU32(0); \
+    cacheFirstNonZeroU32Index(); \
     const SizeType len = std::max(m_mag.count(), otherlen) + 1; \
     m_mag.slice(0, len); \
     for (SizeType i = 0; i < len; ++i) { \
@@ -1136,7 +1136,9 @@ void BigIntegerImpl::modAssignAndQuotient(std::int64_t i64, BigIntegerImpl & q)
     DEFINE_BITWISE(operator, static_cast<SizeType>(2), detail::getU32OfI64ByIndex(i64, i))
 
 #define DEFINE_BITWISE_WITH_OTHER(operator) \
-    DEFINE_BITWISE(operator, other.m_mag.count(), other.getU32(i))
+    BigIntegerImpl right(other); \
+    right.cacheFirstNonZeroU32Index(); \
+    DEFINE_BITWISE(operator, right.m_mag.count(), right.getU32(i))
 
 
 void BigIntegerImpl::andAssign(std::int64_t i64) {
@@ -1165,7 +1167,7 @@ void BigIntegerImpl::xorAssign(const BigIntegerImpl & other) {
 
 void BigIntegerImpl::notSelf() {
     m_mag.cloneData(); // COW
-    getU32(0); // cache
+    cacheFirstNonZeroU32Index(); // cache
 
     const SizeType len = m_mag.count() + 1;
     m_mag.slice(0, len);
@@ -1682,11 +1684,15 @@ SizeType BigIntegerImpl::getFirstNonZeroU32Index() const {
     if (flagsContains(BNFlag::FIRST_NZ_U32_INDEX_CALCUED))
         return m_firstNotZeroU32IndexLazy;
 
-    // 重新求值并设置标志位
+    // 重新求值, 不设置标志位(const函数可能被多个线程同时调用)
     auto iter = std::find_if(m_mag.begin(), m_mag.end(), [] (std::uint32_t e) { return e != 0; });
-    
+
+    return iter - m_mag.begin();
+}
+
+void BigIntegerImpl::cacheFirstNonZeroU32Index() {
+    m_firstNotZeroU32IndexLazy = getFirstNonZeroU32Index();
     detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
-    return m_firstNotZeroU32IndexLazy = (iter - m_mag.begin());
 }
 
 void BigIntegerImpl::setFlagsToPositive() {
diff --git a/src/BigIntegerImpl.h b/src/BigIntegerImpl.h
index b526ec8..52804bd 100644
--- a/src/BigIntegerImpl.h
+++ b/src/BigIntegerImpl.h
@@ -185,6 +185,7 @@ private:
     void beginWrite(); // 初始化写操作
 
     SizeType getFirstNonZeroU32Index() const;
+    void cacheFirstNonZeroU32Index();
 
     void setFlagsToPositive();
     void setFlagsToNegative();
-- 
2.43.0


From ef45f5700f085cd597309bca8590fe798cbbb31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 20/39] fix: copy-on-write took over the data of other threads
 without synchronising

---
 src/Slice.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index d2a1cc3..41a1c16 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -1,6 +1,7 @@
 #ifndef PGBIGNUMBER_SLICE_H
 #define PGBIGNUMBER_SLICE_H
 
+#include <atomic>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -72,7 +73,12 @@ public:
     }
 
     Slice & cloneData() {
-        if (!m_data || m_data.use_count() == 1) return *this;
+        if (!m_data) return *this;
+        if (m_data.use_count() == 1) {
+            // see everything the threads that dropped their copies did with the data before writing to it
+            std::atomic_thread_fence(std::memory_order_acquire);
+            return *this;
+        }
 
         std::shared_ptr<Vec> newData(new Vec(DEFAULT_PRE_SPACE + m_hi - m_lo));
         std::copy(m_data->begin() + m_lo, m_data->begin() + m_hi, newData->begin() + DEFAULT_PRE_SPACE);
-- 
2.43.0


From 49c310e97e48b8476d3c0982fb6a839f204a0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 21/39] fix: white space at the end of an expression made the
 tokenizer loop for ever

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..177b329 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From 1dba388c6744c277ebfed44135bc41f00caf5b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 22/39] fix: only the first upper-case digit of a literal was
 read

---
 src/infixExpr/Token.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..c48ff68 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,7 +231,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-- 
2.43.0


From 1c620c73a1d9a9322ffe93a4d4e27f171666553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 23/39] fix: the fraction part of a literal swallowed the
 character after it

---
 src/infixExpr/Token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index c48ff68..99a82e3 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -235,7 +235,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 04cc15fc7505b9c47ec17808ddb7fc0f69c425da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 24/39] fix: the tokens before a tokenizer error were evaluated
 as if they were the expression

---
 src/infixExpr/ExprParser.cpp |  1 +
 src/infixExpr/ExprParser.h   |  7 ++++---
 src/infixExpr/Token.h        | 23 +++++++++++++++--------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4f820d6..27338ee 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,6 +23,7 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
+    CKERR(); // tokenizer's error
     return parseExpr();
 }
 
diff --git a/src/infixExpr/ExprParser.h b/src/infixExpr/ExprParser.h
index 85f554e..b72882b 100644
--- a/src/infixExpr/ExprParser.h
+++ b/src/infixExpr/ExprParser.h
@@ -60,13 +60,14 @@ private:
 template <typename S>
 inline ExprParser::ExprParser(
     S & stream, const Hooks & hooks, NodePool * pNodePool
-) : m_tokens(tokenizer(stream, hooks)), m_pNodePool(pNodePool) {
-
+) {
+    init(stream, hooks, pNodePool);
 }
 
 template <typename S>
 void ExprParser::init(S & stream, const Hooks & hooks, NodePool * pNodePool) {
-    m_tokens = tokenizer(stream, hooks);
+    m_errCode = ErrCode::SUCCESS;
+    m_tokens = tokenizer(stream, hooks, &m_errCode);
     m_currTokenIndex = 0;
     m_pNodePool = pNodePool;
 }
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 99a82e3..50e0ffb 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -53,9 +53,16 @@ struct Token {
 
 // FIXME: Support SelfDefined-Hooks
 template<typename STREAM>
-inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
+inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks, Enum * errCode = nullptr) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
     std::vector<Token> res;
 
+    // 出错: 设置错误码, 最后一个Token置为INVALID
+    const auto fail = [&res, errCode](Enum code) {
+        PGBN_GetGlobalStatus() = code;
+        res.back().type = TokenType::INVALID;
+        if (errCode) *errCode = code;
+    };
+
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
@@ -162,7 +169,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 tokenType = TokenType::EQU;
                 SET_TOKEN_DEBUG_INFO("==");
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_EQU_INVALID;
+                fail(ErrCode::PARSE_INFIXEXPR_EQU_INVALID);
                 return res;
             }
             break;
@@ -225,7 +232,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
-                            PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
+                            fail(ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL);
                             return res;
                         }
                     }
@@ -242,14 +249,14 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 }
 
                 if (!(radix >= 2 && radix <= 36)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_RADIX_INVALID;
+                    fail(ErrCode::PARSE_INFIXEXPR_RADIX_INVALID);
                     return res;
                 }
 
                 tokenType = TokenType::LITERAL;
                 tokenVal = Value{};
                 if (!hooks.literal2Value || !hooks.literal2Value(tokenVal, radix, literalBeforeDot, literalAfterDot)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
+                    fail(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
                     return res;
                 }
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
@@ -262,13 +269,13 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
 
                 SymbolTable::Symbol * pSymbol = SymbolTable::getInstance()->get(symbolName);
                 if (pSymbol == nullptr) { // UndefinedSymbol
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED;
+                    fail(ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED);
                     return res;
                 } else {
                     if (pSymbol->is<Func>()) tokenType = TokenType::BUILTINFUNC;
                     else if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;
                     else { // InvalidBuiltinSymbol
-                        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID;
+                        fail(ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID);
                         return res;
                     }
                     tokenPSymbol = pSymbol;
@@ -279,7 +286,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     *tokenPSymbol
                 ));
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_CHAR_INVALID;
+                fail(ErrCode::PARSE_INFIXEXPR_CHAR_INVALID);
                 return res;
             }
             break;
-- 
2.43.0


From 1daa742928a6003c22a4fe274b00af7e5ecff7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 25/39] fix: tokens after a complete expression were ignored

---
 src/infixExpr/ExprParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 27338ee..012c656 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -24,7 +24,10 @@ ExprParser::ExprParser() = default;
 // public functions
 ExprNode * ExprParser::parse() {
     CKERR(); // tokenizer's error
-    return parseExpr();
+    Node * root = parseExpr(); CKERR();
+    if (m_currTokenIndex + 1 != m_tokens.size()) // only the terminator is left
+        BADTOK(TokenType::TAIL, "unexpected token after the expression");
+    return root;
 }
 
 // private functions
-- 
2.43.0


From 45d3a7a4bfe77542eb2b47dad3d8c7d390fc2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 26/39] fix: a missing operand crashed the evaluation

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 012c656..8b00847 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -180,7 +180,7 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
-    return nullptr;
+    BADTOK(TokenType::INVALID, "expected an operand");
 }
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
-- 
2.43.0


From 626f806260d08a74a3be0cad09ae9def50897c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 27/39] fix: a malformed expression set the status to an
 unregistered code

---
 src/eval.cpp               | 21 +++++++++------------
 src/infixExpr/ExprParser.h |  3 ++-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..a26d5da 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -10,20 +10,20 @@ using namespace pg::base;
 using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
-static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
+static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool, Status *status) {
     StringReadStream testSrc1Stream(str.data());
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
-    return parser.parse();
+    auto *root = parser.parse();
+    // the parser has set the status of this thread
+    if (!root && status != Status::getInstance()) (*status) = parser.errCode();
+    return root;
 }
 
 Int pgbn::expr::eval(const StringArg &expr, Status *status) {
     if (!status) status = Status::getInstance();
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
-    if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
-        return Int{};
-    }
+    auto *root = parseString(expr, &nodePool, status);
+    if (!root) return Int{};
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
 }
 
@@ -33,11 +33,8 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (!status) status = Status::getInstance();
 
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
-    if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
-        return Int{};
-    }
+    auto *root = parseString(expr, &nodePool, status);
+    if (!root) return Int{};
 
     // Topological sort tasks & Async run tasks
     parallel::ThreadPool threadPool(threads);
diff --git a/src/infixExpr/ExprParser.h b/src/infixExpr/ExprParser.h
index b72882b..da0242f 100644
--- a/src/infixExpr/ExprParser.h
+++ b/src/infixExpr/ExprParser.h
@@ -26,7 +26,8 @@ public:
     ExprParser & operator=(const ExprParser &) = delete;
     ExprParser & operator=(ExprParser &&) = delete;
 
-    Node * parse();
+    Node * parse(); // nullptr on error
+    Enum errCode() const { return m_errCode; }
 
 private:
     Node * parseExpr();
-- 
2.43.0


From c588709eed031d474eacf493940f7413d848743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 28/39] fix: eval read beyond the end of a string_view

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index a26d5da..c5e70fb 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool, Status *status) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string src(str); // str may have no terminator
+    StringReadStream testSrc1Stream(src);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     auto *root = parser.parse();
     // the parser has set the status of this thread
-- 
2.43.0


From 3d6f56923f96dded3cf2db7a51bb6774fe4d34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 29/39] fix: a call with the wrong number of arguments was
 made, and its error code was not registered

---
 src/errInfos.cpp             | 3 ++-
 src/infixExpr/ExprParser.cpp | 6 ++++++
 src/infixExpr/ExprTree.cpp   | 1 -
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..c7dc072 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Wrong Number Of Arguments"           , pgbn::detail::debugPrint        }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 8b00847..50afd1d 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -189,6 +189,12 @@ ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
         argNodes.push_back(parseExpr());
     }
+    const auto & func = symbol->as<Func>();
+    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != argNodes.size()) {
+        m_errCode = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        return nullptr;
+    }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
 
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index ae6c0e1..6bd02fe 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -129,7 +129,6 @@ static Value valEvalCallback(ExprNode * node, bool) {
 static Value builtinFuncEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->nodeType == ExprNode::NodeType::BUILTINFUNC);
     Func func = node->symbol->as<Func>();
-    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
     PGZXB_DEBUG_ASSERT(!!func.nativeCall);
     std::vector<Value> args;
     for (auto * ch : node->children) { 
-- 
2.43.0


From 25aec293c0a81517940283b53d9418e01b465a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 30/39] fix: every new thread re-registered the built-in
 errors, racing and undoing the user's registrations

---
 src/Status.cpp | 33 +++++++++++++++++++--------------
 src/Status.h   |  2 ++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..a9ee61e 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,29 +6,34 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
-    for (SizeType i = 0; i < errInfoCount; ++i) {
-        auto & errInfo = errInfos[i];
-        Status::registe(
-            errInfo.code,
-            errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
-        );
-    }
-    return errInfoCount % 2 == 0;
-}
-
 // static member
 std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
 
+// once per process, before the first use; what the user has registered is kept
+void Status::registeBuiltins() {
+    static const bool once = [] () {
+        for (SizeType i = 0; i < errInfoCount; ++i) {
+            auto & errInfo = errInfos[i];
+            s_mp.emplace(errInfo.code, std::make_tuple(
+                std::string(errInfo.info),
+                Callback(std::bind(errInfo.callback, errInfo.code, errInfo.info))
+            ));
+        }
+        return true;
+    }();
+    PGZXB_UNUSED(once);
+}
+
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
+    registeBuiltins();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
+    registeBuiltins();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     m_errno = no;
@@ -52,8 +57,7 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
+    registeBuiltins();
 
     return &s_ins;
 }
@@ -70,6 +74,7 @@ void Status::callback(Enum no) {
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
+    registeBuiltins();
     auto iter = s_mp.find(no);
     if (iter == s_mp.end()) {
         t && (*t = nullptr);
diff --git a/src/Status.h b/src/Status.h
index 9db867e..4d1e68a 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -52,6 +52,8 @@ public:
 private:
     static std::unordered_map<Enum, std::tuple<std::string, Callback>> s_mp;
 
+    static void registeBuiltins();
+
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
     static void callback(Enum no);
-- 
2.43.0


From 230cde071faf6cfd6030b27bf1e53d52442f014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 31/39] fix: including Fraction.h in two source files broke the
 link

---
 src/Fraction.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..5eedfcf 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -111,7 +111,7 @@ private:
     BigInteger m_den{1}; // denominator
 };
 
-Fraction operator+(const Fraction &left, const Fraction &right) {
+inline Fraction operator+(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den + right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -121,7 +121,7 @@ Fraction operator+(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator-(const Fraction &left, const Fraction &right) {
+inline Fraction operator-(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den - right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -131,7 +131,7 @@ Fraction operator-(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator*(const Fraction &left, const Fraction &right) {
+inline Fraction operator*(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_num;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -141,7 +141,7 @@ Fraction operator*(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator/(const Fraction &left, const Fraction &right) {
+inline Fraction operator/(const Fraction &left, const Fraction &right) {
     if (right.m_num == 0) {
         PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
         return {};
-- 
2.43.0


From f8a1bdb63ec3b0b04b9fcbfdce0d99642c02a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 32/39] fix: the reciprocal of zero was a fraction with a zero
 denominator

---
 src/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 5eedfcf..6d24af0 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -83,7 +83,7 @@ public:
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From 3f79514a1f9194b59bc8cca588236ebec899c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 33/39] fix: toDecimal lost leading zeros of the fraction part
 and the sign

---
 src/Fraction.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 6d24af0..2260049 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -69,17 +69,17 @@ public:
     }
 
     std::string toDecimal(int maxDecimalDigitCount = 8) const {
-        auto q = m_num.absoluted() % m_den.absoluted();
+        const auto num = m_num.absoluted();
+        const auto den = m_den.absoluted();
         std::string digitalDigitsStr;
         if(maxDecimalDigitCount > 0) {
             auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
+            const auto digits = (num % den * mul / den).toString();
             digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+                .append(maxDecimalDigitCount - digits.size(), '0')
+                .append(digits);
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        return (m_num.cmp(0) * m_den.cmp(0) < 0 ? "-" : "") + (num / den).toString(10) + digitalDigitsStr;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-- 
2.43.0


From b683064ef63bb7962d4449dc41176d1076a22c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 34/39] fix: the storage of an integer shifted left and right
 in turn grew without bound

---
 src/Slice.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 41a1c16..b5e23be 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -74,7 +74,8 @@ public:
 
     Slice & cloneData() {
         if (!m_data) return *this;
-        if (m_data.use_count() == 1) {
+        const bool wasteful = m_data->size() > 2 * count() + 16; // too much room outside of [lo, hi)
+        if (m_data.use_count() == 1 && !wasteful) {
             // see everything the threads that dropped their copies did with the data before writing to it
             std::atomic_thread_fence(std::memory_order_acquire);
             return *this;
-- 
2.43.0


From 4cc8a8fe3908762326296855a78c6c66882a5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 35/39] hook: PGBN_MONITOR_TSAN makes the copy-on-write fence
 visible to ThreadSanitizer

---
 src/Slice.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Slice.h b/src/Slice.h
index b5e23be..acb3e51 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -78,6 +78,10 @@ public:
         if (m_data.use_count() == 1 && !wasteful) {
             // see everything the threads that dropped their copies did with the data before writing to it
             std::atomic_thread_fence(std::memory_order_acquire);
+#ifdef PGBN_MONITOR_TSAN
+            // ThreadSanitizer does not model fences: an acquiring read-modify-write of the count stands in for it
+            std::shared_ptr<Vec> acquire(m_data);
+#endif
             return *this;
         }
 
-- 
2.43.0


From f7e8d59ddf6aed602947b7a878fb87c2a6481329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 36/39] fix: formatted text was written into buffers too small
 for it

---
 src/pgdebug.h | 93 +++++++++++++--------------------------------------
 1 file changed, 23 insertions(+), 70 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index df36470..6a9c384 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -32,6 +32,7 @@
 #ifndef __TOSTRING_UTIL_H__
 #define __TOSTRING_UTIL_H__
 
+#include <cstdio>
 #include <cstring>
 #include <string>
 #include <type_traits>
@@ -65,6 +66,16 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
 
     // function-definitions
+    template <typename _Type>
+    std::string printToString(const std::string & fmt, _Type ele) { // as long as the text needs
+        const int len = std::snprintf(nullptr, 0, fmt.c_str(), ele);
+        if (len <= 0) return std::string();
+        std::string res(static_cast<std::size_t>(len) + 1, '\0');
+        std::snprintf(&res[0], res.size(), fmt.c_str(), ele);
+        res.pop_back();
+        return res;
+    }
+
     inline std::string transToString(const bool & ele, const std::string &) {
         return ele ? "true" : "false";
     }
@@ -74,19 +85,11 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + PRId16, ele);
     }
 
     inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + PRIu16, ele);
     }
 
     inline std::string transToString(const std::uint8_t & ele, const std::string &) {
@@ -94,90 +97,40 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + PRId32, ele);
     }
 
     inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + PRIu32, ele);
     }
 
     inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRId64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + PRId64, ele);
     }
 
     inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRIu64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + PRIu64, ele);
     }
 
     inline std::string transToString(const float & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%sf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + "f", ele);
     }
 
     inline std::string transToString(const double & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%slf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + "lf", ele);
     }
 
     inline std::string transToString(const long double & ele, const std::string & limit) {
-        char buf[50] = { 0 };
-        char fmt[30] = { 0 };
-        sprintf(fmt, "%%%sllf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printToString("%" + limit + "llf", ele);
     }
 
     inline std::string transToString(const std::string & ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        HeapCharArrayWrapper buf(new char[(ele.size() + 1) * 2]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele.c_str());
-        return std::string(buf.ptr);
+        if (limit.empty()) return ele;
+        return printToString("%" + limit + "s", ele.c_str());
     }
 
     inline std::string transToString(const char * ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        const size_t len = std::strlen(ele);
-        HeapCharArrayWrapper buf(new char[len << 1]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele);
-        return std::string(buf.ptr);
+        return printToString("%" + limit + "s", ele);
     }
 
     template <typename _First, typename _Second>
-- 
2.43.0


From a597573f1bbc9d27a5ecfd7e52b3cf9d84c68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 37/39] fix: format dropped arguments beyond the number of
 placeholders and gave specifications to the wrong argument

---
 src/pgdebug.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 6a9c384..5dd04fe 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -287,7 +287,7 @@ namespace pg::util::stringUtil {
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
         if (contentRangeInBracket.empty()) return fmt;
 
-        std::vector<std::string> limits;
+        std::vector<std::string> limits(sizeof...(args)); // of each argument
         std::vector<int> nos;
         
         for (
@@ -296,9 +296,9 @@ namespace pg::util::stringUtil {
             
             std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
             nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
+            const std::size_t no = nos.back();
+            if (partiIter != iter->second && no < limits.size())
+                limits[no].assign(partiIter + 1, iter->second);
         }
         
         std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
@@ -326,7 +326,7 @@ namespace pg::util::stringUtil {
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
         if (contentRangeInBracket.empty()) { res = fmt; return; }
 
-        std::vector<std::string> limits;
+        std::vector<std::string> limits(sizeof...(args)); // of each argument
         std::vector<int> nos;
         
         for (
@@ -335,9 +335,9 @@ namespace pg::util::stringUtil {
             
             std::string::const_iterator partiIter =  std::find(iter->first, iter->second, ':');
             nos.push_back(std::atoi(fmt.c_str() + (iter->first - fmt.begin())));
-            if (partiIter != iter->second)
-                limits.push_back(std::string().assign(partiIter + 1, iter->second));
-            else limits.emplace_back();
+            const std::size_t no = nos.back();
+            if (partiIter != iter->second && no < limits.size())
+                limits[no].assign(partiIter + 1, iter->second);
         }
         
         std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
-- 
2.43.0


From 6eec74ea1613c5f7df3860283319b1654120174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 38/39] fix: formatAppend replaced the text instead of
 appending when there was no placeholder

---
 src/pgdebug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 5dd04fe..0f08df5 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -324,7 +324,7 @@ namespace pg::util::stringUtil {
         
         std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res = fmt; return; }
+        if (contentRangeInBracket.empty()) { res.append(fmt); return; }
 
         std::vector<std::string> limits(sizeof...(args)); // of each argument
         std::vector<int> nos;
-- 
2.43.0


From 555dcbab26415fc9eb745d30d1c00ef330599ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 39/39] fix: a thread that could not be started terminated the
 program instead of being reported

---
 src/parallel/ThreadPool.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parallel/ThreadPool.h b/src/parallel/ThreadPool.h
index db12b5e..be6faa6 100644
--- a/src/parallel/ThreadPool.h
+++ b/src/parallel/ThreadPool.h
@@ -15,10 +15,11 @@ inline static auto kDefaultNThreads = std::thread::hardware_concurrency();
 class ThreadPool {
     using TaskQueue = SimpleConcurrenceQueue<RawTask>;
 public:
-    ThreadPool(std::size_t nThreads = kDefaultNThreads) : m_running(true) {
-        m_threads.resize(nThreads);
-        for (auto &t : m_threads) {
-            t = std::thread([this]() {
+    // The delegation makes ~ThreadPool end the threads already started when one cannot be started
+    ThreadPool(std::size_t nThreads = kDefaultNThreads) : ThreadPool(Running{}) {
+        m_threads.reserve(nThreads);
+        while (m_threads.size() < nThreads) {
+            m_threads.emplace_back([this]() {
                 while (true) {
                     RawTask task{nullptr};
                     if (m_tasks.pop(task)) {
@@ -62,6 +63,9 @@ public:
     }
 
 private:
+    struct Running {};
+    explicit ThreadPool(Running) : m_running(true) {}
+
     std::atomic<bool> m_running{false};
     TaskQueue m_tasks;
     std::vector<std::thread> m_threads;
-- 
2.43.0

