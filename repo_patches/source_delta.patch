From f7db2e426d51fc726dcd81695340474ab9018e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 01/54] fix: kmpSearch writes out of bounds for an empty
 pattern and wraps a start beyond the text

---
 src/algorithm/kmp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..2d161ca 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -6,6 +6,8 @@
 namespace cuhksz {
 int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
+  if (start > base.size()) return -1;
+  if (pattern.empty()) return start;
   // generate next table
   int psize = pattern.size();
   std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
-- 
2.43.0


From 76e12653c706ec5dafeae1da238c1e4e09796bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 02/54] fix: binaryPow overflows in a last square that the
 result does not need

---
 src/math_utils/binary_pow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_utils/binary_pow.cpp b/src/math_utils/binary_pow.cpp
index 3536118..fc010f4 100644
--- a/src/math_utils/binary_pow.cpp
+++ b/src/math_utils/binary_pow.cpp
@@ -12,7 +12,7 @@ int64_t binaryPow(int64_t base, int exp) {
     if (exp & 1) {  // exp % 2 == 1
       result *= base;
     }
-    base *= base;
+    if (exp > 1) base *= base;  // a needless last square could overflow
     exp >>= 1;  // exp /= 2
   }
   return result;
-- 
2.43.0


From a01388188cf2cf07a1f76282d0bec34d14990d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 03/54] fix: genericBinaryPow squares once too often and
 overflows on representable results

---
 src/include/math_utils/math_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 918a454..5ec63af 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -422,7 +422,7 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
+    if (exp > 1) base *= base;  // a needless last square could overflow
     exp /= 2;
   }
   return result;
@@ -443,7 +443,7 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
+    if (exp > 1) base *= base;  // a needless last square could overflow
     exp /= 2;
   }
   return result;
-- 
2.43.0


From 9d77507e6ad3659e3ff204475bba7fe3e6df6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 04/54] fix: permutation(n, 0) is 1, not n

---
 src/include/math_utils/math_functions.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 5ec63af..d43c4e0 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -476,6 +476,7 @@ IntType factorial(IntType n) {
 template <typename IntType>
 IntType permutation(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for permutation.");
+  if (r == 0) return 1;
   IntType result = n;
   n--;
   for (; r > 1; r--, n--) {
-- 
2.43.0


From 833cfc808f417b0bcf42626febd3fdb49438e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 05/54] fix: binomial counts in int although n may be a wider
 type

---
 src/include/math_utils/math_functions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index d43c4e0..4f8cc6c 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -501,9 +501,9 @@ IntType binomial(IntType n, IntType r) {
   if (r == 0) return 1;
   if (r > n / 2) return binomial(n, n - r);
   std::unique_ptr<IntType[]> combination(new IntType[r]);
-  for (int i = 0; i < r; i++) combination[i] = 1;
-  for (int i = 0; i < n - r; i++) {
-    for (int j = 0; j < r; j++) {
+  for (IntType i = 0; i < r; i++) combination[i] = 1;
+  for (IntType i = 0; i < n - r; i++) {
+    for (IntType j = 0; j < r; j++) {
       if (j == 0) {
         combination[j] += 1;
       } else {
-- 
2.43.0


From 57c76d6a69ad4264e029d70cdbde6a5793eae5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:16 +0000
Subject: [PATCH 06/54] fix: base64Decode drops NUL bytes of the decoded data

---
 src/base64/base64_functions.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..53fd8dd 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,12 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
-  for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
+  // trailing bits that do not make up a whole byte are padding
+  std::size_t size = binaryDecodeStr.length() - binaryDecodeStr.length() % 8;
+  for (std::size_t i = 0; i < size; i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From 635a45603e91e3f624742216b9e5ee24ec797acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:16 +0000
Subject: [PATCH 07/54] fix: urlDecode reads past the end of a text that ends
 inside an escape

---
 src/network/network_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..6b16847 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -51,7 +51,7 @@ std::string urlDecode(const std::string str) {
   for (size_t i = 0; i < length; i++) {
     if (str[i] == '+') {
       escaped << ' ';
-    } else if (str[i] == '%') {
+    } else if (str[i] == '%' && i + 2 < length) {
       int high = hexToInt(str[++i]);
       int low = hexToInt(str[++i]);
 
-- 
2.43.0


From ede4365cfa5aab9c84b8760c31e90c68e5c93f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:39 +0000
Subject: [PATCH 08/54] fix: int - Fraction and int / Fraction computed with
 swapped operands

---
 src/include/math_utils/Fraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..d726e17 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -56,7 +56,7 @@ class Fraction {
   }
 
   friend Fraction operator-(int value, Fraction const &self) {
-    return self - value;
+    return Fraction(value) - self;
   }
 
   void operator-=(Fraction const &other) {
@@ -87,7 +87,7 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-- 
2.43.0


From 986ccaabbffefe96a92b2a1dee9419016f0d81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:39 +0000
Subject: [PATCH 09/54] fix: Fraction::operator/= divided numerators and
 denominators as integers

---
 src/include/math_utils/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index d726e17..05d5912 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -91,7 +91,7 @@ class Fraction {
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From 8d87e5b7a4c4583bd24c94cb5f6ffc3c6523f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 10/54] fix: copying a BigNum left stale digits above its
 length

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..439290a 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -43,7 +43,7 @@ class BigNum {
   BigNum(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
   }
 
   ~BigNum() {}
@@ -52,7 +52,7 @@ class BigNum {
   BigNum& operator=(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
     return *this;
   }
 
-- 
2.43.0


From 79137c88737f8334fe06ff42aae1cdfe99774f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 11/54] fix: BigNum absolute comparison was reversed for a
 negative first operand

---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 439290a..65c65e7 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -238,9 +238,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int sign = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? sign : -sign;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? sign : -sign;
     return 0;
   }
 
-- 
2.43.0


From e43f1185f38e4b1fcf4d220ccf3c1e36d9a630be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 12/54] fix: BigNum product ignored the sign of the second
 factor

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 65c65e7..ef84e14 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -292,7 +292,7 @@ class BigNum {
       ret[i] %= BigNum::base;
     }
     if (ret[ret.len]) ret.len++;
-    ret.sign = a.sign;
+    ret.sign = a.sign * b.sign;
     return ret;
   }
 
-- 
2.43.0


From a13bf994378d6fb98a1cd45a6505e8bb04f59f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 13/54] fix: BigNum built from a string with leading zeros was
 not normalised ("0" != 0)

---
 src/include/math_utils/BigNum.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index ef84e14..2c78d18 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -38,6 +38,8 @@ class BigNum {
     if ((s.size() - (s[0] == '-')) % BigNum::order)
       elem[len++] = std::stoi(
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    while (len > 0 && !elem[len - 1]) len--;
+    if (len == 0) sign = 1;
   }
 
   BigNum(const BigNum& src) {
-- 
2.43.0


From 5e900c39d961df7f0ae37c95b46d13e1514a1dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 14/54] fix: negating a zero BigNum gave a negative zero

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 2c78d18..11f0084 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -212,7 +212,7 @@ class BigNum {
   // other
   BigNum operator-() const {
     BigNum ret = *this;
-    ret.sign = -ret.sign;
+    if (ret.len) ret.sign = -ret.sign;
     return ret;
   }
 
-- 
2.43.0


From a59e643b8afe886bfe76eb55d0cd610b90df907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 15/54] fix: BigNum zero was written as an empty string

---
 src/include/math_utils/BigNum.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 11f0084..af4c193 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -308,6 +308,7 @@ class BigNum {
   std::string toString() const {
     std::string s;
     if (sign < 0) s += "-";
+    if (len == 0) s += "0";
     for (int i = len - 1; i >= 0; i--) s += std::to_string(elem[i]);
     return s;
   }
-- 
2.43.0


From 967fc1e660e791a9503eb0bab2d84402746ff949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 16/54] fix: BigNum::operator*= was declared const and did not
 compile

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index af4c193..0a9449e 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -198,7 +198,7 @@ class BigNum {
     return ret;
   }
 
-  BigNum& operator*=(const BigNum& other) const {
+  BigNum& operator*=(const BigNum& other) {
     *this = mul(*this, other);
     return *this;
   }
-- 
2.43.0


From 4c1b0181ab66bdba1af655d565ec01804092e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 17/54] fix: BigNum postfix increment and decrement returned a
 dangling reference

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 0a9449e..66431ba 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -221,7 +221,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator++(int) {  // postfix ++
+  BigNum operator++(int) {  // postfix ++
     BigNum ret = *this;
     ++(*this);
     return ret;
@@ -232,7 +232,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator--(int) {
+  BigNum operator--(int) {
     BigNum ret = *this;
     --(*this);
     return ret;
-- 
2.43.0


From d06f595c3900adb6ed4ad455b126a55c42290d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:18 +0000
Subject: [PATCH 18/54] fix: BigNum::abs assigned to a member in a const
 function and did not compile

---
 src/include/math_utils/BigNum.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 66431ba..5576bbc 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -298,12 +298,13 @@ class BigNum {
     return ret;
   }
 
-  BigNum& abs() const {
-    sign = 1;
-    return *this;
+  BigNum abs() const {
+    BigNum ret = *this;
+    ret.sign = 1;
+    return ret;
   }
 
-  friend BigNum& abs(const BigNum& a) { return a.abs(); }
+  friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
     std::string s;
-- 
2.43.0


From 29ea8a1414a0123bae0590eb2bdbeb24215d7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:12 +0000
Subject: [PATCH 19/54] fix: BigNum reads past elem[] when a result uses all
 MAX_SIZE digits

---
 src/include/math_utils/BigNum.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 5576bbc..c1b9739 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -256,7 +256,7 @@ class BigNum {
         ret[i] -= BigNum::base;
         ret[i + 1]++;
       }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
@@ -290,10 +290,10 @@ class BigNum {
         ret[i + j] += a[i] * b[j];
       }
     for (int i = 0; i < ret.len; i++) {
-      ret[i + 1] += ret[i] / BigNum::base;
+      if (ret[i] >= BigNum::base) ret[i + 1] += ret[i] / BigNum::base;
       ret[i] %= BigNum::base;
     }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign * b.sign;
     return ret;
   }
-- 
2.43.0


From 82d69c4f1735fd52ab69492a35f819fa879ac9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:13 +0000
Subject: [PATCH 20/54] fix: BigNum(INT64_MIN) overflowed std::abs and stored
 negative digits

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index c1b9739..1ca8c8c 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -24,8 +24,8 @@ class BigNum {
     len = 0;
     sign = x < 0 ? -1 : 1;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int64_t i = std::abs(x); i; i /= BigNum::base)
-      elem[len++] = i % BigNum::base;
+    for (int64_t i = x; i; i /= BigNum::base)
+      elem[len++] = std::abs(i % BigNum::base);
   }
 
   BigNum(const std::string& s) {
-- 
2.43.0


From 218e4675915ef86681bbae4cf95f82b8457f8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:08 +0000
Subject: [PATCH 21/54] fix: Matrix::operator*= freed its rows twice

---
 src/include/math_utils/Matrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..152e7c8 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -84,7 +84,6 @@ class Matrix {
       for (int j = 0; j < ret->col; j++)
         for (int k = 0; k < col; k++)
           (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
     *this = *ret;
     return *this;
   }
-- 
2.43.0


From da26d1e0e4fe2d7155b779e12f9e32075ae46872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:08 +0000
Subject: [PATCH 22/54] fix: Matrix<int> and Matrix<double> could not be used
 together (clashing friend idMat(int))

---
 src/include/math_utils/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 152e7c8..7e9889a 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -132,7 +132,7 @@ class Matrix {
     }
   }
 
-  friend Matrix& idMat(int n) {
+  static Matrix& idMat(int n) {
     Matrix* ret = new Matrix(n);
     for (int i = 0; i < n; i++) (*ret)[i][i] = 1;
     return *ret;
-- 
2.43.0


From 80edd2ccdc4bf2f08baea04153fb0d98f407937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:08 +0000
Subject: [PATCH 23/54] fix: pow(Matrix, 0) recursed forever

---
 src/include/math_utils/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 7e9889a..5e5ed3f 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -139,6 +139,7 @@ class Matrix {
   }
 
   friend Matrix& pow(const Matrix& src, unsigned int n) {
+    if (n == 0) return idMat(src.row);
     if (n == 1) {
       Matrix* ret = new Matrix(src);
       return *ret;
-- 
2.43.0


From b2e54796406f577f63ee0e159771bba68eee8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:08 +0000
Subject: [PATCH 24/54] fix: pow(Matrix, n) never squared the half power

---
 src/include/math_utils/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 5e5ed3f..24b70fe 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -146,6 +146,7 @@ class Matrix {
     }
 
     Matrix& ret = pow(src, n >> 1);
+    ret *= Matrix(ret);
     if (n & 1) ret *= src;
     return ret;
   }
-- 
2.43.0


From ac6251bd231391b5761de023ed890c45fea9e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 25/54] fix: SegmentTree of an empty vector recursed forever

---
 src/include/graph/SegmentTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..91dbc95 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -50,7 +50,7 @@ SegmentTree<ValueType>::SegmentTree(std::vector<ValueType>& v) {
     addFlag.push_back(v[0]);
     mulFlag.push_back(v[0]);
   }
-  init(v, 0, size - 1, 1);
+  if (size > 0) init(v, 0, size - 1, 1);
 }
 
 template <typename ValueType>
-- 
2.43.0


From 160bd5b5683e2222b17e803ffd88a011ba716582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 26/54] fix: SegmentTree pushed the flags of a leaf to children
 outside the arrays

---
 src/include/graph/SegmentTree.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 91dbc95..27ae3e0 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -75,6 +75,21 @@ void SegmentTree<ValueType>::init(std::vector<ValueType>& v, int l, int r,
 template <typename ValueType>
 void SegmentTree<ValueType>::update(int o, int l, int r) {
   int ls = o << 1, rs = (o << 1) | 1;
+  if (l == r) {
+    // a leaf has no children to pass its flags on to
+    if (hasMulFlag[o]) {
+      minVal[o] *= mulFlag[o];
+      maxVal[o] *= mulFlag[o];
+      sumVal[o] *= mulFlag[o];
+    }
+    if (hasAddFlag[o]) {
+      minVal[o] += addFlag[o];
+      maxVal[o] += addFlag[o];
+      sumVal[o] += addFlag[o];
+    }
+    hasMulFlag[o] = hasAddFlag[o] = false;
+    return;
+  }
   if (hasMulFlag[o]) {
     hasMulFlag[o] = false;
     minVal[o] *= mulFlag[o];
-- 
2.43.0


From c02cf71c15d4d864af64b9fab0a111efad110459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 27/54] fix: SegmentTree minimum and maximum were not exchanged
 by a negative factor

---
 src/include/graph/SegmentTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 27ae3e0..f2b4579 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -95,6 +95,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
     if (hasMulFlag[ls]) {
       mulFlag[ls] *= mulFlag[o];
     } else {
-- 
2.43.0


From 674d14893756bf594b0b52cb67e37534cae3bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 28/54] fix: SegmentTree queries above an updated interval
 returned the old values

---
 src/include/graph/SegmentTree.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index f2b4579..2a5820b 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void pullUp(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -133,6 +134,18 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
   }
 }
 
+// recompute the values of o from its children
+template <typename ValueType>
+void SegmentTree<ValueType>::pullUp(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -204,6 +217,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 template <typename ValueType>
@@ -224,6 +238,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From 2fc04fadeb764f7c57f325052d5ca9c0507cee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 29/54] fix: LCA read past the shorter ancestor table after a
 jump

---
 src/graph/Tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..5812e9f 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -43,6 +43,8 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
+    // x and y are higher up after a jump: fewer ancestors are left
+    if (i >= (int)x->ancestor.size()) continue;
     if (x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
-- 
2.43.0


From 23eda6129f5b85a28492b132125d526f9242d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 30/54] fix: BST::pre and suf missed a predecessor or successor
 above the node

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..0f3fd55 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From fdb9da97251e5729d3d4485ef3e3cc240927959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 31/54] fix: BST::erase of a node with only a left child
 followed a null pointer

---
 src/graph/BST.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 0f3fd55..34559c7 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -88,7 +88,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
-- 
2.43.0


From 8675dcc882aca8a57e40f3df9354eff1a1648783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 32/54] fix: BST::erase left the children of the erased node
 pointing to it

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 34559c7..a291eb1 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -100,6 +100,8 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
 }
 
-- 
2.43.0


From 353aeea5c13e4e1350cf8472dca8d733b7e87471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 33/54] fix: BST::erase left stale child links in the erased
 node

---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index a291eb1..374053c 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -103,6 +103,8 @@ void BST::erase(BSTNode* x) {
     if (root->ch[0] != nullptr) root->ch[0]->fa = root;
     root->ch[1]->fa = root;
   }
+  // x is no longer linked to the tree, and can be inserted again
+  x->ch[0] = x->ch[1] = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From f334d4a6bc3c0c8d6586ed537fa6e05493f3b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 34/54] fix: Queue::first and Queue::last on an empty queue

---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From 1314db918a4ffaf32e065cd277e8acd65d7582fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 35/54] fix: reading a Vector with a malformed element looped
 forever

---
 src/include/containers/Vector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..4a1661a 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -414,6 +414,9 @@ std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
     while (true) {
       ValueType value;
       is >> value;
+      if (is.fail()) {
+        error("Invalid element in a vector");
+      }
       vec.push(value);
       is >> ch;
       if (is.eof()) {
-- 
2.43.0


From 12230b98678af5aa1d5daf42d3fa355e4de0dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:16 +0000
Subject: [PATCH 36/54] fix: Random::nextInt overflowed for ranges wider than
 int

---
 src/random/Random.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..7d6e97a 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -11,12 +11,15 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  // the width and the offset may exceed the range of int
+  std::int64_t width = (std::int64_t)max - min;
+  return (int)((std::int64_t)(randomGenerator() % std::uint64_t(width)) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  return (int)((std::int64_t)(randomGenerator() %
+                              (std::uint64_t(intMax) + 1 - intMin)) +
+               intMin);
 }
 
 int Random::nextInt(int max) {
-- 
2.43.0


From fe3f4c69db417d1ad66cc3e592bc3e529e34837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:16 +0000
Subject: [PATCH 37/54] fix: reading a Vector from an empty stream used an
 uninitialised char

---
 src/include/containers/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 4a1661a..908da62 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -402,7 +402,7 @@ std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
 
 template <typename ValueType>
 std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
-  char ch;
+  char ch = 0;
   is >> ch;
   if (ch != '{') {
     error("A vector should startwith \'{\'");
-- 
2.43.0


From f56bf53d38b7e49c9eea659e0c2f3c4361221920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 38/54] fix: variance of an int array overflowed and could be
 negative

---
 src/math_utils/statistics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math_utils/statistics.cpp b/src/math_utils/statistics.cpp
index cb50fad..51ffb88 100644
--- a/src/math_utils/statistics.cpp
+++ b/src/math_utils/statistics.cpp
@@ -15,11 +15,12 @@ double variance(const double* arr, int size) {
 
 double variance(const int* arr, int size) {
   double sum_square = 0.0;
+  double means = mean(arr, size);
   for (int i = 0; i < size; i++) {
-    sum_square += arr[i] * arr[i];
+    double mean_diff = arr[i] - means;
+    sum_square += mean_diff * mean_diff;
   }
-  double means = mean(arr, size);
-  return sum_square / size - means * means;
+  return sum_square / size;
 }
 
 double stddev(const double* arr, int size) {
-- 
2.43.0


From aaf86f8c86ffc3a03ae22af88cd779f78cf1d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:15 +0000
Subject: [PATCH 39/54] fix: Point *= and /= by one of its own coordinates

---
 src/include/geometry/Point.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..8d55f4b 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -85,7 +85,8 @@ class Point {
   }
 
   Point& operator*=(double const& constant) {
-    for (int i = 0; i < N; i++) elem[i] *= constant;
+    double const c = constant;  // constant may be one of the coordinates
+    for (int i = 0; i < N; i++) elem[i] *= c;
     return *this;
   }
 
@@ -96,7 +97,8 @@ class Point {
   }
 
   Point& operator/=(double const& constant) {
-    for (int i = 0; i < N; i++) elem[i] /= constant;
+    double const c = constant;  // constant may be one of the coordinates
+    for (int i = 0; i < N; i++) elem[i] /= c;
     return *this;
   }
 
-- 
2.43.0


From a168993ebebc864b02063bad210fe75cf6731fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:39 +0000
Subject: [PATCH 40/54] fix: loadJSON of a string without closing quote read
 past its end

---
 src/json/Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..dc3e147 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -89,6 +89,9 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
   JSONObject String;
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+    if (offset + (c == '\\') >= str.length()) {
+      error("String: Expected closing '\"', nothing remaining.");
+    }
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
-- 
2.43.0


From c1568e24b45e5cafc50c5232ab13b60c5d8b3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:39 +0000
Subject: [PATCH 41/54] fix: loadJSON lost its place after a number at the end
 or with an exponent

---
 src/json/Json.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index dc3e147..ce7bfcb 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -167,10 +167,11 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
     if (offset == str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
+    c = str[offset];
     if (c == '-') {
       exp_str += '-';
     }
+    if (c == '-' || c == '+') offset++;
     while (true) {
       c = str[offset];
 
@@ -184,11 +185,14 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
       }
       offset++;
     }
-    exp = cuhksz::stringCast<double>(exp_str);
+    if (exp_str.empty() || exp_str == "-") {
+      error("Number: Expected a number for exponent, found none.");
+    }
+    exp = cuhksz::stringCast<int>(exp_str);
   } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
   }
-  if (c != 0) --offset;
+  if (exp_str.empty()) --offset;
 
   if (isDouble)
     Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
-- 
2.43.0


From 3de9296fc8754174d7ecfcecd159a87b7649a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:59 +0000
Subject: [PATCH 42/54] fix: object keys with characters that JSON escapes were
 stored escaped and dumped raw

---
 src/json/Json.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index ce7bfcb..943e1b7 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -11,6 +11,7 @@
 namespace cuhksz {
 namespace {
 JSONObject parse_next(const std::string &str, size_t &offset);
+std::string parse_string_value(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
@@ -27,7 +28,12 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    JSONObject Key = parse_next(str, offset);
+    skip_whitespaces(str, offset);
+    std::string Key;
+    if (str[offset] == '\"')
+      Key = parse_string_value(str, offset);
+    else
+      Key = parse_next(str, offset).toString();
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -36,7 +42,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[Key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -85,8 +91,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_string_value(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
     if (offset + (c == '\\') >= str.length()) {
@@ -142,7 +147,12 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     }
   }
   ++offset;
-  String = val;
+  return val;
+}
+
+JSONObject parse_string(const std::string &str, size_t &offset) {
+  JSONObject String;
+  String = parse_string_value(str, offset);
   return String;
 }
 
@@ -253,7 +263,8 @@ JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -446,7 +457,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) +
+              "\" : " + p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 30d46529e98c91798fae4cffa612b0e18efb7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:59 +0000
Subject: [PATCH 43/54] fix: assigning a JSONObject to itself or from one of
 its parts used freed memory

---
 src/json/Json.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 943e1b7..d69416f 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -4,6 +4,7 @@
 #include <deque>
 #include <map>
 #include <string>
+#include <utility>
 
 #include "string_utils/StringCast.h"
 #include "utils/error.h"
@@ -341,7 +342,8 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
+  if (this == &src) return *this;
+  JSONObject old(std::move(*this));  // src may be a part of this object
   Data = src.Data;
   objType = src.objType;
   src.Data.Map = nullptr;
@@ -350,7 +352,8 @@ JSONObject &JSONObject::operator=(JSONObject &&src) {
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
+  if (this == &src) return *this;
+  JSONObject old(std::move(*this));  // src may be a part of this object
   switch (src.objType) {
     case Type::Object:
       Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-- 
2.43.0


From 4cec289d97df867e56c3c4d471c707fea74ba671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:59 +0000
Subject: [PATCH 44/54] fix: begin and end of a const JSONIterator called
 themselves forever

---
 src/include/json/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 64967c3..808686a 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -28,8 +28,12 @@ class JSONIterator {
   typename Container::iterator end() {
     return object ? object->end() : typename Container::iterator();
   }
-  typename Container::const_iterator begin() const { return begin(); }
-  typename Container::const_iterator end() const { return end(); }
+  typename Container::const_iterator begin() const {
+    return object ? object->begin() : typename Container::iterator();
+  }
+  typename Container::const_iterator end() const {
+    return object ? object->end() : typename Container::iterator();
+  }
 };
 
 /**
-- 
2.43.0


From 326d86a761fb7f4e6c337fd2af0e23a4b8491dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:59 +0000
Subject: [PATCH 45/54] fix: stringCast of a string without any text returned
 an uninitialised value

---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..52a35ce 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -21,7 +21,7 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    T casted = T();
     try {
       strStream >> casted;
     } catch (std::exception &e) {
-- 
2.43.0


From 7bc0d16ff886d1619d6db24e1b383ec7ca648ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:51 +0000
Subject: [PATCH 46/54] fix: assigning a JSON value to a part of itself lost
 the part's old value

---
 src/json/Json.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index d69416f..029d882 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -353,24 +353,8 @@ JSONObject &JSONObject::operator=(JSONObject &&src) {
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
   if (this == &src) return *this;
-  JSONObject old(std::move(*this));  // src may be a part of this object
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
-  return *this;
+  JSONObject copy(src);  // src may contain, or be a part of, this object
+  return operator=(std::move(copy));
 }
 
 JSONObject &JSONObject::operator[](const char key[]) {
-- 
2.43.0


From c8ef6454c46a84e7c8fdca2e8c1e77fa411ea97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:28 +0000
Subject: [PATCH 47/54] fix: assigning nullptr to a JSONObject built a string
 from a null pointer

---
 src/include/json/Json.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 808686a..29468bc 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -257,6 +257,15 @@ class JSONObject {
     return *this;
   }
 
+  /**
+   * Make the JSONObject a Null object.
+   * @return *this
+   */
+  JSONObject operator=(std::nullptr_t) {
+    setType(Type::Null);
+    return *this;
+  }
+
   /**
    * Look up a value with specific key in a map object. Will convert itself to
    * an Object if not before.
-- 
2.43.0


From 811c31c08d12706bb7b97e1876a84721ee877878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 48/54] fix: Trie::remove reads past the end of the check table
 for an absent word

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..ba4358d 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -213,7 +213,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From 327b9368e6a4448bb57a4da229a78e484c6f7e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 49/54] fix: Trie ignores arcs numbered 28 and above when it
 moves or visits children

---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ba4358d..cfcb59e 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -77,7 +77,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; base.getWithCheck(*n) + *offset < check.size(); (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -258,7 +258,7 @@ inline int Trie::checkAvailable(int i) {
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
+  for (int i = 1; base_n + i < check.size(); i++) {
     if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
-- 
2.43.0


From 141dea07375900fc06aa18a957710cb561967989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 50/54] fix: Trie iteration loses the words after the first
 subtree of the root

---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index cfcb59e..287b19d 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -95,11 +95,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From 2ed32131f76c3d93806681d52d9907359ba24dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 51/54] fix: a Trie uses the character mapper of the Trie
 constructed last

---
 src/include/string_utils/Trie.h | 19 +++++++++++--------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..d29a6e5 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -155,19 +155,21 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, int (*mapChar)(char),
+               std::size_t index = 0)
+          : index_(index), str_(str), mapChar(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar(iter.mapChar) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
@@ -188,9 +190,10 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, mapChar); }
+    iterator end() { return iterator(&underlying, mapChar, underlying.size()); }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 287b19d..51a5144 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From 09020781cbb9c4547db269d4f7f93ebe640d3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:56 +0000
Subject: [PATCH 52/54] fix: nextDouble(min, max) can return max

Engine outputs from 2^64 - 1024 on are rounded to 2^64 by the conversion to
double, and the sum with min is rounded too, so the result could be max, which
the documentation excludes.
---
 src/random/Random.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 7d6e97a..0efe7fb 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,6 @@
 #include "random/Random.h"
 
+#include <cmath>
 #include <cstdlib>
 #include <ctime>
 
@@ -29,7 +30,11 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  double result =
+      (double)randomGenerator() / int64Max * (max - min) + min;
+  // rounding can carry the result up to `max`, which is excluded
+  if (min < max && result >= max) result = std::nextafter(max, min);
+  return result;
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From f54d876f81c73b77ce5df599089385b806881271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:10 +0000
Subject: [PATCH 53/54] fix: BinomialDistribution(n, p) overflows int for n
 above 33

binomial(n, i) is computed in int; BinomialDistribution(40, 0.5) had mean 39.9.
---
 src/random/BinomialDistribution.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index db9727a..9a9c46f 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -16,10 +16,12 @@ void BinomialDistribution::init(int n, double p) {
   lookup_table.reset(new double[n_ + 1]);
   double threshold = 0;
   double p_complement = 1 - p_;
+  double coefficient = 1;  // binomial(n_, i), which may not fit into an int
   for (int i = 0; i < n_; i++) {
     threshold +=
-        binomial(n_, i) * std::pow(p_, i) * std::pow(p_complement, n_ - i);
+        coefficient * std::pow(p_, i) * std::pow(p_complement, n_ - i);
     lookup_table[i] = threshold;
+    coefficient = coefficient * (n_ - i) / (i + 1);
   }
   lookup_table[n_] = 1;
 }
-- 
2.43.0


From b0b2e54fb6377ba54abc503043fe603e0f1e27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:10 +0000
Subject: [PATCH 54/54] fix: Poisson and negative binomial samples loop past
 INT_MAX

The probabilities may sum up to less than 1 in double arithmetic; a draw above
their sum (PoissonDistribution(10) and the largest engine outputs) never ended
the loop and overflowed the counter.
---
 src/random/NegativeBinomialDistribution.cpp | 4 +++-
 src/random/PoissonDistribution.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 6adf7e5..bb6f028 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -21,7 +21,9 @@ int NegativeBinomialDistribution::next() {
   double p_complement = 1 - p_;
   double probability = pPowr;
   double threshold = pPowr;
-  while (rnd >= threshold) {
+  // in double arithmetic the probabilities may sum up to less than 1: stop once
+  // they no longer count
+  while (rnd >= threshold && threshold + probability > threshold) {
     result += 1;
     probability *= p_complement * (r_ + result - 1) / result;
     threshold += probability;
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index a1c518a..aac8bab 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -17,7 +17,9 @@ int PoissonDistribution::next() {
   int result = 0;
   double probability = expLambda;
   double threshold = expLambda;
-  while (rnd >= threshold) {
+  // in double arithmetic the probabilities may sum up to less than 1: stop once
+  // they no longer count
+  while (rnd >= threshold && threshold + probability > threshold) {
     result += 1;
     probability *= lambda_ / result;
     threshold += probability;
-- 
2.43.0

