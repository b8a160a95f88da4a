From 2c43a9c7c9ce9407088203427bfea2707c1b0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 01/17] fix: calculator: report integer overflow instead of
 wrapping

---
 include/calculator.hpp | 119 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 105 insertions(+), 14 deletions(-)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index 1a1291c..8bf1a8c 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -183,22 +183,113 @@ private:
   /// top of the stack has lower precedence.
   std::stack<OperatorValue> stack_;
 
+  /// Number of bits of type T without the sign bit
+  static int digits()
+  {
+    return (int) (sizeof(T) * 8) - (isSigned() ? 1 : 0);
+  }
+
+  static bool isSigned()
+  {
+    return static_cast<T>(-1) < static_cast<T>(1);
+  }
+
+  static T maxValue()
+  {
+    T half = static_cast<T>(1) << (digits() - 1);
+    return half - 1 + half;
+  }
+
+  static T minValue()
+  {
+    return isSigned() ? -maxValue() - 1 : 0;
+  }
+
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Error: integer overflow in \"" + expr_ + "\"");
+  }
+
+  T add(T x, T y) const
+  {
+    if (y > 0 ? x > maxValue() - y : x < minValue() - y)
+      overflow();
+    return x + y;
+  }
+
+  T sub(T x, T y) const
+  {
+    if (y > 0 ? x < minValue() + y : x > maxValue() + y)
+      overflow();
+    return x - y;
+  }
+
+  T mul(T x, T y) const
+  {
+    if (x != 0 && y != 0)
+    {
+      if (x > 0 ? (y > 0 ? x > maxValue() / y : y < minValue() / x)
+                : (y > 0 ? x < minValue() / y : y < maxValue() / x))
+        overflow();
+    }
+    return x * y;
+  }
+
+  T div(T x, T y) const
+  {
+    if (isSigned() && y == static_cast<T>(-1))
+      return sub(0, x);
+    return x / checkZero(y);
+  }
+
+  T mod(T x, T y) const
+  {
+    if (isSigned() && y == static_cast<T>(-1))
+      return 0;
+    return x % checkZero(y);
+  }
+
+  T shl(T x, T n) const
+  {
+    if (n < 0)
+      overflow();
+    for (; x != 0 && n > 0; n--)
+      x = mul(x, 2);
+    return x;
+  }
+
+  T shr(T x, T n) const
+  {
+    if (n < 0)
+      overflow();
+    if (n >= static_cast<T>(digits()))
+      return (x < 0) ? static_cast<T>(-1) : 0;
+    return x >> n;
+  }
+
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  T pow(T x, T n) const
   {
     T res = 1;
 
+    // 1 / x^-n is not an integer
+    if (n < 0 && x != 1 && x != static_cast<T>(-1))
+      throw calculator::error(expr_, "Error: negative exponent in \"" + expr_ + "\"");
+    // 1^n and (-1)^n
+    if (n < 0)
+      return (n % 2 != 0) ? x : 1;
+
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = mul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = mul(x, x);
     }
 
     return res;
@@ -228,15 +319,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return shl(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return shr(v1, v2);
+      case OPERATOR_ADDITION:       return add(v1, v2);
+      case OPERATOR_SUBTRACTION:    return sub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return mul(v1, v2);
+      case OPERATOR_DIVISION:       return div(v1, v2);
+      case OPERATOR_MODULO:         return mod(v1, v2);
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return mul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +420,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = add(mul(value, 10), d);
     return value;
   }
 
@@ -338,7 +429,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = add(mul(value, 0x10), h);
     return value;
   }
 
@@ -384,7 +475,7 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val = sub(0, parseValue());
                 break;
       default : if (!isEnd())
                   unexpected();
-- 
2.43.0


From c93bfa1323aa3c787b707af00dfca614ba880570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 02/17] fix: pi_lmo2..pi_lmo5: use 128-bit sums, results
 overflowed 64 bits for x > 2e10

---
 include/primesum-internal.hpp |  8 ++++----
 src/lmo/pi_lmo2.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo3.cpp           | 20 ++++++++++----------
 src/lmo/pi_lmo4.cpp           |  4 ++--
 src/lmo/pi_lmo5.cpp           | 20 ++++++++++----------
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/primesum-internal.hpp b/include/primesum-internal.hpp
index cdcf091..d0071aa 100644
--- a/include/primesum-internal.hpp
+++ b/include/primesum-internal.hpp
@@ -63,13 +63,13 @@ int256_t pi_lmo(int128_t x, int threads);
 
 int256_t pi_lmo1(int128_t x);
 
-int64_t pi_lmo2(int64_t x);
+int256_t pi_lmo2(int64_t x);
 
-int64_t pi_lmo3(int64_t x);
+int256_t pi_lmo3(int64_t x);
 
-int64_t pi_lmo4(int64_t x);
+int256_t pi_lmo4(int64_t x);
 
-int64_t pi_lmo5(int64_t x);
+int256_t pi_lmo5(int64_t x);
 
 int256_t pi_lmo_parallel1(int128_t x, int threads);
 
diff --git a/src/lmo/pi_lmo2.cpp b/src/lmo/pi_lmo2.cpp
index 3b06c1a..91513d8 100644
--- a/src/lmo/pi_lmo2.cpp
+++ b/src/lmo/pi_lmo2.cpp
@@ -32,16 +32,16 @@ namespace {
 /// segmentation). Space complexity: O(x^(2/3) * (log x)^2).
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t b = 1;
   vector<char> sieve(limit, 1);
 
@@ -58,7 +58,7 @@ int64_t S2(int64_t x,
   {
     int64_t prime = primes[b];
     int64_t i = 1;
-    int64_t phi = 0;
+    int128_t phi = 0;
 
     for (int64_t m = y; m > y / prime; m--)
     {
@@ -92,7 +92,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(2/3) / (log x)^2) space.
 ///
-int64_t pi_lmo2(int64_t x)
+int256_t pi_lmo2(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -112,7 +112,7 @@ int64_t pi_lmo2(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo3.cpp b/src/lmo/pi_lmo3.cpp
index 82ea770..2de2982 100644
--- a/src/lmo/pi_lmo3.cpp
+++ b/src/lmo/pi_lmo3.cpp
@@ -50,21 +50,21 @@ void cross_off(int64_t prime,
 /// Calculate the contribution of the special leaves.
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   int64_t limit = x / y + 1;
   int64_t segment_size = next_power_of_2(isqrt(limit));
   int64_t pi_y = pi_bsearch(primes, y);
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
 
   vector<char> sieve(segment_size);
   vector<int64_t> next(primes.begin(), primes.end());
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
   // Segmented sieve of Eratosthenes
   for (int64_t low = 1; low < limit; low += segment_size)
@@ -130,7 +130,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo3(int64_t x)
+int256_t pi_lmo3(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -150,7 +150,7 @@ int64_t pi_lmo3(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo4.cpp b/src/lmo/pi_lmo4.cpp
index 9cb37ad..a5905c2 100644
--- a/src/lmo/pi_lmo4.cpp
+++ b/src/lmo/pi_lmo4.cpp
@@ -140,7 +140,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3)) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo4(int64_t x)
+int256_t pi_lmo4(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -160,7 +160,7 @@ int64_t pi_lmo4(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
diff --git a/src/lmo/pi_lmo5.cpp b/src/lmo/pi_lmo5.cpp
index 8f7f444..81ef8ef 100644
--- a/src/lmo/pi_lmo5.cpp
+++ b/src/lmo/pi_lmo5.cpp
@@ -54,12 +54,12 @@ void cross_off(BitSieve& sieve,
 /// @see ../docs/computing-special-leaves.md
 /// @pre y > 0 && c > 1
 ///
-int64_t S2(int64_t x,
-           int64_t y,
-           int64_t c,
-           vector<int32_t>& primes,
-           vector<int32_t>& lpf,
-           vector<int32_t>& mu)
+int128_t S2(int64_t x,
+            int64_t y,
+            int64_t c,
+            vector<int32_t>& primes,
+            vector<int32_t>& lpf,
+            vector<int32_t>& mu)
 {
   print("");
   print("=== S2(x, y) ===");
@@ -72,9 +72,9 @@ int64_t S2(int64_t x,
   BitSieve sieve(segment_size);
   Wheel wheel(primes, (int64_t) primes.size(), /*low = */ 1);
   vector<int32_t> pi = generate_pi(y);
-  vector<int64_t> phi(primes.size(), 0);
+  vector<int128_t> phi(primes.size(), 0);
 
-  int64_t S2_result = 0;
+  int128_t S2_result = 0;
   int64_t pi_sqrty = pi[isqrt(y)];
   int64_t pi_y = pi[y];
 
@@ -160,7 +160,7 @@ namespace primesum {
 /// Lagarias-Miller-Odlyzko algorithm.
 /// Run time: O(x^(2/3) / log x) operations, O(x^(1/3) * (log x)^2) space.
 ///
-int64_t pi_lmo5(int64_t x)
+int256_t pi_lmo5(int64_t x)
 {
   if (x < 2)
     return 0;
@@ -186,7 +186,7 @@ int64_t pi_lmo5(int64_t x)
   int256_t phi = s1 + s2;
   int256_t sum = phi + prime_sum_tiny(y) - 1 - p2;
 
-  return int64_t(sum);
+  return sum;
 }
 
 } // namespace
-- 
2.43.0


From 4b5527150875c1f0460a58263121ba8bbe086092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 03/17] fix: int256_t: multiplication of values below -2^127
 and shifts by 0 bits

---
 include/int256_t.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index f3b04da..2d4e055 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -159,11 +159,10 @@ public:
 
         if (low <= max64 &&
             other.low <= max64 &&
-            ((high == 0 || ~high == 0) &&
-             (other.high == 0 || ~other.high == 0)))
+            high == 0 &&
+            other.high == 0)
         {
-          return int256_t(low * other.low,
-                          (high == other.high) ? 0 : -1);
+          return int256_t(low * other.low, 0);
         }
         else
         {
@@ -213,7 +212,9 @@ public:
 
     int256_t operator<<(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 128)
             return int256_t(0, low << (bits - 128));
         else
             return int256_t(low << bits, (high << bits) | (low >> (128 - bits)));
@@ -221,7 +222,9 @@ public:
 
     int256_t operator>>(std::size_t bits) const
     {
-        if (bits >= 128)
+        if (bits == 0)
+            return *this;
+        else if (bits >= 128)
             return int256_t(high >> (bits - 128), 0);
         else
             return int256_t((low >> bits) | (high << (128 - bits)), high >> bits);
-- 
2.43.0


From cd2ace8ee70ef33a57df01da9c31f8d84b5a3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 04/17] fix: S2Status: hold the lock while updating the status

---
 src/S2Status.cpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/S2Status.cpp b/src/S2Status.cpp
index 4d1a063..ac3e52c 100644
--- a/src/S2Status.cpp
+++ b/src/S2Status.cpp
@@ -45,23 +45,6 @@ double S2Status::skewed_percent(int128_t x, int128_t y)
   return percent;
 }
 
-#if defined(_OPENMP)
-
-bool S2Status::is_print(double time)
-{
-  TryLock lock(lock_);
-  if (lock.ownsLock())
-  {
-    double old = time_;
-    return old == 0 ||
-          (time - old) >= is_print_;
-  }
-
-  return false;
-}
-
-#else
-
 bool S2Status::is_print(double time)
 {
   double old = time_;
@@ -69,10 +52,15 @@ bool S2Status::is_print(double time)
         (time - old) >= is_print_;
 }
 
-#endif
-
 void S2Status::print(int128_t n, int128_t limit)
 {
+#if defined(_OPENMP)
+  // hold the lock while reading and updating the state
+  TryLock lock(lock_);
+  if (!lock.ownsLock())
+    return;
+#endif
+
   double time = get_time();
 
   if (is_print(time))
-- 
2.43.0


From 6956b2eb66042d82ec2f702917253bb2e0fec3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 05/17] fix: worktodo.sh: process an unterminated last line,
 keep work file if tail fails

---
 scripts/worktodo.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/worktodo.sh b/scripts/worktodo.sh
index 56652c6..905fce2 100755
--- a/scripts/worktodo.sh
+++ b/scripts/worktodo.sh
@@ -14,7 +14,8 @@ fi
 # check if primesum supports --log option
 log_flag=$(./primesum --help | grep Log > /dev/null && echo --log)
 
-while read first_line < worktodo.txt
+# The last line might not be terminated by a newline
+while first_line=""; read first_line < worktodo.txt || [ "$first_line" != "" ]
 do
     # Skip empty lines and comments
     if [ "$first_line" != "" ] && [ ${first_line:0:1} != "#" ]
@@ -32,6 +33,6 @@ do
     fi
 
     # delete first line from worktodo.txt
-    tail -n +2 worktodo.txt > .tmp_worktodo.txt
-    mv -f .tmp_worktodo.txt worktodo.txt
+    tail -n +2 worktodo.txt > .tmp_worktodo.txt &&
+    mv -f .tmp_worktodo.txt worktodo.txt || exit 1
 done
-- 
2.43.0


From d42f66b9258bc5bd72a6b5141e5bdad0155d4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 06/17] fix: int64_cast: negative x below -2^63 must not be
 truncated

---
 src/app/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 1f850d6..a8ae1b5 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -34,6 +34,8 @@ int64_t int64_cast(int128_t x)
 {
   if (x > numeric_limits<int64_t>::max())
     throw primesum_error("this is a 63-bit function, x must be < 2^63");
+  if (x < 0)
+    return 0;
   return (int64_t) x;
 }
 
-- 
2.43.0


From 0f386ac02e3120516ddde3391a97e7bece06da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 07/17] fix: reject option values that do not fit their type

---
 src/app/cmdoptions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/cmdoptions.cpp b/src/app/cmdoptions.cpp
index 33788d1..75c88b1 100644
--- a/src/app/cmdoptions.cpp
+++ b/src/app/cmdoptions.cpp
@@ -48,7 +48,10 @@ struct Option
   template <typename T>
   T to() const
   {
-    return (T) to_int128(value);
+    int128_t n = to_int128(value);
+    if ((T) n != n)
+      throw primesum_error("option value out of range: " + value);
+    return (T) n;
   }
 };
 
-- 
2.43.0


From 483e62d96d95ebbf85a134a2b936f6b0db31754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 08/17] fix: BitSieve sums overflow 64 bits for segments near
 2^60

sum_bits() added up the numbers of one 64-bit word (up to 26 numbers of up to
62 bits) in an uint64_t, so sums were wrong for low > 2^59.3. Such segments
occur for x near the program's limit, where z = x / y may reach 2^61.
---
 src/BitSieve.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/BitSieve.cpp b/src/BitSieve.cpp
index fa525dd..e3ac6a4 100644
--- a/src/BitSieve.cpp
+++ b/src/BitSieve.cpp
@@ -53,44 +53,44 @@ uint64_t fast_modulo(uint64_t x, uint64_t y)
   return x;
 }
 
-uint64_t sum_bits(uint64_t bits, uint64_t& low)
+int128_t sum_bits(uint64_t bits, uint64_t& low)
 {
   uint64_t bits0 = bits & 0xffff;
   uint64_t bits1 = (bits >> 16) & 0xffff;
   uint64_t bits2 = (bits >> 32) & 0xffff;
   uint64_t bits3 = (bits >> 48);
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (uint128_t) low * popcnt64(bits0); low += 32;
+  sum += (uint128_t) low * popcnt64(bits1); low += 32;
+  sum += (uint128_t) low * popcnt64(bits2); low += 32;
+  sum += (uint128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
 
-uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
+int128_t sum_bits(const uint16_t* bits, uint64_t& low)
 {
   uint64_t bits0 = bits[0];
   uint64_t bits1 = bits[1];
   uint64_t bits2 = bits[2];
   uint64_t bits3 = bits[3];
-  uint64_t sum = 0;
+  int128_t sum = 0;
 
   sum += sumBits[bits0];
   sum += sumBits[bits1];
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  sum += (uint128_t) low * popcnt64(bits0); low += 32;
+  sum += (uint128_t) low * popcnt64(bits1); low += 32;
+  sum += (uint128_t) low * popcnt64(bits2); low += 32;
+  sum += (uint128_t) low * popcnt64(bits3); low += 32;
 
   return sum;
 }
-- 
2.43.0


From 330aaa44868f67996656d9936b52f1de2c9bc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 09/17] fix: expression parser crashes on deeply nested
 expressions

"0+((((...1...))))" with 30000 levels overflowed the stack (segmentation
fault); report an error from 5000 levels on.
---
 include/calculator.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index 8bf1a8c..8c695e4 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -101,6 +101,7 @@ public:
   {
     T result = 0;
     index_ = 0;
+    depth_ = 0;
     expr_ = expr;
     try
     {
@@ -178,6 +179,8 @@ private:
   std::string expr_;
   /// Current expression index, incremented whilst parsing
   std::size_t index_;
+  /// Current nesting level of parentheses and unary operators
+  int depth_;
   /// The current operator and its left value
   /// are pushed onto the stack if the operator on
   /// top of the stack has lower precedence.
@@ -451,6 +454,9 @@ private:
   T parseValue()
   {
     T val = 0;
+    // each level needs stack space
+    if (++depth_ > 5000)
+      throw calculator::error(expr_, "Syntax error: expression nested too deeply");
     eatSpaces();
     switch (getCharacter())
     {
@@ -481,6 +487,7 @@ private:
                   unexpected();
                 throw calculator::error(expr_, "Syntax error: value expected at end of expression");
     }
+    depth_--;
     return val;
   }
 
-- 
2.43.0


From 42f10c10ea874747b7e1b80b272e241d316052a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 10/17] fix: generate_primes() silently truncates primes that
 do not fit the type

primesieve_generate_primes(32700, 33000, &size, INT16_PRIMES) returned
negative numbers. Report an error instead, like for other requests that
cannot be satisfied.
---
 lib/primesieve/include/primesieve/StorePrimes.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 0154bba..59a96ba 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -39,6 +39,18 @@ inline std::size_t prime_count_approx(uint64_t start, uint64_t stop)
   return (std::size_t) pix;
 }
 
+/// Convert a prime to the type of the vector,
+/// the conversion must not change its value.
+///
+template <typename V>
+inline V convert_prime(uint64_t prime)
+{
+  V v = (V) prime;
+  if (!(v > 0) || (uint64_t) v != prime)
+    throw primesieve_error("prime does not fit into the requested type");
+  return v;
+}
+
 template <typename T>
 inline void store_primes(uint64_t start,
                          uint64_t stop,
@@ -58,7 +70,7 @@ inline void store_primes(uint64_t start,
     primesieve::iterator it(start, stop);
     uint64_t prime = it.next_prime();
     for (; prime <= stop; prime = it.next_prime())
-      primes.push_back((V) prime);
+      primes.push_back(convert_prime<V>(prime));
   }
 }
 
-- 
2.43.0


From 7411c4a96960f7ddd6f35bd8a05fc55387a1607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 11/17] fix: generate_n_primes() fails if the last prime < 2^64
 is requested

primesieve_generate_n_primes(1, 18446744073709551557, UINT64_PRIMES)
reported an error because one prime more than requested was generated.
---
 lib/primesieve/include/primesieve/StorePrimes.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 59a96ba..922c17a 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -95,12 +95,13 @@ inline void store_n_primes(uint64_t n,
   uint64_t stop = start + dist;
 
   primesieve::iterator it(start, stop);
-  uint64_t prime = it.next_prime();
-  for (; n > 0; n--, prime = it.next_prime())
-    primes.push_back((V) prime);
-
-  if (~prime == 0)
-    throw primesieve_error("cannot generate primes > 2^64");
+  for (; n > 0; n--)
+  {
+    uint64_t prime = it.next_prime();
+    if (~prime == 0)
+      throw primesieve_error("cannot generate primes > 2^64");
+    primes.push_back(convert_prime<V>(prime));
+  }
 }
 
 } // namespace
-- 
2.43.0


From 6e4f47f317dd178332e0823758ea22ca3bcb7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 12/17] fix: primesieve_generate_n_primes() corrupts memory for
 huge n

n * sizeof(T) overflowed, e.g. n = 2^61 + 16 with UINT64_PRIMES allocated
128 bytes and crashed. Report an error instead.
---
 lib/primesieve/include/primesieve/malloc_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/primesieve/include/primesieve/malloc_vector.hpp b/lib/primesieve/include/primesieve/malloc_vector.hpp
index e3b4951..82a6e66 100644
--- a/lib/primesieve/include/primesieve/malloc_vector.hpp
+++ b/lib/primesieve/include/primesieve/malloc_vector.hpp
@@ -57,6 +57,11 @@ public:
   void resize(std::size_t n)
   {
     n = std::max(n, (std::size_t) 16);
+
+    // n * sizeof(T) must not overflow
+    if (n > ~((std::size_t) 0) / sizeof(T))
+      throw std::bad_alloc();
+
     T* new_array = (T*) realloc((void*) array_, n * sizeof(T));
 
     if (!new_array)
-- 
2.43.0


From 7beef0699d9ec84ce9565021b801cf764dfa00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 13/17] fix: worktodo.sh: use the words of a line verbatim

---
 scripts/worktodo.sh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/worktodo.sh b/scripts/worktodo.sh
index 905fce2..6077f40 100755
--- a/scripts/worktodo.sh
+++ b/scripts/worktodo.sh
@@ -14,11 +14,14 @@ fi
 # check if primesum supports --log option
 log_flag=$(./primesum --help | grep Log > /dev/null && echo --log)
 
+# The words of a line must not be expanded to filenames ("2*3")
+set -f
+
 # The last line might not be terminated by a newline
-while first_line=""; read first_line < worktodo.txt || [ "$first_line" != "" ]
+while first_line=""; read -r first_line < worktodo.txt || [ "$first_line" != "" ]
 do
     # Skip empty lines and comments
-    if [ "$first_line" != "" ] && [ ${first_line:0:1} != "#" ]
+    if [ "$first_line" != "" ] && [ "${first_line:0:1}" != "#" ]
     then
         ./primesum $first_line $log_flag
 
-- 
2.43.0


From 89daca344c993cf259a63d06d26b9199790e3ebf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 14/17] fix: primesieve: detect integer overflow in number
 expressions

`primesieve 18446744073709551616` printed 0 primes, 1e20 was computed for
a different number and -t4294967297 set 1 thread.
---
 .../include/primesieve/calculator.hpp         | 126 ++++++++++++++++--
 lib/primesieve/src/app/cmdoptions.cpp         |  14 +-
 2 files changed, 125 insertions(+), 15 deletions(-)

diff --git a/lib/primesieve/include/primesieve/calculator.hpp b/lib/primesieve/include/primesieve/calculator.hpp
index 1a1291c..8c695e4 100644
--- a/lib/primesieve/include/primesieve/calculator.hpp
+++ b/lib/primesieve/include/primesieve/calculator.hpp
@@ -101,6 +101,7 @@ public:
   {
     T result = 0;
     index_ = 0;
+    depth_ = 0;
     expr_ = expr;
     try
     {
@@ -178,27 +179,120 @@ private:
   std::string expr_;
   /// Current expression index, incremented whilst parsing
   std::size_t index_;
+  /// Current nesting level of parentheses and unary operators
+  int depth_;
   /// The current operator and its left value
   /// are pushed onto the stack if the operator on
   /// top of the stack has lower precedence.
   std::stack<OperatorValue> stack_;
 
+  /// Number of bits of type T without the sign bit
+  static int digits()
+  {
+    return (int) (sizeof(T) * 8) - (isSigned() ? 1 : 0);
+  }
+
+  static bool isSigned()
+  {
+    return static_cast<T>(-1) < static_cast<T>(1);
+  }
+
+  static T maxValue()
+  {
+    T half = static_cast<T>(1) << (digits() - 1);
+    return half - 1 + half;
+  }
+
+  static T minValue()
+  {
+    return isSigned() ? -maxValue() - 1 : 0;
+  }
+
+  void overflow() const
+  {
+    throw calculator::error(expr_, "Error: integer overflow in \"" + expr_ + "\"");
+  }
+
+  T add(T x, T y) const
+  {
+    if (y > 0 ? x > maxValue() - y : x < minValue() - y)
+      overflow();
+    return x + y;
+  }
+
+  T sub(T x, T y) const
+  {
+    if (y > 0 ? x < minValue() + y : x > maxValue() + y)
+      overflow();
+    return x - y;
+  }
+
+  T mul(T x, T y) const
+  {
+    if (x != 0 && y != 0)
+    {
+      if (x > 0 ? (y > 0 ? x > maxValue() / y : y < minValue() / x)
+                : (y > 0 ? x < minValue() / y : y < maxValue() / x))
+        overflow();
+    }
+    return x * y;
+  }
+
+  T div(T x, T y) const
+  {
+    if (isSigned() && y == static_cast<T>(-1))
+      return sub(0, x);
+    return x / checkZero(y);
+  }
+
+  T mod(T x, T y) const
+  {
+    if (isSigned() && y == static_cast<T>(-1))
+      return 0;
+    return x % checkZero(y);
+  }
+
+  T shl(T x, T n) const
+  {
+    if (n < 0)
+      overflow();
+    for (; x != 0 && n > 0; n--)
+      x = mul(x, 2);
+    return x;
+  }
+
+  T shr(T x, T n) const
+  {
+    if (n < 0)
+      overflow();
+    if (n >= static_cast<T>(digits()))
+      return (x < 0) ? static_cast<T>(-1) : 0;
+    return x >> n;
+  }
+
   /// Exponentiation by squaring, x^n.
-  static T pow(T x, T n)
+  T pow(T x, T n) const
   {
     T res = 1;
 
+    // 1 / x^-n is not an integer
+    if (n < 0 && x != 1 && x != static_cast<T>(-1))
+      throw calculator::error(expr_, "Error: negative exponent in \"" + expr_ + "\"");
+    // 1^n and (-1)^n
+    if (n < 0)
+      return (n % 2 != 0) ? x : 1;
+
     while (n > 0)
     {
       if (n % 2 != 0)
       {
-        res *= x;
+        res = mul(res, x);
         n -= 1;
       }
       n /= 2;
 
       if (n > 0)
-        x *= x;
+        x = mul(x, x);
     }
 
     return res;
@@ -228,15 +322,15 @@ private:
       case OPERATOR_BITWISE_OR:     return v1 | v2;
       case OPERATOR_BITWISE_XOR:    return v1 ^ v2;
       case OPERATOR_BITWISE_AND:    return v1 & v2;
-      case OPERATOR_BITWISE_SHL:    return v1 << v2;
-      case OPERATOR_BITWISE_SHR:    return v1 >> v2;
-      case OPERATOR_ADDITION:       return v1 + v2;
-      case OPERATOR_SUBTRACTION:    return v1 - v2;
-      case OPERATOR_MULTIPLICATION: return v1 * v2;
-      case OPERATOR_DIVISION:       return v1 / checkZero(v2);
-      case OPERATOR_MODULO:         return v1 % checkZero(v2);
+      case OPERATOR_BITWISE_SHL:    return shl(v1, v2);
+      case OPERATOR_BITWISE_SHR:    return shr(v1, v2);
+      case OPERATOR_ADDITION:       return add(v1, v2);
+      case OPERATOR_SUBTRACTION:    return sub(v1, v2);
+      case OPERATOR_MULTIPLICATION: return mul(v1, v2);
+      case OPERATOR_DIVISION:       return div(v1, v2);
+      case OPERATOR_MODULO:         return mod(v1, v2);
       case OPERATOR_POWER:          return pow(v1, v2);
-      case OPERATOR_EXPONENT:       return v1 * pow(10, v2);
+      case OPERATOR_EXPONENT:       return mul(v1, pow(10, v2));
       default:                      return 0;
     }
   }
@@ -329,7 +423,7 @@ private:
   {
     T value = 0;
     for (T d; (d = getInteger()) <= 9; index_++)
-      value = value * 10 + d;
+      value = add(mul(value, 10), d);
     return value;
   }
 
@@ -338,7 +432,7 @@ private:
     index_ = index_ + 2;
     T value = 0;
     for (T h; (h = getInteger()) <= 0xf; index_++)
-      value = value * 0x10 + h;
+      value = add(mul(value, 0x10), h);
     return value;
   }
 
@@ -360,6 +454,9 @@ private:
   T parseValue()
   {
     T val = 0;
+    // each level needs stack space
+    if (++depth_ > 5000)
+      throw calculator::error(expr_, "Syntax error: expression nested too deeply");
     eatSpaces();
     switch (getCharacter())
     {
@@ -384,12 +481,13 @@ private:
                 index_++; break;
       case '~': index_++; val = ~parseValue(); break;
       case '+': index_++; val =  parseValue(); break;
-      case '-': index_++; val =  parseValue() * static_cast<T>(-1);
+      case '-': index_++; val = sub(0, parseValue());
                 break;
       default : if (!isEnd())
                   unexpected();
                 throw calculator::error(expr_, "Syntax error: value expected at end of expression");
     }
+    depth_--;
     return val;
   }
 
diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index f1bd247..8b6efe5 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <stdint.h>
 #include <string>
@@ -104,7 +105,18 @@ struct Option
   T getValue() const
   {
     try {
-      return calculator::eval<T>(val);;
+#if defined(__SIZEOF_INT128__)
+      // Intermediate results may be >= 2^64, e.g. 2^64-1
+      __int128_t n = calculator::eval<__int128_t>(val);
+
+      if (n < (__int128_t) numeric_limits<T>::min() ||
+          n > (__int128_t) numeric_limits<T>::max())
+        throw primesieve_error("integer overflow");
+
+      return (T) n;
+#else
+      return calculator::eval<T>(val);
+#endif
     }
     catch (std::exception&) {
       throw primesieve_error("invalid option '" + opt + "=" + val + "'");
-- 
2.43.0


From 2c67b72ed8bd4b8d6516cfcbae8561699c8c8770 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 15/17] fix: primesieve: refuse START + DIST >= 2^64

---
 lib/primesieve/src/app/cmdoptions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index 8b6efe5..d246d7e 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -312,6 +312,9 @@ void optionDistance(Option& opt,
   if (!numbers.empty())
     start = numbers[0];
 
+  if (val > numeric_limits<uint64_t>::max() - start)
+    throw primesieve_error("START + DIST must be < 2^64");
+
   numbers.push_back(start + val);
 }
 
-- 
2.43.0


From 14d818167d8d983e4adbb42523410d2180ff60d5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 16/17] fix: primesieve: refuse to search for the nth prime if
 n >= 2^63

n became negative: primesieve 2^64-1 100 -n printed the prime before 100.
---
 lib/primesieve/src/app/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/primesieve/src/app/main.cpp b/lib/primesieve/src/app/main.cpp
index d3b0105..1298d18 100644
--- a/lib/primesieve/src/app/main.cpp
+++ b/lib/primesieve/src/app/main.cpp
@@ -9,12 +9,14 @@
 ///
 
 #include <primesieve/ParallelSieve.hpp>
+#include <primesieve/primesieve_error.hpp>
 #include "cmdoptions.hpp"
 
 #include <stdint.h>
 #include <iostream>
 #include <exception>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 using namespace std;
@@ -92,6 +94,10 @@ void nthPrime(CmdOptions& opt)
   if (numbers.size() < 2)
     numbers.push_back(0);
 
+  // n is a signed integer
+  if (numbers[0] > (uint64_t) numeric_limits<int64_t>::max())
+    throw primesieve_error("nth prime > 2^64");
+
   int64_t n = numbers[0];
   uint64_t start = numbers[1];
   uint64_t nthPrime = 0;
-- 
2.43.0


From 9d1a7cc1e5d814aaf4b8c7919e55825568b2cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:22 +0000
Subject: [PATCH 17/17] fix: int256_t: division by the smallest value and
 printing it

---
 include/int256_t.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 2d4e055..11ecfe2 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -537,6 +537,15 @@ private:
         return pos;
     }
 
+    /// Unsigned comparison
+    bool uless256(const int256_t& other) const
+    {
+        uint128_t high1 = static_cast<uint128_t>(high);
+        uint128_t high2 = static_cast<uint128_t>(other.high);
+
+        return high1 < high2 || (high1 == high2 && low < other.low);
+    }
+
     /// Unsigned division with remainder
     std::pair<int256_t, int256_t> udiv256(const int256_t& other) const
     {
@@ -557,7 +566,7 @@ private:
         {
             return { one, zero };
         }
-        else if (*this == 0 || (*this != min_value() && *this < other))
+        else if (*this == 0 || uless256(other))
         {
             return { zero, *this };
         }
@@ -576,7 +585,7 @@ private:
                 remainder <<= 1;
                 remainder.set_bit(0, get_bit(i));
 
-                if (remainder >= other)
+                if (!remainder.uless256(other))
                 {
                     remainder -= other;
                     quotient.set_bit(i, true);
@@ -622,14 +631,13 @@ inline std::ostream& operator<<(std::ostream& stream, int256_t n)
     std::string str;
 
     if (n < 0)
-    {
         stream << "-";
-        n = -n;
-    }
 
-    while (n > 0)
+    // n is not negated as -min_value() does not fit
+    while (n != 0)
     {
-        str += '0' + std::int8_t(n % 10);
+        std::int8_t digit = std::int8_t(n % 10);
+        str += '0' + (digit < 0 ? -digit : digit);
         n /= 10;
     }
 
-- 
2.43.0

