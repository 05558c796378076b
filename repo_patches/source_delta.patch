From de5fa750546967f38ecceb8915bd1ddf633f4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 01/56] fix: efx add/sub of a finite non-zero value and
 inf/NaN, and of inf and NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..7262d61 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -419,6 +419,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(v.isnan())
+  {
+    return operator=(v);
+  }
+
   if(isinf())
   {
     if(v.isinf() && (isneg() != v.isneg()))
@@ -429,7 +434,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
-  if(iszero())
+  if(iszero() || v.isinf())
   {
     return operator=(v);
   }
-- 
2.43.0


From 356a86789448593666f5e19d5972510c3fb00582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 02/56] fix: efx operator-= of a value with itself returned
 twice the value

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7262d61..dc39df1 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -664,6 +664,12 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  if(this == &v)
+  {
+    // Subtraction of *this from itself needs a copy of the operand.
+    return operator-=(e_float(v));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From d34053e0f9ad9f72ab148a0f9b69bdaf0ef7b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 03/56] fix: efx multiplication could return a finite value
 above numeric_limits::max()

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index dc39df1..0a52345 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -791,6 +791,15 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     }
   }
 
+  // Check for overflow.
+  if((my_exp >= std::numeric_limits<e_float>::max_exponent10) && (*this > (std::numeric_limits<e_float>::max)()))
+  {
+    *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                : -std::numeric_limits<e_float>::infinity());
+
+    return *this;
+  }
+
   // Set the sign of the result.
   my_neg = b_result_is_neg;
 
@@ -900,6 +909,15 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
     my_data.front() = static_cast<std::uint32_t>(carry);
   }
 
+  // Check for overflow.
+  if((my_exp >= std::numeric_limits<e_float>::max_exponent10) && (*this > (std::numeric_limits<e_float>::max)()))
+  {
+    *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                      : -std::numeric_limits<e_float>::infinity());
+
+    return *this;
+  }
+
   // Set the sign.
   my_neg = b_neg;
 
-- 
2.43.0


From a0c53ff98247675bd0538be171a7801ebe05d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 04/56] fix: efx division of a negative value by integer zero
 lost the sign of the infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 0a52345..e43c829 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -957,8 +957,8 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
     else
     {
-      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
-                          : -std::numeric_limits<e_float>::infinity());
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                        : -std::numeric_limits<e_float>::infinity());
 
       return *this;
     }
-- 
2.43.0


From b96d405324eb7812b476c764420e206b068f5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 05/56] fix: efx division by a small integer lost a limb when
 justifying the quotient

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index e43c829..7711e86 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -991,7 +991,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
 
       // Shift result of the division one element to the left.
       std::copy(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
-                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem - 1),
+                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem),
                 my_data.begin());
 
       const array_type::size_type ip = static_cast<array_type::size_type>(my_prec_elem - 1);
-- 
2.43.0


From fa7c5d07ad8281f29dc12b666dee95c36fde360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 06/56] fix: arithmetic with the most negative signed long long
 negated it in signed arithmetic

---
 libs/e_float/src/e_float/e_float_base.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..0edbbee 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -99,9 +99,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 {
   if(n < static_cast<signed long long>(0))
   {
-    negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
-    negate();
+    sub_unsigned_long_long(static_cast<unsigned long long>(0ULL - static_cast<unsigned long long>(n)));
   }
   else
   {
@@ -113,14 +111,23 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  if(n < static_cast<signed long long>(0))
+  {
+    add_unsigned_long_long(static_cast<unsigned long long>(0ULL - static_cast<unsigned long long>(n)));
+  }
+  else
+  {
+    sub_unsigned_long_long(static_cast<unsigned long long>(n));
+  }
+
+  return static_cast<e_float&>(*this);
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
@@ -141,7 +148,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
-- 
2.43.0


From 5208504c516dbbff1e615cc5c6c4b77d0c65e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 07/56] fix: efx isone() was never true for a value of exactly
 one (rd_string relied on that for numeric_limits::min())

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 23 +++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 7711e86..07b59ef 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1331,7 +1331,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
@@ -2075,24 +2075,11 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  // Note: Any non-zero mantissa having the minimum exponent
+  // is not less than the minimum value.
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From 395bc5d7db7e716fcb4530069dc41b2e03ac392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 08/56] fix: efx extraction of the most negative signed long
 long overflowed a signed negation

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 07b59ef..5978def 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1572,7 +1572,7 @@ signed long long efx::e_float::extract_signed_long_long() const
     }
   }
 
-  return ((!b_neg) ? static_cast<signed long long>(val) : static_cast<signed long long>(-static_cast<signed long long>(val)));
+  return ((!b_neg) ? static_cast<signed long long>(val) : detail::negate(static_cast<signed long long>(val)));
 }
 
 unsigned long long efx::e_float::extract_unsigned_long_long() const
-- 
2.43.0


From ff365ae58e5f05b37110ff869b8ee4dac7ce467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 09/56] fix: efx decimal part of an integral value was a zero
 with non-zero exponent

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5978def..b144e14 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1714,9 +1714,7 @@ efx::e_float efx::e_float::extract_decimal_part() const
     if(first_nonzero_elem == x.my_data.cend())
     {
       // The decimal part is exactly zero.
-      // Reset the sign and the exponent.
-      x.my_neg = false;
-      x.my_exp = static_cast<std::int64_t>(0);
+      return ef::zero();
     }
     else
     {
-- 
2.43.0


From 1801c5b77235ec4a3b63652425c69abfd868b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 10/56] fix: assignment to a moved-from e_float left it without
 storage

---
 libs/e_float/src/utility/util_dynamic_array.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..747838a 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -134,7 +134,14 @@
       // Assignment operator.
       dynamic_array& operator=(const dynamic_array& other)
       {
-        if(this != &other)
+        if((this != &other) && (elem_count == 0U) && (other.elem_count > 0U))
+        {
+          // An empty (such as a moved-from) array takes on the size of the other one.
+          dynamic_array tmp(other);
+
+          swap(tmp);
+        }
+        else if(this != &other)
         {
           std::copy(other.elems,
                     other.elems + (std::min)(elem_count, other.elem_count),
-- 
2.43.0


From 2348f3709d73f705555d1bdc182b51bf3ed7f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 11/56] fix: move assignment of an e_float to itself released
 its storage

---
 libs/e_float/src/utility/util_dynamic_array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 747838a..1096306 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -154,6 +154,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From 1c088157b6da3a0abeeb1df957e414177417d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 12/56] fix: efx zero divided by zero returned one instead of
 NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b144e14..496b16c 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -810,6 +810,7 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 {
   const auto u_and_v_are_finite_and_identical =
     (   isfinite()
+     && (!iszero())
      && (my_fpclass == v.my_fpclass)
      && (my_exp     == v.my_exp)
      && (cmp_data(v.my_data) == static_cast<std::int32_t>(0)));
-- 
2.43.0


From d02b0a6a4edc2d504e559de10c854d886c93df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 13/56] fix: efx division of values of equal magnitude returned
 the wrong sign for a negative dividend

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 496b16c..83c65dc 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -817,9 +817,11 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
   if(u_and_v_are_finite_and_identical)
   {
+    const auto b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From d327aee5cd148607c3224f2efe0082ae936b5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 14/56] fix: NaN multiplied with a signed integer returned an
 infinity

---
 libs/e_float/src/e_float/e_float_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 0edbbee..603bc71 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -135,7 +135,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if((!isnan()) && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
-- 
2.43.0


From 2b6a645b40244e2fba59e60dcb1cc7ab0f56485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 15/56] fix: efx multiplication overflowed for products below
 numeric_limits::max() (max() * 1 was infinity)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 83c65dc..d4ba7e9 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -720,7 +720,7 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     const std::int64_t v_exp = ((!v_exp_is_neg) ? v.my_exp : static_cast<std::int64_t>(-v.my_exp));
 
     // Check the range of the upcoming multiplication.
-    const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));
+    const auto b_result_is_out_of_range = (v_exp > static_cast<std::int64_t>(ef_max_exp10 - u_exp));
 
     if(b_result_is_out_of_range)
     {
-- 
2.43.0


From 404ed7e70f5f772e1059135f2c43072eda2fe10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 16/56] fix: complex conj() returned i*z instead of the
 conjugate

---
 libs/e_float/src/e_float/e_float_complex.h | 32 ++++++++++++++--------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..1a0e3bd 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1095,7 +1095,7 @@
 
     template<typename T> complex<T> conj(const complex<T>& c__my_z)
     {
-      return complex<T>(-c__my_z.imag(), c__my_z.real());
+      return complex<T>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
@@ -1126,19 +1126,22 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(T(1U) - (c__my_z * c__my_z))));
+      // Use asin(z) = -i * log(iz + sqrt(1 - z^2)).
+      const complex<T> c__my_iz(-c__my_z.imag(), c__my_z.real());
+      const complex<T> c__my_log(log(c__my_iz + sqrt(T(1U) - (c__my_z * c__my_z))));
+
+      return complex<T>(c__my_log.imag(), -c__my_log.real());
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __z_conj = conj(c__my_z);
-
-      complex<T> z__result = conj(log(T(1) - __z_conj) - log(T(1) + __z_conj));
+      // Use atan(z) = (i / 2) * [log(1 - iz) - log(1 + iz)].
+      const complex<T> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      const complex<T> c__my_pre_result(log(T(1U) - c__my_iz) - log(T(1U) + c__my_iz));
 
-      return z__result;
+      return complex<T>(-c__my_pre_result.imag() / 2U,
+                         c__my_pre_result.real() / 2U);
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1687,7 +1690,7 @@
 
     template<> inline complex<e_float> conj(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(-c__my_z.imag(), c__my_z.real());
+      return complex<e_float>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
@@ -1713,14 +1716,19 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(ef::one() - (c__my_z * c__my_z))));
+      // Use asin(z) = -i * log(iz + sqrt(1 - z^2)).
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
+      const complex<e_float> c__my_log(log(c__my_iz + sqrt(ef::one() - (c__my_z * c__my_z))));
+
+      return complex<e_float>(c__my_log.imag(), -c__my_log.real());
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_z_conj(conj(c__my_z));
+      // Use atan(z) = (i / 2) * [log(1 - iz) - log(1 + iz)].
+      const complex<e_float> c__my_iz(-c__my_z.imag(), c__my_z.real());
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_z_conj) - log(ef::one() + c__my_z_conj));
+      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_iz) - log(ef::one() + c__my_iz));
 
       return complex<e_float>(-c__my_pre_result.imag() / 2U,
                                c__my_pre_result.real() / 2U);
-- 
2.43.0


From 2d3f728115d54541277072c355c8e103b78c7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 17/56] fix: complex sqrt() and generic norm() of zero returned
 NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 1a0e3bd..eb16aee 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1075,7 +1075,10 @@
     {
       using std::fabs;
 
-      T c__my_result;
+      T c__my_result(0U);
+
+      // The norm of zero is zero (and the quotients below are not defined).
+      if((c__my_z.real() == T(0U)) && (c__my_z.imag() == T(0U))) { return c__my_result; }
 
       if(fabs(c__my_z.real()) < fabs(c__my_z.imag()))
       {
@@ -1300,6 +1303,9 @@
       // where s = sqrt{ [ |zr| + sqrt(zr^2 + zi^2) ] / 2 },
       // and the +- sign is the same as the sign of zi.
 
+      // The square root of zero is zero (and the quotient below is not defined).
+      if((c__my_z.real() == T(0U)) && (c__my_z.imag() == T(0U))) { return c__my_z; }
+
       const bool __real_part_is_neg(c__my_z.real() < T(0U));
       const T    __real_part_fabs  ((__real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const T    __s_part          (sqrt((__real_part_fabs + abs(c__my_z)) / 2U));
@@ -1850,6 +1856,9 @@
       // where s = sqrt{ [ |zr| + sqrt(zr^2 + zi^2) ] / 2 },
       // and the +- sign is the same as the sign of zi.
 
+      // The square root of zero is zero (and the quotient below is not defined).
+      if(c__my_z.real().iszero() && c__my_z.imag().iszero()) { return c__my_z; }
+
       const bool c__my_real_part_is_neg(c__my_z.real() < 0U);
 
       const e_float c__my_real_part_fabs((c__my_real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
-- 
2.43.0


From 7146e6166b6e7be28594e6b23c58c583bc74225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 18/56] fix: complex acosh(-1) was NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index eb16aee..9354dd2 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1152,7 +1152,7 @@
       const complex<T> __zp(c__my_z.real() + T(1U), c__my_z.imag());
       const complex<T> __zm(c__my_z.real() - T(1U), c__my_z.imag());
 
-      return log(c__my_z + (__zp * sqrt(__zm / __zp)));
+      return log(c__my_z + (sqrt(__zp) * sqrt(__zm)));
     }
 
     template<typename T> complex<T> asinh(const complex<T>& c__my_z)
@@ -1745,7 +1745,7 @@
       const complex<e_float> c__my_zp = c__my_z + ef::one();
       const complex<e_float> c__my_zm = c__my_z - ef::one();
 
-      return log(c__my_z + (c__my_zp * sqrt(c__my_zm / c__my_zp)));
+      return log(c__my_z + (sqrt(c__my_zp) * sqrt(c__my_zm)));
     }
 
     template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
-- 
2.43.0


From 7f8082e1f776305dca69f54c91e8609d5be87f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 19/56] fix: atan() of large negative values had the wrong
 sign, atan() of infinities was NaN

---
 .../e_float/src/functions/elementary/elementary_trig.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c3e2077..eb4b6e5 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -404,11 +404,16 @@ static e_float Atan_Series::AtInfinity(const e_float& x)
 
 e_float ef::atan(const e_float& x)
 {
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return ((!ef::isneg(x)) ? ef::pi_half() : -ef::pi_half());
+  }
+
   if(x.i_have_my_own_atan())
   {
     return e_float::my_own_atan(x);
@@ -432,7 +437,7 @@ e_float ef::atan(const e_float& x)
 
   if(ef::large_arg(x))
   {
-    return Atan_Series::AtInfinity(x);
+    return ((!ef::isneg(x)) ? Atan_Series::AtInfinity(x) : -Atan_Series::AtInfinity(-x));
   }
 
   const bool b_neg = ef::isneg(x);
-- 
2.43.0


From b7da9f135bccb9a1b49e0b81b52fd1ae3e05051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 20/56] fix: asin() of small negative values had the wrong sign

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index eb4b6e5..c758ca2 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -300,10 +300,10 @@ e_float ef::asin(const e_float& x)
   if(ef::small_arg(xx))
   {
     // http://functions.wolfram.com/ElementaryFunctions/ArcSin/26/01/01/
-    const e_float asin_value = x * ef::hypergeometric_2f1(ef::half(),
+    const e_float asin_value = xx * ef::hypergeometric_2f1(ef::half(),
                                                           ef::half(),
                                                           ef::three_half(),
-                                                          (x * x));
+                                                          (xx * xx));
 
     return !b_neg ? asin_value : -asin_value;
   }
-- 
2.43.0


From 0019d524fffe2ec86958c0878b75482c4c2bf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 21/56] fix: atan2() of infinities and NaN returned its second
 argument

---
 .../functions/elementary/elementary_trig.cpp  | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c758ca2..4361ca9 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -479,12 +479,26 @@ e_float ef::atan(const e_float& x)
 
 e_float ef::atan2(const e_float& y, const e_float& x)
 {
-  if((ef::isfinite(x) == false) || (ef::isfinite(y) == false))
+  if(ef::isnan(x) || ef::isnan(y))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  if(ef::isinf(x) && ef::isinf(y))
+  {
+    const e_float quarter_turn = ef::pi() / static_cast<std::int32_t>(4);
+    const e_float angle        = ((!ef::isneg(x)) ? quarter_turn : ef::pi() - quarter_turn);
+
+    return ((!ef::isneg(y)) ? angle : -angle);
+  }
+
+  if(ef::isinf(x))
+  {
+    if(!ef::isneg(x)) { return ef::zero(); }
+
+    return ((!ef::isneg(y)) ? ef::pi() : -ef::pi());
   }
 
-  // y is zero
   if(ef::iszero(y))
   {
     return (ef::isneg(x) ? ef::pi() : ef::zero());
@@ -499,10 +513,7 @@ e_float ef::atan2(const e_float& y, const e_float& x)
   // y is infinite
   if(y.isinf())
   {
-    const bool b_pos = ((ef::ispos(x) && ef::ispos(y)) || (ef::isneg(x) && ef::isneg(y)));
-
-    return (b_pos ?  std::numeric_limits<e_float>::infinity()
-                  : -std::numeric_limits<e_float>::infinity());
+    return ((!ef::isneg(y)) ? ef::pi_half() : -ef::pi_half());
   }
 
   // Compute atan(y / x), ignoring sign.
-- 
2.43.0


From 6dab02935471bd179a965ce5f2d98907ed38d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 22/56] fix: acosh(1) was 1

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d8c84cf..2e0defd 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -623,7 +623,7 @@ e_float ef::acosh(const e_float& x)
 
   if(ef::isone(x))
   {
-    return ef::one();
+    return ef::zero();
   }
 
   const e_float x_minus_one = x - ef::one();
-- 
2.43.0


From 8754cf213ff5faed5904547c24cbbeb119207d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 23/56] fix: rootn_inverse(x, 1) returned x

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2e0defd..22e258b 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -141,7 +141,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
   }
   else if(p == static_cast<std::int32_t>(1))
   {
-    return x;
+    return ef::one() / x;
   }
   else if(p == static_cast<std::int32_t>(2))
   {
-- 
2.43.0


From 4cad0a4a220c480aec2af125a5b35547cf90d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 24/56] fix: efx division by huge values returned zero (NaN for
 infinity divided by a huge value)

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 33 ++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index d4ba7e9..887eb6e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -828,6 +828,39 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 
     return *this;
   }
+  else if((isinf() || iszero()) && (v.isfinite() && (!v.iszero())))
+  {
+    // The reciprocal of a huge or tiny divisor can be out of range. Do not use it here.
+    if(v.isneg())
+    {
+      negate();
+    }
+  }
+  else if((isfinite() && (!iszero())) && (v.isfinite() && (!v.iszero())))
+  {
+    // Divide with the exponents set aside. Otherwise, the reciprocal of
+    // the divisor can underflow even though the quotient is in range.
+    const auto exp_of_quotient = static_cast<std::int64_t>(my_exp - v.my_exp);
+
+    e_float x(v);
+
+    x.my_exp = static_cast<std::int64_t>(0);
+      my_exp = static_cast<std::int64_t>(0);
+
+    operator*=(x.calculate_inv());
+
+    my_exp += exp_of_quotient;
+
+    if((my_exp >= std::numeric_limits<e_float>::max_exponent10) && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)()))
+    {
+      *this = ((!my_neg) ?  std::numeric_limits<e_float>::infinity()
+                         : -std::numeric_limits<e_float>::infinity());
+    }
+    else if(my_exp < std::numeric_limits<e_float>::min_exponent10)
+    {
+      *this = ef::zero();
+    }
+  }
   else
   {
     operator*=(e_float(v).calculate_inv());
-- 
2.43.0


From f5d2cc983efc13ef559c1920e597bf8b2db112e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 25/56] fix: rootn() and rootn_inverse() of zero did not
 terminate (efx) or returned infinity (gmp)

---
 .../e_float/src/functions/elementary/elementary_trans.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 22e258b..2ae37f9 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -104,6 +104,10 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
+  else if(ef::iszero(x))
+  {
+    return ef::zero();
+  }
   else if(p == static_cast<std::int32_t>(1))
   {
     return x;
@@ -139,6 +143,10 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
+  else if(ef::iszero(x))
+  {
+    return std::numeric_limits<e_float>::infinity();
+  }
   else if(p == static_cast<std::int32_t>(1))
   {
     return ef::one() / x;
-- 
2.43.0


From e997b518de6fa378920d779dcece58b532fab858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 26/56] fix: exp() of arguments between max_exponent10 and
 max_exponent10 * ln(10) was infinity (or zero)

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2ae37f9..ff2cdba 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -191,7 +191,7 @@ e_float ef::exp(const e_float& x)
   const e_float xx = ((!bo_x_is_neg) ? x : -x);
 
   // Check the range of the argument.
-  static const e_float maximum_arg_for_exp = std::numeric_limits<e_float>::max_exponent;
+  static const e_float maximum_arg_for_exp = ef::ln10() * std::numeric_limits<e_float>::max_exponent10;
 
   if(xx > maximum_arg_for_exp)
   {
-- 
2.43.0


From d8fe87e6d6cc8a02528cfbaea7076ab2ab5439f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 27/56] fix: efx square root of infinity was NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 887eb6e..c4fa5f4 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1142,12 +1142,12 @@ efx::e_float& efx::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || (!isfinite()))
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
-  if(iszero() || isone())
+  if(isinf() || iszero() || isone())
   {
     return *this;
   }
-- 
2.43.0


From 104b57c39d50f70e92642bcfebc005a56a768d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 28/56] fix: log() of infinity was NaN

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index ff2cdba..456b41a 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -254,11 +254,16 @@ namespace Log_Series
 e_float ef::log(const e_float& x)
 {
   // Handle special arguments.
-  if(ef::isnan(x) || ef::isneg(x) || ef::isinf(x))
+  if(ef::isnan(x) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return std::numeric_limits<e_float>::infinity();
+  }
+
   if(x.i_have_my_own_log())
   {
     return e_float::my_own_log(x);
-- 
2.43.0


From ba7f64a6c525194cdc7b1af0426597866de38075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 29/56] fix: log1p() of arguments that are not small did not
 converge to the logarithm

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 456b41a..ed50ff2 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -372,7 +372,12 @@ e_float ef::log(const e_float& x)
 
 e_float ef::log10(const e_float& x)                   { return ef::log(x) / ef::ln10(); }
 e_float ef::loga (const e_float& a, const e_float& x) { return ef::log(x) / ef::log(a); }
-e_float ef::log1p(const e_float& x)                   { return Log_Series::AtOne(x); }
+e_float ef::log1p(const e_float& x)
+{
+  // The series representation converges only for small arguments.
+  return ((ef::isfinite(x) && ef::small_arg(x)) ? Log_Series::AtOne(x)
+                                                : ef::log(ef::one() + x));
+}
 
 e_float ef::log1p1m2(const e_float& x)
 {
-- 
2.43.0


From c2ca33b2fad50dc30d5295d9ec7dcc231c8c80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 30/56] fix: cosh() of negative infinity was negative infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index ed50ff2..a253768 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -549,7 +549,7 @@ e_float ef::cosh(const e_float& x)
 
   if(ef::isfinite(x) == false)
   {
-    return x;
+    return ((!ef::isneg(x)) ? x : -x);
   }
 
   e_float c;
-- 
2.43.0


From d4ccb18b4d3eb786cc967bec8a28416279a2ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 31/56] fix: tanh() of infinities and of arguments for which
 exp() overflows was NaN

---
 .../src/functions/elementary/elementary_trans.cpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index a253768..88b2aff 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -593,6 +593,18 @@ e_float ef::tanh(const e_float& x)
     return e_float::my_own_tanh(x);
   }
 
+  if(ef::isnan(x))
+  {
+    return x;
+  }
+
+  // The result for infinite and large arguments is one, including
+  // those for which the hyperbolic sine and cosine overflow.
+  if(ef::isinf(x) || (ef::fabs(x) > (ef::tolerance() * 4)))
+  {
+    return ((!ef::isneg(x)) ? ef::one() : -ef::one());
+  }
+
   e_float c, s;
   ef::sinhcosh(x, &s, &c);
   return s * c.calculate_inv();
-- 
2.43.0


From 7cdc44e122fa315524465086caa913cad420e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 32/56] fix: asinh(), acosh() of infinity were NaN, atanh() of
 infinity was infinity and atanh(+-1) was NaN

---
 .../functions/elementary/elementary_trans.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 88b2aff..08ccf5a 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -619,7 +619,7 @@ e_float ef::asinh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return std::numeric_limits<e_float>::quiet_NaN();
+    return x;
   }
 
   if(ef::iszero(x))
@@ -641,6 +641,11 @@ e_float ef::acosh(const e_float& x)
     return e_float::my_own_acosh(x);
   }
 
+  if(ef::isinf(x) && (!ef::isneg(x)))
+  {
+    return x;
+  }
+
   if(ef::isfinite(x) == false)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
@@ -681,12 +686,18 @@ e_float ef::atanh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
   const e_float xx = ef::fabs(x);
-  
-  if(xx >= ef::one())
+
+  if(ef::isone(xx))
+  {
+    return ((!ef::isneg(x)) ?  std::numeric_limits<e_float>::infinity()
+                            : -std::numeric_limits<e_float>::infinity());
+  }
+
+  if(xx > ef::one())
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-- 
2.43.0


From 9b8e50cf8e64368da0b860fa948d6665affa71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 33/56] fix: pow() of zero was one, pow() with infinite or NaN
 arguments returned the base

---
 .../functions/elementary/elementary_trans.cpp | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 08ccf5a..e4386f7 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -427,23 +427,48 @@ e_float ef::log1p1m2(const e_float& x)
 
 e_float ef::pow(const e_float& x, const e_float& a)
 {
-  if((ef::isfinite(x) == false) || ef::isone(a))
+  if(ef::iszero(a))
   {
-    return x;
+    return ef::one();
   }
 
-  if(ef::iszero(x))
+  if(ef::isnan(x) || ef::isnan(a))
   {
-    return ef::one();
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
-  
-  if(ef::iszero(a))
+
+  if(a == ef::one())
   {
-    return ef::one();
+    return x;
+  }
+
+  if(ef::isinf(a))
+  {
+    const e_float xx = ef::fabs(x);
+
+    if(xx == ef::one())
+    {
+      return ef::one();
+    }
+
+    return (((xx < ef::one()) == ef::isneg(a)) ? std::numeric_limits<e_float>::infinity() : ef::zero());
   }
 
   const bool bo_a_isint = ef::isint(a);
 
+  if(ef::iszero(x) || ef::isinf(x))
+  {
+    if(ef::iszero(x) == (!ef::isneg(a)))
+    {
+      return ef::zero();
+    }
+
+    const bool bo_a_isodd = (bo_a_isint && (!ef::isint(a / static_cast<std::int32_t>(2))));
+
+    return ((ef::isneg(x) && bo_a_isodd) ? -std::numeric_limits<e_float>::infinity()
+                                         :  std::numeric_limits<e_float>::infinity());
+  }
+
   if(ef::isneg(x) && !bo_a_isint)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
-- 
2.43.0


From bf080a1bb7b91b275d2f7f55fca80fd051697eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 34/56] fix: pow() truncated exponents that exceed the range of
 int64_t

---
 .../src/functions/elementary/elementary_trans.cpp      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index e4386f7..aebc525 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -479,6 +479,16 @@ e_float ef::pow(const e_float& x, const e_float& a)
     return ef::one() / ef::pow(x, -a);
   }
 
+  static const e_float maximum_integer_power = (std::numeric_limits<std::int64_t>::max)();
+
+  if(a > maximum_integer_power)
+  {
+    // The integer part of the power does not fit in the integer type used below.
+    const e_float result = ef::exp(a * ef::log(ef::fabs(x)));
+
+    return ((ef::isneg(x) && (!ef::isint(a / static_cast<std::int32_t>(2)))) ? -result : result);
+  }
+
   const e_float      a_int = ef::integer_part(a);
   const std::int64_t an    = ef::to_int64(a_int);
   const e_float      da    = a - a_int;
-- 
2.43.0


From ba73c02569100e34d2ee7052bb53afa04db96215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 35/56] fix: integer power with the most negative exponent
 recursed without end

---
 .../e_float/src/e_float/detail/e_float_detail_pown_template.h | 4 +++-
 libs/e_float/src/functions/elementary/elementary_trans.cpp    | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
index 31c59eb..4e3dfe4 100644
--- a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
+++ b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
@@ -11,6 +11,7 @@
   #define E_FLOAT_DETAIL_POWN_TEMPLATE_2017_08_23_HPP_
 
   #include <cstdint>
+  #include <limits>
 
   namespace ef { namespace detail {
 
@@ -29,7 +30,8 @@
     // Compute the pure power of typename T t^p. Binary splitting of the power is
     // used. The resulting computational complexity is proportional to O[log2(|p|)].
 
-    if     (p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
+    if     (p <  -(std::numeric_limits<std::int64_t>::max)()) { return T(1) / (pown_template(t, (std::numeric_limits<std::int64_t>::max)()) * t); }
+    else if(p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
     else if(p == static_cast<std::int64_t>(0)) { return T(1); }
     else if(p == static_cast<std::int64_t>(1)) { return t; }
     else if(p == static_cast<std::int64_t>(2)) { return (t * t); }
diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index aebc525..6b4781f 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -532,7 +532,8 @@ e_float ef::pow(const e_float& b, const std::int64_t p)
 
   floating_point_type result;
 
-  if     (p <  0) { result = 1 / pow(b, -p); }
+  if     (p <  -(std::numeric_limits<std::int64_t>::max)()) { result = 1 / (pow(b, (std::numeric_limits<std::int64_t>::max)()) * b); }
+  else if(p <  0) { result = 1 / pow(b, -p); }
   else if(p == 0) { result = floating_point_type(1U); }
   else if(p == 1) { result = b; }
   else if(p == 2) { result = b; result *= b; }
-- 
2.43.0


From af7018761f0bf28ce7674831875937504a8d71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 36/56] fix: fmod() with operands of different sign, or with an
 integral quotient, was wrong by one divisor

---
 .../functions/elementary/elementary_math.cpp  | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..812baf0 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -87,9 +87,32 @@ e_float ef::frexp(const e_float& v, int* expon)
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  if((!ef::isfinite(v1)) || ef::isnan(v2) || ef::iszero(v2))
+  {
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  if(ef::isinf(v2))
+  {
+    return v1;
+  }
+
+  const e_float v2_signed = ((ef::isneg(v1) == ef::isneg(v2)) ? v2 : -v2);
+
+  e_float result = v1 - (ef::integer_part(v1 / v2_signed) * v2_signed);
+
+  // The integer part of the quotient can be off by one since the quotient is rounded.
+  if((!ef::iszero(result)) && (ef::isneg(result) != ef::isneg(v1)))
+  {
+    result += v2_signed;
+  }
+
+  if(ef::fabs(result) >= ef::fabs(v2))
+  {
+    result -= v2_signed;
+  }
 
-  return v1 - (n * v2);
+  return result;
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From 6156d76ad5be6aa36da3a70f73ca47285fde511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 37/56] fix: pow2() with the most negative exponent negated it
 in signed arithmetic

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 6b4781f..5203dac 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -25,7 +25,8 @@ namespace ElementaryTrans_Series
 
 e_float ef::pow2(const std::int64_t p)
 {
-  if     (p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
+  if     (p <  -(std::numeric_limits<std::int64_t>::max)()) { return ef::zero(); }
+  else if(p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
   else if(p == -1) { return e_float( { UINT32_C(50000000) }, -8 ); }
   else if(p ==  0) { return e_float( { UINT32_C(1) } ); }
   else if(p ==  1) { return e_float( { UINT32_C(2) } ); }
-- 
2.43.0


From c9468f5421fd32cdd3e1322f7d064c4d687942d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 38/56] fix: complex integer power with the most negative
 exponent recursed without end

---
 libs/e_float/src/e_float/e_float_complex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 9354dd2..392d650 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1221,7 +1221,8 @@
 
     template<typename T> complex<T> pow(const complex<T>& c__my_z, int c__my_pn)
     {
-      if     (c__my_pn <  0) { return  T(1U) / pow(c__my_z, -c__my_pn); }
+      if     (c__my_pn <  -(std::numeric_limits<int>::max)()) { return  T(1U) / (pow(c__my_z, (std::numeric_limits<int>::max)()) * c__my_z); }
+      else if(c__my_pn <  0) { return  T(1U) / pow(c__my_z, -c__my_pn); }
       else if(c__my_pn == 0) { return  complex<T>(T(1U)); }
       else if(c__my_pn == 1) { return  c__my_z; }
       else if(c__my_pn == 2) { return  c__my_z * c__my_z; }
-- 
2.43.0


From 4619abb857e3c856ed5eb2d43277cab1499c6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 39/56] fix: frexp() scaled with the decimal exponent instead
 of the binary one

---
 .../functions/elementary/elementary_math.cpp  | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 812baf0..b8ebb02 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -75,14 +75,42 @@ e_float ef::ldexp(const e_float& v, int e)
 
 e_float ef::frexp(const e_float& v, int* expon)
 {
+  if((!ef::isfinite(v)) || ef::iszero(v))
+  {
+    *expon = 0;
+
+    return v;
+  }
+
   double d;
   std::int64_t i;
 
   v.extract_parts(d, i);
 
-  *expon = static_cast<int>(i);
+  // Estimate the binary exponent from the decimal parts. Subsequently
+  // correct the estimate such that the result lies in the range [1/2, 1).
+  using std::fabs;
+  using std::floor;
+  using std::log2;
+
+  std::int64_t n = static_cast<std::int64_t>(floor(log2(fabs(d)) + (static_cast<double>(i) * log2(10.0)))) + 1;
+
+  e_float result = v * ef::pow2(-n);
 
-  return v * ef::pow2(static_cast<std::int64_t>(-i));
+  if(ef::fabs(result) >= ef::one())
+  {
+    result /= ef::two();
+    ++n;
+  }
+  else if(ef::fabs(result) < ef::half())
+  {
+    result *= ef::two();
+    --n;
+  }
+
+  *expon = static_cast<int>(n);
+
+  return result;
 }
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
-- 
2.43.0


From 77563acb9c84d4601a9361e49b8d0cc6699d23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 40/56] fix: stream output of values below one threw, lost
 significant digits or leading zeros

---
 libs/e_float/src/e_float/e_float_base.cpp    | 34 ++++++++++++++------
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 11 ++++++-
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 603bc71..b640151 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -217,6 +217,8 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
   // Ascertain the number of digits requested from e_float.
   std::size_t the_number_of_digits_i_want_from_e_float = static_cast<std::size_t>(0U);
 
+  bool is_below_precision = false;
+
   const std::size_t max10_plus_one = static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10 + 1);
 
   if(use_scientific)
@@ -246,21 +248,33 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
       const std::int64_t exp_plus_one = static_cast<std::int64_t>(the_exp + 1);
       const std::int64_t exp_plus_one_plus_my_precision = static_cast<std::int64_t>(exp_plus_one + static_cast<std::int64_t>(os_precision));
 
+      // If not even the first digit lies within the precision, then there is nothing
+      // to be rounded and all of the digits that will be shown are zero.
+      is_below_precision = (exp_plus_one_plus_my_precision < static_cast<std::int64_t>(0));
+
       the_number_of_digits_i_want_from_e_float = (std::min)(static_cast<std::size_t>((std::max)(exp_plus_one_plus_my_precision, static_cast<std::int64_t>(0))), max10_plus_one);
     }
   }
 
-  // If the float field is not set, reduce the number of digits requested
-  // from e_float such that it neither exceeds the ostream's precision
-  // nor e_float's max_digits10.
+  // If the float field is not set, the ostream's precision is the number of
+  // significant digits. Limit the number of digits requested from e_float such
+  // that it exceeds neither the ostream's precision nor e_float's max_digits10.
   if(my_float_field == local::os_float_field_none)
   {
-    const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+    the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
+
+    is_below_precision = false;
   }
 
   // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(is_below_precision)
+  {
+    str.clear();
+  }
+  else
+  {
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
@@ -402,7 +416,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert((str.empty() ? (std::min)(minus_exp_minus_one, os_precision) : minus_exp_minus_one), static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
@@ -505,7 +519,7 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
 
       const std::size_t len_non_zero_part = static_cast<std::size_t>(str.cend() - it_non_zero);
 
-      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
+      const std::size_t u_pad = ((os_precision > len_non_zero_part) ? static_cast<std::size_t>(os_precision - len_non_zero_part) : static_cast<std::size_t>(0U));
 
       str.insert(str.cend(), u_pad, static_cast<char>('0'));
     }
@@ -513,7 +527,9 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+
+    const std::size_t u_pad = ((os_precision > len_digits) ? static_cast<std::size_t>(os_precision - len_digits) : static_cast<std::size_t>(0U));
 
     str.insert(str.cend(), u_pad, static_cast<char>('0'));
   }
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c4fa5f4..b0b8a5f 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1832,7 +1832,16 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     // Truncate the string
     str = str.substr(static_cast<std::size_t>(0U), number_of_digits);
 
-    if(round >= static_cast<std::uint32_t>(5U))
+    if(str.empty())
+    {
+      // There are no digits other than the one that is possibly carried into.
+      if(round >= static_cast<std::uint32_t>(5U))
+      {
+        str = std::string(static_cast<std::size_t>(1U), static_cast<char>('1'));
+        ++the_exp;
+      }
+    }
+    else if(round >= static_cast<std::uint32_t>(5U))
     {
       std::size_t ix = static_cast<std::size_t>(str.length() - 1U);
 
-- 
2.43.0


From 084219db262611431b41d52334e9d475cceb4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 41/56] fix: GMP and MPFR stream output was wrong by a power of
 ten when digits round up to the next order

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 19 ++++++++++++++++---
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..38559cb 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -927,15 +927,15 @@ std::int64_t gmp::e_float::get_order_fast() const
 
 void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
+  const std::int64_t the_exp_original = the_exp;
+
   // Obtain the raw digits from the scientific notation string.
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
-  const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
+  const std::size_t the_number_of_digits_scientific = ((number_of_digits != static_cast<std::size_t>(0U)) ? static_cast<std::size_t>(number_of_digits - static_cast<std::size_t>(1U)) : static_cast<std::size_t>(e_float::ef_max_digits10));
 
   const std::string str_fmt = std::string("%.") + (Util::lexical_cast(the_number_of_digits_scientific) + "Fe");
 
@@ -957,6 +957,9 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
 
   if(pos_letter_e != std::string::npos)
   {
+    // Use the exponent that belongs to the (rounded) digits in the string.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
@@ -968,6 +971,16 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
               str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
   }
+
+  if(number_of_digits == static_cast<std::size_t>(0U))
+  {
+    // There are no digits other than the one that is possibly carried into.
+    const bool round_up = ((str.at(0U) >= static_cast<char>('5')) || (the_exp != the_exp_original));
+
+    str = (round_up ? std::string("1") : std::string());
+
+    the_exp = (round_up ? static_cast<std::int64_t>(the_exp_original + 1) : the_exp_original);
+  }
 }
 
 bool gmp::e_float::rd_string(const char* const s)
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..3433acb 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -508,7 +508,7 @@ std::int64_t mpfr::e_float::get_order_exact() const
   // string extraction with 10 decimal digits.
 
   // Create a format string for 10-digits and scientific notation.
-  std::string str_fmt = std::string("%.10RNe");
+  std::string str_fmt = std::string("%.10RZe");
 
   // Get the ten digits.
   util::dynamic_array<char> buf(64U);
@@ -552,11 +552,11 @@ std::int64_t mpfr::e_float::get_order_fast() const
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
+  const std::int64_t the_exp_original = the_exp;
 
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
-  const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
+  const std::size_t the_number_of_digits_scientific = ((number_of_digits != static_cast<std::size_t>(0U)) ? static_cast<std::size_t>(number_of_digits - static_cast<std::size_t>(1U)) : static_cast<std::size_t>(e_float::ef_max_digits10));
 
   const std::string str_fmt =
        std::string("%.")
@@ -587,6 +587,9 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
 
   if(pos_letter_e != std::string::npos)
   {
+    // Use the exponent that belongs to the (rounded) digits in the string.
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
@@ -598,6 +601,16 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
     str.erase(str.cbegin() + (std::string::difference_type)  pos_decimal_point,
               str.cbegin() + (std::string::difference_type) (pos_decimal_point + 1U));
   }
+
+  if(number_of_digits == static_cast<std::size_t>(0U))
+  {
+    // There are no digits other than the one that is possibly carried into.
+    const bool round_up = ((str.at(0U) >= static_cast<char>('5')) || (the_exp != the_exp_original));
+
+    str = (round_up ? std::string("1") : std::string());
+
+    the_exp = (round_up ? static_cast<std::int64_t>(the_exp_original + 1) : the_exp_original);
+  }
 }
 
 bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
-- 
2.43.0


From 5fd7946ef4d45f643f9eb8ec6e25d7e46042d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 42/56] fix: integer and decimal parts of values with more than
 103 integer digits kept or dropped the fraction

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b0b8a5f..439d281 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1670,7 +1670,7 @@ efx::e_float efx::e_float::extract_integer_part() const
     // Thus the integer part is zero.
     return ef::zero();
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>(ef_elem_digits10 * (ef_elem_number - 1)))
   {
     // The number is too large to resolve the integer part.
     // Thus it is already a pure integer part.
@@ -1711,7 +1711,7 @@ efx::e_float efx::e_float::extract_decimal_part() const
     // Thus it is already a pure decimal part.
     return *this;
   }
-  else if(my_exp >= static_cast<std::int64_t>(std::numeric_limits<e_float>::digits10 - 1))
+  else if(my_exp >= static_cast<std::int64_t>(ef_elem_digits10 * (ef_elem_number - 1)))
   {
     // The number is too large to have a decimal part.
     // Thus the decimal part is zero.
-- 
2.43.0


From 671a796ec2e1eaebb775572fbc2a6e63828d4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 43/56] fix: gamma() of complex arguments with integral real
 part ignored the imaginary part

---
 libs/e_float/src/functions/gamma/gamma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 5d1f60c..080286f 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -76,6 +76,7 @@ namespace GammaTemplate
     using ef::tolerance;
     using ef::exp;
     using ef::log;
+    using ef::imag;
     using ef::real;
     using ef::sin;
     using ef::factorial;
@@ -97,7 +98,7 @@ namespace GammaTemplate
 
     const bool b_neg = isneg(real(x));
 
-    if(isint(real(x)))
+    if(iszero(imag(x)) && isint(real(x)))
     {
       if(b_neg || iszero(real(x)))
       {
-- 
2.43.0


From 62ed8ab2c6cc72d3164e453a1359b7b565db9f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 44/56] fix: gamma() of negative infinity was negative infinity

---
 libs/e_float/src/functions/gamma/gamma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 080286f..5ca5a44 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -93,7 +93,8 @@ namespace GammaTemplate
 
     if(!isfinite(real(x)))
     {
-      return x;
+      // There is no limit at negative infinity.
+      return (isneg(real(x)) ? T(std::numeric_limits<TR>::quiet_NaN()) : x);
     }
 
     const bool b_neg = isneg(real(x));
-- 
2.43.0


From b28883bc9ea1378ebb6a95d65b86b753cc4b22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 45/56] fix: prime_factors() of prime powers had one as an
 additional factor

---
 libs/e_float/src/functions/integer/prime_factor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..985dbc6 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -64,7 +64,10 @@ namespace Primes
 
       if(static_cast<std::uint32_t>(np / p) <= p)
       {
-        pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        if(np > static_cast<std::uint32_t>(1U))
+        {
+          pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        }
 
         break;
       }
-- 
2.43.0


From fe63b62773bac78752475802499ac9782fcf9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 46/56] fix: bernoulli_table() for n = 0 wrote behind the end
 of its tables

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index babc2a0..cb2fef9 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -69,6 +69,13 @@ e_float ef::bernoulli(const std::uint32_t n)
 
 void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
 {
+  if(n == static_cast<std::uint32_t>(0U))
+  {
+    bn.assign(static_cast<std::vector<e_float>::size_type>(1U), ef::one());
+
+    return;
+  }
+
   // See reference "Computing Bernoulli and Tangent Numbers", Richard P. Brent.
   // Also see "Modern Computer Arithmetic", Richard P. Brent and Paul Zimmermann,
   // Cambridge University Press, 2010, 237 pp.
-- 
2.43.0


From d171059b3fd0117be893ccc406d0655cdd224f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 47/56] fix: factorial2() of the most negative integer negated
 it in signed arithmetic

---
 libs/e_float/src/functions/gamma/factorial2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial2.cpp b/libs/e_float/src/functions/gamma/factorial2.cpp
index 16f8ad6..11c40ac 100644
--- a/libs/e_float/src/functions/gamma/factorial2.cpp
+++ b/libs/e_float/src/functions/gamma/factorial2.cpp
@@ -51,8 +51,7 @@ e_float ef::factorial2(const std::int32_t n)
       return ef::one();
     }
 
-    const std::int32_t nn        = (!n_is_neg ? n : static_cast<std::int32_t>(-n));
-    const bool  n_is_even = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0U));
+    const bool  n_is_even = (static_cast<std::int32_t>(n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0U));
 
     if(n_is_even)
     {
@@ -61,6 +60,7 @@ e_float ef::factorial2(const std::int32_t n)
     else
     {
       // Double factorial for negative odd integers.
+      const std::int32_t nn = static_cast<std::int32_t>(-n);
       const std::int32_t n_minus_one_over_two = static_cast<std::int32_t>(static_cast<std::int32_t>(nn - static_cast<std::int32_t>(1)) / static_cast<std::int32_t>(2));
       const bool  b_negate             = static_cast<std::int32_t>(n_minus_one_over_two % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0);
 
-- 
2.43.0


From c4fd1006f94a0a50a596521edbf27c446a836eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 48/56] fix: numeric_limits lowest() was zero

---
 libs/e_float/src/e_float/e_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..30b3841 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -75,7 +75,7 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static const e_float& lowest       () noexcept { static const e_float value_lowest = e_float(ef::value_max()).negate(); return value_lowest; }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
-- 
2.43.0


From ca16bf478d86d444f4477be8158ade16723d5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 49/56] fix: pochhammer() of zero and negative integers was NaN
 for 50 and more factors

---
 .../src/functions/gamma/pochhammer.cpp        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/pochhammer.cpp b/libs/e_float/src/functions/gamma/pochhammer.cpp
index ede5a5c..7bcb081 100644
--- a/libs/e_float/src/functions/gamma/pochhammer.cpp
+++ b/libs/e_float/src/functions/gamma/pochhammer.cpp
@@ -19,8 +19,10 @@ namespace Pochhammer_Series
   T Pochhammer_Template(const T& x, const std::uint32_t n)
   {
     using ef::real;
-    using ef::real;
-    using ef::gamma;
+    using ef::imag;
+    using ef::isint;
+    using ef::ispos;
+    using ef::iszero;
     using ef::gamma;
     using ef::one;
 
@@ -52,6 +54,19 @@ namespace Pochhammer_Series
       {
         const TR nr(n);
 
+        if(iszero(imag(x)) && isint(real(x)) && (!ispos(real(x))))
+        {
+          // The argument is a pole of the gamma function.
+          if((real(x) + nr) > TR(0U))
+          {
+            return T(TR(0U));
+          }
+
+          const T reflected = gamma(one() - x) / gamma((one() - x) - nr);
+
+          return (((n % static_cast<std::uint32_t>(2U)) == static_cast<std::uint32_t>(0U)) ? reflected : -reflected);
+        }
+
         return gamma(x + nr) / gamma(x);
       }
     }
-- 
2.43.0


From 774ccfe456909c6f8322c990bd171b21156621a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 50/56] fix: prime() with a sieve limit near 2^32 squared and
 added in 32 bits and did not terminate

---
 libs/e_float/src/functions/integer/prime.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/integer/prime.cpp b/libs/e_float/src/functions/integer/prime.cpp
index 8469b58..de6ac20 100644
--- a/libs/e_float/src/functions/integer/prime.cpp
+++ b/libs/e_float/src/functions/integer/prime.cpp
@@ -67,15 +67,15 @@ namespace Primes
     std::vector<bool> sieve(static_cast<std::size_t>(limit), false);
 
     std::uint32_t i = static_cast<std::uint32_t>(Primes::Inserter::start_index);
-    std::uint32_t i2;
+    std::uint64_t i2;
 
-    while((i2 = static_cast<std::uint32_t>(i * i)) < limit)
+    while((i2 = static_cast<std::uint64_t>(static_cast<std::uint64_t>(i) * i)) < limit)
     {
       if(sieve[i] == false)
       {
-        for(std::uint32_t j = i2; j < limit; j = static_cast<std::uint32_t>(j + i))
+        for(std::uint64_t j = i2; j < limit; j = static_cast<std::uint64_t>(j + i))
         {
-          sieve[j] = true;
+          sieve[static_cast<std::size_t>(j)] = true;
         }
       }
 
-- 
2.43.0


From 4add3d6d719558d136f3a86aa01c53d984593b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 51/56] fix: conversion from long double values beyond the
 range of double gave infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 8 ++++++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 439d281..40ac730 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,13 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  using std::isfinite;
+
+  if(!isfinite(l))
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    using std::isnan;
+
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 38559cb..a9ac44b 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -180,11 +180,11 @@ void gmp::e_float::from_long_double(const long double l)
 
   using std::isfinite;
 
-  if(isfinite(static_cast<double>(l)) == 0)
+  if(isfinite(l) == 0)
   {
     using std::isnan;
 
-    operator=(isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=(isnan(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From c85773708501540fc4d38e45857b42f15bf07f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 52/56] fix: decimal text beyond the largest value reads as
 infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 40ac730..71e6a36 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -2113,7 +2113,10 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // Check for overflow...
-  if(my_exp > std::numeric_limits<e_float>::max_exponent10)
+  // Note: The leading element holds up to ef_elem_digits10 digits. So the number
+  // also overflows if it has more than one of these at the maximum exponent.
+  if(    (my_exp >  std::numeric_limits<e_float>::max_exponent10)
+     || ((my_exp == std::numeric_limits<e_float>::max_exponent10) && (my_data.front() > static_cast<array_type::value_type>(9U))))
   {
     const bool b_result_is_neg = my_neg;
 
-- 
2.43.0


From c54aea03dc9acf452e1a10193fb59180b8075f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:45 +0000
Subject: [PATCH 53/56] fix: pochhammer of zero with many factors is zero

---
 libs/e_float/src/functions/gamma/pochhammer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/pochhammer.cpp b/libs/e_float/src/functions/gamma/pochhammer.cpp
index 7bcb081..4b95e69 100644
--- a/libs/e_float/src/functions/gamma/pochhammer.cpp
+++ b/libs/e_float/src/functions/gamma/pochhammer.cpp
@@ -54,7 +54,7 @@ namespace Pochhammer_Series
       {
         const TR nr(n);
 
-        if(iszero(imag(x)) && isint(real(x)) && (!ispos(real(x))))
+        if(iszero(imag(x)) && isint(real(x)) && (iszero(real(x)) || (!ispos(real(x)))))
         {
           // The argument is a pole of the gamma function.
           if((real(x) + nr) > TR(0U))
-- 
2.43.0


From 484480d2f8832cf63b3f6bbf52d98136eab58b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:14 +0000
Subject: [PATCH 54/56] fix: riemann_zeta of very large arguments is one

---
 libs/e_float/src/functions/zeta/zeta.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..3e6c868 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -78,6 +78,7 @@ namespace Zeta_Series
     using ef::prime;
     using ef::isneg;
     using ef::iszero;
+    using ef::isinf;
     using ef::isint;
     using ef::to_int32;
     using ef::to_double;
@@ -150,6 +151,12 @@ namespace Zeta_Series
       {
         const T prime_p_pow_s = Util::j_pow_x(primes[p], s, n_pow_s_prime_factor_map);
 
+        // The factor does not differ from one if the power overflows.
+        if(isinf(real(prime_p_pow_s)))
+        {
+          break;
+        }
+
         product *= prime_p_pow_s / (prime_p_pow_s - one());
 
         if(order_of(abs(prime_p_pow_s)) > tolerance())
-- 
2.43.0


From 375030ffc847439ddea4157380617264ba8e6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:39 +0000
Subject: [PATCH 55/56] fix: infinities and NaN in the arithmetic of the gmp
 back end

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index a9ac44b..0cfc0a1 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -241,7 +241,12 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
 
-    return *this;
+    return (v.isnan() ? (*this = v) : *this);
+  }
+
+  if(!v.isfinite())
+  {
+    return (*this = v);
   }
 
   ::mpf_add(my_rop, my_rop, v.my_rop);
@@ -264,8 +269,8 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
-  // Use *this - v = -(-*this + v).
-  return (negate().operator+=(v)).negate();
+  // Use *this - v = *this + (-v), where v can be *this.
+  return operator+=(-v);
 }
 
 gmp::e_float& gmp::e_float::operator*=(const e_float& v)
@@ -498,12 +503,12 @@ gmp::e_float& gmp::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || !isfinite())
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
-  if(iszero() || isone())
+  if(iszero() || isone() || isinf())
   {
     return *this;
   }
@@ -571,7 +576,7 @@ std::int32_t gmp::e_float::cmp(const e_float& v) const
 
 bool gmp::e_float::iszero() const
 {
-  return (::mpf_sgn(my_rop) == 0);
+  return (isfinite() && (::mpf_sgn(my_rop) == 0));
 }
 
 bool gmp::e_float::isone() const
@@ -583,7 +588,7 @@ bool gmp::e_float::isone() const
 bool gmp::e_float::isint() const
 {
   // Check if the value of *this is pure integer or very close to pure integer.
-  return (::mpf_integer_p(my_rop) != 0);
+  return (isfinite() && (::mpf_integer_p(my_rop) != 0));
 }
 
 bool gmp::e_float::isneg() const
-- 
2.43.0


From c1075fe6dfa81a791cfe6e4507e76090dd16abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:40 +0000
Subject: [PATCH 56/56] fix: conversion to 64-bit integers in the gmp and mpfr
 back ends

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   |  2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 0cfc0a1..9176abe 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -769,7 +769,7 @@ signed long long gmp::e_float::extract_signed_long_long() const
   if(nx > ef::signed_long_long_max())
   {
     return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+                     :  (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 3433acb..cbf2d6d 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -406,12 +406,12 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 {
   const bool b_neg = isneg();
 
-  const e_float nx = ef::fabs(*this);
+  const e_float nx = ef::fabs(extract_integer_part());
 
   if(nx > ef::signed_long_long_max())
   {
     return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+                     :  (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
@@ -448,17 +448,19 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
     return static_cast<unsigned long long>(extract_signed_long_long());
   }
 
-  if(*this > ef::unsigned_long_long_max())
+  const e_float nx = extract_integer_part();
+
+  if(nx > ef::unsigned_long_long_max())
   {
     return (std::numeric_limits<unsigned long long>::max)();
   }
 
-  if(*this < ef::one())
+  if(nx < ef::one())
   {
     return static_cast<unsigned long long>(0U);
   }
 
-  if(isone())
+  if(nx.isone())
   {
     return static_cast<unsigned long long>(1U);
   }
@@ -467,7 +469,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, nx.my_rop, GMP_RNDN));
 
   std::string str_ull(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
-- 
2.43.0

