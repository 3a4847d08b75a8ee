From d34f082449c36f52120ec43206d83b026cc39a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 01/30] fix: declare the pairing state invariant checks as
 non-static members so that assertion-enabled builds compile

---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 4 ++--
 libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp   | 2 +-
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 537c33d..d3cb37e 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -246,7 +246,7 @@ struct extended_edwards_G1_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T*Z == X*Y);
     }
@@ -464,7 +464,7 @@ struct extended_edwards_G2_projective {
             T.print();
         }
 
-    static void test_invariant()
+    void test_invariant() const
         {
             assert(T*Z == X*Y);
         }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 53c936e..7eeb7f2 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -403,7 +403,7 @@ struct extended_mnt4_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5af861b..35e8623 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -409,7 +409,7 @@ struct extended_mnt6_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
-- 
2.43.0


From b75c5351c8570f9b5753bf7ace5bd458da0cb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 02/30] fix: construct prime-field elements from the most
 negative long without signed overflow

---
 libff/algebra/fields/prime_base/fp.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 75304b0..0ccaf1a 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -210,7 +210,7 @@ Fp_model<n,modulus>::Fp_model(const long x, const bool is_unsigned)
     }
     else
     {
-        const mp_limb_t borrow = mpn_sub_1(this->mont_repr.data, modulus.data, n, (mp_limb_t)-x);
+        const mp_limb_t borrow = mpn_sub_1(this->mont_repr.data, modulus.data, n, -(mp_limb_t)x); // negate as unsigned: -x overflows for the most negative long
 #ifndef NDEBUG
             assert(borrow == 0);
 #else
-- 
2.43.0


From 7a9f2d62a9d3502eeb33c5d86a1d00571919e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 03/30] fix: from_words reports out-of-range words also when
 words hold plain integers

---
 libff/algebra/fields/prime_base/fp.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 0ccaf1a..7aba5ab 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -800,10 +800,11 @@ bool Fp_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::copy(words.begin() + start_word, words.end(), this->mont_repr.data);
     // Zero out the left-most bit_offset bits.
     this->mont_repr.data[n - 1] = mp_limb_t((uint64_t(this->mont_repr.data[n - 1]) << bit_offset) >> bit_offset);
+    const bool in_range = this->mont_repr < modulus;
 #ifndef MONTGOMERY_OUTPUT
     this->mul_reduce(Rsquared);
 #endif
-    return this->mont_repr < modulus;
+    return in_range;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
-- 
2.43.0


From dcd87d0f239927f018744c0944968187ff3c2996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 04/30] fix: gf192's designated multiplicative generator
 generates the whole group (x only has order (2^192-1)/723)

---
 libff/algebra/fields/binary/gf192.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index ddcdf51..7f8cfee 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -19,7 +19,7 @@ namespace libff {
 using std::size_t;
 
 const uint64_t gf192::modulus_;
-gf192 gf192::multiplicative_generator = gf192(2);
+gf192 gf192::multiplicative_generator = gf192(7);
 
 gf192::gf192() : value_{0, 0, 0}
 {
-- 
2.43.0


From f3cef311b623451110128a28656e4fd914674f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 05/30] fix: get_root_of_unity handles orders of 2^32 and above
 (1u << logn overflowed)

---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index 6bfefed..fc63350 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,7 +101,7 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (1u << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
+    if (!is_power_of_2(n)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
 
     FieldT omega = FieldT::root_of_unity;
-- 
2.43.0


From b41b9ff96ece178e767fc4ae9110f07dfa748f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 06/30] fix: div_ceil rounds up for negative operands and near
 the integer limits

---
 libff/common/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 90d9f88..5500183 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -104,7 +104,8 @@ long long div_ceil(long long x, long long y)
     {
         throw std::invalid_argument("libff::div_ceil: division by zero, second argument must be non-zero");
     }
-    return (x + (y-1)) / y;
+    // division truncates towards zero, so only positive inexact quotients need rounding up
+    return x / y + ((x % y != 0 && (x < 0) == (y < 0)) ? 1 : 0);
 }
 
 bool is_little_endian()
-- 
2.43.0


From 6f5e5fab7799a71d716186a86c83fdc6ca11299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 07/30] fix: to_twos_complement of a negative value at width 63
 without signed overflow

---
 libff/common/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 5500183..848ba9b 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -65,7 +65,7 @@ size_t to_twos_complement(int i, size_t w)
 {
     assert(i >= -(1l<<(w-1)));
     assert(i < (1l<<(w-1)));
-    return (i >= 0) ? i : i + (1L<<w);
+    return (i >= 0) ? i : i + (1UL<<w);
 }
 
 int from_twos_complement(size_t i, size_t w)
-- 
2.43.0


From ae9203d51768c5b296a40cc03731c9327d689113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 08/30] fix: raising the Double zero to the power zero gives
 one (pow went through log(0) and gave NaN)

---
 libff/common/double.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/common/double.cpp b/libff/common/double.cpp
index e19671e..8226ad9 100755
--- a/libff/common/double.cpp
+++ b/libff/common/double.cpp
@@ -11,6 +11,7 @@
 
 #include <math.h>
 
+#include <libff/algebra/field_utils/algorithms.hpp>
 #include <libff/algebra/field_utils/bigint.hpp>
 #include <libff/common/double.hpp>
 
@@ -132,12 +133,12 @@ bool Double::operator>(const Double &other) const
 
 Double Double::operator^(const libff::bigint<1> power) const
 {
-    return Double(pow(val, power.as_ulong()));
+    return libff::power<Double>(*this, power);
 }
 
 Double Double::operator^(const size_t power) const
 {
-    return Double(pow(val, power));
+    return libff::power<Double>(*this, power);
 }
 
 Double Double::inverse() const
-- 
2.43.0


From ec51cba8d12bec72b308e54a6a0711190211ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 09/30] fix: find_wnaf keeps the carry when a scalar close to
 the top of its width is rounded up

---
 libff/algebra/scalar_multiplication/wnaf.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/scalar_multiplication/wnaf.tcc b/libff/algebra/scalar_multiplication/wnaf.tcc
index 760df2c..7719ca5 100755
--- a/libff/algebra/scalar_multiplication/wnaf.tcc
+++ b/libff/algebra/scalar_multiplication/wnaf.tcc
@@ -27,6 +27,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
     while (!c.is_zero())
     {
         long u;
+        mp_limb_t carry = 0; // the rounded-up value may need one bit more than the scalar has
         if ((c.data[0] & 1) == 1)
         {
             u = c.data[0] % (1u << (window_size+1));
@@ -41,7 +42,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
             }
             else
             {
-                mpn_add_1(c.data, c.data, n, -u);
+                carry = mpn_add_1(c.data, c.data, n, -u);
             }
         }
         else
@@ -52,6 +53,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
         ++j;
 
         mpn_rshift(c.data, c.data, n, 1); // c = c/2
+        c.data[n-1] |= carry << (GMP_NUMB_BITS - 1);
     }
 
     return res;
-- 
2.43.0


From d43da8f40b13f1110345d4e2a4758044b3427f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 10/30] fix: bos_coster's exponent comparison tells the
 compiler that its assembly reads memory (optimised builds compared stale
 exponents)

---
 libff/algebra/scalar_multiplication/multiexp.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/multiexp.tcc b/libff/algebra/scalar_multiplication/multiexp.tcc
index 5b9d8fb..a15d328 100755
--- a/libff/algebra/scalar_multiplication/multiexp.tcc
+++ b/libff/algebra/scalar_multiplication/multiexp.tcc
@@ -52,7 +52,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 4)
@@ -71,7 +71,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 5)
@@ -91,7 +91,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else
-- 
2.43.0


From 6dfcc150eb410338c93f97c73a1c1b0ed51edb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 11/30] fix: the pairing with the identity of either group is
 one

The Miller loops worked on the affine coordinates (0,1) the identity is
given, and returned zero or a value other than one (or, with library
assertions on, aborted).
---
 .../curves/alt_bn128/alt_bn128_pairing.cpp    | 27 ++++++++++++-
 .../curves/bls12_381/bls12_381_pairing.cpp    | 23 +++++++++++
 .../curves/edwards/edwards_pairing.cpp        | 38 ++++++++++++++++++-
 .../algebra/curves/mnt/mnt4/mnt4_pairing.cpp  | 29 ++++++++++++++
 .../algebra/curves/mnt/mnt6/mnt6_pairing.cpp  | 29 ++++++++++++++
 5 files changed, 143 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index eb368fd..d77f716 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -344,9 +344,9 @@ alt_bn128_ate_G2_precomp alt_bn128_ate_precompute_G2(const alt_bn128_G2& Q)
     }
 
     alt_bn128_G2 Q1 = Qcopy.mul_by_q();
-    assert(Q1.Z == alt_bn128_Fq2::one());
+    assert(Q.is_zero() || Q1.Z == alt_bn128_Fq2::one());
     alt_bn128_G2 Q2 = Q1.mul_by_q();
-    assert(Q2.Z == alt_bn128_Fq2::one());
+    assert(Q.is_zero() || Q2.Z == alt_bn128_Fq2::one());
 
     if (alt_bn128_ate_is_loop_count_neg)
     {
@@ -364,9 +364,23 @@ alt_bn128_ate_G2_precomp alt_bn128_ate_precompute_G2(const alt_bn128_G2& Q)
     return result;
 }
 
+/* the pairing of any element with the identity is one; the precomputed identity
+   has the affine coordinates (0,1), which satisfy neither curve equation */
+static bool ate_pairing_is_trivial(const alt_bn128_ate_G1_precomp &prec_P,
+                                   const alt_bn128_ate_G2_precomp &prec_Q)
+{
+    return (prec_P.PX.is_zero() && prec_P.PY == alt_bn128_Fq::one()) ||
+           (prec_Q.QX.is_zero() && prec_Q.QY == alt_bn128_Fq2::one());
+}
+
 alt_bn128_Fq12 alt_bn128_ate_miller_loop(const alt_bn128_ate_G1_precomp &prec_P,
                                      const alt_bn128_ate_G2_precomp &prec_Q)
 {
+    if (ate_pairing_is_trivial(prec_P, prec_Q))
+    {
+        return alt_bn128_Fq12::one();
+    }
+
     enter_block("Call to alt_bn128_ate_miller_loop");
 
     alt_bn128_Fq12 f = alt_bn128_Fq12::one();
@@ -423,6 +437,15 @@ alt_bn128_Fq12 alt_bn128_ate_double_miller_loop(const alt_bn128_ate_G1_precomp &
                                      const alt_bn128_ate_G1_precomp &prec_P2,
                                      const alt_bn128_ate_G2_precomp &prec_Q2)
 {
+    if (ate_pairing_is_trivial(prec_P1, prec_Q1))
+    {
+        return alt_bn128_ate_miller_loop(prec_P2, prec_Q2);
+    }
+    if (ate_pairing_is_trivial(prec_P2, prec_Q2))
+    {
+        return alt_bn128_ate_miller_loop(prec_P1, prec_Q1);
+    }
+
     enter_block("Call to alt_bn128_ate_double_miller_loop");
 
     alt_bn128_Fq12 f = alt_bn128_Fq12::one();
diff --git a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
index 20b7cde..cbbb51d 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
@@ -310,9 +310,23 @@ bls12_381_ate_G2_precomp bls12_381_ate_precompute_G2(const bls12_381_G2& Q)
     return result;
 }
 
+/* the pairing of any element with the identity is one; the precomputed identity
+   has the affine coordinates (0,1), which satisfy neither curve equation */
+static bool ate_pairing_is_trivial(const bls12_381_ate_G1_precomp &prec_P,
+                                   const bls12_381_ate_G2_precomp &prec_Q)
+{
+    return (prec_P.PX.is_zero() && prec_P.PY == bls12_381_Fq::one()) ||
+           (prec_Q.QX.is_zero() && prec_Q.QY == bls12_381_Fq2::one());
+}
+
 bls12_381_Fq12 bls12_381_ate_miller_loop(const bls12_381_ate_G1_precomp &prec_P,
                                      const bls12_381_ate_G2_precomp &prec_Q)
 {
+    if (ate_pairing_is_trivial(prec_P, prec_Q))
+    {
+        return bls12_381_Fq12::one();
+    }
+
     enter_block("Call to bls12_381_ate_miller_loop");
 
     bls12_381_Fq12 f = bls12_381_Fq12::one();
@@ -363,6 +377,15 @@ bls12_381_Fq12 bls12_381_ate_double_miller_loop(const bls12_381_ate_G1_precomp &
                                      const bls12_381_ate_G1_precomp &prec_P2,
                                      const bls12_381_ate_G2_precomp &prec_Q2)
 {
+    if (ate_pairing_is_trivial(prec_P1, prec_Q1))
+    {
+        return bls12_381_ate_miller_loop(prec_P2, prec_Q2);
+    }
+    if (ate_pairing_is_trivial(prec_P2, prec_Q2))
+    {
+        return bls12_381_ate_miller_loop(prec_P1, prec_Q1);
+    }
+
     enter_block("Call to bls12_381_ate_double_miller_loop");
 
     bls12_381_Fq12 f = bls12_381_Fq12::one();
diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index d3cb37e..5f05be4 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -225,7 +225,10 @@ edwards_tate_G2_precomp edwards_tate_precompute_G2(const edwards_G2& Q)
     Qcopy.to_affine_coordinates();
     edwards_tate_G2_precomp result;
     result.y0 = Qcopy.Y * Qcopy.Z.inverse(); // Y/Z
-    result.eta = (Qcopy.Z+Qcopy.Y) * edwards_Fq6::mul_by_non_residue(Qcopy.X).inverse(); // (Z+Y)/(nqr*X)
+    if (!Qcopy.X.is_zero()) // the identity (0,1) is left to edwards_tate_miller_loop
+    {
+        result.eta = (Qcopy.Z+Qcopy.Y) * edwards_Fq6::mul_by_non_residue(Qcopy.X).inverse(); // (Z+Y)/(nqr*X)
+    }
     leave_block("Call to edwards_tate_precompute_G2");
 
     return result;
@@ -390,9 +393,28 @@ edwards_tate_G1_precomp edwards_tate_precompute_G1(const edwards_G1& P)
     return result;
 }
 
+/* the pairing of any element with the identity (0,1) is one; among the points of
+   odd order the first c_ZZ (a multiple of X*Y*(Y-Z)) is zero only for the identity */
+static bool tate_pairing_is_trivial(const edwards_tate_G1_precomp &prec_P,
+                                    const edwards_tate_G2_precomp &prec_Q)
+{
+    return prec_P[0].c_ZZ.is_zero() || prec_Q.y0 == edwards_Fq3::one();
+}
+
+static bool ate_pairing_is_trivial(const edwards_ate_G1_precomp &prec_P,
+                                   const edwards_ate_G2_precomp &prec_Q)
+{
+    return prec_P.P_XZ.is_zero() || prec_Q[0].c_ZZ.is_zero();
+}
+
 edwards_Fq6 edwards_tate_miller_loop(const edwards_tate_G1_precomp &prec_P,
                           const edwards_tate_G2_precomp &prec_Q)
 {
+    if (tate_pairing_is_trivial(prec_P, prec_Q))
+    {
+        return edwards_Fq6::one();
+    }
+
     enter_block("Call to edwards_tate_miller_loop");
 
     edwards_Fq6 f = edwards_Fq6::one();
@@ -630,6 +652,11 @@ edwards_ate_G2_precomp edwards_ate_precompute_G2(const edwards_G2& Q)
 edwards_Fq6 edwards_ate_miller_loop(const edwards_ate_G1_precomp &prec_P,
                                     const edwards_ate_G2_precomp &prec_Q)
 {
+    if (ate_pairing_is_trivial(prec_P, prec_Q))
+    {
+        return edwards_Fq6::one();
+    }
+
     enter_block("Call to edwards_ate_miller_loop");
     const bigint<edwards_Fr::num_limbs> &loop_count = edwards_ate_loop_count;
 
@@ -673,6 +700,15 @@ edwards_Fq6 edwards_ate_double_miller_loop(const edwards_ate_G1_precomp &prec_P1
                                            const edwards_ate_G1_precomp &prec_P2,
                                            const edwards_ate_G2_precomp &prec_Q2)
 {
+    if (ate_pairing_is_trivial(prec_P1, prec_Q1))
+    {
+        return edwards_ate_miller_loop(prec_P2, prec_Q2);
+    }
+    if (ate_pairing_is_trivial(prec_P2, prec_Q2))
+    {
+        return edwards_ate_miller_loop(prec_P1, prec_Q1);
+    }
+
     enter_block("Call to edwards_ate_double_miller_loop");
     const bigint<edwards_Fr::num_limbs> &loop_count = edwards_ate_loop_count;
 
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 7eeb7f2..d67532a 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -224,6 +224,16 @@ mnt4_GT mnt4_final_exponentiation(const mnt4_Fq4 &elt)
     return result;
 }
 
+/* the pairing of any element with the identity is one; the precomputed identity
+   has the affine coordinates (0,1), which satisfy neither curve equation */
+template<typename G1_precomputation, typename G2_precomputation>
+static bool pairing_is_trivial(const G1_precomputation &prec_P,
+                               const G2_precomputation &prec_Q)
+{
+    return (prec_P.PX.is_zero() && prec_P.PY == mnt4_Fq::one()) ||
+           (prec_Q.QX.is_zero() && prec_Q.QY == mnt4_Fq2::one());
+}
+
 /* affine ate miller loop */
 
 mnt4_affine_ate_G1_precomputation mnt4_affine_ate_precompute_G1(const mnt4_G1& P)
@@ -325,6 +335,11 @@ mnt4_affine_ate_G2_precomputation mnt4_affine_ate_precompute_G2(const mnt4_G2& Q
 mnt4_Fq4 mnt4_affine_ate_miller_loop(const mnt4_affine_ate_G1_precomputation &prec_P,
                                      const mnt4_affine_ate_G2_precomputation &prec_Q)
 {
+    if (pairing_is_trivial(prec_P, prec_Q))
+    {
+        return mnt4_Fq4::one();
+    }
+
     enter_block("Call to mnt4_affine_ate_miller_loop");
 
     mnt4_Fq4 f = mnt4_Fq4::one();
@@ -546,6 +561,11 @@ mnt4_ate_G2_precomp mnt4_ate_precompute_G2(const mnt4_G2& Q)
 mnt4_Fq4 mnt4_ate_miller_loop(const mnt4_ate_G1_precomp &prec_P,
                               const mnt4_ate_G2_precomp &prec_Q)
 {
+    if (pairing_is_trivial(prec_P, prec_Q))
+    {
+        return mnt4_Fq4::one();
+    }
+
     enter_block("Call to mnt4_ate_miller_loop");
 
     mnt4_Fq2 L1_coeff = mnt4_Fq2(prec_P.PX, mnt4_Fq::zero()) - prec_Q.QX_over_twist;
@@ -604,6 +624,15 @@ mnt4_Fq4 mnt4_ate_double_miller_loop(const mnt4_ate_G1_precomp &prec_P1,
                                      const mnt4_ate_G1_precomp &prec_P2,
                                      const mnt4_ate_G2_precomp &prec_Q2)
 {
+    if (pairing_is_trivial(prec_P1, prec_Q1))
+    {
+        return mnt4_ate_miller_loop(prec_P2, prec_Q2);
+    }
+    if (pairing_is_trivial(prec_P2, prec_Q2))
+    {
+        return mnt4_ate_miller_loop(prec_P1, prec_Q1);
+    }
+
     enter_block("Call to mnt4_ate_double_miller_loop");
 
     mnt4_Fq2 L1_coeff1 = mnt4_Fq2(prec_P1.PX, mnt4_Fq::zero()) - prec_Q1.QX_over_twist;
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 35e8623..e97fc22 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -229,6 +229,16 @@ mnt6_GT mnt6_final_exponentiation(const mnt6_Fq6 &elt)
     return result;
 }
 
+/* the pairing of any element with the identity is one; the precomputed identity
+   has the affine coordinates (0,1), which satisfy neither curve equation */
+template<typename G1_precomputation, typename G2_precomputation>
+static bool pairing_is_trivial(const G1_precomputation &prec_P,
+                               const G2_precomputation &prec_Q)
+{
+    return (prec_P.PX.is_zero() && prec_P.PY == mnt6_Fq::one()) ||
+           (prec_Q.QX.is_zero() && prec_Q.QY == mnt6_Fq3::one());
+}
+
 /* affine ate miller loop */
 
 mnt6_affine_ate_G1_precomputation mnt6_affine_ate_precompute_G1(const mnt6_G1& P)
@@ -330,6 +340,11 @@ mnt6_affine_ate_G2_precomputation mnt6_affine_ate_precompute_G2(const mnt6_G2& Q
 mnt6_Fq6 mnt6_affine_ate_miller_loop(const mnt6_affine_ate_G1_precomputation &prec_P,
                                      const mnt6_affine_ate_G2_precomputation &prec_Q)
 {
+    if (pairing_is_trivial(prec_P, prec_Q))
+    {
+        return mnt6_Fq6::one();
+    }
+
     enter_block("Call to mnt6_affine_ate_miller_loop");
 
     mnt6_Fq6 f = mnt6_Fq6::one();
@@ -555,6 +570,11 @@ mnt6_ate_G2_precomp mnt6_ate_precompute_G2(const mnt6_G2& Q)
 mnt6_Fq6 mnt6_ate_miller_loop(const mnt6_ate_G1_precomp &prec_P,
                               const mnt6_ate_G2_precomp &prec_Q)
 {
+    if (pairing_is_trivial(prec_P, prec_Q))
+    {
+        return mnt6_Fq6::one();
+    }
+
     enter_block("Call to mnt6_ate_miller_loop");
 
     mnt6_Fq3 L1_coeff = mnt6_Fq3(prec_P.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q.QX_over_twist;
@@ -615,6 +635,15 @@ mnt6_Fq6 mnt6_ate_double_miller_loop(const mnt6_ate_G1_precomp &prec_P1,
                                      const mnt6_ate_G1_precomp &prec_P2,
                                      const mnt6_ate_G2_precomp &prec_Q2)
 {
+    if (pairing_is_trivial(prec_P1, prec_Q1))
+    {
+        return mnt6_ate_miller_loop(prec_P2, prec_Q2);
+    }
+    if (pairing_is_trivial(prec_P2, prec_Q2))
+    {
+        return mnt6_ate_miller_loop(prec_P1, prec_Q1);
+    }
+
     enter_block("Call to mnt6_ate_double_miller_loop");
 
     mnt6_Fq3 L1_coeff1 = mnt6_Fq3(prec_P1.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q1.QX_over_twist;
-- 
2.43.0


From fa2b682086b6c9e7295781528dd865e4f0a30a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 12/30] fix: declare the vector reader on std::istream

Declared on std::ostream it made reading a vector from a stringstream, and
so reserialize of a vector, ambiguous.
---
 libff/common/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/serialization.hpp b/libff/common/serialization.hpp
index dbe4a51..8db2e79 100755
--- a/libff/common/serialization.hpp
+++ b/libff/common/serialization.hpp
@@ -82,7 +82,7 @@ template<typename T>
 std::ostream& operator<<(std::ostream& out, const std::vector<T> &v);
 
 template<typename T>
-std::istream& operator>>(std::ostream& out, std::vector<T> &v);
+std::istream& operator>>(std::istream& in, std::vector<T> &v);
 
 template<typename T1, typename T2>
 std::ostream& operator<<(std::ostream& out, const std::map<T1, T2> &m);
-- 
2.43.0


From 4879cdc7f9b3a0dbddc197c7a9ffc410b6c7d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 13/30] fix: define the vector readers and writers of
 Fp6_2over3

They were declared only, so using them failed to link.
---
 .../fields/prime_extension/fp6_2over3.tcc     | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 11abe2d..569084b 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -382,5 +382,40 @@ std::istream& operator>>(std::istream &in, Fp6_2over3_model<n, modulus> &el)
     return in;
 }
 
+template<mp_size_t n, const bigint<n>& modulus>
+std::ostream& operator<<(std::ostream& out, const std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    out << v.size() << "\n";
+    for (const Fp6_2over3_model<n, modulus>& t : v)
+    {
+        out << t << OUTPUT_NEWLINE;
+    }
+
+    return out;
+}
+
+template<mp_size_t n, const bigint<n>& modulus>
+std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    v.clear();
+
+    size_t s;
+    in >> s;
+
+    consume_newline(in);
+
+    v.reserve(s);
+
+    for (size_t i = 0; i < s; ++i)
+    {
+        Fp6_2over3_model<n, modulus> el;
+        in >> el;
+        consume_OUTPUT_NEWLINE(in);
+        v.emplace_back(el);
+    }
+
+    return in;
+}
+
 } // namespace libff
 #endif // FP6_2OVER3_TCC_
-- 
2.43.0


From 43114d4cebf45e485bd88abe36f081c243f4a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 14/30] fix: the extension-field vector readers consume the
 newline written after each element

---
 libff/algebra/fields/prime_extension/fp12_2over3over2.tcc | 1 +
 libff/algebra/fields/prime_extension/fp2.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp3.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp6_3over2.tcc       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 9f8ab88..90025a7 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -562,6 +562,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
     {
         Fp12_2over3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index b9e0eca..92e316f 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -305,6 +305,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
     {
         Fp2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 494e04d..78dd4e5 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -307,6 +307,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
     {
         Fp3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 7c6590a..2ed0bc2 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -322,6 +322,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
     {
         Fp6_3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
-- 
2.43.0


From c5ca4a7a8ef72852edd557bd20e3257c7a21aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 15/30] fix: G2 point compression tells Y from -Y when Y.c0 is
 zero

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 13 +++++++++++--
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 13 +++++++++++--
 libff/algebra/curves/edwards/edwards_g2.cpp     | 13 +++++++++++--
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 13 +++++++++++--
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 13 +++++++++++--
 5 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index bee3553..60df790 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -380,6 +380,15 @@ alt_bn128_G2 alt_bn128_G2::random_element()
     return (alt_bn128_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* tells Y from -Y: the LSB of the first non-zero coefficient (Y.c0, unless that is zero) */
+static mp_limb_t compression_sign(const alt_bn128_Fq2 &Y)
+{
+    const auto &c = Y.c0.is_zero() ? Y.c1 : Y.c0;
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 {
     alt_bn128_G2 copy(g);
@@ -389,7 +398,7 @@ std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << compression_sign(copy.Y);
 #endif
 
     return out;
@@ -421,7 +430,7 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
         alt_bn128_Fq2 tY2 = tX2 * tX + alt_bn128_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (compression_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 99da73c..cccf39a 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -366,6 +366,15 @@ bls12_381_G2 bls12_381_G2::random_element()
     return (bls12_381_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* tells Y from -Y: the LSB of the first non-zero coefficient (Y.c0, unless that is zero) */
+static mp_limb_t compression_sign(const bls12_381_Fq2 &Y)
+{
+    const auto &c = Y.c0.is_zero() ? Y.c1 : Y.c0;
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 {
     bls12_381_G2 copy(g);
@@ -375,7 +384,7 @@ std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << compression_sign(copy.Y);
 #endif
 
     return out;
@@ -407,7 +416,7 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
         bls12_381_Fq2 tY2 = tX2 * tX + bls12_381_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (compression_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 0224662..41d131d 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -330,6 +330,15 @@ edwards_G2 edwards_G2::random_element()
     return edwards_Fr::random_element().as_bigint() * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* tells Y from -Y: the LSB of the first non-zero coefficient (Y.c0, unless that is zero) */
+static mp_limb_t compression_sign(const edwards_Fq3 &Y)
+{
+    const auto &c = !Y.c0.is_zero() ? Y.c0 : (!Y.c1.is_zero() ? Y.c1 : Y.c2);
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 {
     edwards_G2 copy(g);
@@ -338,7 +347,7 @@ std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << compression_sign(copy.Y);
 #endif
     return out;
 }
@@ -369,7 +378,7 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
         (edwards_Fq3::one() - edwards_G2::mul_by_d(tX2)).inverse();
     tY = tY2.sqrt();
 
-    if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+    if (compression_sign(tY) != Y_lsb)
     {
         tY = -tY;
     }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f99c2c3..6a8ea7a 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -416,6 +416,15 @@ mnt4_G2 mnt4_G2::random_element()
     return (mnt4_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* tells Y from -Y: the LSB of the first non-zero coefficient (Y.c0, unless that is zero) */
+static mp_limb_t compression_sign(const mnt4_Fq2 &Y)
+{
+    const auto &c = Y.c0.is_zero() ? Y.c1 : Y.c0;
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 {
     mnt4_G2 copy(g);
@@ -426,7 +435,7 @@ std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << compression_sign(copy.Y);
 #endif
 
     return out;
@@ -458,7 +467,7 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
         mnt4_Fq2 tY2 = (tX2 + mnt4_twist_coeff_a ) * tX + mnt4_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (compression_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index d56e8f4..87c2403 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -422,6 +422,15 @@ mnt6_G2 mnt6_G2::random_element()
     return (mnt6_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* tells Y from -Y: the LSB of the first non-zero coefficient (Y.c0, unless that is zero) */
+static mp_limb_t compression_sign(const mnt6_Fq3 &Y)
+{
+    const auto &c = !Y.c0.is_zero() ? Y.c0 : (!Y.c1.is_zero() ? Y.c1 : Y.c2);
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 {
     mnt6_G2 copy(g);
@@ -432,7 +441,7 @@ std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << compression_sign(copy.Y);
 #endif
 
     return out;
@@ -464,7 +473,7 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
         const mnt6_Fq3 tY2 = (tX2 + mnt6_twist_coeff_a) * tX + mnt6_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (compression_sign(tY) != Y_lsb)
         {
             tY = -tY;
         }
-- 
2.43.0


From 4c710928aac49750f6ea5d64a7706755485e3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 16/30] fix: the binary-field operators honour BINARY_OUTPUT,
 so that vectors of them can be read back

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index a0ee6cd..1a84273 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -291,13 +291,21 @@ gf128 gf128::one()
 
 std::ostream& operator<<(std::ostream &out, const gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index 7f8cfee..f761a7c 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -345,13 +345,21 @@ gf192 gf192::one()
 
 std::ostream& operator<<(std::ostream &out, const gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 90d26c0..bda9946 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -422,13 +422,21 @@ gf256 gf256::one()
 
 std::ostream& operator<<(std::ostream &out, const gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2] << " " << el.value_[3];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2] >> el.value_[3];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index f0c2766..6404701 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -251,13 +251,21 @@ gf32 gf32::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index 1268029..a9efc60 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -292,13 +292,21 @@ gf64 gf64::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
-- 
2.43.0


From 6ce4a1260a2c595b3006789b516bab6a2c278489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 17/30] fix: vectors of numbers can be read back in binary
 output mode

---
 libff/common/serialization.tcc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libff/common/serialization.tcc b/libff/common/serialization.tcc
index e00f2be..310505b 100755
--- a/libff/common/serialization.tcc
+++ b/libff/common/serialization.tcc
@@ -13,6 +13,7 @@
 
 #include <cassert>
 #include <sstream>
+#include <type_traits>
 
 #include <libff/common/utils.hpp>
 
@@ -103,7 +104,8 @@ std::ostream& operator<<(std::ostream& out, const std::vector<T> &v)
     out << v.size() << "\n";
     for (const T& t : v)
     {
-        out << t << OUTPUT_NEWLINE;
+        // numbers are written in decimal, so they need a separator also in binary output
+        out << t << (std::is_arithmetic<T>::value ? "\n" : OUTPUT_NEWLINE);
     }
 
     return out;
@@ -122,7 +124,14 @@ std::istream& operator>>(std::istream& in, std::vector<T> &v)
     {
         T elt;
         in >> elt;
-        consume_OUTPUT_NEWLINE(in);
+        if (std::is_arithmetic<T>::value)
+        {
+            consume_newline(in);
+        }
+        else
+        {
+            consume_OUTPUT_NEWLINE(in);
+        }
         v.push_back(elt);
     }
 
-- 
2.43.0


From b28bb90ae87b2efaede285a016d5c54cd0b46588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 18/30] fix: profiling blocks can be entered and left by
 several threads (pairings in two threads corrupted the statistics)

---
 libff/common/profiling.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index dcf41c7..0cc85c7 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -13,6 +13,7 @@
 #include <cstdio>
 #include <ctime>
 #include <list>
+#include <mutex>
 #include <stdexcept>
 #include <vector>
 
@@ -61,19 +62,23 @@ void start_profiling()
     last_cpu_time = start_cpu_time = get_nsec_cpu_time();
 }
 
+/* Blocks may be entered and left by several threads at once: the statistics are
+   shared (and guarded), the nesting of blocks is tracked for each thread. */
+static std::mutex block_mutex;
+
 std::map<std::string, size_t> invocation_counts;
-std::map<std::string, long long> enter_times;
+thread_local std::map<std::string, long long> enter_times;
 std::map<std::string, long long> last_times;
 std::map<std::string, long long> cumulative_times;
 //TODO: Instead of analogous maps for time and cpu_time, use a single struct-valued map
-std::map<std::string, long long> enter_cpu_times;
+thread_local std::map<std::string, long long> enter_cpu_times;
 std::map<std::string, long long> last_cpu_times;
-std::map<std::pair<std::string, std::string>, long long> op_counts;
+thread_local std::map<std::pair<std::string, std::string>, long long> op_counts;
 std::map<std::pair<std::string, std::string>, long long> cumulative_op_counts; // ((msg, data_point), value)
     // TODO: Convert op_counts and cumulative_op_counts from pair to structs
-size_t indentation = 0;
+thread_local size_t indentation = 0;
 
-std::vector<std::string> block_names;
+thread_local std::vector<std::string> block_names;
 
 std::list<std::pair<std::string, long long*> > op_data_points = {
 #ifdef PROFILE_OP_COUNTS
@@ -254,6 +259,7 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
+    std::lock_guard<std::mutex> lock(block_mutex);
     block_names.emplace_back(msg);
     long long t = get_nsec_time();
     enter_times[msg] = t;
@@ -291,6 +297,7 @@ void leave_block(const std::string &msg, const bool indent)
         return;
     }
 
+    std::lock_guard<std::mutex> lock(block_mutex);
 #ifndef MULTICORE
     assert(*(--block_names.end()) == msg);
 #endif
-- 
2.43.0


From 215a5d2f56218502eb1219b95e1717106ac2be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 19/30] fix: edwards_tate_reduced_pairing leaves the profiling
 block it entered

---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 5f05be4..a3ec07d 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -467,7 +467,7 @@ edwards_GT edwards_tate_reduced_pairing(const edwards_G1 &P, const edwards_G2 &Q
     enter_block("Call to edwards_tate_reduced_pairing");
     const edwards_Fq6 f = edwards_tate_pairing(P, Q);
     const edwards_GT result = edwards_final_exponentiation(f);
-    leave_block("Call to edwards_tate_reduce_pairing");
+    leave_block("Call to edwards_tate_reduced_pairing");
     return result;
 }
 
-- 
2.43.0


From b229f8f75316b5e3aec27295347545e68612693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 20/30] fix: the assembly multiplication declares the registers
 it overwrites as outputs (clang kept constants in them: wrong results and
 crashes)

---
 libff/algebra/fields/prime_base/fp.tcc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 7aba5ab..a50d1e4 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -59,9 +59,9 @@ void Fp_model<n,modulus>::mul_reduce(const bigint<n> &other)
     { // use asm-optimized "CIOS method"
 
         mp_limb_t tmp[n+1];
-        mp_limb_t T0=0, T1=1, cy=2, u=3; // TODO: fix this
+        mp_limb_t T0, T1, cy, u;
 
-        __asm__ (MONT_PRECOMPUTE
+        __asm__ volatile (MONT_PRECOMPUTE
                  MONT_FIRSTITER(1)
                  MONT_FIRSTITER(2)
                  MONT_FIRSTITER(3)
@@ -94,9 +94,8 @@ void Fp_model<n,modulus>::mul_reduce(const bigint<n> &other)
                  MONT_NEXTSUB(16)
                  MONT_NEXTSUB(24)
                  "done%=:                         \n\t"
-                 :
-                 : [tmp] "r" (tmp), [A] "r" (this->mont_repr.data), [B] "r" (other.data), [inv] "r" (inv), [M] "r" (modulus.data),
-                   [T0] "r" (T0), [T1] "r" (T1), [cy] "r" (cy), [u] "r" (u)
+                 : [T0] "=&r" (T0), [T1] "=&r" (T1), [cy] "=&r" (cy), [u] "=&r" (u)
+                 : [tmp] "r" (tmp), [A] "r" (this->mont_repr.data), [B] "r" (other.data), [inv] "r" (inv), [M] "r" (modulus.data)
                  : "cc", "memory", "%rax", "%rdx"
         );
         mpn_copyi(this->mont_repr.data, tmp, n);
@@ -105,9 +104,9 @@ void Fp_model<n,modulus>::mul_reduce(const bigint<n> &other)
     { // use asm-optimized "CIOS method"
 
         mp_limb_t tmp[n+1];
-        mp_limb_t T0=0, T1=1, cy=2, u=3; // TODO: fix this
+        mp_limb_t T0, T1, cy, u;
 
-        __asm__ (MONT_PRECOMPUTE
+        __asm__ volatile (MONT_PRECOMPUTE
                  MONT_FIRSTITER(1)
                  MONT_FIRSTITER(2)
                  MONT_FIRSTITER(3)
@@ -152,9 +151,8 @@ void Fp_model<n,modulus>::mul_reduce(const bigint<n> &other)
                  MONT_NEXTSUB(24)
                  MONT_NEXTSUB(32)
                  "done%=:                         \n\t"
-                 :
-                 : [tmp] "r" (tmp), [A] "r" (this->mont_repr.data), [B] "r" (other.data), [inv] "r" (inv), [M] "r" (modulus.data),
-                   [T0] "r" (T0), [T1] "r" (T1), [cy] "r" (cy), [u] "r" (u)
+                 : [T0] "=&r" (T0), [T1] "=&r" (T1), [cy] "=&r" (cy), [u] "=&r" (u)
+                 : [tmp] "r" (tmp), [A] "r" (this->mont_repr.data), [B] "r" (other.data), [inv] "r" (inv), [M] "r" (modulus.data)
                  : "cc", "memory", "%rax", "%rdx"
         );
         mpn_copyi(this->mont_repr.data, tmp, n);
-- 
2.43.0


From bc61cf2ef354542ea68c67487e9708a75dd33725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 21/30] fix: define the operation counters of the binary fields
 in their source files (PROFILE_OP_COUNTS builds did not link)

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf128.hpp | 8 --------
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.hpp | 8 --------
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.hpp | 8 --------
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf32.hpp  | 8 --------
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.hpp  | 8 --------
 10 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index 1a84273..8f330f1 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf128::add_cnt = 0;
+long long gf128::sub_cnt = 0;
+long long gf128::mul_cnt = 0;
+long long gf128::sqr_cnt = 0;
+long long gf128::inv_cnt = 0;
+#endif
+
 const uint64_t gf128::modulus_;
 gf128 gf128::multiplicative_generator = gf128(2);
 
diff --git a/libff/algebra/fields/binary/gf128.hpp b/libff/algebra/fields/binary/gf128.hpp
index 7b50aa6..aed94ab 100644
--- a/libff/algebra/fields/binary/gf128.hpp
+++ b/libff/algebra/fields/binary/gf128.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[2];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf128::add_cnt = 0;
-long long gf128::sub_cnt = 0;
-long long gf128::mul_cnt = 0;
-long long gf128::sqr_cnt = 0;
-long long gf128::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf128.tcc>
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index f761a7c..b399ae9 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf192::add_cnt = 0;
+long long gf192::sub_cnt = 0;
+long long gf192::mul_cnt = 0;
+long long gf192::sqr_cnt = 0;
+long long gf192::inv_cnt = 0;
+#endif
+
 const uint64_t gf192::modulus_;
 gf192 gf192::multiplicative_generator = gf192(7);
 
diff --git a/libff/algebra/fields/binary/gf192.hpp b/libff/algebra/fields/binary/gf192.hpp
index d6d4069..23465cb 100644
--- a/libff/algebra/fields/binary/gf192.hpp
+++ b/libff/algebra/fields/binary/gf192.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[3];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf192::add_cnt = 0;
-long long gf192::sub_cnt = 0;
-long long gf192::mul_cnt = 0;
-long long gf192::sqr_cnt = 0;
-long long gf192::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf192.tcc>
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index bda9946..b68a473 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf256::add_cnt = 0;
+long long gf256::sub_cnt = 0;
+long long gf256::mul_cnt = 0;
+long long gf256::sqr_cnt = 0;
+long long gf256::inv_cnt = 0;
+#endif
+
 const uint64_t gf256::modulus_;
 gf256 gf256::multiplicative_generator = gf256(2);
 
diff --git a/libff/algebra/fields/binary/gf256.hpp b/libff/algebra/fields/binary/gf256.hpp
index 48fcc8a..cbcdd78 100644
--- a/libff/algebra/fields/binary/gf256.hpp
+++ b/libff/algebra/fields/binary/gf256.hpp
@@ -101,14 +101,6 @@ private:
     uint64_t value_[4];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf256::add_cnt = 0;
-long long gf256::sub_cnt = 0;
-long long gf256::mul_cnt = 0;
-long long gf256::sqr_cnt = 0;
-long long gf256::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf256.tcc>
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index 6404701..77b97d9 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf32::add_cnt = 0;
+long long gf32::sub_cnt = 0;
+long long gf32::mul_cnt = 0;
+long long gf32::sqr_cnt = 0;
+long long gf32::inv_cnt = 0;
+#endif
+
 const uint64_t gf32::modulus_;
 gf32 gf32::multiplicative_generator = gf32(2);
 
diff --git a/libff/algebra/fields/binary/gf32.hpp b/libff/algebra/fields/binary/gf32.hpp
index 3ad888a..cd10e26 100644
--- a/libff/algebra/fields/binary/gf32.hpp
+++ b/libff/algebra/fields/binary/gf32.hpp
@@ -95,14 +95,6 @@ private:
     uint32_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf32::add_cnt = 0;
-long long gf32::sub_cnt = 0;
-long long gf32::mul_cnt = 0;
-long long gf32::sqr_cnt = 0;
-long long gf32::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf32.tcc>
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index a9efc60..091605c 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf64::add_cnt = 0;
+long long gf64::sub_cnt = 0;
+long long gf64::mul_cnt = 0;
+long long gf64::sqr_cnt = 0;
+long long gf64::inv_cnt = 0;
+#endif
+
 const uint64_t gf64::modulus_;
 gf64 gf64::multiplicative_generator = gf64(2);
 
diff --git a/libff/algebra/fields/binary/gf64.hpp b/libff/algebra/fields/binary/gf64.hpp
index 497b7a5..85f112a 100644
--- a/libff/algebra/fields/binary/gf64.hpp
+++ b/libff/algebra/fields/binary/gf64.hpp
@@ -96,14 +96,6 @@ private:
     uint64_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf64::add_cnt = 0;
-long long gf64::sub_cnt = 0;
-long long gf64::mul_cnt = 0;
-long long gf64::sqr_cnt = 0;
-long long gf64::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf64.tcc>
 
-- 
2.43.0


From 53fb25afd7d4a366fcf478746d7ced9043b62526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 22/30] fix: count the additions and doublings done by
 operator+ on MNT4, MNT6 and BLS12-381 points (PROFILE_OP_COUNTS)

---
 libff/algebra/curves/bls12_381/bls12_381_g1.cpp | 4 ++++
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 4 ++++
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp       | 6 ++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 6 ++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp       | 6 ++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 6 ++++++
 6 files changed, 32 insertions(+)

diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index e90c9c2..e3ce041 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -171,6 +171,10 @@ bls12_381_G1 bls12_381_G1::operator+(const bls12_381_G1 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     // rest of add case
     bls12_381_Fq H = U2 - U1;                            // H = U2-U1
     bls12_381_Fq S2_minus_S1 = S2-S1;
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index cccf39a..7ce6264 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -181,6 +181,10 @@ bls12_381_G2 bls12_381_G2::operator+(const bls12_381_G2 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     // rest of add case
     bls12_381_Fq2 H = U2 - U1;                            // H = U2-U1
     bls12_381_Fq2 S2_minus_S1 = S2-S1;
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index e0d3123..9551a2b 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -178,6 +178,9 @@ mnt4_G1 mnt4_G1::operator+(const mnt4_G1 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt4_Fq XX   = (this->X).squared();                   // XX  = X1^2
         const mnt4_Fq ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -197,6 +200,9 @@ mnt4_G1 mnt4_G1::operator+(const mnt4_G1 &other) const
         return mnt4_G1(X3, Y3, Z3);
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     // if we have arrived here we are in the add case
     const mnt4_Fq Z1Z2 = (this->Z) * (other.Z);        // Z1Z2 = Z1*Z2
     const mnt4_Fq u    = Y2Z1 - Y1Z2; // u    = Y2*Z1-Y1Z2
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index 6a8ea7a..cc4c107 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -194,6 +194,9 @@ mnt4_G2 mnt4_G2::operator+(const mnt4_G2 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt4_Fq2 XX   = (this->X).squared();                   // XX  = X1^2
         const mnt4_Fq2 ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -213,6 +216,9 @@ mnt4_G2 mnt4_G2::operator+(const mnt4_G2 &other) const
         return mnt4_G2(X3, Y3, Z3);
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     // if we have arrived here we are in the add case
     const mnt4_Fq2 Z1Z2 = (this->Z) * (other.Z);      // Z1Z2 = Z1*Z2
     const mnt4_Fq2 u    = Y2Z1 - Y1Z2;                  // u    = Y2*Z1-Y1Z2
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index d5a3640..d0e568f 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -178,6 +178,9 @@ mnt6_G1 mnt6_G1::operator+(const mnt6_G1 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt6_Fq XX   = (this->X).squared();                   // XX  = X1^2
         const mnt6_Fq ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -197,6 +200,9 @@ mnt6_G1 mnt6_G1::operator+(const mnt6_G1 &other) const
         return mnt6_G1(X3, Y3, Z3);
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     // if we have arrived here we are in the add case
     const mnt6_Fq Z1Z2 = (this->Z) * (other.Z);      // Z1Z2 = Z1*Z2
     const mnt6_Fq u    = Y2Z1 - Y1Z2;                  // u    = Y2*Z1-Y1Z2
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index 87c2403..024b54f 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -200,6 +200,9 @@ mnt6_G2 mnt6_G2::operator+(const mnt6_G2 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt6_Fq3 XX   = (this->X).squared();                   // XX  = X1^2
         const mnt6_Fq3 ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -219,6 +222,9 @@ mnt6_G2 mnt6_G2::operator+(const mnt6_G2 &other) const
         return mnt6_G2(X3, Y3, Z3);
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     // if we have arrived here we are in the add case
     const mnt6_Fq3 Z1Z2 = (this->Z) * (other.Z);   // Z1Z2 = Z1*Z2
     const mnt6_Fq3 u    = Y2Z1 - Y1Z2;               // u    = Y2*Z1-Y1Z2
-- 
2.43.0


From 1ddd6ba06a0873db7d3a019231b15bfb1ad28533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 23/30] fix: squaring in three-limb fields no longer lowers the
 multiplication count (PROFILE_OP_COUNTS)

---
 libff/algebra/fields/prime_base/fp.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index a50d1e4..4ccbf4d 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -615,7 +615,6 @@ Fp_model<n,modulus> Fp_model<n,modulus>::squared() const
 {
 #ifdef PROFILE_OP_COUNTS
     this->sqr_cnt++;
-    this->mul_cnt--; // zero out the upcoming mul
 #endif
     /* stupid pre-processor tricks; beware */
 #if defined(__x86_64__) && defined(USE_ASM)
@@ -653,6 +652,9 @@ Fp_model<n,modulus> Fp_model<n,modulus>::squared() const
     else
 #endif
     {
+#ifdef PROFILE_OP_COUNTS
+        this->mul_cnt--; // zero out the upcoming mul
+#endif
         Fp_model<n, modulus> r(*this);
         return (r *= r);
     }
-- 
2.43.0


From d690037db3f717753e3692460b8e05b343f43729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 24/30] fix: operation counts of profiling blocks are taken and
 cleared with the other statistics also when printing is inhibited

---
 libff/common/profiling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 0cc85c7..3991704 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -106,6 +106,7 @@ void clear_profiling_counters()
     last_times.clear();
     last_cpu_times.clear();
     cumulative_times.clear();
+    cumulative_op_counts.clear();
 }
 
 void print_cumulative_time_entry(const std::string &key, const long long factor)
@@ -265,6 +266,7 @@ void enter_block(const std::string &msg, const bool indent)
     enter_times[msg] = t;
     long long cpu_t = get_nsec_cpu_time();
     enter_cpu_times[msg] = cpu_t;
+    op_profiling_enter(msg);
 
     if (inhibit_profiling_info)
     {
@@ -275,8 +277,6 @@ void enter_block(const std::string &msg, const bool indent)
 #pragma omp critical
 #endif
     {
-        op_profiling_enter(msg);
-
         print_indent();
         printf("(enter) %-35s\t", msg.c_str());
         print_times_from_last_and_start(t, t, cpu_t, cpu_t);
-- 
2.43.0


From 0a96a683865d639fd0a04e4d26ecf1f38eb43521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 25/30] fix: a profiling block entered again before it is left
 reports its own time and operation counts, not those since the inner entry

---
 libff/common/profiling.cpp | 42 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 3991704..3b323a9 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -8,6 +8,7 @@
  *             and contributors (see AUTHORS).
  * @copyright  MIT license (see LICENSE file)
  *****************************************************************************/
+#include <algorithm>
 #include <cassert>
 #include <chrono>
 #include <cstdio>
@@ -80,6 +81,10 @@ thread_local size_t indentation = 0;
 
 thread_local std::vector<std::string> block_names;
 
+/* A block may be entered again before it is left: the starting points of its outer
+   entries, innermost last, to be used again once the inner entry is left. */
+thread_local std::map<std::string, std::vector<std::vector<long long> > > outer_entries;
+
 std::list<std::pair<std::string, long long*> > op_data_points = {
 #ifdef PROFILE_OP_COUNTS
     std::make_pair("Fradd", &Fr<default_ec_pp>::add_cnt),
@@ -253,6 +258,40 @@ void op_profiling_enter(const std::string &msg)
     }
 }
 
+static void save_outer_entry(const std::string &msg)
+{
+    if (std::find(block_names.begin(), block_names.end(), msg) == block_names.end())
+    {
+        return;
+    }
+
+    std::vector<long long> entry = { enter_times[msg], enter_cpu_times[msg] };
+    for (std::pair<std::string, const long long*> p : op_data_points)
+    {
+        entry.emplace_back(op_counts[std::make_pair(msg, p.first)]);
+    }
+    outer_entries[msg].emplace_back(entry);
+}
+
+static void restore_outer_entry(const std::string &msg)
+{
+    auto it = outer_entries.find(msg);
+    if (it == outer_entries.end() || it->second.empty())
+    {
+        return;
+    }
+
+    const std::vector<long long> entry = it->second.back();
+    it->second.pop_back();
+    enter_times[msg] = entry[0];
+    enter_cpu_times[msg] = entry[1];
+    size_t i = 2;
+    for (std::pair<std::string, const long long*> p : op_data_points)
+    {
+        op_counts[std::make_pair(msg, p.first)] = entry[i++];
+    }
+}
+
 void enter_block(const std::string &msg, const bool indent)
 {
     if (inhibit_profiling_counters)
@@ -261,6 +300,7 @@ void enter_block(const std::string &msg, const bool indent)
     }
 
     std::lock_guard<std::mutex> lock(block_mutex);
+    save_outer_entry(msg);
     block_names.emplace_back(msg);
     long long t = get_nsec_time();
     enter_times[msg] = t;
@@ -321,6 +361,7 @@ void leave_block(const std::string &msg, const bool indent)
 
     if (inhibit_profiling_info)
     {
+        restore_outer_entry(msg);
         return;
     }
 
@@ -340,6 +381,7 @@ void leave_block(const std::string &msg, const bool indent)
         printf("\n");
         fflush(stdout);
     }
+    restore_outer_entry(msg);
 }
 
 void print_mem(const std::string &s)
-- 
2.43.0


From 022a916accbbf815d0caa5ce470c6c4602292c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 26/30] fix: print_vector can be called with a named vector
 (the call was ambiguous)

---
 libff/common/utils.hpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/libff/common/utils.hpp b/libff/common/utils.hpp
index 50f3ada..6399718 100755
--- a/libff/common/utils.hpp
+++ b/libff/common/utils.hpp
@@ -65,25 +65,9 @@ void deserialize_bit_vector(std::istream &in, bit_vector &v);
 template<typename CurveT>
 std::size_t curve_size_in_bits(const std::vector<CurveT> &v);
 
-/* Print a vector in the form { elem0 elem1 elem2 ... }, with a newline at the end
+/* Print a vector in the form { elem0 elem1 elem2 ... }, with a newline at the end */
 template<typename T>
-void print_vector(std::vector<T> &vec);
-template<typename T>
-void print_vector(std::vector<T> vec);*/
-
-template<typename T>
-void print_vector(std::vector<T> &vec)
-{
-    printf("{ ");
-    for (auto const& elem : vec)
-    {
-        std::cout << elem << " ";
-    }
-    printf("}\n");
-}
-
-template<typename T>
-void print_vector(std::vector<T> vec)
+void print_vector(const std::vector<T> &vec)
 {
     printf("{ ");
     for (auto const& elem : vec)
-- 
2.43.0


From 1f1880c6d998c35122c911d500c6edf941426113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:50 +0000
Subject: [PATCH 27/30] fix: reading a collection from a stream that has ended
 no longer uses an uninitialised element count

---
 .../algebra/curves/alt_bn128/alt_bn128_g1.cpp |  2 +-
 .../curves/alt_bn128/alt_bn128_pairing.cpp    |  2 +-
 .../algebra/curves/bls12_381/bls12_381_g1.cpp |  2 +-
 .../curves/bls12_381/bls12_381_pairing.cpp    |  2 +-
 libff/algebra/curves/bn128/bn128_g1.cpp       |  2 +-
 libff/algebra/curves/edwards/edwards_g1.cpp   |  2 +-
 .../curves/edwards/edwards_pairing.cpp        |  4 ++--
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp     |  2 +-
 .../algebra/curves/mnt/mnt4/mnt4_pairing.cpp  |  4 ++--
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp     |  2 +-
 .../algebra/curves/mnt/mnt6/mnt6_pairing.cpp  |  4 ++--
 .../prime_extension/fp12_2over3over2.tcc      |  2 +-
 libff/algebra/fields/prime_extension/fp2.tcc  |  2 +-
 libff/algebra/fields/prime_extension/fp3.tcc  |  2 +-
 .../fields/prime_extension/fp6_2over3.tcc     |  2 +-
 .../fields/prime_extension/fp6_3over2.tcc     |  2 +-
 libff/common/serialization.tcc                | 20 +++++++++----------
 libff/common/utils.cpp                        |  4 ++--
 18 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
index 4811e9d..e781295 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
@@ -442,7 +442,7 @@ std::istream& operator>>(std::istream& in, std::vector<alt_bn128_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
 
diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index d77f716..ec0a98e 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -89,7 +89,7 @@ std::istream& operator>>(std::istream& in, alt_bn128_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.coeffs.clear();
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index e3ce041..ad11aea 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -430,7 +430,7 @@ std::istream& operator>>(std::istream& in, std::vector<bls12_381_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
 
diff --git a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
index cbbb51d..96d25df 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
@@ -90,7 +90,7 @@ std::istream& operator>>(std::istream& in, bls12_381_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.coeffs.clear();
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
diff --git a/libff/algebra/curves/bn128/bn128_g1.cpp b/libff/algebra/curves/bn128/bn128_g1.cpp
index d96b059..9638b05 100755
--- a/libff/algebra/curves/bn128/bn128_g1.cpp
+++ b/libff/algebra/curves/bn128/bn128_g1.cpp
@@ -490,7 +490,7 @@ std::istream& operator>>(std::istream& in, std::vector<bn128_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
     v.reserve(s);
diff --git a/libff/algebra/curves/edwards/edwards_g1.cpp b/libff/algebra/curves/edwards/edwards_g1.cpp
index 3a500b9..300b264 100755
--- a/libff/algebra/curves/edwards/edwards_g1.cpp
+++ b/libff/algebra/curves/edwards/edwards_g1.cpp
@@ -372,7 +372,7 @@ std::istream& operator>>(std::istream& in, std::vector<edwards_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     v.reserve(s);
     consume_newline(in);
diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index a3ec07d..fcc43ac 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -55,7 +55,7 @@ std::istream& operator>>(std::istream& in, edwards_tate_G1_precomp &prec_P)
 {
     prec_P.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
@@ -130,7 +130,7 @@ std::istream& operator>>(std::istream& in, edwards_ate_G2_precomp &prec_Q)
 {
     prec_Q.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index 9551a2b..92c7c80 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -477,7 +477,7 @@ std::istream& operator>>(std::istream& in, std::vector<mnt4_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index d67532a..9ee35b9 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -145,7 +145,7 @@ std::istream& operator>>(std::istream& in, mnt4_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.dbl_coeffs.clear();
-    size_t dbl_s;
+    size_t dbl_s = 0;
     in >> dbl_s;
     consume_newline(in);
 
@@ -160,7 +160,7 @@ std::istream& operator>>(std::istream& in, mnt4_ate_G2_precomp &prec_Q)
     }
 
     prec_Q.add_coeffs.clear();
-    size_t add_s;
+    size_t add_s = 0;
     in >> add_s;
     consume_newline(in);
 
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index d0e568f..735ee50 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -477,7 +477,7 @@ std::istream& operator>>(std::istream& in, std::vector<mnt6_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
 
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index e97fc22..3fe9788 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -147,7 +147,7 @@ std::istream& operator>>(std::istream& in, mnt6_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.dbl_coeffs.clear();
-    size_t dbl_s;
+    size_t dbl_s = 0;
     in >> dbl_s;
     consume_newline(in);
 
@@ -162,7 +162,7 @@ std::istream& operator>>(std::istream& in, mnt6_ate_G2_precomp &prec_Q)
     }
 
     prec_Q.add_coeffs.clear();
-    size_t add_s;
+    size_t add_s = 0;
     in >> add_s;
     consume_newline(in);
 
diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 90025a7..06e5b8e 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -550,7 +550,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     char b;
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index 92e316f..7dfe696 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -293,7 +293,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     char b;
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 78dd4e5..1968b02 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -295,7 +295,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     char b;
diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 569084b..722733e 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -399,7 +399,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modul
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 2ed0bc2..5b708fc 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -310,7 +310,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     char b;
diff --git a/libff/common/serialization.tcc b/libff/common/serialization.tcc
index 310505b..e81c5e1 100755
--- a/libff/common/serialization.tcc
+++ b/libff/common/serialization.tcc
@@ -56,7 +56,7 @@ inline void output_bool(std::ostream &out, const bool b)
 
 inline void input_bool(std::istream &in, bool &b)
 {
-    size_t tmp;
+    size_t tmp = 0;
     in >> tmp;
     consume_newline(in);
     assert(tmp == 0 || tmp == 1);
@@ -75,13 +75,13 @@ inline void output_bool_vector(std::ostream &out, const std::vector<bool> &v)
 
 inline void input_bool_vector(std::istream &in, std::vector<bool> &v)
 {
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
     v.resize(size);
     for (size_t i = 0; i < size; ++i)
     {
-        bool b;
+        bool b = false;
         input_bool(in, b);
         v[i] = b;
     }
@@ -115,14 +115,14 @@ template<typename T>
 std::istream& operator>>(std::istream& in, std::vector<T> &v)
 {
     static_assert(!std::is_same<T, bool>::value, "this does not work for std::vector<bool>");
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
 
     v.resize(0);
     for (size_t i = 0; i < size; ++i)
     {
-        T elt;
+        T elt = T();
         in >> elt;
         if (std::is_arithmetic<T>::value)
         {
@@ -156,14 +156,14 @@ template<typename T1, typename T2>
 std::istream& operator>>(std::istream& in, std::map<T1, T2> &m)
 {
     m.clear();
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
 
     for (size_t i = 0; i < size; ++i)
     {
-        T1 k;
-        T2 v;
+        T1 k = T1();
+        T2 v = T2();
         in >> k;
         consume_newline(in);
         in >> v;
@@ -192,13 +192,13 @@ template<typename T>
 std::istream& operator>>(std::istream& in, std::set<T> &s)
 {
     s.clear();
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
 
     for (size_t i = 0; i < size; ++i)
     {
-        T el;
+        T el = T();
         in >> el;
         consume_newline(in);
         s.insert(el);
diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 848ba9b..3ec4e76 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -138,12 +138,12 @@ void serialize_bit_vector(std::ostream &out, const bit_vector &v)
 
 void deserialize_bit_vector(std::istream &in, bit_vector &v)
 {
-    size_t size;
+    size_t size = 0;
     in >> size;
     v.resize(size);
     for (size_t i = 0; i < size; ++i)
     {
-        bool b;
+        bool b = false;
         in >> b;
         v[i] = b;
     }
-- 
2.43.0


From f043dc1545204617dbe4120735a37d07fa284b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 28/30] fix: reading a compressed point from a stream that ends
 inside it no longer searches a square root forever

---
 libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp | 10 ++++++++++
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 10 ++++++++++
 libff/algebra/curves/bls12_381/bls12_381_g1.cpp | 10 ++++++++++
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 10 ++++++++++
 libff/algebra/curves/edwards/edwards_g1.cpp     | 10 ++++++++++
 libff/algebra/curves/edwards/edwards_g2.cpp     | 10 ++++++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp       | 10 ++++++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 10 ++++++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp       | 10 ++++++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 10 ++++++++++
 10 files changed, 100 insertions(+)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
index e781295..7e7d23d 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
@@ -387,6 +387,10 @@ std::istream& operator>>(std::istream &in, alt_bn128_G1 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -399,6 +403,12 @@ std::istream& operator>>(std::istream &in, alt_bn128_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index 60df790..204780e 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -411,6 +411,10 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -423,6 +427,12 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index ad11aea..0281a23 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -375,6 +375,10 @@ std::istream& operator>>(std::istream &in, bls12_381_G1 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -387,6 +391,12 @@ std::istream& operator>>(std::istream &in, bls12_381_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 7ce6264..f174e76 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -401,6 +401,10 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -413,6 +417,12 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/edwards/edwards_g1.cpp b/libff/algebra/curves/edwards/edwards_g1.cpp
index 300b264..7720bbc 100755
--- a/libff/algebra/curves/edwards/edwards_g1.cpp
+++ b/libff/algebra/curves/edwards/edwards_g1.cpp
@@ -322,6 +322,10 @@ std::istream& operator>>(std::istream &in, edwards_G1 &g)
     in >> tX;
     consume_OUTPUT_SEPARATOR(in);
     in >> tY;
+    if (!in)
+    {
+        return in;
+    }
 #else
     /*
       a x^2 + y^2 = 1 + d x^2 y^2
@@ -334,6 +338,12 @@ std::istream& operator>>(std::istream &in, edwards_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     edwards_Fq tX2 = tX.squared();
     edwards_Fq tY2 = (edwards_Fq::one() - tX2) * // a = 1 for G1 (not a twist)
         (edwards_Fq::one() - edwards_coeff_d * tX2).inverse();
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 41d131d..7073450 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -360,6 +360,10 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
     in >> tX;
     consume_OUTPUT_SEPARATOR(in);
     in >> tY;
+    if (!in)
+    {
+        return in;
+    }
 #else
     /*
       a x^2 + y^2 = 1 + d x^2 y^2
@@ -372,6 +376,12 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     edwards_Fq3 tX2 = tX.squared();
     const edwards_Fq3 tY2 =
         (edwards_Fq3::one() - edwards_G2::mul_by_a(tX2)) *
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index 92c7c80..d97fef5 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -422,6 +422,10 @@ std::istream& operator>>(std::istream &in, mnt4_G1 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1);
@@ -434,6 +438,12 @@ std::istream& operator>>(std::istream &in, mnt4_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index cc4c107..ee480eb 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -454,6 +454,10 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -466,6 +470,12 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index 735ee50..94a9e90 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -422,6 +422,10 @@ std::istream& operator>>(std::istream &in, mnt6_G1 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -434,6 +438,12 @@ std::istream& operator>>(std::istream &in, mnt6_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index 024b54f..af0a933 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -460,6 +460,10 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
 
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
+    if (!in)
+    {
+        return in;
+    }
     is_zero -= '0';
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
@@ -472,6 +476,12 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    // without a complete encoding there need not be a square root to find
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
-- 
2.43.0


From b8ecb66683afbd8ef15b7170a393d65cd1022413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 29/30] fix: reading a big integer in text form from a stream
 that has ended no longer parses an empty digit string

---
 libff/algebra/field_utils/bigint.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/algebra/field_utils/bigint.tcc b/libff/algebra/field_utils/bigint.tcc
index 726ba00..25f8dd0 100755
--- a/libff/algebra/field_utils/bigint.tcc
+++ b/libff/algebra/field_utils/bigint.tcc
@@ -232,6 +232,11 @@ std::istream& operator>>(std::istream &in, bigint<n> &b)
     std::string s;
     in >> s;
 
+    if (!in)
+    {
+        return in;
+    }
+
     size_t l = s.size();
     unsigned char* s_copy = new unsigned char[l];
 
-- 
2.43.0


From 4ecbe165e6538fdb98b3faafddc0a11c3729998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 30/30] fix: writing a big integer in text form to a stream
 that throws no longer leaks memory

---
 libff/algebra/field_utils/bigint.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libff/algebra/field_utils/bigint.tcc b/libff/algebra/field_utils/bigint.tcc
index 25f8dd0..7d640eb 100755
--- a/libff/algebra/field_utils/bigint.tcc
+++ b/libff/algebra/field_utils/bigint.tcc
@@ -13,6 +13,8 @@
 #include <cstring>
 #include <random>
 
+#include <gmpxx.h>
+
 namespace libff {
 
 using std::size_t;
@@ -212,13 +214,10 @@ std::ostream& operator<<(std::ostream &out, const bigint<n> &b)
 #ifdef BINARY_OUTPUT
     out.write((char*)b.data, sizeof(b.data[0]) * n);
 #else
-    mpz_t t;
-    mpz_init(t);
-    b.to_mpz(t);
-
-    out << t;
+    mpz_class t;
+    b.to_mpz(t.get_mpz_t());
 
-    mpz_clear(t);
+    out << t.get_mpz_t();
 #endif
     return out;
 }
-- 
2.43.0

