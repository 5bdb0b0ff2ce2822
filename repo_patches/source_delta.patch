From 4d1491af0adfd13d9e34ab9c20ec8061e76f58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 01/16] fix: honor the sign when a NanOnly format overflows
 into the NaN encoding

overflow_result expects the rounding direction relative to the magnitude;
the two NanOnly paths in normalize passed it unadjusted for negative values.
---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From 6b0bb72fd01f826c3df1bf3525e73405201cb0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 02/16] fix: report negative zero as inexact in to_i128_r

to_u128_r overwrites is_exact, so the flag has to be cleared afterwards.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From c1fe81cf3d0188b904c83e60305a6e5fb8c786ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:09 +0000
Subject: [PATCH 03/16] fix: don't panic converting non-negative values to a
 1-bit signed integer

to_i128_r(1, ..) calls to_u128_r(0, ..), which shifted by the full limb width.
---
 src/ieee.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..a389054 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1680,8 +1680,9 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             // Negative numbers cannot be represented as unsigned.
             0
         } else {
-            // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            // Largest unsigned integer of the given width, which is `0` when
+            // `to_i128_r` asks for the magnitude bits of a 1-bit signed integer.
+            (!0u128).checked_shr((128 - width) as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From a99dedcd12a424083109e4c712af26195164ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 04/16] fix: normalize denormal addends in mul_add_r

With a denormal addend larger than the product, the product's significand was
shifted right by the difference of the nominal exponents, losing bits that the
rounding needs, or underflowing in add_or_sub.
---
 src/ieee.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index a389054..1e2c454 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1176,6 +1176,12 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             // The intermediate result of the multiplication has "2 * S::PRECISION"
             // signicant bit; adjust the addend to be consistent with mul result.
             let mut ext_addend_sig = [addend.sig[0], 0];
+            let mut ext_addend_exp = addend.exp + 1;
+
+            // Normalize denormal addends, so that the exponents reflect which of the
+            // two significands is larger, and no needed bits are shifted out below.
+            let addend_omsb = sig::omsb(&ext_addend_sig);
+            sig::shift_left(&mut ext_addend_sig, &mut ext_addend_exp, S::PRECISION - addend_omsb);
 
             // Extend the addend significand to ext_precision - 1. This guarantees
             // that the high bit of the significand is zero (same as wide_sig),
@@ -1188,7 +1194,7 @@ impl<S: Semantics> Float for IeeeFloat<S> {
                 &mut self.exp,
                 &mut sign,
                 &mut ext_addend_sig,
-                addend.exp + 1,
+                ext_addend_exp,
                 addend.is_negative(),
             );
             self = self.with_sign(sign);
-- 
2.43.0


From 57cc990ce4ee6e2bd94f4172e69286374fd36c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 05/16] fix: use the natural precision when formatting with a
 precision of 0

This is what the documentation promises; it used to panic or print wrong digits.
---
 src/ieee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 1e2c454..7e22dff 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,7 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        let precision = f.precision().filter(|&p| p != 0).unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 4aeae50dd4f7aafcface71932d25dee983b9b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 06/16] fix: measure the distance to every rounding boundary
 when parsing decimals

Directed roundings missed approximations just below a representable value, and
nearest roundings could report approximations of inexact values as exact.
---
 src/ieee.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 7e22dff..9601162 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2654,30 +2654,20 @@ impl<S: Semantics> IeeeFloat<S> {
                 inexact + 2 * (half_ulp_err1 + half_ulp_err2)
             };
 
+            // The distance from the nearest multiple of half an ULP of the result, as
+            // that's where the rounded value or its exactness can change (on both sides).
             let ulps_from_boundary = {
                 let bits = calc_precision - used_bits - 1;
 
                 let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
-                };
+                let mask = (1 << (bits % LIMB_BITS)) - 1;
+                let limb = sig_calc[i] & mask;
                 if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
-                } else if limb == boundary {
-                    if !sig::is_all_zeros(&sig_calc[1..i]) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0]
-                    }
-                } else if limb == boundary.wrapping_sub(1) {
-                    if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0].wrapping_neg()
-                    }
+                    cmp::min(limb, mask - limb + 1)
+                } else if limb == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
+                    sig_calc[0]
+                } else if limb == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
+                    sig_calc[0].wrapping_neg()
                 } else {
                     !0 // A lot.
                 }
-- 
2.43.0


From 74d45718c14c85a113ab9cf6b37739ecc948e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 07/16] fix: compare the low halves by value in
 DoubleFloat::cmp_abs_normal

It panicked for zero low halves, and treated low halves of equal magnitude but
opposite directions as equal.
---
 src/ppc.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..d3ae103 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -388,16 +388,10 @@ where
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
         self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
+            // |hi + lo| is |hi| plus or minus |lo|, depending on whether their signs match.
+            let lo = if self.0.is_negative() { -self.1 } else { self.1 };
+            let rhs_lo = if rhs.0.is_negative() { -rhs.1 } else { rhs.1 };
+            lo.partial_cmp(&rhs_lo).unwrap_or(Ordering::Equal)
         })
     }
 
-- 
2.43.0


From 4cc5b02637cf8ada46de3359922dcb376761b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 08/16] fix: check both halves in DoubleFloat::is_denormal

---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index d3ae103..35a60e0 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -405,7 +405,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


From c9f114cae702b2a9740c6e6320f0849f53a110a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 09/16] fix: multiply the signs of zeros and infinities in
 DoubleFloat::mul_r

---
 src/ppc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 35a60e0..9f9c307 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -295,9 +295,13 @@ where
 
             (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
 
-            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
+            (Category::Zero, _) | (Category::Infinity, _) => {
+                Status::OK.and(if rhs.is_negative() { -self } else { self })
+            }
 
-            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (_, Category::Zero) | (_, Category::Infinity) => {
+                Status::OK.and(if self.is_negative() { -rhs } else { rhs })
+            }
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
-- 
2.43.0


From 8d89215047462df1c8722d80c5db3146394ec658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 10/16] fix: sign of the sum of differently signed zeros in
 DoubleFloat::add_r

---
 src/ppc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index 9f9c307..fb176ad 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -195,6 +195,12 @@ where
                 }
             }
 
+            // Differently signed zeros add to a positive zero unless rounding to minus infinity.
+            (Category::Zero, Category::Zero) if self.is_negative() != rhs.is_negative() => {
+                let zero = Self::ZERO;
+                Status::OK.and(if round == Round::TowardNegative { -zero } else { zero })
+            }
+
             (_, Category::Zero) | (Category::NaN, _) | (Category::Infinity, Category::Normal) => Status::OK.and(self),
 
             (Category::Zero, _) | (_, Category::NaN) | (_, Category::Infinity) => Status::OK.and(rhs),
-- 
2.43.0


From 02e616e447f928fa9c931fc2b0ff6915610e308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 11/16] fix: don't panic on signaling NaN operands of
 double-double operations

The conversion to the fallback format raises INVALID_OP while quieting them.
---
 src/ppc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index fb176ad..b78fcd0 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -107,9 +107,9 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut status;
         let mut loses_info = false;
 
-        // Get the first F and convert to our format.
+        // Get the first F and convert to our format, which quiets a signaling NaN.
         let a = unpack!(status=, a.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
-- 
2.43.0


From 00e9016f1c6517bc893f48342ee91e55eb90d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 12/16] fix: don't panic when a double-double result rounds to
 an infinite high half

---
 src/ppc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b78fcd0..7db0779 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -79,8 +79,9 @@ where
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
 
+        // Values that are only finite thanks to the wider significand become infinite.
         let a = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        assert_eq!(status - (Status::INEXACT | Status::OVERFLOW), Status::OK);
 
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
-- 
2.43.0


From 77d28e8a3983d5796b0f5dd10dd0452ac806f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 13/16] fix: hexadecimal text with 2^31 or more digits around
 the dot panicked

The distance between the dot and the first digit that is not zero was
converted to ExpInt with unwrap(). It now saturates, as the exponent does.
---
 src/ieee.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 9601162..2d979c6 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2292,9 +2292,9 @@ impl<S: Semantics> IeeeFloat<S> {
         // significant digits and adjust for writing the significand starting
         // at the most significant nibble.
         let exp_adjustment = if dot > first_sig_digit {
-            ExpInt::try_from(dot - first_sig_digit).unwrap()
+            ExpInt::try_from(dot - first_sig_digit).unwrap_or(ExpInt::MAX)
         } else {
-            -ExpInt::try_from(first_sig_digit - dot - 1).unwrap()
+            -ExpInt::try_from(first_sig_digit - dot - 1).unwrap_or(ExpInt::MAX)
         };
         let exp_adjustment = exp_adjustment
             .saturating_mul(4)
-- 
2.43.0


From fc6c437366215101569d0802ff7e05685ced6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 14/16] fix: decimal text with 2^31 or more zeros gave a wrong
 value

The distance between the dot and the last digit that is not zero, and the
number of digits, were cast to i32 with wrap-around: 1 followed by 2^32
zeros parsed to 1.0. They now saturate, as the exponent does.
---
 src/ieee.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 2d979c6..f65acc0 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2392,13 +2392,13 @@ impl<S: Semantics> IeeeFloat<S> {
 
         // Adjust the exponents for any decimal point.
         if dot > last_sig_digit {
-            dec_exp = dec_exp.saturating_add((dot - last_sig_digit - 1) as i32);
+            dec_exp = dec_exp.saturating_add(i32::try_from(dot - last_sig_digit - 1).unwrap_or(i32::MAX));
         } else {
-            dec_exp = dec_exp.saturating_sub((last_sig_digit - dot) as i32);
+            dec_exp = dec_exp.saturating_sub(i32::try_from(last_sig_digit - dot).unwrap_or(i32::MAX));
         }
         let significand_digits =
             last_sig_digit - first_sig_digit + 1 - (dot > first_sig_digit && dot < last_sig_digit) as usize;
-        let normalized_exp = dec_exp.saturating_add(significand_digits as i32 - 1);
+        let normalized_exp = dec_exp.saturating_add(i32::try_from(significand_digits - 1).unwrap_or(i32::MAX));
 
         // Handle the cases where exponents are obviously too large or too
         // small. Writing L for log 10 / log 2, a number d.ddddd*10^dec_exp
-- 
2.43.0


From 118f58ac1dced265e82483e1accffb81ce1314fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 15/16] fix: parse signaling NaN text as double-double instead
 of panicking

---
 src/ppc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 7db0779..2da3d1f 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -386,7 +386,11 @@ where
     }
 
     fn from_str_r(s: &str, round: Round) -> Result<StatusAnd<Self>, ParseError> {
-        Fallback::from_str_r(s, round).map(|r| r.map(Self::from))
+        match Fallback::from_str_r(s, round) {
+            // A conversion would quiet a signaling NaN.
+            Ok(r) if r.value.is_signaling() => F::from_str_r(s, round).map(|r| r.map(|a| DoubleFloat(a, F::ZERO))),
+            r => r.map(|r| r.map(Self::from)),
+        }
     }
 
     fn to_bits(self) -> u128 {
-- 
2.43.0


From bedd055e56a42033546d2df194e697b363df7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 16/16] fix: quiet a signaling NaN in the second half of a
 double-double instead of panicking

---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 2da3d1f..3756326 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -115,7 +115,7 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
-            assert_eq!((status, loses_info), (Status::OK, false));
+            assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
             (a + b).value
         } else {
-- 
2.43.0

