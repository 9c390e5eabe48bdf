From 903c0f357bc2d814b9d25092b608e5e372cccab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 01/16] fix: closure arity in RealAlgebraicNumberData's sign
 (algebraic_numbers did not compile)

---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From b1d78225afb21663a23aeeafd6bafc9112d2c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 02/16] fix: DyadicFractionInterval::pow rounded inwards for
 odd powers of intervals reaching below zero

---
 src/interval_arithmetic.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..384ac6d 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1242,7 +1242,11 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
+            let mut bounds_swapped = if exponent.is_even() {
+                base_lower_bound_numer > base_upper_bound_numer
+            } else {
+                upper_bound_numer_is_negative
+            };
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
             }
@@ -1254,13 +1258,24 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     base_lower_bound_numer.set_zero();
                 }
             }
+            // odd power of an interval with zero in the interior: the magnitude
+            // of the negative lower bound has to be rounded up too
+            let round_lower_bound_up =
+                lower_bound_numer_is_negative && !upper_bound_numer_is_negative;
+            let shift_lower_bound = |numer: BigInt| {
+                if round_lower_bound_up {
+                    -(-numer >> log2_denom)
+                } else {
+                    numer >> log2_denom
+                }
+            };
             let mut retval_upper_bound_numer = BigInt::one() << log2_denom;
             let mut retval_lower_bound_numer = retval_upper_bound_numer.clone();
             let mut neg_retval_upper_bound_numer = -retval_upper_bound_numer;
             loop {
                 if exponent.is_odd() {
                     retval_lower_bound_numer *= &base_lower_bound_numer;
-                    retval_lower_bound_numer >>= log2_denom;
+                    retval_lower_bound_numer = shift_lower_bound(retval_lower_bound_numer);
                     neg_retval_upper_bound_numer *= &base_upper_bound_numer;
                     neg_retval_upper_bound_numer >>= log2_denom;
                 }
@@ -1269,8 +1284,8 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                 if exponent.is_zero() {
                     break;
                 }
-                base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
+                base_lower_bound_numer =
+                    shift_lower_bound(&base_lower_bound_numer * &base_lower_bound_numer);
                 base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
                 base_upper_bound_numer >>= log2_denom;
                 base_upper_bound_numer = -base_upper_bound_numer;
-- 
2.43.0


From 4ba3bb0083f60e329dd23b084f4a0d7b7c3309dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 03/16] fix: DyadicFractionInterval::exp panicked when a Taylor
 term is exactly one unit wide

---
 src/interval_arithmetic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 384ac6d..b9f770b 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -722,8 +722,9 @@ impl DyadicFractionInterval {
             term *= &self;
             term /= i;
             retval += &term;
-            if term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero() {
-                assert!(term.lower_bound_numer.is_zero());
+            if term.lower_bound_numer.is_zero()
+                && (term.upper_bound_numer.is_one() || term.upper_bound_numer.is_zero())
+            {
                 break;
             }
         }
-- 
2.43.0


From 6577d6aeab780f27597fa6edd39df77cba03a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:23 +0000
Subject: [PATCH 04/16] fix: adding a rational coefficient to a rational
 polynomial used the wrong multipliers

---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..e59d7a3 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in &mut lhs.elements {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From 5ae593c84e1ce144fdc6955099a8e3fbe734ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:40 +0000
Subject: [PATCH 05/16] fix: a refused exact division by a coefficient cleared
 the polynomial

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..4c57c2d 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(&*lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From 2a9b3bfbf2c85b8c0af46be997400068b5830a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 06/16] fix: polynomial powmod with exponent zero was not
 reduced and failed for a zero base

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 4c57c2d..e2e3c29 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -478,7 +478,7 @@ impl<T: PolynomialDivSupported> Polynomial<T> {
             return None;
         }
         if exponent.is_zero() {
-            return self.to_one_if_nonzero();
+            return modulus.to_one_if_nonzero()?.checked_rem(modulus);
         }
         let mut base = self.checked_rem(modulus)?;
         if exponent.is_one() {
-- 
2.43.0


From 79979696af1ad9d7cbd30e9c5158019c21cda169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:14 +0000
Subject: [PATCH 07/16] fix: factoring over the integers could leave reducible
 factors when lifting moved the leading coefficient

---
 src/polynomial/factorization_over_integers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..4010811 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,11 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // lifting can move (part of) the highest power coefficient into any of the factors
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From 3b5c065e6c061029b21dbf4420af954e3924944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:25 +0000
Subject: [PATCH 08/16] fix: fract of a negative rational was negative instead
 of self - floor

---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..50a3162 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From 31fcc2b0e2c782b0425c54cf59e41def63947bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:52 +0000
Subject: [PATCH 09/16] fix: a sum, product or power could take the value of
 another root that lies on a bound of its interval

---
 src/algebraic_numbers.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 50a3162..c4dc2ca 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -995,33 +995,36 @@ trait RootSelector: Sized {
             mem::swap(&mut factors, &mut factors_temp);
             factors.clear();
             let mut roots_left = 0;
+            let mut root_at_bound = None;
             for factor in factors_temp.drain(..) {
                 let lower_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
-                if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                // the difference of the sign changes doesn't count a root at the lower bound
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
+                if lower_bound_sign_changes.is_root {
+                    root_at_bound = Some(&lower_bound);
+                    num_roots += 1;
+                } else if upper_bound_sign_changes.is_root {
+                    root_at_bound = Some(&upper_bound);
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
             }
             if roots_left <= 1 {
+                if let Some(root) = root_at_bound {
+                    break root.clone().into();
+                }
                 break RealAlgebraicNumber::new_unchecked(
                     factors.remove(0).into_factor(),
                     interval,
-- 
2.43.0


From 9dcaa76158e3440d5460a6a17d3c52fd94710935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:16 +0000
Subject: [PATCH 10/16] fix: the reciprocal's interval could contain other
 roots and its polynomial could have a negative leading coefficient

---
 src/algebraic_numbers.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index c4dc2ca..ab076ed 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -640,19 +640,24 @@ impl RealAlgebraicNumber {
             }
             return Some(value.recip().into());
         }
+        struct RecipRootSelector<'a>(IntervalShrinker<'a>);
+        impl RootSelector for RecipRootSelector<'_> {
+            fn get_interval(&self) -> DyadicFractionInterval {
+                self.0.interval.recip()
+            }
+            fn shrink_interval(&mut self) {
+                self.0.shrink();
+            }
+        }
         let mut value = self.clone();
-        value
+        let (_, interval_shrinker) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        // the reciprocal's interval can contain more roots than the original interval
+        Some(
+            RecipRootSelector(interval_shrinker)
+                .select_root(self.minimal_polynomial().iter().rev().collect()),
+        )
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
-- 
2.43.0


From bb6cbb538cbf34c6f2932ac26c07149a6ed98241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:12 +0000
Subject: [PATCH 11/16] fix: a primitive modular power with exponent zero was
 not reduced for a modulus of one

---
 src/mod_int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..33b82de 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -414,10 +414,11 @@ macro_rules! impl_prim_int_modulus {
 
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
+                let modulus = *modulus.to_modulus();
                 if exponent.is_zero() {
-                    return One::one();
+                    // zero for a modulus of one
+                    return Self::one().modular_reduce(modulus);
                 }
-                let modulus = *modulus.to_modulus();
                 let mut base = *self;
                 base.modular_reduce_assign(modulus);
                 if exponent.is_one() {
-- 
2.43.0


From 0d0e803cc432f7c05f7b70b3b00e4d3ed1a6d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:54 +0000
Subject: [PATCH 12/16] fix: the next prime after 0 and 1 is 2

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..467ead1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,7 +546,10 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
-    if v < 3 {
+    if v < 2 {
+        return Some(2);
+    }
+    if v == 2 {
         return Some(3);
     }
     if v >= 4_294_967_291 {
-- 
2.43.0


From 74158cc0a9bf5c65d7dc00b622881f5ed1957d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:53 +0000
Subject: [PATCH 13/16] fix: keep polynomials normalized when multiplying an
 element by zero

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ded5912..30ffa18 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -767,6 +767,7 @@ where
         for sub_element in &mut element.elements {
             T::mul_assign_element_by_usize(sub_element, multiplier);
         }
+        element.normalize();
     }
     fn divisor_to_element(
         _v: Cow<Self::Divisor>,
-- 
2.43.0


From 3216b8be3d3751900dcb6828a3d8122d15def045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:05 +0000
Subject: [PATCH 14/16] hook: access to the constant cache under
 cfg(algebraics_verif)

---
 src/interval_arithmetic.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index b9f770b..43b241f 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -120,6 +120,26 @@ impl ConstantCache {
     }
 }
 
+/// access to [`ConstantCache`] for checks outside of this crate
+#[allow(unexpected_cfgs)]
+#[cfg(algebraics_verif)]
+pub mod verif {
+    use super::{ConstantCache, DyadicFractionInterval};
+    pub struct Cache(ConstantCache);
+    impl Cache {
+        pub fn new() -> Self {
+            Cache(ConstantCache::new())
+        }
+        pub fn get(
+            &self,
+            log2_denom: usize,
+            compute_fn: &dyn Fn(usize) -> DyadicFractionInterval,
+        ) -> DyadicFractionInterval {
+            self.0.get(log2_denom, compute_fn)
+        }
+    }
+}
+
 /// inclusive interval of the form `[a / 2^n, b / 2^n]` where `a` and `b` are integers and `n` is an unsigned integer.
 #[derive(Clone, Default, Hash)]
 pub struct DyadicFractionInterval {
-- 
2.43.0


From 7fa242e0968b67c2323e26407744b942ed7d91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:30 +0000
Subject: [PATCH 15/16] fix: an empty slice of a two-dimensional array could
 start past the end of its data

---
 src/array2d.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 4f2aaa6..e10c33e 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -267,10 +267,18 @@ impl<Data: Array2DData> Array2DBase<Data> {
         }
         let (x_start, x_end) = start_and_end(x_bound.to_slice_bound(), self.x_size);
         let (y_start, y_end) = start_and_end(y_bound.to_slice_bound(), self.y_size);
+        let x_size = x_end - x_start;
+        let y_size = y_end - y_start;
+        let data_offset = if x_size == 0 || y_size == 0 {
+            // the start of an empty slice can be past the end of the data
+            0
+        } else {
+            get_index_unchecked(self.stride(), x_start, y_start)
+        };
         Array2DSliceData {
-            x_size: x_end - x_start,
-            y_size: y_end - y_start,
-            data_offset: get_index_unchecked(self.stride(), x_start, y_start),
+            x_size,
+            y_size,
+            data_offset,
         }
     }
     pub(crate) fn slice<XB: Array2DSliceBound, YB: Array2DSliceBound>(
-- 
2.43.0


From 7bba082e26f1ed6dcc47f1f794d489bb246c08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:30 +0000
Subject: [PATCH 16/16] hook: access to lattice and array2d under
 cfg(algebraics_verif)

---
 src/lib.rs | 106 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 106 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b197b2b..b17d951 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,6 +18,112 @@ pub mod util;
 
 pub use algebraic_numbers::RealAlgebraicNumber;
 
+/// access to private modules for checks outside of this crate
+#[allow(unexpected_cfgs)]
+#[cfg(algebraics_verif)]
+pub mod verif {
+    use crate::{array2d::Array2DOwned, lattice};
+    use num_bigint::BigInt;
+    use num_rational::Ratio;
+    use std::ops::Bound;
+
+    type Bounds = (Bound<usize>, Bound<usize>);
+
+    /// column-major array of integers
+    pub struct Grid(Array2DOwned<BigInt>);
+
+    impl Grid {
+        pub fn new(x_size: usize, y_size: usize, data: Vec<BigInt>) -> Self {
+            Grid(Array2DOwned::from_array(x_size, y_size, data))
+        }
+        pub fn size(&self) -> (usize, usize) {
+            self.0.size()
+        }
+        pub fn data(&self) -> Vec<BigInt> {
+            self.0.data().to_vec()
+        }
+        pub fn get(&self, x: usize, y: usize) -> BigInt {
+            self.0[(x, y)].clone()
+        }
+        pub fn set(&mut self, x: usize, y: usize, value: BigInt) {
+            self.0[(x, y)] = value;
+        }
+        pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
+            self.0.swap_elements(a, b);
+        }
+        /// the elements of a part, front to back or (`directions`) from either end
+        pub fn part(&self, x: Bounds, y: Bounds, directions: &[bool]) -> Vec<Option<BigInt>> {
+            let part = self.0.slice(x, y);
+            let mut iter = part.iter();
+            directions
+                .iter()
+                .map(|&back| {
+                    if back {
+                        iter.next_back().cloned()
+                    } else {
+                        iter.next().cloned()
+                    }
+                })
+                .collect()
+        }
+        /// like [`Grid::part`], through mutable iteration
+        pub fn part_mut(
+            &mut self,
+            x: Bounds,
+            y: Bounds,
+            directions: &[bool],
+        ) -> Vec<Option<BigInt>> {
+            let mut part = self.0.slice_mut(x, y);
+            let mut iter = part.iter_mut();
+            directions
+                .iter()
+                .map(|&back| {
+                    if back {
+                        iter.next_back().cloned()
+                    } else {
+                        iter.next().cloned()
+                    }
+                })
+                .collect()
+        }
+        /// all elements, through owning iteration
+        pub fn into_elements(self, directions: &[bool]) -> Vec<Option<BigInt>> {
+            let mut iter = self.0.into_iter();
+            directions
+                .iter()
+                .map(|&back| if back { iter.next_back() } else { iter.next() })
+                .collect()
+        }
+        pub fn part_to_owned(&self, x: Bounds, y: Bounds) -> Grid {
+            Grid(self.0.slice(x, y).to_owned())
+        }
+        /// a part of a part
+        pub fn nested_part(&self, a: (Bounds, Bounds), b: (Bounds, Bounds)) -> Grid {
+            let outer = self.0.slice(a.0, a.1);
+            let inner = outer.slice(b.0, b.1);
+            Grid(inner.to_owned())
+        }
+        /// replaces the elements of a part in order
+        pub fn fill_part(&mut self, x: Bounds, y: Bounds, f: &mut dyn FnMut() -> BigInt) {
+            for v in self.0.slice_mut(x, y).iter_mut() {
+                *v = f();
+            }
+        }
+        pub fn positions(&self) -> Vec<(usize, usize)> {
+            self.0.positions().collect()
+        }
+        pub fn gram_schmidt(&self) -> Vec<Ratio<BigInt>> {
+            lattice::gram_schmidt(self.0.slice(.., ..)).into_data()
+        }
+        pub fn lll_reduce(self) -> Grid {
+            Grid(lattice::lll_reduce(self.0))
+        }
+        pub fn lll_reduce_with_delta(self, delta: Ratio<BigInt>) -> Grid {
+            Grid(lattice::lll_reduce_with_delta(self.0, delta))
+        }
+    }
+}
+
 macro_rules! doctest {
     ($x:expr) => {
         #[allow(unused_doc_comments)]
-- 
2.43.0

