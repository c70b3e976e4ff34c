From 98c8740c773413b4555fdea25f8f55af62d32104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 01/14] fix: multiplying by the zero Polynomial no longer
 underflows the product length

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..5b2feb8 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,7 +58,7 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
-    let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
+    let mut terms = vec![N::zero(); (rhs.len() + lhs.len()).saturating_sub(1)];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
             continue;
-- 
2.43.0


From 264d6d2fc32018dde2a3efe5e03007b7fb48f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:00 +0000
Subject: [PATCH 02/14] fix: Polynomial division terminates and keeps a = q*b +
 r

div_mod looped forever when the leading coefficient did not cancel exactly
(integers, rounding, NaN) and overwrote quotient terms; % never looked at the
remainder and looped forever whenever a reduction was needed.
---
 src/polynomial/polynomial.rs | 66 +++++++-----------------------------
 1 file changed, 12 insertions(+), 54 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 5b2feb8..636007e 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -500,8 +500,18 @@ where
 
         while self_degree >= rhs_deg {
             let scale = coeff / rhs_first;
+            if scale.is_zero() {
+                // The leading coefficient can not be reduced any further.
+                break;
+            }
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div[offset - self_degree] = scale;
+            // If what is left of the leading coefficient could still be divided, it is
+            // a rounding error: the term is eliminated, so that the degree decreases.
+            let lead = remainder.len() - self_degree - 1;
+            if !(remainder[lead] / rhs_first).is_zero() {
+                remainder[lead] = zero;
+            }
             match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeffx, degree) => {
@@ -533,35 +543,7 @@ where
 
     /// Returns the remainder of dividing `self` by `rhs`.
     fn rem(self, rhs: Polynomial<N>) -> Polynomial<N> {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => panic!("Can't divide polynomial by 0."),
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return self.clone(),
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return self.clone();
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        let mut remainder = self.terms.clone();
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
-
-        Polynomial::new(remainder)
+        self.div_mod(&rhs).1
     }
 }
 
@@ -571,31 +553,7 @@ where
 {
     /// Assign the remainder of dividing `self` by `rhs` to `self`.
     fn rem_assign(&mut self, rhs: Polynomial<N>) {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => panic!("Can't divide polynomial by 0."),
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return,
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        *self = self.div_mod(&rhs).1;
     }
 }
 
-- 
2.43.0


From ba758d6a4325d6992452348794817accefc1d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:29 +0000
Subject: [PATCH 03/14] fix: SparsePolynomial division subtracts the shifted
 divisor and terminates

The scaled divisor was subtracted without being shifted to the leading degree,
so div_mod, % and %= looped forever or returned a wrong quotient and remainder
unless both degrees were equal.
---
 src/polynomial/sparsepolynomial.rs | 107 ++++++++---------------------
 1 file changed, 29 insertions(+), 78 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..311334b 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,18 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    shift: usize,
+    rhs_scale: N,
+) where
     N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
-    for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+    for (&rdeg, &rcoeff) in rhs.iter() {
+        match lhs.get_mut(&(rdeg + shift)) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg + shift, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -522,7 +526,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
+        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return (
                     SparsePolynomial::zero(),
@@ -536,23 +540,34 @@ where
                         SparsePolynomial::new(self.terms.clone()),
                     );
                 }
-                (term / rhs_first, degree)
+                (term, degree)
             }
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
+            let scale = coeff / rhs_first;
+            if scale.is_zero() {
+                // The leading coefficient can not be reduced any further.
+                break;
+            }
+            map_sub_w_scale(&mut remainder, &rhs.terms, self_degree - rhs_deg, scale);
+            div.add_term(scale, self_degree - rhs_deg);
+            // If what is left of the leading coefficient could still be divided, it is
+            // a rounding error: the term is eliminated, so that the degree decreases.
+            if let Some(lead) = remainder.get_mut(&self_degree) {
+                if !(*lead / rhs_first).is_zero() {
+                    *lead = N::zero();
+                }
+            }
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
                 }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
+                Term::Term(term, degree) => {
+                    coeff = term;
                     self_degree = degree;
                 }
             }
@@ -577,41 +592,7 @@ where
 
     /// Returns the remainder of dividing `self` by `rhs`.
     fn rem(self, rhs: SparsePolynomial<N>) -> SparsePolynomial<N> {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => {
-                panic!("Can't divide by 0.");
-            }
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return SparsePolynomial::new(self.terms.clone());
-            }
-            Term::Term(term, degree) => {
-                if degree < rhs_deg {
-                    return SparsePolynomial::new(self.terms.clone());
-                }
-                (term / rhs_first, degree)
-            }
-        };
-
-        let mut remainder = self.terms;
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            match first_term(&remainder) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
-
-        SparsePolynomial::new(remainder)
+        self.div_mod(&rhs).1
     }
 }
 
@@ -628,37 +609,7 @@ where
 {
     /// Assign the remainder of dividing `self` by `rhs` to `self`.
     fn rem_assign(&mut self, rhs: SparsePolynomial<N>) {
-        let (rhs_first, rhs_deg) = match first_term(&rhs.terms) {
-            Term::ZeroTerm => {
-                panic!("Can't divide polynomial by 0.");
-            }
-            Term::Term(coeff, deg) => (coeff, deg),
-        };
-
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return;
-            }
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        *self = self.div_mod(&rhs).1;
     }
 }
 
-- 
2.43.0


From bbc587c90f1e2d2b328efe1e900137fbbc1d055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:21 +0000
Subject: [PATCH 04/14] fix: quadratic roots are exact where possible, ordered,
 and defined for a = 0

Dividing -b and the square root separately truncated integer roots, a negative
leading coefficient reversed the documented largest-first order, and a zero
leading coefficient divided by zero.
---
 src/polynomial/find_roots.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..6146300 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -45,19 +45,37 @@ where
         + Neg<Output = N>
         + From<u8>,
 {
+    if a.is_zero() {
+        return if !b.is_zero() {
+            Roots::OneRealRoot(-c / b)
+        } else if c.is_zero() {
+            Roots::InfiniteRoots
+        } else {
+            Roots::NoRoots
+        };
+    }
+
     let discriminant = discriminant_trinomial(a, b, c);
-    let a = a * N::from(2);
-    let b = -b / a;
+    let two_a = a * N::from(2);
 
     if discriminant.is_zero() {
-        return Roots::TwoRealRoots(b, b);
+        let root = -b / two_a;
+        return Roots::TwoRealRoots(root, root);
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
+    let sqrt = discriminant.abs_sqrt();
     if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+        let plus = (sqrt - b) / two_a;
+        let minus = (-b - sqrt) / two_a;
+        if a.is_positive() {
+            Roots::TwoRealRoots(plus, minus)
+        } else {
+            Roots::TwoRealRoots(minus, plus)
+        }
     } else {
-        Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
+        let real = -b / two_a;
+        let imag = sqrt / two_a;
+        Roots::TwoComplexRoots(Complex::new(real, imag), Complex::new(real, -imag))
     }
 }
 
-- 
2.43.0


From c2abe0f1868b5f720c8e5869d85d6c07889fcd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:45 +0000
Subject: [PATCH 05/14] fix: complex_factors negates complex roots and handles
 a zero leading coefficient

---
 src/polynomial/array_polynomial.rs | 33 +++++++++++++++++++++++++++---
 src/polynomial/trinomial.rs        | 33 +++++++++++++++++++++++++++---
 2 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index cfbc541..35434f0 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -161,8 +161,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
@@ -175,7 +181,28 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            Roots::OneRealRoot(a) => (
+                self.coefficients[1],
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-a, N::zero()),
+                ]),
+                ArrayPolynomial::new([
+                    Complex::new(N::zero(), N::zero()),
+                    Complex::new(N::one(), N::zero()),
+                ]),
+            ),
+            _ => (
+                self.coefficients[2],
+                ArrayPolynomial::new([
+                    Complex::new(N::zero(), N::zero()),
+                    Complex::new(N::one(), N::zero()),
+                ]),
+                ArrayPolynomial::new([
+                    Complex::new(N::zero(), N::zero()),
+                    Complex::new(N::one(), N::zero()),
+                ]),
+            ),
         }
     }
 
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..d4a05e1 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
@@ -95,7 +101,28 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            Roots::OneRealRoot(a) => (
+                self.coefficients[1],
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-a, N::zero()),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::zero(), N::zero()),
+                    Complex::new(N::one(), N::zero()),
+                ]),
+            ),
+            _ => (
+                self.coefficients[2],
+                LinearBinomial::new([
+                    Complex::new(N::zero(), N::zero()),
+                    Complex::new(N::one(), N::zero()),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::zero(), N::zero()),
+                    Complex::new(N::one(), N::zero()),
+                ]),
+            ),
         }
     }
 
-- 
2.43.0


From 83e008002b912388f68b82dc02f05150e01a1b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:49 +0000
Subject: [PATCH 06/14] fix: PowUsize::upow no longer truncates the exponent to
 32 bits

---
 src/numerics.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..2be509e 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -89,7 +89,7 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                num::pow(self, exp)
             }
         }
     };
@@ -110,13 +110,13 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        num::pow(self, exp)
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        num::pow(self, exp)
     }
 }
 
-- 
2.43.0


From 8d04a358ec0b17a16ed2f229ad5056a41c0fe7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:03 +0000
Subject: [PATCH 07/14] fix: TryFromUsizeExact rejects usize values that floats
 round up to 2^64

---
 src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 2be509e..160879f 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -436,7 +436,7 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -447,7 +447,7 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From b8ef8f87e9cf24a74873806ad1e383d16fbbd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:07 +0000
Subject: [PATCH 08/14] fix: ArrayPolynomial::ordered_term_iter reports degrees
 for every SIZE

---
 src/polynomial/array_polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 35434f0..663deab 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -228,7 +228,7 @@ impl<N: Zero + Copy, const SIZE: usize> ArrayPolynomial<N, SIZE> {
                 if coeff.is_zero() {
                     None
                 } else {
-                    Some((coeff, 1 - index))
+                    Some((coeff, SIZE - 1 - index))
                 }
             })
     }
-- 
2.43.0


From c717580a7d3e8bb36c91dcd43d2b181875d08676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:25 +0000
Subject: [PATCH 09/14] fix: shifting by i32::MIN no longer overflows negating
 the shift

---
 src/polynomial/monomial.rs         | 10 ++++++----
 src/polynomial/polynomial.rs       | 10 ++++++----
 src/polynomial/sparsepolynomial.rs | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..7cced75 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -503,7 +503,7 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 
     fn shl(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            self >> -(rhs + 1) >> 1
         } else {
             Monomial::new(self.coefficient, self.deg + (rhs as usize))
         }
@@ -513,7 +513,8 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Monomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.deg += rhs as usize;
         }
@@ -525,7 +526,7 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 
     fn shr(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self << -rhs
+            self << -(rhs + 1) << 1
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
@@ -540,7 +541,8 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Monomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 636007e..7663291 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -851,7 +851,7 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 
     fn shl(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            self >> -(rhs + 1) >> 1
         } else {
             let index = first_nonzero_index(&self.terms);
             let mut terms = self.terms[index..].to_vec();
@@ -864,7 +864,8 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Polynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.terms.extend(vec![N::zero(); rhs as usize]);
         }
@@ -876,7 +877,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 
     fn shr(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            self << -(rhs + 1) << 1
         } else {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
@@ -894,7 +895,8 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Polynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.terms.len() {
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 311334b..c3d561d 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -854,7 +854,7 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 
     fn shl(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            self >> -(rhs + 1) >> 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -869,7 +869,8 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShlAssign<i32> for SparsePolynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -886,7 +887,7 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 
     fn shr(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            self << -(rhs + 1) << 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -903,7 +904,8 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShrAssign<i32> for SparsePolynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
-- 
2.43.0


From 83ffa48ed34ca71c097db25b04f9c63badb0c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:29 +0000
Subject: [PATCH 10/14] fix: Polynomial >> accounts for leading zeros when
 everything is shifted out

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 7663291..a9dc6e3 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -882,7 +882,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if rhs > self.terms.len() - index {
                     vec![]
                 } else {
                     self.terms[index..self.terms.len() - rhs].to_vec()
-- 
2.43.0


From 29ed8c76a63c6253f3275c2150130399961b0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:44 +0000
Subject: [PATCH 11/14] fix: Term::from_str rejects digits between x and ^ and
 reports bad degrees as such

---
 src/terms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..36fc6dd 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -81,6 +81,9 @@ where
                     if !seen_x {
                         return Err(TermFromStringError::CaretWithoutXInFront);
                     }
+                    if !num_vec.is_empty() {
+                        return Err(TermFromStringError::DegreeCouldNotBeParsed);
+                    }
                     seen_caret = true;
                 }
                 _ => {
@@ -99,7 +102,7 @@ where
             if let Ok(degree) = usize::from_str(&str) {
                 Ok(Term::new(coeff, degree))
             } else {
-                Err(TermFromStringError::CoeffCouldNotBeParsed)
+                Err(TermFromStringError::DegreeCouldNotBeParsed)
             }
         } else {
             let str: String = num_vec.iter().collect();
-- 
2.43.0


From a1301187c1cb119cd10b0f118b823ad682010f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:23 +0000
Subject: [PATCH 12/14] fix: the exported poly_mul!, poly_add! and poly_sub!
 macros compile outside the crate

---
 src/polynomial/poly_math.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 99d352f..448e8c6 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -12,7 +12,7 @@ macro_rules! poly_add {
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
         // This will never error.
-        let _ = poly_add!(sink; $($x),*);
+        let _ = $crate::poly_add!(sink; $($x),*);
         sink
     }};
     // sink += (x_0 + x_1 + ... + x_z)
@@ -61,30 +61,27 @@ where
 #[macro_export]
 macro_rules! poly_mul {
     ($lhs:expr, $rhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
+        use $crate::poly_math::mul_poly_vec;
+        use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
-        mul_poly_vec($lhs.ordered_term_iter(), &$rhs.ordered_term_iter().collect(), &mut sink);
+        let _ = mul_poly_vec($lhs.ordered_term_iter(), &$rhs.terms_as_vec(), &mut sink);
         sink
     }};
 
     ($sink:expr; $lhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::{mul_poly, mul_poly_vec};
-        let sink_terms = $sink.ordered_term_iter().collect();
+        use $crate::poly_math::mul_poly_vec;
+        use $crate::SizedPolynomial;
+        let sink_terms = $sink.terms_as_vec();
         $sink.set_to_zero();
-        mul_poly_vec($lhs.ordered_term_iter(), sink_terms, &mut $sink)
+        mul_poly_vec($lhs.ordered_term_iter(), &sink_terms, &mut $sink)
     }};
 
     ($lhs:expr, $rhs:expr $(,$x:expr )+) => {{
-        poly_mul!(poly_mul!($lhs, $rhs) $(,$x)*)
+        $crate::poly_mul!($crate::poly_mul!($lhs, $rhs) $(,$x)*)
     }};
 
-    ($sink:expr; $lhs:expr, $(,$x:expr )*) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
-        poly_mul!($sink; $lhs);
-        poly_mul!($sink; $($x),*)
+    ($sink:expr; $lhs:expr $(,$x:expr )+) => {{
+        $crate::poly_mul!($sink; $lhs).and_then(|_| $crate::poly_mul!($sink; $($x),*))
     }};
 }
 
@@ -152,8 +149,8 @@ macro_rules! poly_sub {
     ($lhs:expr $(,$x:expr )+) => {{
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
-        let _ = poly_add!(sink; $lhs);
-        let _ = poly_sub!(sink; $($x),*);
+        let _ = $crate::poly_add!(sink; $lhs);
+        let _ = $crate::poly_sub!(sink; $($x),*);
         sink
     }};
     // sink -= (x_0 + x_1 + ... + x_z)
-- 
2.43.0


From f985b0830ba23f0866e8af57d245c79b6faff85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:40 +0000
Subject: [PATCH 13/14] fix: cubics with three distinct real roots report those
 roots

---
 src/polynomial/find_roots.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 6146300..dd0588b 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -2,7 +2,7 @@ use alloc::vec::Vec;
 use core::ops::{Add, AddAssign, Div, DivAssign, Mul, Neg, Sub, SubAssign};
 
 use num::{Complex, One, Zero};
-use roots::find_roots_sturm;
+use roots::{find_roots_cubic, find_roots_sturm};
 
 use crate::numerics::{AbsSqrt, Cbrt, IsPositive};
 use crate::polynomial::polynomial::{first_nonzero_index, first_term};
@@ -212,6 +212,10 @@ pub(crate) fn find_roots_special(poly: &[(f64, usize)]) -> Option<Roots<f64>> {
                 [(xb, 2), (xc, 1), (xd, 0)] => (*xb, *xc, *xd),
                 _ => unreachable!(),
             };
+            // cubic_roots can not find three distinct real roots.
+            if let roots::Roots::Three([x, y, z]) = find_roots_cubic(*a, b, c, d) {
+                return Some(Roots::ManyRealRoots(vec![x, y, z]));
+            }
             match cubic_roots(*a, b, c, d) {
                 Roots::ThreeComplexRoots(a, b, c) => Roots::ManyComplexRoots(vec![a, b, c]),
                 Roots::ThreeRealRoots(a, b, c) => Roots::ManyRealRoots(vec![a, b, c]),
-- 
2.43.0


From 2491524ab63af201549e6f38bd1f56bf2c5f18a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:44 +0000
Subject: [PATCH 14/14] fix: abs_sqrt of a signed MIN no longer overflows

---
 src/numerics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 160879f..75bbe85 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -192,7 +192,7 @@ macro_rules! abs_sqrt_i {
     ($T:ty, $U:ty) => {
         impl AbsSqrt for $T {
             fn abs_sqrt(self) -> Self {
-                (self.abs() as $U).abs_sqrt() as $T
+                self.unsigned_abs().abs_sqrt() as $T
             }
         }
     };
-- 
2.43.0

