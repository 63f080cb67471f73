From bb1d12bc80fd0843fa7515ecac1231a4003bd868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 01/13] fix: reduce sums and differences of rationals to lowest
 terms

---
 src/core/num/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..7f939d6 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -84,7 +84,7 @@ impl Add for Rational {
         if numer.is_zero() {
             Rational::ZERO
         } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
+            Rational::new(numer, self.denom * other.denom)
         }
     }
 }
@@ -104,7 +104,7 @@ impl Sub for Rational {
         if numer.is_zero() {
             Rational::ZERO
         } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
+            Rational::new(numer, self.denom * other.denom)
         }
     }
 }
-- 
2.43.0


From 1585e35264c017c77131c7933d3b894cba7b8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 02/13] fix: reject the reciprocal of zero instead of returning
 0/0

---
 src/core/num/rat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 7f939d6..98ad9e5 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -64,6 +64,10 @@ impl Rational {
     }
 
     pub fn recip(&self) -> Self {
+        if self.is_zero() {
+            panic!("zero has no reciprocal")
+        }
+
         Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)
     }
 }
-- 
2.43.0


From 85a4e89b58a45e75b7a29d0404e9f83ad9acbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 03/13] fix: keep the denominator positive in negative powers
 of rationals

---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 98ad9e5..1177adf 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -47,7 +47,7 @@ impl Rational {
 
     pub fn pow(&self, exp: Integer) -> Self {
         if exp.is_neg() {
-            Self::new_unchecked(self.denom.pow(-exp), self.numer.pow(-exp))
+            self.recip().pow(-exp)
         } else {
             Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))
         }
-- 
2.43.0


From ac40ca488a3b041c59a093f7bd2c2be1c98f37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 04/13] fix: return the nonnegative lcm, and zero when an
 argument is zero

---
 src/core/num/int.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index e1d1617..6675b1c 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -1,5 +1,7 @@
 use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
 
+use super::traits::Zero;
+
 
 
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Hash)]
@@ -81,7 +83,11 @@ impl Integer {
     /// 
     /// That is, the smallest nonnegative integer which both divide.
     pub fn lcm(a: Integer, b: Integer) -> Integer {
-        a / Self::gcd(a, b) * b
+        if a.is_zero() || b.is_zero() {
+            return Integer::ZERO;
+        }
+
+        (a / Self::gcd(a, b) * b).abs()
     }
 }
 
-- 
2.43.0


From 7d821f5958c562d76c6033c36800895d00fdd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 05/13] fix: trim multidegrees that consist of zeros only

---
 src/poly/mdeg.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..fcb9275 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -33,9 +33,8 @@ impl MultiDegree {
     /// Should be avoided if possible; prefer clean operations.
     #[inline]
     pub fn trim_zeros(&mut self) {
-        if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
-            self.0.truncate(idx + 1);
-        }
+        let len = self.degs().rposition(|deg| *deg != 0).map_or(0, |idx| idx + 1);
+        self.0.truncate(len);
     }
 
     /// Returns the multidegree wrapping the given vector, after truncating off
-- 
2.43.0


From 4c6ddf59408a2a7c2b244655d7c8535d676195b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 06/13] fix: never let a degree wrap around silently

---
 src/poly/mdeg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index fcb9275..51ee7b5 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -94,7 +94,8 @@ impl MultiDegree {
     /// individual degree components
     #[inline]
     pub fn total_deg(&self) -> D {
-        self.degs().sum()
+        self.degs()
+            .fold(0, |acc: D, deg| acc.checked_add(*deg).expect("total degree overflow"))
     }
 
     /// returns the maximum index for which `self` contains an entry.
@@ -189,7 +190,7 @@ impl Add for &MultiDegree {
                     zero_cache += 1;
                     continue;
                 }
-                EitherOrBoth::Both(a, b) => a + b,
+                EitherOrBoth::Both(a, b) => a.checked_add(*b).expect("degree overflow"),
                 EitherOrBoth::Left(a) => *a,
                 EitherOrBoth::Right(b) => *b,
             };
-- 
2.43.0


From d602173e1919805470955d738c4dee709944521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 07/13] fix: compare total degrees beyond the range of a single
 degree

---
 src/poly/ord.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/poly/ord.rs b/src/poly/ord.rs
index 2dd3cbc..a552b6e 100644
--- a/src/poly/ord.rs
+++ b/src/poly/ord.rs
@@ -78,7 +78,10 @@ impl MonomialOrder for RevLex {
 /// Important note: this is not a 'monomial order' as it is not antisymmetric;
 /// should probably be moved or hidden to avoid confusion
 pub fn grad(a: &MultiDegree, b: &MultiDegree) -> Ordering {
-    a.total_deg().cmp(&b.total_deg())
+    // the total degree may exceed the range of the individual degrees
+    let total = |mdeg: &MultiDegree| mdeg.degs().map(|&deg| usize::from(deg)).sum::<usize>();
+
+    total(a).cmp(&total(b))
 }
 
 /// The [Graded Lexicographic Order](https://w.wiki/3zwp) on multidegrees.
-- 
2.43.0


From f64fed2196df7a95ba0df37d4188ea3af2635785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 08/13] fix: iterate mutably over the column of a non-square
 matrix

---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From f8ba7365cd795802909786ab7d4206f281359b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/13] fix: reject a matrix whose number of entries is not
 rows * cols

---
 src/linalg/mat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index 119db55..9596462 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -15,6 +15,9 @@ pub struct Mat<F: Field> {
 
 impl<F: Field> Mat<F> {
     pub fn new(rows: usize, cols: usize, entries: Vec<F>) -> Mat<F> {
+        if entries.len() != rows * cols {
+            panic!("tried to create matrix with wrong number of entries.")
+        }
         Mat {
             entries,
             rows,
-- 
2.43.0


From dd504d880e676f262f6f468a074a3ba72cc77afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 10/13] fix: reject the dot product of matrices of different
 shapes

---
 src/linalg/mat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index 9596462..38697ca 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -255,6 +255,9 @@ impl<F: Field> Mat<F> {
     // Operations --------------------------------------------------------------
 
     pub fn dot(&self, other: &Mat<F>) -> F {
+        if self.entries.len() != other.entries.len() {
+            panic!("tried to take dot product of matrices with incompatible dimensions.")
+        }
         self.entries
             .iter()
             .zip(other.entries())
-- 
2.43.0


From ce3b4a0192ab0d5340873c6ab5d63082c120956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 11/13] fix: return the basis of the range in a fixed order

---
 src/linalg/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..9de16a5 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashSet, ops::IndexMut};
+use std::{collections::{BTreeSet, HashSet}, ops::IndexMut};
 
 use super::mat::Mat;
 use super::util::get_max_index;
@@ -306,7 +306,7 @@ impl<'a, F: Field + StabilityCmp + EpsilonEquality> ReducedRowEchelonForm<'a, F>
 		let rref = &self.b;
 		let original = self.original;
 
-		let bound_variables : HashSet<usize> = 
+		let bound_variables : BTreeSet<usize> = 
 			(0..rref.rows())
 				.filter_map(
 					|r| rref.index_of_first_nonzero_entry(r)
-- 
2.43.0


From aa86d011e324842cc917622aa2ddccbda3247155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/13] fix: accept zero generators in Buchberger's algorithm
 and criterion

---
 src/poly/comp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..8b577a5 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -161,6 +161,11 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         let m = generators.len();
 
         for (i, j) in (0..m).cartesian_product(0..m).filter(|&(f, g)| f != g) {
+            if generators[i].is_zero() || generators[j].is_zero() {
+                // zero generators do not contribute to the ideal
+                continue;
+            }
+
             if let Some(h) = Self::try_reduce(&generators[i], &generators[j]) {
                 // h = S(g_i, g_j)
 
@@ -257,6 +262,9 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
 
     /// Turns `generator` into a reduced Gröbner basis, using Buchberger's algorithm.
     pub fn buchberger_algorithm(generators: &mut Vec<Polynomial<F>>) {
+        // zero generators do not contribute to the ideal
+        generators.retain(|g| !g.is_zero());
+
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
-- 
2.43.0


From 133765b1b82d4e6819ee0d5184acd53bc91f3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 13/13] =?UTF-8?q?fix:=20make=20the=20elements=20of=20a=20r?=
 =?UTF-8?q?educed=20Gr=C3=B6bner=20basis=20monic?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/poly/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index 8b577a5..0d9ccaf 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -268,6 +268,13 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
+
+        // the elements of a reduced Gröbner basis are monic
+        for g in generators.iter_mut() {
+            if let Some(lc) = Self::leading_coef(g) {
+                *g = &*g / lc;
+            }
+        }
     }
 }
 
-- 
2.43.0

