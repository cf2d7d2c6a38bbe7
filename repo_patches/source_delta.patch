From 024c21030419d8b65c1937636b8d1ab8aadec483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 01/21] fix: P + O is P, not a point at infinity

EllipticCurve::plus took y and z from the right operand when that operand
is the point at infinity, so P + O came out as infinity (and 5P of a point
of order 4 with it).
---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From cf3eafffbb2cac9eaf1c3f5fc585ca76e12a0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 02/21] fix: a negative scalar multiple is the negated multiple

multiply_scalar(P, -n) returned nP.
---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From 93199ab8b54a9f5268abea618f87e4d55f75aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 03/21] fix: enumerating the points again does not list them
 twice

---
 src/elliptic_curve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..e7f9442 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -147,6 +147,7 @@ impl EllipticCurve {
 
     /// create rational points 
     pub fn create_points(&mut self) {
+        self.points.clear();
         for x in num_iter::range(BigInt::from(0), self.p.clone()) {
             let xpol = x.power(3)
                 + self.a.clone() * x.clone()
-- 
2.43.0


From df4f9e764c45eb154bf2bca8d9662334ad8edf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 04/21] fix: isogeny computes Velu's formulas modulo p

The coefficients were divided by p instead of reduced modulo p, and the
terms of P and -P were both counted in full, so the result was not isogenous
to the curve (it was usually singular).
---
 src/elliptic_curve.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index e7f9442..9580e1c 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -233,23 +233,19 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
-                v += vp.clone();
+                // both P and -P are summed, so each takes half of Velu's v and u
+                let vp = BigInt::from(3) * point.x.power(2) + &self.a;
+                let up = BigInt::from(2) * point.y.power(2);
+                v += &vp;
                 w += up + point.x * vp;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0


From af119ac409903d7a491f879e558599f8fabc6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 05/21] fix: a polynomial product holds no zero terms

Cancelled terms stayed in the product with coefficient zero, so (x+y)(x-y)
did not equal x^2 - y^2.
---
 src/polynomial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..edbf2be 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -117,7 +117,10 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
-            } else {
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
+            } else if !l.coef.is_zero() {
                 pol.terms.insert(l.monomial, l.coef);
             }
         }
-- 
2.43.0


From 4a40fd225a1ded75cbf8c3bd6c3546200ad8d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 06/21] fix: a sum with a term holds no zero terms

Term + Term kept a cancelled term, and adding a zero term inserted it.
---
 src/polynomial.rs | 2 +-
 src/term.rs       | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index edbf2be..7a7a72c 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
diff --git a/src/term.rs b/src/term.rs
index e39847d..7138267 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -38,7 +38,10 @@ impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
     let mut pol = a.clone().to_pol();
     if let Some(av) = pol.terms.get_mut(&b.monomial) {
         *av += b.coef.clone(); 
-    } else {
+        if av.is_zero() {
+            pol.terms.remove(&b.monomial);
+        }
+    } else if !b.coef.is_zero() {
         pol.terms.insert(b.monomial, b.coef.clone());
     }
     pol
-- 
2.43.0


From 2bd00667bfbed9b3c19253e45cbf1a22e2b2ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 07/21] fix: a polynomial quotient holds no zero terms

---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 7a7a72c..9c37100 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -157,7 +157,9 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            if !u.coef.is_zero() {
+                pol.terms.insert(u.monomial, u.coef);
+            }
         }
         pol
     } else {
-- 
2.43.0


From 687af30083023ef55398c6487431b09353defb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 08/21] fix: powers of a variable add up terms that become
 alike

With n = 0 distinct terms map to the same monomial and overwrote each other.
---
 src/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9c37100..cfde6f0 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -507,7 +507,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_frob(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -518,7 +518,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_y_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -529,7 +529,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_q_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
-- 
2.43.0


From 3af98e8a922b054f415fc3c2d592251a31563a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 09/21] fix: f^0 (mod p) is 1, not f

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index cfde6f0..9ee486a 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -326,6 +326,9 @@ impl Polynomial {
 
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         assert!(*n >= Zero::zero());
+        if n.is_zero() {
+            return &Polynomial::one() % p;
+        }
         let mut b = self % p;
         let mut r: Polynomial = One::one();
         let mut e = n.clone();
-- 
2.43.0


From 2650bc9eb66da285205930d4a9f09f1d0b99121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 10/21] fix: a^0 (mod 1) is 0

---
 src/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint.rs b/src/bigint.rs
index 04ad186..b499852 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -68,7 +68,7 @@ impl Power<i32> for BigInt {
 impl PowerModulo for BigInt {
     fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         if n == &Zero::zero() {
-            return One::one();
+            return BigInt::from(1).mod_floor(p);
         }
         let mut e = n.clone();
         let mut b = self.clone();
-- 
2.43.0


From 3f347901c61dfe68355e867cd1d85b1a481b1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 11/21] fix: polynomial remainder terminates for every divisor

A zero remainder with a constant divisor, a divisor whose leading coefficient
is a multiple of p, and a zero divisor made polynomial_modular loop forever;
so did the gcd of any two coprime polynomials. A zero divisor now panics.
---
 src/polynomial.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ee486a..dc7992e 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -360,11 +360,13 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        let other = other % p;
+        assert!(!other.is_zero(), "other.is_zero()");
         let oh = other.highest_term_x();
-        let mut r = self.clone();
+        let mut r = self % p;
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
@@ -374,7 +376,7 @@ impl Polynomial {
                     .qpow(rh.qpow())
                     .build();
             q.modular_assign(&p);
-            let mut d = q * other;
+            let mut d = q * &other;
 
             d.modular_assign(&p);
             r -= d;
-- 
2.43.0


From eca56fd986eebd77f987fda3d30dc269f14c5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 12/21] fix: polynomial gcd with zero and to_monic with
 unreduced coefficients

gcd(f, 0) did not return, and a leading coefficient divisible by p made
to_monic return zero.
---
 src/polynomial.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index dc7992e..f5c9482 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -452,6 +452,12 @@ impl Polynomial {
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
+        if (self % p).is_zero() {
+            return other.to_monic(p);
+        }
+        if (other % p).is_zero() {
+            return self.to_monic(p);
+        }
         let s = self.highest_term_x();
         let o = other.highest_term_x();
         if s.xpow() < o.xpow() {
@@ -465,12 +471,13 @@ impl Polynomial {
     }
 
     pub fn to_monic(&self, p: &BigInt) -> Polynomial {
-        if self.is_zero() {
-            return self.clone();
+        let mut pol = self % p;
+        if pol.is_zero() {
+            return pol;
         }
-        let s = self.highest_term_x();
+        let s = pol.highest_term_x();
         let inv = s.coef.inverse(p);
-        let mut pol = self * term_builder::TermBuilder::new().coef(&inv).build();
+        pol *= term_builder::TermBuilder::new().coef(&inv).build().to_pol();
         pol.modular_assign(p);
         pol
     }
-- 
2.43.0


From 5ca759d776b520276cf49ca24dfd1fab8cc33e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 13/21] fix: is_gcd_one tells coprime polynomials from others

The gcd is never zero, so it always answered true.
---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index f5c9482..06115e1 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -448,7 +448,7 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m == One::one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-- 
2.43.0


From 3c736621d5ed6446d003b938227ad95b6636d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 14/21] fix: the linear solver divides the first equation by
 its pivot too

---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From 27c76f5e7e8b4c58bd11326957885d19a60bdaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 15/21] fix: an index beyond 32 bits is not taken for a small
 one

---
 src/subscripted_variable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subscripted_variable.rs b/src/subscripted_variable.rs
index 939e679..0e74d62 100644
--- a/src/subscripted_variable.rs
+++ b/src/subscripted_variable.rs
@@ -133,10 +133,10 @@ impl SubscriptedVariableConverter {
     }
 
     pub fn variable_from_index(&self, index: u64) -> SubscriptedVariable {
-        let mut local_index: i32 = 0;
+        let mut local_index: u64 = 0;
         for i in num_iter::range(0, self.p+1) {
             for j in num_iter::range(i+1, self.p+1) {
-                if local_index == index as i32 {
+                if local_index == index {
                     return SubscriptedVariable {
                         i: i,
                         j: j,
@@ -147,7 +147,7 @@ impl SubscriptedVariableConverter {
             }
         } 
         for i in num_iter::range(0, self.p+1) {
-            if local_index == index as i32 {
+            if local_index == index {
                 return SubscriptedVariable {
                     i: i,
                     j: i,
-- 
2.43.0


From cc6038fb4e10b6878240fe17482ab6094c130353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 16/21] fix: schoof finds the sign of the trace modulo l

The y coordinate of the sum was computed with x_q entering with the wrong
sign, so the residue came out negated for many curves.
---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From 373423942350b5e286b1cf3ae3cec1254b2e2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 17/21] fix: schoof when Frobenius acts as a scalar on the
 l-torsion

With (x^(q^2), y^(q^2)) = q (x, y) the sum has no chord and every j passed the
test, so 1 was returned. The step that handles the case used the wrong curve
(q for a) and y^a for y^q.
---
 src/schoof.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..b911ed6 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -86,9 +86,12 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         let psi_l = &division_polynomial::psi(a, b, l) % q;
         println!("{} psi({}):{}", line!(), l, psi_l);
 
+        // if (x^(q^2), y^(q^2)) = +- ql (x, y), there is no chord, go to (d)
+        let has_chord = !den1.polynomial_modular(&psi_l, &qq).is_zero();
+
         let mut found = false;
         let mut jj: i32 = Zero::zero();
-        for j in num_iter::range(1, jmax + 1) {
+        for j in num_iter::range(1, if has_chord { jmax + 1 } else { 1 }) {
             println!("{} j:{}", line!(), j);
             // x
             let num2 = division_polynomial::phi(a, b, j).to_frob(q);
@@ -200,7 +203,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
+                let p14 = &division_polynomial::psi(a, b, l) % q;
 
                 let qq = BigInt::from(q);
                 let p15 = p13.polynomial_modular(&p14, &qq);
@@ -210,12 +213,12 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
-                    p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
                     let qq = BigInt::from(q);
                     if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
-- 
2.43.0


From 102d43d2811847768faf3eeafc0ca93b14358e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 18/21] fix: polynomial remainder of a dividend with
 coefficient variables terminates

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 06115e1..f0ae53f 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -374,6 +374,7 @@ impl Polynomial {
                     .xpow(rh.xpow() - oh.xpow())
                     .ypow(rh.ypow())
                     .qpow(rh.qpow())
+                    .variable(rh.variable())
                     .build();
             q.modular_assign(&p);
             let mut d = q * &other;
-- 
2.43.0


From 77a4e3715ca16e330594c0ebf48c602afe7477c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 19/21] fix: to_scalar refuses a term that carries a
 coefficient variable

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index f0ae53f..9840c77 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -661,6 +661,9 @@ impl Polynomial {
             if !m.qpow.is_zero() {
                 panic!();
             }
+            if !m.variable.empty {
+                panic!();
+            }
             return coef.clone();
         }
         panic!();
-- 
2.43.0


From 996513e4b8e34a4e5f57a7ea4b39deeb68f6e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 20/21] fix: divisor sum of the largest index does not overflow

---
 src/divisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divisor.rs b/src/divisor.rs
index cd899e5..8825155 100644
--- a/src/divisor.rs
+++ b/src/divisor.rs
@@ -12,7 +12,7 @@ pub fn sigma_divisor(n: i32, power: i32) -> BigInt {
         return Zero::zero();
     }
     let mut sum: BigInt = Zero::zero();
-    for i in num_iter::range(1, n + 1) {
+    for i in num_iter::range_inclusive(1, n) {
         if n % i == Zero::zero() {
             sum += BigInt::from(i).power(power);
         }
-- 
2.43.0


From 8bbc49f8c72443d7d8d64617c274b0dd092301f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 21/21] fix: truncation at the largest order does not overflow

---
 src/polynomial.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9840c77..c8a5822 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -685,13 +685,7 @@ impl Polynomial {
     pub fn omit_high_order_q(&mut self, order: i32) {
         assert!(!self.has_x(), "has_x()");
         assert!(!self.has_y(), "has_y()");
-        let m = term::Monomial {
-            xpow: 0,
-            ypow: 0,
-            qpow: order + 1,
-            variable: subscripted_variable::SubscriptedVariable::new(),
-        };
-        self.terms.split_off(&m);
+        self.terms.retain(|m, _| m.qpow <= order);
     }
 
     pub fn eval_x_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
-- 
2.43.0

