From 3c9faa49ea37f597136d147bb78e9be41ef32076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:41 +0000
Subject: [PATCH 01/10] fix: scalar multiplication ignores bits beyond a zero
 bit length

mul_into read n[0] even when nbitlen = 0, so a point of order two was
returned instead of infinity (and an empty slice panicked).
---
 src/eccore.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf6c4f5..95d76c2 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -638,7 +638,12 @@ macro_rules! define_ec_core {
                 let z1inf = !order1 & !order2 & !z0z & z1z;
                 let p1mp = !order1 & !order2 & !z0z & !z1z & x1ex;
 
-                let n_odd = ((n[0] as u32) & 1).wrapping_neg();
+                // (with a zero-length integer there is no bit to look at: n = 0)
+                let n_odd = if nbitlen == 0 {
+                    0
+                } else {
+                    ((n[0] as u32) & 1).wrapping_neg()
+                };
                 P3.Z.set_cond(&Fq::ZERO, order1 | (order2 & !n_odd) | z0inf);
                 P3.set_cond(&P, z1inf | (order2 & n_odd));
                 P3.set_cond(&dP, p1mp);
-- 
2.43.0


From 550843deb7af5c2d363f919d801a4635cc817067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 02/10] fix: curve isomorphisms between equal, opposite and
 j=1728 models, and of infinity

CurveIsomorphism divided by the curve coefficients, so domain = codomain gave a
wrong map and A = 0 gave u = 0 or a division by zero; eval mapped the point at
infinity to an affine point.
---
 src/eccore.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index 95d76c2..c797c88 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -811,17 +811,36 @@ macro_rules! define_ec_core {
                     codomain.j_invariant(),
                     "Given curves are not isomorphic!"
                 );
+                // x -> u*x + v maps y^2 = x^3 + A2*x^2 + x to y^2 = x^3 + A1*x^2 + x, so
+                // v is a root of x^3 + A1*x^2 + x, u*A2 = 3*v + A1 and u^2 = 3*v^2 + 2*A1*v + 1
                 let (A2, A1) = (domain.get_constant(), codomain.get_constant());
-                let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
-                    / (A1 * (Fq::THREE - A2.square()));
-                let u = (Fq::THREE * v + A1) / A2;
+                let (u, v) = if A1.equals(&A2) != 0 {
+                    (Fq::ONE, Fq::ZERO)
+                } else if A1.equals(&-A2) != 0 {
+                    (Fq::MINUS_ONE, Fq::ZERO)
+                } else {
+                    // (0, 0) is not mapped to (0, 0): v^2 + A1*v + 1 = 0
+                    let v = if A1.iszero() != 0 {
+                        Fq::ZETA
+                    } else {
+                        (A1.square() + A2.square().mul2() - Fq::THREE.square())
+                            / (A1 * (Fq::THREE - A2.square()))
+                    };
+                    let u = if A2.iszero() != 0 {
+                        (-(A1 * v) - Fq::TWO).sqrt().0
+                    } else {
+                        (Fq::THREE * v + A1) / A2
+                    };
+                    (u, v)
+                };
                 let w = (u * u.square()).sqrt().0;
                 CurveIsomorphism { u, v, w }
             }
 
             pub fn eval(&self, P: &Point) -> Point {
                 let (Px, Py) = P.to_xy();
-                let imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
+                let mut imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
+                imP.set_cond(&Point::INFINITY, P.isinfinity());
                 imP
             }
         }
-- 
2.43.0


From 69485c44c0fc8af97ad678a996c741b278199846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 03/10] fix: Weil pairing of the point at infinity and of
 dependent points

The pairing panicked (or gave a wrong value) when one argument was infinity or
when Miller's algorithm met a zero or a pole; it was not one for dependent points
of odd order, and partial degeneration of one Miller function was ignored.
---
 src/pairing.rs | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index bc47a42..95bd003 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -9,13 +9,24 @@ use crate::thetaFESTA::{Curve, Fq, Point};
 fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     let result;
 
+    let (Rx, Ry, Rz) = R.to_xyz();
+    // The line is vertical if one of P and Q is the point at infinity,
+    // and constant if both are.
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        if P.isinfinity() != 0 && Q.isinfinity() != 0 {
+            return Rz;
+        }
+        let (Sx, _) = if P.isinfinity() != 0 {
+            Q.to_xy()
+        } else {
+            P.to_xy()
+        };
+        return Rx + (-Sx) * Rz;
+    }
+
     let (Px, Py) = P.to_xy();
     let (Qx, Qy) = Q.to_xy();
-    let (Rx, Ry, Rz) = R.to_xyz();
     let a = E.get_constant();
-    // When P or Q is the point at infinity i.e. D(g) = 0,
-    // the dividing by this evaluation of the line must be ignored
-    debug_assert!(P.isinfinity() == 0 && Q.isinfinity() == 0);
 
     if P.equals(&Q) != 0 {
         if Py.iszero() != 0 {
@@ -34,10 +45,11 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     result
 }
 
-/// Evaluate Tate pairing using Miller's algorithm
-/// If two points P and Q are linearly dependent, it outputs zero.
+/// Evaluate Miller's function of P at Q.
+/// The result is zero if a zero or a pole was met on the way, which only happens
+/// when Q is infinity or a multiple of P.
 /// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
-pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+fn miller_function(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let mut f = Fq::ONE;
     let mut V = P.clone();
 
@@ -64,6 +76,14 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
     debug_assert!(V.isinfinity() != 0, "pairing point is invalid");
 
+    f
+}
+
+/// Evaluate Tate pairing using Miller's algorithm
+/// If Miller's algorithm meets a zero or a pole (Q is a multiple of P), it outputs one.
+pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+    let f = miller_function(E, P, Q, order);
+
     if f.iszero() != 0 {
         return Fq::ONE;
     }
@@ -73,8 +93,18 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
 /// Computing Weil pairing of given two points using Tate pairing(Miller's algorithm).
 pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
-    let ePQ = tate_pairing(E, P, Q, order);
-    let eQP = tate_pairing(E, Q, P, order);
+    // The pairing with the point at infinity is one
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        return Fq::ONE;
+    }
+
+    let ePQ = miller_function(E, P, Q, order);
+    let eQP = miller_function(E, Q, P, order);
+
+    // A zero or a pole is only met if one point is a multiple of the other
+    if ePQ.iszero() != 0 || eQP.iszero() != 0 {
+        return Fq::ONE;
+    }
 
     if order.bit(0) {
         -ePQ / eQP
-- 
2.43.0


From 7693a6da06371e4e5cf318f04bf8316fd49b6699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:34 +0000
Subject: [PATCH 04/10] fix: splitting map for the zero location (0, 0) must be
 a symplectic base change

The last entry of the splitting matrices was singular (lost minus signs), so the
chain ended in a wrong product whenever the vanishing even constant is (0, 0).
---
 src/theta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 719c22e..5b15014 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -891,9 +891,9 @@ macro_rules! define_theta_structure {
                 ],
                 [
                     Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::MINUS_ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::MINUS_ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
+                    Fq::ONE, Fq::MINUS_ZETA, Fq::MINUS_ONE, Fq::ZETA,
+                    Fq::ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::MINUS_ZETA,
+                    Fq::MINUS_ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::ZETA,
                 ],
             ];
 
-- 
2.43.0


From fa1f7791efad98a7089b841e0ece6a7b20de0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 05/10] fix: split theta points with a vanishing coordinate

split_theta_point read off (0, 0) for a factor when the other factor had a zero
coordinate, so such points (of order 4 on one side) came out wrong.
---
 src/theta.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 5b15014..ba90638 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -950,10 +950,20 @@ macro_rules! define_theta_structure {
         /// Models of Kummer lines and Galois representation,
         /// Razvan Barbulescu, Damien Robert and Nicolas Sarkis
         fn split_theta_point(P: &ThetaPoint) -> ((Fq, Fq), (Fq, Fq)) {
-            let (a, b, _, d) = P.coords();
-
-            let P1 = (a, b);
-            let P2 = (b, d);
+            let (a, b, c, d) = P.coords();
+
+            // P = (u1*u2 : v1*u2 : u1*v2 : v1*v2), and one of u2, v2 (and of u1, v1)
+            // may be zero: use the other pair of coordinates then
+            let u2_is_zero = a.iszero() & b.iszero();
+            let v1_is_zero = b.iszero() & d.iszero();
+            let P1 = (
+                Fq::select(&a, &c, u2_is_zero),
+                Fq::select(&b, &d, u2_is_zero),
+            );
+            let P2 = (
+                Fq::select(&b, &a, v1_is_zero),
+                Fq::select(&d, &c, v1_is_zero),
+            );
 
             (P1, P2)
         }
-- 
2.43.0


From d3ffa740cbb9d04a71f724a25d3f8a819de30237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:10 +0000
Subject: [PATCH 06/10] fix: gluing image of points with two vanishing dual
 coordinates

The shift by the first kernel point cannot recover the remaining coordinate
there (it was set to zero); use the shift by the second kernel point instead.
---
 src/theta.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index ba90638..237d2b0 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -466,12 +466,14 @@ macro_rules! define_theta_structure {
         /// computation
         /// Note: The shift value is needed as one element of the dual coordinates
         /// is zero, so we take values from both and use linear algebra to recover
-        /// the correct image.
+        /// the correct image. (A second shift, by the other kernel point, is only
+        /// needed for the few points with two vanishing dual coordinates.)
         ///
         /// Cost: 8S + 10M + 1I
         fn gluing_image(
             T: &ThetaPoint,
             T_shift: &ThetaPoint,
+            T_shift2: impl Fn() -> ThetaPoint,
             a_inv: &Fq,
             b_inv: &Fq,
             z_idx: usize,
@@ -511,7 +513,14 @@ macro_rules! define_theta_structure {
 
             // Finally we recover x
             let xb = AyBxCtDz[1 ^ z_idx] * a_inv;
-            let x = xb * lam;
+            let mut x = xb * lam;
+
+            // When both z and t are zero this shift says nothing about lambda (and y
+            // is not zero): the other shift gives us x : y
+            if z.iszero() & t.iszero() != 0 {
+                let CzDtAxBy: [Fq; 4] = T_shift2().squared_theta().into();
+                x = &y * &CzDtAxBy[2 ^ z_idx] * b_inv / &CzDtAxBy[3 ^ z_idx];
+            }
 
             // We now have values for `x,y,z,t` but to order them we need to use
             // the xor trick as above, so we pack them into an array with the
@@ -582,7 +591,8 @@ macro_rules! define_theta_structure {
 
                 // With a point and the shift value from the kernel, we can find
                 // the image
-                let T_image = gluing_image(&T, &T_shift, &a_inv, &b_inv, z_idx);
+                let T_shift2 = || base_change_couple_point(&E1E2.add(P, &Q1Q2_4), M);
+                let T_image = gluing_image(&T, &T_shift, T_shift2, &a_inv, &b_inv, z_idx);
                 theta_images.push(T_image);
             }
 
-- 
2.43.0


From 3afa8ab1933a47d506a59ce696eaf2c92241af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 07/10] fix: order tests must reject elements whose order does
 not divide D

---
 src/supersingular.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4b9a9c8..4168262 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -70,10 +70,13 @@ pub fn point_has_factored_order(E: &Curve, P: &Point, factored_order: &[(u32, u3
     G_list[0] = G_top;
     if pis.len() > 1 {
         batch_cofactor_mul(E, &mut G_list, &pis, 0, pis.len());
-        return G_list.iter().fold(true, |s, x| s & (x.isinfinity() == 0));
+        if G_list.iter().any(|x| x.isinfinity() != 0) {
+            return false;
+        }
     }
 
-    true
+    // the order must divide D
+    E.mul_big(&G_list[0], &pis[0]).isinfinity() != 0
 }
 
 /// Given the factored order D as an input, check if the group element has an order D
@@ -127,13 +130,13 @@ pub fn has_factored_order(v: Fq, factored_order: &[(u32, u32)]) -> bool {
     G_list[0] = G_top;
     if pis.len() > 1 {
         batch_cofactor_mul(&mut G_list, &pis, 0, pis.len());
-
-        return G_list
-            .iter()
-            .fold(true, |s, x| s & (x.equals(&Fq::ONE) == 0));
+        if G_list.iter().any(|x| x.equals(&Fq::ONE) != 0) {
+            return false;
+        }
     }
 
-    true
+    // the order must divide D
+    G_list[0].pow_big(&pis[0]).equals(&Fq::ONE) != 0
 }
 
 /// In the case where we remove a known large even factor, it's faster to do this first
-- 
2.43.0


From 9323a9aa948f5b7b316a3768e9ad468a23937a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:55 +0000
Subject: [PATCH 08/10] fix: integer square root overflows for arguments near
 2^32

---
 src/discrete_log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discrete_log.rs b/src/discrete_log.rs
index 31e9b37..ff42ab8 100644
--- a/src/discrete_log.rs
+++ b/src/discrete_log.rs
@@ -76,7 +76,7 @@ pub fn sqrt_floor(n: u32) -> u32 {
         }
     }
 
-    if b * b == n {
+    if (b as u64) * (b as u64) == (n as u64) {
         return b;
     }
 
-- 
2.43.0


From e3f966f7551c8d2ebbd569c3fa39c1f60600d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 09/10] fix: entangled basis when the right-hand side is a
 non-square of the base field

---
 src/supersingular.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4168262..6f09697 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -300,7 +300,12 @@ pub fn entangled_torsion_basis(E: &Curve, cofactor: &BigUint) -> (Point, Point)
         panic!("Never found a y-coordinate, increase the lookup table size");
     }
 
-    let z = (&c + &s).half();
+    let mut z = (&c + &s).half();
+    if z.iszero() != 0 {
+        // t = c lies in the base field and is not a square there:
+        // take the other square root s = c of its norm
+        z = c;
+    }
     let alpha = z.pow_big(&p_sqrt);
     let beta = d / (&alpha + &alpha);
 
-- 
2.43.0


From 721cd6f1886ff4781ad9be54d57d9e62a58aff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:14 +0000
Subject: [PATCH 10/10] fix: store the starting basis points in Montgomery
 form, so that they lie on the starting curve

---
 src/fields.rs | 168 +++++++++++++++++++++++++-------------------------
 1 file changed, 84 insertions(+), 84 deletions(-)

diff --git a/src/fields.rs b/src/fields.rs
index 0960478..43a281e 100644
--- a/src/fields.rs
+++ b/src/fields.rs
@@ -292,96 +292,96 @@ pub mod FpFESTAExt {
 
     /// Torsion basis of the elliptic curve E0 : y^2 = x^3 + 6 * x^2 + x
     pub const P0x: Fp = Fp::new([
-        0xB2DAFEECE8954A26,
-        0x7C30CFF9C9295BE9,
-        0x9BA18C569D14412C,
-        0xE0E3B63074BEC0AE,
-        0x398044D58E03B86D,
-        0xC8D0AAC8160AC9FF,
-        0xC91CC769AB73DA65,
-        0x7A4D84690DD347CC,
-        0x0E86C1850765979C,
-        0xD04F4C29371AB193,
-        0x57567A513DE96E94,
-        0x201F334E7B86DB61,
-        0xFA905410682435F3,
-        0xCF94E4C18F3CC5A3,
-        0xF871351240711D39,
-        0x1259D6CBBC4FF5F9,
-        0xFA608AA257D9E807,
-        0x0298E79660009EED,
-        0x1EADA2117D2996A5,
-        0xCF14C3787CD20B3E,
-        0x0000000000000B22,
+        0x610C5B431143FF2A,
+        0x7F5B5375684C1798,
+        0xDDEF8C604F5FE34A,
+        0x4F557B32D185036B,
+        0xBC297F567E182A92,
+        0x53EDF70FA9A7DA05,
+        0xD2764A4ABD75E7F5,
+        0xE837A0245390EAFB,
+        0x5D25EE38E13A7040,
+        0xB6EF0100D0048880,
+        0x92B57516D3BD582E,
+        0xE1AEB8D1BE4CD0B4,
+        0x59218D2547FB116A,
+        0xC73D43CD277A9371,
+        0x8B6AE67DD509DE7D,
+        0x3E1924131DEED8A8,
+        0x4022622E6A922BCF,
+        0xACAE9D4456AD6A99,
+        0x0DA2A973D93A0BDC,
+        0xA6603410D5662141,
+        0x00000000000006A1,
     ]);
     pub const P0y: Fp = Fp::new([
-        0xA926641D45B8A118,
-        0xDA4B2092E262BD3B,
-        0x33169DAA5116A1BE,
-        0xE5FBD874E2E731E2,
-        0x30E54C3ED0E8784D,
-        0x26DF07E9EDB68209,
-        0xCCCFB6B687006A44,
-        0x1EADD94C491708A5,
-        0x9A1D9825932BEC3F,
-        0x7C22FD699B440B45,
-        0x690DE842938D6D48,
-        0xAF6EFDB934F17EC4,
-        0x181A55AA14F763E2,
-        0x23D08570DDCAE0B5,
-        0x905F8561A4F79ACA,
-        0xFD89660855A08BDA,
-        0x2E5D73B8E567A03C,
-        0x8046C1FDD942F3F6,
-        0x090140DD8B71CD57,
-        0xF3C01B38A431D9B5,
-        0x0000000000000522,
+        0xAA73B66C80DD96B8,
+        0x1321C66149C1199A,
+        0x2D668F859748F89B,
+        0x7B79958075CC6F19,
+        0x24D2BC16F5E948B9,
+        0xCEE14403F0CAE565,
+        0xAA554C71B0C439B3,
+        0x2C721D066DE166BC,
+        0xEDB1AA9CB9220A3A,
+        0xFAE22365327B8544,
+        0x5BDAAA2A87CBAA0B,
+        0xFC6149241DF91776,
+        0x6D1D2AD8CA39BAAD,
+        0x5BF9101C6F2A10C3,
+        0x2FAFDA03C9328C87,
+        0x1B7D782A9BF29B77,
+        0xE92BEA781138E36D,
+        0xE5660274F7161FE3,
+        0xFAC3EB19D358CCFA,
+        0x7742CF76A482AD1E,
+        0x0000000000000598,
     ]);
     pub const Q0x: Fp = Fp::new([
-        0x54FCDF4057795A20,
-        0x9CE149FD474BB801,
-        0xCA9F07D54A0CD609,
-        0xEC42C1D4B79FE4E0,
-        0xF9EC70EC0214422E,
-        0xF58BECE0A9404F35,
-        0xB46EE18B995B528C,
-        0x09516EA0D30F9713,
-        0xCDCAA700A0ECA732,
-        0x31CCD53267606A86,
-        0x653751C72E982B44,
-        0xB3455F058CD7E1E1,
-        0x503C9CCE4755C2FC,
-        0x194E42014A0E15F2,
-        0xA54BA2F12BE6825A,
-        0xCC5CF225A610EB25,
-        0x60022E3792FA436B,
-        0xDFDA10165CC7A209,
-        0x42567069E2CA09ED,
-        0x8FF030C55A5C6DD6,
-        0x0000000000001123,
+        0xAAD4DA58088DFC0A,
+        0xF606EA65D7E99964,
+        0x9720DC5C0F68B61F,
+        0x577C380E02E6AB8E,
+        0x146ED979BD60CC5C,
+        0x0A7E8C7F358DDD9C,
+        0xD36EAB3211C4694B,
+        0x25A2F3FF6EEFBD0F,
+        0x556F2B194B6AA4C8,
+        0xE2D6459E548C242C,
+        0x17FD0F2D009E3468,
+        0xBA843297C96D1A92,
+        0x95DABE07BE059724,
+        0x3AE73A8E89FD9CBF,
+        0x3EAEA4CB7794C20F,
+        0xF3B3AF999AF6DC9B,
+        0x6F2461F9A3A7E3ED,
+        0x65B18BBCC9030475,
+        0x51A4F9BD404A380D,
+        0x0CAF956D9F8F73EA,
+        0x0000000000000E08,
     ]);
     pub const Q0y: Fp = Fp::new([
-        0x1CAE4655B7317ED4,
-        0x2CDA0F3338024BF0,
-        0x4009114682F7EFFE,
-        0xABF26A97D0B7307D,
-        0x5FC9EFAA795D975B,
-        0x069D2E0D2D3C5BF0,
-        0x16239137BE42D449,
-        0xC6E44780FA7EE4A7,
-        0x1995B5152D368056,
-        0x1E3D6B1970DB5F9D,
-        0xB34DC5908C4ABE6E,
-        0x8FA82803240603FE,
-        0x4A746A5A1FD93A43,
-        0xAE5D9F859CD30A11,
-        0xA49D4B643D8B6D87,
-        0xA611BAD0D873B395,
-        0x1EDD64CAE0736797,
-        0xE0D4298F428D2ED7,
-        0x8717FB8AEE0C371E,
-        0xDC3012D1E48DD904,
-        0x000000000000138F,
+        0x49711295CA774F2D,
+        0x5DD79A6697CEF031,
+        0x3709CEBB4FCA463E,
+        0x0022C9C77F81C68F,
+        0xD11E20AC17954E52,
+        0x2A73AAF131DF0261,
+        0xAB7922E3DA517A48,
+        0xCC4EAC20C1FADBE5,
+        0x7DE02086F80DE2A6,
+        0xEAEF8B9B261D0081,
+        0x6282606CCD95B640,
+        0xDE84D7311F68364A,
+        0x8812731FBAB02452,
+        0xF1DC4D905EDE4C18,
+        0xE5F7B2A073B55CFA,
+        0xFBFDE66B37F7998E,
+        0x079AFB3D9035D8E6,
+        0xF4BF0AD82F7183E0,
+        0x87FBAED3823F16EE,
+        0xF10FFCC8084AC1F0,
+        0x00000000000008F7,
     ]);
 
     /// Public parameters
-- 
2.43.0

