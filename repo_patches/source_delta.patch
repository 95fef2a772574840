From 3b162988cd34a34ac0826dc93848495de866020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 01/20] fix: inverse of a quadratic-field element conjugates it

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 95a7ed0..23a4d0b 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -189,7 +189,7 @@ impl Fp2Elt {
         let n0 = &self.n[0];
         let n1 = &self.n[1];
         let den = 1u32 / &(n0 * n0 + n1 * n1);
-        self.elt(&den * n0, den * n1)
+        self.elt(&den * n0, -(den * n1))
     }
 }
 
-- 
2.43.0


From 645ead18bc8c8a9b4e53da92e19593b6f7b96db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 02/20] fix: quadratic-field exponentiation starts at one and
 uses all 32 bits of each word

---
 src/quadraticfield/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 23a4d0b..8506377 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -240,9 +240,9 @@ impl<'a, 'b> BitXor<&'b BigUint> for &'a Fp2Elt {
     #[inline]
     fn bitxor(self, exp: &'b BigUint) -> Self::Output {
         let v = exp.to_u32_digits();
-        let mut out = Fp2Elt::one();
+        let mut out = self.f.one();
         for vi in v.iter().rev() {
-            for j in (0..31).rev() {
+            for j in (0..32).rev() {
                 out = &out * &out;
                 let bit = (*vi >> j) & 1;
                 if bit == 1 {
-- 
2.43.0


From 51e86f19402e3809d357ee9d70668dd91cfd4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 03/20] fix: quadratic-field exponentiation accepts negative
 exponents

---
 src/quadraticfield/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 8506377..08999b0 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -3,7 +3,7 @@
 //! The quadraticfield module is meant to be used for bar.
 
 use atomic_refcell::AtomicRefCell;
-use num_bigint::{BigInt, BigUint};
+use num_bigint::{BigInt, BigUint, Sign};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
 
@@ -258,8 +258,12 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a Fp2Elt {
     type Output = Fp2Elt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
-        let expo = &exp.to_biguint().unwrap();
-        self ^ expo
+        let res = self ^ exp.magnitude();
+        if exp.sign() == Sign::Minus {
+            res.inv_mod()
+        } else {
+            res
+        }
     }
 }
 
-- 
2.43.0


From fe1110791e4e510c28f219258b13192ed91af1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 04/20] fix: zero is a square in the quadratic field

---
 src/quadraticfield/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 08999b0..b8e8be7 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -302,7 +302,7 @@ impl Sqrt for Fp2Elt {
         let t0 = n0 * n0 + n1 * n1;
         let exp = (self.f.get_modulus() - 1u32) >> 1usize;
         let t1 = &t0 ^ &exp;
-        t1 == self.f.0.base.one()
+        t1.is_zero() || t1 == self.f.0.base.one()
     }
     fn sqrt(&self) -> Fp2Elt {
         let pre = self.f.get_sqrt_precmp();
-- 
2.43.0


From 2643c8e094efde25f69c8bc6f19e934bb14c86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 05/20] fix: quadratic-field sign separates every element from
 its negative

---
 src/quadraticfield/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index b8e8be7..0911313 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -328,10 +328,11 @@ impl Sqrt for Fp2Elt {
 
 impl Sgn0 for Fp2Elt {
     fn sgn0(&self) -> i32 {
-        let s0 = self.n[0].sgn0();
-        let z0 = self.n[0].is_zero() as i32;
-        let s1 = self.n[1].sgn0();
-        s0 | (z0 ^ s1)
+        if self.n[0].is_zero() {
+            self.n[1].sgn0()
+        } else {
+            self.n[0].sgn0()
+        }
     }
 }
 
-- 
2.43.0


From f286f2df5a43ea9563b27ee89e4628b3094cdc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 06/20] fix: zero raised to a nonzero multiple of p-1 is zero

---
 src/primefield/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index de6f7bf..8369312 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -238,6 +238,9 @@ impl<'a, 'b> BitXor<&'b BigInt> for &'a FpElt {
     type Output = FpElt;
     #[inline]
     fn bitxor(self, exp: &'b BigInt) -> Self::Output {
+        if self.is_zero() && !exp.is_zero() {
+            return self.clone();
+        }
         let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
         self ^ expo
     }
-- 
2.43.0


From a172baf4bcb3d33329a79d4af592d4ef35a9a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 07/20] fix: iterating over the bits of the zero scalar does
 not underflow

---
 src/edwards/scalar.rs     | 2 +-
 src/montgomery/scalar.rs  | 2 +-
 src/weierstrass/scalar.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards/scalar.rs b/src/edwards/scalar.rs
index c941de1..bead76c 100644
--- a/src/edwards/scalar.rs
+++ b/src/edwards/scalar.rs
@@ -144,7 +144,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/montgomery/scalar.rs b/src/montgomery/scalar.rs
index 15f8d6c..f78fe52 100644
--- a/src/montgomery/scalar.rs
+++ b/src/montgomery/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
diff --git a/src/weierstrass/scalar.rs b/src/weierstrass/scalar.rs
index 1db28da..8e24cd2 100644
--- a/src/weierstrass/scalar.rs
+++ b/src/weierstrass/scalar.rs
@@ -138,7 +138,7 @@ impl std::iter::Iterator for Iterino {
 impl Scalar {
     pub fn iter_lr(&self) -> impl std::iter::Iterator<Item = bool> {
         let l = self.k.bits() as usize;
-        let i = l - 1usize;
+        let i = l.wrapping_sub(1usize);
         let (_, v) = self.k.to_u32_digits();
         let is_lr = true;
         Iterino { l, i, v, is_lr }
-- 
2.43.0


From 15a0d9c89fe9d4e9f6556125cda8081e621669ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 08/20] fix: normalizing the point at infinity keeps it at
 infinity

---
 src/montgomery/point.rs  | 3 +++
 src/weierstrass/point.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 72c193a..0e8a599 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -65,6 +65,9 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index 8fb2239..bf7e644 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -70,6 +70,9 @@ impl Encode for Point {
 
 impl Point {
     pub fn normalize(&mut self) {
+        if self.is_zero() {
+            return;
+        }
         let inv_z = 1u32 / &self.c.z;
         self.c.x = &self.c.x * &inv_z;
         self.c.y = &self.c.y * &inv_z;
-- 
2.43.0


From 7b14a1113004ffe0affa8ba88dd8c19e6806c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 09/20] fix: the Edwards point (0,-1) is not the identity and
 maps to the point of order two

---
 src/edwards/point.rs           | 2 +-
 src/instances/rational_maps.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index f456424..bdc7773 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -29,7 +29,7 @@ pub struct Point {
 impl ScMulRef<Scalar> for Point {}
 impl EcPoint<Scalar> for Point {
     fn is_zero(&self) -> bool {
-        self.c.x.is_zero() && !self.c.y.is_zero() && self.c.t.is_zero() && !self.c.z.is_zero()
+        self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()
     }
 }
 impl Encode for Point {
diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index 568c194..cd5fbc1 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -1,3 +1,5 @@
+use num_traits::identities::Zero;
+
 use crate::edwards;
 use crate::edwards::Curve as EdCurve;
 use crate::edwards::Point as TePoint;
@@ -42,6 +44,10 @@ impl RationalMap for Ed2Mt25519 {
     fn push(&self, p: TePoint) -> MtPoint {
         if p.is_zero() {
             self.e1.identity()
+        } else if p.c.x.is_zero() {
+            // (0,-1), the point of order two.
+            let ff = self.e1.get_field();
+            self.e1.new_point(ff.zero(), ff.zero())
         } else {
             let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);
             let t0 = z + y;
-- 
2.43.0


From 0de1922aa403a5ee1f7686a8de6764dd53245e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 10/20] fix: points of order two are recognised in every
 scaling and by the 448 map

---
 src/instances/rational_maps.rs | 2 +-
 src/montgomery/point.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index cd5fbc1..a46c2ea 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -132,7 +132,7 @@ impl RationalMap for Ed4isoMt448 {
         }
     }
     fn pull(&self, p: MtPoint) -> TePoint {
-        if p.is_zero() {
+        if p.is_zero() || p.is_two_torsion() {
             self.e0.identity()
         } else {
             let ff = self.e0.get_field();
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index 0e8a599..e3f0b35 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -116,7 +116,7 @@ impl Point {
         q
     }
     pub fn is_two_torsion(&self) -> bool {
-        self.c.y.is_zero() && self.c.z.is_one()
+        self.c.y.is_zero() && !self.c.z.is_zero()
     }
 }
 
-- 
2.43.0


From cc4a95187b43c4a2e3e59cce2671ca0e9ae13bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 11/20] fix: isogenies accept projective points, the identity
 and kernel points

---
 src/instances/rational_maps.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/instances/rational_maps.rs b/src/instances/rational_maps.rs
index a46c2ea..46627c5 100644
--- a/src/instances/rational_maps.rs
+++ b/src/instances/rational_maps.rs
@@ -217,6 +217,11 @@ impl Isogeny for Isosecp256k1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -231,6 +236,9 @@ impl Isogeny for Isosecp256k1 {
             y_num = (y_num * &x) + &self.y_num[i];
             y_den = (y_den * &x) + &self.y_den[i];
         }
+        if x_den.is_zero() {
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
@@ -330,6 +338,11 @@ impl Isogeny for IsoBls12381G1 {
         self.e1.clone()
     }
     fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {
+        if p.is_zero() {
+            return self.e1.identity();
+        }
+        let mut p = p;
+        p.normalize();
         let f = self.e0.get_field();
         let x = p.c.x;
         let y = p.c.y;
@@ -347,6 +360,9 @@ impl Isogeny for IsoBls12381G1 {
             y_den = (y_den * &x) + &self.y_den[i];
         }
 
+        if x_den.is_zero() {
+            return self.e1.identity();
+        }
         let xx = x_num / x_den;
         let yy = y * (y_num / y_den);
         self.e1.new_point(xx, yy)
-- 
2.43.0


From 04ea5073f22eafe3ea61a1aad557f9d789356469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 12/20] fix: Elligator 2 uses a/b on Montgomery curves with b
 != 1

---
 src/montgomery/elligator2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index a74c048..449b025 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -19,7 +19,7 @@ impl Ell2 {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
-            let ca = &e.a / &inb;
+            let ca = &e.a * &inb;
             let cb = inb ^ 2u32;
             Ell2 { e, z, ca, cb }
         }
-- 
2.43.0


From 85c90ce829523c414d128d929c71156b95d86ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 13/20] fix: Elligator 2 rejects a square z

---
 src/montgomery/elligator2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/montgomery/elligator2.rs b/src/montgomery/elligator2.rs
index 449b025..9b4ab3b 100644
--- a/src/montgomery/elligator2.rs
+++ b/src/montgomery/elligator2.rs
@@ -15,7 +15,7 @@ pub struct Ell2 {
 
 impl Ell2 {
     pub fn new(e: Curve, z: FpElt) -> Ell2 {
-        if !Ell2::verify(&e) {
+        if !Ell2::verify(&e, &z) {
             panic!("wrong input parameters")
         } else {
             let inb = 1u32 / &e.b;
@@ -24,10 +24,11 @@ impl Ell2 {
             Ell2 { e, z, ca, cb }
         }
     }
-    fn verify(e: &Curve) -> bool {
+    fn verify(e: &Curve, z: &FpElt) -> bool {
         let cond1 = !e.a.is_zero();
         let cond2 = !e.b.is_zero();
-        cond1 && cond2
+        let cond3 = !z.is_square();
+        cond1 && cond2 && cond3
     }
 }
 
-- 
2.43.0


From fde2a372f062539bc03d991ed8a64c51a3d49d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 14/20] fix: comparing points of different curves answers false

---
 src/edwards/point.rs     | 3 +++
 src/montgomery/point.rs  | 3 +++
 src/weierstrass/point.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/edwards/point.rs b/src/edwards/point.rs
index bdc7773..2d207d8 100644
--- a/src/edwards/point.rs
+++ b/src/edwards/point.rs
@@ -107,6 +107,9 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
diff --git a/src/montgomery/point.rs b/src/montgomery/point.rs
index e3f0b35..1dfe515 100644
--- a/src/montgomery/point.rs
+++ b/src/montgomery/point.rs
@@ -124,6 +124,9 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
diff --git a/src/weierstrass/point.rs b/src/weierstrass/point.rs
index bf7e644..695e1f3 100644
--- a/src/weierstrass/point.rs
+++ b/src/weierstrass/point.rs
@@ -209,6 +209,9 @@ impl Eq for Point {}
 
 impl PartialEq for Point {
     fn eq(&self, other: &Self) -> bool {
+        if self.e != other.e {
+            return false;
+        }
         let x1z2 = &self.c.x * &other.c.z;
         let z1x2 = &self.c.z * &other.c.x;
         let y1z2 = &self.c.y * &other.c.z;
-- 
2.43.0


From 6ab861383bade1974005a9698dd8a170b3b60ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 15/20] fix: concurrent square roots over one field do not
 panic

---
 src/primefield/mod.rs     | 10 ++++------
 src/quadraticfield/mod.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 8369312..3ece7eb 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! The primefield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use impl_ops::impl_op_ex;
 use num_bigint::{BigInt, BigUint, ToBigInt};
 use num_integer::Integer;
@@ -11,7 +10,7 @@ use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -19,7 +18,7 @@ use crate::ops::{Deserialize, FromFactory, Serialize};
 
 struct Params {
     p: BigInt,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -46,7 +45,7 @@ impl Fp {
         // TODO: verify whether p is prime.
         Fp(Arc::new(Params {
             p: modulus.to_bigint().unwrap(),
-            sqrt_precmp: AtomicRefCell::new(None),
+            sqrt_precmp: OnceLock::new(),
         }))
     }
 }
@@ -259,8 +258,7 @@ impl Fp {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
diff --git a/src/quadraticfield/mod.rs b/src/quadraticfield/mod.rs
index 0911313..5fb41e8 100644
--- a/src/quadraticfield/mod.rs
+++ b/src/quadraticfield/mod.rs
@@ -2,14 +2,13 @@
 //!
 //! The quadraticfield module is meant to be used for bar.
 
-use atomic_refcell::AtomicRefCell;
 use num_bigint::{BigInt, BigUint, Sign};
 use num_traits::cast::ToPrimitive;
 use num_traits::identities::{One, Zero};
 
 use std::ops;
 use std::ops::{BitXor, Div};
-use std::sync::Arc;
+use std::sync::{Arc, OnceLock};
 
 use crate::do_if_eq;
 use crate::field::{CMov, Field, FieldElement, Sgn0, Sqrt};
@@ -18,7 +17,7 @@ use crate::primefield::{Fp, FpElt};
 
 struct Params {
     base: Fp,
-    sqrt_precmp: AtomicRefCell<Option<SqrtPrecmp>>,
+    sqrt_precmp: OnceLock<SqrtPrecmp>,
 }
 
 impl Eq for Params {}
@@ -43,7 +42,7 @@ impl Fp2 {
     /// The `modulus` should be a prime number.
     pub fn new(modulus: BigUint) -> Self {
         let base = Fp::new(modulus);
-        let sqrt_precmp = AtomicRefCell::new(None);
+        let sqrt_precmp = OnceLock::new();
         Fp2(Arc::new(Params { base, sqrt_precmp }))
     }
 }
@@ -278,8 +277,7 @@ impl Fp2 {
     fn get_sqrt_precmp(&self) -> SqrtPrecmp {
         self.0
             .sqrt_precmp
-            .borrow_mut()
-            .get_or_insert(self.calc_sqrt_precmp())
+            .get_or_init(|| self.calc_sqrt_precmp())
             .clone()
     }
     fn calc_sqrt_precmp(&self) -> SqrtPrecmp {
-- 
2.43.0


From e37a44b8f7e2801702f6632f11e196e8b065df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 16/20] fix: cached square-root data does not keep its own
 field alive

---
 src/primefield/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primefield/mod.rs b/src/primefield/mod.rs
index 3ece7eb..5ab3cd4 100644
--- a/src/primefield/mod.rs
+++ b/src/primefield/mod.rs
@@ -250,7 +250,7 @@ impl CMov for FpElt {}
 #[derive(Clone, std::cmp::PartialEq)]
 enum SqrtPrecmp {
     P3MOD4 { exp: BigInt },
-    P5MOD8 { exp: BigInt, sqrt_minus_one: FpElt },
+    P5MOD8 { exp: BigInt, sqrt_minus_one: BigInt },
     P9MOD16,
     P1MOD16,
 }
@@ -275,7 +275,7 @@ impl Fp {
             t0 = t0 + self.one(); //       2t^2+1
             t0 = t0 * t; //             t(2t^2+1)
             let exp = k + 1;
-            let sqrt_minus_one = t0;
+            let sqrt_minus_one = t0.n; // no handle of the field inside the field
             SqrtPrecmp::P5MOD8 {
                 exp,
                 sqrt_minus_one,
@@ -306,7 +306,7 @@ impl Sqrt for FpElt {
                 let t0 = self ^ &exp;
                 let t1 = &t0 ^ 2u32;
                 let e = *self == t1;
-                let t1 = &t0 * sqrt_minus_one;
+                let t1 = &t0 * self.f.elt(sqrt_minus_one);
                 FpElt::cmov(&t1, &t0, e)
             }
             SqrtPrecmp::P9MOD16 => unimplemented!(),
-- 
2.43.0


From eae6130a45cbd128603a8fdceb67f8eac67fa65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 17/20] fix: decoding a single byte does not read past the
 buffer

---
 src/montgomery/curve.rs  | 6 ++++++
 src/weierstrass/curve.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 5139f6d..e217672 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -99,6 +99,12 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index f1a6322..3caac2e 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -97,6 +97,12 @@ impl Decode for Curve {
             return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
         }
         let tag = buf[0];
+        if blen == 1 {
+            return match tag {
+                0x00 => Ok(self.identity()),
+                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
+            };
+        }
         // check x coordinate is in the valid range, Sign::Plus => > 0
         let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
         let p = self.f.get_modulus();
-- 
2.43.0


From 582ccbb7e3f8af256c838ae5d0d43098572e0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 18/20] fix: decoding a string that names no curve point
 returns an error

---
 src/edwards/curve.rs     | 11 ++++++++++-
 src/montgomery/curve.rs  | 13 +++++++++++--
 src/weierstrass/curve.rs | 13 +++++++++++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/edwards/curve.rs b/src/edwards/curve.rs
index 5b61dd0..fe9982c 100644
--- a/src/edwards/curve.rs
+++ b/src/edwards/curve.rs
@@ -31,6 +31,15 @@ pub struct Curve {
 }
 
 impl Curve {
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let (e, z) = (self.clone(), self.f.one());
+        let c = ProyCoordinates { t: &x * &y, x, y, z };
+        let pt = Point { e, c };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
     pub(crate) fn new_proy_point(&self, c: ProyCoordinates) -> Point {
         let e = self.clone();
         let pt = Point { e, c };
@@ -142,7 +151,7 @@ impl Decode for Curve {
         if tag != x_0 {
             x = -x;
         }
-        Ok(self.new_point(x, y))
+        self.decoded_point(x, y)
     }
 }
 
diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index e217672..08d0a6f 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -34,6 +34,15 @@ pub struct Curve {
 }
 
 impl Curve {
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let (e, z) = (self.clone(), self.f.one());
+        let c = ProyCoordinates { x, y, z };
+        let pt = Point { e, c };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
     pub(crate) fn new_proy_point(&self, c: ProyCoordinates) -> Point {
         let e = self.clone();
         let pt = Point { e, c };
@@ -135,7 +144,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -160,7 +169,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 3caac2e..929d51c 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -30,6 +30,15 @@ pub struct Curve {
     pub(super) h: BigUint,
 }
 impl Curve {
+    fn decoded_point(&self, x: FpElt, y: FpElt) -> Result<Point, Error> {
+        let (e, z) = (self.clone(), self.f.one());
+        let c = ProyCoordinates { x, y, z };
+        let pt = Point { e, c };
+        if !self.is_on_curve(&pt) {
+            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
+        }
+        Ok(pt)
+    }
     pub(crate) fn new_proy_point(&self, c: ProyCoordinates) -> Point {
         let e = self.clone();
         let pt = Point { e, c };
@@ -133,7 +142,7 @@ impl Decode for Curve {
                     return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                 }
                 let y = self.f.elt(y_val);
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             0x02 | 0x03 => {
                 if buf.len() != size + 1 {
@@ -155,7 +164,7 @@ impl Decode for Curve {
                 if tag != deser_tag {
                     y = -y;
                 }
-                Ok(self.new_point(x, y))
+                self.decoded_point(x, y)
             }
             _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
         }
-- 
2.43.0


From 02caeb4db2282a500f7b2757354291d093210d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 19/20] fix: decoding rejects the odd tag when y is zero

---
 src/montgomery/curve.rs  | 3 +++
 src/weierstrass/curve.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/montgomery/curve.rs b/src/montgomery/curve.rs
index 08d0a6f..6fbfe87 100644
--- a/src/montgomery/curve.rs
+++ b/src/montgomery/curve.rs
@@ -167,6 +167,9 @@ impl Decode for Curve {
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
                 if tag != deser_tag {
+                    if y.is_zero() {
+                        return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
+                    }
                     y = -y;
                 }
                 self.decoded_point(x, y)
diff --git a/src/weierstrass/curve.rs b/src/weierstrass/curve.rs
index 929d51c..5b51f14 100644
--- a/src/weierstrass/curve.rs
+++ b/src/weierstrass/curve.rs
@@ -162,6 +162,9 @@ impl Decode for Curve {
                 let deser_tag = (((s >> 1) & 0x1) + 2) as u8;
                 let mut y = y_sqrt;
                 if tag != deser_tag {
+                    if y.is_zero() {
+                        return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
+                    }
                     y = -y;
                 }
                 self.decoded_point(x, y)
-- 
2.43.0


From 13bc30d261ddaef10cdda091b4b9e894131f376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 20/20] fix: maps and isogenies can be shared between threads

---
 src/ellipticcurve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ellipticcurve.rs b/src/ellipticcurve.rs
index cea0038..064c0d0 100644
--- a/src/ellipticcurve.rs
+++ b/src/ellipticcurve.rs
@@ -48,7 +48,7 @@ pub trait EllipticCurve: Decode {
 }
 
 /// Rational map between two elliptic curves.
-pub trait RationalMap {
+pub trait RationalMap: Send + Sync {
     type E0: EllipticCurve;
     type E1: EllipticCurve;
     fn domain(&self) -> Self::E0;
@@ -58,7 +58,7 @@ pub trait RationalMap {
 }
 
 /// Isogeny is a rational map between two elliptic curves.
-pub trait Isogeny {
+pub trait Isogeny: Send + Sync {
     type E0: EllipticCurve;
     type E1: EllipticCurve;
     fn domain(&self) -> Self::E0;
@@ -68,7 +68,7 @@ pub trait Isogeny {
 
 /// MapToCurve is a deterministic function from an element of the field F
 /// to a point on an elliptic curve E defined over F.
-pub trait MapToCurve {
+pub trait MapToCurve: Send + Sync {
     type E: EllipticCurve;
     fn map(
         &self,
-- 
2.43.0

