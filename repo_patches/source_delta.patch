From bceba4a68965af5d0053cc39f054b846fed63277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 01/13] fix: build X^-(2^i) as a monomial instead of an (even,
 rejected) substitution

Evaluation::unpack always panicked: Substitution::new refuses even exponents
and N - 2^i is even for every i >= 1.
---
 src/evaluations.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..2e790ff 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,13 +300,12 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
+            let mut coeffs = vec![0u64; n];
+            coeffs[ex] = 1;
+            let xi = -&Poly::try_from_vec_u64(ctx, &coeffs);
             polys.push(xi);
         }
         polys
-- 
2.43.0


From 8bad9d052aa950595b2b4e26bd7974ec2d8b249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 02/13] fix: halve the second row index of the SIMD slot map

index2 ranged over [0, 2N) so the bit reversal produced indices outside the
N slots (SEAL uses (m - pos - 1) >> 1).
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..1447aaa 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From 8d7e5c1fdce40f9009bc60cddc9c3d15a93bb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 03/13] fix: label fresh ciphertexts with the level of their
 plaintext context

encrypt_poly hardcoded level 0, so a ciphertext encrypted at a lower level was
decrypted with the scaler of level 0 (context assertion panic).
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1447aaa..2e71c02 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -324,7 +324,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level: self.params.ctx_level(&pt.context).unwrap(),
         }
     }
 
-- 
2.43.0


From 8211bfddbf1029612399a93b83f9003621250e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 04/13] fix: accumulate the cross terms of the ciphertext
 tensor product

cs[i + j] was overwritten, so only the last of c0*d1 and c1*d0 survived.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 2e71c02..2b8f15c 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From c9729aa00915fc43d76fd815efe3f46d5290a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 05/13] fix: add a plaintext polynomial to the first ciphertext
 component only

Adding it to c1 as well shifts the decryption by rhs * s.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 2b8f15c..10b78a7 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -444,7 +444,7 @@ impl Add<&Poly> for &BfvCipherText {
         assert!(self.cts[0].context == rhs.context);
 
         let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let c1 = self.cts[1].clone();
 
         BfvCipherText {
             params: self.params.clone(),
-- 
2.43.0


From 55e90c1eb79dfcbd3c9608d8034be5cd4a410a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 06/13] fix: Modulus::bits returns the bit length of the
 modulus

It returned 2^64 - 1 - leading_zeros.
---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index d1a8ddb..f0735f9 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -256,6 +256,6 @@ impl Modulus {
     }
 
     pub fn bits(&self) -> u64 {
-        u64::MAX - self.p.leading_zeros().to_u64().unwrap()
+        64 - self.p.leading_zeros() as u64
     }
 }
-- 
2.43.0


From e2dcd4eff5477cbf9e45eadf16c381c71433b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:20 +0000
Subject: [PATCH 07/13] fix: refuse ring operations on polynomials of different
 contexts

The limb-wise zip silently truncated to the shorter operand, or combined
residues of unrelated moduli.
---
 src/rq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rq.rs b/src/rq.rs
index 052b80d..a5749e4 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -544,6 +544,7 @@ impl Poly {
 
 impl AddAssign<&Poly> for Poly {
     fn add_assign(&mut self, rhs: &Poly) {
+        assert!(Arc::ptr_eq(&self.context, &rhs.context) || self.context == rhs.context);
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
 
@@ -569,6 +570,7 @@ impl Add<&Poly> for &Poly {
 
 impl SubAssign<&Poly> for Poly {
     fn sub_assign(&mut self, rhs: &Poly) {
+        assert!(Arc::ptr_eq(&self.context, &rhs.context) || self.context == rhs.context);
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
 
@@ -594,6 +596,7 @@ impl Sub<&Poly> for &Poly {
 
 impl MulAssign<&Poly> for Poly {
     fn mul_assign(&mut self, rhs: &Poly) {
+        assert!(Arc::ptr_eq(&self.context, &rhs.context) || self.context == rhs.context);
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
 
-- 
2.43.0


From f1ce6f718afbf2c88fbcfad7fbecc92917eeebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 08/13] fix: homomorphic operations keep every ciphertext
 component

Add, Sub, Mul by a plaintext and measure_noise only looked at the first two
components, so an unrelinearised product silently lost its third component.
---
 src/bfv.rs | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 10b78a7..41758c5 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -8,7 +8,7 @@ use crate::{
     utils::{generate_prime, sample_vec_cbd},
 };
 
-use itertools::Itertools;
+use itertools::{izip, Itertools};
 use ndarray::Axis;
 use num_bigint::BigUint;
 use num_traits::{FromPrimitive, One, ToPrimitive};
@@ -390,8 +390,12 @@ impl SecretKey {
 
         let mut sk = Poly::try_from_vec_i64(&ctx, &self.coeffs);
         sk.change_representation(Representation::Ntt);
-        let mut m = &ct.cts[1] * &sk;
-        m += &ct.cts[0];
+        let mut m = ct.cts[0].clone();
+        let mut sk_i = sk.clone();
+        for i in 1..ct.cts.len() {
+            m += &(&sk_i * &ct.cts[i]);
+            sk_i *= &sk;
+        }
 
         m -= &ideal_m;
         m.change_representation(Representation::PowerBasis);
@@ -427,12 +431,13 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        assert!(self.cts.len() == rhs.cts.len());
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: izip!(self.cts.iter(), rhs.cts.iter())
+                .map(|(a, b)| a + b)
+                .collect(),
             level: self.level,
         }
     }
@@ -443,12 +448,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = self.cts[1].clone();
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -460,12 +465,13 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        assert!(self.cts.len() == rhs.cts.len());
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: izip!(self.cts.iter(), rhs.cts.iter())
+                .map(|(a, b)| a - b)
+                .collect(),
             level: self.level,
         }
     }
@@ -522,12 +528,9 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * &pt_poly).collect(),
             level: self.level,
         }
     }
@@ -539,12 +542,9 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect(),
             level: self.level,
         }
     }
@@ -553,12 +553,9 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect(),
             level: self.level,
         }
     }
-- 
2.43.0


From 714e1a0315438abc9d758a3ef4fa9d09955bbb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 09/13] fix: count only the common prefix of moduli in
 RqScaler::new

scale() copies the first number_common_moduli rows, which is only right when
the equal moduli are a prefix of both bases.
---
 src/rq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rq.rs b/src/rq.rs
index a5749e4..15c40cd 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -90,7 +90,8 @@ impl RqScaler {
         if scaling_factor.is_one() {
             number_common_moduli = izip!(&from.moduli_64, &to.moduli_64)
                 .into_iter()
-                .fold(0, |acc, (from, to)| if from == to { acc + 1 } else { acc });
+                .take_while(|(from, to)| from == to)
+                .count();
         }
 
         let rns_scaler = RnsScaler::new(&from.rns, &to.rns, scaling_factor.clone());
-- 
2.43.0


From 98ac6a4d006941d0a814ae1221a902c1a8d9a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 10/13] fix: derive the number of RGSW selectors from the
 database shape

The ilog2 quotient is wrong when dim is not a power of two (db/first_dim = 9,
dim = 3 gave three extra dimensions instead of two).
---
 src/evaluations.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 2e790ff..3b7d202 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,9 +117,7 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
-
-        let rgsws_count = (dimensions - 1) * self.dim;
+        let rgsws_count = self.no_of_cts() - self.first_dim;
         let mut rgsws = vec![];
         let mut vals = vec![];
         for i in 1..query_cts.len() {
-- 
2.43.0


From 50a1d95b93bf92fb97ceec0cabc3af648c0e1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 11/13] fix: a key-switching key assembled from RLWE rows lives
 at their level

try_from_decomposed_rlwes hardcoded the contexts of level 0.
---
 src/ksk.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 8397288..4f5f691 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -145,13 +145,13 @@ impl Ksk {
             })
             .collect();
 
-        // FIXME: default level is 0, which might be incorrect
+        let ctx = params.q_ctxs[cts[0].level].clone();
         Ksk {
             params: params.clone(),
             c0,
             c1,
-            ct_context: params.q_ctxs[0].clone(),
-            ksk_context: params.q_ctxs[0].clone(),
+            ct_context: ctx.clone(),
+            ksk_context: ctx,
         }
     }
 }
-- 
2.43.0


From 1a2bbdb095f64a66d741e26795d0b42fd423d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:13 +0000
Subject: [PATCH 12/13] fix: scalar_mul_vec returns canonical residues

The lazy product lies in [0, 2p); Plaintext::to_poly then encoded
floor(q*m/t) - 1 instead of floor(q*m/t) for some coefficients.
---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index f0735f9..6892264 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -162,7 +162,7 @@ impl Modulus {
     pub fn scalar_mul_vec(&self, a: &[u64], b: u64) -> Vec<u64> {
         let b_shoup = self.shoup(b);
         a.iter()
-            .map(|ai| self.lazy_mul_shoup(*ai, b, b_shoup))
+            .map(|ai| self.mul_shoup(*ai, b, b_shoup))
             .collect()
     }
 
-- 
2.43.0


From fc41aaf4360401fa93c30637c9dff03cb042a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 13/13] fix: RnsScaler keeps the high words of v * theta_gamma

---
 src/rns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rns.rs b/src/rns.rs
index 771a6b4..6481577 100644
--- a/src/rns.rs
+++ b/src/rns.rs
@@ -363,20 +363,20 @@ impl RnsScaler {
             let vt_hi_hi = ((v >> 64) as u128) * (self.theta_gamma_hi as u128);
             let vt_mi =
                 (vt_lo_lo >> 64) + ((vt_lo_hi as u64) as u128) + ((vt_hi_lo as u64) as u128);
-            let vt_hi = (vt_lo_hi >> 64) + (vt_mi >> 64) + ((vt_hi_hi as u64) as u128);
+            let vt_hi = (vt_lo_hi >> 64) + (vt_hi_lo >> 64) + (vt_mi >> 64) + vt_hi_hi;
             if self.theta_gamma_sign {
                 sum_theta_omega.wrapping_add_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             } else {
                 sum_theta_omega.wrapping_sub_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             }
 
-- 
2.43.0

