From b22cd1b3c1d5ffc15c1428fd98da7d95481fc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 1/8] fix: keep every entry when adding identity commitment
 outputs of different lengths

---
 dh_commitments/src/identity/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dh_commitments/src/identity/mod.rs b/dh_commitments/src/identity/mod.rs
index 0ec793e..be5da8a 100644
--- a/dh_commitments/src/identity/mod.rs
+++ b/dh_commitments/src/identity/mod.rs
@@ -41,13 +41,18 @@ where
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        IdentityOutput(
-            self.0
-                .iter()
-                .zip(&rhs.0)
-                .map(|(a, b)| a.clone() + b.clone())
-                .collect::<Vec<T>>(),
-        )
+        // Entries present on one side only are kept, so that no part of either output is dropped
+        // and the (empty) default output is the additive identity.
+        let common = self.0.len().min(rhs.0.len());
+        let mut sum = self
+            .0
+            .iter()
+            .zip(&rhs.0)
+            .map(|(a, b)| a.clone() + b.clone())
+            .collect::<Vec<T>>();
+        sum.extend_from_slice(&self.0[common..]);
+        sum.extend_from_slice(&rhs.0[common..]);
+        IdentityOutput(sum)
     }
 }
 
-- 
2.43.0


From 7d3a5bc1a8bdaafa3f8d30b017df908d976b3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 2/8] fix: reject inner product proofs with the wrong number of
 rounds instead of panicking

---
 ip_proofs/src/gipa.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..c85008e 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -369,6 +369,13 @@ where
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
         assert!(ck_a.len().is_power_of_two());
+        // A (malformed) proof must have exactly one round for each halving of the keys
+        if transcript.len() != ck_a.len().trailing_zeros() as usize {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                transcript.len(),
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From ccf9143392091655cb12bb320ccee878b1c75521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 3/8] fix: support TIPA proofs over vectors of length one
 (empty transcript)

---
 ip_proofs/src/tipa/mod.rs                       | 6 ++++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..30778bc 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -193,12 +193,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -256,12 +257,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..f5fc62e 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -236,12 +236,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -287,12 +288,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From fb2f0b39b5f8ff52b3a630cdf852faa91f49c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 4/8] fix: univariate polynomial commitment setup for degree
 zero divided by zero

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 6 +++++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..a586f5d 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -293,7 +293,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
-        let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 32 {
+            16_usize
+        } else {
+            std::cmp::max(sqrt / 2, 1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..ea59c78 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -222,7 +222,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
-        let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 8 {
+            4_usize
+        } else {
+            std::cmp::max(sqrt / 2, 1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
-- 
2.43.0


From 32eacfd8c2f1a6a53dd9ea317583d30bb70c810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 5/8] fix: refuse univariate polynomials larger than the setup
 instead of truncating them

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index a586f5d..8216c74 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -312,6 +312,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!(polynomial.coeffs.len() <= (x_degree + 1) * (y_degree + 1));
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index ea59c78..205c58f 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -241,6 +241,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!(polynomial.coeffs.len() <= (x_degree + 1) * (y_degree + 1));
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From 2f97c44c29c21b017f198ed30f19a69c23051b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 6/8] fix: check the number of public inputs of every
 aggregated Groth16 proof

---
 .../src/applications/groth16_aggregation.rs   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..8c685ac 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -11,7 +11,7 @@ use crate::{
         structured_scalar_message::{structured_scalar_power, TIPAWithSSM, TIPAWithSSMProof},
         TIPAProof, VerifierSRS, SRS, TIPA,
     },
-    Error,
+    Error, InnerProductArgumentError,
 };
 use ark_dh_commitments::{
     afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
@@ -169,6 +169,22 @@ where
     P: Pairing,
     D: Digest,
 {
+    // Every proof must come with exactly the public inputs expected by the verification key
+    for inputs in public_inputs.iter() {
+        if inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                vk.gamma_abc_g1.len(),
+                inputs.len(),
+            )));
+        }
+    }
+    if public_inputs.is_empty() {
+        return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+            vk.gamma_abc_g1.len(),
+            0,
+        )));
+    }
+
     // Random linear combination of proofs
     let mut counter_nonce: usize = 0;
     let r = loop {
@@ -209,7 +225,6 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From f23366c815fe37e5eafba5f23bce4e08b4e99738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 7/8] fix: SIPP ignored surplus scaling scalars

---
 sipp/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..7bb8466 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -46,6 +46,7 @@ where
         value: PairingOutput<E>,
     ) -> Result<Proof<E>, ()> {
         assert_eq!(a.len(), b.len());
+        assert_eq!(a.len(), r.len());
         // Ensure the order of the input vectors is a power of 2
         assert_eq!(a.len().count_ones(), 1);
         let mut length = a.len();
@@ -118,6 +119,7 @@ where
         assert_eq!(length.count_ones(), 1);
         assert!(length >= 2);
         assert_eq!(length, b.len());
+        assert_eq!(length, r.len());
         // Ensure there are the correct number of proof elements
         let proof_len = proof.gt_elems.len();
         assert_eq!(proof_len as f32, f32::log2(length as f32));
-- 
2.43.0


From 67b0da3411f79f8e59511362e1def43ecfad4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 8/8] hooks: cfg(vp_hooks) serialization of proofs and
 polynomials with private fields

---
 ip_proofs/src/applications/groth16_aggregation.rs     | 3 +++
 ip_proofs/src/applications/poly_commit/mod.rs         | 4 ++++
 ip_proofs/src/applications/poly_commit/transparent.rs | 4 ++++
 ip_proofs/src/lib.rs                                  | 1 +
 sipp/src/lib.rs                                       | 4 ++++
 5 files changed, 16 insertions(+)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 8c685ac..610238a 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -1,6 +1,8 @@
 use ark_ec::pairing::{Pairing, PairingOutput};
 use ark_ff::{Field, One};
 use ark_groth16::{Proof, VerifyingKey};
+#[cfg(vp_hooks)]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 
 use ark_std::rand::Rng;
@@ -55,6 +57,7 @@ type MultiExpInnerProductCProof<P, D> = TIPAWithSSMProof<
     D,
 >;
 
+#[cfg_attr(vp_hooks, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct AggregateProof<P: Pairing, D: Digest> {
     com_a: PairingOutput<P>,
     com_b: PairingOutput<P>,
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 8216c74..202c1cc 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -7,6 +7,8 @@ use ark_ff::{Field, One, UniformRand, Zero};
 use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
+#[cfg(vp_hooks)]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
@@ -117,6 +119,7 @@ impl<P: Pairing> KZG<P> {
     }
 }
 
+#[cfg_attr(vp_hooks, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -138,6 +141,7 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(vp_hooks, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 205c58f..5cfea5d 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -3,6 +3,8 @@ use ark_ff::{Field, Zero};
 use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
+#[cfg(vp_hooks)]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
@@ -55,6 +57,7 @@ type PolynomialEvaluationFirstTierIPAProof<P, D> = GIPAProof<
     D,
 >;
 
+#[cfg_attr(vp_hooks, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -76,6 +79,7 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(vp_hooks, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     second_tier_ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/lib.rs b/ip_proofs/src/lib.rs
index d152847..ec21295 100644
--- a/ip_proofs/src/lib.rs
+++ b/ip_proofs/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(warnings, unused, future_incompatible, nonstandard_style)]
+#![allow(unexpected_cfgs)]
 use std::{
     error::Error as ErrorTrait,
     fmt::{Display, Formatter, Result as FmtResult},
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index 7bb8466..4f5d256 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -1,6 +1,7 @@
 //! A crate for inner pairing product arguments/proofs.
 #![deny(warnings, unused, missing_docs)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 use std::marker::PhantomData;
 
@@ -10,6 +11,8 @@ use ark_ec::{
     CurveGroup,
 };
 use ark_ff::{Field, One, UniformRand};
+#[cfg(vp_hooks)]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 use ark_std::Zero;
 use digest::{generic_array::typenum::U32, Digest};
@@ -29,6 +32,7 @@ pub struct SIPP<E: Pairing, D: Digest> {
 
 /// `Proof` contains the GT elements produced by the prover.
 // TODO(psi): why not just make Proof an alias since there's only one field?
+#[cfg_attr(vp_hooks, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct Proof<E: Pairing> {
     gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>,
 }
-- 
2.43.0

