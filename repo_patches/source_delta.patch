From 10320ca18a710b86b741803a009c092f81402c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 01/13] verification hooks behind --cfg zksql_verif

---
 .../pcs/multilinear_kzg/batching.rs           | 19 +++++++++++++
 src/subroutines/poly_iop/structs.rs           | 11 ++++++++
 src/zksql_poly_iop/join_reduction/mod.rs      |  7 ++++-
 src/zksql_poly_iop/mod.rs                     | 27 ++++++++++++++++++-
 src/zksql_poly_iop/util/mod.rs                |  7 ++++-
 5 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..e6e2568 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -40,6 +40,25 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// Access for the external verification harness.
+#[cfg(zksql_verif)]
+impl<E, PCS> BatchProof<E, PCS>
+where
+    E: Pairing,
+    PCS: PolynomialCommitmentScheme<E>,
+{
+    pub fn verif_new(
+        sum_check_proof: IOPProof<E::ScalarField>,
+        f_i_eval_at_point_i: Vec<E::ScalarField>,
+        g_prime_proof: PCS::Proof,
+    ) -> Self {
+        Self { sum_check_proof, f_i_eval_at_point_i, g_prime_proof }
+    }
+    pub fn verif_parts(&self) -> (&IOPProof<E::ScalarField>, &PCS::Proof) {
+        (&self.sum_check_proof, &self.g_prime_proof)
+    }
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
diff --git a/src/subroutines/poly_iop/structs.rs b/src/subroutines/poly_iop/structs.rs
index b0dae47..0f4837c 100644
--- a/src/subroutines/poly_iop/structs.rs
+++ b/src/subroutines/poly_iop/structs.rs
@@ -27,6 +27,17 @@ pub struct IOPProverMessage<F: PrimeField> {
     pub(crate) evaluations: Vec<F>,
 }
 
+/// Access for the external verification harness.
+#[cfg(zksql_verif)]
+impl<F: PrimeField> IOPProverMessage<F> {
+    pub fn verif_new(evaluations: Vec<F>) -> Self {
+        Self { evaluations }
+    }
+    pub fn verif_evaluations(&self) -> &Vec<F> {
+        &self.evaluations
+    }
+}
+
 /// Prover State of a PolyIOP.
 pub struct IOPProverState<F: PrimeField> {
     /// sampled randomness given by the verifier
diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..ba09206 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,8 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::utils::*;
+}
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..24d6b1b 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,29 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+
+/// Re-exports for the external verification harness (`--cfg zksql_verif`).
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::bag_disjoint::{bag_disjoint::*, utils::*};
+    pub use super::bag_eq::bag_eq::*;
+    pub use super::bag_inclusion::{bag_inclusion::*, utils::*};
+    pub use super::bag_multitool::bag_multitool::*;
+    pub use super::bag_no_zeros::*;
+    pub use super::bag_presc_perm::bag_presc_perm::*;
+    pub use super::bag_sort::bag_sort::*;
+    pub use super::bag_sum::bag_sum::*;
+    pub use super::bag_supp::{bag_supp::*, utils::*};
+    pub use super::cross_product::{cross_product::*, utils::*};
+    pub use super::final_join_one_to_many::{final_join_one_to_many::*, utils::*};
+    pub use super::group_by::group_by::*;
+    pub use super::index_transform::{index_transform::*, utils::*};
+    pub use super::join_reduction::{join_reduction::*, verif_hooks::*};
+    pub use super::selector_valid::selector_valid::*;
+    pub use super::set_diff::set_diff::*;
+    pub use super::set_disjoint::set_disjoint::*;
+    pub use super::set_intersect::set_intersect::*;
+    pub use super::set_union::set_union::*;
+    pub use super::util::{prelude::*, verif_hooks::*};
+}
diff --git a/src/zksql_poly_iop/util/mod.rs b/src/zksql_poly_iop/util/mod.rs
index e281c82..b5d7aed 100644
--- a/src/zksql_poly_iop/util/mod.rs
+++ b/src/zksql_poly_iop/util/mod.rs
@@ -1,3 +1,8 @@
 pub mod prelude;
 mod intermed_bag_calc;
-mod multiplicity_count;
\ No newline at end of file
+mod multiplicity_count;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::intermed_bag_calc::bag_lmr_multiplicity_split;
+}
-- 
2.43.0


From d25c0126535ec2ad0a69c664e62e1a9f9e87f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 02/13] fix: batch_verify accepted a sum-check point that
 differs from the transcript's challenges

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index e6e2568..b0858f1 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -265,6 +265,13 @@ where
     };
     let tilde_g_eval = subclaim.expected_evaluation;
 
+    // the point used above must be the one the transcript produced
+    if subclaim.point != a2 {
+        return Err(PCSError::InvalidProof(
+            "Sumcheck point in batch proof does not match the transcript".to_string(),
+        ));
+    }
+
     // verify commitment
     let res = PCS::verify(
         verifier_param,
-- 
2.43.0


From a3789a3b6e8ed8aa54adedb11558383946bd74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 03/13] fix: VerifierTracker::increase_nv_back kept the added
 coordinates instead of dropping them

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..9e62e66 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From 261393699f77fc9fbfd62105e5afaff3846671cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 04/13] fix: table rows are aggregated by a random linear
 combination of the columns, not their product

---
 src/zksql_poly_iop/index_transform/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..c52226e 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +35,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From 611ab3fb3a0b9f6d657b0e4a6746b1e7af27b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 05/13] fix: bag splits compare the sorted selected values and
 keep each run's own value

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 88 +++++++++-----------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..4269c73 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,33 +62,29 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
+    for i in a_counter..sorted_a_evals.len() {
+        l_evals.push(sorted_a_evals[i]);
     }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
+    for i in b_counter..sorted_b_evals.len() {
+        r_evals.push(sorted_b_evals[i]);
     }
 
     // create selectors for the intermediate bags and extend things to the correct length
@@ -198,33 +194,33 @@ where
     let mut a_index = 0;
     let mut b_index = 0;
     while a_index < sorted_a_evals.len() && b_index < sorted_b_evals.len() {
-        if a_evals[a_index] < b_evals[b_index] {
+        if sorted_a_evals[a_index] < sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
+            let val = sorted_a_evals[a_index];
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
                 mul_counter += 1;
                 a_index += 1;
             }
-            l_evals.push(a_evals[a_index]);
+            l_evals.push(val);
             l_mul_evals.push(E::ScalarField::from(mul_counter));
-        } else if a_evals[a_index] > b_evals[b_index] {
+        } else if sorted_a_evals[a_index] > sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
+            let val = sorted_b_evals[b_index];
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
                 mul_counter += 1;
                 b_index += 1;
             }
-            r_evals.push(b_evals[b_index]);
+            r_evals.push(val);
             r_mul_evals.push(E::ScalarField::from(mul_counter));
         } else {
-            let match_eval = a_evals[a_index];
+            let match_eval = sorted_a_evals[a_index];
             let mut a_mul_counter: u64 = 0;
             let mut b_mul_counter: u64 = 0;
-            while a_index < sorted_a_evals.len() && a_evals[a_index] == match_eval {
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == match_eval {
                 a_mul_counter += 1;
                 a_index += 1;
             }
-            while b_index < sorted_b_evals.len() && b_evals[b_index] == match_eval {
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == match_eval {
                 b_mul_counter += 1;
                 b_index += 1;
             }
@@ -233,29 +229,25 @@ where
             m_bmul_evals.push(E::ScalarField::from(b_mul_counter));
         }
     }
-    for i in a_index..a_len {
-        if !a_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
-                mul_counter += 1;
-                a_index += 1;
-            }
-            l_evals.push(a_evals[a_index]);
-            l_mul_evals.push(E::ScalarField::from(mul_counter));
+    while a_index < sorted_a_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_a_evals[a_index];
+        while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
+            mul_counter += 1;
+            a_index += 1;
         }
+        l_evals.push(val);
+        l_mul_evals.push(E::ScalarField::from(mul_counter));
     }
-    for i in b_index..b_len {
-        if !b_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
-                mul_counter += 1;
-                b_index += 1;
-            }
-            r_evals.push(b_evals[b_index]);
-            r_mul_evals.push(E::ScalarField::from(mul_counter));
+    while b_index < sorted_b_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_b_evals[b_index];
+        while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
+            mul_counter += 1;
+            b_index += 1;
         }
+        r_evals.push(val);
+        r_mul_evals.push(E::ScalarField::from(mul_counter));
     }
 
     // create selectors for the intermediate bags and extend things to the correct length
-- 
2.43.0


From b1fead6e6f99b334e0bed986ed67e8b9af4b61e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 06/13] fix: group-by returns the sum column it proved

---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From 6edb8331f3169d0b0c50982180f2d160a1f63375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 07/13] fix: incomplete proofs are rejected with an error
 instead of a panic

---
 src/subroutines/pcs/multilinear_kzg/batching.rs |  5 +++++
 src/subroutines/poly_iop/sum_check/mod.rs       |  4 +++-
 src/subroutines/poly_iop/sum_check/verifier.rs  |  5 +++++
 src/subroutines/poly_iop/zero_check/mod.rs      |  9 +++++++++
 src/tracker/verifier_tracker.rs                 | 13 +++++++++++--
 5 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index b0858f1..fe377c0 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -217,6 +217,11 @@ where
     let k = f_i_commitments.len();
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
+    if points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidProof(
+            "batch proof does not have one evaluation per commitment and point".to_string(),
+        ));
+    }
 
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
diff --git a/src/subroutines/poly_iop/sum_check/mod.rs b/src/subroutines/poly_iop/sum_check/mod.rs
index a400fcb..24d3798 100644
--- a/src/subroutines/poly_iop/sum_check/mod.rs
+++ b/src/subroutines/poly_iop/sum_check/mod.rs
@@ -192,7 +192,9 @@ impl<F: PrimeField> SumCheck<F> for PolyIOP<F> {
         transcript.append_serializable_element(b"aux info", aux_info)?;
         let mut verifier_state = IOPVerifierState::verifier_init(aux_info);
         for i in 0..aux_info.num_variables {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+            let prover_msg = proof.proofs.get(i).ok_or_else(|| {
+                PolyIOPErrors::InvalidProof("proof is incomplete".to_string())
+            })?;
             transcript.append_serializable_element(b"prover msg", prover_msg)?;
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index df11b73..8cbdeb3 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -160,6 +160,11 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
         {
             // the deferred check during the interactive phase:
             // 1. check if the received 'P(0) + P(1) = expected`.
+            if evaluations.len() < 2 {
+                return Err(PolyIOPErrors::InvalidProof(
+                    "Prover message has fewer than two evaluations.".to_string(),
+                ));
+            }
             if evaluations[0] + evaluations[1] != expected {
                 return Err(PolyIOPErrors::InvalidProof(
                     "Sumcheck's deferred checks failed. Prover message is not consistent with the claim.".to_string(),
diff --git a/src/subroutines/poly_iop/zero_check/mod.rs b/src/subroutines/poly_iop/zero_check/mod.rs
index 37cb19f..4477dd9 100644
--- a/src/subroutines/poly_iop/zero_check/mod.rs
+++ b/src/subroutines/poly_iop/zero_check/mod.rs
@@ -88,6 +88,15 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
     ) -> Result<Self::ZeroCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "zero check verify");
 
+        match proof.proofs.first() {
+            Some(msg) if msg.evaluations.len() >= 2 => (),
+            _ => {
+                return Err(PolyIOPErrors::InvalidProof(
+                    "zero check: proof is incomplete".to_string(),
+                ))
+            },
+        }
+
         // check that the sum is zero
         if proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1] != F::zero() {
             return Err(PolyIOPErrors::InvalidProof(format!(
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 9e62e66..436284f 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -392,9 +392,18 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let sumcheck_point = iop_verify_subclaim.point.clone();
         let mut comm_ids = self.proof.comms.keys().cloned().collect::<Vec<TrackerID>>();
         comm_ids.sort(); // sort so the transcript is generated consistently
-        let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
+        let mut comms = Vec::<PCS::Commitment>::with_capacity(comm_ids.len());
+        for id in comm_ids.iter() {
+            match self.get_mat_comm(*id) {
+                Some(comm) => comms.push(comm.clone()),
+                None => return Err(PolyIOPErrors::InvalidProof(format!("proof has a commitment the verifier does not track: {}", id))),
+            }
+        }
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
-        let batch_proof = self.proof.pcs_proof[0].clone();
+        let batch_proof = match self.proof.pcs_proof.first() {
+            Some(batch_proof) => batch_proof.clone(),
+            None => return Err(PolyIOPErrors::InvalidProof("proof has no batch opening".to_string())),
+        };
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
         pcs_verify_res?;
 
-- 
2.43.0


From de4e4d8fc5abffd63f275f24ae21cab5e3db3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 08/13] fix: compiled-proof verification ignored a failed batch
 opening, and small polynomials were opened at the wrong coordinates

---
 src/tracker/prover_tracker.rs   | 2 +-
 src/tracker/verifier_tracker.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..f365c52 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // a small commitment opens at the last coordinates of a long point, so the added variables go at the front
             }
         }
 
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 436284f..7f02533 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -405,7 +405,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             None => return Err(PolyIOPErrors::InvalidProof("proof has no batch opening".to_string())),
         };
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidProof("batch opening does not verify".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From fb59be36685448bc0df6dfee3018e96294baa7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 09/13] fix: evaluating a virtual polynomial no longer replaces
 it by its multilinear table

---
 src/tracker/prover_tracker.rs | 30 ++++++++++++++++--------------
 src/tracker/prover_wrapper.rs |  2 +-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index f365c52..b4ef53a 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -55,6 +55,7 @@ pub struct ProverTracker<E: Pairing, PCS: PolynomialCommitmentScheme<E>>{
     pub id_counter: usize,
     pub materialized_polys: HashMap<TrackerID, Arc<DenseMultilinearExtension<E::ScalarField>>>, // underlying materialized polynomials, keyed by label
     pub virtual_polys: HashMap<TrackerID, Vec<(E::ScalarField, Vec<TrackerID>)>>, // virtual polynomials, keyed by label. Invariant: a virt poly contains only material TrackerIDs
+    pub cached_evaluations: HashMap<TrackerID, Arc<DenseMultilinearExtension<E::ScalarField>>>, // hypercube tables of virtual polynomials, computed on demand
     pub materialized_comms: HashMap<TrackerID, PCS::Commitment>,
     pub sum_check_claims: Vec<TrackerSumcheckClaim<E::ScalarField>>,
     pub zero_check_claims: Vec<TrackerZerocheckClaim<E::ScalarField>>,
@@ -68,6 +69,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
             id_counter: 0,
             virtual_polys: HashMap::new(),
             materialized_polys: HashMap::new(),
+            cached_evaluations: HashMap::new(),
             materialized_comms: HashMap::new(),
             sum_check_claims: Vec::new(),
             zero_check_claims: Vec::new(),
@@ -343,8 +345,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_front(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = &self.evaluation_table(poly_id);
         let base_nv = base_mle.num_vars();
         let res_mle = dmle_increase_nv_front(base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
@@ -352,19 +353,20 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_back(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = &self.evaluation_table(poly_id);
         let base_nv = base_mle.num_vars();
         let res_mle = dmle_increase_nv_back(base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
         res_id
     }
 
-    fn materialize_poly(&mut self, id: TrackerID) {
+    // the evaluations over the hypercube, cached for virtual polynomials
+    // (a virtual polynomial stays virtual: away from the hypercube it is not multilinear)
+    fn evaluation_table(&mut self, id: TrackerID) -> Arc<DenseMultilinearExtension<E::ScalarField>> {
         // look up the virtual polynomial
-        let mat_poly = self.materialized_polys.get(&id);
+        let mat_poly = self.materialized_polys.get(&id).or(self.cached_evaluations.get(&id));
         if mat_poly.is_some() {
-            return // already materialized
+            return mat_poly.unwrap().clone(); // already materialized
         }
         let virt_poly = self.virtual_polys.get(&id);
         if virt_poly.is_none() {
@@ -398,10 +400,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
                 .collect()
         });
 
-        // cache the result by updating the materialized poly map
+        // cache the result
         let mle = Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals));
-        self.materialized_polys.insert(id.clone(), mle);
-        self.virtual_polys.remove(&id);
+        self.cached_evaluations.insert(id.clone(), mle.clone());
+        mle
     }
 
     pub fn evaluate(&self, id: TrackerID, pt: &[E::ScalarField]) -> Option<E::ScalarField>{
@@ -437,10 +439,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         Some(eval)
     }
 
-    pub fn evaluations(&mut self, id: TrackerID) -> &Vec<E::ScalarField> {
-        self.materialize_poly(id);
-        let mat_poly = self.materialized_polys.get(&id).unwrap();
-        return &mat_poly.evaluations;
+    pub fn evaluations(&mut self, id: TrackerID) -> Vec<E::ScalarField> {
+        self.evaluation_table(id).evaluations.clone()
     }
 
     pub fn get_and_append_challenge(&mut self, label: &'static [u8]) -> Result<E::ScalarField, TranscriptError> {
@@ -500,6 +500,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
             }
         }
 
+        self.cached_evaluations.clear(); // computed for the old sizes
+
         // need to update the claims because resizing messes stuff up
         let old_sumcheck_claims = self.sum_check_claims.clone();
         let true_sums: Vec<E::ScalarField> = old_sumcheck_claims.iter()
diff --git a/src/tracker/prover_wrapper.rs b/src/tracker/prover_wrapper.rs
index 0c2e4a6..87bad68 100644
--- a/src/tracker/prover_wrapper.rs
+++ b/src/tracker/prover_wrapper.rs
@@ -220,7 +220,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedPoly<E, PCS> {
     pub fn evaluations(&self) -> Vec<E::ScalarField> {
         // note: this has to actually clone the evaluations, which can be expensive
         let tracker_ref: &RefCell<ProverTracker<E, PCS>> = self.tracker.borrow();
-        tracker_ref.borrow_mut().evaluations(self.id.clone()).clone() 
+        tracker_ref.borrow_mut().evaluations(self.id.clone())
     }
 
     pub fn to_arithmatic_virtual_poly(&self) -> VirtualPolynomial<E::ScalarField> {
-- 
2.43.0


From e78c2c93bb1de5e80626e5a3f55d57db34d5a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 10/13] fix: batch openings drew the combination weights before
 the claimed values and points were fixed

The weights did not depend on the claimed evaluations or points, so values
moved against each other with the same weighted sum were accepted.
---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index fe377c0..a1fce7c 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -87,6 +87,10 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    // the claimed evaluations must be fixed before their weights are drawn
+    transcript.append_serializable_element(b"points", &points.to_vec())?;
+    transcript.append_serializable_element(b"evals", &evals.to_vec())?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -223,6 +227,10 @@ where
         ));
     }
 
+    // the claimed evaluations must be fixed before their weights are drawn
+    transcript.append_serializable_element(b"points", &points.to_vec())?;
+    transcript.append_serializable_element(b"evals", &proof.f_i_eval_at_point_i)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From ea5caca702cabfc4a789737703419ca9b4224210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 11/13] fix: claimed sums were not fixed before their
 aggregation challenges were drawn

A proof could move two claimed sums against each other with the same weighted
total and still verify.
---
 src/tracker/prover_tracker.rs   | 3 +++
 src/tracker/verifier_tracker.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index b4ef53a..d34adfd 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -555,6 +555,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         // 1.5) aggregate the sumcheck claims
         let mut sumcheck_poly = self.track_mat_poly(DenseMultilinearExtension::<E::ScalarField>::from_evaluations_vec(nv, vec![E::ScalarField::zero(); 2_usize.pow(nv as u32)]));
         let mut sc_sum = E::ScalarField::zero();
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?; // fixed before the challenges are drawn
+        }
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 7f02533..7ec10e0 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -374,6 +374,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut sumcheck_comm = self.track_virtual_comm(Box::new(zero_closure));
         let mut sc_sum = E::ScalarField::zero();
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?; // fixed before the challenges are drawn
+        }
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
-- 
2.43.0


From e7de14d3a701e0f3131a311a6f33716ef862388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 12/13] fix: openings with missing or surplus elements could
 verify

---
 src/subroutines/pcs/multilinear_kzg/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/mod.rs b/src/subroutines/pcs/multilinear_kzg/mod.rs
index 1e20549..f5c199e 100644
--- a/src/subroutines/pcs/multilinear_kzg/mod.rs
+++ b/src/subroutines/pcs/multilinear_kzg/mod.rs
@@ -283,6 +283,14 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    if proof.proofs.len() != num_var {
+        return Err(PCSError::InvalidProof(format!(
+            "opening has {} elements for a point of length {}",
+            proof.proofs.len(),
+            num_var
+        )));
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let scalar_size = E::ScalarField::MODULUS_BIT_SIZE as usize;
-- 
2.43.0


From 020444f50ddd2c1149d7667fe01aa2268ed591c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 13/13] fix: one-to-many join refuses valid tables whose
 inactive rows repeat a key

The debug-build sanity check on the primary key column counted the rows the
selector leaves out as well, so padding rows made the prover return an error.
---
 .../final_join_one_to_many/final_join_one_to_many.rs       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 1b6d438..fa921ec 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -1,6 +1,7 @@
 
 use ark_ec::pairing::Pairing;
 use ark_poly::DenseMultilinearExtension;
+use ark_std::Zero;
 use std::collections::HashMap;
 use std::marker::PhantomData;
 
@@ -60,12 +61,16 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedPoly<E, PCS>>,
     ) -> Result<Table<E, PCS>, PolyIOPErrors> {
-        // sanity check that the table_a join_col does not have duplicates, since the IOP is not sound otherwise
+        // sanity check that the activated rows of the table_a join_col do not have duplicates, since the IOP is not sound otherwise
         #[cfg(debug_assertions)] 
         {
             let table_a_join_col_evals = table_a.col_vals[a_join_col_index].evaluations();
+            let table_a_sel_evals = table_a.selector.evaluations();
             let mut counts = HashMap::<E::ScalarField, usize>::new();
             for i in 0..table_a_join_col_evals.len() {
+                if table_a_sel_evals[i] == E::ScalarField::zero() { // only count activated rows
+                    continue;
+                }
                 let val = table_a_join_col_evals[i];
                 let count = counts.entry(val).or_insert(0);
                 *count += 1;
-- 
2.43.0

