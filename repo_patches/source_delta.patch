From c6586a197356e5e0ec0415c6afc865a0e2705670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 01/60] fix: bulletproofs: sum repeated variables of a linear
 combination instead of keeping the last coefficient

---
 bulletproofs/src/arithmetic_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..a8aaf3c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -231,21 +231,21 @@ where
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CL[i][index] = *coeff;
+            CL[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.bt[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CR[i][index] = *coeff;
+            CR[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.ct[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CO[i][index] = *coeff;
+            CO[i][index] += coeff;
         }
     }
 
-- 
2.43.0


From 4db0fc2c91a9d7ad6213c4faac4364899d55439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 02/60] verif hooks: dishonest-prover switch (cfg verif_hooks)
 in curve and bulletproofs

---
 bulletproofs/src/arithmetic_circuit.rs | 22 ++++++++++++++++
 curve/src/lib.rs                       | 36 ++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index a8aaf3c..1cf7c9a 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -532,6 +532,17 @@ where
 
     let xx = x * &x;
     let xxxx = xx * &xx;
+
+    #[cfg(verif_hooks)]
+    let t_x = if zkp_curve::verif_hooks::lie("bulletproofs.t_x").is_some() {
+        // claim the value the commitments T_i and the statement ask for
+        let c = vector_matrix_product_t::<G::Fr>(&input.s, &C1);
+        let t4 = inner_product::<G::Fr>(&ynInvZQWR, &zQ_WL) + &inner_product::<G::Fr>(&z_Q, &c);
+        t_poly.eval(x) + &(xxxx * &(t4 - &t_poly.t4))
+    } else {
+        t_x
+    };
+
     // blinding value for t_x
     let tau_x = tau_2 * &xx
         + &(tau_3 * &(xx * &x))
@@ -565,6 +576,17 @@ where
         + &ux.mul(t_x))
         .into_affine();
 
+    #[cfg(verif_hooks)]
+    let IPP_P = if zkp_curve::verif_hooks::lie("bulletproofs.t_x") == Some(1) {
+        // an inner-product argument for another, true claim
+        (quick_multiexp::<G>(&l_x, &gens.g_vec_N)
+            + &quick_multiexp::<G>(&r_x, &gens.h_vec_N)
+            + &ux.mul(inner_product::<G::Fr>(&l_x, &r_x)))
+            .into_affine()
+    } else {
+        IPP_P
+    };
+
     let IPP = inner_product_proof::prove(
         &mut transcript,
         gens.g_vec_N.clone(),
diff --git a/curve/src/lib.rs b/curve/src/lib.rs
index 9af3275..7f88c7d 100644
--- a/curve/src/lib.rs
+++ b/curve/src/lib.rs
@@ -51,3 +51,39 @@ impl<P: PairingEngine> Curve for P {
     type Projective = P::G1Projective;
     type Affine = P::G1Affine;
 }
+
+/// Switches for the dishonest-prover experiments of the verification harness.
+/// Compiled only with `--cfg verif_hooks`; provers ask here whether to lie.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    extern crate std;
+    use std::cell::RefCell;
+    use std::string::{String, ToString};
+    use std::vec::Vec;
+
+    std::thread_local! {
+        static LIE: RefCell<Option<(String, usize)>> = RefCell::new(None);
+        static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
+    }
+
+    /// Choose the lie (label, parameter) told by provers on this thread.
+    pub fn set(l: Option<(&str, usize)>) {
+        LIE.with(|x| *x.borrow_mut() = l.map(|(a, b)| (a.to_string(), b)));
+    }
+
+    /// Asked by a prover: the parameter if the lie `label` is switched on.
+    pub fn lie(label: &str) -> Option<usize> {
+        LIE.with(|x| match &*x.borrow() {
+            Some((l, p)) if l == label => {
+                LOG.with(|g| g.borrow_mut().push(l.clone()));
+                Some(*p)
+            }
+            _ => None,
+        })
+    }
+
+    /// The lies actually told since the last call.
+    pub fn told() -> Vec<String> {
+        LOG.with(|g| g.borrow_mut().split_off(0))
+    }
+}
-- 
2.43.0


From 4c0c313f189c283e90c208d885912081f1ea6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 03/60] fix: bulletproofs: tie the inner-product argument to
 the opened vectors and the claimed t_x

The verifier took the commitment IPP_P from the proof, so a prover could run
the argument for another claim and have a false statement accepted.
---
 bulletproofs/src/arithmetic_circuit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 1cf7c9a..3e95a3f 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -821,6 +821,13 @@ pub fn verify_proof<G: Curve>(
     // check tx ?= <lx, rx>
     // USE IPP here
     // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    // the argument must be about the opened vectors and the claimed t_x
+    let IPP_P: G::Projective = quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x);
+    if proof.IPP_P.into_projective() != IPP_P {
+        return Ok(false);
+    }
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
-- 
2.43.0


From 5a9fc15de651c17981dda0d5b34f7af03c1ff2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 04/60] fix: bulletproofs: reject malformed or wrong proofs
 instead of panicking

---
 bulletproofs/src/arithmetic_circuit.rs  | 11 ++++++++++-
 bulletproofs/src/inner_product_proof.rs | 10 ++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 3e95a3f..3b13cab 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -639,6 +639,13 @@ pub fn verify_proof<G: Curve>(
     r1cs_circuit: &R1csCircuit<G>,
     public_inputs: &[G::Fr],
 ) -> Result<bool, SynthesisError> {
+    if public_inputs.len() + 1 != gens.k {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
+    if proof.l_x.len() != gens.N || proof.r_x.len() != gens.N {
+        return Ok(false);
+    }
+
     let mut transcript = Transcript::new(b"protocol3");
     let zero = G::Fr::zero();
     let one = G::Fr::one();
@@ -857,7 +864,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..a0dc812 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -118,9 +118,15 @@ pub fn verify<G: Curve>(
     P: &G::Projective,
     proof: &Proof<G>,
 ) -> bool {
+    let n = g_vec.len();
     let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
+    if !n.is_power_of_two()
+        || h_vec.len() != n
+        || lg_n != n.trailing_zeros() as usize
+        || proof.R_vec.len() != lg_n
+    {
+        return false;
+    }
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From a62819bc5940001c5c27395928a667c1fd37cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 05/60] fix: spartan: keep the index of each public input when
 evaluating the input polynomial

sparse_evaluate_value dropped zero entries before numbering the rest, so a
zero public input shifted every later one and honest proofs were rejected.
---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From 6f63effdca2532a32567319562b23c20d7d0de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 06/60] fix: spartan: bind the NIZK evaluation point to the
 transcript

The matrices were evaluated at the point shipped with the proof, which was
never compared with the challenges of the two sum-checks, so a prover could
choose it freely (and its length decided how much memory the verifier used).
---
 spartan/src/verify.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..7aef41a 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -36,10 +36,16 @@ pub fn verify_nizk_proof<G: Curve>(
 
 
     let (rx, ry) = &proof.r;
+    // the evaluation points come with the proof: they must have the shape of this
+    // instance, and be the points the sum-checks below end in.
+    let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
+    if rx.len() != log2(r1cs.num_constraints) as usize || ry.len() != log2(t) as usize + 1 {
+        return Ok(false);
+    }
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, verified_rx, verified_ry) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +54,7 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    Ok(result && &verified_rx == rx && &verified_ry == ry)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From 998b408f8efd730125e63ae7ccd52b08a059ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 07/60] fix: spartan: reject public input vectors of the wrong
 length

Missing inputs were padded with zeros, and zeros appended to the inputs were
accepted; too many inputs underflowed the padding length.
---
 spartan/src/verify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 7aef41a..1e4ed5d 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -116,6 +116,11 @@ pub fn r1cs_satisfied_verify<G: Curve>(
 ) -> Result<(bool, Vec<G::Fr>, Vec<G::Fr>), SynthesisError> {
     let (eval_a_r, eval_b_r, eval_c_r) = matrix_evals;
 
+    // inputs exclude the constant one
+    if inputs.len() + 1 != r1cs.num_inputs {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
+
     let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
     let (num_rounds_x, num_rounds_y) = (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1);
     let mut public_inputs = vec![G::Fr::one()];
-- 
2.43.0


From c77819c9789cc47ddddb56256537052ca1172ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 08/60] fix: spartan: return an error for malformed proofs
 instead of panicking, and check list lengths

The lists of row/column evaluations were iterated by the proof's own lengths;
with the entries moved to the neighbouring list the timestamp checks were
skipped altogether.
---
 spartan/src/inner_product.rs |   8 ++-
 spartan/src/verify.rs        | 120 ++++++++++++++++++++---------------
 2 files changed, 74 insertions(+), 54 deletions(-)

diff --git a/spartan/src/inner_product.rs b/spartan/src/inner_product.rs
index defc662..4e85b52 100644
--- a/spartan/src/inner_product.rs
+++ b/spartan/src/inner_product.rs
@@ -108,9 +108,11 @@ pub fn bullet_inner_product_verify<G: Curve>(
     b_vec: &Vec<G::Fr>,
     transcript: &mut Transcript,
 ) -> Result<(G::Fr, G::Affine, G::Affine), SynthesisError> {
-    let lg_n = proof.l_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.r_vec.len());
+    let n = b_vec.len();
+    let lg_n = log2(n) as usize;
+    if proof.l_vec.len() != lg_n || proof.r_vec.len() != lg_n || g_vec.len() < n {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
 
     let mut x_sq_vec = Vec::with_capacity(lg_n);
     let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 1e4ed5d..eedfd1b 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -22,6 +22,14 @@ use crate::{
     Vec,
 };
 
+fn ensure(condition: bool) -> Result<(), SynthesisError> {
+    if condition {
+        Ok(())
+    } else {
+        Err(SynthesisError::MalformedVerifyingKey)
+    }
+}
+
 pub fn verify_nizk_proof<G: Curve>(
     params: &NizkParameters<G>,
     r1cs: &R1CSInstance<G>,
@@ -310,6 +318,10 @@ fn sum_check_verify<G: Curve>(
 ) -> Result<(Vec<G::Fr>, G::Affine), SynthesisError> {
     let mut commit_claim = commit_claim;
 
+    ensure(proof.comm_polys.len() == num_rounds)?;
+    ensure(proof.comm_evals.len() == num_rounds)?;
+    ensure(proof.proofs.len() == num_rounds)?;
+
     let mut rx: Vec<G::Fr> = Vec::new();
     for i in 0..num_rounds {
         let commit_poly = proof.comm_polys[i];
@@ -358,6 +370,7 @@ fn sum_check_eval_verify<G: Curve>(
     size: usize,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == size)?;
     let w = (0..2)
         .map(|_i| {
             let mut buf = [0u8; 31];
@@ -444,6 +457,7 @@ fn product_verify<G: Curve>(
     prod_commit: G::Affine,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == 5)?;
     let z1 = proof.z[0];
     let z2 = proof.z[1];
     let z3 = proof.z[2];
@@ -515,6 +529,7 @@ fn inner_product_verify<G: Curve>(
 
     let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
     let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+    ensure(commits_witness.len() == l_eq_ry.len())?;
 
     let commit_lz =
         poly_commit_vec::<G>(commits_witness, &l_eq_ry, &params.gen_1.h, G::Fr::zero())?.commit;
@@ -564,7 +579,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let (rx, ry) = equalize_length::<G>(&rx, &ry)?;
 
     let (n, m) = (encode_commit.n, encode_commit.m);
-    assert_eq!((2usize).pow(rx.len() as u32), m);
+    ensure((2usize).pow(rx.len() as u32) == m)?;
 
     transcript.append_message(
         b"comm_poly_row_col_ops_val",
@@ -588,9 +603,9 @@ fn sparse_poly_eval_verify<G: Curve>(
             &vec![eval_a_r, eval_b_r, eval_c_r],
             transcript,
         )?;
-    assert_eq!(claims_mem.len(), 4);
-    assert_eq!(claims_ops.len(), 12);
-    assert_eq!(claims_ops_dotp.len(), 9);
+    ensure(claims_mem.len() == 4)?;
+    ensure(claims_ops.len() == 12)?;
+    ensure(claims_ops_dotp.len() == 9)?;
 
     let claims_ops_row_read = claims_ops[0..3].to_vec();
     let claims_ops_row_write = claims_ops[3..6].to_vec();
@@ -598,7 +613,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let claims_ops_col_write = claims_ops[9..12].to_vec();
 
     // proof.hash_layer_proof
-    let result = hash_layer_verify::<G>(
+    hash_layer_verify::<G>(
         params,
         &proof.hash_layer_proof,
         (&rx, &ry),
@@ -620,9 +635,7 @@ fn sparse_poly_eval_verify<G: Curve>(
         encode_commit,
         &proof.derefs_commit,
         transcript,
-    )
-    .is_ok();
-    assert!(result);
+    )?;
 
     Ok(true)
 }
@@ -652,19 +665,19 @@ where
     let (col_init, col_read_list, col_write_list, col_audit) = &proof.eval_col;
     let (eval_dotp_left_list, eval_dotp_right_list) = &proof.eval_dotp;
 
-    assert_eq!(row_read_list.len(), 3);
-    assert_eq!(row_write_list.len(), 3);
-    assert_eq!(col_read_list.len(), 3);
-    assert_eq!(col_write_list.len(), 3);
-    assert_eq!(eval_dotp_left_list.len(), 3);
-    assert_eq!(eval_dotp_right_list.len(), 3);
-    assert_eq!(evals.len(), 3);
+    ensure(row_read_list.len() == 3)?;
+    ensure(row_write_list.len() == 3)?;
+    ensure(col_read_list.len() == 3)?;
+    ensure(col_write_list.len() == 3)?;
+    ensure(eval_dotp_left_list.len() == 3)?;
+    ensure(eval_dotp_right_list.len() == 3)?;
+    ensure(evals.len() == 3)?;
 
     let row_read: G::Fr = (0..row_read_list.len()).map(|i| row_read_list[i]).product();
     let row_write: G::Fr = (0..row_write_list.len())
         .map(|i| row_write_list[i])
         .product();
-    assert_eq!(*row_init * &row_write, row_read * row_audit);
+    ensure(*row_init * &row_write == row_read * row_audit)?;
 
     transcript.append_message(b"claim_row_eval_init", &to_bytes!(row_init)?);
     transcript.append_message(b"claim_row_eval_read", &to_bytes!(row_read_list)?);
@@ -675,7 +688,7 @@ where
     let col_write: G::Fr = (0..col_write_list.len())
         .map(|i| col_write_list[i])
         .product();
-    assert_eq!(*col_init * &col_write, col_read * col_audit);
+    ensure(*col_init * &col_write == col_read * col_audit)?;
 
     transcript.append_message(b"claim_col_eval_init", &to_bytes!(col_init)?);
     transcript.append_message(b"claim_col_eval_read", &to_bytes!(col_read_list)?);
@@ -684,7 +697,7 @@ where
 
     let mut claims_dotp_circuit = Vec::new();
     for i in 0..eval_dotp_left_list.len() {
-        assert_eq!(eval_dotp_left_list[i] + &eval_dotp_right_list[i], evals[i]);
+        ensure(eval_dotp_left_list[i] + &eval_dotp_right_list[i] == evals[i])?;
         transcript.append_message(b"claim_eval_dotp_left", &to_bytes!(eval_dotp_left_list[i])?);
         transcript.append_message(
             b"claim_eval_dotp_right",
@@ -735,7 +748,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
     let layer_num = log2(n) as usize;
     let mut claims_to_verify = claims_prod_circuit.clone();
 
-    assert_eq!(proof.layers_proof.len(), layer_num);
+    ensure(proof.layers_proof.len() == layer_num)?;
 
     let mut num_rounds = 0;
     let mut rands = Vec::new();
@@ -765,14 +778,14 @@ pub fn product_circuit_eval_verify<G: Curve>(
         )?;
         let claim_prod_left = &proof.layers_proof[i].claim_prod_left;
         let claim_prod_right = &proof.layers_proof[i].claim_prod_right;
-        assert_eq!(claim_prod_left.len(), claim_prod_right.len());
-        assert_eq!(claim_prod_left.len(), claims_prod_circuit.len());
+        ensure(claim_prod_left.len() == claim_prod_right.len())?;
+        ensure(claim_prod_left.len() == claims_prod_circuit.len())?;
         for i in 0..claim_prod_left.len() {
             transcript.append_message(b"claim_prod_left", &to_bytes!(claim_prod_left[i])?);
             transcript.append_message(b"claim_prod_right", &to_bytes!(claim_prod_right[i])?);
         }
 
-        assert_eq!(rands.len(), r.len());
+        ensure(rands.len() == r.len())?;
         let eq: G::Fr = (0..r.len())
             .map(|i| r[i] * &rands[i] + &((G::Fr::one() - &r[i]) * &(G::Fr::one() - &rands[i])))
             .product();
@@ -783,6 +796,9 @@ pub fn product_circuit_eval_verify<G: Curve>(
 
         if i == layer_num - 1 {
             let (claim_dotp_row, claim_dotp_col, claim_dotp_val) = &proof.claim_dotp;
+            ensure(claim_dotp_row.len() == claims_dotp_circuit.len())?;
+            ensure(claim_dotp_col.len() == claims_dotp_circuit.len())?;
+            ensure(claim_dotp_val.len() == claims_dotp_circuit.len())?;
             for i in 0..claim_dotp_row.len() {
                 transcript.append_message(b"claim_dotp_row", &to_bytes!(claim_dotp_row[i])?);
                 transcript.append_message(b"claim_dotp_col", &to_bytes!(claim_dotp_col[i])?);
@@ -795,7 +811,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
             }
         }
 
-        assert_eq!(claim_expected, claim_final);
+        ensure(claim_expected == claim_final)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_r_layer", &mut buf);
         let r_layer = random_bytes_to_fr::<G>(&buf);
@@ -834,13 +850,13 @@ pub fn sum_check_cubic_verify<G: Curve>(
     let mut claim_per_round = claim;
     let mut r = Vec::new();
 
-    assert_eq!(proof_poly.len(), num_rounds);
+    ensure(proof_poly.len() == num_rounds)?;
     for poly in proof_poly.iter() {
+        ensure(poly.coeffs.len() <= 4)?;
         transcript.append_message(b"comm_poly", &to_bytes!(poly.coeffs)?);
-        assert_eq!(
-            poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-            claim_per_round
-        );
+        ensure(
+            poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) == claim_per_round,
+        )?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_nextround", &mut buf);
         let r_j = random_bytes_to_fr::<G>(&buf);
@@ -866,7 +882,7 @@ pub fn hash_layer_verify<G: Curve>(
 ) -> Result<(), SynthesisError> {
     transcript.append_message(b"protocol-name", b"Sparse polynomial hash layer proof");
 
-    assert_eq!(claims_dotp.len(), 9);
+    ensure(claims_dotp.len() == 9)?;
     let (ops_rands, mem_rands) = rands;
     let (rx, ry) = r;
     // let (gamma1,gamma2) = gamma;
@@ -874,8 +890,8 @@ pub fn hash_layer_verify<G: Curve>(
     // let  (claims_col_init, claims_col_read_list, claims_col_write_list, claims_col_audit) = claims_col;
 
     let (eval_row_ops_val, eval_col_ops_val) = &proof.evals_derefs;
-    assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-    assert_eq!(eval_row_ops_val.len(), 3);
+    ensure(eval_row_ops_val.len() == eval_col_ops_val.len())?;
+    ensure(eval_row_ops_val.len() == 3)?;
     let mut evals = eval_row_ops_val.clone();
     evals.extend(eval_col_ops_val.clone());
     evals.resize(evals.len().next_power_of_two(), G::Fr::zero());
@@ -894,7 +910,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals, cs[i]);
     }
-    assert_eq!(evals.len(), 1);
+    ensure(evals.len() == 1)?;
     let claim_eval = evals[0];
     // let mut rs = cs;
     cs.extend(ops_rands);
@@ -916,19 +932,23 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_derefs,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let eval_val_list = &proof.evals_val;
-    assert_eq!(eval_val_list.len(), 3);
+    ensure(eval_val_list.len() == 3)?;
     for i in 0..3 {
-        assert_eq!(claims_dotp[i * 3], eval_row_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 1], eval_col_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 2], eval_val_list[i]);
+        ensure(claims_dotp[i * 3] == eval_row_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 1] == eval_col_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 2] == eval_val_list[i])?;
     }
 
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) =
         proof.evals_row.clone();
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
+    ensure(row_eval_addr_ops_list.len() == 3)?;
+    ensure(row_eval_read_ts_list.len() == 3)?;
+    ensure(col_eval_addr_ops_list.len() == 3)?;
+    ensure(col_eval_read_ts_list.len() == 3)?;
 
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
@@ -950,7 +970,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_ops.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_ops, cs_ops[i]);
     }
-    assert_eq!(evals_ops.len(), 1);
+    ensure(evals_ops.len() == 1)?;
     let claim_eval_ops = evals_ops[0];
     // let mut rs_ops = cs_ops;
     cs_ops.extend(ops_rands);
@@ -971,7 +991,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_ops,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let mut evals_mem = vec![row_eval_audit_ts_val, col_eval_audit_ts_val];
     transcript.append_message(b"claim_evals_mem", &to_bytes!(evals_mem)?);
     let mut cs_mem = (0..log2(evals_mem.len()))
@@ -985,7 +1005,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_mem.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_mem, cs_mem[i]);
     }
-    assert_eq!(evals_mem.len(), 1);
+    ensure(evals_mem.len() == 1)?;
     let claim_eval_mem = evals_mem[0];
     // let mut rs_mem = cs_mem;
     cs_mem.extend(mem_rands);
@@ -1008,7 +1028,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_mem,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) = &proof.evals_row;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1019,9 +1039,8 @@ pub fn hash_layer_verify<G: Curve>(
         row_eval_read_ts_list,
         row_eval_audit_ts_val,
         gamma,
-    )
-    .is_ok();
-    assert!(result);
+    )?;
+    ensure(result)?;
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) = &proof.evals_col;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1032,9 +1051,8 @@ pub fn hash_layer_verify<G: Curve>(
         col_eval_read_ts_list,
         col_eval_audit_ts_val,
         gamma,
-    )
-    .is_ok();
-    assert!(result);
+    )?;
+    ensure(result)?;
     Ok(())
 }
 
@@ -1065,14 +1083,14 @@ where
     let eval_init_val = eval_eq_x_y::<G>(&r, &rands_mem);
     let hash_init_at_rand_mem =
         eval_init_addr * &gamma1 * &gamma1 + &(eval_init_val * &gamma1) - &gamma2;
-    assert_eq!(claim_init, hash_init_at_rand_mem);
+    ensure(claim_init == hash_init_at_rand_mem)?;
 
     for i in 0..eval_addr_ops_list.len() {
         let hash_read_at_rand_ops = eval_addr_ops_list[i] * &gamma1 * &gamma1
             + &(eval_ops_val[i] * &gamma1)
             + &eval_read_ts_list[i]
             - &gamma2;
-        assert_eq!(claim_read_list[i], hash_read_at_rand_ops);
+        ensure(claim_read_list[i] == hash_read_at_rand_ops)?;
     }
 
     for i in 0..eval_addr_ops_list.len() {
@@ -1080,7 +1098,7 @@ where
             + &(eval_ops_val[i] * &gamma1)
             + &(eval_read_ts_list[i] + &G::Fr::one())
             - &gamma2;
-        assert_eq!(claim_write_list[i], hash_write_at_rand_ops);
+        ensure(claim_write_list[i] == hash_write_at_rand_ops)?;
     }
 
     let eval_audit_addr = eval_init_addr;
@@ -1088,7 +1106,7 @@ where
     let hash_audit_at_rand_mem =
         eval_audit_addr * &gamma1 * &gamma1 + &(eval_audit_val * &gamma1) + eval_audit_ts_val
             - &gamma2;
-    assert_eq!(cliam_audit, hash_audit_at_rand_mem);
+    ensure(cliam_audit == hash_audit_at_rand_mem)?;
 
     Ok(true)
 }
-- 
2.43.0


From 6681ebdd4257b66f323ff2baddad7f82fe2bb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 09/60] fix: spartan: hand synthesis errors of the prover to
 the caller instead of panicking

---
 spartan/src/prover.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..207ff42 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -125,8 +125,7 @@ where
         circuit,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
     let proof = NIZKProof::<G> {
         r1cs_satisfied_proof: r1cs_sat_proof,
         r: (rx, ry),
@@ -163,8 +162,7 @@ where
         circuit,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
 
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, &rx, &ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, &rx, &ry);
@@ -186,8 +184,7 @@ where
         encode,
         rng,
         &mut transcript,
-    )
-    .unwrap();
+    )?;
 
     let proof = SNARKProof::<G> {
         r1cs_satisfied_proof: r1cs_sat_proof,
-- 
2.43.0


From 1ffcabf5fc719a6a8757f85b9494a28f37796262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 10/60] fix: spartan: encode matrices with a single entry per
 matrix

The product circuits over one entry had no layer and the prover underflowed.
---
 spartan/src/spark.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index d267615..4a24687 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -35,7 +35,9 @@ pub fn encode<G: Curve, R: Rng>(
     assert_eq!(c_val.len(), c_row.len());
     assert_eq!(c_row.len(), c_col.len());
 
-    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two();
+    // at least two entries: the product circuits have at least one layer
+    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), cmp::max(c_row.len(), 2))
+        .next_power_of_two();
     a_row.resize(n, 0);
     b_row.resize(n, 0);
     c_row.resize(n, 0);
-- 
2.43.0


From 0a5d160bc0a654fb29e8029eeacfc77f043256d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 11/60] fix: spartan: do not ship the witness evaluation w(ry)
 in clear

The verifier only uses its commitment commit_ry; the plain value revealed a
linear combination of the witness and could be replaced freely.
---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 207ff42..40e0f3f 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -404,7 +404,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From e72bed5f04f3d53a6843348ab71838683404591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 12/60] fix: marlin: pad the public inputs to the domain they
 are interpolated over

Witness indices were mapped into the input domain when the number of inputs
(with the leading one) was not a power of two: honest proofs were rejected or
the prover panicked. Single-row or single-entry systems underflowed the degree
bounds.
---
 marlin/src/ahp/constraint_systems.rs | 50 +++++++++++++++++++---------
 marlin/src/ahp/indexer.rs            |  4 ++-
 marlin/src/ahp/prover.rs             |  7 +++-
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..a4c3203 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -11,22 +11,29 @@ fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     num_formatted_variables: usize,
 ) {
     let num_constraints = cs.num_constraints();
-    let num_paddings = ((num_formatted_variables as isize) - (num_constraints as isize)).abs();
-    if num_formatted_variables < num_constraints {
-        for i in 0..num_paddings {
-            cs.alloc(|| format!("pad varible {}", i), || Ok(F::one()))
-                .expect("alloc failed");
-        }
-    } else {
-        for i in 0..num_paddings {
-            use core::convert::identity;
-            cs.enforce(
-                || format!("pad constraint {}", i),
-                identity,
-                identity,
-                identity,
-            );
-        }
+    // The degree bounds of the sumcheck polynomials need at least two rows.
+    let size = num_constraints.max(num_formatted_variables).max(2);
+    for i in num_formatted_variables..size {
+        cs.alloc(|| format!("pad varible {}", i), || Ok(F::one()))
+            .expect("alloc failed");
+    }
+    for i in num_constraints..size {
+        use core::convert::identity;
+        cs.enforce(
+            || format!("pad constraint {}", i),
+            identity,
+            identity,
+            identity,
+        );
+    }
+}
+
+/// The public inputs (with the leading one) must fill the domain they are
+/// interpolated over, or witness indices would be mapped into that domain.
+fn pad_input_variables<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, num_input_variables: usize) {
+    for i in num_input_variables..num_input_variables.next_power_of_two() {
+        cs.alloc_input(|| format!("pad input {}", i), || Ok(F::zero()))
+            .expect("alloc failed");
     }
 }
 
@@ -128,6 +135,11 @@ impl<F: Field> IndexerConstraintSystem<F> {
         }
         Matrix(m)
     }
+
+    pub(crate) fn pad_inputs(&mut self) {
+        let num_input_variables = self.num_input_variables;
+        pad_input_variables(self, num_input_variables);
+    }
 }
 
 impl<F: Field> ConstraintSystem<F> for IndexerConstraintSystem<F> {
@@ -217,9 +229,15 @@ impl<F: Field> ProverConstraintSystem<F> {
         make_constraint_matrices_square(self, num_formatted_variables);
     }
 
+    pub(crate) fn pad_inputs(&mut self) {
+        let num_input_variables = self.num_input_variables;
+        pad_input_variables(self, num_input_variables);
+    }
+
     pub(crate) fn format_public_input(public_input: &[F]) -> Vec<F> {
         let mut input = vec![F::one()];
         input.extend_from_slice(public_input);
+        input.resize(input.len().next_power_of_two(), F::zero());
         input
     }
 }
diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index b87a28c..dac4b3c 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -71,13 +71,15 @@ impl<F: PrimeField> AHP<F> {
     pub fn index<'a, C: ConstraintSynthesizer<F>>(c: C) -> Result<Index<'a, F>, Error> {
         let mut ics = IndexerConstraintSystem::new();
         c.generate_constraints(&mut ics)?;
+        ics.pad_inputs();
         ics.make_matrices_square();
         ics.process_matrices();
 
         let num_inputs = ics.num_input_variables;
         let num_constraints = ics.num_constraints;
         let num_variables = ics.num_input_variables + ics.num_witness_variables;
-        let num_non_zeros = ics.num_non_zeros();
+        // The inner sumcheck needs a domain of at least two elements.
+        let num_non_zeros = ics.num_non_zeros().max(2);
 
         let domain_x =
             EvaluationDomain::new(num_inputs).ok_or(SynthesisError::PolynomialDegreeTooLarge)?;
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..9ada12f 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -20,6 +20,8 @@ use crate::pc::LabeledPolynomial;
 pub struct ProverState<'a, 'b, F: PrimeField> {
     index: &'a Index<'a, F>,
 
+    // without the padding, with the leading one
+    num_input_variables: usize,
     formatted_input_assignment: Vec<F>,
     witness_assignment: Vec<F>,
 
@@ -41,7 +43,7 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
 
 impl<'a, 'b, F: PrimeField> ProverState<'a, 'b, F> {
     pub fn public_input(&self) -> Vec<F> {
-        self.formatted_input_assignment[1..].to_vec()
+        self.formatted_input_assignment[1..self.num_input_variables].to_vec()
     }
 }
 
@@ -89,6 +91,8 @@ impl<F: PrimeField> AHP<F> {
     ) -> Result<ProverState<'a, 'b, F>, Error> {
         let mut pcs = ProverConstraintSystem::new();
         c.generate_constraints(&mut pcs)?;
+        let num_unpadded_inputs = pcs.num_input_variables;
+        pcs.pad_inputs();
         pcs.make_matrices_square();
 
         let ProverConstraintSystem {
@@ -131,6 +135,7 @@ impl<F: PrimeField> AHP<F> {
 
         Ok(ProverState {
             index,
+            num_input_variables: num_unpadded_inputs,
             formatted_input_assignment,
             witness_assignment,
             z_a: z_a,
-- 
2.43.0


From fd81a06da9956c3a7d42c12c9993caece8fe9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 13/60] fix: marlin: reject public input vectors of the wrong
 length

The verifying key did not know how many inputs the circuit has, so the verifier
interpolated whatever it was given.
---
 marlin/src/ahp/indexer.rs | 7 ++++++-
 marlin/src/ahp/prover.rs  | 3 ++-
 marlin/src/lib.rs         | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index dac4b3c..86122b0 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -14,6 +14,8 @@ pub struct IndexInfo {
     pub num_constraints: usize,
     pub num_variables: usize,
     pub num_non_zeros: usize,
+    /// number of public inputs, without the leading one and the padding
+    pub num_inputs: usize,
 }
 
 impl ToBytes for IndexInfo {
@@ -21,7 +23,8 @@ impl ToBytes for IndexInfo {
     fn write<W: io::Write>(&self, mut w: W) -> io::Result<()> {
         (self.num_variables as u64).write(&mut w)?;
         (self.num_constraints as u64).write(&mut w)?;
-        (self.num_non_zeros as u64).write(&mut w)
+        (self.num_non_zeros as u64).write(&mut w)?;
+        (self.num_inputs as u64).write(&mut w)
     }
 }
 
@@ -71,6 +74,7 @@ impl<F: PrimeField> AHP<F> {
     pub fn index<'a, C: ConstraintSynthesizer<F>>(c: C) -> Result<Index<'a, F>, Error> {
         let mut ics = IndexerConstraintSystem::new();
         c.generate_constraints(&mut ics)?;
+        let num_public_inputs = ics.num_input_variables - 1;
         ics.pad_inputs();
         ics.make_matrices_square();
         ics.process_matrices();
@@ -104,6 +108,7 @@ impl<F: PrimeField> AHP<F> {
             num_constraints,
             num_variables,
             num_non_zeros,
+            num_inputs: num_public_inputs,
         };
 
         Ok(Index {
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 9ada12f..57dc1e5 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -105,7 +105,8 @@ impl<F: PrimeField> AHP<F> {
         let num_input_variables = formatted_input_assignment.len();
         let num_witness_variables = witness_assignment.len();
         let num_non_zeros = index.index_info.num_non_zeros;
-        if index.index_info.num_constraints != num_constraints
+        if index.index_info.num_inputs != num_unpadded_inputs - 1
+            || index.index_info.num_constraints != num_constraints
             || index.index_info.num_constraints != num_input_variables + num_witness_variables
         {
             return Err(Error::InstanceDoesNotMatchIndex);
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..8a09705 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -186,6 +186,10 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    if public_input.len() != ivk.index_info.num_inputs {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
-- 
2.43.0


From 71e4f0141de18b4f03ba22aa9cdfd7ad51b905d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 14/60] fix: marlin: no integer underflow when balancing the
 matrices

---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index a4c3203..f4a98a0 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -113,8 +113,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From 077cafa152a686de3b24418fc63885b6a638daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 15/60] fix: marlin: commit to constant and zero polynomials

Small circuits have constant index or quotient polynomials; indexing and proving
failed with DegreeIsZero or an out-of-bounds index.
---
 marlin/src/ahp/prover.rs         | 4 ++--
 marlin/src/pc/data_structures.rs | 1 -
 marlin/src/pc/kzg10.rs           | 6 ++----
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 57dc1e5..1b9c510 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -311,7 +311,7 @@ impl<F: PrimeField> AHP<F> {
             });
         let q_1_poly = mask_poly + &r_alpha_evals.interpolate();
         let (h_1_poly, x_g_1_poly) = q_1_poly.divide_by_vanishing_poly(domain_h).unwrap();
-        let g_1_poly = DensePolynomial::from_coefficients_slice(&x_g_1_poly.coeffs[1..]);
+        let g_1_poly = DensePolynomial::from_coefficients_slice(x_g_1_poly.coeffs.get(1..).unwrap_or(&[]));
         let oracles = ProverSecondOracles {
             t: LabeledPolynomial::new_owned("t".to_string(), t_poly, None, None),
             h_1: LabeledPolynomial::new_owned("h_1".to_string(), h_1_poly, None, None),
@@ -381,7 +381,7 @@ impl<F: PrimeField> AHP<F> {
         }
 
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
-        let g_2_poly = DensePolynomial::from_coefficients_slice(&t_poly.coeffs[1..]);
+        let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
diff --git a/marlin/src/pc/data_structures.rs b/marlin/src/pc/data_structures.rs
index 1d22f75..6dc6273 100644
--- a/marlin/src/pc/data_structures.rs
+++ b/marlin/src/pc/data_structures.rs
@@ -12,7 +12,6 @@ use crate::{BTreeMap, BTreeSet, Cow, String, Vec};
 pub enum Error {
     MissingPolynomial { label: String },
     MissingEvaluation { label: String },
-    DegreeIsZero,
     DegreeOutOfBound,
     HidingBoundIsZero,
     HidingBoundTooLarge,
diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From 1447b6e43db405fc5daee65983cd2a7f55b597d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 16/60] fix: marlin: reject proofs of the wrong shape instead
 of panicking

---
 marlin/src/lib.rs                | 15 +++++++++++++++
 marlin/src/pc/data_structures.rs |  1 +
 marlin/src/pc/mod.rs             | 13 ++++++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index 8a09705..296a404 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -190,6 +190,18 @@ pub fn verify_proof<E: PairingEngine>(
         return Err(SynthesisError::MalformedVerifyingKey);
     }
 
+    // four, three and two oracles in the three rounds
+    let shape = [4, 3, 2];
+    if proof.commitments.len() != shape.len()
+        || proof
+            .commitments
+            .iter()
+            .zip(&shape)
+            .any(|(comms, n)| comms.len() != *n)
+    {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
@@ -205,6 +217,9 @@ pub fn verify_proof<E: PairingEngine>(
     let vstate = AHP::<E::Fr>::verifier_third_round(vstate, &mut fs_rng)?;
 
     let query_set = AHP::<E::Fr>::verifier_query_set(&vstate);
+    if proof.evaluations.len() != query_set.len() {
+        return Ok(false);
+    }
     fs_rng.absorb(&proof.evaluations);
     let opening_challenge: E::Fr = u128::rand(&mut fs_rng).into();
 
diff --git a/marlin/src/pc/data_structures.rs b/marlin/src/pc/data_structures.rs
index 6dc6273..0d517ac 100644
--- a/marlin/src/pc/data_structures.rs
+++ b/marlin/src/pc/data_structures.rs
@@ -17,6 +17,7 @@ pub enum Error {
     HidingBoundTooLarge,
     MissingRng,
     TrimmingDegreeTooLarge,
+    ShiftedCommitmentMismatch,
     Unclassified,
 }
 
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1e42d09..b9e85ad 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -174,7 +174,9 @@ impl<E: PairingEngine> PC<E> {
             let labels = point_to_labels_map.entry(point).or_insert(BTreeSet::new());
             labels.insert(label);
         }
-        assert_eq!(point_to_labels_map.len(), proofs.len());
+        if point_to_labels_map.len() != proofs.len() {
+            return Ok(false);
+        }
 
         let commitments: BTreeMap<_, _> = commitments.into_iter().map(|c| (c.label(), c)).collect();
 
@@ -215,7 +217,9 @@ impl<E: PairingEngine> PC<E> {
         for (labeled_commitment, value) in commitments.into_iter().zip(values) {
             let degree_bound = labeled_commitment.degree_bound();
             let commitment = labeled_commitment.commitment();
-            assert_eq!(degree_bound.is_some(), commitment.shifted_comm.is_some());
+            if degree_bound.is_some() != commitment.shifted_comm.is_some() {
+                return Err(Error::ShiftedCommitmentMismatch);
+            }
             combined_comm += &commitment.comm.0.mul(challenge);
             combined_value += &(value * &challenge);
 
@@ -227,7 +231,10 @@ impl<E: PairingEngine> PC<E> {
                     .unwrap()
                     .0
                     .into_projective();
-                let shifted_degree = vk.supported_degree - degree_bound;
+                let shifted_degree = vk
+                    .supported_degree
+                    .checked_sub(degree_bound)
+                    .ok_or(Error::DegreeOutOfBound)?;
 
                 let shift_value = point.pow([shifted_degree as u64]) * &value;
                 combined_comm += &shifted_comm.mul(shifted_challenge.into());
-- 
2.43.0


From 6bbc0b923c9092498eb1b1f56b40ad709de9a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 17/60] fix: plonk: derive the batch-opening randomizer from
 the transcript

check_combinations combines the openings at the two query points with
randomness taken from a generator with a constant seed, so anyone could choose
openings that only cancel in the combination and prove anything.
---
 plonk/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..3c781de 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -227,6 +227,10 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         let query_set = AHPForPLONK::verifier_query_set(&vs);
         fs_rng.absorb(&proof.evaluations);
         let epsilon = F::rand(&mut fs_rng);
+        // The openings are checked in one batch: what combines them must not be
+        // known before they are fixed.
+        let openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
+        fs_rng.absorb(&to_bytes![openings].unwrap());
 
         let evaluations = {
             let mut evaluation_labels: Vec<_> = query_set
@@ -282,7 +286,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
                 &proof.pc_proof,
                 epsilon,
-                &mut ark_std::test_rng(), // we now impl default rng (not use)
+                &mut fs_rng,
             )
             .map_err(Error::from_pc_err)?
         };
-- 
2.43.0


From 5c6533a76592053a689302b8fccb31766e7155c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 18/60] fix: plonk: reject proofs and public inputs of the
 wrong shape instead of panicking

Commitments could also be moved between rounds, so that they were chosen after
the challenges that must follow them.
---
 plonk/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 3c781de..f21f79b 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -19,9 +19,11 @@ use std::collections::HashMap as Map;
 
 use ark_ff::{to_bytes, FftField as Field};
 use ark_poly::univariate::DensePolynomial;
-use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
+use ark_poly_commit::{
+    Evaluations, LabeledCommitment, PCCommitment, PCUniversalParams, PolynomialCommitment,
+};
 
-use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
+use ark_std::{collections::BTreeSet, marker::PhantomData, string::ToString, vec, vec::Vec};
 use digest::Digest;
 use rand_core::RngCore;
 
@@ -208,6 +210,17 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // four, one and four oracles in the three rounds, none with a degree bound
+        let shape = [4, 1, 4];
+        if proof.commitments.len() != shape.len()
+            || proof.commitments.iter().zip(&shape).any(|(comms, n)| {
+                comms.len() != *n || comms.iter().any(|c| c.has_degree_bound())
+            })
+            || public_inputs.len() > vk.info.n
+        {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
@@ -231,6 +244,10 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         // known before they are fixed.
         let openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
         fs_rng.absorb(&to_bytes![openings].unwrap());
+        let points: BTreeSet<_> = query_set.iter().map(|(_, (_, point))| *point).collect();
+        if proof.evaluations.len() != query_set.len() || openings.len() != points.len() {
+            return Ok(false);
+        }
 
         let evaluations = {
             let mut evaluation_labels: Vec<_> = query_set
-- 
2.43.0


From 8f7e134200aa7e61fd29507a7a2fc2e3fa6e3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 19/60] verif hooks: dishonest-prover switch (cfg verif_hooks)
 in plonk

---
 plonk/src/ahp/indexer/permutation.rs | 12 +++++++++++-
 plonk/src/lib.rs                     | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/plonk/src/ahp/indexer/permutation.rs b/plonk/src/ahp/indexer/permutation.rs
index 982cde3..bb50a26 100644
--- a/plonk/src/ahp/indexer/permutation.rs
+++ b/plonk/src/ahp/indexer/permutation.rs
@@ -109,7 +109,17 @@ impl<F: Field> PermutationKey<F> {
             acc *= perms[i];
             z.push(acc);
         });
-        assert_eq!(z[n - 1] * perms[n - 1], F::one());
+        #[cfg(verif_hooks)]
+        if crate::verif_hooks::lie() == 2 {
+            z = ark_std::vec![F::zero(); n];
+        }
+        #[cfg(verif_hooks)]
+        let honest = crate::verif_hooks::lie() == 0;
+        #[cfg(not(verif_hooks))]
+        let honest = true;
+        if honest {
+            assert_eq!(z[n - 1] * perms[n - 1], F::one());
+        }
 
         let z_poly = Evaluations::from_vec_and_domain(z.clone(), domain_n).interpolate();
         let z_4n = domain_4n.coset_fft(&z_poly);
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index f21f79b..14eae8e 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -44,6 +44,22 @@ use crate::rng::FiatShamirRng;
 
 mod utils;
 
+/// Switch for the dishonest-prover experiments of the verification harness,
+/// compiled only with `--cfg verif_hooks`: 1 uses a grand product that does not
+/// close, 2 uses the zero polynomial as grand product.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    extern crate std;
+    use std::cell::Cell;
+    std::thread_local! { static LIE: Cell<usize> = Cell::new(0); }
+    pub fn set(lie: usize) {
+        LIE.with(|l| l.set(lie))
+    }
+    pub fn lie() -> usize {
+        LIE.with(|l| l.get())
+    }
+}
+
 pub struct Plonk<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> {
     _field: PhantomData<F>,
     _digest: PhantomData<D>,
-- 
2.43.0


From e60ecd2da9bb101ea8a3c7455abba5599516efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 20/60] fix: plonk: count opening points by name, they coincide
 for one-gate circuits

---
 plonk/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 14eae8e..536ce82 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -260,7 +260,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         // known before they are fixed.
         let openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
         fs_rng.absorb(&to_bytes![openings].unwrap());
-        let points: BTreeSet<_> = query_set.iter().map(|(_, (_, point))| *point).collect();
+        let points: BTreeSet<_> = query_set.iter().map(|(_, (name, _))| name).collect();
         if proof.evaluations.len() != query_set.len() || openings.len() != points.len() {
             return Ok(false);
         }
-- 
2.43.0


From 35110857a4b5837c1ebda5d601824af922e8eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 21/60] fix: asvc: reject openings with surplus, repeated,
 missing or out-of-range positions and values

---
 asvc/src/lib.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..b8b5273 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -50,6 +50,21 @@ pub struct VerificationKey<E: PairingEngine> {
     pub a: E::G1Affine,
 }
 
+impl<E: PairingEngine> VerificationKey<E> {
+    /// Number of positions of the committed vectors.
+    fn size(&self) -> usize {
+        self.powers_of_g1.len() - 1
+    }
+}
+
+/// The positions are pairwise different and less than `n`.
+fn distinct_positions(points: &[u32], n: usize) -> bool {
+    points
+        .iter()
+        .enumerate()
+        .all(|(i, p)| (*p as usize) < n && !points[..i].contains(p))
+}
+
 #[derive(Clone)]
 pub struct Parameters<E: PairingEngine> {
     pub proving_key: ProvingKey<E>,
@@ -235,6 +250,11 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // every position is opened once, to one value, and exists
+    if point_values.len() != points.len() || !distinct_positions(&points, vrk_params.size()) {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
@@ -293,7 +313,10 @@ pub fn verify_upk<E>(
 where
     E: PairingEngine,
 {
-    let n = vrk_params.powers_of_g1.len() - 1;
+    let n = vrk_params.size();
+    if point as usize >= n {
+        return Ok(false);
+    }
     // e(a_i, g^i/g^(w^i)) = e(a,g)
     // ω^i
     let omega_i = omega.pow(&[point as u64]);
-- 
2.43.0


From 3c3988eb557c61f1ee8eac98b9974f6ba31147d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 22/60] fix: asvc: update commitments and openings of vectors
 whose length is not a power of two

---
 asvc/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index b8b5273..69f550b 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -88,6 +88,12 @@ fn group_gen<E: PairingEngine>(domain: &GeneralEvaluationDomain<E::Fr>) -> E::Fr
     }
 }
 
+/// The keys are generated over a domain of power-of-two size, whatever the vector's length.
+fn domain_size<E: PairingEngine>(n: usize) -> Result<usize, SynthesisError> {
+    <GeneralEvaluationDomain<E::Fr> as EvaluationDomain<E::Fr>>::compute_size_of_domain(n)
+        .ok_or(SynthesisError::PolynomialDegreeTooLarge)
+}
+
 pub fn key_gen<E, R>(n: usize, rng: &mut R) -> Result<Parameters<E>, SynthesisError>
 where
     E: PairingEngine,
@@ -370,6 +376,7 @@ pub fn update_commit<E>(
 where
     E: PairingEngine,
 {
+    let n = domain_size::<E>(n)?;
     let a_aside_omega_i_divisor = omega
         .pow(&[point as u64])
         .div(&E::Fr::from_repr((n as u64).into()).unwrap());
@@ -398,6 +405,7 @@ pub fn update_proof<E>(
 where
     E: PairingEngine,
 {
+    let n = domain_size::<E>(n)?;
     let mut new_witness = proof.w.into_projective();
     // println!("[update_proof] start to update proof...i={}, j = {}", point_i, point_j);
     if point_i == point_j {
-- 
2.43.0


From 50e22abfe13cbaaee5fe63bd66c6b2d2a6268321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 23/60] fix: libra: pad each half of the input layer to its own
 missing length

---
 libra/src/circuit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..913afce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
-- 
2.43.0


From f2304009c791478dbc676a9db435646a3a1db969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 24/60] fix: hyrax: pad each half of the input layer to its own
 missing length

---
 hyrax/src/circuit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
-- 
2.43.0


From 1ae0c06f9b4cbca4a2e10c97ae62ba1c400c8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 25/60] fix: libra: prove circuits whose layers or witnesses do
 not fill a power of two, and single-gate layers

---
 libra/src/evaluate.rs            |  8 ++++++++
 libra/src/libra_linear_gkr.rs    | 16 +++++++++-------
 libra/src/libra_zk_linear_gkr.rs | 16 +++++++++-------
 libra/src/sumcheck.rs            |  8 ++++++--
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/libra/src/evaluate.rs b/libra/src/evaluate.rs
index 06b6133..12dd631 100644
--- a/libra/src/evaluate.rs
+++ b/libra/src/evaluate.rs
@@ -50,6 +50,14 @@ pub fn combine_with_r<G: Curve>(values: &Vec<G::Fr>, r: G::Fr) -> Vec<G::Fr> {
     new_values
 }
 
+// extend the values with zeros to the 2^bit_size entries of a multilinear polynomial
+pub(crate) fn pad_values<G: Curve>(values: &mut Vec<G::Fr>, bit_size: usize) {
+    let size = (2usize).pow(bit_size as u32);
+    if values.len() < size {
+        values.resize(size, G::Fr::zero());
+    }
+}
+
 // ~eq(x, rx)
 pub fn eval_eq<G: Curve>(rx: &Vec<G::Fr>) -> Vec<G::Fr> {
     let base: usize = 2;
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..1e12760 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -4,7 +4,9 @@ use merlin::Transcript;
 use zkp_curve::Curve;
 
 use crate::circuit::{Circuit, Gate};
-use crate::evaluate::{eval_eq, eval_fgu, eval_hg, eval_output, eval_value, random_bytes_to_fr};
+use crate::evaluate::{
+    eval_eq, eval_fgu, eval_hg, eval_output, eval_value, pad_values, random_bytes_to_fr,
+};
 use crate::polynomial_to_bytes;
 use crate::sumcheck::SumCheckProof;
 use crate::Vec;
@@ -28,12 +30,13 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let output = circuit_evals[circuit_evals.len() - 1].clone();
         transcript.append_message(b"input", &to_bytes!(circuit_evals[0]).unwrap());
-        transcript.append_message(
-            b"output",
-            &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
-        );
+        transcript.append_message(b"output", &to_bytes!(output).unwrap());
+        for (values, layer) in circuit_evals.iter_mut().zip(circuit.layers.iter()) {
+            pad_values::<G>(values, layer.bit_size);
+        }
 
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
@@ -109,7 +112,6 @@ impl<G: Curve> LinearGKRProof<G> {
             }
         }
         let proof = Self { proofs };
-        let output = circuit_evals[circuit_evals.len() - 1].clone();
         (proof, output)
     }
 
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..5599edf 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -7,7 +7,7 @@ use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
 use crate::circuit::Circuit;
 use crate::commitment::{EqProof, LogDotProductProof, ProductProof};
 use crate::evaluate::{
-    eval_output, eval_value, packing_poly_commit, poly_commit_vec, random_bytes_to_fr,
+    eval_output, eval_value, packing_poly_commit, pad_values, poly_commit_vec, random_bytes_to_fr,
 };
 use crate::libra_linear_gkr::{initialize_phase_one, initialize_phase_two};
 use crate::params::Parameters;
@@ -51,12 +51,15 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let output = circuit_evals[circuit_evals.len() - 1].clone();
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
-        transcript.append_message(
-            b"output",
-            &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
-        );
+        transcript.append_message(b"output", &to_bytes!(output).unwrap());
+        for (values, layer) in circuit_evals.iter_mut().zip(circuit.layers.iter()) {
+            pad_values::<G>(values, layer.bit_size);
+        }
+        let mut witnesses = witnesses.clone();
+        pad_values::<G>(&mut witnesses, circuit.layers[0].bit_size - 1);
 
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -264,7 +267,6 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             prod_proof1,
             eq_proof1,
         };
-        let output = circuit_evals[circuit_evals.len() - 1].clone();
         (proof, output)
     }
 
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..fef11fc 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -302,7 +302,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], ru)
+        // without any rounds the claim is the evaluation itself
+        let blind_eval = blind_evals.last().copied().unwrap_or(blind_claim);
+        (proof, poly_value_at_r, blind_eval, ru)
     }
 
     pub fn phase_two_prover<R: Rng>(
@@ -422,7 +424,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], rv)
+        // without any rounds the claim is the evaluation itself
+        let blind_eval = blind_evals.last().copied().unwrap_or(blind_claim);
+        (proof, poly_value_at_r, blind_eval, rv)
     }
 }
 
-- 
2.43.0


From b87589a4f8dda274f7cde76125f90e4e02bb9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 26/60] fix: libra: check the wiring predicates of each layer
 in the linear GKR verifier

---
 libra/src/libra_linear_gkr.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 1e12760..0b86107 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -124,11 +124,12 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, mut gu) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
         );
+        let mut gv = vec![G::Fr::zero(); gu.len()];
         let mut result_v = G::Fr::zero();
         let mut eval_ru_x = G::Fr::zero();
         let mut eval_rv_y = G::Fr::zero();
@@ -176,10 +177,20 @@ impl<G: Curve> LinearGKRProof<G> {
             }
             let eval_rv_final = proof2.poly_value_at_r.clone();
             transcript.append_message(b"claim_final", &to_bytes!(eval_rv_final).unwrap());
-            let claim_final = eval_rv_final[1] * &eval_rv_final[0] * &eval_ru_final[0]
-                + &(eval_rv_final[2] * &eval_ru_final[0])
-                + &(eval_rv_final[2] * &eval_rv_final[0]);
-            assert_eq!(claim, claim_final);
+            // the wiring predicates are the circuit's, not the prover's
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu, &gv, &ru_vec, &rv_vec, alpha, beta);
+            let claim_final = mult_gate_eval * &eval_rv_final[0] * &eval_ru_final[0]
+                + &(add_gate_eval * &eval_ru_final[0])
+                + &(add_gate_eval * &eval_rv_final[0]);
+            if claim != claim_final
+                || eval_rv_final[1] != mult_gate_eval
+                || eval_rv_final[2] != add_gate_eval
+            {
+                return false;
+            }
+            gu = ru_vec.clone();
+            gv = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From df7f1f2da6477558c17321fc47a315dbfdfb8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 27/60] fix: libra: reject proofs and statements of the wrong
 shape instead of panicking

---
 libra/src/commitment.rs          | 33 +++++++++++++-----
 libra/src/libra_linear_gkr.rs    | 38 +++++++++++++-------
 libra/src/libra_zk_linear_gkr.rs | 59 +++++++++++++++++++++++++++-----
 libra/src/sumcheck.rs            | 15 ++++++++
 4 files changed, 115 insertions(+), 30 deletions(-)

diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..024d3e3 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -176,6 +176,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -401,9 +404,15 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
         let gamma = comm_x + comm_y;
-        let (a_hat, g_hat, gamma_hat) =
-            self.bullet_reduce_proof
-                .verify(&params.gen_n.generators, gamma, a_vec, transcript);
+        let (a_hat, g_hat, gamma_hat) = match self.bullet_reduce_proof.verify(
+            &params.gen_n.generators,
+            gamma,
+            a_vec,
+            transcript,
+        ) {
+            Some(reduced) => reduced,
+            None => return false,
+        };
 
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
         transcript.append_message(b"beta", &to_bytes!(self.beta).unwrap());
@@ -575,10 +584,16 @@ impl<G: Curve> BulletReduceProof<G> {
         gamma: G::Affine,
         b_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
-    ) -> (G::Fr, G::Affine, G::Affine) {
-        let lg_n = self.l_vec.len();
-        let n = 1 << lg_n;
-        assert_eq!(lg_n, self.r_vec.len());
+    ) -> Option<(G::Fr, G::Affine, G::Affine)> {
+        let lg_n = log2(b_vec.len()) as usize;
+        let n = b_vec.len();
+        if !n.is_power_of_two()
+            || n > g_vec.len()
+            || lg_n != self.l_vec.len()
+            || lg_n != self.r_vec.len()
+        {
+            return None;
+        }
         let mut x_sq_vec = Vec::with_capacity(lg_n);
         let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
         let mut allinv = G::Fr::one();
@@ -589,7 +604,7 @@ impl<G: Curve> BulletReduceProof<G> {
             let mut buf_x = [0u8; 31];
             transcript.challenge_bytes(b"x", &mut buf_x);
             let x = random_bytes_to_fr::<G>(&buf_x);
-            let x_inv = x.inverse().unwrap();
+            let x_inv = x.inverse()?;
             x_sq_vec.push(x * &x);
             x_inv_sq_vec.push(x_inv * &x_inv);
             allinv = allinv * &x_inv;
@@ -613,7 +628,7 @@ impl<G: Curve> BulletReduceProof<G> {
         gamma_hat += &G::vartime_multiscalar_mul(&x_inv_sq_vec, &self.r_vec);
         gamma_hat += &G::vartime_multiscalar_mul(&[G::Fr::one()], &[gamma]);
 
-        (b_s, g_hat.into_affine(), gamma_hat.into_affine())
+        Some((b_s, g_hat.into_affine(), gamma_hat.into_affine()))
     }
 }
 
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 0b86107..50b1020 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -116,10 +116,12 @@ impl<G: Curve> LinearGKRProof<G> {
     }
 
     pub fn verify(&self, circuit: &Circuit, outputs: &Vec<G::Fr>, inputs: &Vec<G::Fr>, circuit_to_hash: G::Fr) -> bool {
+        if !self.has_shape(circuit, outputs, inputs) {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
-        
-        
+
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
@@ -135,7 +137,6 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut eval_rv_y = G::Fr::zero();
         let mut ru_vec = Vec::new();
         let mut rv_vec = Vec::new();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
@@ -145,10 +146,9 @@ impl<G: Curve> LinearGKRProof<G> {
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let poly = &proof1.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -161,13 +161,14 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_ru_final[0] * &eval_ru_final[1]
                 + &(eval_ru_final[0] * &eval_ru_final[2])
                 + &eval_ru_final[3];
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             for i in 0..bit_size {
                 let poly = &proof2.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -209,6 +210,19 @@ impl<G: Curve> LinearGKRProof<G> {
         let eval_rv_input = eval_value::<G>(&inputs, &rv_vec);
         (eval_ru_x == eval_ru_input) && (eval_rv_y == eval_rv_input)
     }
+
+    // whether the proof and the statement are of the circuit's dimensions
+    fn has_shape(&self, circuit: &Circuit, outputs: &Vec<G::Fr>, inputs: &Vec<G::Fr>) -> bool {
+        circuit.depth >= 2
+            && inputs.len() == circuit.layers[0].gates_count
+            && outputs.len() == circuit.layers[circuit.depth - 1].gates_count
+            && self.proofs.len() == circuit.depth - 1
+            && self.proofs.iter().enumerate().all(|(d, proof)| {
+                let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
+                proof.proof_phase_one.has_shape(bit_size, 4)
+                    && proof.proof_phase_two.has_shape(bit_size, 3)
+            })
+    }
 }
 
 pub fn initialize_phase_one<G: Curve>(
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index 5599edf..ca65290 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -279,6 +279,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         circuit_to_hash: G::Fr,
         params_to_hash: G::Fr,
     ) -> bool {
+        if !self.has_shape(params, circuit, outputs, inputs) {
+            return false;
+        }
         let mut transcript = Transcript::new(b"libra - zk linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
@@ -310,7 +313,6 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut rv_vec = Vec::new();
         let mut gu_vec = gu.clone();
         let mut gv_vec = gu.clone();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
         for (d, lproof) in self.proofs.iter().enumerate() {
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
@@ -335,7 +337,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 ru_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -359,7 +363,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 rv_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -372,7 +378,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 lproof.comm_z,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
@@ -385,7 +393,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 comm_claim,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             gu_vec = ru_vec.clone();
             gv_vec = rv_vec.clone();
@@ -418,7 +428,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &ru_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -437,7 +449,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
         let rs = self.prod_proof1.reduce_verifier(
             &params.pc_params,
             &rv_vec[1..].to_vec(),
@@ -445,7 +459,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &rv_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -464,8 +480,33 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
+
+    // whether the proof and the statement are of the circuit's dimensions
+    fn has_shape(
+        &self,
+        params: &Parameters<G>,
+        circuit: &Circuit,
+        outputs: &Vec<G::Fr>,
+        inputs: &Vec<G::Fr>,
+    ) -> bool {
+        let size = circuit.layers[0].bit_size - 1;
+        circuit.depth >= 2
+            && inputs.len() <= (2usize).pow(size as u32)
+            && outputs.len() == circuit.layers[circuit.depth - 1].gates_count
+            && params.pc_params.gen_n.generators.len() >= (2usize).pow((size - size / 2) as u32)
+            && self.comm_witness.len() == (2usize).pow((size / 2) as u32)
+            && self.proofs.len() == circuit.depth - 1
+            && self.proofs.iter().enumerate().all(|(d, proof)| {
+                let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
+                proof.proof_phase_one.has_shape(bit_size)
+                    && proof.proof_phase_two.has_shape(bit_size)
+                    && proof.prod_proof.z.len() == 5
+            })
+    }
 }
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index fef11fc..db1286b 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -18,6 +18,13 @@ pub struct SumCheckProof<G: Curve> {
 }
 
 impl<G: Curve> SumCheckProof<G> {
+    // one polynomial of degree at most two per round, and the final evaluations
+    pub(crate) fn has_shape(&self, bit_size: usize, values: usize) -> bool {
+        self.polys.len() == bit_size
+            && self.polys.iter().all(|poly| poly.coeffs.len() <= 3)
+            && self.poly_value_at_r.len() == values
+    }
+
     pub fn phase_one_prover(
         f_vec: &Vec<G::Fr>,
         g_vec: &(Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>),
@@ -183,6 +190,14 @@ pub struct ZKSumCheckProof<G: Curve> {
 }
 
 impl<G: Curve> ZKSumCheckProof<G> {
+    // one committed polynomial of three coefficients per round
+    pub(crate) fn has_shape(&self, bit_size: usize) -> bool {
+        self.comm_polys.len() == bit_size
+            && self.comm_evals.len() == bit_size
+            && self.proofs.len() == bit_size
+            && self.proofs.iter().all(|proof| proof.z.len() == 3)
+    }
+
     pub fn phase_one_prover<R: Rng>(
         params: &SumCheckCommitmentSetupParameters<G>,
         f_vec: &Vec<G::Fr>,
-- 
2.43.0


From 64dc0023e17b0ffa0c4be5ef957fb6093837f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 28/60] fix: libra, hyrax: dot product argument sums the
 products and absorbs its own commitments

---
 hyrax/src/commitment.rs | 8 ++++----
 libra/src/commitment.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..462194e 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -248,16 +248,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -310,7 +310,7 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index 024d3e3..b0fd654 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -249,16 +249,16 @@ impl<G: Curve> DotProductProof<G> {
 
         let delta =
             poly_commit_vec::<G>(&params.gen_n.generators, &d_vec, &params.gen_n.h, r_delta);
-        transcript.append_message(b"delta", &to_bytes!(comm_x).unwrap());
+        transcript.append_message(b"delta", &to_bytes!(delta).unwrap());
 
-        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).product();
+        let dotprod_a_d = (0..size).map(|i| a_vec[i] * &d_vec[i]).sum();
         let beta = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_a_d],
             &params.gen_1.h,
             r_beta,
         );
-        transcript.append_message(b"beta", &to_bytes!(comm_y).unwrap());
+        transcript.append_message(b"beta", &to_bytes!(beta).unwrap());
 
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"c", &mut buf);
@@ -311,7 +311,7 @@ impl<G: Curve> DotProductProof<G> {
         let rs2_lhs = comm_y.mul(c).into_affine() + self.beta;
         let dotprod_z_a = (0..a_vec.len())
             .map(|i| self.z_vec[i] * &a_vec[i])
-            .product();
+            .sum();
         let rs2_rhs = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &vec![dotprod_z_a],
-- 
2.43.0


From e6e5095c43ee1815be040ffbb6ed17cf86197941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 29/60] fix: hyrax: prove single instances, halves of unequal
 size, and layers of any number of gates

---
 hyrax/src/evaluate.rs          | 21 +++++++--------------
 hyrax/src/hyrax_proof.rs       | 15 +++++++--------
 hyrax/src/zk_sumcheck_proof.rs |  7 +++----
 3 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/hyrax/src/evaluate.rs b/hyrax/src/evaluate.rs
index 88ad5a0..ee00b7b 100644
--- a/hyrax/src/evaluate.rs
+++ b/hyrax/src/evaluate.rs
@@ -170,8 +170,10 @@ pub fn construct_matrix<G: Curve>(
     mm[0][0] = G::Fr::one().double();
     mm[0][1] = G::Fr::one();
     mm[0][2] = G::Fr::one();
-    mm[0][3] = G::Fr::one();
-    for i in 0..log_n - 1 {
+    if log_n > 0 {
+        mm[0][3] = G::Fr::one();
+    }
+    for i in 0..log_n {
         let mut r = G::Fr::one().neg();
         mm[i + 1][i * 4] = r;
         r *= &rs[i];
@@ -183,19 +185,10 @@ pub fn construct_matrix<G: Curve>(
         mm[i + 1][i * 4 + 4] = G::Fr::one().double();
         mm[i + 1][i * 4 + 5] = G::Fr::one();
         mm[i + 1][i * 4 + 6] = G::Fr::one();
-        mm[i + 1][i * 4 + 7] = G::Fr::one();
+        if i + 1 < log_n {
+            mm[i + 1][i * 4 + 7] = G::Fr::one();
+        }
     }
-    let mut r = G::Fr::one().neg();
-    mm[log_n][(log_n - 1) * 4] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 1] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 2] = r;
-    r *= &rs[log_n - 1];
-    mm[log_n][(log_n - 1) * 4 + 3] = r;
-    mm[log_n][(log_n - 1) * 4 + 4] = G::Fr::one().double();
-    mm[log_n][(log_n - 1) * 4 + 5] = G::Fr::one();
-    mm[log_n][(log_n - 1) * 4 + 6] = G::Fr::one();
     for i in 0..2 * log_g {
         let mut r = G::Fr::one().neg();
         mm[log_n + 1 + i][log_n * 4 + i * 3] = r;
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..cc04454 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -53,12 +53,12 @@ impl<G: Curve> HyraxProof<G> {
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
         //1. PC.Commit(pp, ~w)
+        // every instance fills its half of the input layer
+        let half_size = circuit.layers[0].gates_count / 2;
         let mut witness_vec = Vec::new();
         for i in 0..n {
-            let witness = witnesses[i].clone();
-            witness_vec.extend(witness);
-            let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(witnesses[i].clone());
+            witness_vec.extend(vec![G::Fr::zero(); half_size - witnesses[i].len()]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -282,12 +282,11 @@ impl<G: Curve> HyraxProof<G> {
             }
         }
 
+        let half_size = circuit.layers[0].gates_count / 2;
         let mut input_vec = Vec::new();
         for i in 0..n {
-            let input = inputs[i].clone();
-            input_vec.extend(input);
-            let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(inputs[i].clone());
+            input_vec.extend(vec![G::Fr::zero(); half_size - inputs[i].len()]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..e0f9864 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -87,13 +86,13 @@ impl<G: Curve> ZkSumcheckProof<G> {
             .map(|i| eq_ql_vec[i] * &u0 + &(eq_qr_vec[i] * &u1))
             .collect::<Vec<_>>();
         let mut temp_vec = Vec::new();
-        for i in 0..xg_q.len() {
+        // the values beyond the last gate are zero
+        for i in 0..gates.len() {
             let temp_p_vec = (0..eq_vec.len())
                 .map(|t| eq_vec[t] * &xg_q[i])
                 .collect::<Vec<_>>();
             temp_vec.push(temp_p_vec);
         }
-        assert_eq!(temp_vec.len(), gates.len());
 
         // sumcheck #1
         let mut rs = Vec::new();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From 5b65f15f9d3fca9f2e366fca7a4ba8fb96db14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 30/60] fix: hyrax: check that each layer proves the claim of
 the layer before it

---
 hyrax/src/hyrax_proof.rs       | 9 ++++++---
 hyrax/src/zk_sumcheck_proof.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index cc04454..65b8a44 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -252,8 +252,8 @@ impl<G: Curve> HyraxProof<G> {
         for d in 0..circuit.depth - 1 {
             let next_gate_num = circuit.layers[circuit.depth - d - 2].gates_count;
             let ng = next_gate_num.next_power_of_two();
-            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) = self.proofs[d]
-                .verify(
+            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) =
+                match self.proofs[d].verify(
                     &params.sc_params,
                     comm_a,
                     (u0, u1),
@@ -262,7 +262,10 @@ impl<G: Curve> HyraxProof<G> {
                     n,
                     ng,
                     &mut transcript,
-                );
+                ) {
+                    Some(layer) => layer,
+                    None => return false,
+                };
 
             comm_x = comm_x_tmp;
             comm_y = comm_y_tmp;
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index e0f9864..0709e87 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -628,7 +628,11 @@ impl<G: Curve> ZkSumcheckProof<G> {
         n: usize,
         ng: usize,
         transcript: &mut Transcript,
-    ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+    ) -> Option<(G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>)> {
+        // the layer proves the claim that the previous layer left
+        if self.comm_a0 != comm_claim {
+            return None;
+        }
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
@@ -662,7 +666,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let result = self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
         assert!(result);
 
-        (self.comm_x, self.comm_y, rs, r0, r1)
+        Some((self.comm_x, self.comm_y, rs, r0, r1))
     }
 
     pub fn sumcheck_verify(
-- 
2.43.0


From 20d2b75a99c5007e850642d1381027aec7de34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 31/60] fix: hyrax: reject proofs and statements of the wrong
 shape instead of panicking

---
 hyrax/src/commitment.rs        | 33 +++++++++++++++------
 hyrax/src/hyrax_proof.rs       | 52 ++++++++++++++++++++++++++++++----
 hyrax/src/zk_sumcheck_proof.rs | 19 +++++++++++--
 3 files changed, 87 insertions(+), 17 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 462194e..de55eb3 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -177,6 +177,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -403,9 +406,15 @@ impl<G: Curve> LogDotProductProof<G> {
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
 
         let gamma = comm_x + comm_y;
-        let (a_hat, g_hat, gamma_hat) =
-            self.bullet_reduce_proof
-                .verify(&params.gen_n.generators, gamma, a_vec, transcript);
+        let (a_hat, g_hat, gamma_hat) = match self.bullet_reduce_proof.verify(
+            &params.gen_n.generators,
+            gamma,
+            a_vec,
+            transcript,
+        ) {
+            Some(reduced) => reduced,
+            None => return false,
+        };
 
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
         transcript.append_message(b"beta", &to_bytes!(self.beta).unwrap());
@@ -583,10 +592,16 @@ impl<G: Curve> BulletReduceProof<G> {
         gamma: G::Affine,
         b_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
-    ) -> (G::Fr, G::Affine, G::Affine) {
-        let lg_n = self.l_vec.len();
-        let n = 1 << lg_n;
-        assert_eq!(lg_n, self.r_vec.len());
+    ) -> Option<(G::Fr, G::Affine, G::Affine)> {
+        let lg_n = log2(b_vec.len()) as usize;
+        let n = b_vec.len();
+        if !n.is_power_of_two()
+            || n > g_vec.len()
+            || lg_n != self.l_vec.len()
+            || lg_n != self.r_vec.len()
+        {
+            return None;
+        }
         let mut x_sq_vec = Vec::with_capacity(lg_n);
         let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
         let mut allinv = G::Fr::one();
@@ -597,7 +612,7 @@ impl<G: Curve> BulletReduceProof<G> {
             let mut buf_x = [0u8; 31];
             transcript.challenge_bytes(b"x", &mut buf_x);
             let x = random_bytes_to_fr::<G>(&buf_x);
-            let x_inv = x.inverse().unwrap();
+            let x_inv = x.inverse()?;
             x_sq_vec.push(x * &x);
             x_inv_sq_vec.push(x_inv * &x_inv);
             allinv = allinv * &x_inv;
@@ -620,7 +635,7 @@ impl<G: Curve> BulletReduceProof<G> {
         let mut gamma_hat = G::vartime_multiscalar_mul(&x_sq_vec, &self.l_vec);
         gamma_hat += &G::vartime_multiscalar_mul(&x_inv_sq_vec, &self.r_vec);
         gamma_hat += &G::vartime_multiscalar_mul(&[G::Fr::one()], &[gamma]);
-        (b_s, g_hat.into_affine(), gamma_hat.into_affine())
+        Some((b_s, g_hat.into_affine(), gamma_hat.into_affine()))
     }
 }
 
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 65b8a44..50bbbc6 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -1,5 +1,6 @@
 use ark_ff::{to_bytes, One, UniformRand, Zero};
 use ark_serialize::*;
+use ark_std::log2;
 use merlin::Transcript;
 use rand::Rng;
 use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
@@ -220,13 +221,14 @@ impl<G: Curve> HyraxProof<G> {
         circuit_to_hash: G::Fr,
         param_to_hash: G::Fr,
     ) -> bool {
+        if !self.has_shape(params, outputs, inputs, circuit) {
+            return false;
+        }
         let mut transcript = Transcript::new(b"hyrax - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"param_to_hash", &to_bytes!(param_to_hash).unwrap());   
 
         let n = outputs.len();
-        assert_eq!(n.next_power_of_two(), n);
-        assert!(n > 0);
 
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
@@ -301,7 +303,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rl_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -320,7 +324,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         let mut rr_q_vec = q_aside_vec.clone();
         rr_q_vec.extend(qr_vec[1..qr_vec.len()].to_vec());
@@ -331,7 +337,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rr_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -350,8 +358,40 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
+
+    // whether the proof and the statement are of the circuit's dimensions
+    fn has_shape(
+        &self,
+        params: &Parameters<G>,
+        outputs: &Vec<Vec<G::Fr>>,
+        inputs: &Vec<Vec<G::Fr>>,
+        circuit: &Circuit,
+    ) -> bool {
+        let n = outputs.len();
+        if !n.is_power_of_two() || circuit.depth < 2 {
+            return false;
+        }
+        let half_size = circuit.layers[0].gates_count / 2;
+        let size = log2(n) as usize + circuit.layers[0].bit_size - 1;
+        inputs.len() == n
+            && inputs.iter().all(|input| input.len() <= half_size)
+            && outputs
+                .iter()
+                .all(|output| output.len() == circuit.layers[circuit.depth - 1].gates_count)
+            && params.pc_params.gen_n.generators.len() >= (2usize).pow((size - size / 2) as u32)
+            && self.comm_witness.len() == (2usize).pow((size / 2) as u32)
+            && self.proofs.len() == circuit.depth - 1
+            && self.proofs.iter().enumerate().all(|(d, proof)| {
+                proof.has_shape(
+                    log2(n) as usize,
+                    circuit.layers[circuit.depth - d - 2].bit_size,
+                )
+            })
+    }
 }
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 0709e87..a9a5fd9 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -664,11 +664,24 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
 
         let result = self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
-        assert!(result);
+        if !result {
+            return None;
+        }
 
         Some((self.comm_x, self.comm_y, rs, r0, r1))
     }
 
+    // one committed polynomial per round: of degree three over the instances, two over the gates
+    pub(crate) fn has_shape(&self, log_n: usize, log_g: usize) -> bool {
+        let rounds = log_n + 2 * log_g;
+        self.comm_polys.len() == rounds
+            && self.comm_evals.len() == rounds
+            && self.comm_deltas.len() == rounds
+            && self.z_delta_vec.len() == rounds
+            && self.z_vec.len() == 4 * log_n + 6 * log_g
+            && self.prod_proof.z.len() == 5
+    }
+
     pub fn sumcheck_verify(
         &self,
         params: &SumCheckCommitmentSetupParameters<G>,
@@ -684,7 +697,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
             self.comm_z,
             transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         for i in 0..self.comm_deltas.len() {
             transcript.append_message(b"comm_delta", &to_bytes!(self.comm_deltas[i]).unwrap());
-- 
2.43.0


From f568933d426f0b74c95a1d4ce4de4953f4b491c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 32/60] fix: curve25519: constants for square roots and roots
 of unity belong to the scalar field's modulus

---
 curve25519/src/fr.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/curve25519/src/fr.rs b/curve25519/src/fr.rs
index 7d47627..b7dff22 100644
--- a/curve25519/src/fr.rs
+++ b/curve25519/src/fr.rs
@@ -17,10 +17,10 @@ impl FftParameters for FrParameters {
 
     #[rustfmt::skip]
     const TWO_ADIC_ROOT_OF_UNITY: BigInteger = BigInteger([
-        0x0,
-        0x0,
-        0x0,
-        0x0,
+        8969215743819189885u64,
+        5516037659391044808u64,
+        15508184678381615533u64,
+        385507852950656554u64,
     ]);
 }
 
@@ -62,38 +62,38 @@ impl FpParameters for FrParameters {
     /// INV = -(q^{-1} mod 2^64) mod 2^64
     const INV: u64 = 15183074304973897243u64;
 
-    /// GENERATOR = 9
+    /// GENERATOR = 2
     const GENERATOR: BigInteger = BigInteger([
-        14824341744311508637u64,
-        6301218275840713796u64,
-        18446744073709551604u64,
+        6180627327055779405u64,
+        8718896354912633355u64,
+        18446744073709551613u64,
         1152921504606846975u64,
     ]);
 
     /// (Self::MODULUS - 1) / 2
     #[rustfmt::skip]
     const MODULUS_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        13876462170967809896,
-        12031312481604134578,
-        0,
-        0
+        3173121894899182070u64,
+        751957030100258411u64,
+        0u64,
+        576460752303423488u64,
     ]);
 
     /// t for 2^s * t = MODULUS - 1
     #[rustfmt::skip]
     const T: BigInteger = BigInteger([
-        6938231085483904948,
-        6015656240802067289,
-        0,
-        0
+        10809932984304366843u64,
+        375978515050129205u64,
+        0u64,
+        288230376151711744u64,
     ]);
 
     /// (t - 1) / 2
     #[rustfmt::skip]
     const T_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        2367949182742163228,
-        18046968722406201868,
-        0,
-        0
+        14628338529006959229u64,
+        187989257525064602u64,
+        0u64,
+        144115188075855872u64,
     ]);
 }
-- 
2.43.0


From fa23a4ef770243f3db31f187e24638cd9ceb8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 33/60] fix: curve25519: serialize a point as the 32 bytes that
 deserialization reads

---
 curve25519/src/group.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..1e4ff62 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -292,8 +292,9 @@ impl Zeroize for Curve25519Point {
 
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
-    fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        // the point alone, without the length that a slice of bytes is serialized with
+        Ok(self.write(&mut writer)?)
     }
 
     #[inline]
@@ -302,8 +303,8 @@ impl CanonicalSerialize for Curve25519Point {
     }
 
     #[inline]
-    fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize_uncompressed<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        Ok(self.write(&mut writer)?)
     }
 
     #[inline]
-- 
2.43.0


From 3ecf337c1771f7df4b0bf29daae382e5f6f4ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 34/60] fix: curve25519: complete the group operations that
 panicked, scalar products by any integer

---
 curve25519/src/group.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 1e4ff62..6ee122d 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -1,4 +1,4 @@
-use ark_ff::{FromBytes, PrimeField, ToBytes, Zero};
+use ark_ff::{Field, FromBytes, PrimeField, ToBytes, Zero};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
 use ark_std::io;
 use curve25519_dalek::ristretto::CompressedRistretto;
@@ -73,9 +73,7 @@ impl AffineCurve for Curve25519Point {
         &self,
         other: S,
     ) -> Self::Projective {
-        let mut p = self.clone();
-        p *= Fr::from_repr(other.into()).unwrap();
-        p
+        ProjectiveCurve::mul(*self, other.into())
     }
 
     fn mul_by_cofactor(&self) -> Self {
@@ -85,12 +83,13 @@ impl AffineCurve for Curve25519Point {
     }
 
     fn mul_by_cofactor_inv(&self) -> Self {
-        //self *= (Fr::from(8u32).inverse().unwrap())
-        panic!("Curve mul_by_cofactor_inv");
+        let mut p = self.clone();
+        p *= Fr::from(8u32).inverse().unwrap();
+        p
     }
 
     fn mul_by_cofactor_to_projective(&self) -> Self::Projective {
-        panic!("Curve mul_by_cofactor_to_projective");
+        self.mul_by_cofactor()
     }
 }
 
@@ -102,12 +101,11 @@ impl ProjectiveCurve for Curve25519Point {
     const COFACTOR: &'static [u64] = &[0, 0, 0, 0];
 
     fn prime_subgroup_generator() -> Self {
-        panic!("Curve prime_subgroup_generator");
+        <Self as AffineCurve>::prime_subgroup_generator()
     }
 
-    fn batch_normalization(_v: &mut [Self]) {
-        panic!("Curve batch normalization");
-    }
+    // a point has no other representation to be normalized to
+    fn batch_normalization(_v: &mut [Self]) {}
 
     fn batch_normalization_into_affine(v: &[Self]) -> crate::Vec<Self::Affine> {
         let mut v = v.to_vec();
@@ -116,7 +114,7 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn is_normalized(&self) -> bool {
-        panic!("Curve is_normalized");
+        true
     }
 
     fn double(&self) -> Self {
@@ -126,7 +124,8 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn double_in_place(&mut self) -> &mut Self {
-        panic!("Curve double_in_place");
+        self.0 += self.0;
+        self
     }
 
     fn into_affine(&self) -> Self::Affine {
@@ -143,14 +142,10 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn mul<S: AsRef<[u64]>>(mut self, other: S) -> Self {
-        assert_eq!(other.as_ref().len(), 4);
-        let mut vec = Vec::new();
-        for i in other.as_ref().iter() {
-            let _ = i.serialize(&mut vec);
-        }
-        let mut bytes = [0u8; 32];
-        bytes.copy_from_slice(&vec[..]);
-        self.0 *= Scalar::from_canonical_bytes(bytes).unwrap();
+        let base = Scalar::from(u64::MAX) + Scalar::one();
+        let scalar = (other.as_ref().iter().rev())
+            .fold(Scalar::zero(), |acc, limb| acc * base + Scalar::from(*limb));
+        self.0 *= scalar;
         self
     }
 }
-- 
2.43.0


From cc8d7856742831489aade4fc4f0a758061edcd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 35/60] verif hooks: dishonest-prover switches (cfg
 verif_hooks) in libra

---
 libra/src/lib.rs                 | 67 ++++++++++++++++++++++++++++++++
 libra/src/libra_linear_gkr.rs    |  6 ++-
 libra/src/libra_zk_linear_gkr.rs | 49 +++++++++++++++++++++++
 libra/src/sumcheck.rs            | 56 ++++++++++++++++++++++++++
 4 files changed, 177 insertions(+), 1 deletion(-)

diff --git a/libra/src/lib.rs b/libra/src/lib.rs
index a50a70f..09a392d 100644
--- a/libra/src/lib.rs
+++ b/libra/src/lib.rs
@@ -35,3 +35,70 @@ pub(crate) fn polynomial_to_bytes<G: Curve>(p: &DensePolynomial<G::Fr>) -> Vec<u
     p.serialize(&mut bytes).unwrap();
     bytes
 }
+
+/// Lies of the provers for the verification harness (`--cfg verif_hooks`). The parameter
+/// of a lie holds the layer (low 4 bits), gate (4 bits), phase (1 bit) and round where it is told.
+#[cfg(verif_hooks)]
+pub(crate) mod verif_hooks {
+    use crate::circuit::Circuit;
+    use crate::Vec;
+    use ark_ff::{Field, One};
+    use zkp_curve::{verif_hooks::lie, Curve};
+
+    const LABELS: [&str; 8] = [
+        "libra.layer",
+        "libra.x",
+        "libra.y",
+        "libra.z",
+        "libra.round",
+        "libra.eval",
+        "libra.open0",
+        "libra.open1",
+    ];
+
+    /// one value is not what its gate (or the public input) says, all above follow from it
+    pub(crate) fn values<G: Curve>(circuit: &Circuit, evals: &mut Vec<Vec<G::Fr>>) {
+        let p = match LABELS.iter().filter_map(|l| lie(l)).next() {
+            Some(p) => p,
+            None => return,
+        };
+        let d = (p & 15) % circuit.depth;
+        let base = if d == 0 { evals[0].len() / 2 } else { 0 };
+        let at = base + (p >> 4 & 15) % (evals[d].len() - base);
+        evals[d][at] += &G::Fr::one();
+        for k in d + 1..circuit.depth {
+            for (i, gate) in circuit.layers[k].gates.iter().enumerate() {
+                let (l, r) = (evals[k - 1][gate.left_node], evals[k - 1][gate.right_node]);
+                evals[k][i] = if gate.op == 0 { l + &r } else { l * &r };
+            }
+        }
+    }
+
+    /// the values after phase one are to satisfy the claim
+    pub(crate) fn phase_one<G: Curve>(claim: G::Fr, v: &mut Vec<G::Fr>) {
+        if lie("libra.x").or(lie("libra.open0")).is_some() {
+            if let Some(i) = (v[1] + &v[2]).inverse() {
+                v[0] = (claim - &v[3]) * &i;
+            }
+        } else if LABELS.iter().any(|l| lie(l).is_some()) {
+            v[3] = claim - &(v[0] * &(v[1] + &v[2]));
+        }
+    }
+
+    /// the value after phase two is to satisfy the claim
+    pub(crate) fn phase_two<G: Curve>(claim: G::Fr, fu: G::Fr, v: &mut Vec<G::Fr>) {
+        if lie("libra.y").or(lie("libra.open1")).is_some() {
+            if let Some(i) = (v[1] * &fu + &v[2]).inverse() {
+                v[0] = (claim - &(v[2] * &fu)) * &i;
+            }
+        }
+    }
+
+    /// whether this round tells the truth about a false claim
+    pub(crate) fn round(label: &str, phase: usize, round: usize, rounds: usize) -> bool {
+        match lie(label) {
+            Some(p) => (p >> 8 & 1) == phase && (p >> 9) % rounds == round,
+            None => false,
+        }
+    }
+}
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 50b1020..1901941 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -31,8 +31,10 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
         let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
-        let output = circuit_evals[circuit_evals.len() - 1].clone();
         transcript.append_message(b"input", &to_bytes!(circuit_evals[0]).unwrap());
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::values::<G>(circuit, &mut circuit_evals);
+        let output = circuit_evals[circuit_evals.len() - 1].clone();
         transcript.append_message(b"output", &to_bytes!(output).unwrap());
         for (values, layer) in circuit_evals.iter_mut().zip(circuit.layers.iter()) {
             pad_values::<G>(values, layer.bit_size);
@@ -84,6 +86,8 @@ impl<G: Curve> LinearGKRProof<G> {
                 alpha,
                 beta,
             );
+            #[cfg(verif_hooks)]
+            let fu = eval_ru[0];
             let (proof_phase_two, rv) = SumCheckProof::phase_two_prover(
                 &circuit_evals[d - 1],
                 &(mul_hg_vec, add_hg_vec, fu),
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index ca65290..926b1c2 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -1,3 +1,5 @@
+#[cfg(verif_hooks)]
+use ark_ff::Field;
 use ark_ff::{to_bytes, One, UniformRand, Zero};
 use ark_serialize::*;
 use merlin::Transcript;
@@ -52,6 +54,8 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
         
         let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::values::<G>(circuit, &mut circuit_evals);
         let output = circuit_evals[circuit_evals.len() - 1].clone();
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(b"output", &to_bytes!(output).unwrap());
@@ -132,6 +136,8 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 alpha,
                 beta,
             );
+            #[cfg(verif_hooks)]
+            let fu = eval_ru[0];
             let (proof_phase_two, eval_rv, blind_v, rv) = ZKSumCheckProof::phase_two_prover::<R>(
                 &params.sc_params,
                 &circuit_evals[d - 1],
@@ -152,6 +158,13 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             transcript.append_message(b"comm_y", &to_bytes!(comm_y).unwrap());
 
             let z = eval_ru[0] * &eval_rv[0];
+            #[cfg(verif_hooks)]
+            let z = match (zkp_curve::verif_hooks::lie("libra.z"), eval_rv[1].inverse()) {
+                (Some(_), Some(i)) => {
+                    (eval_rv[4] - &((eval_ru[0] + &eval_rv[0]) * &eval_rv[2])) * &i
+                }
+                _ => z,
+            };
             let rz = G::Fr::rand(rng);
             let (prod_proof, _, _, comm_z) = ProductProof::prover::<R>(
                 &params.sc_params.gen_1,
@@ -171,7 +184,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 &params.sc_params.gen_1,
                 eval,
                 eval_blind,
+                #[cfg(not(verif_hooks))]
                 eval,
+                #[cfg(verif_hooks)]
+                eval_rv[4],
                 blind_v,
                 rng,
                 &mut transcript,
@@ -209,8 +225,23 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             proofs.push(proof);
         }
 
+        #[cfg(verif_hooks)]
+        let (claimed_x, claimed_y) = (final_x, final_y);
+
         let blind_eval0 = G::Fr::rand(rng);
         let eval_w_rx = eval_value::<G>(&witnesses, &gu[1..].to_vec());
+        #[cfg(verif_hooks)]
+        let final_x = gu[0] * &eval_value::<G>(inputs, &gu[1..].to_vec());
+        #[cfg(verif_hooks)]
+        let eval_w_rx = match (
+            zkp_curve::verif_hooks::lie("libra.open0"),
+            (G::Fr::one() - &gu[0]).inverse(),
+        ) {
+            (Some(_), Some(i)) => (claimed_x - &final_x) * &i,
+            _ => eval_w_rx,
+        };
+        #[cfg(verif_hooks)]
+        let final_x = final_x + &((G::Fr::one() - &gu[0]) * &eval_w_rx);
         let (prod_proof0, comm_y0) = LogDotProductProof::reduce_prover::<R>(
             &params.pc_params,
             &witnesses,
@@ -225,7 +256,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
 
         let eq_proof0 = EqProof::prover(
             &params.pc_params.gen_1,
+            #[cfg(not(verif_hooks))]
             final_x,
+            #[cfg(verif_hooks)]
+            claimed_x,
             final_blind_x,
             final_x,
             eval_at_zy_blind0,
@@ -235,6 +269,18 @@ impl<G: Curve> ZKLinearGKRProof<G> {
 
         let blind_eval1 = G::Fr::rand(rng);
         let eval_w_ry = eval_value::<G>(&witnesses, &gv[1..].to_vec());
+        #[cfg(verif_hooks)]
+        let final_y = gv[0] * &eval_value::<G>(inputs, &gv[1..].to_vec());
+        #[cfg(verif_hooks)]
+        let eval_w_ry = match (
+            zkp_curve::verif_hooks::lie("libra.open1"),
+            (G::Fr::one() - &gv[0]).inverse(),
+        ) {
+            (Some(_), Some(i)) => (claimed_y - &final_y) * &i,
+            _ => eval_w_ry,
+        };
+        #[cfg(verif_hooks)]
+        let final_y = final_y + &((G::Fr::one() - &gv[0]) * &eval_w_ry);
         let (prod_proof1, comm_y1) = LogDotProductProof::reduce_prover::<R>(
             &params.pc_params,
             &witnesses,
@@ -249,7 +295,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
 
         let eq_proof1 = EqProof::prover(
             &params.pc_params.gen_1,
+            #[cfg(not(verif_hooks))]
             final_y,
+            #[cfg(verif_hooks)]
+            claimed_y,
             final_blind_y,
             final_y,
             eval_at_zy_blind1,
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index db1286b..fd2a5b3 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -1,6 +1,8 @@
 use ark_ff::{to_bytes, Field, One, UniformRand, Zero};
 use ark_poly::{polynomial::univariate::DensePolynomial, Polynomial, UVPolynomial};
 use ark_serialize::*;
+#[cfg(verif_hooks)]
+use ark_std::log2;
 use core::ops::{Add, Deref};
 use merlin::Transcript;
 use rand::Rng;
@@ -54,6 +56,12 @@ impl<G: Curve> SumCheckProof<G> {
                 })
                 .sum();
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round("libra.round", 0, bit_size - 1 - log2(size) as usize, bit_size) {
+                (size..2 * size).map(|j| f_vec[j] * &mul_hg_vec[j] + &(f_vec[j] * &add_hg_vec1[j]) + &add_hg_vec2[j]).sum()
+            } else {
+                eval_1
+            };
 
             let f_vec_tmp = combine_with_r::<G>(&f_vec, fr_two);
             let mul_hg_vec_tmp = combine_with_r::<G>(&mul_hg_vec, fr_two);
@@ -94,6 +102,10 @@ impl<G: Curve> SumCheckProof<G> {
         }
 
         let poly_value_at_r = vec![f_vec[0], mul_hg_vec[0], add_hg_vec1[0], add_hg_vec2[0]];
+        #[cfg(verif_hooks)]
+        let mut poly_value_at_r = poly_value_at_r;
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::phase_one::<G>(claim, &mut poly_value_at_r);
         transcript.append_message(b"claim_final", &to_bytes!(poly_value_at_r).unwrap());
 
         let proof = Self {
@@ -132,6 +144,12 @@ impl<G: Curve> SumCheckProof<G> {
                 })
                 .sum();
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round("libra.round", 1, bit_size - 1 - log2(size) as usize, bit_size) {
+                (size..2 * size).map(|j| (mul_hg_vec[j] * &f_vec[j] + &add_hg_vec[j]) * &fu + &(add_hg_vec[j] * &f_vec[j])).sum()
+            } else {
+                eval_1
+            };
 
             let f_vec_tmp = combine_with_r::<G>(&f_vec, fr_two);
             let mul_hg_vec_tmp = combine_with_r::<G>(&mul_hg_vec, fr_two);
@@ -169,6 +187,10 @@ impl<G: Curve> SumCheckProof<G> {
         }
 
         let poly_value_at_r = vec![f_vec[0], mul_hg_vec[0], add_hg_vec[0]];
+        #[cfg(verif_hooks)]
+        let mut poly_value_at_r = poly_value_at_r;
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::phase_two::<G>(claim, fu, &mut poly_value_at_r);
         transcript.append_message(b"claim_final", &to_bytes!(poly_value_at_r).unwrap());
 
         let proof = Self {
@@ -243,6 +265,12 @@ impl<G: Curve> ZKSumCheckProof<G> {
                 })
                 .sum();
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round("libra.round", 0, bit_size - 1 - log2(size) as usize, bit_size) {
+                (size..2 * size).map(|j| f_vec[j] * &mul_hg_vec[j] + &(f_vec[j] * &add_hg_vec1[j]) + &add_hg_vec2[j]).sum()
+            } else {
+                eval_1
+            };
             let f_vec_tmp = combine_with_r::<G>(&f_vec, fr_two);
             let mul_hg_vec_tmp = combine_with_r::<G>(&mul_hg_vec, fr_two);
             let add_hg_vec1_tmp = combine_with_r::<G>(&add_hg_vec1, fr_two);
@@ -278,6 +306,12 @@ impl<G: Curve> ZKSumCheckProof<G> {
             add_hg_vec1 = combine_with_r::<G>(&add_hg_vec1, r_i);
             add_hg_vec2 = combine_with_r::<G>(&add_hg_vec2, r_i);
             let eval_ri = poly.evaluate(&r_i);
+            #[cfg(verif_hooks)]
+            let eval_ri = if crate::verif_hooks::round("libra.eval", 0, i, bit_size) {
+                (0..size).map(|j| f_vec[j] * &mul_hg_vec[j] + &(f_vec[j] * &add_hg_vec1[j]) + &add_hg_vec2[j]).sum()
+            } else {
+                eval_ri
+            };
             let comm_eval = poly_commit_vec::<G>(
                 &params.gen_1.generators,
                 &vec![eval_ri],
@@ -312,6 +346,10 @@ impl<G: Curve> ZKSumCheckProof<G> {
             proofs.push(proof);
         }
         let poly_value_at_r = vec![f_vec[0], mul_hg_vec[0], add_hg_vec1[0], add_hg_vec2[0]];
+        #[cfg(verif_hooks)]
+        let mut poly_value_at_r = poly_value_at_r;
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::phase_one::<G>(claim, &mut poly_value_at_r);
         let proof = Self {
             comm_evals,
             comm_polys,
@@ -367,6 +405,12 @@ impl<G: Curve> ZKSumCheckProof<G> {
                 })
                 .sum();
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round("libra.round", 1, bit_size - 1 - log2(size) as usize, bit_size) {
+                (size..2 * size).map(|j| (mul_hg_vec[j] * &f_vec[j] + &add_hg_vec[j]) * &fu + &(add_hg_vec[j] * &f_vec[j])).sum()
+            } else {
+                eval_1
+            };
             let f_vec_tmp = combine_with_r::<G>(&f_vec, fr_two);
             let mul_hg_vec_tmp = combine_with_r::<G>(&mul_hg_vec, fr_two);
             let add_hg_vec_tmp = combine_with_r::<G>(&add_hg_vec, fr_two);
@@ -400,6 +444,12 @@ impl<G: Curve> ZKSumCheckProof<G> {
             add_hg_vec = combine_with_r::<G>(&add_hg_vec, r_i);
             f_vec = combine_with_r::<G>(&f_vec, r_i);
             let eval_ri = poly.evaluate(&r_i);
+            #[cfg(verif_hooks)]
+            let eval_ri = if crate::verif_hooks::round("libra.eval", 1, i, bit_size) {
+                (0..size).map(|j| (mul_hg_vec[j] * &f_vec[j] + &add_hg_vec[j]) * &fu + &(add_hg_vec[j] * &f_vec[j])).sum()
+            } else {
+                eval_ri
+            };
             let comm_eval = poly_commit_vec::<G>(
                 &params.gen_1.generators,
                 &vec![eval_ri],
@@ -434,6 +484,12 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_claim = comm_eval;
         }
         let poly_value_at_r = vec![f_vec[0], mul_hg_vec[0], add_hg_vec[0], fu];
+        #[cfg(verif_hooks)]
+        let mut poly_value_at_r = poly_value_at_r;
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::phase_two::<G>(claim, fu, &mut poly_value_at_r);
+        #[cfg(verif_hooks)]
+        poly_value_at_r.push(claim);
         let proof = Self {
             comm_evals,
             comm_polys,
-- 
2.43.0


From ef93d49ca36748b2e86c2f61576dd0b8e8c85b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 36/60] verif hooks: dishonest-prover switches (cfg
 verif_hooks) in hyrax

---
 hyrax/src/hyrax_proof.rs       |  35 +++++++++++
 hyrax/src/lib.rs               | 108 +++++++++++++++++++++++++++++++++
 hyrax/src/zk_sumcheck_proof.rs |  69 +++++++++++++++++++++
 3 files changed, 212 insertions(+)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 50bbbc6..91d9ffe 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -46,6 +46,10 @@ impl<G: Curve> HyraxProof<G> {
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
             let circuit_eval = circuit.evaluate::<G>(&inputs[i], &witnesses[i]).unwrap();
+            #[cfg(verif_hooks)]
+            let mut circuit_eval = circuit_eval;
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::values::<G>(circuit, &mut circuit_eval, i, n);
             outputs.push(circuit_eval[0].clone());
             circuit_evals.push(circuit_eval.clone());
             transcript.append_message(b"output_i", &to_bytes!(circuit_eval[0]).unwrap());
@@ -147,10 +151,28 @@ impl<G: Curve> HyraxProof<G> {
             proofs.push(proof);
         }
 
+        #[cfg(verif_hooks)]
+        let (claimed_x, claimed_y) = (x, y);
+        #[cfg(verif_hooks)]
+        let input_vec = (0..n)
+            .flat_map(|i| {
+                let mut input = inputs[i].clone();
+                input.resize(half_size, G::Fr::zero());
+                input
+            })
+            .collect::<Vec<_>>();
+
         let mut rl_q_vec = q_aside_vec.clone();
         rl_q_vec.extend(ql_vec[1..ql_vec.len()].to_vec());
         let blind_eval0 = G::Fr::rand(rng);
         let eval_w_rl = eval_value::<G>(&witness_vec, &rl_q_vec);
+        #[cfg(verif_hooks)]
+        let x = eval_value::<G>(&input_vec, &rl_q_vec);
+        #[cfg(verif_hooks)]
+        let eval_w_rl =
+            crate::verif_hooks::opening::<G>("hyrax.open0", eval_w_rl, claimed_x, x, ql_vec[0]);
+        #[cfg(verif_hooks)]
+        let x = ql_vec[0] * &x + &((G::Fr::one() - &ql_vec[0]) * &eval_w_rl);
         let (prod_proof0, comm_y0) = LogDotProductProof::reduce_prover::<R>(
             &params.pc_params,
             &witness_vec,
@@ -165,7 +187,10 @@ impl<G: Curve> HyraxProof<G> {
 
         let eq_proof0 = EqProof::prover(
             &params.pc_params.gen_1,
+            #[cfg(not(verif_hooks))]
             x,
+            #[cfg(verif_hooks)]
+            claimed_x,
             rx,
             x,
             eval_at_zy_blind0,
@@ -177,6 +202,13 @@ impl<G: Curve> HyraxProof<G> {
         rr_q_vec.extend(qr_vec[1..qr_vec.len()].to_vec());
         let blind_eval1 = G::Fr::rand(rng);
         let eval_w_rr = eval_value::<G>(&witness_vec, &rr_q_vec);
+        #[cfg(verif_hooks)]
+        let y = eval_value::<G>(&input_vec, &rr_q_vec);
+        #[cfg(verif_hooks)]
+        let eval_w_rr =
+            crate::verif_hooks::opening::<G>("hyrax.open1", eval_w_rr, claimed_y, y, qr_vec[0]);
+        #[cfg(verif_hooks)]
+        let y = qr_vec[0] * &y + &((G::Fr::one() - &qr_vec[0]) * &eval_w_rr);
         let (prod_proof1, comm_y1) = LogDotProductProof::reduce_prover::<R>(
             &params.pc_params,
             &witness_vec,
@@ -191,7 +223,10 @@ impl<G: Curve> HyraxProof<G> {
 
         let eq_proof1 = EqProof::prover(
             &params.pc_params.gen_1,
+            #[cfg(not(verif_hooks))]
             y,
+            #[cfg(verif_hooks)]
+            claimed_y,
             ry,
             y,
             eval_at_zy_blind1,
diff --git a/hyrax/src/lib.rs b/hyrax/src/lib.rs
index 2e657ab..f92ce2d 100644
--- a/hyrax/src/lib.rs
+++ b/hyrax/src/lib.rs
@@ -24,3 +24,111 @@ pub mod evaluate;
 pub mod hyrax_proof;
 pub mod params;
 pub mod zk_sumcheck_proof;
+
+/// Lies of the prover for the verification harness (`--cfg verif_hooks`). The parameter of
+/// a lie holds the layer (low 4 bits), gate (4 bits), sum-check (2 bits), round (6 bits) and
+/// instance where it is told.
+#[cfg(verif_hooks)]
+pub(crate) mod verif_hooks {
+    use crate::circuit::{Circuit, Gate};
+    use crate::evaluate::eval_eq;
+    use crate::Vec;
+    use ark_ff::{Field, One};
+    use zkp_curve::{verif_hooks::lie, Curve};
+
+    const LABELS: [&str; 8] = [
+        "hyrax.layer",
+        "hyrax.chain",
+        "hyrax.x",
+        "hyrax.y",
+        "hyrax.z",
+        "hyrax.round",
+        "hyrax.open0",
+        "hyrax.open1",
+    ];
+
+    /// one value of one instance is not what its gate (or the public input) says, all above
+    /// follow from it
+    pub(crate) fn values<G: Curve>(circuit: &Circuit, evals: &mut Vec<Vec<G::Fr>>, i: usize, n: usize) {
+        let p = match LABELS.iter().filter_map(|l| lie(l)).next() {
+            Some(p) if (p >> 16) % n == i => p,
+            _ => return,
+        };
+        let top = circuit.depth - 1;
+        let d = (p & 15) % circuit.depth;
+        let base = if d == 0 { evals[top].len() / 2 } else { 0 };
+        let at = base + (p >> 4 & 15) % (evals[top - d].len() - base);
+        evals[top - d][at] += &G::Fr::one();
+        for k in d + 1..circuit.depth {
+            for (i, gate) in circuit.layers[k].gates.iter().enumerate() {
+                let below = &evals[top - k + 1];
+                let (l, r) = (below[gate.left_node], below[gate.right_node]);
+                evals[top - k][i] = if gate.op == 0 { l + &r } else { l * &r };
+            }
+        }
+    }
+
+    /// the claim that the values of the next layer bear out
+    pub(crate) fn claim<G: Curve>(
+        claim: G::Fr,
+        u: (G::Fr, G::Fr),
+        q_vec: (&Vec<G::Fr>, &Vec<G::Fr>, &Vec<G::Fr>),
+        gates: &Vec<Gate>,
+        evals: &Vec<Vec<G::Fr>>,
+    ) -> G::Fr {
+        if lie("hyrax.chain").is_none() {
+            return claim;
+        }
+        let (eq, l, r) = (eval_eq::<G>(q_vec.0), eval_eq::<G>(q_vec.1), eval_eq::<G>(q_vec.2));
+        (gates.iter())
+            .map(|g| {
+                let w = l[g.g] * &u.0 + &(r[g.g] * &u.1);
+                let v = (0..eq.len())
+                    .map(|t| {
+                        let (a, b) = (evals[g.left_node][t], evals[g.right_node][t]);
+                        eq[t] * &(if g.op == 0 { a + &b } else { a * &b })
+                    })
+                    .sum::<G::Fr>();
+                w * &v
+            })
+            .sum()
+    }
+
+    /// whether this round tells the truth about a false claim
+    pub(crate) fn round(phase: usize, round: usize, rounds: usize) -> bool {
+        match lie("hyrax.round") {
+            Some(p) => (p >> 8 & 3) % 3 == phase && (p >> 10 & 63) % rounds == round,
+            None => false,
+        }
+    }
+
+    /// final values that satisfy the claim
+    pub(crate) fn values_at_r<G: Curve>(
+        claim: G::Fr,
+        add: G::Fr,
+        mult: G::Fr,
+        x: G::Fr,
+        y: G::Fr,
+    ) -> (G::Fr, G::Fr, G::Fr) {
+        let solve = |o: G::Fr| (add + &(mult * &o)).inverse().map(|i| (claim - &(add * &o)) * &i);
+        if lie("hyrax.x").or(lie("hyrax.open0")).is_some() {
+            let x = solve(y).unwrap_or(x);
+            (x, y, x * &y)
+        } else if lie("hyrax.y").or(lie("hyrax.open1")).is_some() {
+            let y = solve(x).unwrap_or(y);
+            (x, y, x * &y)
+        } else if let (Some(_), Some(i)) = (lie("hyrax.z"), mult.inverse()) {
+            (x, y, (claim - &(add * &(x + &y))) * &i)
+        } else {
+            (x, y, x * &y)
+        }
+    }
+
+    /// an evaluation of the witness that makes the claimed value of the input layer
+    pub(crate) fn opening<G: Curve>(label: &str, honest: G::Fr, value: G::Fr, input: G::Fr, q: G::Fr) -> G::Fr {
+        match (lie(label), (G::Fr::one() - &q).inverse()) {
+            (Some(_), Some(i)) => (value - &(q * &input)) * &i,
+            _ => honest,
+        }
+    }
+}
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index a9a5fd9..25fe91b 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -66,6 +66,19 @@ impl<G: Curve> ZkSumcheckProof<G> {
 
         let mut circuit_evals = circuit_evals.clone();
 
+        #[cfg(verif_hooks)]
+        let (claim_in, comm_in) = (claim, comm_a0);
+        #[cfg(verif_hooks)]
+        let claim = crate::verif_hooks::claim::<G>(claim, u, q_vec, gates, &circuit_evals);
+        #[cfg(verif_hooks)]
+        let comm_a0 = if claim == claim_in {
+            comm_in
+        } else {
+            poly_commit_vec::<G>(&params.gen_1.generators, &vec![claim], &params.gen_1.h, rc0)
+        };
+        #[cfg(verif_hooks)]
+        let mut claim = claim;
+
         assert_eq!(q_aside_vec.len(), log_n);
         assert_eq!(ql_vec.len(), qr_vec.len());
 
@@ -154,6 +167,21 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 }
             }
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round(0, j, log_n) {
+                (gates.iter().zip(temp_vec.iter()))
+                    .map(|(g, p)| {
+                        (size..2 * size)
+                            .map(|t| {
+                                let (a, b) = (circuit_evals[g.left_node][t], circuit_evals[g.right_node][t]);
+                                p[t] * &(if g.op == 0 { a + &b } else { a * &b })
+                            })
+                            .sum::<G::Fr>()
+                    })
+                    .sum()
+            } else {
+                eval_1
+            };
 
             // degree = 3
             // f(x) = ax^3 + bx^2 + cx + d
@@ -285,6 +313,21 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 }
             }
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round(1, j, log_ng) {
+                (gates.iter().zip(temp_p_xg_vec.iter()).zip(left_eq_vec.iter()))
+                    .map(|((g, p), eq)| {
+                        (size..2 * size)
+                            .map(|t| {
+                                let (a, b) = (v_vec_left[t], v_vec[g.right_node]);
+                                eq[t] * p * &(if g.op == 0 { a + &b } else { a * &b })
+                            })
+                            .sum::<G::Fr>()
+                    })
+                    .sum()
+            } else {
+                eval_1
+            };
 
             // degree = 2
             // f(x) = ax^2 + bx + c
@@ -390,6 +433,21 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 }
             }
             let eval_1 = claim - &eval_0;
+            #[cfg(verif_hooks)]
+            let eval_1 = if crate::verif_hooks::round(2, j, log_ng) {
+                (gates.iter().zip(temp_p_xg_vec.iter()).zip(right_eq_vec.iter()))
+                    .map(|((g, p), eq)| {
+                        (size..2 * size)
+                            .map(|t| {
+                                let (a, b) = (x, v_vec_right[t]);
+                                eq[t] * p * &(if g.op == 0 { a + &b } else { a * &b })
+                            })
+                            .sum::<G::Fr>()
+                    })
+                    .sum()
+            } else {
+                eval_1
+            };
 
             // degree = 2
             // f(x) = ax^2 + bx + c
@@ -441,6 +499,12 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let y = v_vec_right[0];
 
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
+        #[cfg(verif_hooks)]
+        let (x, y, z) = {
+            let last = &m_vec[m_vec.len() - 1];
+            let (add, mult) = (last[last.len() - 3], last[last.len() - 1]);
+            crate::verif_hooks::values_at_r::<G>(claim, add, mult, x, y)
+        };
 
         let mut pie_vec = Vec::new();
         for i in 0..polys.len() {
@@ -448,7 +512,10 @@ impl<G: Curve> ZkSumcheckProof<G> {
         }
         pie_vec.push(x);
         pie_vec.push(y);
+        #[cfg(not(verif_hooks))]
         pie_vec.push(x * &y);
+        #[cfg(verif_hooks)]
+        pie_vec.push(z);
 
         let (
             (prod_proof, comm_x, comm_y, comm_z),
@@ -511,6 +578,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
     ) {
         let (x, y) = xy;
         let z = x * &y;
+        #[cfg(verif_hooks)]
+        let z = pie_vec.last().copied().unwrap_or(z);
 
         let rx = G::Fr::rand(rng);
         let ry = G::Fr::rand(rng);
-- 
2.43.0


From 44fa7d9ced71a8598977c2ffdec53811b9d90081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 37/60] fix: curve25519: zeroize a point's coordinates

---
 curve25519/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 6ee122d..2b061f5 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -281,7 +281,7 @@ impl core::hash::Hash for Curve25519Point {
 
 impl Zeroize for Curve25519Point {
     fn zeroize(&mut self) {
-        // RistrettoPoint has zeroize
+        self.0.zeroize();
     }
 }
 
-- 
2.43.0


From 6f2080584fbe52e311a5f9f6e3d9123f3a4e1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 38/60] fix: gadgets: add constant words the same way with and
 without an assignment

---
 gadgets/src/algebra/uint32.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gadgets/src/algebra/uint32.rs b/gadgets/src/algebra/uint32.rs
index 238ea67..b4dc43f 100644
--- a/gadgets/src/algebra/uint32.rs
+++ b/gadgets/src/algebra/uint32.rs
@@ -267,6 +267,19 @@ impl UInt32 {
         })
     }
 
+    /// The value, if every bit is a constant. It is known also when `value`
+    /// is not, because the bits were derived from unassigned operands.
+    fn constant_value(&self) -> Option<u32> {
+        let mut value = 0u32;
+        for bit in self.bits.iter().rev() {
+            match *bit {
+                Boolean::Constant(b) => value = (value << 1) | (b as u32),
+                _ => return None,
+            }
+        }
+        Some(value)
+    }
+
     /// Perform modular addition of several `UInt32` objects.
     pub fn addmany<F, CS, M>(mut cs: M, operands: &[Self]) -> Result<Self, SynthesisError>
     where
@@ -296,7 +309,7 @@ impl UInt32 {
         // Iterate over the operands
         for op in operands {
             // Accumulate the value
-            match op.value {
+            match op.value.or_else(|| op.constant_value()) {
                 Some(val) => {
                     result_value.as_mut().map(|v| *v += u64::from(val));
                 }
-- 
2.43.0


From 4b7c3f6b8946242f444ac34d6e02d778194605e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 39/60] fix: gadgets: constrain the one-bit lookup to the
 table's entries

---
 gadgets/src/lookup/table.rs | 53 +++++++++++--------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..8079951 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,22 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| "x"), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // r = c[0] + b * (c[1] - c[0])
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, c[1] - &c[0]),
+        |lc| lc + one,
+        |lc| lc + result.get_variable() - (c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From 5ebcd4319fa1fda316848fbd65b1f7f7a2c5cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 40/60] fix: gadgets: read every byte of a hashed message

---
 gadgets/src/hashes/mimc.rs     | 12 +++---------
 gadgets/src/hashes/poseidon.rs | 12 +++---------
 gadgets/src/hashes/rescue.rs   | 12 +++---------
 3 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..9f472f9 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -2,7 +2,7 @@
 //!
 //! [MiMC]: http://eprint.iacr.org/2016/492
 
-use ark_ff::{BigInteger, Field, FromBytes, PrimeField};
+use ark_ff::{BigInteger, Field, PrimeField};
 use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
 
 use crate::Vec;
@@ -65,14 +65,8 @@ fn mimc_block<F: Field>(mut xl: F, mut xr: F, constants: &[F]) -> F {
 fn mimc_hash<F: PrimeField>(b: &[u8], constants: &[F]) -> (F, F, F) {
     let mut v: Vec<F> = Vec::new();
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    for chunk in b.chunks(n) {
+        v.push(F::from_le_bytes_mod_order(chunk));
     }
 
     let mut h: F = F::zero();
diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..bc381c1 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -4,7 +4,7 @@
 // @Author: JiadongLu (lujd1234@gmail.com)
 // @Author: YunLi (liyunscss@gmail.com)
 
-use ark_ff::{BigInteger, BitIteratorBE, FromBytes, PrimeField};
+use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
 use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
 
 use crate::Vec;
@@ -588,14 +588,8 @@ pub fn poseidon_block<F: PrimeField>(xl: F, xr: F, rc: &PoseidonConstant<F>) ->
 fn poseidon_hash<F: PrimeField>(b: &[u8], constants: &PoseidonConstant<F>) -> (F, F, F) {
     let mut v: Vec<F> = Vec::new();
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    for chunk in b.chunks(n) {
+        v.push(F::from_le_bytes_mod_order(chunk));
     }
 
     let mut h: F = F::zero();
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..0027371 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -4,7 +4,7 @@
 // @Author: JiadongLu (lujd1234@gmail.com)
 // @Author: YunLi (liyunscss@gmail.com)
 
-use ark_ff::{BigInteger, BitIteratorBE, FromBytes, PrimeField};
+use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
 use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
 
 use crate::Vec;
@@ -370,14 +370,8 @@ pub fn rescue_block<F: PrimeField>(xl: F, xr: F, rc: &RescueConstant<F>) -> F {
 fn rescue_hash<F: PrimeField>(b: &[u8], constants: &RescueConstant<F>) -> (F, F, F) {
     let mut v: Vec<F> = Vec::new();
     let n = <F::BigInt as BigInteger>::NUM_LIMBS * 8;
-    for i in 0..(b.len() / n) {
-        let repr = F::BigInt::read(&b[i * n..(i + 1) * n]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
-    }
-
-    if b.len() % n != 0 {
-        let repr = F::BigInt::read(&b[(b.len() / n) * n..]).unwrap_or(Default::default());
-        v.push(F::from_repr(repr).unwrap_or(F::zero()));
+    for chunk in b.chunks(n) {
+        v.push(F::from_le_bytes_mod_order(chunk));
     }
 
     let mut h: F = F::zero();
-- 
2.43.0


From 2e0ece4effcd0e9da2eda1b3eedbeefafcb68b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 41/60] fix: gadgets: make the Poseidon and Rescue circuits
 compute the hash they expose

---
 gadgets/src/hashes/poseidon.rs | 28 ++++++++++++++++++++++++++--
 gadgets/src/hashes/rescue.rs   | 28 ++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index bc381c1..3b79c10 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -623,6 +623,12 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -665,12 +671,24 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
         let mut tmp2 = Vec::with_capacity(3);
         for j in 0..M {
             tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
+            cs.enforce(
+                || format!("tmp2[{}] = 0", j),
+                |lc| lc + tmp2[j],
+                |lc| lc + CS::one(),
+                |lc| lc,
+            );
         }
 
         for j in 0..M {
             for k in 0..M {
                 let mut tmp3_value = constants.mds[j][k];
                 let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
+                cs.enforce(
+                    || format!("tmp3_{}{} = mds[{}][{}]", j, k, j, k),
+                    |lc| lc + tmp3,
+                    |lc| lc + CS::one(),
+                    |lc| lc + (constants.mds[j][k], CS::one()),
+                );
 
                 tmp3_value.mul_assign(&state_value[k]);
                 tmp3_value.add_assign(&tmp2_value[j]);
@@ -718,8 +736,14 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
+    let mut res_value = F::one();
     let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    cs.enforce(
+        || format!("res_{} = 1", j),
+        |lc| lc + res,
+        |lc| lc + CS::one(),
+        |lc| lc + CS::one(),
+    );
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -757,7 +781,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index 0027371..c40e1a4 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -405,6 +405,12 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
 
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -437,11 +443,23 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
         let mut tmp2 = Vec::with_capacity(3);
         for j in 0..M {
             tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
+            cs.enforce(
+                || format!("tmp2[{}] = 0", j),
+                |lc| lc + tmp2[j],
+                |lc| lc + CS::one(),
+                |lc| lc,
+            );
         }
         for j in 0..M {
             for k in 0..M {
                 let mut tmp3_value = constants.mds[j][k];
                 let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
+                cs.enforce(
+                    || format!("tmp3_{}{} = mds[{}][{}]", j, k, j, k),
+                    |lc| lc + tmp3,
+                    |lc| lc + CS::one(),
+                    |lc| lc + (constants.mds[j][k], CS::one()),
+                );
                 tmp3_value.mul_assign(&state_value[k]);
                 tmp3_value.add_assign(&tmp2_value[j]);
                 let tmp4_value = tmp3_value;
@@ -487,8 +505,14 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
+    let mut res_value = F::one();
     let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    cs.enforce(
+        || format!("res_{} = 1", j),
+        |lc| lc + res,
+        |lc| lc + CS::one(),
+        |lc| lc + CS::one(),
+    );
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -526,7 +550,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
-- 
2.43.0


From 1fe257f89bb2f9a739ccaaa26d10f47d6a1b9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 42/60] fix: gadgets: tie the outputs of hash_enforce to the
 hash of its inputs

---
 gadgets/src/hashes/mimc.rs     | 70 ++++++++++++++++++++++---------
 gadgets/src/hashes/poseidon.rs | 76 +++++++++++++++++++++++++---------
 gadgets/src/hashes/rescue.rs   | 74 ++++++++++++++++++++++++---------
 gadgets/src/hashes/sha256.rs   | 19 +++++----
 4 files changed, 173 insertions(+), 66 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 9f472f9..5d92eea 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -89,27 +89,44 @@ pub fn hash<F: PrimeField>(b: &[u8]) -> F {
 }
 
 pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
-    mut cs: CS,
+    cs: CS,
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
+    Ok(mimc_image(cs, b)?.value)
+}
+
+/// Same as [`mimc`], the image comes with the variable that holds it.
+pub fn mimc_image<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    b: Option<&[u8]>,
+) -> Result<AbstractHashMimcOutput<F>, SynthesisError> {
     let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
+    let (xl_value, xr_value) = match b {
         Some(bytes) => {
-            let (xl, xr, image) = mimc_hash(bytes, &constants);
-            (Some(xl), Some(xr), Some(image))
+            let (xl, xr, _) = mimc_hash(bytes, &constants);
+            (Some(xl), Some(xr))
         }
-        None => (None, None, None),
+        None => (None, None),
     };
 
-    let mut var_xl = cs.alloc(
+    let var_xl = cs.alloc(
         || "preimage xl",
         || xl_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
-    let mut var_xr = cs.alloc(
+    let var_xr = cs.alloc(
         || "preimage xr",
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
+    mimc_block_enforce(cs, (xl_value, var_xl), (xr_value, var_xr), &constants)
+}
+
+fn mimc_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (mut xl_value, mut var_xl): (Option<F>, Variable),
+    (mut xr_value, mut var_xr): (Option<F>, Variable),
+    constants: &[F],
+) -> Result<AbstractHashMimcOutput<F>, SynthesisError> {
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
 
@@ -150,7 +167,10 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         var_xl = var_new_xl;
     }
 
-    Ok(image_value)
+    Ok(AbstractHashMimcOutput {
+        value: xl_value,
+        variable: var_xl,
+    })
 }
 
 /// implement AbstractHashOutput.
@@ -216,19 +236,31 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
+
+        // the chaining value starts from the constant zero.
+        let zero = cs.alloc(|| "mimc_zero", || Ok(F::zero()))?;
+        cs.enforce(
+            || "mimc_zero = 0",
+            |lc| lc + zero,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
+        let mut h = AbstractHashMimcOutput {
+            value: Some(F::zero()),
+            variable: zero,
+        };
+        for (i, o) in params.iter().enumerate() {
+            h = mimc_block_enforce(
+                cs.ns(|| format!("mimc_hash_{}", i)),
+                (h.value, h.variable),
+                (o.value, o.variable),
+                &constants,
+            )?;
+        }
 
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        Ok(h)
     }
 }
 
diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 3b79c10..2f200dc 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -621,6 +621,30 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let hash = poseidon_block_enforce(
+        cs.ns(|| "poseidon_block"),
+        (xl, var_xl),
+        (xr, var_xr),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(|| "output", || Ok(image))?;
+
+    cs.enforce(
+        || "output = tmp2[j] + constants[i+1][j]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + hash.variable,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+fn poseidon_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &PoseidonConstant<F>,
+) -> Result<AbstractHashPoseidonOutput<F>, SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
     cs.enforce(
@@ -718,15 +742,10 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
         }
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok(AbstractHashPoseidonOutput {
+        value: Some(state_value[0]),
+        variable: state[0],
+    })
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -838,19 +857,36 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
+        // the chaining value starts from the constant zero.
+        let zero = cs.alloc(|| "poseidon_zero", || Ok(F::zero()))?;
+        cs.enforce(
+            || "poseidon_zero = 0",
+            |lc| lc + zero,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
+
+        let mut h = (F::zero(), zero);
+        for (i, o) in params.iter().enumerate() {
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            let output = poseidon_block_enforce(
+                cs.ns(|| format!("poseidon_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+            h = (
+                output.value.ok_or(SynthesisError::AssignmentMissing)?,
+                output.variable,
+            );
+        }
 
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        Ok(AbstractHashPoseidonOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index c40e1a4..c4066a5 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -403,6 +403,29 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let hash = rescue_block_enforce(
+        cs.ns(|| "rescue_block"),
+        (xl, var_xl),
+        (xr, var_xr),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(|| "output", || Ok(image))?;
+    cs.enforce(
+        || "output = tmp2[j] + constants[i+1][j]",
+        |lc| lc + (F::one(), CS::one()),
+        |lc| lc + hash.variable,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+fn rescue_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &RescueConstant<F>,
+) -> Result<AbstractHashRescueOutput<F>, SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
     cs.enforce(
@@ -488,14 +511,10 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state_value[j] = tmp5_value;
         }
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok(AbstractHashRescueOutput {
+        value: Some(state_value[0]),
+        variable: state[0],
+    })
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -607,19 +626,36 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
+        // the chaining value starts from the constant zero.
+        let zero = cs.alloc(|| "rescue_zero", || Ok(F::zero()))?;
+        cs.enforce(
+            || "rescue_zero = 0",
+            |lc| lc + zero,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
+
+        let mut h = (F::zero(), zero);
+        for (i, o) in params.iter().enumerate() {
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            let output = rescue_block_enforce(
+                cs.ns(|| format!("rescue_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+            h = (
+                output.value.ok_or(SynthesisError::AssignmentMissing)?,
+                output.variable,
+            );
+        }
 
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        Ok(AbstractHashRescueOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..7332c90 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,17 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        let mut var = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+            cs.enforce(
+                || format!("bit_{} is the hash's", i),
+                |lc| lc + a.get_variable(),
+                |lc| lc + CS::one(),
+                |_| b.lc(CS::one(), F::one()),
+            );
+            var.push(a.get_variable());
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From de85382d4b1cf52283b8e075ab979f02049b256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 43/60] fix: gadgets: only existing leaves and complete paths
 have Merkle proofs

---
 gadgets/src/merkletree/cbmt.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..c11e20f 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,12 +34,12 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
-
-        if index >= (leaves_count << 1) - 1 {
+        if *leaf_index >= leaves_count {
             return None;
         }
 
+        let index = leaves_count + leaf_index - 1;
+
         let mut lemmas = Vec::new();
 
         if index == 0 {
@@ -104,16 +104,15 @@ where
     }
 
     pub fn root(&self, leaf: &T) -> Option<T> {
-        if self.index == 0 && self.lemmas.len() != 0 {
-            return None;
-        }
-
         let mut parent = leaf.clone();
         let mut index = self.index;
         let mut lemmas_iter = self.lemmas.iter();
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                if index.is_root() {
+                    return None;
+                }
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,7 +124,12 @@ where
             }
         }
 
-        Some(parent)
+        // the path must end at the root.
+        if index.is_root() {
+            Some(parent)
+        } else {
+            None
+        }
     }
 
     pub fn verify(&self, root: &T, leaf: &T) -> bool {
-- 
2.43.0


From 8acac12f3381d7623924ce2c30f75fab3ee6dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 44/60] fix: gadgets: require a Merkle membership path to end
 at the whole root

---
 gadgets/src/merkletree/cbmt_constraints.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..231a09f 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -29,6 +29,9 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
         let mut lemmas_iter = self.lemmas.iter().enumerate();
         loop {
             if let Some((i, sibling)) = lemmas_iter.next() {
+                if index.is_root() {
+                    return Err(SynthesisError::Unsatisfiable);
+                }
                 let parent_variable_vec = parent.get_variables();
                 let parent_value_vec = parent.get_variable_values();
                 let sibling_variable_vec = sibling.get_variables();
@@ -94,6 +97,11 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
+        // the path must end at the root, and every part of the root is compared.
+        if !index.is_root() || parent.get_variables().len() != root.get_variables().len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
         let pre = parent
             .get_variables()
             .iter()
-- 
2.43.0


From d12ef01926e5050c53570b47358f4e82fd1dc32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 45/60] fix: cli: constrain the public image of the hash
 circuit

---
 cli/src/circuits/hash.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cli/src/circuits/hash.rs b/cli/src/circuits/hash.rs
index 0cc482e..1ad71fa 100644
--- a/cli/src/circuits/hash.rs
+++ b/cli/src/circuits/hash.rs
@@ -1,5 +1,8 @@
 use ark_ff::PrimeField;
-use zkp_gadgets::hashes::mimc::{hash, mimc};
+use zkp_gadgets::hashes::{
+    abstract_hash::AbstractHashOutput,
+    mimc::{hash, mimc_image},
+};
 use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};
 
 use super::{CliCircuit, Publics};
@@ -14,17 +17,21 @@ impl<F: PrimeField> ConstraintSynthesizer<F> for Hash<F> {
         self,
         cs: &mut CS,
     ) -> Result<(), SynthesisError> {
-        let value = if let Some(bytes) = self.image {
-            mimc(cs.ns(|| "mimc-gadget"), Some(&bytes))?
-        } else {
-            mimc(cs.ns(|| "mimc-gadget"), None)?
-        };
+        let hash = mimc_image(cs.ns(|| "mimc-gadget"), self.image.as_deref())?;
+        let value = hash.get_value();
 
-        let _ = cs.alloc_input(
+        let image = cs.alloc_input(
             || "image",
             || value.ok_or(SynthesisError::AssignmentMissing),
         )?;
 
+        cs.enforce(
+            || "image is the mimc hash",
+            |lc| lc + hash.get_variables()[0],
+            |lc| lc + CS::one(),
+            |lc| lc + image,
+        );
+
         Ok(())
     }
 }
-- 
2.43.0


From e7a45ee224472b093afa9387a907b222fe3c2886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 46/60] fix: cli: refuse proof files with trailing bytes

---
 cli/src/zkp_verify.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cli/src/zkp_verify.rs b/cli/src/zkp_verify.rs
index 2669649..36f2045 100644
--- a/cli/src/zkp_verify.rs
+++ b/cli/src/zkp_verify.rs
@@ -30,7 +30,7 @@ macro_rules! handle_circuit {
             }
             "hash" => {
                 let fr_bytes = from_hex($params[0].as_str().unwrap()).unwrap();
-                let image = <$curve as Curve>::Fr::deserialize(&fr_bytes[..]).unwrap();
+                let image = read_whole::<<$curve as Curve>::Fr>(&fr_bytes)?;
                 let _c = Hash::<<$curve as Curve>::Fr>::power_off();
                 let publics = vec![image];
                 handle_scheme!(
@@ -59,17 +59,16 @@ macro_rules! handle_scheme {
                 println!("Will use vk file: {:?}", vk_path);
                 use zkp_groth16::{prepare_verifying_key, verify_proof, Proof, VerifyKey};
                 let vk = VerifyKey::<$curve>::deserialize(&vk_bytes[..]).unwrap();
-                let proof = Proof::<$curve>::deserialize(&$proof_bytes[..]).unwrap();
+                let proof = read_whole::<Proof<$curve>>(&$proof_bytes)?;
                 let pvk = prepare_verifying_key(&vk);
                 verify_proof(&pvk, &proof, &$publics).unwrap()
             }
             "bulletproofs" => {
                 use zkp_bulletproofs::{verify_proof, Generators, Proof, R1csCircuit};
                 let (gens, r1cs, proof) =
-                    <(Generators<$curve>, R1csCircuit<$curve>, Proof<$curve>)>::deserialize(
-                        &$proof_bytes[..],
-                    )
-                    .unwrap();
+                    read_whole::<(Generators<$curve>, R1csCircuit<$curve>, Proof<$curve>)>(
+                        &$proof_bytes,
+                    )?;
                 verify_proof(&gens, &proof, &r1cs, $publics).unwrap()
             }
             "spartan_snark" => {
@@ -83,7 +82,7 @@ macro_rules! handle_scheme {
                 let srs_bytes = std::fs::read(&srs_path).unwrap_or(vec![]);
                 let srs = Parameters::<$curve>::deserialize(&srs_bytes[..]).unwrap();
                 let (_pk, vk) = srs.keypair();
-                let proof = Proof::<$curve>::deserialize(&$proof_bytes[..]).unwrap();
+                let proof = read_whole::<Proof<$curve>>(&$proof_bytes)?;
 
                 let r1cs_to_hash = vk.r1cs.r1cs_to_hash();
                 let param_to_hash = vk.params.param_to_hash();
@@ -101,7 +100,7 @@ macro_rules! handle_scheme {
                 let srs_bytes = std::fs::read(&srs_path).unwrap_or(vec![]);
                 let srs = Parameters::<$curve>::deserialize(&srs_bytes[..]).unwrap();
                 let (_pk, vk) = srs.keypair();
-                let proof = Proof::<$curve>::deserialize(&$proof_bytes[..]).unwrap();
+                let proof = read_whole::<Proof<$curve>>(&$proof_bytes)?;
                 let r1cs_to_hash = vk.r1cs.r1cs_to_hash();
                 let param_to_hash = vk.params.param_to_hash();
                 verify_proof(&vk, &proof, $publics, r1cs_to_hash
@@ -114,6 +113,16 @@ macro_rules! handle_scheme {
     };
 }
 
+/// Reads a value that takes up all of the bytes.
+fn read_whole<T: CanonicalDeserialize>(mut bytes: &[u8]) -> Result<T, String> {
+    let value = T::deserialize(&mut bytes).map_err(|e| format!("invalid encoding: {}", e))?;
+    if bytes.is_empty() {
+        Ok(value)
+    } else {
+        Err("invalid encoding: trailing bytes".to_owned())
+    }
+}
+
 fn from_hex(s: &str) -> Result<Vec<u8>, ()> {
     if s.len() % 2 != 0 {
         return Err(());
-- 
2.43.0


From ebc7c3539b9db55bc6a32864dd6e7eb62f7bd8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 47/60] fix: marlin: return the synthesis error that stopped
 the prover

---
 marlin/src/errors.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/marlin/src/errors.rs b/marlin/src/errors.rs
index 1189113..a4b6a34 100644
--- a/marlin/src/errors.rs
+++ b/marlin/src/errors.rs
@@ -25,8 +25,11 @@ impl From<PCError> for Error {
 }
 
 impl From<Error> for SynthesisError {
-    fn from(_err: Error) -> SynthesisError {
-        SynthesisError::Unsatisfiable // Maybe can better.
+    fn from(err: Error) -> SynthesisError {
+        match err {
+            Error::AHPError(err) => err.into(),
+            _ => SynthesisError::Unsatisfiable, // Maybe can better.
+        }
     }
 }
 
@@ -37,7 +40,10 @@ impl From<PCError> for SynthesisError {
 }
 
 impl From<AHPError> for SynthesisError {
-    fn from(_err: AHPError) -> SynthesisError {
-        SynthesisError::Unsatisfiable // Maybe can better.
+    fn from(err: AHPError) -> SynthesisError {
+        match err {
+            AHPError::ConstraintSystemError(err) => err,
+            _ => SynthesisError::Unsatisfiable, // Maybe can better.
+        }
     }
 }
-- 
2.43.0


From a0e76fefebe4112f4f68b6f53c8c3834f266632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 48/60] fix: libra, hyrax: inner-product proofs of the wrong
 length are rejected

---
 hyrax/src/commitment.rs | 3 +++
 libra/src/commitment.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index de55eb3..63ed678 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -292,6 +292,9 @@ impl<G: Curve> DotProductProof<G> {
         a_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z_vec.len() != a_vec.len() || a_vec.len() > params.gen_n.generators.len() {
+            return false;
+        }
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b0fd654..3a41713 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -290,6 +290,9 @@ impl<G: Curve> DotProductProof<G> {
         a_vec: &Vec<G::Fr>,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z_vec.len() != a_vec.len() || a_vec.len() > params.gen_n.generators.len() {
+            return false;
+        }
         transcript.append_message(b"Cx", &to_bytes!(comm_x).unwrap());
         transcript.append_message(b"Cy", &to_bytes!(comm_y).unwrap());
         transcript.append_message(b"delta", &to_bytes!(self.delta).unwrap());
-- 
2.43.0


From 99f53f68c2d260d38519d92a1e68e9d914a92e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 49/60] fix: spartan: the circuit digest covers where each
 constraint ends

---
 spartan/src/r1cs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spartan/src/r1cs.rs b/spartan/src/r1cs.rs
index f4987b0..1e43390 100644
--- a/spartan/src/r1cs.rs
+++ b/spartan/src/r1cs.rs
@@ -30,7 +30,7 @@ impl <G: Curve> R1CSInstance<G> {
         transcript.append_u64(b"num_constraints", self.num_constraints as u64);
     
         for matrix in self.a_matrix.iter(){
-            
+            transcript.append_u64(b"a_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"a_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -40,7 +40,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.b_matrix.iter(){
-            
+            transcript.append_u64(b"b_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"b_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -50,7 +50,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.c_matrix.iter(){
-            
+            transcript.append_u64(b"c_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"c_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
-- 
2.43.0


From b9b246fa9e764a6e732c8b2bd0e179e1f14c4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:12 +0000
Subject: [PATCH 50/60] fix: plonk: challenges depend on the verifying key

---
 plonk/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 536ce82..2ac6f23 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -108,6 +108,20 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         Ok((pk, vk))
     }
 
+    /// The transcript starts with the statement: the circuit and its public inputs.
+    fn transcript(vk: &VerifierKey<F, PC>, public_inputs: &[F]) -> FiatShamirRng<D> {
+        FiatShamirRng::<D>::from_seed(
+            &to_bytes![
+                &Self::PROTOCOL_NAME,
+                vk.info.n as u64,
+                &vk.info.ks[..],
+                vk.comms,
+                public_inputs
+            ]
+            .unwrap(),
+        )
+    }
+
     pub fn prove(
         pk: &ProverKey<F, PC>,
         cs: &Composer<F>,
@@ -115,8 +129,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
     ) -> Result<Proof<F, PC>, Error<PC::Error>> {
         let public_inputs = cs.public_inputs();
 
-        let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+        let mut fs_rng = Self::transcript(&pk.vk, public_inputs);
 
         let ps = AHPForPLONK::prover_init(cs, &pk.index)?;
         let vs = AHPForPLONK::verifier_init(&pk.vk.info)?;
@@ -238,8 +251,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         }
 
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
-        let mut fs_rng =
-            FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
+        let mut fs_rng = Self::transcript(vk, public_inputs);
 
         let first_comms = &proof.commitments[0];
         fs_rng.absorb(&to_bytes![first_comms].unwrap());
-- 
2.43.0


From 690940b94395b8d9939831433be2c55a53e88e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:20 +0000
Subject: [PATCH 51/60] fix: gadgets: builds without std

The Poseidon and Rescue modules named String without importing it, which
only the standard prelude provides.
---
 gadgets/src/hashes/poseidon.rs | 2 +-
 gadgets/src/hashes/rescue.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 2f200dc..ee4da6a 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -7,7 +7,7 @@
 use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
 use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
 
-use crate::Vec;
+use crate::{String, Vec};
 
 use super::abstract_hash::{AbstractHash, AbstractHashOutput};
 
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index c4066a5..94bef7f 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -7,7 +7,7 @@
 use ark_ff::{BigInteger, BitIteratorBE, PrimeField};
 use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};
 
-use crate::Vec;
+use crate::{String, Vec};
 
 use super::abstract_hash::{AbstractHash, AbstractHashOutput};
 
-- 
2.43.0


From 597a789f9dc6045e8878227e366f656ec70f4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 52/60] verif hooks: Marlin's polynomial commitments are public
 under cfg verif_hooks

---
 marlin/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index 296a404..f1e23bf 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -35,7 +35,10 @@ use ark_std::UniformRand;
 use rand::Rng;
 use zkp_r1cs::{ConstraintSynthesizer, SynthesisError};
 
+#[cfg(not(verif_hooks))]
 mod pc;
+#[cfg(verif_hooks)]
+pub mod pc;
 use pc::{Evaluations, LabeledCommitment, PC};
 
 mod ahp;
-- 
2.43.0


From 2003d7d7a831d6d7814f7c40ab0bf36c77f269df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 53/60] fix: marlin: degree bounds relative to the whole
 reference string

Keys were trimmed to the index's degree and degree bounds enforced
relative to it. A prover who knows the rest of the reference string could
commit to a g_1 or g_2 above its bound, and so prove any false statement.
---
 marlin/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index f1e23bf..6bb60f6 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -76,7 +76,9 @@ pub fn index<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(
         return Err(Error::IndexTooLarge);
     }
 
-    let (committer_key, verifier_key) = PC::trim(srs, index.max_degree())?;
+    // The bounds on the degrees of g_1 and g_2 hold by shifting to the highest
+    // degree there is a power for: the whole reference string's, not the index's.
+    let (committer_key, verifier_key) = PC::trim(srs, srs.max_degree())?;
     let (index_comms, index_rands) = PC::commit(&committer_key, index.iter(), None)?;
     let index_comms = index_comms
         .into_iter()
-- 
2.43.0


From 9ac23d0e13b9f99089bf3155a007136603ac6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:43 +0000
Subject: [PATCH 54/60] verif hooks: dishonest-prover switch (cfg verif_hooks)
 in marlin

---
 marlin/src/ahp/prover.rs | 58 ++++++++++++++++++++++++++++++++++++++++
 marlin/src/lib.rs        | 17 ++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 1b9c510..be8e1ed 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -1,4 +1,6 @@
 use ark_ff::{fields, PrimeField, Zero};
+#[cfg(verif_hooks)]
+use ark_poly::Polynomial;
 use ark_poly::{polynomial::univariate::DensePolynomial, UVPolynomial};
 use ark_poly::{EvaluationDomain, Evaluations as EvaluationsOnDomain, GeneralEvaluationDomain};
 use ark_std::{cfg_into_iter, cfg_iter, cfg_iter_mut};
@@ -33,6 +35,8 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
     z_m: Option<(LabeledPolynomial<'b, F>, LabeledPolynomial<'b, F>)>,
 
     verifier_msg: Option<VerifierFirstMsg<F>>,
+    #[cfg(verif_hooks)]
+    t: Option<DensePolynomial<F>>,
 
     zk_bound: usize,
 
@@ -145,6 +149,8 @@ impl<F: PrimeField> AHP<F> {
             mask: None,
             z_m: None,
             verifier_msg: None,
+            #[cfg(verif_hooks)]
+            t: None,
             zk_bound,
             domain_x,
             domain_h,
@@ -273,7 +279,30 @@ impl<F: PrimeField> AHP<F> {
                 }
             }
         }
+        #[cfg(verif_hooks)]
+        if crate::verif_hooks::lie() == 2 {
+            // sum over H of r_alpha * m - t * z, put right at a point where z is not zero
+            let x = EvaluationsOnDomain::from_vec_and_domain(
+                state.formatted_input_assignment.clone(),
+                domain_x,
+            )
+            .interpolate();
+            let z = &state.w.as_ref().unwrap().polynomial().mul_by_vanishing_poly(domain_x) + &x;
+            let z: Vec<F> = domain_h.elements().map(|p| z.evaluate(&p)).collect();
+            let m: Vec<F> = domain_h.elements().map(|p| m_poly.evaluate(&p)).collect();
+            let mut sum = F::zero();
+            for i in 0..domain_h.size() {
+                sum += r_alpha_evals_on_h[i] * &m[i] - &(t_evals_on_h[i] * &z[i]);
+            }
+            if let Some(i) = z.iter().position(|z| !z.is_zero()) {
+                t_evals_on_h[i] += sum * &z[i].inverse().unwrap();
+            }
+        }
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_h, domain_h).interpolate();
+        #[cfg(verif_hooks)]
+        {
+            state.t = Some(t_poly.clone());
+        }
         // z
         let x_poly = EvaluationsOnDomain::from_vec_and_domain(
             state.formatted_input_assignment.clone(),
@@ -312,6 +341,18 @@ impl<F: PrimeField> AHP<F> {
         let q_1_poly = mask_poly + &r_alpha_evals.interpolate();
         let (h_1_poly, x_g_1_poly) = q_1_poly.divide_by_vanishing_poly(domain_h).unwrap();
         let g_1_poly = DensePolynomial::from_coefficients_slice(x_g_1_poly.coeffs.get(1..).unwrap_or(&[]));
+        #[cfg(verif_hooks)]
+        let (g_1_poly, h_1_poly) = if crate::verif_hooks::lie() == 1 && !x_g_1_poly.is_zero() {
+            let sum = x_g_1_poly.coeffs[0];
+            let mut top = vec![F::zero(); domain_h.size()];
+            top[domain_h.size() - 1] = sum;
+            (
+                &g_1_poly + &DensePolynomial::from_coefficients_vec(top),
+                &h_1_poly + &DensePolynomial::from_coefficients_slice(&[-sum]),
+            )
+        } else {
+            (g_1_poly, h_1_poly)
+        };
         let oracles = ProverSecondOracles {
             t: LabeledPolynomial::new_owned("t".to_string(), t_poly, None, None),
             h_1: LabeledPolynomial::new_owned("h_1".to_string(), h_1_poly, None, None),
@@ -339,6 +380,8 @@ impl<F: PrimeField> AHP<F> {
         verifier_msg: &VerifierSecondMsg<F>,
     ) -> Result<ProverThirdOracles<'b, F>, Error> {
         let beta = verifier_msg.beta;
+        #[cfg(verif_hooks)]
+        let state_t = state.t.clone();
         let ProverState {
             index,
             domain_h,
@@ -383,6 +426,21 @@ impl<F: PrimeField> AHP<F> {
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
         let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
+        #[cfg(verif_hooks)]
+        let (g_2_poly, t_poly) = if crate::verif_hooks::lie() == 2 {
+            let told = state_t.expect("no t").evaluate(&beta)
+                * &domain_k.size_as_field_element().inverse().unwrap();
+            let e = t_poly.coeffs.get(0).cloned().unwrap_or(F::zero()) - &told;
+            let mut top = vec![F::zero(); domain_k.size()];
+            top[domain_k.size() - 1] = e;
+            let g = &g_2_poly + &DensePolynomial::from_coefficients_vec(top);
+            let mut x_g = vec![told];
+            x_g.extend(&g.coeffs);
+            (g, DensePolynomial::from_coefficients_vec(x_g))
+        } else {
+            (g_2_poly, t_poly)
+        };
+
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
             .zip(&a_star.row_col_evals_on_b.evals)
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index 6bb60f6..3cfa428 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -57,6 +57,23 @@ pub type VerifyKey<E> = IndexVerifierKey<E>;
 mod fs_rng;
 use fs_rng::FiatShamirRng;
 
+/// Switch for the dishonest-prover experiments of the verification harness,
+/// compiled only with `--cfg verif_hooks`: 1 hides a wrong outer sum in the top
+/// coefficient of g_1, 2 chooses t so that the outer sum is right and hides the
+/// wrong inner sum in the top coefficient of g_2.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    extern crate std;
+    use std::cell::Cell;
+    std::thread_local! { static LIE: Cell<usize> = Cell::new(0); }
+    pub fn set(lie: usize) {
+        LIE.with(|l| l.set(lie))
+    }
+    pub fn lie() -> usize {
+        LIE.with(|l| l.get())
+    }
+}
+
 pub fn universal_setup<E: PairingEngine, R: Rng>(
     max_degree: usize,
     rng: &mut R,
-- 
2.43.0


From 624fcb8723cace16b0fbebc94884ea68bc0205a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 55/60] verif hooks: more dishonest provers (cfg verif_hooks)
 in marlin

---
 marlin/src/ahp/prover.rs | 18 ++++++++---
 marlin/src/lib.rs        | 65 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 73 insertions(+), 10 deletions(-)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index be8e1ed..b82f6c1 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -280,7 +280,7 @@ impl<F: PrimeField> AHP<F> {
             }
         }
         #[cfg(verif_hooks)]
-        if crate::verif_hooks::lie() == 2 {
+        if [2, 3, 5].contains(&crate::verif_hooks::lie()) {
             // sum over H of r_alpha * m - t * z, put right at a point where z is not zero
             let x = EvaluationsOnDomain::from_vec_and_domain(
                 state.formatted_input_assignment.clone(),
@@ -342,6 +342,10 @@ impl<F: PrimeField> AHP<F> {
         let (h_1_poly, x_g_1_poly) = q_1_poly.divide_by_vanishing_poly(domain_h).unwrap();
         let g_1_poly = DensePolynomial::from_coefficients_slice(x_g_1_poly.coeffs.get(1..).unwrap_or(&[]));
         #[cfg(verif_hooks)]
+        if crate::verif_hooks::lie() == 4 {
+            crate::verif_hooks::off(x_g_1_poly.coeffs.get(0).unwrap_or(&F::zero()));
+        }
+        #[cfg(verif_hooks)]
         let (g_1_poly, h_1_poly) = if crate::verif_hooks::lie() == 1 && !x_g_1_poly.is_zero() {
             let sum = x_g_1_poly.coeffs[0];
             let mut top = vec![F::zero(); domain_h.size()];
@@ -426,11 +430,17 @@ impl<F: PrimeField> AHP<F> {
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
         let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
+        #[cfg(verif_hooks)]
+        let told = state_t.expect("no t").evaluate(&beta)
+            * &domain_k.size_as_field_element().inverse().unwrap();
+        #[cfg(verif_hooks)]
+        let e = t_poly.coeffs.get(0).cloned().unwrap_or(F::zero()) - &told;
+        #[cfg(verif_hooks)]
+        if crate::verif_hooks::lie() == 5 {
+            crate::verif_hooks::off(&e);
+        }
         #[cfg(verif_hooks)]
         let (g_2_poly, t_poly) = if crate::verif_hooks::lie() == 2 {
-            let told = state_t.expect("no t").evaluate(&beta)
-                * &domain_k.size_as_field_element().inverse().unwrap();
-            let e = t_poly.coeffs.get(0).cloned().unwrap_or(F::zero()) - &told;
             let mut top = vec![F::zero(); domain_k.size()];
             top[domain_k.size() - 1] = e;
             let g = &g_2_poly + &DensePolynomial::from_coefficients_vec(top);
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index 3cfa428..a6b0547 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -60,17 +60,64 @@ use fs_rng::FiatShamirRng;
 /// Switch for the dishonest-prover experiments of the verification harness,
 /// compiled only with `--cfg verif_hooks`: 1 hides a wrong outer sum in the top
 /// coefficient of g_1, 2 chooses t so that the outer sum is right and hides the
-/// wrong inner sum in the top coefficient of g_2.
+/// wrong inner sum in the top coefficient of g_2, 3 chooses t so and leaves the
+/// inner sum wrong, 4 puts the outer equation right by the claimed evaluation of
+/// the polynomial with the given label, 5 does 3 and likewise with the inner one.
 #[cfg(verif_hooks)]
 pub mod verif_hooks {
     extern crate std;
-    use std::cell::Cell;
-    std::thread_local! { static LIE: Cell<usize> = Cell::new(0); }
-    pub fn set(lie: usize) {
-        LIE.with(|l| l.set(lie))
+    use super::*;
+    use ark_ff::{Field, FromBytes, PrimeField};
+    use std::cell::{Cell, RefCell};
+    std::thread_local! {
+        static LIE: Cell<(usize, &'static str)> = Cell::new((0, ""));
+        static OFF: RefCell<Vec<u8>> = RefCell::new(Vec::new());
+    }
+    pub fn set(lie: usize, label: &'static str) {
+        LIE.with(|l| l.set((lie, label)));
+        OFF.with(|o| o.borrow_mut().clear());
     }
     pub fn lie() -> usize {
-        LIE.with(|l| l.get())
+        LIE.with(|l| l.get().0)
+    }
+    /// By how much the equation does not hold.
+    pub fn off<F: Field>(by: &F) {
+        OFF.with(|o| *o.borrow_mut() = to_bytes![by].unwrap());
+    }
+    /// What to add to the evaluation of `label` at `point`.
+    pub(crate) fn delta<F: PrimeField>(
+        label: &str,
+        point: F,
+        v: &ahp::verifier::VerifierState<F>,
+        at: impl Fn(&str, F) -> F,
+    ) -> F {
+        let (lie, which) = LIE.with(|l| l.get());
+        let off = OFF.with(|o| F::read(&o.borrow()[..]).unwrap_or(F::zero()));
+        if lie < 4 || label != which {
+            return F::zero();
+        }
+        let (alpha, beta) = (v.alpha.unwrap(), v.beta.unwrap());
+        let v_h = |x| v.domain_h.evaluate_vanishing_polynomial(x);
+        let denom = |m: &str| {
+            let p = |k: &str| at(&[m, k].concat(), point);
+            alpha * &beta - &(alpha * &p("_row")) - &(beta * &p("_col")) + &p("_row_col")
+        };
+        let val = |eta: Option<F>, m: &str, n: &str| {
+            eta.unwrap() * &denom(m) * &denom(n) * &v_h(alpha) * &v_h(beta)
+        };
+        let b = || denom("a") * &denom("b") * &denom("c");
+        let (off, coefficient) = match (lie, label) {
+            (4, "h_1") => (off, -v_h(point)),
+            (4, "g_1") => (off, -point),
+            (4, "mask") => (off, F::one()),
+            (5, "h_2") => (off * &b(), -v.domain_k.evaluate_vanishing_polynomial(point)),
+            (5, "g_2") => (off, -point),
+            (5, "a_val") => (off * &b(), val(v.eta_a, "b", "c")),
+            (5, "b_val") => (off * &b(), val(v.eta_b, "a", "c")),
+            (5, "c_val") => (off * &b(), val(v.eta_c, "a", "b")),
+            _ => return F::zero(),
+        };
+        -off * &coefficient.inverse().unwrap_or(F::zero())
     }
 }
 
@@ -174,6 +221,12 @@ pub fn create_random_proof<E: PairingEngine, R: Rng, C: ConstraintSynthesizer<E:
             .find(|p| p.label() == label)
             .ok_or(Error::MissingEval(label.to_string()))?;
         let eval = p.polynomial().evaluate(&point);
+        #[cfg(verif_hooks)]
+        let eval = eval
+            + verif_hooks::delta(label, *point, &vstate, |l, x| {
+                let p = polynomials.iter().find(|p| p.label() == l);
+                p.unwrap().polynomial().evaluate(&x)
+            });
         evaluations.push(eval);
     }
     fs_rng.absorb(&evaluations);
-- 
2.43.0


From 4cdbe9edb827f0b9d1f60c73b8c2d6b115567848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 56/60] verif hooks: dishonest provers (cfg verif_hooks) in
 spartan

---
 spartan/src/lib.rs    | 147 +++++++++++++
 spartan/src/prover.rs | 501 ++++++++++++++++++++++++++++++++++++++++++
 spartan/src/spark.rs  |   3 +
 3 files changed, 651 insertions(+)

diff --git a/spartan/src/lib.rs b/spartan/src/lib.rs
index 6ed8e6f..88b919f 100644
--- a/spartan/src/lib.rs
+++ b/spartan/src/lib.rs
@@ -217,3 +217,150 @@ pub mod nizk {
         super::verify::verify_nizk_proof::<G>(&vk.params, &vk.r1cs, publics, proof,r1cs_hash, params_hash)
     }
 }
+
+/// Lies of the provers for the verification harness (`--cfg verif_hooks`), told about an
+/// assignment that does not satisfy the constraints. The parameter of the lie "spartan" is
+/// a number of the list below plus 32 times a choice of place (matrix, round, layer, ...).
+///
+/// | 1, 2 | a round of the first sum-check tells the truth about a false claim |
+/// | 3, 4 | the same in the second |
+/// | 5, 6 | the product of `Az` and `Bz` |
+/// | 7 | the value of `Cz` |
+/// | 8 | the value of the witness |
+/// | 9, 10 | the point of the matrices (NIZK) |
+/// | 11 | the value of a matrix |
+/// | 12, 13, 14 | a half of its sum; what that comes down to; what this was opened to |
+/// | 15 | a looked up value |
+/// | 16, 17, 18 | a product of the memory; what that comes down to; the timestamp in it |
+/// | 19 | a round of a layer of that product tells the truth |
+/// | 20 | the value at the end of the first sum-check |
+/// | 21 | two looked up values, chosen after the randomness of the memory |
+#[cfg(verif_hooks)]
+pub(crate) mod verif_hooks {
+    extern crate std;
+    use crate::Vec;
+    use ark_ff::{PrimeField, SquareRootField};
+    use core::cell::RefCell;
+    use std::collections::BTreeMap;
+
+    std::thread_local! {
+        static KEPT: RefCell<BTreeMap<&'static str, Vec<u8>>> = RefCell::new(BTreeMap::new());
+    }
+
+    /// which lie is told, and where
+    pub(crate) fn lie() -> (usize, usize) {
+        match zkp_curve::verif_hooks::lie("spartan") {
+            Some(p) => (p & 31, p >> 5),
+            None => (0, 0),
+        }
+    }
+
+    pub(crate) fn any(codes: &[usize]) -> bool {
+        codes.contains(&lie().0)
+    }
+
+    /// lies that lead the false claim into the second sum-check
+    pub(crate) fn through() -> bool {
+        lie().0 > 2 && !any(&[5, 6, 20])
+    }
+
+    pub(crate) fn keep<F: PrimeField>(name: &'static str, x: F) {
+        let mut v = Vec::new();
+        x.serialize(&mut v).unwrap();
+        KEPT.with(|k| k.borrow_mut().insert(name, v));
+    }
+
+    /// what was kept, once
+    pub(crate) fn kept<F: PrimeField>(name: &'static str) -> Option<F> {
+        if lie().0 == 0 {
+            return None;
+        }
+        KEPT.with(|k| k.borrow_mut().remove(name))
+            .map(|v| F::deserialize(&v[..]).unwrap())
+    }
+
+    pub(crate) fn forget() {
+        KEPT.with(|k| k.borrow_mut().clear())
+    }
+
+    /// whether this round of the sum-check tells the truth
+    pub(crate) fn round(codes: &[usize], i: usize, rounds: usize) -> bool {
+        any(codes) && lie().1 % rounds == i
+    }
+
+    /// a point where f, linear in each coordinate, is what it should be
+    pub(crate) fn point<F: PrimeField>(r: &mut Vec<F>, target: F, f: impl Fn(&Vec<F>) -> F) {
+        let n = r.len();
+        for i in (0..n).map(|i| (i + lie().1) % n) {
+            let old = r[i];
+            r[i] = F::zero();
+            let at0 = f(r);
+            r[i] = F::one();
+            let slope = f(r) - &at0;
+            match slope.inverse() {
+                Some(s) => {
+                    r[i] = (target - &at0) * &s;
+                    return;
+                }
+                None => r[i] = old,
+            }
+        }
+    }
+
+    /// changes of one column of looked up values so that the sum over `others` grows by `d`;
+    /// with `hashes` given, two changes that also keep the memory consistent
+    pub(crate) fn looked_up<F: PrimeField + SquareRootField>(
+        e: &mut Vec<F>,
+        others: &Vec<F>,
+        d: F,
+        hashes: Option<(&Vec<F>, F)>,
+    ) {
+        let used: Vec<usize> = (0..e.len()).filter(|i| !others[*i].is_zero()).collect();
+        let (read, gamma) = match hashes {
+            None => {
+                if let Some(i) = used.get(lie().1 % used.len().max(1)) {
+                    e[*i] += &(d * &others[*i].inverse().unwrap());
+                }
+                return;
+            }
+            Some(x) => x,
+        };
+        // x at i and y at j, a x + b y = d; (r + 1 + g x)(s + 1 + g y) R = (r + g x)(s + g y),
+        // where R is what makes this right for x = y = 0
+        for i in used.iter().copied() {
+            for j in (0..e.len()).filter(|j| *j != i) {
+                let (a, b) = (others[i], others[j]);
+                let (r, s) = (read[i], read[j]);
+                let one = F::one();
+                let w = match ((r + &one) * &(s + &one)).inverse() {
+                    Some(w) => w * &r * &s,
+                    None => continue,
+                };
+                let f = |y: F| {
+                    let x = (d - &(b * &y)) * &a.inverse().unwrap();
+                    let (gx, gy) = (gamma * &x, gamma * &y);
+                    (r + &one + &gx) * &(s + &one + &gy) * &w - &((r + &gx) * &(s + &gy))
+                };
+                // f is quadratic
+                let two = F::one().double();
+                let (f0, f1, f2) = (f(F::zero()), f(one), f(two));
+                let qa = (f2 - &f1 - &f1 + &f0) * &two.inverse().unwrap();
+                let qb = f1 - &f0 - &qa;
+                let y = if qa.is_zero() {
+                    match qb.inverse() {
+                        Some(q) => -f0 * &q,
+                        None => continue,
+                    }
+                } else {
+                    match (qb.square() - &(qa * &f0).double().double()).sqrt() {
+                        Some(q) => (q - &qb) * &qa.double().inverse().unwrap(),
+                        None => continue,
+                    }
+                };
+                e[i] += &((d - &(b * &y)) * &a.inverse().unwrap());
+                e[j] += &y;
+                return;
+            }
+        }
+    }
+}
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 40e0f3f..71e35af 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -126,6 +126,8 @@ where
         rng,
         &mut transcript,
     )?;
+    #[cfg(verif_hooks)]
+    let (rx, ry) = lies::point::<G>(r1cs, rx, ry);
     let proof = NIZKProof::<G> {
         r1cs_satisfied_proof: r1cs_sat_proof,
         r: (rx, ry),
@@ -167,6 +169,8 @@ where
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, &rx, &ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, &rx, &ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, &rx, &ry);
+    #[cfg(verif_hooks)]
+    let (eval_a_r, eval_b_r, eval_c_r) = lies::evals::<G>([eval_a_r, eval_b_r, eval_c_r]);
     transcript.append_message(b"Ar_claim", &to_bytes!(eval_a_r).unwrap());
     transcript.append_message(b"Br_claim", &to_bytes!(eval_b_r).unwrap());
     transcript.append_message(b"Cr_claim", &to_bytes!(eval_c_r).unwrap());
@@ -279,6 +283,8 @@ where
     //6. compute va, vb, vc with proofs
     let (v_a, v_b, v_c, eq_tau) = polys_value_at_rx;
     let prod = v_a * &v_b;
+    #[cfg(verif_hooks)]
+    let (v_c, prod) = lies::values::<G>(v_c, prod, eq_tau);
 
     let blind_a = G::Fr::rand(rng);
     let blind_b = G::Fr::rand(rng);
@@ -318,8 +324,15 @@ where
     // 7. ex ?= (va * vb - vc) * eq(rx, τ) with proof
     let blind_claim_sc1 = eq_tau * &(blind_prod_ab - &blind_c);
     let claim_sc1 = eq_tau * &(prod - &v_c);
+    #[cfg(verif_hooks)]
+    let true_claim_sc1 = claim_sc1;
+    #[cfg(verif_hooks)]
+    let claim_sc1 = crate::verif_hooks::kept("sc1").unwrap_or(claim_sc1);
     let sc1_eq_proof = eq_proof::<G, R>(
         &params.sc_params.gen_1,
+        #[cfg(verif_hooks)]
+        true_claim_sc1,
+        #[cfg(not(verif_hooks))]
         claim_sc1,
         blind_claim_sc1,
         claim_sc1,
@@ -368,6 +381,10 @@ where
     .unwrap();
 
     let (vs, vz) = polys_value_at_ry;
+    #[cfg(verif_hooks)]
+    let (final_sc2, true_vs) = (crate::verif_hooks::kept("sc2"), vs);
+    #[cfg(verif_hooks)]
+    let vs = lies::combined::<G>(vs, vz, final_sc2, [r_a, r_b, r_c]);
     let claim_sc2 = vs * &vz;
 
     // 12. w(ry[1...])
@@ -375,6 +392,13 @@ where
     let eval_w_ry = (0..prover.aux_assignment.len())
         .map(|i| prover.aux_assignment[i] * &eq_ry_arr[i])
         .sum();
+    #[cfg(verif_hooks)]
+    let (eval_w_ry, claim_sc2) =
+        lies::witness::<G>(eval_w_ry, claim_sc2, true_vs, vz, ry[0], final_sc2);
+    #[cfg(verif_hooks)]
+    let true_claim_sc2 = claim_sc2;
+    #[cfg(verif_hooks)]
+    let claim_sc2 = final_sc2.unwrap_or(claim_sc2);
     let blind_eval = G::Fr::rand(rng);
     let (wproof, commit_ry) = inner_product_proof::<G, R>(
         &params.pc_params,
@@ -392,6 +416,9 @@ where
 
     let sc2_eq_proof = eq_proof::<G, R>(
         &params.pc_params.gen_1,
+        #[cfg(verif_hooks)]
+        true_claim_sc2,
+        #[cfg(not(verif_hooks))]
         claim_sc2,
         eval_at_zy_blind_claim,
         claim_sc2,
@@ -474,6 +501,14 @@ fn sum_check_proof_phase_one<G: Curve, R: Rng>(
             .sum();
         // g_i(1) = eval_1
         let eval_1 = claim - &eval_0;
+        #[cfg(verif_hooks)]
+        let eval_1 = if crate::verif_hooks::round(&[1, 2], i, num_rounds) {
+            (size..2 * size)
+                .map(|j| poly_eq[j] * &(poly_a[j] * &poly_b[j] - &poly_c[j]))
+                .sum()
+        } else {
+            eval_1
+        };
 
         // g_i(2) = eval_2 = 2eval_1 + (1-2)eval_0;
         let poly_a_tmp = combine_with_n::<G>(&poly_a.to_vec(), fr_two);
@@ -572,6 +607,11 @@ fn sum_check_proof_phase_one<G: Curve, R: Rng>(
         blind_poly_eval = blinds_evals[i];
         claim = eval_ri;
     }
+    #[cfg(verif_hooks)]
+    if crate::verif_hooks::lie().0 > 0 {
+        crate::verif_hooks::forget();
+        crate::verif_hooks::keep("sc1", claim);
+    }
 
     assert_eq!(poly_a.len(), 1);
     assert_eq!(poly_b.len(), 1);
@@ -633,6 +673,12 @@ fn sum_check_proof_phase_two<G: Curve, R: Rng>(
         let eval_0: G::Fr = (0..size).map(|j| poly_z[j] * &poly_abc[j]).sum();
         // g_i(1) = eval_1
         let eval_1 = claim - &eval_0;
+        #[cfg(verif_hooks)]
+        let eval_1 = if crate::verif_hooks::round(&[3, 4], i, num_rounds) {
+            (size..2 * size).map(|j| poly_z[j] * &poly_abc[j]).sum()
+        } else {
+            eval_1
+        };
 
         // g_i(2) = eval_2 = 2eval_1 + (1-2)eval_0;
         let poly_abc_tmp = combine_with_n::<G>(&poly_abc, fr_two);
@@ -706,6 +752,10 @@ fn sum_check_proof_phase_two<G: Curve, R: Rng>(
         claim = eval_rj;
         commit_claim = commit_eval;
     }
+    #[cfg(verif_hooks)]
+    if crate::verif_hooks::lie().0 > 0 {
+        crate::verif_hooks::keep("sc2", claim);
+    }
 
     let polys_value_at_ry = (poly_abc[0], poly_z[0]);
 
@@ -769,6 +819,11 @@ fn sum_check_eval_prover<G: Curve, R: Rng>(
         rc *= &r;
     }
     coeffs[0] += &w[0];
+    #[cfg(verif_hooks)]
+    if crate::verif_hooks::any(&[2, 4]) {
+        let told: G::Fr = (0..size).map(|i| polynomial[i] * &coeffs[i]).sum();
+        polynomial[0] += &((claim_value - &told) * &coeffs[0].inverse().unwrap());
+    }
 
     transcript.append_message(b"Cx", &to_bytes!(poly_commit).unwrap());
 
@@ -911,6 +966,12 @@ fn product_proof<G: Curve, R: Rng>(
 
     let z1 = b1 + &(c * &claim_a);
     let z2 = b2 + &(c * &blind_a);
+    #[cfg(verif_hooks)]
+    let claim_b = if crate::verif_hooks::any(&[6]) {
+        prod * &claim_a.inverse().unwrap()
+    } else {
+        claim_b
+    };
     let z3 = b3 + &(c * &claim_b);
     let z4 = b4 + &(c * &blind_b);
     let z5 = b5 + &(c * &(blind_prod - &(blind_a * &claim_b)));
@@ -1097,6 +1158,9 @@ where
         })
         .collect::<Vec<_>>();
 
+    #[cfg(verif_hooks)]
+    let (e_row, e_col) = lies::looked_up::<G>(e_row, e_col, encode);
+
     let mut e_list = Vec::new();
     for list in e_row.iter().chain(e_col.iter()).into_iter() {
         e_list.extend(list);
@@ -1123,6 +1187,8 @@ where
             random_bytes_to_fr::<G>(&buf)
         })
         .collect::<Vec<_>>();
+    #[cfg(verif_hooks)]
+    let (e_row, e_col) = lies::looked_up_late::<G>(e_row, e_col, encode, (gamma[0], gamma[1]));
     // evals & circuit
     let (row_layer, col_layer) = circuit_eval_opt::<G>(
         encode,
@@ -1182,7 +1248,15 @@ pub fn product_layer_prover<G: Curve>(
         .map(|i| row_write_list[i])
         .product();
     let row_audit = evaluate_product_circuit::<G>(&row_prod.audit_ts_prod).unwrap();
+    #[cfg(verif_hooks)]
+    let (row_init, row_read_list, row_write_list, row_audit) =
+        lies::products::<G>(0, row_init, row_read_list, row_write_list, row_audit);
+    #[cfg(not(verif_hooks))]
     assert_eq!(row_init * &row_write, row_read * &row_audit);
+    #[cfg(verif_hooks)]
+    assert!(
+        crate::verif_hooks::lie().0 > 14 || row_init * &row_write == row_read * &row_audit
+    );
 
     transcript.append_message(b"claim_row_eval_init", &to_bytes!(row_init).unwrap());
     transcript.append_message(b"claim_row_eval_read", &to_bytes!(row_read_list).unwrap());
@@ -1200,7 +1274,15 @@ pub fn product_layer_prover<G: Curve>(
         .map(|i| col_write_list[i])
         .product();
     let col_audit = evaluate_product_circuit::<G>(&col_prod.audit_ts_prod).unwrap();
+    #[cfg(verif_hooks)]
+    let (col_init, col_read_list, col_write_list, col_audit) =
+        lies::products::<G>(1, col_init, col_read_list, col_write_list, col_audit);
+    #[cfg(not(verif_hooks))]
     assert_eq!(col_init * &col_write, col_read * &col_audit);
+    #[cfg(verif_hooks)]
+    assert!(
+        crate::verif_hooks::lie().0 > 14 || col_init * &col_write == col_read * &col_audit
+    );
 
     transcript.append_message(b"claim_col_eval_init", &to_bytes!(col_init).unwrap());
     transcript.append_message(b"claim_col_eval_read", &to_bytes!(col_read_list).unwrap());
@@ -1235,6 +1317,9 @@ pub fn product_layer_prover<G: Curve>(
         let eval_dotp_right: G::Fr = (0..row_right.len())
             .map(|i| row_right[i] * &col_right[i] * &val_right[i])
             .sum();
+        #[cfg(verif_hooks)]
+        let (eval_dotp_left, eval_dotp_right) =
+            lies::halves::<G>(i, eval_dotp_left, eval_dotp_right, evals[i]);
 
         dotp_circuit_left_list.push((row_left, col_left, val_left));
         dotp_circuit_right_list.push((row_right, col_right, val_right));
@@ -1245,7 +1330,12 @@ pub fn product_layer_prover<G: Curve>(
             &to_bytes!(eval_dotp_right).unwrap(),
         );
 
+        #[cfg(not(verif_hooks))]
         assert_eq!(eval_dotp_left + &eval_dotp_right, evals[i]);
+        #[cfg(verif_hooks)]
+        assert!(
+            crate::verif_hooks::any(&[11]) || eval_dotp_left + &eval_dotp_right == evals[i]
+        );
 
         eval_dotp_left_list.push(eval_dotp_left);
         eval_dotp_right_list.push(eval_dotp_right);
@@ -1319,6 +1409,8 @@ pub fn product_circuit_eval_prover<G: Curve>(
     let mut claims_to_verify = (0..prod_circuit_vec.len())
         .map(|i| evaluate_product_circuit::<G>(&prod_circuit_vec[i]).unwrap())
         .collect::<Vec<G::Fr>>();
+    #[cfg(verif_hooks)]
+    let lied = lies::claim::<G>(&mut claims_to_verify);
     let mut layers_proof = Vec::new();
     let mut rands = Vec::new();
     let mut final_claim_dotp: (Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) =
@@ -1356,6 +1448,8 @@ pub fn product_circuit_eval_prover<G: Curve>(
                 poly_col_batched_seq.push(col);
                 poly_val_batched_seq.push(val);
 
+                #[cfg(verif_hooks)]
+                let sum = lies::half::<G>(poly_val_batched_seq.len() - 1, sum);
                 claims_to_verify.push(sum);
             }
         }
@@ -1372,6 +1466,11 @@ pub fn product_circuit_eval_prover<G: Curve>(
             .map(|j| claims_to_verify[j] * &coeffs[j])
             .sum();
         let num_rounds = log2(poly_rand_par.len()) as usize;
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::keep(
+            "truth",
+            G::Fr::from((lied.is_some() && lies::layer(layer_num - 1 - i, layer_num)) as u32),
+        );
 
         let (polys, rand_prod, claim_prod, claim_dotp) = sum_check_cubic_prover::<G>(
             num_rounds,
@@ -1387,6 +1486,16 @@ pub fn product_circuit_eval_prover<G: Curve>(
         )
         .unwrap();
 
+        #[cfg(verif_hooks)]
+        let (claim_prod, claim_dotp, diff) = lies::finals::<G>(
+            polys
+                .last()
+                .map_or(claim, |p| p.evaluate(rand_prod.last().unwrap())),
+            &coeffs,
+            claim_prod,
+            claim_dotp,
+            lied.filter(|_| lies::goes_on(layer_num - 1 - i, layer_num)),
+        );
         let (claim_prod_left, claim_prod_right, _) = claim_prod;
         for j in 0..claim_prod_left.len() {
             transcript.append_message(b"claim_prod_left", &to_bytes!(claim_prod_left[j]).unwrap());
@@ -1412,6 +1521,10 @@ pub fn product_circuit_eval_prover<G: Curve>(
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_r_layer", &mut buf);
         let r_layer = random_bytes_to_fr::<G>(&buf);
+        #[cfg(verif_hooks)]
+        if i == 0 {
+            lies::keep_finals::<G>(diff, r_layer, dotp_circuit_vec.len() > 0);
+        }
 
         claims_to_verify = (0..claim_prod_left.len())
             .map(|j| claim_prod_left[j] + &(r_layer * &(claim_prod_right[j] - &claim_prod_left[j])))
@@ -1526,6 +1639,15 @@ pub fn sum_check_cubic_prover<G: Curve>(
         assert_eq!(coeffs.len(), evals.len());
         let evals_sum_0: G::Fr = (0..coeffs.len()).map(|i| evals[i].0 * &coeffs[i]).sum();
         let evals_sum_1: G::Fr = claim_per_round - &evals_sum_0;
+        #[cfg(verif_hooks)]
+        let evals_sum_1 = lies::true_round::<G>(
+            evals_sum_1,
+            r.len(),
+            num_rounds,
+            (poly_a_batched_par, poly_b_batched_par, poly_c_par),
+            (poly_a_batched_seq, poly_b_batched_seq, poly_c_batched_seq),
+            coeffs,
+        );
         let evals_sum_2: G::Fr = (0..coeffs.len()).map(|i| evals[i].1 * &coeffs[i]).sum();
         let evals_sum_3: G::Fr = (0..coeffs.len()).map(|i| evals[i].2 * &coeffs[i]).sum();
         // degree = 3
@@ -1683,6 +1805,11 @@ pub fn hash_layer_prover<G: Curve, R: Rng>(
                 .sum()
         })
         .collect::<Vec<G::Fr>>();
+    #[cfg(verif_hooks)]
+    let eval_val_list = lies::opened::<G>(eval_val_list);
+    #[cfg(verif_hooks)]
+    let (row_eval_audit_ts_val, col_eval_audit_ts_val) =
+        lies::audit::<G>(row_eval_audit_ts_val, col_eval_audit_ts_val);
 
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(&row_eval_addr_ops_list);
@@ -1803,3 +1930,377 @@ pub fn pre_prover_for_timestamp<G: Curve>(
 
     Ok((eval_addr_ops_list, eval_read_ts_list, eval_audit_ts_val))
 }
+
+/// The places where a dishonest prover differs from the above (`--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+mod lies {
+    use super::*;
+    use crate::verif_hooks::{any, keep, kept, lie, looked_up as change, point as solve, through};
+
+    /// `prod` or `Cz` such that the first sum-check seems right
+    pub(super) fn values<G: Curve>(v_c: G::Fr, prod: G::Fr, eq_tau: G::Fr) -> (G::Fr, G::Fr) {
+        let claim: G::Fr = match kept("sc1") {
+            Some(c) => c,
+            None => return (v_c, prod),
+        };
+        keep("sc1", claim);
+        let q = claim * &eq_tau.inverse().unwrap();
+        if any(&[5, 6]) {
+            (v_c, v_c + &q)
+        } else if through() {
+            (prod - &q, prod)
+        } else {
+            (v_c, prod)
+        }
+    }
+
+    /// the combined matrices at (rx, ry) such that the second sum-check seems right
+    pub(super) fn combined<G: Curve>(
+        vs: G::Fr,
+        vz: G::Fr,
+        last: Option<G::Fr>,
+        r: [G::Fr; 3],
+    ) -> G::Fr {
+        match (last, vz.inverse()) {
+            (Some(last), Some(i)) if (9..20).contains(&lie().0) || lie().0 == 21 => {
+                keep("r_a", r[0]);
+                keep("r_b", r[1]);
+                keep("r_c", r[2]);
+                keep("vs", last * &i);
+                last * &i
+            }
+            _ => vs,
+        }
+    }
+
+    /// the witness at ry such that the second sum-check seems right
+    pub(super) fn witness<G: Curve>(
+        w: G::Fr,
+        claim: G::Fr,
+        vs: G::Fr,
+        vz: G::Fr,
+        r0: G::Fr,
+        last: Option<G::Fr>,
+    ) -> (G::Fr, G::Fr) {
+        match (last, vs.inverse(), (G::Fr::one() - &r0).inverse()) {
+            (Some(last), Some(i), Some(j)) if any(&[8]) => {
+                (w + &((last * &i - &vz) * &j), last)
+            }
+            _ => (w, claim),
+        }
+    }
+
+    /// a point where the combined matrices have the value that was used
+    pub(super) fn point<G: Curve>(
+        r1cs: &R1CSInstance<G>,
+        mut rx: Vec<G::Fr>,
+        mut ry: Vec<G::Fr>,
+    ) -> (Vec<G::Fr>, Vec<G::Fr>) {
+        let (a, b, c, vs): (G::Fr, G::Fr, G::Fr, G::Fr) =
+            match (kept("r_a"), kept("r_b"), kept("r_c"), kept("vs")) {
+                (Some(a), Some(b), Some(c), Some(vs)) => (a, b, c, vs),
+                _ => return (rx, ry),
+            };
+        let f = |x: &Vec<G::Fr>, y: &Vec<G::Fr>| {
+            evaluate_mle::<G>(&r1cs.a_matrix, x, y) * &a
+                + &(evaluate_mle::<G>(&r1cs.b_matrix, x, y) * &b)
+                + &(evaluate_mle::<G>(&r1cs.c_matrix, x, y) * &c)
+        };
+        if any(&[9]) {
+            solve(&mut rx, vs, |x| f(x, &ry));
+        } else if any(&[10]) {
+            solve(&mut ry, vs, |y| f(&rx, y));
+        }
+        (rx, ry)
+    }
+
+    /// the matrix lied about
+    fn matrix() -> usize {
+        lie().1 % 3
+    }
+
+    /// values of the matrices that give the combined value that was used
+    pub(super) fn evals<G: Curve>(mut e: [G::Fr; 3]) -> (G::Fr, G::Fr, G::Fr) {
+        let r: [Option<G::Fr>; 3] = [kept("r_a"), kept("r_b"), kept("r_c")];
+        if let ([Some(a), Some(b), Some(c)], Some(vs)) = (r, kept::<G::Fr>("vs")) {
+            if (11..20).contains(&lie().0) || any(&[21]) {
+                let k = matrix();
+                let d = (vs - &(a * &e[0] + &(b * &e[1]) + &(c * &e[2])))
+                    * &[a, b, c][k].inverse().unwrap();
+                e[k] += &d;
+                keep("d", d);
+            }
+        }
+        (e[0], e[1], e[2])
+    }
+
+    /// rows or columns
+    fn side() -> usize {
+        lie().1 / 3 % 2
+    }
+
+    type Lists<F> = (Vec<Vec<F>>, Vec<Vec<F>>);
+
+    pub(super) fn looked_up<G: Curve>(
+        mut e_row: Vec<Vec<G::Fr>>,
+        mut e_col: Vec<Vec<G::Fr>>,
+        encode: &EncodeMemory<G>,
+    ) -> Lists<G::Fr> {
+        if any(&[15, 16, 17, 18, 19]) {
+            let (k, d) = (matrix(), kept::<G::Fr>("d").unwrap());
+            let (e, f) = if side() == 0 {
+                (&mut e_row, &e_col)
+            } else {
+                (&mut e_col, &e_row)
+            };
+            let others = times::<G>(&f[k], &encode.val_list[k]);
+            change(&mut e[k], &others, d, None);
+        }
+        (e_row, e_col)
+    }
+
+    fn times<G: Curve>(a: &Vec<G::Fr>, b: &Vec<G::Fr>) -> Vec<G::Fr> {
+        (0..a.len()).map(|i| a[i] * &b[i]).collect()
+    }
+
+    pub(super) fn looked_up_late<G: Curve>(
+        mut e_row: Vec<Vec<G::Fr>>,
+        mut e_col: Vec<Vec<G::Fr>>,
+        encode: &EncodeMemory<G>,
+        gamma: (G::Fr, G::Fr),
+    ) -> Lists<G::Fr> {
+        if any(&[21]) {
+            let (k, d) = (matrix(), kept::<G::Fr>("d").unwrap());
+            let (e, f, ts) = if side() == 0 {
+                (&mut e_row, &e_col, &encode.row_addr_ts)
+            } else {
+                (&mut e_col, &e_row, &encode.col_addr_ts)
+            };
+            let others = times::<G>(&f[k], &encode.val_list[k]);
+            let read = (0..e[k].len())
+                .map(|i| {
+                    ts.addrs[k][i] * &gamma.0 * &gamma.0
+                        + &(e[k][i] * &gamma.0)
+                        + &ts.read_ts_list[k][i]
+                        - &gamma.1
+                })
+                .collect();
+            change(&mut e[k], &others, d, Some((&read, gamma.0)));
+        }
+        (e_row, e_col)
+    }
+
+    /// one of the eight products of a memory such that they seem consistent
+    pub(super) fn products<G: Curve>(
+        which: usize,
+        mut init: G::Fr,
+        mut read: Vec<G::Fr>,
+        mut write: Vec<G::Fr>,
+        mut audit: G::Fr,
+    ) -> (G::Fr, Vec<G::Fr>, Vec<G::Fr>, G::Fr) {
+        if any(&[16, 17, 18, 19]) && side() == which {
+            let at = if any(&[18]) { 7 } else { lie().1 / 6 % 8 };
+            let r: G::Fr = read.iter().product();
+            let w: G::Fr = write.iter().product();
+            let (num, den) = (r * &audit, init * &w);
+            let (up, down) = (
+                num * &den.inverse().unwrap(),
+                den * &num.inverse().unwrap(),
+            );
+            let value = match at {
+                0 => {
+                    init *= &up;
+                    init
+                }
+                1..=3 => {
+                    read[at - 1] *= &down;
+                    read[at - 1]
+                }
+                4..=6 => {
+                    write[at - 4] *= &up;
+                    write[at - 4]
+                }
+                _ => {
+                    audit *= &down;
+                    audit
+                }
+            };
+            keep("product", value);
+        }
+        (init, read, write, audit)
+    }
+
+    /// the claim of the product lied about, and its place among the claims
+    pub(super) fn claim<G: Curve>(claims: &mut Vec<G::Fr>) -> Option<usize> {
+        if !any(&[16, 17, 18, 19]) {
+            return None;
+        }
+        let at = if any(&[18]) { 7 } else { lie().1 / 6 % 8 };
+        let place = match (claims.len(), at) {
+            (4, 0) => 2 * side(),
+            (4, 7) => 2 * side() + 1,
+            (12, 1..=6) => 6 * side() + at - 1,
+            _ => return None,
+        };
+        claims[place] = kept("product").unwrap();
+        Some(place)
+    }
+
+    /// the layer where the lies end
+    fn last_layer(layers: usize) -> usize {
+        lie().1 / 48 % layers
+    }
+
+    /// whether a round of this layer tells the truth
+    pub(super) fn layer(layer: usize, layers: usize) -> bool {
+        // the first layer has no rounds
+        any(&[19]) && layers > 1 && layer == 1 + lie().1 / 48 % (layers - 1)
+    }
+
+    /// whether the values at the end of the layer are made up
+    pub(super) fn goes_on(layer: usize, layers: usize) -> bool {
+        match lie().0 {
+            16 => layer < last_layer(layers),
+            17 | 18 => true,
+            19 => layers > 1 && layer < 1 + lie().1 / 48 % (layers - 1),
+            _ => false,
+        }
+    }
+
+    pub(super) fn true_round<G: Curve>(
+        told: G::Fr,
+        round: usize,
+        rounds: usize,
+        par: (&Vec<&mut Vec<G::Fr>>, &Vec<&mut Vec<G::Fr>>, &Vec<G::Fr>),
+        seq: (
+            &Vec<&mut Vec<G::Fr>>,
+            &Vec<&mut Vec<G::Fr>>,
+            &Vec<&mut Vec<G::Fr>>,
+        ),
+        coeffs: &Vec<G::Fr>,
+    ) -> G::Fr {
+        let on: G::Fr = kept("truth").unwrap_or(G::Fr::zero());
+        keep("truth", on);
+        if on.is_zero() || round != lie().1 % rounds {
+            return told;
+        }
+        let half = par.2.len() / 2;
+        let mut sums = Vec::new();
+        for (a, b) in par.0.iter().zip(par.1.iter()) {
+            sums.push(
+                (half..2 * half)
+                    .map(|i| a[i] * &b[i] * &par.2[i])
+                    .sum::<G::Fr>(),
+            );
+        }
+        for ((a, b), c) in seq.0.iter().zip(seq.1.iter()).zip(seq.2.iter()) {
+            sums.push(
+                (half..2 * half)
+                    .map(|i| a[i] * &b[i] * &c[i])
+                    .sum::<G::Fr>(),
+            );
+        }
+        (0..sums.len()).map(|i| sums[i] * &coeffs[i]).sum()
+    }
+
+    /// the half of a matrix lied about
+    fn place() -> usize {
+        2 * matrix() + side()
+    }
+
+    pub(super) fn halves<G: Curve>(
+        i: usize,
+        left: G::Fr,
+        right: G::Fr,
+        eval: G::Fr,
+    ) -> (G::Fr, G::Fr) {
+        if !any(&[12, 13, 14]) {
+            (left, right)
+        } else if side() == 0 {
+            if i == matrix() {
+                keep("half", eval - &right);
+            }
+            (eval - &right, right)
+        } else {
+            if i == matrix() {
+                keep("half", eval - &left);
+            }
+            (left, eval - &left)
+        }
+    }
+
+    pub(super) fn half<G: Curve>(i: usize, sum: G::Fr) -> G::Fr {
+        if any(&[12, 13, 14]) && i == place() {
+            kept("half").unwrap()
+        } else {
+            sum
+        }
+    }
+
+    type Three<F> = (Vec<F>, Vec<F>, Vec<F>);
+
+    /// values at the end of a layer such that its sum-check seems right
+    pub(super) fn finals<G: Curve>(
+        last: G::Fr,
+        coeffs: &Vec<G::Fr>,
+        mut prod: (Vec<G::Fr>, Vec<G::Fr>, G::Fr),
+        mut dotp: Three<G::Fr>,
+        lied: Option<usize>,
+    ) -> ((Vec<G::Fr>, Vec<G::Fr>, G::Fr), Three<G::Fr>, G::Fr) {
+        let n = prod.0.len();
+        let told: G::Fr = (0..n)
+            .map(|i| coeffs[i] * &prod.0[i] * &prod.1[i] * &prod.2)
+            .sum::<G::Fr>()
+            + &(0..dotp.0.len())
+                .map(|i| coeffs[n + i] * &dotp.0[i] * &dotp.1[i] * &dotp.2[i])
+                .sum::<G::Fr>();
+        let gap = last - &told;
+        let mut diff = G::Fr::zero();
+        if let Some(i) = lied {
+            diff = gap * &(coeffs[i] * &prod.1[i] * &prod.2).inverse().unwrap();
+            prod.0[i] += &diff;
+        } else if any(&[13, 14]) && dotp.0.len() > 0 {
+            let i = place();
+            let what = if any(&[14]) { 2 } else { lie().1 / 6 % 3 };
+            let (a, b) = match what {
+                0 => (dotp.1[i], dotp.2[i]),
+                1 => (dotp.0[i], dotp.2[i]),
+                _ => (dotp.0[i], dotp.1[i]),
+            };
+            if let Some(inv) = (coeffs[n + i] * &a * &b).inverse() {
+                diff = gap * &inv;
+                match what {
+                    0 => dotp.0[i] += &diff,
+                    1 => dotp.1[i] += &diff,
+                    _ => dotp.2[i] += &diff,
+                }
+            }
+        }
+        (prod, dotp, diff)
+    }
+
+    /// what the values made up in the last layer come down to
+    pub(super) fn keep_finals<G: Curve>(diff: G::Fr, r: G::Fr, ops: bool) {
+        if any(&[14]) && ops {
+            let share = if side() == 0 { G::Fr::one() - &r } else { r };
+            keep("val", diff * &share);
+        } else if any(&[18]) && !ops {
+            keep("audit", diff * &(G::Fr::one() - &r));
+        }
+    }
+
+    pub(super) fn opened<G: Curve>(mut vals: Vec<G::Fr>) -> Vec<G::Fr> {
+        if let Some(d) = kept::<G::Fr>("val") {
+            vals[matrix()] += &d;
+        }
+        vals
+    }
+
+    pub(super) fn audit<G: Curve>(row: G::Fr, col: G::Fr) -> (G::Fr, G::Fr) {
+        match (kept::<G::Fr>("audit"), side()) {
+            (Some(d), 0) => (row + &d, col),
+            (Some(d), _) => (row, col + &d),
+            _ => (row, col),
+        }
+    }
+}
diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index 4a24687..561aeec 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -284,7 +284,10 @@ pub fn memory_checking<G: Curve>(
         .map(|i| evaluate_product_circuit::<G>(&write_ts_prod_list[i]).unwrap())
         .product();
     let audit = evaluate_product_circuit::<G>(&audit_ts_prod).unwrap();
+    #[cfg(not(verif_hooks))]
     assert_eq!(init * &write, read * &audit);
+    #[cfg(verif_hooks)]
+    assert!(crate::verif_hooks::lie().0 > 14 || init * &write == read * &audit);
 
     let prod = ProdForMemoryChecking::<G> {
         init_prod,
-- 
2.43.0


From 307ea5ed7f23d501b9d17b0d9eebb4d5336ed610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 57/60] verif hooks: dishonest rows (cfg verif_hooks) in
 spartan

---
 spartan/src/lib.rs    |  1 +
 spartan/src/prover.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/spartan/src/lib.rs b/spartan/src/lib.rs
index 88b919f..6dfbf71 100644
--- a/spartan/src/lib.rs
+++ b/spartan/src/lib.rs
@@ -235,6 +235,7 @@ pub mod nizk {
 /// | 19 | a round of a layer of that product tells the truth |
 /// | 20 | the value at the end of the first sum-check |
 /// | 21 | two looked up values, chosen after the randomness of the memory |
+/// | 22 | two of `Az`, `Bz`, `Cz` in the rows of violated constraints |
 #[cfg(verif_hooks)]
 pub(crate) mod verif_hooks {
     extern crate std;
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 71e35af..09636ec 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -267,6 +267,8 @@ where
     let mut ma = evaluate_matrix_vec::<G>(&r1cs.a_matrix, &z);
     let mut mb = evaluate_matrix_vec::<G>(&r1cs.b_matrix, &z);
     let mut mc = evaluate_matrix_vec::<G>(&r1cs.c_matrix, &z);
+    #[cfg(verif_hooks)]
+    lies::rows::<G>(&mut ma, &mut mb, &mut mc);
     //5. sumcheck #1: ex = G_τ(rx)
     let (proof_sc1, rx, polys_value_at_rx, blinds_eval1) = sum_check_proof_phase_one::<G, R>(
         num_rounds_x,
@@ -1935,8 +1937,46 @@ pub fn pre_prover_for_timestamp<G: Curve>(
 #[cfg(verif_hooks)]
 mod lies {
     use super::*;
+    use ark_ff::SquareRootField;
     use crate::verif_hooks::{any, keep, kept, lie, looked_up as change, point as solve, through};
 
+    /// rows that satisfy the constraints, with two of the three products changed by the
+    /// same amount or by opposite ones
+    pub(super) fn rows<G: Curve>(a: &mut [G::Fr], b: &mut [G::Fr], c: &mut [G::Fr]) {
+        if !any(&[22]) {
+            return;
+        }
+        let (pair, s) = match lie().1 % 6 {
+            p if p % 2 == 0 => (p / 2, G::Fr::one()),
+            p => (p / 2, -G::Fr::one()),
+        };
+        for i in 0..a.len() {
+            let off = c[i] - &(a[i] * &b[i]);
+            if off.is_zero() {
+                continue;
+            }
+            let (x, y) = match pair {
+                0 => (&mut *a, b[i]),
+                _ => (&mut *b, a[i]),
+            };
+            if pair < 2 {
+                // (x + d) y = c - s d
+                if let Some(inv) = (y + &s).inverse() {
+                    x[i] += &(off * &inv);
+                    c[i] -= &(s * &off * &inv);
+                }
+                continue;
+            }
+            // (a + d) (b - s d) = c
+            let q = b[i] - &(s * &a[i]);
+            if let Some(root) = (q.square() - &(s * &off).double().double()).sqrt() {
+                let d = (q + &root) * &(s.double()).inverse().unwrap();
+                a[i] += &d;
+                b[i] -= &(s * &d);
+            }
+        }
+    }
+
     /// `prod` or `Cz` such that the first sum-check seems right
     pub(super) fn values<G: Curve>(v_c: G::Fr, prod: G::Fr, eq_tau: G::Fr) -> (G::Fr, G::Fr) {
         let claim: G::Fr = match kept("sc1") {
-- 
2.43.0


From 76d70bd6d1899b49d896481b23bc58b27019e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 58/60] verif hooks: dishonest rows (cfg verif_hooks) in marlin

---
 marlin/src/ahp/prover.rs |  5 ++++
 marlin/src/lib.rs        | 64 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index b82f6c1..7512126 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -130,6 +130,11 @@ impl<F: PrimeField> AHP<F> {
         };
         let z_a = index.a.0.iter().map(|row| inner_product(row)).collect();
         let z_b = index.b.0.iter().map(|row| inner_product(row)).collect();
+        #[cfg(verif_hooks)]
+        let (z_a, z_b) = {
+            let z_c = index.c.0.iter().map(|row| inner_product(row)).collect();
+            crate::verif_hooks::rows::<F>(z_a, z_b, z_c)
+        };
 
         let domain_x = GeneralEvaluationDomain::new(num_input_variables)
             .ok_or(SynthesisError::PolynomialDegreeTooLarge)?;
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index a6b0547..d3d6a2e 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -62,12 +62,14 @@ use fs_rng::FiatShamirRng;
 /// coefficient of g_1, 2 chooses t so that the outer sum is right and hides the
 /// wrong inner sum in the top coefficient of g_2, 3 chooses t so and leaves the
 /// inner sum wrong, 4 puts the outer equation right by the claimed evaluation of
-/// the polynomial with the given label, 5 does 3 and likewise with the inner one.
+/// the polynomial with the given label, 5 does 3 and likewise with the inner one,
+/// 6 to 11 change two of the products of violated rows by the same amount or by
+/// opposite ones so that the rows are satisfied.
 #[cfg(verif_hooks)]
 pub mod verif_hooks {
     extern crate std;
     use super::*;
-    use ark_ff::{Field, FromBytes, PrimeField};
+    use ark_ff::{FftParameters, Field, FpParameters, FromBytes, PrimeField};
     use std::cell::{Cell, RefCell};
     std::thread_local! {
         static LIE: Cell<(usize, &'static str)> = Cell::new((0, ""));
@@ -84,6 +86,64 @@ pub mod verif_hooks {
     pub fn off<F: Field>(by: &F) {
         OFF.with(|o| *o.borrow_mut() = to_bytes![by].unwrap());
     }
+    /// Tonelli and Shanks.
+    fn sqrt<F: PrimeField>(x: F) -> Option<F> {
+        let t = x.pow(F::Params::T_MINUS_ONE_DIV_TWO);
+        let (mut r, mut b) = (t * &x, t.square() * &x);
+        let mut z = F::two_adic_root_of_unity();
+        let mut m = <F::Params as FftParameters>::TWO_ADICITY;
+        while !b.is_one() && !b.is_zero() {
+            let (mut k, mut y) = (0, b);
+            while !y.is_one() {
+                y = y.square();
+                k += 1;
+            }
+            if k >= m {
+                return None;
+            }
+            let mut w = z;
+            for _ in 0..m - k - 1 {
+                w = w.square();
+            }
+            z = w.square();
+            r *= w;
+            b *= z;
+            m = k;
+        }
+        Some(r)
+    }
+    /// Satisfied rows for violated ones; the third product is that of the first two.
+    pub(crate) fn rows<F: PrimeField>(
+        mut a: Vec<F>,
+        mut b: Vec<F>,
+        c: Vec<F>,
+    ) -> (Vec<F>, Vec<F>) {
+        let (pair, s) = match lie() {
+            l @ 6..=11 if l % 2 == 0 => ((l - 6) / 2, F::one()),
+            l @ 6..=11 => ((l - 6) / 2, -F::one()),
+            _ => return (a, b),
+        };
+        for i in 0..a.len() {
+            let off = c[i] - &(a[i] * &b[i]);
+            match pair {
+                // (a + d) b = c - s d
+                0 => a[i] += off * &(b[i] + &s).inverse().unwrap_or(F::zero()),
+                // a (b + d) = c - s d
+                1 => b[i] += off * &(a[i] + &s).inverse().unwrap_or(F::zero()),
+                // (a + d) (b - s d) = c
+                _ => {
+                    let q = b[i] - &(s * &a[i]);
+                    let root = sqrt(q.square() - &(s * &off).double().double());
+                    if let (Some(root), false) = (root, off.is_zero()) {
+                        let d = (q + &root) * &s.double().inverse().unwrap();
+                        a[i] += d;
+                        b[i] -= s * &d;
+                    }
+                }
+            }
+        }
+        (a, b)
+    }
     /// What to add to the evaluation of `label` at `point`.
     pub(crate) fn delta<F: PrimeField>(
         label: &str,
-- 
2.43.0


From c582ea45390631b12d3599eb76ca2ff57778f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 59/60] verif hooks: grand products with another start (cfg
 verif_hooks) in plonk

---
 plonk/src/ahp/indexer/permutation.rs | 31 ++++++++++++++++++++++++++++
 plonk/src/lib.rs                     |  8 +++++++
 2 files changed, 39 insertions(+)

diff --git a/plonk/src/ahp/indexer/permutation.rs b/plonk/src/ahp/indexer/permutation.rs
index bb50a26..29f1466 100644
--- a/plonk/src/ahp/indexer/permutation.rs
+++ b/plonk/src/ahp/indexer/permutation.rs
@@ -113,6 +113,37 @@ impl<F: Field> PermutationKey<F> {
         if crate::verif_hooks::lie() == 2 {
             z = ark_std::vec![F::zero(); n];
         }
+        // a grand product that starts elsewhere than at one, so that what is missing there makes up for
+        // another equation should the verifier weigh the two alike (3..=6: the grand product's own
+        // equation at the first row, 7..=10: the gate's)
+        #[cfg(verif_hooks)]
+        {
+            let lie = crate::verif_hooks::lie();
+            let weights = |i: usize, b: F, g: F| [F::one(), -F::one(), b, g][i];
+            if lie >= 3 && lie <= 6 {
+                let s = weights(lie - 3, *beta, *gamma);
+                let first = numerator_factor(&w_0_n[0], &roots[0], &ks[0])
+                    * numerator_factor(&w_1_n[0], &roots[0], &ks[1])
+                    * numerator_factor(&w_2_n[0], &roots[0], &ks[2])
+                    * numerator_factor(&w_3_n[0], &roots[0], &ks[3]);
+                let below = first * perms[0].inverse().unwrap();
+                let rest: F = perms[1..].iter().product();
+                // z_1 below = z_0 first + s (z_0 - 1) and z_0 = z_1 rest
+                let start = -(rest * s) * (below - rest * (first + s)).inverse().unwrap();
+                z[0] = start;
+                acc = (start * first + s * (start - F::one())) * below.inverse().unwrap();
+                for i in 1..n {
+                    z[i] = acc;
+                    acc *= perms[i];
+                }
+            }
+            if lie >= 7 && lie <= 10 {
+                let s = weights(lie - 7, beta.square(), gamma.square());
+                let miss = F::deserialize(&crate::verif_hooks::gate()[..]).unwrap();
+                let start = F::one() - miss * s.inverse().unwrap();
+                z.iter_mut().for_each(|v| *v *= start);
+            }
+        }
         #[cfg(verif_hooks)]
         let honest = crate::verif_hooks::lie() == 0;
         #[cfg(not(verif_hooks))]
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 2ac6f23..2285e64 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -52,6 +52,14 @@ pub mod verif_hooks {
     extern crate std;
     use std::cell::Cell;
     std::thread_local! { static LIE: Cell<usize> = Cell::new(0); }
+    std::thread_local! { static GATE: Cell<[u8; 64]> = Cell::new([0; 64]); }
+    /// what the equation of gate 0 misses zero by (little endian)
+    pub fn set_gate(bytes: [u8; 64]) {
+        GATE.with(|g| g.set(bytes))
+    }
+    pub fn gate() -> [u8; 64] {
+        GATE.with(|g| g.get())
+    }
     pub fn set(lie: usize) {
         LIE.with(|l| l.set(lie))
     }
-- 
2.43.0


From a3de217e5efb536ef4bfe1665a207449bc75f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:39 +0000
Subject: [PATCH 60/60] verif hooks: dishonest provers whose errors cancel (cfg
 verif_hooks) in libra, hyrax, spartan

---
 hyrax/src/lib.rs                 | 57 ++++++++++++++++++++++---
 hyrax/src/zk_sumcheck_proof.rs   | 32 ++++++++------
 libra/src/lib.rs                 | 73 +++++++++++++++++++++++++++++++-
 libra/src/libra_linear_gkr.rs    | 21 +++++++++
 libra/src/libra_zk_linear_gkr.rs | 21 +++++++++
 libra/src/sumcheck.rs            | 20 +++++----
 spartan/src/lib.rs               | 27 +++++++++++-
 spartan/src/prover.rs            | 25 +++++++----
 8 files changed, 240 insertions(+), 36 deletions(-)

diff --git a/hyrax/src/lib.rs b/hyrax/src/lib.rs
index f92ce2d..8d23cba 100644
--- a/hyrax/src/lib.rs
+++ b/hyrax/src/lib.rs
@@ -33,10 +33,14 @@ pub(crate) mod verif_hooks {
     use crate::circuit::{Circuit, Gate};
     use crate::evaluate::eval_eq;
     use crate::Vec;
-    use ark_ff::{Field, One};
+    use ark_ff::{Field, One, SquareRootField, Zero};
     use zkp_curve::{verif_hooks::lie, Curve};
 
-    const LABELS: [&str; 8] = [
+    const LABELS: [&str; 12] = [
+        "hyrax.rows",
+        "hyrax.rows-",
+        "hyrax.pair",
+        "hyrax.pair-",
         "hyrax.layer",
         "hyrax.chain",
         "hyrax.x",
@@ -95,13 +99,49 @@ pub(crate) mod verif_hooks {
     }
 
     /// whether this round tells the truth about a false claim
-    pub(crate) fn round(phase: usize, round: usize, rounds: usize) -> bool {
-        match lie("hyrax.round") {
+    pub(crate) fn round(label: &str, phase: usize, round: usize, rounds: usize) -> bool {
+        match lie(label) {
             Some(p) => (p >> 8 & 3) % 3 == phase && (p >> 10 & 63) % rounds == round,
             None => false,
         }
     }
 
+    /// The round's values at 0 and 1, and what they have too much: a round that says the truth adds
+    /// the same to all of its polynomial so that two equations weighed alike (or oppositely) hold together
+    pub(crate) fn rows<G: Curve, F: Fn() -> G::Fr>(
+        phase: usize,
+        at: usize,
+        rounds: usize,
+        eval_0: G::Fr,
+        eval_1: G::Fr,
+        truth: F,
+    ) -> (G::Fr, G::Fr, G::Fr) {
+        let share = if round("hyrax.round", phase, at, rounds) {
+            G::Fr::zero()
+        } else if round("hyrax.rows", phase, at, rounds) {
+            G::Fr::one()
+        } else if round("hyrax.rows-", phase, at, rounds) {
+            G::Fr::from(3u32).inverse().unwrap()
+        } else {
+            return (eval_0, eval_1, G::Fr::zero());
+        };
+        let spare = (eval_1 - &truth()) * &share;
+        (eval_0 + &spare, truth() + &spare, spare)
+    }
+
+    /// values with the same sum (or difference) that satisfy the claim
+    fn pair<G: Curve>(claim: G::Fr, add: G::Fr, mult: G::Fr, sum: G::Fr, s: G::Fr) -> Option<(G::Fr, G::Fr)> {
+        // y = s (sum - x): add (x + y) + mult x y = claim
+        let a = -(mult * &s);
+        let b = add * &(G::Fr::one() - &s) + &(mult * &s * &sum);
+        let c = add * &s * &sum - &claim;
+        let x = match a.double().inverse() {
+            Some(i) => ((b * &b - &(a * &c).double().double()).sqrt()? - &b) * &i,
+            None => -c * &b.inverse()?,
+        };
+        Some((x, s * &(sum - &x)))
+    }
+
     /// final values that satisfy the claim
     pub(crate) fn values_at_r<G: Curve>(
         claim: G::Fr,
@@ -111,7 +151,14 @@ pub(crate) mod verif_hooks {
         y: G::Fr,
     ) -> (G::Fr, G::Fr, G::Fr) {
         let solve = |o: G::Fr| (add + &(mult * &o)).inverse().map(|i| (claim - &(add * &o)) * &i);
-        if lie("hyrax.x").or(lie("hyrax.open0")).is_some() {
+        let one = G::Fr::one();
+        if lie("hyrax.pair").is_some() {
+            let (x, y) = pair::<G>(claim, add, mult, x + &y, one).unwrap_or((x, y));
+            (x, y, x * &y)
+        } else if lie("hyrax.pair-").is_some() {
+            let (x, y) = pair::<G>(claim, add, mult, x - &y, -one).unwrap_or((x, y));
+            (x, y, x * &y)
+        } else if lie("hyrax.x").or(lie("hyrax.open0")).is_some() {
             let x = solve(y).unwrap_or(x);
             (x, y, x * &y)
         } else if lie("hyrax.y").or(lie("hyrax.open1")).is_some() {
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 25fe91b..c5af571 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -168,7 +168,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
             }
             let eval_1 = claim - &eval_0;
             #[cfg(verif_hooks)]
-            let eval_1 = if crate::verif_hooks::round(0, j, log_n) {
+            let (eval_0, eval_1, spare) = crate::verif_hooks::rows::<G, _>(0, j, log_n, eval_0, eval_1, || {
                 (gates.iter().zip(temp_vec.iter()))
                     .map(|(g, p)| {
                         (size..2 * size)
@@ -179,9 +179,11 @@ impl<G: Curve> ZkSumcheckProof<G> {
                             .sum::<G::Fr>()
                     })
                     .sum()
-            } else {
-                eval_1
-            };
+            });
+            #[cfg(verif_hooks)]
+            let eval_2 = eval_2 + &spare;
+            #[cfg(verif_hooks)]
+            let eval_3 = eval_3 + &spare;
 
             // degree = 3
             // f(x) = ax^3 + bx^2 + cx + d
@@ -230,6 +232,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
             circuit_evals = circuit_evals_tmp;
 
             let eval_ri = poly.evaluate(&r_i);
+            #[cfg(verif_hooks)]
+            let eval_ri = eval_ri - &spare;
             let comm_eval = poly_commit_vec::<G>(
                 &params.gen_1.generators,
                 &vec![eval_ri],
@@ -314,7 +318,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
             }
             let eval_1 = claim - &eval_0;
             #[cfg(verif_hooks)]
-            let eval_1 = if crate::verif_hooks::round(1, j, log_ng) {
+            let (eval_0, eval_1, spare) = crate::verif_hooks::rows::<G, _>(1, j, log_ng, eval_0, eval_1, || {
                 (gates.iter().zip(temp_p_xg_vec.iter()).zip(left_eq_vec.iter()))
                     .map(|((g, p), eq)| {
                         (size..2 * size)
@@ -325,9 +329,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
                             .sum::<G::Fr>()
                     })
                     .sum()
-            } else {
-                eval_1
-            };
+            });
+            #[cfg(verif_hooks)]
+            let eval_2 = eval_2 + &spare;
 
             // degree = 2
             // f(x) = ax^2 + bx + c
@@ -362,6 +366,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
 
             v_vec_left = combine_with_r::<G>(&v_vec_left, r_i);
             let eval_ri = poly.evaluate(&r_i);
+            #[cfg(verif_hooks)]
+            let eval_ri = eval_ri - &spare;
             let comm_eval = poly_commit_vec::<G>(
                 &params.gen_1.generators,
                 &vec![eval_ri],
@@ -434,7 +440,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
             }
             let eval_1 = claim - &eval_0;
             #[cfg(verif_hooks)]
-            let eval_1 = if crate::verif_hooks::round(2, j, log_ng) {
+            let (eval_0, eval_1, spare) = crate::verif_hooks::rows::<G, _>(2, j, log_ng, eval_0, eval_1, || {
                 (gates.iter().zip(temp_p_xg_vec.iter()).zip(right_eq_vec.iter()))
                     .map(|((g, p), eq)| {
                         (size..2 * size)
@@ -445,9 +451,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
                             .sum::<G::Fr>()
                     })
                     .sum()
-            } else {
-                eval_1
-            };
+            });
+            #[cfg(verif_hooks)]
+            let eval_2 = eval_2 + &spare;
 
             // degree = 2
             // f(x) = ax^2 + bx + c
@@ -481,6 +487,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
 
             v_vec_right = combine_with_r::<G>(&v_vec_right, r_i);
             let eval_ri = poly.evaluate(&r_i);
+            #[cfg(verif_hooks)]
+            let eval_ri = eval_ri - &spare;
             let comm_eval = poly_commit_vec::<G>(
                 &params.gen_1.generators,
                 &vec![eval_ri],
diff --git a/libra/src/lib.rs b/libra/src/lib.rs
index 09a392d..af99aff 100644
--- a/libra/src/lib.rs
+++ b/libra/src/lib.rs
@@ -42,10 +42,14 @@ pub(crate) fn polynomial_to_bytes<G: Curve>(p: &DensePolynomial<G::Fr>) -> Vec<u
 pub(crate) mod verif_hooks {
     use crate::circuit::Circuit;
     use crate::Vec;
-    use ark_ff::{Field, One};
+    use ark_ff::{Field, One, SquareRootField, Zero};
     use zkp_curve::{verif_hooks::lie, Curve};
 
-    const LABELS: [&str; 8] = [
+    const LABELS: [&str; 12] = [
+        "libra.rows",
+        "libra.rows-",
+        "libra.pair",
+        "libra.pair-",
         "libra.layer",
         "libra.x",
         "libra.y",
@@ -94,6 +98,71 @@ pub(crate) mod verif_hooks {
         }
     }
 
+    /// Left and right operands for the gates of layer d that satisfy a false claim, such that the next
+    /// claim is true if it weighs the two alike (or oppositely): both are shifted by the same amount.
+    pub(crate) fn operands<G: Curve>(
+        claim: G::Fr,
+        d: usize,
+        depth: usize,
+        weights: (&Vec<G::Fr>, &Vec<G::Fr>, G::Fr, G::Fr),
+        gates: &Vec<crate::circuit::Gate>,
+        values: &Vec<G::Fr>,
+    ) -> (Vec<G::Fr>, Vec<G::Fr>) {
+        let (p, s) = match (lie("libra.pair"), lie("libra.pair-")) {
+            (Some(p), _) => (p, -G::Fr::one()),
+            (_, Some(p)) => (p, G::Fr::one()),
+            _ => return (values.clone(), values.clone()),
+        };
+        if (p & 15) % depth != d || d < 2 {
+            return (values.clone(), values.clone());
+        }
+        let (gu, gv, alpha, beta) = weights;
+        let (eu, ev) = (crate::evaluate::eval_eq::<G>(gu), crate::evaluate::eval_eq::<G>(gv));
+        let (mut a, mut b, mut c) = (G::Fr::zero(), G::Fr::zero(), -claim);
+        for gate in gates.iter() {
+            let w = alpha * &eu[gate.g] + &(beta * &ev[gate.g]);
+            let (l, r) = (values[gate.left_node], values[gate.right_node]);
+            if gate.op == 0 {
+                b += &(w * &(s + &G::Fr::one()));
+                c += &(w * &(l + &r));
+            } else {
+                a += &(w * &s);
+                b += &(w * &(s * &l + &r));
+                c += &(w * &l * &r);
+            }
+        }
+        let shift = match (a.double().inverse(), (b * &b - &(a * &c).double().double()).sqrt(), b.inverse()) {
+            (Some(i), Some(root), _) => (root - &b) * &i,
+            (None, _, Some(i)) => -c * &i,
+            _ => G::Fr::zero(),
+        };
+        let moved = |by: G::Fr| values.iter().map(|v| *v + &by).collect();
+        (moved(shift), moved(s * &shift))
+    }
+
+    /// The round's values at 0 and 1, and what they have too much: a round that says the truth adds
+    /// the same to all of its polynomial so that two equations weighed alike (or oppositely) hold together
+    pub(crate) fn rows<G: Curve, F: Fn() -> G::Fr>(
+        phase: usize,
+        at: usize,
+        rounds: usize,
+        eval_0: G::Fr,
+        eval_1: G::Fr,
+        truth: F,
+    ) -> (G::Fr, G::Fr, G::Fr) {
+        let share = if round("libra.round", phase, at, rounds) {
+            G::Fr::zero()
+        } else if round("libra.rows", phase, at, rounds) {
+            G::Fr::from(3u32).inverse().unwrap()
+        } else if round("libra.rows-", phase, at, rounds) {
+            G::Fr::one()
+        } else {
+            return (eval_0, eval_1, G::Fr::zero());
+        };
+        let spare = (eval_1 - &truth()) * &share;
+        (eval_0 + &spare, truth() + &spare, spare)
+    }
+
     /// whether this round tells the truth about a false claim
     pub(crate) fn round(label: &str, phase: usize, round: usize, rounds: usize) -> bool {
         match lie(label) {
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 1901941..ab604ca 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -56,18 +56,33 @@ impl<G: Curve> LinearGKRProof<G> {
         for d in (1..circuit.depth).rev() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let uv_size = circuit.layers[d - 1].bit_size;
+            #[cfg(verif_hooks)]
+            let (left, right) = crate::verif_hooks::operands::<G>(
+                claim,
+                d,
+                circuit.depth,
+                (&gu, &gv, alpha, beta),
+                &circuit.layers[d].gates,
+                &circuit_evals[d - 1],
+            );
             // phase1
             let (mul_hg_vec, add_hg_vec1, add_hg_vec2) = initialize_phase_one::<G>(
                 &gu,
                 &gv,
                 &circuit.layers[d].gates,
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &right,
                 uv_size,
                 alpha,
                 beta,
             );
             let (proof_phase_one, ru) = SumCheckProof::phase_one_prover(
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &left,
                 &(mul_hg_vec, add_hg_vec1, add_hg_vec2),
                 uv_size,
                 claim,
@@ -81,7 +96,10 @@ impl<G: Curve> LinearGKRProof<G> {
                 &gv,
                 &ru,
                 &circuit.layers[d].gates,
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &left,
                 uv_size,
                 alpha,
                 beta,
@@ -89,7 +107,10 @@ impl<G: Curve> LinearGKRProof<G> {
             #[cfg(verif_hooks)]
             let fu = eval_ru[0];
             let (proof_phase_two, rv) = SumCheckProof::phase_two_prover(
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &right,
                 &(mul_hg_vec, add_hg_vec, fu),
                 uv_size,
                 claim,
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index 926b1c2..54e9d49 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -95,19 +95,34 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         for d in (1..circuit.depth).rev() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let uv_size = circuit.layers[d - 1].bit_size;
+            #[cfg(verif_hooks)]
+            let (left, right) = crate::verif_hooks::operands::<G>(
+                claim,
+                d,
+                circuit.depth,
+                (&gu, &gv, alpha, beta),
+                &circuit.layers[d].gates,
+                &circuit_evals[d - 1],
+            );
             // phase1
             let (mul_hg_vec, add_hg_vec1, add_hg_vec2) = initialize_phase_one::<G>(
                 &gu,
                 &gv,
                 &circuit.layers[d].gates,
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &right,
                 uv_size,
                 alpha,
                 beta,
             );
             let (proof_phase_one, eval_ru, blind_u, ru) = ZKSumCheckProof::phase_one_prover::<R>(
                 &params.sc_params,
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &left,
                 &(mul_hg_vec, add_hg_vec1, add_hg_vec2),
                 uv_size,
                 claim,
@@ -131,7 +146,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 &gv,
                 &ru,
                 &circuit.layers[d].gates,
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &left,
                 uv_size,
                 alpha,
                 beta,
@@ -140,7 +158,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             let fu = eval_ru[0];
             let (proof_phase_two, eval_rv, blind_v, rv) = ZKSumCheckProof::phase_two_prover::<R>(
                 &params.sc_params,
+                #[cfg(not(verif_hooks))]
                 &circuit_evals[d - 1],
+                #[cfg(verif_hooks)]
+                &right,
                 &(mul_hg_vec, add_hg_vec, fu),
                 uv_size,
                 claim,
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index fd2a5b3..208476b 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -266,11 +266,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
                 .sum();
             let eval_1 = claim - &eval_0;
             #[cfg(verif_hooks)]
-            let eval_1 = if crate::verif_hooks::round("libra.round", 0, bit_size - 1 - log2(size) as usize, bit_size) {
+            let (eval_0, eval_1, spare) = crate::verif_hooks::rows::<G, _>(0, i, bit_size, eval_0, eval_1, || {
                 (size..2 * size).map(|j| f_vec[j] * &mul_hg_vec[j] + &(f_vec[j] * &add_hg_vec1[j]) + &add_hg_vec2[j]).sum()
-            } else {
-                eval_1
-            };
+            });
             let f_vec_tmp = combine_with_r::<G>(&f_vec, fr_two);
             let mul_hg_vec_tmp = combine_with_r::<G>(&mul_hg_vec, fr_two);
             let add_hg_vec1_tmp = combine_with_r::<G>(&add_hg_vec1, fr_two);
@@ -282,6 +280,8 @@ impl<G: Curve> ZKSumCheckProof<G> {
                         + &add_hg_vec2_tmp[j]
                 })
                 .sum();
+            #[cfg(verif_hooks)]
+            let eval_2: G::Fr = eval_2 + &spare;
             // degree = 2
             // f(x) = ax^2 + bx + c
             // a = (eval_0 - 2eval_1 + eval_2)/2
@@ -307,6 +307,8 @@ impl<G: Curve> ZKSumCheckProof<G> {
             add_hg_vec2 = combine_with_r::<G>(&add_hg_vec2, r_i);
             let eval_ri = poly.evaluate(&r_i);
             #[cfg(verif_hooks)]
+            let eval_ri = eval_ri - &spare;
+            #[cfg(verif_hooks)]
             let eval_ri = if crate::verif_hooks::round("libra.eval", 0, i, bit_size) {
                 (0..size).map(|j| f_vec[j] * &mul_hg_vec[j] + &(f_vec[j] * &add_hg_vec1[j]) + &add_hg_vec2[j]).sum()
             } else {
@@ -406,11 +408,9 @@ impl<G: Curve> ZKSumCheckProof<G> {
                 .sum();
             let eval_1 = claim - &eval_0;
             #[cfg(verif_hooks)]
-            let eval_1 = if crate::verif_hooks::round("libra.round", 1, bit_size - 1 - log2(size) as usize, bit_size) {
+            let (eval_0, eval_1, spare) = crate::verif_hooks::rows::<G, _>(1, i, bit_size, eval_0, eval_1, || {
                 (size..2 * size).map(|j| (mul_hg_vec[j] * &f_vec[j] + &add_hg_vec[j]) * &fu + &(add_hg_vec[j] * &f_vec[j])).sum()
-            } else {
-                eval_1
-            };
+            });
             let f_vec_tmp = combine_with_r::<G>(&f_vec, fr_two);
             let mul_hg_vec_tmp = combine_with_r::<G>(&mul_hg_vec, fr_two);
             let add_hg_vec_tmp = combine_with_r::<G>(&add_hg_vec, fr_two);
@@ -421,6 +421,8 @@ impl<G: Curve> ZKSumCheckProof<G> {
                         + &(add_hg_vec_tmp[j] * &f_vec_tmp[j])
                 })
                 .sum();
+            #[cfg(verif_hooks)]
+            let eval_2: G::Fr = eval_2 + &spare;
             // degree = 2
             // f(x) = ax^2 + bx + c
             // a = (eval_0 - 2eval_1 + eval_2)/2
@@ -445,6 +447,8 @@ impl<G: Curve> ZKSumCheckProof<G> {
             f_vec = combine_with_r::<G>(&f_vec, r_i);
             let eval_ri = poly.evaluate(&r_i);
             #[cfg(verif_hooks)]
+            let eval_ri = eval_ri - &spare;
+            #[cfg(verif_hooks)]
             let eval_ri = if crate::verif_hooks::round("libra.eval", 1, i, bit_size) {
                 (0..size).map(|j| (mul_hg_vec[j] * &f_vec[j] + &add_hg_vec[j]) * &fu + &(add_hg_vec[j] * &f_vec[j])).sum()
             } else {
diff --git a/spartan/src/lib.rs b/spartan/src/lib.rs
index 6dfbf71..2231295 100644
--- a/spartan/src/lib.rs
+++ b/spartan/src/lib.rs
@@ -236,6 +236,8 @@ pub mod nizk {
 /// | 20 | the value at the end of the first sum-check |
 /// | 21 | two looked up values, chosen after the randomness of the memory |
 /// | 22 | two of `Az`, `Bz`, `Cz` in the rows of violated constraints |
+/// | 23, 24 | a round of a sum-check whose two equations hold together if weighed alike (place: 2 round)
+/// or oppositely (2 round + 1) |
 #[cfg(verif_hooks)]
 pub(crate) mod verif_hooks {
     extern crate std;
@@ -262,7 +264,7 @@ pub(crate) mod verif_hooks {
 
     /// lies that lead the false claim into the second sum-check
     pub(crate) fn through() -> bool {
-        lie().0 > 2 && !any(&[5, 6, 20])
+        lie().0 > 2 && !any(&[5, 6, 20, 23])
     }
 
     pub(crate) fn keep<F: PrimeField>(name: &'static str, x: F) {
@@ -289,6 +291,29 @@ pub(crate) mod verif_hooks {
         any(codes) && lie().1 % rounds == i
     }
 
+    /// the values of a round at 0 and 1, and what they have too much
+    pub(crate) fn rows<F: PrimeField>(
+        true_codes: &[usize],
+        code: usize,
+        i: usize,
+        rounds: usize,
+        eval_0: F,
+        eval_1: F,
+        truth: impl Fn() -> F,
+    ) -> (F, F, F) {
+        let share = if round(true_codes, i, rounds) {
+            F::zero()
+        } else if !any(&[code]) || lie().1 / 2 % rounds != i {
+            return (eval_0, eval_1, F::zero());
+        } else if lie().1 % 2 == 0 {
+            F::from(3u32).inverse().unwrap()
+        } else {
+            F::one()
+        };
+        let spare = (eval_1 - &truth()) * &share;
+        (eval_0 + &spare, truth() + &spare, spare)
+    }
+
     /// a point where f, linear in each coordinate, is what it should be
     pub(crate) fn point<F: PrimeField>(r: &mut Vec<F>, target: F, f: impl Fn(&Vec<F>) -> F) {
         let n = r.len();
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 09636ec..51d1657 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -504,13 +504,11 @@ fn sum_check_proof_phase_one<G: Curve, R: Rng>(
         // g_i(1) = eval_1
         let eval_1 = claim - &eval_0;
         #[cfg(verif_hooks)]
-        let eval_1 = if crate::verif_hooks::round(&[1, 2], i, num_rounds) {
+        let (eval_0, eval_1, spare) = crate::verif_hooks::rows(&[1, 2], 23, i, num_rounds, eval_0, eval_1, || {
             (size..2 * size)
                 .map(|j| poly_eq[j] * &(poly_a[j] * &poly_b[j] - &poly_c[j]))
                 .sum()
-        } else {
-            eval_1
-        };
+        });
 
         // g_i(2) = eval_2 = 2eval_1 + (1-2)eval_0;
         let poly_a_tmp = combine_with_n::<G>(&poly_a.to_vec(), fr_two);
@@ -529,6 +527,10 @@ fn sum_check_proof_phase_one<G: Curve, R: Rng>(
             .map(|j| poly_eq_tmp[j] * &(poly_a_tmp[j] * &poly_b_tmp[j] - &poly_c_tmp[j]))
             .sum();
 
+        #[cfg(verif_hooks)]
+        let eval_2: G::Fr = eval_2 + &spare;
+        #[cfg(verif_hooks)]
+        let eval_3: G::Fr = eval_3 + &spare;
         // degree = 3
         // f(x) = ax^3 + bx^2 + cx + d
         // a = (-eval_0 + 3eval_1 - 3eval_2 + eval_3)/6
@@ -569,6 +571,8 @@ fn sum_check_proof_phase_one<G: Curve, R: Rng>(
         transcript.append_message(b"comm_claim_per_round", &to_bytes!(commit_eval).unwrap());
 
         let eval_ri = poly.evaluate(&r_i);
+        #[cfg(verif_hooks)]
+        let eval_ri = eval_ri - &spare;
         commit_eval = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &[eval_ri],
@@ -676,17 +680,20 @@ fn sum_check_proof_phase_two<G: Curve, R: Rng>(
         // g_i(1) = eval_1
         let eval_1 = claim - &eval_0;
         #[cfg(verif_hooks)]
-        let eval_1 = if crate::verif_hooks::round(&[3, 4], i, num_rounds) {
+        let (eval_0, eval_1, spare) = crate::verif_hooks::rows(&[3, 4], 24, i, num_rounds, eval_0, eval_1, || {
             (size..2 * size).map(|j| poly_z[j] * &poly_abc[j]).sum()
-        } else {
-            eval_1
-        };
+        });
 
         // g_i(2) = eval_2 = 2eval_1 + (1-2)eval_0;
         let poly_abc_tmp = combine_with_n::<G>(&poly_abc, fr_two);
         let poly_z_tmp = combine_with_n::<G>(&poly_z, fr_two);
+        #[cfg(not(verif_hooks))]
         let eval_2 = (0..size).map(|j| poly_abc_tmp[j] * &poly_z_tmp[j]).sum();
+        #[cfg(verif_hooks)]
+        let eval_2: G::Fr = (0..size).map(|j| poly_abc_tmp[j] * &poly_z_tmp[j]).sum();
 
+        #[cfg(verif_hooks)]
+        let eval_2: G::Fr = eval_2 + &spare;
         // degree = 2
         // f(x) = ax^2 + bx + c
         // a = (eval_0 - 2eval_1 + eval_2)/2
@@ -712,6 +719,8 @@ fn sum_check_proof_phase_two<G: Curve, R: Rng>(
         let r_j = random_bytes_to_fr::<G>(&buf);
 
         let eval_rj = poly.evaluate(&r_j);
+        #[cfg(verif_hooks)]
+        let eval_rj = eval_rj - &spare;
         let commit_eval = poly_commit_vec::<G>(
             &params.gen_1.generators,
             &[eval_rj],
-- 
2.43.0

