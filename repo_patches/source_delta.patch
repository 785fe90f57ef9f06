From db21e3182d98971f39d2dfe7245c0a7ce1ae0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 01/35] fix: bulletproofs: accumulate repeated variables of a
 linear combination

---
 bulletproofs/src/arithmetic_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..a8aaf3c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -231,21 +231,21 @@ where
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CL[i][index] = *coeff;
+            CL[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.bt[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CR[i][index] = *coeff;
+            CR[i][index] += coeff;
         }
         for &(ref coeff, index) in prover.ct[i].iter() {
             let index = match index {
                 Index::Input(i) => i,
                 Index::Aux(i) => num_inputs + i,
             };
-            CO[i][index] = *coeff;
+            CO[i][index] += coeff;
         }
     }
 
-- 
2.43.0


From 03b555bddd6fe3ccd24ee99bb9febe3ac58cda5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 02/35] fix: marlin: row balancing must not underflow when a
 row of A is longer than B's

---
 marlin/src/ahp/constraint_systems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 54c318e..3d7f4c7 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -106,8 +106,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
                 let a_row_size = a_row.len();
                 let b_row_size = b_row.len();
                 core::mem::swap(a_row, &mut b_row);
-                a_density += b_row_size - a_row_size;
-                b_density += a_row_size - b_row_size;
+                a_density = a_density + b_row_size - a_row_size;
+                b_density = b_density + a_row_size - b_row_size;
                 a_is_denser = a_density > b_density;
             }
         }
-- 
2.43.0


From 00e79d26ffc5dfb144301eb0a026049dfd14390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 03/35] fix: marlin: pad public inputs to the size of their
 domain

---
 marlin/src/ahp/constraint_systems.rs | 19 +++++++++++++++++++
 marlin/src/ahp/indexer.rs            |  1 +
 marlin/src/ahp/prover.rs             |  7 ++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3d7f4c7..3944ad1 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -30,6 +30,15 @@ fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     }
 }
 
+// The public inputs (with the leading one) live on a domain whose size is a power of two, so
+// indexer and prover fill it up with zeros, as the verifier's interpolation does.
+fn pad_input_variables<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, num_input_variables: usize) {
+    for i in num_input_variables..num_input_variables.next_power_of_two() {
+        cs.alloc_input(|| format!("pad input {}", i), || Ok(F::zero()))
+            .expect("alloc failed");
+    }
+}
+
 pub(crate) struct IndexerConstraintSystem<F: Field> {
     pub(crate) num_input_variables: usize,
     pub(crate) num_witness_variables: usize,
@@ -66,6 +75,11 @@ impl<F: Field> IndexerConstraintSystem<F> {
             .collect()
     }
 
+    pub(crate) fn pad_input_variables(&mut self) {
+        let num_input_variables = self.num_input_variables;
+        pad_input_variables(self, num_input_variables);
+    }
+
     pub(crate) fn make_matrices_square(&mut self) {
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
@@ -212,6 +226,11 @@ impl<F: Field> ProverConstraintSystem<F> {
         }
     }
 
+    pub(crate) fn pad_input_variables(&mut self) {
+        let num_input_variables = self.num_input_variables;
+        pad_input_variables(self, num_input_variables);
+    }
+
     pub(crate) fn make_matrices_square(&mut self) {
         let num_formatted_variables = self.num_input_variables + self.num_witness_variables;
         make_constraint_matrices_square(self, num_formatted_variables);
diff --git a/marlin/src/ahp/indexer.rs b/marlin/src/ahp/indexer.rs
index b87a28c..2093b6c 100644
--- a/marlin/src/ahp/indexer.rs
+++ b/marlin/src/ahp/indexer.rs
@@ -71,6 +71,7 @@ impl<F: PrimeField> AHP<F> {
     pub fn index<'a, C: ConstraintSynthesizer<F>>(c: C) -> Result<Index<'a, F>, Error> {
         let mut ics = IndexerConstraintSystem::new();
         c.generate_constraints(&mut ics)?;
+        ics.pad_input_variables();
         ics.make_matrices_square();
         ics.process_matrices();
 
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index 0d6a19d..e4f2261 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -20,6 +20,8 @@ use crate::pc::LabeledPolynomial;
 pub struct ProverState<'a, 'b, F: PrimeField> {
     index: &'a Index<'a, F>,
 
+    // number of public inputs with the leading one, without padding
+    num_public_inputs: usize,
     formatted_input_assignment: Vec<F>,
     witness_assignment: Vec<F>,
 
@@ -41,7 +43,7 @@ pub struct ProverState<'a, 'b, F: PrimeField> {
 
 impl<'a, 'b, F: PrimeField> ProverState<'a, 'b, F> {
     pub fn public_input(&self) -> Vec<F> {
-        self.formatted_input_assignment[1..].to_vec()
+        self.formatted_input_assignment[1..self.num_public_inputs].to_vec()
     }
 }
 
@@ -89,6 +91,8 @@ impl<F: PrimeField> AHP<F> {
     ) -> Result<ProverState<'a, 'b, F>, Error> {
         let mut pcs = ProverConstraintSystem::new();
         c.generate_constraints(&mut pcs)?;
+        let num_public_inputs = pcs.num_input_variables;
+        pcs.pad_input_variables();
         pcs.make_matrices_square();
 
         let ProverConstraintSystem {
@@ -131,6 +135,7 @@ impl<F: PrimeField> AHP<F> {
 
         Ok(ProverState {
             index,
+            num_public_inputs,
             formatted_input_assignment,
             witness_assignment,
             z_a: z_a,
-- 
2.43.0


From 76d0bd4aafa6c7741d2d675f5853b1b1d7d9c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/35] fix: marlin: accept circuits whose index or oracle
 polynomials are constant

---
 marlin/src/ahp/constraint_systems.rs | 33 ++++++++++++++--------------
 marlin/src/ahp/prover.rs             |  2 +-
 marlin/src/pc/kzg10.rs               |  6 ++---
 3 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/marlin/src/ahp/constraint_systems.rs b/marlin/src/ahp/constraint_systems.rs
index 3944ad1..d82af1e 100644
--- a/marlin/src/ahp/constraint_systems.rs
+++ b/marlin/src/ahp/constraint_systems.rs
@@ -11,22 +11,20 @@ fn make_constraint_matrices_square<F: Field, CS: ConstraintSystem<F>>(
     num_formatted_variables: usize,
 ) {
     let num_constraints = cs.num_constraints();
-    let num_paddings = ((num_formatted_variables as isize) - (num_constraints as isize)).abs();
-    if num_formatted_variables < num_constraints {
-        for i in 0..num_paddings {
-            cs.alloc(|| format!("pad varible {}", i), || Ok(F::one()))
-                .expect("alloc failed");
-        }
-    } else {
-        for i in 0..num_paddings {
-            use core::convert::identity;
-            cs.enforce(
-                || format!("pad constraint {}", i),
-                identity,
-                identity,
-                identity,
-            );
-        }
+    // at least two, for the degree bounds
+    let size = num_formatted_variables.max(num_constraints).max(2);
+    for i in num_formatted_variables..size {
+        cs.alloc(|| format!("pad varible {}", i), || Ok(F::one()))
+            .expect("alloc failed");
+    }
+    for i in num_constraints..size {
+        use core::convert::identity;
+        cs.enforce(
+            || format!("pad constraint {}", i),
+            identity,
+            identity,
+            identity,
+        );
     }
 }
 
@@ -105,7 +103,8 @@ impl<F: Field> IndexerConstraintSystem<F> {
         let a_density = matrix_density(&self.a_matrix.as_ref().expect("a_matrix is not None"));
         let b_density = matrix_density(&self.b_matrix.as_ref().expect("b_matrix is not None"));
         let c_density = matrix_density(&self.c_matrix.as_ref().expect("c_matrix is not None"));
-        *[a_density, b_density, c_density]
+        // at least two, for the degree bounds
+        *[a_density, b_density, c_density, 2]
             .iter()
             .max()
             .expect("density iterator is not empty")
diff --git a/marlin/src/ahp/prover.rs b/marlin/src/ahp/prover.rs
index e4f2261..c0bb32c 100644
--- a/marlin/src/ahp/prover.rs
+++ b/marlin/src/ahp/prover.rs
@@ -380,7 +380,7 @@ impl<F: PrimeField> AHP<F> {
         }
 
         let t_poly = EvaluationsOnDomain::from_vec_and_domain(t_evals_on_k, domain_k).interpolate();
-        let g_2_poly = DensePolynomial::from_coefficients_slice(&t_poly.coeffs[1..]);
+        let g_2_poly = DensePolynomial::from_coefficients_slice(t_poly.coeffs.get(1..).unwrap_or(&[]));
 
         let denom_a: Vec<_> = cfg_iter!(a_star.row_evals_on_b.evals)
             .zip(&a_star.col_evals_on_b.evals)
diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index e94d946..b3e8da2 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -173,9 +173,7 @@ impl<E: PairingEngine> KZG10<E> {
     }
 
     fn check_degree_is_within_bounds(degree: usize, powers: usize) -> Result<(), Error> {
-        if degree < 1 {
-            Err(Error::DegreeIsZero)
-        } else if degree > powers {
+        if degree > powers {
             Err(Error::DegreeOutOfBound)
         } else {
             Ok(())
@@ -186,7 +184,7 @@ impl<E: PairingEngine> KZG10<E> {
         p: &Polynomial<F>,
     ) -> (usize, Vec<F::BigInt>) {
         let mut num_leading_zeros = 0;
-        while p.coeffs[num_leading_zeros].is_zero() && num_leading_zeros < p.coeffs.len() {
+        while num_leading_zeros < p.coeffs.len() && p.coeffs[num_leading_zeros].is_zero() {
             num_leading_zeros += 1;
         }
         let coeffs = Self::convert_to_bigints(&p.coeffs[num_leading_zeros..]);
-- 
2.43.0


From f4f1e2d14536159d1e12550488dafb42d75048b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 05/35] fix: marlin: verifier checks the number of commitments
 of each round

---
 marlin/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..b2cd1ef 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -186,6 +186,16 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    // every oracle must have been sent in its own round
+    let rounds = [
+        AHP::<E::Fr>::prover_first_round_degree_bounds(&ivk.index_info).count(),
+        AHP::<E::Fr>::prover_second_round_degree_bounds(&ivk.index_info).count(),
+        AHP::<E::Fr>::prover_third_round_degree_bounds(&ivk.index_info).count(),
+    ];
+    if !proof.commitments.iter().map(|c| c.len()).eq(rounds.iter().copied()) {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
-- 
2.43.0


From c14c4cc6c051076a254d391e1df45b8b97a9b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 06/35] fix: spartan: zero public inputs keep the others in
 place

---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From e665b413dbbcd595374013644fc5c02e3f87263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 07/35] fix: spartan: NIZK verifier evaluates the matrices at
 its own challenges

---
 spartan/src/verify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..f69b6de 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -39,7 +39,7 @@ pub fn verify_nizk_proof<G: Curve>(
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, rx_sc, ry_sc) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +48,8 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    // the matrices must have been evaluated at the point of the sum-checks
+    Ok(result && *rx == rx_sc && *ry == ry_sc)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From 7592596ef08716e3336635bbc8915b13f69c6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 08/35] fix: spartan: reject public-input lists of the wrong
 length

---
 spartan/src/verify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index f69b6de..31685ad 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -111,6 +111,10 @@ pub fn r1cs_satisfied_verify<G: Curve>(
 ) -> Result<(bool, Vec<G::Fr>, Vec<G::Fr>), SynthesisError> {
     let (eval_a_r, eval_b_r, eval_c_r) = matrix_evals;
 
+    if inputs.len() + 1 != r1cs.num_inputs {
+        return Err(SynthesisError::MalformedVerifyingKey);
+    }
+
     let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
     let (num_rounds_x, num_rounds_y) = (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1);
     let mut public_inputs = vec![G::Fr::one()];
-- 
2.43.0


From faae166416d49ae3700de74753a0366f6193e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 09/35] fix: spartan: hash layer opens one evaluation per
 matrix

---
 spartan/src/verify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 31685ad..8325c04 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -923,6 +923,10 @@ pub fn hash_layer_verify<G: Curve>(
         proof.evals_row.clone();
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
+    assert_eq!(row_eval_addr_ops_list.len(), 3);
+    assert_eq!(row_eval_read_ts_list.len(), 3);
+    assert_eq!(col_eval_addr_ops_list.len(), 3);
+    assert_eq!(col_eval_read_ts_list.len(), 3);
 
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
-- 
2.43.0


From 7bc8ed7053f7b27e5f61b7e1da2d14b3a71208cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 10/35] fix: spartan: matrices with at most one non-zero entry

---
 spartan/src/spark.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spartan/src/spark.rs b/spartan/src/spark.rs
index d267615..a31994a 100644
--- a/spartan/src/spark.rs
+++ b/spartan/src/spark.rs
@@ -35,7 +35,11 @@ pub fn encode<G: Curve, R: Rng>(
     assert_eq!(c_val.len(), c_row.len());
     assert_eq!(c_row.len(), c_col.len());
 
-    let n = cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two();
+    // the product circuits need at least one layer
+    let n = cmp::max(
+        cmp::max(cmp::max(a_row.len(), b_row.len()), c_row.len()).next_power_of_two(),
+        2,
+    );
     a_row.resize(n, 0);
     b_row.resize(n, 0);
     c_row.resize(n, 0);
-- 
2.43.0


From b39086c93df9a75b10a02efae3ecebf4c4279f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 11/35] fix: spartan: do not publish the witness evaluation
 next to its commitment

---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..f2cfe37 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -407,7 +407,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From 4a9e3db421c576888265170a9346a508d03eed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 12/35] fix: bulletproofs: inner-product argument must be about
 l_x, r_x and t_x

---
 bulletproofs/src/arithmetic_circuit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index a8aaf3c..33af835 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -799,6 +799,14 @@ pub fn verify_proof<G: Curve>(
     // check tx ?= <lx, rx>
     // USE IPP here
     // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    // the IPP must be about this proof's l_x, r_x and t_x
+    let IPP_P = (quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x))
+        .into_affine();
+    if IPP_P != proof.IPP_P {
+        return Ok(false);
+    }
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
-- 
2.43.0


From 3ad35b11858969ca4ae58ff74d7dfaddf4edaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 13/35] fix: plonk: verifier checks the number of commitments
 of each round

---
 plonk/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..d16c281 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -208,6 +208,11 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // every oracle must have been sent in its own round: wires, grand product, quotient
+        if !proof.commitments.iter().map(|c| c.len()).eq([4, 1, 4].iter().copied()) {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
-- 
2.43.0


From c024b2f36b73fcb9bd62389954b14db2c381ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 14/35] fix: libra: witnesses and inputs of different lengths
 keep their halves of the input layer

---
 libra/src/circuit.rs             | 4 ++--
 libra/src/libra_zk_linear_gkr.rs | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..913afce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..fb3d90c 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -58,6 +58,10 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
         );
 
+        // the witness half of the input layer
+        let mut witnesses = witnesses.clone();
+        witnesses.resize(circuit.layers[0].gates_count / 2, G::Fr::zero());
+
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
             &witnesses,
-- 
2.43.0


From 5f497f078f9dd5790ae38275ad3c65540f662b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 15/35] fix: libra: inner layers of any number of gates

---
 libra/src/libra_linear_gkr.rs    | 7 ++++++-
 libra/src/libra_zk_linear_gkr.rs | 7 ++++++-
 libra/src/sumcheck.rs            | 4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..11ccc23 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -28,13 +28,18 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
         transcript.append_message(b"input", &to_bytes!(circuit_evals[0]).unwrap());
         transcript.append_message(
             b"output",
             &to_bytes!(circuit_evals[circuit_evals.len() - 1]).unwrap(),
         );
 
+        // inner layers are summed over the whole hypercube
+        for d in 1..circuit.depth - 1 {
+            circuit_evals[d].resize(1 << circuit.layers[d].bit_size, G::Fr::zero());
+        }
+
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
         // V_0(g^(0)), g^(0)
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index fb3d90c..20adf2d 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -51,7 +51,7 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
         
-        let circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
+        let mut circuit_evals = circuit.evaluate::<G>(inputs, witnesses).unwrap();
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(
             b"output",
@@ -71,6 +71,11 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         );
         transcript.append_message(b"comm_witness", &to_bytes!(comm_witness).unwrap());
 
+        // inner layers are summed over the whole hypercube
+        for d in 1..circuit.depth - 1 {
+            circuit_evals[d].resize(1 << circuit.layers[d].bit_size, G::Fr::zero());
+        }
+
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
         // V_0(g^(0)), g^(0)
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..b2fead0 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -302,7 +302,7 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], ru)
+        (proof, poly_value_at_r, blind_evals.last().copied().unwrap_or(blind_claim), ru)
     }
 
     pub fn phase_two_prover<R: Rng>(
@@ -422,7 +422,7 @@ impl<G: Curve> ZKSumCheckProof<G> {
             comm_polys,
             proofs,
         };
-        (proof, poly_value_at_r, blind_evals[bit_size - 1], rv)
+        (proof, poly_value_at_r, blind_evals.last().copied().unwrap_or(blind_claim), rv)
     }
 }
 
-- 
2.43.0


From 95131da7197df70e32be9c23e3918a0a05610b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 16/35] fix: libra: plain verifier checks the wiring of every
 layer

---
 libra/src/libra_linear_gkr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 11ccc23..08acad3 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -127,11 +127,12 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, mut gu_vec) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
         );
+        let mut gv_vec = gu_vec.clone();
         let mut result_v = G::Fr::zero();
         let mut eval_ru_x = G::Fr::zero();
         let mut eval_rv_y = G::Fr::zero();
@@ -179,10 +180,17 @@ impl<G: Curve> LinearGKRProof<G> {
             }
             let eval_rv_final = proof2.poly_value_at_r.clone();
             transcript.append_message(b"claim_final", &to_bytes!(eval_rv_final).unwrap());
+            // the wiring of this layer is the circuit's, not the prover's
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
+            assert_eq!(eval_rv_final[1], mult_gate_eval);
+            assert_eq!(eval_rv_final[2], add_gate_eval);
             let claim_final = eval_rv_final[1] * &eval_rv_final[0] * &eval_ru_final[0]
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
             assert_eq!(claim, claim_final);
+            gu_vec = ru_vec.clone();
+            gv_vec = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From f83a9b42aa8a81327d9341ed397c9de71b6626a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 17/35] fix: hyrax: witnesses and inputs of different lengths
 keep their halves of the input layer

---
 hyrax/src/circuit.rs     | 4 ++--
 hyrax/src/hyrax_proof.rs | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..88b233d 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -53,12 +53,13 @@ impl<G: Curve> HyraxProof<G> {
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
         //1. PC.Commit(pp, ~w)
+        let half = circuit.layers[0].gates_count / 2;
         let mut witness_vec = Vec::new();
         for i in 0..n {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
             let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(vec![G::Fr::zero(); half - wl]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -282,12 +283,13 @@ impl<G: Curve> HyraxProof<G> {
             }
         }
 
+        let half = circuit.layers[0].gates_count / 2;
         let mut input_vec = Vec::new();
         for i in 0..n {
             let input = inputs[i].clone();
             input_vec.extend(input);
             let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(vec![G::Fr::zero(); half - al]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
-- 
2.43.0


From 3d0c67b52877d151f88538e6e071aaa99c65ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 18/35] fix: hyrax: each layer is verified against the claim of
 the layer before

---
 hyrax/src/zk_sumcheck_proof.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..71b2e46 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -630,6 +630,8 @@ impl<G: Curve> ZkSumcheckProof<G> {
         ng: usize,
         transcript: &mut Transcript,
     ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+        // the layer is proven for the verifier's claim, not one of the prover's choice
+        assert!(self.comm_a0 == comm_claim);
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
-- 
2.43.0


From 2346ea521692108643ba88a08ff6df5af6741faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 19/35] fix: hyrax: blinds of the last sumcheck have their own
 indices

---
 hyrax/src/zk_sumcheck_proof.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 71b2e46..a1c744a 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From 2479dd1d5a2af86c9dedacff0ba9a5a15c8a0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 20/35] fix: hyrax: as many inputs as outputs

---
 hyrax/src/hyrax_proof.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 88b233d..3aef191 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -228,6 +228,7 @@ impl<G: Curve> HyraxProof<G> {
         let n = outputs.len();
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
+        assert_eq!(inputs.len(), n);
 
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
-- 
2.43.0


From 77445b2b67f2832691d68c1f0a97e3f028472e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 21/35] fix: gadgets: lookup1_x is bound to its table

---
 gadgets/src/lookup/table.rs | 52 +++++++++++--------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..1d94e34 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,21 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let res_x = AllocatedFr::alloc(cs.ns(|| "x"), || {
+        let cond = b.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+        Ok(if cond { c[1] } else { c[0] })
+    })?;
+
+    // r = c[0] + b * (c[1] - c[0])
+    let one = CS::one();
+    cs.enforce(
+        || "x-coordinate lookup",
+        |lc| lc + (c[1] - &c[0], one),
+        |lc| lc + b.lc(one, F::one()),
+        |lc| lc + res_x.get_variable() + (-c[0], one),
+    );
+
+    Ok(res_x)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From abe2ef769e7b4c02e843e11e5f6b466c6980c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 22/35] fix: gadgets: sums of constant words have one shape in
 setup and proving

---
 gadgets/src/algebra/uint32.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gadgets/src/algebra/uint32.rs b/gadgets/src/algebra/uint32.rs
index 238ea67..664b934 100644
--- a/gadgets/src/algebra/uint32.rs
+++ b/gadgets/src/algebra/uint32.rs
@@ -174,6 +174,19 @@ impl UInt32 {
         }
     }
 
+    /// The value of a word all of whose bits are constants. Such a word may
+    /// have been derived from words without a value (during setup).
+    fn constant_value(&self) -> Option<u32> {
+        let mut value = 0;
+        for (i, bit) in self.bits.iter().enumerate() {
+            match *bit {
+                Boolean::Constant(b) => value |= (b as u32) << i,
+                _ => return None,
+            }
+        }
+        Some(value)
+    }
+
     fn triop<F, CS, FN, U>(
         mut cs: CS,
         a: &Self,
@@ -296,7 +309,7 @@ impl UInt32 {
         // Iterate over the operands
         for op in operands {
             // Accumulate the value
-            match op.value {
+            match op.value.or_else(|| op.constant_value()) {
                 Some(val) => {
                     result_value.as_mut().map(|v| *v += u64::from(val));
                 }
-- 
2.43.0


From fd5493c17f8be567531fe741d9d01af101bc28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 23/35] fix: gadgets: poseidon and rescue circuits compute the
 hash they return

---
 gadgets/src/hashes/poseidon.rs | 34 +++++++++++++++++++++++-----------
 gadgets/src/hashes/rescue.rs   | 34 +++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..276eaed 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -629,6 +629,12 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "capacity = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -668,15 +674,11 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
         // Mix Layer
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
+        let mut tmp2: Vec<Variable> = Vec::with_capacity(M);
 
         for j in 0..M {
             for k in 0..M {
                 let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
 
                 tmp3_value.mul_assign(&state_value[k]);
                 tmp3_value.add_assign(&tmp2_value[j]);
@@ -691,13 +693,23 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
                             j, k, j, k
                         )
                     },
-                    |lc| lc + tmp3,
+                    |lc| lc + (constants.mds[j][k], CS::one()),
                     |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
+                    |lc| {
+                        if k == 0 {
+                            lc + tmp4
+                        } else {
+                            lc + tmp4 - tmp2[j]
+                        }
+                    },
                 );
 
                 tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                if k == 0 {
+                    tmp2.push(tmp4);
+                } else {
+                    tmp2[j] = tmp4;
+                }
             }
         }
         for j in 0..M {
@@ -724,8 +736,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -763,7 +775,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..d041348 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -411,6 +411,12 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
 
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "capacity = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -440,26 +446,32 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state[j] = tuple.1;
         }
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
+        let mut tmp2: Vec<Variable> = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
                 let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
                 tmp3_value.mul_assign(&state_value[k]);
                 tmp3_value.add_assign(&tmp2_value[j]);
                 let tmp4_value = tmp3_value;
                 let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
                 cs.enforce(
                     || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
+                    |lc| lc + (constants.mds[j][k], CS::one()),
                     |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
+                    |lc| {
+                        if k == 0 {
+                            lc + tmp4
+                        } else {
+                            lc + tmp4 - tmp2[j]
+                        }
+                    },
                 );
                 tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                if k == 0 {
+                    tmp2.push(tmp4);
+                } else {
+                    tmp2[j] = tmp4;
+                }
             }
         }
         for j in 0..M {
@@ -493,8 +505,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -532,7 +544,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
-- 
2.43.0


From 090c3bbea6d21e474412f90a99a9600188c91492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 24/35] fix: gadgets: AbstractHashSha256 ties its output
 variables to the digest bits

---
 gadgets/src/hashes/sha256.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..2cfdb9c 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,18 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        let mut var = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let mut cs = cs.ns(|| format!("bit_{}", i));
+            let a = AllocatedBit::alloc(&mut cs, b.get_value())?;
+            cs.enforce(
+                || "bit is the digest bit",
+                |lc| lc + &b.lc(CS::one(), F::one()),
+                |lc| lc + CS::one(),
+                |lc| lc + a.get_variable(),
+            );
+            var.push(a.get_variable());
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From 1060a967608598f8730e029328c1de3d669371db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 25/35] fix: gadgets: MerkleTree::build_proof is None for every
 index out of range

---
 gadgets/src/merkletree/cbmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index 96b2c45..bdaf3a9 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -34,12 +34,12 @@ where
         }
 
         let leaves_count = ((self.nodes.len() >> 1) + 1) as u32;
-        let index = leaves_count + leaf_index - 1;
-
-        if index >= (leaves_count << 1) - 1 {
+        if *leaf_index >= leaves_count {
             return None;
         }
 
+        let index = leaves_count + leaf_index - 1;
+
         let mut lemmas = Vec::new();
 
         if index == 0 {
-- 
2.43.0


From 3099d096943218c302f1bc74bc052bd81d62915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 26/35] fix: gadgets: set_membership compares the whole root

---
 gadgets/src/merkletree/cbmt_constraints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gadgets/src/merkletree/cbmt_constraints.rs b/gadgets/src/merkletree/cbmt_constraints.rs
index 5d09c30..5870770 100644
--- a/gadgets/src/merkletree/cbmt_constraints.rs
+++ b/gadgets/src/merkletree/cbmt_constraints.rs
@@ -94,6 +94,10 @@ impl<I: TreeIndex, F: PrimeField, H: AbstractHash<F>> MerkleProofGadget<I, F, H>
             }
         }
 
+        if parent.get_variables().len() != root.get_variables().len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
+
         let pre = parent
             .get_variables()
             .iter()
-- 
2.43.0


From f8fda7d70ef5da5177b2addc4ccd624219059bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 27/35] hooks: marlin's pc and ahp modules are public under
 cfg(vp_hooks)

---
 marlin/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index b2cd1ef..342e0cf 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -35,10 +35,16 @@ use ark_std::UniformRand;
 use rand::Rng;
 use zkp_r1cs::{ConstraintSynthesizer, SynthesisError};
 
+#[cfg(not(vp_hooks))]
 mod pc;
+#[cfg(vp_hooks)]
+pub mod pc;
 use pc::{Evaluations, LabeledCommitment, PC};
 
+#[cfg(not(vp_hooks))]
 mod ahp;
+#[cfg(vp_hooks)]
+pub mod ahp;
 use ahp::AHP;
 
 mod errors;
-- 
2.43.0


From f3d0ada7167528d75fdd507ba7687b3960fe001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 28/35] fix: asvc: claimed values and positions must pair up
 and lie in the vector

---
 asvc/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..059871c 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -235,6 +235,11 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    let n = vrk_params.powers_of_g1.len() - 1;
+    if points.len() != point_values.len() || points.iter().any(|p| *p as usize >= n) {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
-- 
2.43.0


From 2acc7c8413c0a18d70f30318e13284307e9ae700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 29/35] fix: marlin: the hiding bound leaves room for the
 blinding polynomial

---
 marlin/src/pc/kzg10.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marlin/src/pc/kzg10.rs b/marlin/src/pc/kzg10.rs
index b3e8da2..dd2ea75 100644
--- a/marlin/src/pc/kzg10.rs
+++ b/marlin/src/pc/kzg10.rs
@@ -111,7 +111,7 @@ impl<E: PairingEngine> KZG10<E> {
         let mut rand = Rand::<E::Fr>::empty();
         if let Some(hiding_degree) = hiding_bound {
             let mut rng = rng.ok_or(Error::MissingRng)?;
-            Self::check_hiding_bound(hiding_degree, ck.size())?;
+            Self::check_hiding_bound(hiding_degree, ck.powers_of_gamma_g.len())?;
             rand = Rand::rand(hiding_degree, &mut rng);
             let rand_coeffs = Self::convert_to_bigints(&rand.blinding_polynomial.coeffs);
             let rand_commitment =
@@ -199,7 +199,7 @@ impl<E: PairingEngine> KZG10<E> {
     fn check_hiding_bound(hiding_bound: usize, hiding_powers: usize) -> Result<(), Error> {
         if hiding_bound == 0 {
             Err(Error::HidingBoundIsZero)
-        } else if hiding_bound > hiding_powers {
+        } else if hiding_bound >= hiding_powers {
             Err(Error::HidingBoundTooLarge)
         } else {
             Ok(())
-- 
2.43.0


From 74059fe0a943527a89643fcc703fce692a61769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 30/35] fix: Curve25519Point serializes to the 32 bytes its
 deserialization reads

serialize() wrote the bytes as a slice, with a length prefix of eight bytes
that neither serialized_size() nor deserialize() knows about.
---
 curve25519/src/group.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..60bc1bb 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -292,8 +292,9 @@ impl Zeroize for Curve25519Point {
 
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
-    fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+    fn serialize<W: io::Write>(&self, mut writer: W) -> Result<(), SerializationError> {
+        writer.write_all(self.0.compress().as_bytes())?;
+        Ok(())
     }
 
     #[inline]
@@ -303,7 +304,7 @@ impl CanonicalSerialize for Curve25519Point {
 
     #[inline]
     fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+        self.serialize(writer)
     }
 
     #[inline]
-- 
2.43.0


From 4cf03d261e648c0363dcace20b30c0a648267d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 31/35] fix: Curve25519Point doubling, normalization and
 generator do not panic

---
 curve25519/src/group.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 60bc1bb..9a96bb2 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -102,11 +102,11 @@ impl ProjectiveCurve for Curve25519Point {
     const COFACTOR: &'static [u64] = &[0, 0, 0, 0];
 
     fn prime_subgroup_generator() -> Self {
-        panic!("Curve prime_subgroup_generator");
+        <Self as AffineCurve>::prime_subgroup_generator()
     }
 
     fn batch_normalization(_v: &mut [Self]) {
-        panic!("Curve batch normalization");
+        // every ristretto point is its own affine form
     }
 
     fn batch_normalization_into_affine(v: &[Self]) -> crate::Vec<Self::Affine> {
@@ -116,7 +116,7 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn is_normalized(&self) -> bool {
-        panic!("Curve is_normalized");
+        true
     }
 
     fn double(&self) -> Self {
@@ -126,7 +126,8 @@ impl ProjectiveCurve for Curve25519Point {
     }
 
     fn double_in_place(&mut self) -> &mut Self {
-        panic!("Curve double_in_place");
+        self.0 += self.0;
+        self
     }
 
     fn into_affine(&self) -> Self::Affine {
-- 
2.43.0


From 55915619d87461dd88311f879f43769bcaa8ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 32/35] fix: constants of the Curve25519 scalar field

(r - 1) / 2, t and (t - 1) / 2 were not those of the modulus, 9 is a square
and so generates nothing, and the root of unity was zero: sqrt() did not
terminate and legendre() was wrong.
---
 curve25519/src/fr.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/curve25519/src/fr.rs b/curve25519/src/fr.rs
index 7d47627..28a047c 100644
--- a/curve25519/src/fr.rs
+++ b/curve25519/src/fr.rs
@@ -17,10 +17,10 @@ impl FftParameters for FrParameters {
 
     #[rustfmt::skip]
     const TWO_ADIC_ROOT_OF_UNITY: BigInteger = BigInteger([
-        0x0,
-        0x0,
-        0x0,
-        0x0,
+        8969215743819189885u64,
+        5516037659391044808u64,
+        15508184678381615533u64,
+        385507852950656554u64,
     ]);
 }
 
@@ -62,38 +62,38 @@ impl FpParameters for FrParameters {
     /// INV = -(q^{-1} mod 2^64) mod 2^64
     const INV: u64 = 15183074304973897243u64;
 
-    /// GENERATOR = 9
+    /// GENERATOR = 2
     const GENERATOR: BigInteger = BigInteger([
-        14824341744311508637u64,
-        6301218275840713796u64,
-        18446744073709551604u64,
+        6180627327055779405u64,
+        8718896354912633355u64,
+        18446744073709551613u64,
         1152921504606846975u64,
     ]);
 
     /// (Self::MODULUS - 1) / 2
     #[rustfmt::skip]
     const MODULUS_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        13876462170967809896,
-        12031312481604134578,
+        3173121894899182070,
+        751957030100258411,
         0,
-        0
+        576460752303423488
     ]);
 
     /// t for 2^s * t = MODULUS - 1
     #[rustfmt::skip]
     const T: BigInteger = BigInteger([
-        6938231085483904948,
-        6015656240802067289,
+        10809932984304366843,
+        375978515050129205,
         0,
-        0
+        288230376151711744
     ]);
 
     /// (t - 1) / 2
     #[rustfmt::skip]
     const T_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        2367949182742163228,
-        18046968722406201868,
+        14628338529006959229,
+        187989257525064602,
         0,
-        0
+        144115188075855872
     ]);
 }
-- 
2.43.0


From 684d5cfc8055c0192334dcc18b1ca9cb30f2f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:52 +0000
Subject: [PATCH 33/35] fix: gadgets: a Merkle proof has to end at the root

A path with more or fewer lemmas than the depth of its index was accepted:
a leaf could be claimed at another position, or an inner node passed off as
a leaf.
---
 gadgets/src/merkletree/cbmt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gadgets/src/merkletree/cbmt.rs b/gadgets/src/merkletree/cbmt.rs
index bdaf3a9..5e6e2ac 100644
--- a/gadgets/src/merkletree/cbmt.rs
+++ b/gadgets/src/merkletree/cbmt.rs
@@ -114,6 +114,9 @@ where
 
         loop {
             if let Some(sibling) = lemmas_iter.next() {
+                if index.is_root() {
+                    return None;
+                }
                 parent = if index.is_left() {
                     M::merge(&parent, &sibling)
                 } else {
@@ -125,6 +128,11 @@ where
             }
         }
 
+        // the path has to end at the root
+        if !index.is_root() {
+            return None;
+        }
+
         Some(parent)
     }
 
-- 
2.43.0


From 3d4e432fa40961ecd605658a2cff5c4a6afd71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 34/35] fix: ckb-contracts: pass the hashes the Spartan, Libra
 and Hyrax verifiers take

---
 .../mini_hyrax_zk_linear_gkr_verifier/src/entry.rs       | 9 ++++++++-
 .../mini_libra_zk_linear_gkr_verifier/src/entry.rs       | 9 ++++++++-
 .../universal_spartan_nizk_verifier/src/entry.rs         | 8 +++++++-
 .../universal_spartan_snark_verifier/src/entry.rs        | 9 ++++++++-
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs b/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs
index 75502e4..1aeb85a 100644
--- a/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/mini_hyrax_zk_linear_gkr_verifier/src/entry.rs
@@ -61,7 +61,14 @@ pub fn main() -> Result<(), Error> {
     // inputs length is 4, witness length is 4.
     let circuit = Circuit::new(4, 4, &layers());
 
-    match proof.verify(&params, &outputs, &inputs, &circuit) {
+    match proof.verify(
+        &params,
+        &outputs,
+        &inputs,
+        &circuit,
+        circuit.circuit_to_hash::<E>(),
+        params.param_to_hash(),
+    ) {
         true => Ok(()),
         false => Err(Error::Verify),
     }
diff --git a/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs b/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs
index 65fe817..bbdc6d3 100644
--- a/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/mini_libra_zk_linear_gkr_verifier/src/entry.rs
@@ -61,7 +61,14 @@ pub fn main() -> Result<(), Error> {
     // inputs length is 4, witness length is 4.
     let circuit = Circuit::new(4, 4, &layers());
 
-    match proof.verify(&params, &circuit, &outputs, &inputs) {
+    match proof.verify(
+        &params,
+        &circuit,
+        &outputs,
+        &inputs,
+        circuit.circuit_to_hash::<E>(),
+        params.param_to_hash(),
+    ) {
         true => Ok(()),
         false => Err(Error::Verify),
     }
diff --git a/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs b/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs
index 86cb292..9227aed 100644
--- a/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/universal_spartan_nizk_verifier/src/entry.rs
@@ -33,7 +33,13 @@ pub fn main() -> Result<(), Error> {
     let mut publics = Vec::new();
     publics.push(Fr::deserialize(&public_data[..]).map_err(|_e| Error::Encoding)?);
 
-    match verify_proof(&vk, &proof, &publics) {
+    match verify_proof(
+        &vk,
+        &proof,
+        &publics,
+        vk.r1cs.r1cs_to_hash(),
+        vk.params.param_to_hash(),
+    ) {
         Ok(true) => Ok(()),
         _ => Err(Error::Verify),
     }
diff --git a/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs b/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs
index 8438629..552c455 100644
--- a/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs
+++ b/ckb-contracts/contracts/universal_spartan_snark_verifier/src/entry.rs
@@ -33,7 +33,14 @@ pub fn main() -> Result<(), Error> {
     let mut publics = Vec::new();
     publics.push(Fr::deserialize(&public_data[..]).map_err(|_e| Error::Encoding)?);
 
-    match verify_proof(&vk, &proof, &publics) {
+    match verify_proof(
+        &vk,
+        &proof,
+        &publics,
+        vk.r1cs.r1cs_to_hash(),
+        vk.params.param_to_hash(),
+        vk.encode_comm.encode_to_hash(),
+    ) {
         Ok(true) => Ok(()),
         _ => Err(Error::Verify),
     }
-- 
2.43.0


From f87a9ffd028cd615c3eb93311f0b7e5fa1b3cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:36 +0000
Subject: [PATCH 35/35] fix: spartan: the digest of a constraint system has to
 tell its rows apart

---
 spartan/src/r1cs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spartan/src/r1cs.rs b/spartan/src/r1cs.rs
index f4987b0..1e43390 100644
--- a/spartan/src/r1cs.rs
+++ b/spartan/src/r1cs.rs
@@ -30,7 +30,7 @@ impl <G: Curve> R1CSInstance<G> {
         transcript.append_u64(b"num_constraints", self.num_constraints as u64);
     
         for matrix in self.a_matrix.iter(){
-            
+            transcript.append_u64(b"a_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"a_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -40,7 +40,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.b_matrix.iter(){
-            
+            transcript.append_u64(b"b_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"b_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
@@ -50,7 +50,7 @@ impl <G: Curve> R1CSInstance<G> {
             }
         }
         for matrix in self.c_matrix.iter(){
-            
+            transcript.append_u64(b"c_matrix_row", matrix.len() as u64);
             for i in 0..matrix.len(){
                 transcript.append_message(b"c_matrix", &to_bytes!(matrix[i].0).unwrap());
                 match matrix[i].1 {
-- 
2.43.0

