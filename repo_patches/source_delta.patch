From 372c62f97f0f1bae973f3c37457a65f79e31abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:00 +0000
Subject: [PATCH 01/15] verification hook: cfg(zok_verif) re-exports of
 crate-private entry points

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index af37987..ea9427f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -33,6 +33,14 @@ pub mod multiproof;
 pub mod permutation;
 mod turbo_plonk;
 
+/// Crate-private entry points used by the external verification harness.
+/// Compiled only with `--cfg zok_verif`.
+#[cfg(zok_verif)]
+pub mod verif_hooks {
+    pub use crate::mock_prover::{MockProof, MockProver};
+    pub use crate::turbo_plonk::{TPProof, TurboPlonk};
+}
+
 mod tests;
 
 pub type PCKeys<F, PC> = (
-- 
2.43.0


From ebdf6d23c51224c44fb3ad039a28ef92d1ad95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:14 +0000
Subject: [PATCH 02/15] fix: PlonkArith4 reads its fourth wire from witness
 column 3

The fourth addend q_4 * d reused witness column 2 (the third wire) and its
query was not declared, so the gate enforced q_4 * c and never opened d.
---
 src/vo/precompiled/plonk_arith.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..7de6c78 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d])
     }
 }
 
-- 
2.43.0


From d26fa847da07601b4132b35186a9cd2f058ebfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:32 +0000
Subject: [PATCH 03/15] fix: multiopen verifier rejects a wrong number of q
 evaluations

The verifier zipped the opening sets with proof.q_evals, so a proof with
fewer q evaluations silently left the remaining opening sets unchecked.
---
 src/multiproof/error.rs    | 3 +++
 src/multiproof/piop/mod.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/multiproof/error.rs b/src/multiproof/error.rs
index 35e408a..e4ae9dd 100644
--- a/src/multiproof/error.rs
+++ b/src/multiproof/error.rs
@@ -7,6 +7,9 @@ pub enum Error<E> {
     /// There was an error in PIOP.
     PIOPError(PiopError),
 
+    /// Number of sent q evaluations differs from number of opening sets.
+    WrongNumberOfQEvals,
+
     /// Pairing check does not hold.
     OpeningCheckFailed,
 }
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..fe85bbc 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -165,6 +165,12 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // There must be exactly one q evaluation per opening set, otherwise
+        // some sets would be left out of the check
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::WrongNumberOfQEvals);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From b8a411f1962b9e5c3b82d6a951a7b4edd7183bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:34 +0000
Subject: [PATCH 04/15] fix: multiopen verifier reports repeated rotations
 instead of panicking

The prover already answers with PiopError::RepeatedRotation.
---
 src/multiproof/piop/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index fe85bbc..dd5bb25 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -18,6 +18,7 @@ use crate::{
         rotation::Rotation,
         traits::{CommittedOracle, Instantiable},
     },
+    piop::error::Error as PiopError,
     rng::FiatShamirRng,
 };
 
@@ -208,9 +209,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                         let prev =
                             q_i_evals_set.insert(evaluation_point, evaluation);
                         if prev.is_some() {
-                            panic!(
-                                "Same evaluation point for different rotations"
-                            )
+                            return Err(
+                                PiopError::RepeatedRotation(*rotation).into()
+                            );
                         }
                     }
 
-- 
2.43.0


From 1a11b0041bbfeef5d1e93dc629b055c9f1514015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:01 +0000
Subject: [PATCH 05/15] fix: verifier rejects proofs of a wrong shape instead
 of panicking

The number of quotient chunks was taken from the proof, the number of
witness commitments was not checked at all, and every other count was
asserted, so a malformed proof crashed the verifier.
---
 src/error.rs       |  4 +++
 src/turbo_plonk.rs | 73 +++++++++++++++++++++++-----------------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..ad7f6e2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,10 @@ pub enum Error<E> {
     PolynomialCommitmentError(E),
     /// Prover sent commitments to more or less chunks of quotient than needed
     WrongNumberOfChunks,
+    /// Prover sent more or less commitments than needed
+    WrongNumberOfCommitments,
+    /// Prover sent more or less evaluations than needed
+    WrongNumberOfEvals,
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..aa0f6b8 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -714,21 +714,29 @@ where
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let num_of_quotient_chunks = proof.quotient_chunk_commitments.len();
-        // SKIP FOR NOW
-        // let num_of_quotient_chunks =
-        //     vk.index_info.quotient_degree.next_power_of_two() / domain_size;
+        let num_of_quotient_chunks =
+            vk.index_info.extended_coset_domain.size() / domain_size;
+        if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
+            || num_of_quotient_chunks != proof.quotient_chunks_evals.len()
+        {
+            return Err(Error::WrongNumberOfChunks);
+        }
 
-        // if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
-        //     || num_of_quotient_chunks != proof.quotient_chunks_evaluations.len()
-        // {
-        //     dbg!(
-        //         num_of_quotient_chunks,
-        //         proof.quotient_chunk_commitments.len(),
-        //         proof.quotient_chunks_evaluations.len(),
-        //     );
-        //     return Err(Error::WrongNumberOfChunks);
-        // }
+        let num_of_lookups = vk.index_info.lookups.len();
+        if proof.witness_commitments.len() != witness_oracles.len()
+            || proof.lookup_commitments.len() != 2 * num_of_lookups
+            || proof.lookup_z_commitments.len() != num_of_lookups
+        {
+            return Err(Error::WrongNumberOfCommitments);
+        }
+
+        if proof.permutation_oracle_evals.len()
+            != preprocessed.permutation_oracles.len()
+            || proof.lookup_evals.len() != 3 * num_of_lookups
+            || proof.lookup_z_evals.len() != 2 * num_of_lookups
+        {
+            return Err(Error::WrongNumberOfEvals);
+        }
 
         // --------------------------------------------------------------------
         // First round
@@ -800,7 +808,9 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        if query_set.len() != proof.witness_evals.len() {
+            return Err(Error::WrongNumberOfEvals);
+        }
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -826,7 +836,9 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        if fixed_query_set.len() != proof.fixed_oracle_evals.len() {
+            return Err(Error::WrongNumberOfEvals);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -851,7 +863,9 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        if table_query_set.len() != proof.table_oracle_evals.len() {
+            return Err(Error::WrongNumberOfEvals);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -870,10 +884,6 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
-            preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -902,16 +912,8 @@ where
 
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_polys: Vec<_> = vk
             .index_info
@@ -982,11 +984,6 @@ where
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1016,7 +1013,9 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        if num_of_z_polys != proof.z_commitments.len() {
+            return Err(Error::WrongNumberOfCommitments);
+        }
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1052,7 +1051,9 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        if z_query_set.len() != proof.z_evals.len() {
+            return Err(Error::WrongNumberOfEvals);
+        }
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From d3c3e6e832c4ce77daa5543f4861d9a295b82727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:32 +0000
Subject: [PATCH 06/15] fix: bind the public inputs into the Fiat-Shamir
 transcript

No challenge depended on the instance polynomials, so after seeing the
evaluation point a prover could pick different public inputs that agree
with the claimed ones at that point and reuse the proof.
---
 src/turbo_plonk.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index aa0f6b8..bf3f067 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -210,7 +210,7 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -251,6 +251,14 @@ where
             preprocessed,
         );
 
+        // public inputs are part of the statement, each one is absorbed in label order
+        for &index in prover_state.instance_oracles_mapping.values() {
+            fs_rng.absorb(
+                &to_bytes![prover_state.instance_oracles[index].poly.coeffs]
+                    .unwrap(),
+            );
+        }
+
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let (verifier_lookup_aggregation_msg, verifier_state) =
@@ -688,7 +696,7 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
@@ -743,6 +751,13 @@ where
 
         fs_rng.absorb(&to_bytes![&proof.witness_commitments].unwrap());
 
+        // public inputs are part of the statement, each one is absorbed in label order
+        for &index in instance_oracles_mapping.values() {
+            fs_rng.absorb(
+                &to_bytes![instance_oracles[index].poly.coeffs].unwrap(),
+            );
+        }
+
         let (verifier_lookup_aggregation_msg, verifier_state) =
             PIOPforPolyIdentity::<F, PC>::verifier_lookup_aggregation_round(
                 verifier_init_state,
-- 
2.43.0


From baf095990b52f63f015deec55c1837310b368273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:35 +0000
Subject: [PATCH 07/15] fix: absorb all claimed evaluations before the
 multiopen challenges

The batching challenges x1 and x2 did not depend on the claimed
evaluations, so a prover could choose evaluations whose errors cancel in
the batched opening.
---
 src/turbo_plonk.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index bf3f067..8d5ccd5 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -419,8 +419,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -432,7 +430,6 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
 
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
@@ -513,6 +510,22 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        // all claimed evals have to be fixed before multiopen challenges are derived
+        fs_rng.absorb(
+            &to_bytes![
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                lookup_evals,
+                lookup_z_evals,
+                quotient_chunks_evals,
+                permutation_oracle_evals,
+                z_evals,
+                q_blind_eval
+            ]
+            .unwrap(),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1283,6 +1296,22 @@ where
 
         oracles.extend_from_slice(preprocessed_oracles.as_slice());
 
+        // all claimed evals have to be fixed before multiopen challenges are derived
+        fs_rng.absorb(
+            &to_bytes![
+                &proof.witness_evals,
+                &proof.fixed_oracle_evals,
+                &proof.table_oracle_evals,
+                &proof.lookup_evals,
+                &proof.lookup_z_evals,
+                &proof.quotient_chunks_evals,
+                &proof.permutation_oracle_evals,
+                &proof.z_evals,
+                &proof.q_blind_eval
+            ]
+            .unwrap(),
+        );
+
         Multiopen::<F, PC, FS>::verify(
             &vk.verifier_key,
             proof.multiopen_proof,
-- 
2.43.0


From aac26cb00b273074f116dc8b2aa6078aee3cd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 08/15] fix: indexer sizes the quotient domain by degree + 1
 and reports low degrees

A quotient whose degree is a power of two (e.g. a degree 4 gate over 4
rows) did not fit into the extended domain, and constraints of lower
degree than the vanishing polynomial underflowed instead of returning
QuotientTooSmall.
---
 src/indexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..0290a76 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        max_degree
+            .checked_sub(z_h_degree)
+            .ok_or(Error::QuotientTooSmall)
     }
 
     fn compute_zh_evals(
@@ -175,8 +177,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         )?;
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
+        // polynomial of degree d is defined with d + 1 evaluations
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From d48cb889dc9993b6bb3ad8109d53a20943348507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 09/15] fix: lookups respect rotations of instance, fixed and
 table queries

The verifier evaluated instance and fixed queries of lookup expressions at
the unrotated challenge, and table rotations were ignored by both sides,
so proofs of true lookups over rotated columns were rejected.
---
 src/lookup/mod.rs | 75 ++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..1536430 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -273,9 +273,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
-                                }
+                                Some(index) => Ok(table_oracles[*index]
+                                    .query_at_omega_in_original_domain(
+                                        i,
+                                        table_query.rotation,
+                                    )),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -313,7 +315,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -434,37 +436,39 @@ impl<F: PrimeField> LookupArgument<F> {
         let expression_evals = lookup_expressions.iter().map(|lookup_expr| {
             lookup_expr.evaluate(
                 &Self::ident,
-                &|query| match query.oracle_type {
-                    OracleType::Witness => {
-                        let evaluation_challenge =
-                            query.rotation.compute_evaluation_point(
-                                evaluation_challenge,
-                                omegas,
-                            );
-                        match witness_oracles_mapping.get(&query.label) {
-                            Some(index) => witness_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingWitnessOracle(
-                                query.label.clone(),
-                            )),
+                &|query| {
+                    let evaluation_challenge =
+                        query.rotation.compute_evaluation_point(
+                            evaluation_challenge,
+                            omegas,
+                        );
+                    match query.oracle_type {
+                        OracleType::Witness => {
+                            match witness_oracles_mapping.get(&query.label) {
+                                Some(index) => witness_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingWitnessOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Instance => {
-                        match instance_oracles_mapping.get(&query.label) {
-                            Some(index) => instance_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingInstanceOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Instance => {
+                            match instance_oracles_mapping.get(&query.label) {
+                                Some(index) => instance_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingInstanceOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Fixed => {
-                        match fixed_oracles_mapping.get(&query.label) {
-                            Some(index) => fixed_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingFixedOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Fixed => {
+                            match fixed_oracles_mapping.get(&query.label) {
+                                Some(index) => fixed_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingFixedOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
                     }
                 },
@@ -504,6 +508,11 @@ impl<F: PrimeField> LookupArgument<F> {
                             ))
                         }
                         OracleType::Fixed => {
+                            let evaluation_challenge =
+                                table_query.rotation.compute_evaluation_point(
+                                    evaluation_challenge,
+                                    omegas,
+                                );
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-- 
2.43.0


From 3df9e8dd15dd511a04ef7137c560b6d0664c991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 10/15] fix: always open the permutation oracles and q_blind at
 the evaluation challenge

Their evaluations at the challenge are used by the verifier, but they were
opened there only if the caller had registered that rotation on them
(VerifierPreprocessedInput::new_wo_blind never does), so a prover could
claim any value for them.
---
 src/data_structures.rs | 6 +++++-
 src/turbo_plonk.rs     | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..07f6e40 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -80,7 +81,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
+        // permutation oracles and q_blind are always opened in evaluation challenge
         for oracle in permutation_oracles.iter_mut() {
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 8d5ccd5..6abbd5f 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -917,6 +917,7 @@ where
             .iter_mut()
             .zip(proof.permutation_oracle_evals.iter())
         {
+            sigma.register_rotation(Rotation::curr());
             sigma.register_eval_at_challenge(verifier_second_msg.xi, eval);
         }
 
@@ -1104,6 +1105,7 @@ where
             };
         }
 
+        preprocessed.q_blind.register_rotation(Rotation::curr());
         preprocessed.q_blind.register_eval_at_challenge(
             verifier_second_msg.xi,
             proof.q_blind_eval,
-- 
2.43.0


From 0fc24ad6c3e5e46691f80790a9e39076bf87b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 11/15] fix: indexer accounts for removed roots when sizing for
 the permutation argument

With z_h missing more roots than the scaling factor the quotient of the
permutation argument did not fit into the extended domain and true
statements could not be proved.
---
 src/indexer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 0290a76..7698270 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -195,11 +195,18 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
                 }
             });
 
+        // When z_h misses some of the domain's roots, quotient of the permutation argument
+        // that uses all columns allowed by scaling factor s has degree s * (n - 1) - 1 + missing_roots
+        let missing_roots = domain.size().saturating_sub(z_h.degree());
+
         let scaling_factor = extended_coset_domain.size() / domain.size();
         let scaling_factor = if num_of_oracles_to_permute > 0 {
             max(
                 scaling_factor,
-                PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                max(
+                    PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                    missing_roots.next_power_of_two(),
+                ),
             )
         } else {
             scaling_factor
-- 
2.43.0


From a4704e2d56e3ffca944318af324036ea9d872ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 12/15] fix: support lookup expressions of degree higher than
 one column

Products in a lookup expression made the prover panic in a sanity check
that assumes degree < n, and the extended domain was not sized for them.
---
 src/indexer.rs    | 18 ++++++++++++++++++
 src/lookup/mod.rs |  6 ------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 7698270..e8d452a 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -218,6 +218,24 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             scaling_factor
         };
 
+        // Lookup expressions can be of higher degree than a single oracle, in that case
+        // degree of the subset equality is dominated by q_blind * z(X) * A(X) * S(X)
+        let mut scaling_factor = scaling_factor;
+        for lookup in lookups.iter() {
+            for expression in lookup.get_expressions()? {
+                let a_degree = expression.degree(&|_| Ok(domain.size() - 1))?;
+                let lookup_degree = 3 * (domain.size() - 1)
+                    + max(a_degree, domain.size() - 1);
+                let evals_needed =
+                    lookup_degree.saturating_sub(z_h.degree()) + 1;
+                scaling_factor = max(
+                    scaling_factor,
+                    ((evals_needed + domain.size() - 1) / domain.size())
+                        .next_power_of_two(),
+                );
+            }
+        }
+
         // Even if there are no oracles to permute we construct permutation argument to omit Option handling on many places
         let permutation_argument =
             PermutationArgument::new(scaling_factor, &permutation_info);
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 1536430..75bfa58 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -243,12 +243,6 @@ impl<F: PrimeField> LookupArgument<F> {
             should_permute: false,
         };
 
-        // sanity check
-        assert_eq!(
-            a.evals_at_coset_of_extended_domain.clone().unwrap(),
-            extended_coset_domain.coset_fft(&a.poly)
-        );
-
         // For now we are supporting just fixed table queries, easily we can extend it to table expressions and
         // we will just repeat what is done for A
         let mut s_original_domain_evals =
-- 
2.43.0


From 0d8e69644a6d4a189723960c7dd8783faec643d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:33 +0000
Subject: [PATCH 13/15] fix: permuted witness oracles are always opened at the
 evaluation challenge

A permuted column that no gate queries at the current row was proved without
an evaluation at the challenge point and the verifier answered with
MissingConcreteEval.
---
 src/turbo_plonk.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 6abbd5f..dd39977 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -214,6 +214,10 @@ where
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
+            // permuted oracles are always opened in evaluation challenge
+            if oracle.should_permute {
+                oracle.register_rotation(Rotation::curr());
+            }
             oracle.compute_extended_evals(
                 &pk.vk.index_info.extended_coset_domain,
             );
@@ -809,6 +813,10 @@ where
             .zip(proof.witness_commitments.iter())
         {
             witness_oracle.register_commitment(commitment.clone());
+            // permuted oracles are always opened in evaluation challenge
+            if witness_oracle.should_permute {
+                witness_oracle.register_rotation(Rotation::curr());
+            }
         }
 
         // Quotient chunks are evaluated only in evaluation challenge
-- 
2.43.0


From 249e00906750088145a64b1f42da7add8387372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:00 +0000
Subject: [PATCH 14/15] fix: multiopen verifier evaluates remainders without a
 partially cancelling sum

---
 src/multiproof/piop/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index dd5bb25..2e26698 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -4,11 +4,8 @@ use std::{
     marker::PhantomData,
 };
 
-use ark_ff::{to_bytes, PrimeField, Zero};
-use ark_poly::{
-    univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain,
-    Polynomial,
-};
+use ark_ff::{to_bytes, PrimeField};
+use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial};
 use ark_poly_commit::LabeledCommitment;
 use ark_std::rand::Rng;
 
@@ -233,12 +230,12 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                     construct_lagrange_basis(&evaluation_domain);
                 let r_evals: Vec<F> = q_eval_set.values().cloned().collect();
 
-                let mut r_poly = DensePolynomial::zero();
+                let mut r_eval = F::zero();
                 for (l_i, &r_i) in lagrange_bases.iter().zip(r_evals.iter()) {
-                    r_poly += &(l_i * r_i)
+                    r_eval += l_i.evaluate(&verifier_second_msg.x3) * r_i
                 }
 
-                Ok((q_eval - r_poly.evaluate(&verifier_second_msg.x3))
+                Ok((q_eval - r_eval)
                     * z_h.evaluate(&verifier_second_msg.x3).inverse().unwrap())
             })
             .collect::<Result<Vec<F>, Error<PC::Error>>>()?;
-- 
2.43.0


From c7cff68e41b47b09a5c58e369b13630932e7b6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 15/15] fix: vanishing polynomials of full degree are evaluated
 over the coset without truncation

---
 src/indexer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index e8d452a..9e49d41 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -126,7 +126,15 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             ark_ff::batch_inversion(&mut zh_evals);
             zh_evals
         } else {
-            let mut zh_evals = extended_coset_domain.coset_fft(&z_h);
+            // fft drops coefficients that don't fit in the domain
+            let mut zh_evals = if z_h.degree() < extended_coset_domain.size() {
+                extended_coset_domain.coset_fft(&z_h)
+            } else {
+                extended_coset_domain
+                    .elements()
+                    .map(|x| z_h.evaluate(&(x * F::multiplicative_generator())))
+                    .collect()
+            };
             ark_ff::batch_inversion(&mut zh_evals);
             zh_evals
         }
-- 
2.43.0

