From 63775ad46f2dc5e82ed663584c3214c60a7991ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/14] fix: KZG open/open_vector panic on the zero polynomial

---
 kzg/src/scheme.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..f828c3f 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -109,8 +109,10 @@ impl KzgScheme {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
         let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients (and evaluates to zero)
+        if let Some(first) = new_poly.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -133,8 +135,10 @@ impl KzgScheme {
         let z = z.into();
         let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // the zero polynomial has no coefficients (and evaluates to zero)
+        if let Some(first) = polynomial.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From acd1a78404ed666e60d0e8ff036c01f2b61ec0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 02/14] fix: adding KZG openings ignored the witness point of
 the right operand

---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..c5c6059 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From b7713812ec1580103db2beb4dda25c8fdb180525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 03/14] fix: Merkle tree over a number of leaves that is not a
 power of two was not padded before hashing

---
 fri/src/merkle_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..d57816c 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -43,6 +43,8 @@ impl<F: PrimeField> MerkleTree<F> {
         let new_len = evaluations.len().next_power_of_two();
         let depth = new_len.ilog2() as usize;
 
+        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
+
         let first_level = evaluations.iter().map(hash).collect::<Vec<_>>();
 
         let mut internal_nodes = vec![first_level];
@@ -52,8 +54,6 @@ impl<F: PrimeField> MerkleTree<F> {
             internal_nodes.push(next_level);
         }
 
-        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
-
         Self {
             internal_nodes,
             leaves: evaluations,
-- 
2.43.0


From bc11b8dea78877107fc71008d7bfb37fd5464df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 04/14] fix: hash_slice gave the same hash input to different
 slices

---
 fri/src/hasher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fri/src/hasher.rs b/fri/src/hasher.rs
index 858c79e..7108eb0 100644
--- a/fri/src/hasher.rs
+++ b/fri/src/hasher.rs
@@ -30,7 +30,11 @@ pub fn hash<F: PrimeField>(data: &F) -> F {
 ///
 pub fn hash_slice<F: PrimeField>(data: &[F]) -> F {
     let mut hasher = Sha256::new();
-    data.iter().for_each(|d| hasher.update(d.to_string()));
+    // the separator keeps the encoding of the slice injective
+    data.iter().for_each(|d| {
+        hasher.update(d.to_string());
+        hasher.update(",");
+    });
     let h = hasher.finalize();
     F::from_le_bytes_mod_order(&h)
 }
-- 
2.43.0


From d7fd10476209b6493aeba5ad054c1a75884d352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 05/14] fix: FRI verifier accepted proofs with missing openings
 or with paths to foreign Merkle roots

---
 fri/src/merkle_tree.rs |  2 +-
 fri/src/verifier.rs    | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index d57816c..aacab5d 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -12,7 +12,7 @@ pub struct MerkleProof<F: PrimeField> {
     /// Hash values of the neighboring nodes.
     hash_proof: Vec<F>,
     /// Root value of the committed Merkle tree.
-    root: F,
+    pub(crate) root: F,
 }
 
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..38a801a 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,13 +12,20 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    // every announced query must be answered, and every halving of the domain be committed to
+    if proof.decommitment_list.len() != proof.number_of_queries
+        || 1usize.checked_shl(proof.layers_root.len() as u32) != Some(proof.domain_size)
+    {
+        return Err(String::from("wrong number of decommitments or layers!"));
+    }
+
     // regenerate random_r list
-    let merkle_roots = proof.layers_root;
+    let merkle_roots = &proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
-        .into_iter()
+        .iter()
         .map(|root| {
-            transcript.digest(root);
+            transcript.digest(*root);
             transcript.generate_a_challenge()
         })
         .collect::<Vec<_>>();
@@ -39,6 +46,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            merkle_roots,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -51,6 +59,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    layers_root: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
@@ -60,6 +69,15 @@ fn verify_query<F: PrimeField>(
     let mut cur_coset = coset;
     let two = F::from(2u128);
 
+    // every layer must be opened
+    if decommitment.evaluations.len() != layers_root.len()
+        || decommitment.auth_paths.len() != layers_root.len()
+        || decommitment.sym_evaluations.len() != layers_root.len()
+        || decommitment.sym_auth_paths.len() != layers_root.len()
+    {
+        return Err(String::from("wrong number of layers!"));
+    }
+
     for (((((i, eval), path), sym_eval), sym_path), random_r) in decommitment
         .evaluations
         .iter()
@@ -84,6 +102,10 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
+        if path.root != layers_root[i] || sym_path.root != layers_root[i] {
+            return Err(String::from("wrong Merkle root!"));
+        }
+
         if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
             return Err(String::from("verify Merkle path failed!"));
         }
-- 
2.43.0


From a18804478d6f131e08baf5f4878f57dcb7876aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 06/14] fix: the trivial relaxed R1CS pair did not satisfy
 systems that use the constant column

---
 nova/src/r1cs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..34d932e 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -79,7 +79,9 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    // with u = 0 the all-zero witness satisfies every relaxed R1CS
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From 15fbff404144d27cbfada9a7505b35a12482f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 07/14] fix: PLONK prover ignored the requested digest and
 always used SHA-256

---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From 2e24ea40aa1cc3210f7d895b0d6a1401f68cd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 08/14] fix: compiling a circuit with a single gate panicked

---
 plonk/src/circuit.rs                               | 3 +--
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..546243c 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -148,8 +148,7 @@ impl Circuit {
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
 
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..9328343 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two();
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From 203b063283e9375d257d9d93c862ac6a9e3e84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 09/14] fix: powers of numbers and of multi-character bases
 were expanded to the wrong product

---
 .../src/common_preprocessed_input/cpi_parser.rs | 17 ++++++++++++-----
 plonk/src/parser.rs                             | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..92a1e5a 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -378,7 +378,8 @@ impl CPIGenerator {
     fn normalize(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the maximal run of letters and digits that a following ^ applies to
+        let mut base = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -387,25 +388,31 @@ impl CPIGenerator {
             }
             if char == '^' {
                 flag = true;
+                number_buffer.clear();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
                         for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
                             result.push('*');
-                            result.push(last_char);
+                            result.push_str(&base);
                         }
                         flag = false;
+                        base.clear();
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if char.is_alphabetic() {
+                    base.push(char);
+                } else {
+                    base.clear();
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    base.push(char);
                     result.push(char);
                 }
             }
@@ -413,7 +420,7 @@ impl CPIGenerator {
         if flag && !number_buffer.is_empty() {
             for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
                 result.push('*');
-                result.push(last_char);
+                result.push_str(&base);
             }
         }
         result
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..3b41a4c 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -373,7 +373,8 @@ impl Parser {
     fn parse_string(string: &str) -> String {
         let string = string.to_lowercase();
         let mut result = String::new();
-        let mut last_char = ' ';
+        // the maximal run of letters and digits that a following ^ applies to
+        let mut base = String::new();
         let mut number_buffer = String::new();
         let mut flag = false;
         for char in string.chars() {
@@ -382,25 +383,31 @@ impl Parser {
             }
             if char == '^' {
                 flag = true;
+                number_buffer.clear();
             } else if !char.is_numeric() {
                 if flag {
                     if !number_buffer.is_empty() {
                         for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
                             result.push('*');
-                            result.push(last_char);
+                            result.push_str(&base);
                         }
                         flag = false;
+                        base.clear();
                     } else {
                         panic!("can't parse polynomial")
                     }
                 }
-                last_char = char;
+                if char.is_alphabetic() {
+                    base.push(char);
+                } else {
+                    base.clear();
+                }
                 result.push(char);
                 number_buffer = String::new();
             } else {
                 number_buffer.push(char);
                 if !flag {
-                    last_char = char;
+                    base.push(char);
                     result.push(char);
                 }
             }
@@ -408,7 +415,7 @@ impl Parser {
         if flag && !number_buffer.is_empty() {
             for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
                 result.push('*');
-                result.push(last_char);
+                result.push_str(&base);
             }
         }
         result
-- 
2.43.0


From 472c60f873ac474336d57ae7493ef50c16119bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 10/14] fix: the constant gate of a constant like 007 was not
 linked to the wires using it

---
 plonk/src/parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 3b41a4c..847ee5b 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -326,12 +326,9 @@ impl Parser {
                 eprintln!("value = {:#?}", value);
                 let constant = value.parse::<i32>().unwrap();
                 let wire = if is_negative {
-                    Wire::new(
-                        "-".to_string() + constant.to_string().as_str(),
-                        Fr::from(constant).neg(),
-                    )
+                    Wire::new("-".to_string() + value, Fr::from(constant).neg())
                 } else {
-                    Wire::new(constant.to_string(), Fr::from(constant))
+                    Wire::new(value.to_string(), Fr::from(constant))
                 };
                 #[cfg(test)]
                 println!("{:?} {}", wire, is_negative);
-- 
2.43.0


From 33ff32d155f9004b152b6305a02802ede62675f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 11/14] fix: preprocessing lacked the constant gate for a
 negative right-hand side

---
 plonk/src/common_preprocessed_input/cpi_parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 92a1e5a..3feaf6e 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -268,7 +268,7 @@ impl CPIGenerator {
                         left,
                         right,
                         bottom,
-                        Fr::from(gate.left.value_string.parse::<i32>().unwrap()),
+                        Self::parse_constant(&gate.left.value_string).unwrap(),
                         Fr::from(0),
                     );
                 }
@@ -338,6 +338,15 @@ impl CPIGenerator {
         result
     }
 
+    /// Parse a constant the way [`crate::parser::Parser`] does: a negated constant on the
+    /// right-hand side carries two minus signs
+    fn parse_constant(value: &str) -> Option<Fr> {
+        match value.strip_prefix('-') {
+            Some(value) => value.parse::<i32>().ok().map(|value| -Fr::from(value)),
+            None => value.parse::<i32>().ok().map(Fr::from),
+        }
+    }
+
     /// Check if the value represents a constant and generate a constant gate if so
     fn check_constant(
         &self,
@@ -346,7 +355,7 @@ impl CPIGenerator {
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
         value: String,
     ) {
-        if value.parse::<i32>().is_ok() {
+        if Self::parse_constant(&value).is_some() {
             self.generate_constant_gate(gate_list, gate_set, position_map, ParserWire::new(value));
         };
     }
-- 
2.43.0


From 01ad3d25f925ef1f5b842c6bae8436bf0dae0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 12/14] fix: dummy gates between other gates shifted the
 selectors of the preprocessing circuit

---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 9328343..7d853ee 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -97,9 +97,6 @@ impl CPICircuit {
         result.insert(Self::VEC_PI, vec![]);
 
         for gate in &self.gates {
-            if gate.is_dummy_gate() {
-                continue;
-            }
             result.get_mut(Self::VEC_QL).unwrap().push(gate.q_l);
             result.get_mut(Self::VEC_QR).unwrap().push(gate.q_r);
             result.get_mut(Self::VEC_QM).unwrap().push(gate.q_m);
-- 
2.43.0


From 5b740f4e52f43162614657cabfd543bab893634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 13/14] Hooks for the external verification harness, guarded by
 cfg(vp_hooks)

---
 fri/src/lib.rs                                 |  7 +++++++
 fri/src/merkle_tree.rs                         | 11 +++++++++++
 fri/src/prover.rs                              | 18 ++++++++++++++++++
 plonk/src/circuit.rs                           | 11 +++++++++++
 .../common_preprocessed_input/cpi_parser.rs    |  7 +++++++
 plonk/src/gate.rs                              | 10 ++++++++++
 plonk/src/lib.rs                               |  6 ++++++
 plonk/src/parser.rs                            |  7 +++++++
 plonk/src/slice_polynomial.rs                  | 16 ++++++++++++++++
 9 files changed, 93 insertions(+)

diff --git a/fri/src/lib.rs b/fri/src/lib.rs
index 1b9684c..9578d28 100644
--- a/fri/src/lib.rs
+++ b/fri/src/lib.rs
@@ -5,3 +5,10 @@ mod hasher;
 mod merkle_tree;
 pub mod prover;
 pub mod verifier;
+/// Re-exports of private items for the external verification harness.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::fri_layer::*;
+    pub use crate::hasher::*;
+    pub use crate::merkle_tree::*;
+}
diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index aacab5d..b647540 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -131,6 +131,17 @@ pub fn verify_merkle_proof<F: PrimeField>(proof: &MerkleProof<F>) -> bool {
     cur_hash == proof.root
 }
 
+#[cfg(vp_hooks)]
+impl<F: PrimeField> MerkleProof<F> {
+    pub fn vp_hash_proof(&mut self) -> &mut Vec<F> {
+        &mut self.hash_proof
+    }
+
+    pub fn vp_root(&mut self) -> &mut F {
+        &mut self.root
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::fields::goldilocks::Fq;
diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..e3720f5 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -167,6 +167,24 @@ pub fn generate_proof<T: Digest + Default, F: PrimeField>(
     }
 }
 
+#[cfg(vp_hooks)]
+pub fn vp_fold_polynomial<F: PrimeField>(
+    poly: &DensePolynomial<F>,
+    random_r: F,
+) -> DensePolynomial<F> {
+    fold_polynomial(poly, random_r)
+}
+
+#[cfg(vp_hooks)]
+pub fn vp_folding_phase<T: Digest + Default, F: PrimeField>(
+    poly: DensePolynomial<F>,
+    coset: F,
+    domain_size: usize,
+    number_layers: usize,
+) -> (F, Transcript<T, F>, Vec<FriLayer<F>>) {
+    folding_phase::<T, F>(poly, coset, domain_size, number_layers)
+}
+
 #[cfg(test)]
 mod tests {
     use ark_ff::FftField;
diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index 546243c..3357e56 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -244,6 +244,17 @@ impl Circuit {
     }
 }
 
+#[cfg(vp_hooks)]
+impl Circuit {
+    /// Gates and values of the a, b and c wires.
+    pub fn vp_parts(&self) -> (Vec<Gate>, Vec<Vec<Fr>>) {
+        (
+            self.gates.clone(),
+            self.vals.iter().map(|vals| vals.to_vec()).collect(),
+        )
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 3feaf6e..e18f02c 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -436,6 +436,13 @@ impl CPIGenerator {
     }
 }
 
+#[cfg(vp_hooks)]
+impl CPIGenerator {
+    pub fn vp_normalize(string: &str) -> String {
+        Self::normalize(string)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::common_preprocessed_input::cpi_parser::CPIGenerator;
diff --git a/plonk/src/gate.rs b/plonk/src/gate.rs
index 8ae650c..00e47c4 100644
--- a/plonk/src/gate.rs
+++ b/plonk/src/gate.rs
@@ -130,3 +130,13 @@ impl Gate {
         &self.c_pos
     }
 }
+#[cfg(vp_hooks)]
+impl Gate {
+    /// Wire positions and q_l, q_r, q_o, q_m, q_c, pi.
+    pub fn vp_parts(&self) -> ([Position; 3], [Fr; 6]) {
+        (
+            [self.a_pos.clone(), self.b_pos.clone(), self.c_pos.clone()],
+            [self.q_l, self.q_r, self.q_o, self.q_m, self.q_c, self.pi],
+        )
+    }
+}
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index e8b9714..9cc559d 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -9,3 +9,9 @@ pub mod prover;
 mod slice_polynomial;
 pub mod types;
 pub mod verifier;
+/// Re-exports of private items for the external verification harness.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::challenge::ChallengeGenerator;
+    pub use crate::slice_polynomial::vp_slice;
+}
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 847ee5b..b13c52e 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -419,6 +419,13 @@ impl Parser {
     }
 }
 
+#[cfg(vp_hooks)]
+impl Parser {
+    pub fn vp_parse_string(string: &str) -> String {
+        Self::parse_string(string)
+    }
+}
+
 //TODO: implement / operator
 
 #[cfg(test)]
diff --git a/plonk/src/slice_polynomial.rs b/plonk/src/slice_polynomial.rs
index 0263cf5..73ab1eb 100644
--- a/plonk/src/slice_polynomial.rs
+++ b/plonk/src/slice_polynomial.rs
@@ -69,6 +69,22 @@ impl SlicePoly {
     }
 }
 
+/// Slices, reported degree, compaction at `point` and commitments of a polynomial.
+#[cfg(vp_hooks)]
+pub fn vp_slice(
+    polynomial: Polynomial,
+    point: &Fr,
+    scheme: &KzgScheme,
+) -> (Vec<Polynomial>, usize, Polynomial, Vec<KzgCommitment>) {
+    let slice_poly = SlicePoly::new(polynomial);
+    (
+        slice_poly.slices.to_vec(),
+        slice_poly.get_degree(),
+        slice_poly.compact(point),
+        slice_poly.commit(scheme).to_vec(),
+    )
+}
+
 #[cfg(test)]
 mod tests {
     use ark_ff::{Field, UniformRand};
-- 
2.43.0


From ec58bb7fe53012ad7af2dfd7b3a23b82d91e8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 14/14] fix: parsing a variable whose first letter is not ASCII
 panicked

---
 plonk/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index b13c52e..df26491 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -314,9 +314,9 @@ impl Parser {
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
     ) -> Fr {
         let mut is_negative = false;
-        if &value[..1] == "-" {
+        if let Some(stripped) = value.strip_prefix('-') {
             is_negative = true;
-            value = &value[1..];
+            value = stripped;
         }
         let result = match self.witnesses.get(value) {
             //Not a constant, search in map
-- 
2.43.0

