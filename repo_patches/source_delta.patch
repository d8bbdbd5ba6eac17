From 56c09165ab557da0f70cce1af2c24e77b01d6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 01/21] fix: bind the public inputs and the constant wire in
 circuits converted from circom

The instances produced by circuit_reader never referred to the constant 1 nor
to the public inputs: an all-zero witness yielded a proof that verified
against any public inputs. Constrain the constant wire and the public wires,
and read the public inputs in the byte order the library serializes them in.
---
 packages/circuit_reader/src/lib.rs | 23 ++++++++++++++++++++++-
 packages/spartan_wasm/src/wasm.rs  | 24 +++++++++++++-----------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..bdd0150 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -17,10 +17,22 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
 ) -> Instance {
-    let num_cons = r1cs.constraints.len();
     let num_vars = r1cs.num_variables;
     let num_inputs = num_pub_inputs;
 
+    // Every circom wire, including the constant wire and the public wires, is a
+    // witness variable of the Spartan instance. Tie the constant wire to the
+    // constant 1 and the public wires to the public inputs of the instance;
+    // the prover could choose their values freely otherwise.
+    // The wires are ordered as: 1, public outputs, public inputs, private wires.
+    assert!(num_inputs < r1cs.num_inputs);
+    let first_input_wire = r1cs.num_inputs - num_inputs;
+    let bindings = (0..=num_inputs).map(|i| match i {
+        0 => (0, num_vars),
+        _ => (first_input_wire + i - 1, num_vars + i),
+    });
+    let num_cons = r1cs.constraints.len() + num_inputs + 1;
+
     let mut A = vec![];
     let mut B = vec![];
     let mut C = vec![];
@@ -45,6 +57,15 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         }
     }
 
+    let mut one = [0u8; 32];
+    one[0] = 1;
+    for (i, (wire, column)) in bindings.enumerate() {
+        let row = r1cs.constraints.len() + i;
+        A.push((row, wire, one));
+        B.push((row, num_vars, one));
+        C.push((row, column, one));
+    }
+
     let inst = Instance::new(
         num_cons,
         num_vars,
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..0edc5e6 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -34,11 +34,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut input = Vec::new();
-    for i in 0..num_inputs {
-        input.push(public_inputs[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-    let input = Assignment::new(&input).unwrap();
+    let input = read_public_inputs(public_inputs, num_inputs);
 
     let mut prover_transcript = Transcript::new(b"nizk_example");
 
@@ -66,12 +62,7 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut inputs = Vec::new();
-    for i in 0..num_inputs {
-        inputs.push(public_input[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-
-    let inputs = Assignment::new(&inputs).unwrap();
+    let inputs = read_public_inputs(public_input, num_inputs);
 
     let mut verifier_transcript = Transcript::new(b"nizk_example");
 
@@ -82,6 +73,17 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
     Ok(verified)
 }
 
+// The public inputs are serialized in big-endian
+fn read_public_inputs(public_inputs: &[u8], num_inputs: usize) -> Assignment {
+    let mut inputs = Vec::new();
+    for i in 0..num_inputs {
+        let mut input: [u8; 32] = public_inputs[(i * 32)..((i + 1) * 32)].try_into().unwrap();
+        input.reverse();
+        inputs.push(input);
+    }
+    Assignment::new(&inputs).unwrap()
+}
+
 #[wasm_bindgen]
 pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
     assert_eq!(input_bytes.len(), 64);
-- 
2.43.0


From 13f8246c8d86fdea8e411c7b2dd203aacaf13f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 02/21] fix: decode circom field elements in the byte order
 they are stored in

Coefficients and witness values were read byte-reversed and reversed back
later, so the canonicity check looked at the wrong integer and valid values
whose low 28 bytes are all ones were refused.
---
 packages/circuit_reader/src/circom_reader.rs |  4 ++--
 packages/circuit_reader/src/lib.rs           | 12 +++++++++---
 packages/spartan_wasm/src/wasm.rs            | 10 +++++++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..f8504fd 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -68,8 +68,8 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
-    for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
+    // The file is little-endian, the repr is big-endian
+    for digit in repr.as_mut().iter_mut().rev() {
         *digit = reader.read_u8()?;
     }
     let fr = Fr::from_repr(repr).unwrap();
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index bdd0150..82abcf1 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -13,6 +13,12 @@ pub fn load_as_spartan_inst(circuit_file: PathBuf, num_pub_inputs: usize) -> Ins
     spartan_inst
 }
 
+fn to_le_bytes<F: PrimeField<Repr = FieldBytes>>(coeff: &F) -> [u8; 32] {
+    let mut bytes: [u8; 32] = coeff.to_repr().into();
+    bytes.reverse();
+    bytes
+}
+
 fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
@@ -41,18 +47,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
 
             A.push((i, *j, bytes));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             B.push((i, *j, bytes));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             C.push((i, *j, bytes));
         }
     }
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 0edc5e6..e367fe4 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -21,7 +21,11 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| {
+            let mut bytes: [u8; 32] = w.to_repr().into();
+            bytes.reverse();
+            bytes
+        })
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -101,8 +105,8 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
 // Copied from Nova Scotia
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
-    for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
+    // The file is little-endian, the repr is big-endian
+    for digit in repr.as_mut().iter_mut().rev() {
         *digit = reader.read_u8()?;
     }
     let fr = Fr::from_repr(repr).unwrap();
-- 
2.43.0


From f44666cd40b463bc1d7585b316b2f65e850b7873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 03/21] fix: report a truncated serialized scalar as an error

Deserializing a scalar from too few bytes panicked inside the visitor.
---
 packages/Spartan-secq/src/scalar/scalar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..2a862c6 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -234,7 +234,10 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     for i in 0..4 {
       let mut val: u64 = 0;
       for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
+        let byte: u8 = seq
+          .next_element()?
+          .ok_or_else(|| serde::de::Error::invalid_length(i * 8 + j as usize, &self))?;
+        val += (byte as u64) * 256u64.pow(j)
       }
       result[i] = val;
     }
-- 
2.43.0


From 6f7d661925f5d548355e5445aea7435fe78a41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 04/21] fix: field elements survive serialization

---
 packages/secq256k1/src/field/field_secp.rs | 19 +++++++++----------
 packages/secq256k1/src/field/field_secq.rs | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..9c9c930 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -283,7 +283,7 @@ impl SqrtRatio for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
@@ -299,24 +299,23 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("a sequence of 32 bytes")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut result = [0u64; 4];
+        let mut bytes = [0u8; 32];
 
-        for i in 0..4 {
-            let mut val: u64 = 0;
-            for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-            }
-            result[i] = val;
+        for (i, byte) in bytes.iter_mut().enumerate() {
+            *byte = seq
+                .next_element::<u8>()?
+                .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
         }
 
-        Ok(FieldElement::from_raw(result))
+        Option::from(FieldElement::from_bytes(&bytes))
+            .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
     }
 }
 
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..ac19c4e 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -347,7 +347,7 @@ impl BaseField for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
@@ -363,24 +363,23 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("a sequence of 32 bytes")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut result = [0u64; 4];
+        let mut bytes = [0u8; 32];
 
-        for i in 0..4 {
-            let mut val: u64 = 0;
-            for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-            }
-            result[i] = val;
+        for (i, byte) in bytes.iter_mut().enumerate() {
+            *byte = seq
+                .next_element::<u8>()?
+                .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
         }
 
-        Ok(FieldElement::from_raw(result))
+        Option::from(FieldElement::from_bytes(&bytes))
+            .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
     }
 }
 
-- 
2.43.0


From 8e1aac46d1ece6ca6802b914cb22ea77bbe50f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 05/21] fix: field constants of the curve package match their
 fields

---
 packages/secq256k1/src/field/field_secq.rs |  2 +-
 packages/secq256k1/src/scalar.rs           | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index ac19c4e..bd031b6 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -466,7 +466,7 @@ impl PrimeField for FieldElement {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 1;
+    const S: u32 = 6;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         Self::from_sec1(bytes)
diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..bc709ae 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -7,7 +7,6 @@ use ff::{Field, PrimeField, PrimeFieldBits};
 use k256::elliptic_curve::bigint::Encoding;
 use primeorder::elliptic_curve::{
     bigint::{Limb, U256},
-    generic_array::arr,
     ops::Reduce,
     rand_core::RngCore,
     subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
@@ -73,7 +72,7 @@ impl PrimeField for Scalar {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 4;
+    const S: u32 = 1;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         ScalarCore::from_be_bytes(bytes).map(Self)
@@ -88,16 +87,11 @@ impl PrimeField for Scalar {
     }
 
     fn multiplicative_generator() -> Self {
-        7u64.into()
+        3u64.into()
     }
 
     fn root_of_unity() -> Self {
-        Self::from_repr(arr![u8;
-            0xff, 0xc9, 0x7f, 0x06, 0x2a, 0x77, 0x09, 0x92, 0xba, 0x80, 0x7a, 0xce, 0x84, 0x2a,
-            0x3d, 0xfc, 0x15, 0x46, 0xca, 0xd0, 0x04, 0x37, 0x8d, 0xaf, 0x05, 0x92, 0xd7, 0xfb,
-            0xb4, 0x1e, 0x66, 0x02,
-        ])
-        .unwrap()
+        -Self::ONE
     }
 }
 
@@ -310,7 +304,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0


From ee9d35705dba194e53d9d008740d8b9d6e23f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 06/21] fix: report bytes that do not decode to a point instead
 of aborting

---
 packages/Spartan-secq/src/errors.rs | 2 +-
 packages/Spartan-secq/src/group.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/errors.rs b/packages/Spartan-secq/src/errors.rs
index 18e157b..145127e 100644
--- a/packages/Spartan-secq/src/errors.rs
+++ b/packages/Spartan-secq/src/errors.rs
@@ -6,7 +6,7 @@ pub enum ProofVerifyError {
   #[error("Proof verification failed")]
   InternalError,
   #[error("Compressed group element failed to decompress: {0:?}")]
-  DecompressionError([u8; 32]),
+  DecompressionError(Vec<u8>),
 }
 
 impl Default for ProofVerifyError {
diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index e14091f..9ab058f 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -20,7 +20,7 @@ impl CompressedGroupExt for CompressedGroup {
       return Ok(result.unwrap());
     } else {
       Err(ProofVerifyError::DecompressionError(
-        (*self.to_bytes()).try_into().unwrap(),
+        self.as_bytes().to_vec(),
       ))
     }
   }
-- 
2.43.0


From 3293441bfa66e6d2470f043f7df8d3cfefbfad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 07/21] Give external runtime checks access to internal modules
 (feature verif_hooks)

---
 packages/Spartan-secq/src/lib.rs | 51 ++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..b03c4b2 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -30,6 +30,57 @@ mod timer;
 mod transcript;
 mod unipoly;
 
+/// The internal modules, for runtime checks that live outside this crate
+#[cfg(feature = "verif_hooks")]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+  pub mod commitments {
+    pub use crate::commitments::*;
+  }
+  pub mod dense_mlpoly {
+    pub use crate::dense_mlpoly::*;
+  }
+  pub mod errors {
+    pub use crate::errors::*;
+  }
+  pub mod group {
+    pub use crate::group::*;
+  }
+  pub mod math {
+    pub use crate::math::*;
+  }
+  pub mod nizk {
+    pub use crate::nizk::*;
+  }
+  pub mod product_tree {
+    pub use crate::product_tree::*;
+  }
+  pub mod r1csinstance {
+    pub use crate::r1csinstance::*;
+  }
+  pub mod r1csproof {
+    pub use crate::r1csproof::*;
+  }
+  pub mod random {
+    pub use crate::random::*;
+  }
+  pub mod scalar {
+    pub use crate::scalar::*;
+  }
+  pub mod sparse_mlpoly {
+    pub use crate::sparse_mlpoly::*;
+  }
+  pub mod sumcheck {
+    pub use crate::sumcheck::*;
+  }
+  pub mod transcript {
+    pub use crate::transcript::*;
+  }
+  pub mod unipoly {
+    pub use crate::unipoly::*;
+  }
+}
+
 use core::cmp::max;
 use errors::{ProofVerifyError, R1CSError};
 use merlin::Transcript;
-- 
2.43.0


From 834cad143ae336451dfa5b175fb18c5e4155f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 08/21] fix: pad an instance declared without constraints to
 two constraints

---
 packages/Spartan-secq/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index b03c4b2..6a71784 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -202,8 +202,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
@@ -345,10 +345,13 @@ impl SNARKGens {
       num_vars_padded
     };
 
-    let gens_r1cs_sat = R1CSGens::new(b"gens_r1cs_sat", num_cons, num_vars_padded);
+    // an instance has at least two constraints after padding
+    let num_cons_padded = max(num_cons, 2);
+
+    let gens_r1cs_sat = R1CSGens::new(b"gens_r1cs_sat", num_cons_padded, num_vars_padded);
     let gens_r1cs_eval = R1CSCommitmentGens::new(
       b"gens_r1cs_eval",
-      num_cons,
+      num_cons_padded,
       num_vars_padded,
       num_inputs,
       num_nz_entries,
-- 
2.43.0


From 944d7f0a89de32cd99744652b07e634b7b307557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 09/21] fix: commit to constraint matrices with fewer than two
 entries

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..09bd032 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -12,10 +12,13 @@ use super::random::RandomTape;
 use super::scalar::Scalar;
 use super::timer::Timer;
 use super::transcript::{AppendToTranscript, ProofTranscript};
-use core::cmp::Ordering;
+use core::cmp::{max, Ordering};
 use merlin::Transcript;
 use serde::{Deserialize, Serialize};
 
+// matrices with fewer non-zero entries are padded to this many, which the product circuits need
+const MIN_NUM_OPS: usize = 2;
+
 #[derive(Debug, Serialize, Deserialize)]
 pub struct SparseMatEntry {
   row: usize,
@@ -297,15 +300,14 @@ impl SparseMatPolyCommitmentGens {
     num_nz_entries: usize,
     batch_size: usize,
   ) -> SparseMatPolyCommitmentGens {
-    let num_vars_ops =
-      num_nz_entries.next_power_of_two().log_2() + (batch_size * 5).next_power_of_two().log_2();
+    let num_ops = max(num_nz_entries, MIN_NUM_OPS).next_power_of_two();
+    let num_vars_ops = num_ops.log_2() + (batch_size * 5).next_power_of_two().log_2();
     let num_vars_mem = if num_vars_x > num_vars_y {
       num_vars_x
     } else {
       num_vars_y
     } + 1;
-    let num_vars_derefs =
-      num_nz_entries.next_power_of_two().log_2() + (batch_size * 2).next_power_of_two().log_2();
+    let num_vars_derefs = num_ops.log_2() + (batch_size * 2).next_power_of_two().log_2();
 
     let gens_ops = PolyCommitmentGens::new(num_vars_ops, label);
     let gens_mem = PolyCommitmentGens::new(num_vars_mem, label);
@@ -381,6 +383,7 @@ impl SparseMatPolynomial {
       .map(|i| sparse_polys[i].get_num_nz_entries())
       .max()
       .unwrap()
+      .max(MIN_NUM_OPS)
       .next_power_of_two();
 
     let mut ops_row_vec: Vec<Vec<usize>> = Vec::new();
-- 
2.43.0


From dd6efe70402105cb7fc2873aad29fc6e2ff82b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 10/21] fix: refuse proofs with surplus components

The verifier ignored list elements beyond the ones it reads. For the
right-hand points of the inner product argument this let a prover put an
arbitrary point in the place of the commitment being opened, and so open
a commitment to any value.
---
 packages/Spartan-secq/src/group.rs         | 2 ++
 packages/Spartan-secq/src/nizk/bullet.rs   | 2 +-
 packages/Spartan-secq/src/product_tree.rs  | 3 +++
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 packages/Spartan-secq/src/sumcheck.rs      | 1 +
 5 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index 9ab058f..92f2a76 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -106,6 +106,8 @@ impl VartimeMultiscalarMul for GroupElement {
   type Scalar = super::scalar::Scalar;
   // TODO Borrow the arguments so we don't have to clone them, as it was in the original implementation
   fn vartime_multiscalar_mul(scalars: Vec<Scalar>, points: Vec<GroupElement>) -> Self {
+    assert_eq!(scalars.len(), points.len());
+
     let points: Vec<ProjectivePoint> = points.iter().map(|p| ProjectivePoint::from(p.0)).collect();
 
     let pairs: Vec<(ScalarBytes, ProjectivePoint)> = scalars
diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..eade884 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -163,7 +163,7 @@ impl BulletReductionProof {
       // and this check prevents overflow in 1<<lg_n below.
       return Err(ProofVerifyError::InternalError);
     }
-    if n != (1 << lg_n) {
+    if n != (1 << lg_n) || self.R_vec.len() != lg_n {
       return Err(ProofVerifyError::InternalError);
     }
 
diff --git a/packages/Spartan-secq/src/product_tree.rs b/packages/Spartan-secq/src/product_tree.rs
index 6e2f932..c53abbb 100644
--- a/packages/Spartan-secq/src/product_tree.rs
+++ b/packages/Spartan-secq/src/product_tree.rs
@@ -436,6 +436,9 @@ impl ProductCircuitEvalProofBatched {
       if i == num_layers - 1 {
         let num_prod_instances = claims_prod_vec.len();
         let (claims_dotp_left, claims_dotp_right, claims_dotp_weight) = &self.claims_dotp;
+        assert_eq!(claims_dotp_left.len(), claims_dotp_vec.len());
+        assert_eq!(claims_dotp_right.len(), claims_dotp_vec.len());
+        assert_eq!(claims_dotp_weight.len(), claims_dotp_vec.len());
         for i in 0..claims_dotp_left.len() {
           transcript.append_scalar(b"claim_dotp_left", &claims_dotp_left[i]);
           transcript.append_scalar(b"claim_dotp_right", &claims_dotp_right[i]);
diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 09bd032..d08d843 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1271,7 +1271,7 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
+    assert_eq!(eval_dotp_left.len(), eval_dotp_right.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..331e782 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -97,6 +97,7 @@ impl ZKSumcheckInstanceProof {
     // verify that there is a univariate polynomial for each round
     assert_eq!(self.comm_polys.len(), num_rounds);
     assert_eq!(self.comm_evals.len(), num_rounds);
+    assert_eq!(self.proofs.len(), num_rounds);
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
-- 
2.43.0


From 30292e15964ef1f184d1080e14eac7484d3f6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 11/21] fix: start every Poseidon hash at the first round
 constant

A second hash with the same instance read past the round constants and
aborted, because the position in them was never reset.
---
 packages/poseidon/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..9c7e033 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,7 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From 1b9c0dcd3232d2a3e02cbf49bd6f0ef7b794de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 12/21] fix: constrain the slope and the identity test of
 complete addition

---
 .../eff_ecdsa_membership/secp256k1/add.circom        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..5f04fd2 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -80,7 +80,8 @@ template Secp256k1AddComplete() {
     lambdaB * 2 * yP === 3 * xPSquared;
 
     // lambda = xP != xQ ? lambdaA : lambdaB
-    signal lambda <== (lambdaB * isXEqual.out) + lambdaA;
+    // (lambdaA is not constrained when xP = xQ, so it must not contribute then)
+    signal lambda <== (lambdaB - lambdaA) * isXEqual.out + lambdaA;
 
     // outAx = lambda^2 - xP - xQ
     // outAy = lambda * (xP - outAx) - yP
@@ -100,9 +101,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYOpposite = IsZero();
+    isYOpposite.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYOpposite.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From a31c6e444247054474abe4ec07e823951bd5a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 13/21] fix: bind the scalar of the multiplication circuit to
 its bits

---
 .../eff_ecdsa_membership/field_bits.circom    | 44 +++++++++++++++++++
 .../eff_ecdsa_membership/secp256k1/mul.circom | 27 ++++++++----
 2 files changed, 62 insertions(+), 9 deletions(-)
 create mode 100644 packages/circuits/eff_ecdsa_membership/field_bits.circom

diff --git a/packages/circuits/eff_ecdsa_membership/field_bits.circom b/packages/circuits/eff_ecdsa_membership/field_bits.circom
new file mode 100644
index 0000000..d99ec11
--- /dev/null
+++ b/packages/circuits/eff_ecdsa_membership/field_bits.circom
@@ -0,0 +1,44 @@
+pragma circom 2.1.2;
+
+include "../../../node_modules/circomlib/circuits/bitify.circom";
+include "../../../node_modules/circomlib/circuits/comparators.circom";
+
+/**
+ *  FieldToBits
+ *  ===========
+ *
+ *  The 256 bits of a field element, least significant first. Num2Bits(256) alone
+ *  is not enough: with p = 2^256 - 2^32 - 977, it also accepts the bits of in + p
+ *  when in < 2^32 + 977. Here the bits are constrained to be those of an integer
+ *  smaller than p.
+ */
+template FieldToBits() {
+    signal input in;
+    signal output out[256];
+
+    component bits = Num2Bits(256);
+    bits.in <== in;
+
+    // The bits are those of an integer >= p iff bits 33 to 255 are all one
+    // and the low 33 bits are at least p mod 2^33 = 2^32 - 977.
+    var low = 0;
+    var highOnes = 0;
+    for (var i = 0; i < 256; i++) {
+        out[i] <== bits.out[i];
+        if (i < 33) {
+            low += bits.out[i] * (2 ** i);
+        } else {
+            highOnes += bits.out[i];
+        }
+    }
+
+    component isHighFull = IsEqual();
+    isHighFull.in[0] <== highOnes;
+    isHighFull.in[1] <== 223;
+
+    component isLowLarge = GreaterEqThan(33);
+    isLowLarge.in[0] <== low;
+    isLowLarge.in[1] <== 2 ** 32 - 977;
+
+    isHighFull.out * isLowLarge.out === 0;
+}
diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..3852134 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -2,6 +2,7 @@ pragma circom 2.1.2;
 
 include "./add.circom";
 include "./double.circom";
+include "../field_bits.circom";
 include "../../../../node_modules/circomlib/circuits/bitify.circom";
 include "../../../../node_modules/circomlib/circuits/comparators.circom";
 include "../../../../node_modules/circomlib/circuits/gates.circom";
@@ -120,8 +121,16 @@ template K() {
     var tQ = 115792089237316195423570985008687907852405143892509244725752742275123193348738; // (q - 2^256) % q;
     var tQlo = tQ & (2 ** (128) - 1);
     var tQhi = tQ >> 128;
-    signal slo <-- s & (2 ** (128) - 1);
-    signal shi <-- s >> 128;
+    component sBits = FieldToBits();
+    sBits.in <== s;
+    var sloBits = 0;
+    var shiBits = 0;
+    for (var i = 0; i < 128; i++) {
+        sloBits += sBits.out[i] * (2 ** i);
+        shiBits += sBits.out[i + 128] * (2 ** i);
+    }
+    signal slo <== sloBits;
+    signal shi <== shiBits;
 
     // Get carry bit of (slo + tQlo)
 
@@ -164,23 +173,23 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
+    // theta: alo < qlo
     component theta = GreaterThan(129);
     theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
+    theta.in[1] <== alo;
 
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < qlo and isQuotientOne ? 1 : 0
     component borrow = AND();
     borrow.a <== theta.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From 7d68dd7394c0ce4a0e33572235fb37c0b408f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 14/21] fix: hash the canonical encoding of the public key in
 the address circuits

---
 .../circuits/eff_ecdsa_membership/addr_membership.circom     | 5 +++--
 .../circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/addr_membership.circom b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
index b4d9f27..779e38d 100644
--- a/packages/circuits/eff_ecdsa_membership/addr_membership.circom
+++ b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./field_bits.circom";
 include "./tree.circom";
 include "./to_address/zk-identity/eth.circom";
 
@@ -32,10 +33,10 @@ template AddrMembership(nLevels) {
     effEcdsa.Uy <== Uy;
     effEcdsa.s <== s;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = FieldToBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = FieldToBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
diff --git a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
index 0c54599..97c497e 100644
--- a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
+++ b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./field_bits.circom";
 include "./to_address/zk-identity/eth.circom";
 
 /**
@@ -25,10 +26,10 @@ template EfficientECDSAToAddr() {
     effEcdsa.Ux <== Ux;
     effEcdsa.Uy <== Uy;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = FieldToBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = FieldToBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
-- 
2.43.0


From fe5a99a10833bf5851e11d6887caa1875af45413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:30 +0000
Subject: [PATCH 15/21] fix: reading little-endian bytes leaves them as they
 are

---
 packages/lib/src/helpers/utils.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 60f7c97..3b64af6 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -46,7 +46,8 @@ export const bytesToBigInt = (bytes: Uint8Array): bigint =>
   BigInt("0x" + Buffer.from(bytes).toString("hex"));
 
 export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
-  const reversed = bytes.reverse();
+  // Reverse a copy; the caller's bytes stay as they are
+  const reversed = Uint8Array.from(bytes).reverse();
   return bytesToBigInt(reversed);
 };
 
-- 
2.43.0


From 68e4ffae92690a61ed94ec0fb5adb9e1f289405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:30 +0000
Subject: [PATCH 16/21] fix: refuse integers that do not fit instead of
 encoding another number

---
 packages/lib/src/helpers/utils.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 3b64af6..ba5f9f5 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -53,6 +53,9 @@ export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
 
 export const bigIntToBytes = (n: bigint, size: number): Uint8Array => {
   const hex = n.toString(16);
+  if (n < BigInt(0) || hex.length > size * 2) {
+    throw new Error(`${n} does not fit in ${size} bytes`);
+  }
   const hexPadded = hex.padStart(size * 2, "0");
   return Buffer.from(hexPadded, "hex");
 };
-- 
2.43.0


From dc22a9c4bf8ef3d1d388388c1a19910c35e7f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:54 +0000
Subject: [PATCH 17/21] fix: refuse evaluation proofs that leave out hash
 checks of the memory argument

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index d08d843..6caf6dd 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -859,6 +859,10 @@ impl HashLayerProof {
     let (rand_mem, _rand_ops) = rand;
     let (claim_init, claim_read, claim_write, claim_audit) = claims;
 
+    // one address and one timestamp per dereferenced value, so that no hash goes unchecked
+    assert_eq!(eval_ops_addr.len(), eval_ops_val.len());
+    assert_eq!(eval_read_ts.len(), eval_ops_val.len());
+
     // init
     let eval_init_addr = IdentityPolynomial::new(rand_mem.len()).evaluate(rand_mem);
     let eval_init_val = EqPolynomial::new(r.to_vec()).evaluate(rand_mem);
@@ -926,6 +930,7 @@ impl HashLayerProof {
     // verify the decommitments used in evaluation sum-check
     let eval_val_vec = &self.eval_val;
     assert_eq!(claims_dotp.len(), 3 * eval_row_ops_val.len());
+    assert_eq!(eval_val_vec.len(), eval_row_ops_val.len());
     for i in 0..claims_dotp.len() / 3 {
       let claim_row_ops_val = claims_dotp[3 * i];
       let claim_col_ops_val = claims_dotp[3 * i + 1];
-- 
2.43.0


From f17358533d92718f48568ef87588dd1a6d7daa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:09 +0000
Subject: [PATCH 18/21] fix: check the length of the claimed point before
 evaluating the matrices at it

---
 packages/Spartan-secq/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 6a71784..aafb63c 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -83,6 +83,7 @@ pub mod verif_hooks {
 
 use core::cmp::max;
 use errors::{ProofVerifyError, R1CSError};
+use math::Math;
 use merlin::Transcript;
 use r1csinstance::{
   R1CSCommitment, R1CSCommitmentGens, R1CSDecommitment, R1CSEvalProof, R1CSInstance,
@@ -617,6 +618,12 @@ impl NIZK {
     // to enable the verifier complete the first sum-check
     let timer_eval = Timer::new("eval_sparse_polys");
     let (claimed_rx, claimed_ry) = &self.r;
+    // evaluating takes time and memory exponential in the number of coordinates
+    if claimed_rx.len() != inst.inst.get_num_cons().log_2()
+      || claimed_ry.len() != (2 * inst.inst.get_num_vars()).log_2()
+    {
+      return Err(ProofVerifyError::InternalError);
+    }
     let inst_evals = inst.inst.evaluate(claimed_rx, claimed_ry);
     timer_eval.stop();
 
-- 
2.43.0


From 60e32f053c77b15fd01dd847bbf605822a04e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:09 +0000
Subject: [PATCH 19/21] fix: do not trust the count of a witness file before
 its values are read

---
 packages/spartan_wasm/src/wasm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index e367fe4..3cc4aa8 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -156,10 +156,11 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
         panic!("invalid section type");
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         panic!("invalid witness section size {}", sec_size);
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    // the count is not known to be true before the values have been read
+    let mut result = Vec::with_capacity((witness_len as usize).min(1 << 10));
     for _ in 0..witness_len {
         result.push(read_field::<&mut R, Fr>(&mut reader)?);
     }
-- 
2.43.0


From 4dbe6ce1d7e8544bc2dc53f515f718f791e11246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:09 +0000
Subject: [PATCH 20/21] fix: do not trust counts and sizes of a constraint file
 before they are read

---
 packages/circuit_reader/src/circom_reader.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index f8504fd..de0ef0f 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -8,6 +8,9 @@ use std::{
     io::{BufReader, Error, ErrorKind, Read, Result, Seek, SeekFrom},
 };
 
+// the counts in a file are not known to be true before what they count has been read
+const MAX_PREALLOCATION: usize = 1 << 10;
+
 pub type Constraint<Fr> = (Vec<(usize, Fr)>, Vec<(usize, Fr)>, Vec<(usize, Fr)>);
 
 #[derive(Clone)]
@@ -78,14 +81,16 @@ pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(
             ErrorKind::InvalidData,
             "Invalid header section size",
         ));
     }
+    let mut prime_size = vec![];
+    if reader.by_ref().take(field_size as u64).read_to_end(&mut prime_size)? != field_size as usize {
+        return Err(Error::from(ErrorKind::UnexpectedEof));
+    }
 
     Ok(Header {
         field_size,
@@ -101,7 +106,7 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
 
 fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(usize, Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::with_capacity(n_vec.min(MAX_PREALLOCATION));
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -116,7 +121,7 @@ fn read_constraints<R: Read, Fr: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::with_capacity((header.n_constraints as usize).min(MAX_PREALLOCATION));
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, Fr>(&mut reader)?,
@@ -134,7 +139,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
             "Invalid map section size",
         ));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::with_capacity((header.n_wires as usize).min(MAX_PREALLOCATION));
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
@@ -170,6 +175,9 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
     for _ in 0..num_sections {
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
+        if section_size > i64::MAX as u64 {
+            return Err(Error::new(ErrorKind::InvalidData, "Invalid section size"));
+        }
         let offset = reader.seek(SeekFrom::Current(0))?;
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
-- 
2.43.0


From 4ad7358f8e393ae049fe252816ca363d127b2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:09 +0000
Subject: [PATCH 21/21] fix: report a serialized scalar or field element that
 is too long

---
 packages/Spartan-secq/src/scalar/scalar.rs | 3 +++
 packages/secq256k1/src/field/field_secp.rs | 3 +++
 packages/secq256k1/src/field/field_secq.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 2a862c6..daeca5d 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -241,6 +241,9 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
       }
       result[i] = val;
     }
+    if seq.next_element::<u8>()?.is_some() {
+      return Err(serde::de::Error::invalid_length(33, &self));
+    }
 
     Ok(Scalar::from_raw(result))
   }
diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 9c9c930..790fdc0 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -313,6 +313,9 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
                 .next_element::<u8>()?
                 .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
         }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(serde::de::Error::invalid_length(33, &self));
+        }
 
         Option::from(FieldElement::from_bytes(&bytes))
             .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index bd031b6..d0923d8 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -377,6 +377,9 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
                 .next_element::<u8>()?
                 .ok_or_else(|| serde::de::Error::invalid_length(i, &self))?;
         }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(serde::de::Error::invalid_length(33, &self));
+        }
 
         Option::from(FieldElement::from_bytes(&bytes))
             .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
-- 
2.43.0

