From 00264a0d9aedba953e08f43fc3305fe5f116c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 01/36] fix: take the sign of the RNS scaler's fractional sum
 from its top bit

With twelve or more large moduli the positive sum of residues times
fractional parts can reach bit 191, which was read as a sign bit, and the
scaled value was wrong by a large amount.
---
 crates/fhe-math/src/rns/scaler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 064a17b..7ee40b3 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -302,7 +302,7 @@ impl RnsScaler {
             }
 
             // Let's compute w = round(sum_theta_omega / 2^(192)).
-            w_sign = (sum_theta_omega >> (63 + 128)) > u256::ZERO;
+            w_sign = (sum_theta_omega >> 255) > u256::ZERO;
 
             if w_sign {
                 w = ((!sum_theta_omega) >> 126isize).as_u128() + 1;
-- 
2.43.0


From 204a443275a0885fa3a5f7afa1f6954ce89d3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 02/36] fix: accept any exponent in multiply_inverse_power_of_x

An exponent above twice the degree underflowed (a panic where overflow is
checked).
---
 crates/fhe-math/src/rq/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index a80af39..c68cee5 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -508,7 +508,8 @@ impl Poly<PowerBasis> {
 
     /// Multiplies a polynomial in PowerBasis representation by x^(-power).
     pub fn multiply_inverse_power_of_x(&mut self, power: usize) -> Result<()> {
-        let shift = ((self.ctx.degree << 1) - power) % (self.ctx.degree << 1);
+        let order = self.ctx.degree << 1;
+        let shift = (order - power % order) % order;
         let mask = self.ctx.degree - 1;
         let mut new_coefficients = Array2::zeros((self.ctx.q.len(), self.ctx.degree));
         izip!(
-- 
2.43.0


From 612b7ca3126cec0386f7c0635bc5a8025cdad46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 03/36] fix: store coefficient matrices in row-major order

A residue matrix with another memory layout was kept as it was, and the
transforms, which walk rows as contiguous slices, gave a wrong polynomial or
panicked.
---
 crates/fhe-math/src/rq/convert.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 34b5057..274d2fb 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -240,6 +240,16 @@ impl TryConvertFrom<Vec<u64>> for Poly<NttShoup> {
     }
 }
 
+/// Rows of coefficients are processed as slices, which requires row-major
+/// storage.
+fn into_standard_layout(a: Array2<u64>) -> Array2<u64> {
+    if a.is_standard_layout() {
+        a
+    } else {
+        a.as_standard_layout().into_owned()
+    }
+}
+
 impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
     fn try_convert_from(a: Array2<u64>, ctx: &Arc<Context>, variable_time: bool) -> Result<Self> {
         if a.shape() != [ctx.q.len(), ctx.degree] {
@@ -253,7 +263,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
             Ok(Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: into_standard_layout(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
@@ -275,7 +285,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<Ntt> {
             Ok(Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: into_standard_layout(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
@@ -297,7 +307,7 @@ impl TryConvertFrom<Array2<u64>> for Poly<NttShoup> {
             let mut p = Self {
                 ctx: ctx.clone(),
                 allow_variable_time_computations: variable_time,
-                coefficients: a,
+                coefficients: into_standard_layout(a),
                 coefficients_shoup: None,
                 has_lazy_coefficients: false,
                 _repr: std::marker::PhantomData,
-- 
2.43.0


From 05c9accc3a68a6b21622478d91d1e2b8f25b088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 04/36] fix: decrypt through big integers when the plaintext
 modulus nears the first ciphertext modulus

---
 crates/fhe/src/bfv/keys/secret_key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index b339f6a..ba23ac7 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -225,7 +225,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
         let d = Zeroizing::new(c_pb.as_ref().scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
         let poly = match self.par.plaintext.small() {
-            Some(plaintext_modulus) => {
+            // The values below twice the plaintext modulus must be determined by
+            // their residue modulo the first ciphertext modulus.
+            Some(plaintext_modulus) if **plaintext_modulus <= self.par.moduli[0] / 2 => {
                 let mut v = Vec::<u64>::try_from(d.as_ref())?;
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
                 let mut w = v[..self.par.degree()].to_vec();
@@ -235,7 +237,7 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
                 plaintext_modulus.reduce_vec(&mut w);
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
-            None => {
+            _ => {
                 let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
                     .into_iter()
                     .map(|vi| vi + self.par.plaintext_big())
-- 
2.43.0


From 39909a9d6ea1b1b4642b776cbaade9c82731bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 05/36] fix: reduce encoded values modulo the plaintext modulus

---
 crates/fhe/src/bfv/plaintext_vec.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index be310ca..bee9a77 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -68,6 +68,14 @@ impl PlaintextVec {
         Ok(Self(plaintexts))
     }
 
+    /// Reduces values modulo the plaintext modulus.
+    fn reduce_u64(values: &mut [u64], par: &BfvParameters) {
+        // A plaintext modulus that does not fit in a word exceeds every value.
+        if let Some(modulus) = par.plaintext.small() {
+            modulus.reduce_vec(values);
+        }
+    }
+
     fn encode_u64_chunk(
         value: &[u64],
         encoding: &Encoding,
@@ -77,11 +85,15 @@ impl PlaintextVec {
     ) -> Result<Poly<Ntt>> {
         let mut coefficients = vec![0u64; par.degree()];
         match encoding.encoding {
-            EncodingEnum::Poly => coefficients[..value.len()].copy_from_slice(value),
+            EncodingEnum::Poly => {
+                coefficients[..value.len()].copy_from_slice(value);
+                Self::reduce_u64(&mut coefficients, par);
+            }
             EncodingEnum::Simd => {
                 for (index, &coefficient) in value.iter().enumerate() {
                     coefficients[par.matrix_reps_index_map[index]] = coefficient;
                 }
+                Self::reduce_u64(&mut coefficients, par);
                 let ntt_operator = par
                     .ntt_operator
                     .as_ref()
@@ -112,6 +124,7 @@ impl PlaintextVec {
             EncodingEnum::Poly => {
                 let mut coefficients = vec![BigUint::zero(); par.degree()];
                 coefficients[..value.len()].clone_from_slice(value);
+                par.plaintext.reduce_vec(&mut coefficients);
                 Ok(
                     Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
                         .into_ntt(),
-- 
2.43.0


From dddcc54f2c6d4b1efc311f97d6e5421a66530d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 06/36] fix: refuse encodings at levels that cannot hold the
 plaintext modulus

---
 crates/fhe/src/bfv/plaintext_vec.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index bee9a77..e6bd7ea 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -51,6 +51,18 @@ impl PlaintextVec {
         }
 
         let ctx = par.context_at_level(encoding.level)?;
+        if ctx.modulus() <= par.plaintext_big() {
+            // Values modulo the plaintext modulus are not representable here.
+            return Err(Error::InvalidLevel {
+                level: encoding.level,
+                min_level: 0,
+                max_level: par
+                    .context_levels()
+                    .iter()
+                    .rposition(|level| level.poly_context.modulus() > par.plaintext_big())
+                    .unwrap_or_default(),
+            });
+        }
         let num_plaintexts = value.len().div_ceil(par.degree()).max(1);
         let plaintexts = (0..num_plaintexts)
             .map(|index| {
-- 
2.43.0


From 7339137ad2dc818f6303915043e9c219564e3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 07/36] fix: return an error when a decoded value does not fit
 in i64

---
 crates/fhe/src/bfv/plaintext.rs | 13 +++++++------
 crates/fhe/src/errors.rs        |  3 +++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index f5e863b..655cd52 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -445,17 +445,18 @@ impl FheDecoder<Plaintext> for Vec<i64> {
             let modulus_int = BigInt::from_biguint(Sign::Plus, modulus_big.clone());
             let half_modulus = modulus_big / 2u32;
 
-            Ok(values
+            values
                 .iter()
                 .map(|value| {
-                    if value >= &half_modulus {
+                    let centered = if value >= &half_modulus {
                         let value_int = BigInt::from_biguint(Sign::Plus, value.clone());
-                        (value_int - &modulus_int).to_i64().unwrap()
+                        (value_int - &modulus_int).to_i64()
                     } else {
-                        value.to_i64().unwrap()
-                    }
+                        value.to_i64()
+                    };
+                    centered.ok_or_else(|| crate::PlaintextError::ValueTooLargeForI64.into())
                 })
-                .collect())
+                .collect()
         }
     }
 
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9521636..93a4b53 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -140,6 +140,9 @@ pub enum PlaintextError {
 
     #[error("Plaintext value does not fit in u64")]
     ValueTooLargeForU64,
+
+    #[error("Plaintext value does not fit in i64")]
+    ValueTooLargeForI64,
 }
 
 /// Plaintext encoding failures.
-- 
2.43.0


From a5e84df0fa1a2d3d8e938d0109f415398353096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 08/36] fix: multiplying by the zero ciphertext on the right
 gives zero

---
 crates/fhe/src/bfv/ops/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index de4aa98..3084b61 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -263,6 +263,9 @@ impl Mul<&Ciphertext> for &Ciphertext {
         if self.is_empty() {
             return self.clone();
         }
+        if rhs.is_empty() {
+            return rhs.clone();
+        }
 
         if rhs == self {
             // Squaring operation
-- 
2.43.0


From 6eee3f938e12717aa3156ec3107eb2e2c0373c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 09/36] fix: report expansion levels beyond the degree as
 unsupported

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 728b1ed..4260bf4 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -177,11 +177,8 @@ impl EvaluationKey {
         } else if self.evaluation_key_level == self.par.moduli().len() {
             false
         } else {
-            let mut ret = level <= self.par.degree().ilog2() as usize;
-            for l in 0..level {
-                ret &= self.gk.contains_key(&((self.par.degree() >> l) + 1));
-            }
-            ret
+            level <= self.par.degree().ilog2() as usize
+                && (0..level).all(|l| self.gk.contains_key(&((self.par.degree() >> l) + 1)))
         }
     }
 
-- 
2.43.0


From c96681db1ad6a202672957f7710b98d6d29c68c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 10/36] fix: forget the seed of a ciphertext whose parts are
 borrowed mutably

Writing through DerefMut, or relinearizing a seeded ciphertext in place, kept
the seed, so serialization replaced the last part by its old value.
---
 crates/fhe/src/bfv/ciphertext.rs      | 2 ++
 crates/fhe/src/bfv/keys/public_key.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ciphertext.rs b/crates/fhe/src/bfv/ciphertext.rs
index 3d59901..cc43572 100644
--- a/crates/fhe/src/bfv/ciphertext.rs
+++ b/crates/fhe/src/bfv/ciphertext.rs
@@ -39,6 +39,8 @@ impl Deref for Ciphertext {
 
 impl DerefMut for Ciphertext {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The seed only describes the last polynomial as it was generated.
+        self.seed = None;
         &mut self.c
     }
 }
diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5e68e1d..4e585b3 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -28,7 +28,7 @@ impl PublicKey {
         let mut c: Ciphertext = sk.try_encrypt(&zero, rng).unwrap();
         // The polynomials of a public key should not allow for variable time
         // computation.
-        c.iter_mut()
+        c.c.iter_mut()
             .for_each(|p| p.disallow_variable_time_computations());
         Self {
             par: sk.par.clone(),
@@ -132,7 +132,7 @@ impl DeserializeParametrized for PublicKey {
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-                c.iter_mut()
+                c.c.iter_mut()
                     .for_each(|p| p.disallow_variable_time_computations());
                 Ok(Self {
                     par: par.clone(),
-- 
2.43.0


From 60d7790e7964ee61275a3ccc3860ddf27fe979ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 11/36] fix: refuse serialized polynomials of another degree or
 with unreduced coefficients

---
 crates/fhe-math/src/errors.rs     | 4 ++++
 crates/fhe-math/src/rq/convert.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/errors.rs b/crates/fhe-math/src/errors.rs
index 9066e64..a804b62 100644
--- a/crates/fhe-math/src/errors.rs
+++ b/crates/fhe-math/src/errors.rs
@@ -144,6 +144,10 @@ pub enum PolynomialSerializationError {
     /// The serialized coefficient byte count is invalid.
     #[error("Invalid coefficient length: found {actual} bytes, expected {expected}.")]
     InvalidCoefficientCount { actual: usize, expected: usize },
+
+    /// A serialized coefficient is not reduced modulo its modulus.
+    #[error("Invalid coefficient: not reduced modulo its modulus.")]
+    InvalidCoefficient,
 }
 
 #[cfg(test)]
diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 274d2fb..6c2820b 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -63,7 +63,7 @@ fn parse_proto(
     };
 
     let degree = value.degree as usize;
-    if !degree.is_multiple_of(8) || degree < 8 {
+    if degree != ctx.degree {
         return Err(PolynomialSerializationError::InvalidDegree { degree }.into());
     }
 
@@ -90,6 +90,11 @@ fn parse_proto(
             v
         })
         .collect();
+    if izip!(power_basis_coefficients.chunks(degree), ctx.q.iter())
+        .any(|(v, qi)| v.iter().any(|vi| *vi >= **qi))
+    {
+        return Err(PolynomialSerializationError::InvalidCoefficient.into());
+    }
 
     Ok((
         representation_from_proto,
-- 
2.43.0


From f023645350a5754247250f023a18086769bf2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 12/36] fix: refuse serialized key-switching keys whose
 decomposition base does not match their moduli

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 44 ++++++++++++--------
 crates/fhe/src/errors.rs                     |  4 ++
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 1f83458..3e48e25 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -391,26 +391,36 @@ impl BfvTryConvertFrom<&KeySwitchingKeyProto> for KeySwitchingKey {
         let ctx_ksk = par.context_at_level(ksk_level)?.clone();
         let ctx_ciphertext = par.context_at_level(ciphertext_level)?.clone();
 
-        let c0_size: usize;
         let log_base = value.log_base as usize;
-        if log_base != 0 {
-            if ksk_level != par.max_level() || ciphertext_level != par.max_level() {
-                return Err(Error::SerializationError(
-                    SerializationError::InvalidKeySwitchingDecompositionLevels {
-                        ciphertext_level,
-                        key_level: ksk_level,
-                        expected: par.max_level(),
-                    },
-                ));
-            } else {
-                let log_modulus: usize =
-                    par.moduli().first().unwrap().next_power_of_two().ilog2() as usize;
-                c0_size = log_modulus.div_ceil(log_base);
-            }
-        } else {
-            c0_size = ctx_ciphertext.moduli().len();
+        if log_base != 0 && (ksk_level != par.max_level() || ciphertext_level != par.max_level()) {
+            return Err(Error::SerializationError(
+                SerializationError::InvalidKeySwitchingDecompositionLevels {
+                    ciphertext_level,
+                    key_level: ksk_level,
+                    expected: par.max_level(),
+                },
+            ));
         }
 
+        // The decomposition base is determined by the moduli of the key.
+        let log_modulus = par.moduli()[0].next_power_of_two().ilog2() as usize;
+        let expected_log_base = match ctx_ksk.moduli().len() {
+            1 => log_modulus / 2,
+            _ => 0,
+        };
+        if log_base != expected_log_base {
+            return Err(Error::SerializationError(
+                SerializationError::InvalidKeySwitchingDecompositionBase {
+                    actual: log_base,
+                    expected: expected_log_base,
+                },
+            ));
+        }
+        let c0_size = match log_base {
+            0 => ctx_ciphertext.moduli().len(),
+            _ => log_modulus.div_ceil(log_base),
+        };
+
         if value.c0.len() != c0_size {
             return Err(Error::SerializationError(
                 SerializationError::WrongPolynomialCount {
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 93a4b53..8fe852b 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -272,6 +272,10 @@ pub enum SerializationError {
         expected: usize,
     },
 
+    /// The decomposition base does not match the moduli of the key.
+    #[error("Serialized key-switching decomposition base is {actual}; expected {expected}")]
+    InvalidKeySwitchingDecompositionBase { actual: usize, expected: usize },
+
     /// A serialized key-switching seed has the wrong length.
     #[error("Serialized key-switching seed has {actual} bytes; expected {expected}")]
     InvalidKeySwitchingSeedLength { actual: usize, expected: usize },
-- 
2.43.0


From d61b031d312ae99c67d9a78a4964620e66f4533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 13/36] fix: refuse serialized public keys that do not have two
 polynomials

---
 crates/fhe/src/bfv/keys/public_key.rs | 8 ++++++++
 crates/fhe/src/errors.rs              | 1 +
 2 files changed, 9 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 4e585b3..55eb6fc 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -129,6 +129,14 @@ impl DeserializeParametrized for PublicKey {
                         expected: 0,
                     },
                 ))
+            } else if c.len() != 2 {
+                Err(Error::SerializationError(
+                    SerializationError::WrongPolynomialCount {
+                        component: crate::SerializedPolynomialComponent::PublicKeyCiphertext,
+                        expected: 2,
+                        actual: c.len(),
+                    },
+                ))
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 8fe852b..2a4673b 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -332,6 +332,7 @@ pub enum SerializedField {
 pub enum SerializedPolynomialComponent {
     KeySwitchingKeyC0,
     KeySwitchingKeyC1,
+    PublicKeyCiphertext,
 }
 
 /// Separate enum to indicate parameters-related errors.
-- 
2.43.0


From 909f54be5258dc77b7e1448195a6de9386c3128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 14/36] fix: refuse serialized evaluation keys above the level
 of their ciphertexts

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 4260bf4..b0286db 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -502,6 +502,14 @@ impl From<&EvaluationKey> for EvaluationKeyProto {
 
 impl TryConvertFrom<&EvaluationKeyProto> for EvaluationKey {
     fn try_convert_from(value: &EvaluationKeyProto, par: &Arc<BfvParameters>) -> Result<Self> {
+        if value.evaluation_key_level > value.ciphertext_level {
+            return Err(Error::InvalidLevel {
+                level: value.evaluation_key_level as usize,
+                min_level: 0,
+                max_level: value.ciphertext_level as usize,
+            });
+        }
+
         let mut gk = HashMap::new();
         for gkp in &value.gk {
             let key = GaloisKey::try_convert_from(gkp, par)?;
-- 
2.43.0


From ee3554a764ecf1f831527083cd7a348eaab13541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 15/36] fix: refuse decryptions at levels that cannot hold the
 plaintext modulus

---
 crates/fhe/src/bfv/keys/secret_key.rs    |  1 +
 crates/fhe/src/bfv/parameters.rs         | 19 +++++++++++++++++++
 crates/fhe/src/bfv/plaintext_vec.rs      | 14 +-------------
 crates/fhe/src/mbfv/secret_key_switch.rs |  1 +
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index ba23ac7..16caaa2 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -197,6 +197,7 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
 
     fn try_decrypt(&self, ct: &Ciphertext) -> Result<Plaintext> {
         ct.validate_for(&self.par)?;
+        self.par.plaintext_context_at_level(ct.level)?;
         // Let's create a secret key with the ciphertext context
         let s = Zeroizing::new(
             Poly::<PowerBasis>::try_convert_from(self.coeffs.as_ref(), ct[0].ctx(), false)?
diff --git a/crates/fhe/src/bfv/parameters.rs b/crates/fhe/src/bfv/parameters.rs
index 46720f0..a954f07 100644
--- a/crates/fhe/src/bfv/parameters.rs
+++ b/crates/fhe/src/bfv/parameters.rs
@@ -174,6 +174,25 @@ impl BfvParameters {
             })
     }
 
+    /// Returns the context corresponding to the level, provided that its
+    /// modulus can hold values modulo the plaintext modulus.
+    pub(crate) fn plaintext_context_at_level(&self, level: usize) -> Result<&Arc<Context>> {
+        let ctx = self.context_at_level(level)?;
+        if ctx.modulus() > self.plaintext_big() {
+            Ok(ctx)
+        } else {
+            Err(Error::InvalidLevel {
+                level,
+                min_level: 0,
+                max_level: self
+                    .context_levels
+                    .iter()
+                    .rposition(|level| level.poly_context.modulus() > self.plaintext_big())
+                    .unwrap_or_default(),
+            })
+        }
+    }
+
     /// Returns the level of a given context
     pub fn level_of_context(&self, ctx: &Arc<Context>) -> Result<usize> {
         let level = self
diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index e6bd7ea..77d3dd2 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -50,19 +50,7 @@ impl PlaintextVec {
             return Err(crate::EncodingError::SimdUnavailable.into());
         }
 
-        let ctx = par.context_at_level(encoding.level)?;
-        if ctx.modulus() <= par.plaintext_big() {
-            // Values modulo the plaintext modulus are not representable here.
-            return Err(Error::InvalidLevel {
-                level: encoding.level,
-                min_level: 0,
-                max_level: par
-                    .context_levels()
-                    .iter()
-                    .rposition(|level| level.poly_context.modulus() > par.plaintext_big())
-                    .unwrap_or_default(),
-            });
-        }
+        let ctx = par.plaintext_context_at_level(encoding.level)?;
         let num_plaintexts = value.len().div_ceil(par.degree()).max(1);
         let plaintexts = (0..num_plaintexts)
             .map(|index| {
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index e5f6de5..175c744 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -149,6 +149,7 @@ impl Aggregate<DecryptionShare> for Plaintext {
     {
         let sks_shares = iter.into_iter().map(|s| s.sks_share);
         let ct = Ciphertext::from_shares(sks_shares)?;
+        ct.par.plaintext_context_at_level(ct.level)?;
 
         // Note: during SKS, c[1]*sk has already been added to c[0].
         let mut c = Zeroizing::new(ct[0].clone());
-- 
2.43.0


From 7f76108ded393f4432125c97921225a501db4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 16/36] fix: no prime lies below an upper bound of zero

---
 crates/fhe-math/src/zq/primes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/zq/primes.rs b/crates/fhe-math/src/zq/primes.rs
index 75c9011..89e82ea 100644
--- a/crates/fhe-math/src/zq/primes.rs
+++ b/crates/fhe-math/src/zq/primes.rs
@@ -28,7 +28,7 @@ pub fn supports_opt(p: u64) -> bool {
 /// and upper_bound must be <= 1 << num_bits.
 #[must_use]
 pub fn generate_prime(num_bits: usize, modulo: u64, upper_bound: u64) -> Option<u64> {
-    if !(10..=62).contains(&num_bits) {
+    if !(10..=62).contains(&num_bits) || upper_bound == 0 {
         None
     } else {
         debug_assert!(
-- 
2.43.0


From e1ca0c273f533544cd701dce8fddea068cf179c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 17/36] fix: refuse default parameters for impossible plaintext
 sizes with an error

---
 crates/fhe/src/bfv/parameters.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/parameters.rs b/crates/fhe/src/bfv/parameters.rs
index a954f07..122d0d2 100644
--- a/crates/fhe/src/bfv/parameters.rs
+++ b/crates/fhe/src/bfv/parameters.rs
@@ -237,7 +237,13 @@ impl BfvParameters {
     pub fn default_parameters_128(
         plaintext_nbits: usize,
     ) -> Result<impl Iterator<Item = Arc<BfvParameters>>> {
-        debug_assert!(plaintext_nbits < 64);
+        if plaintext_nbits == 0 || plaintext_nbits >= 64 {
+            return Err(Error::ParametersError(
+                ParametersError::NoDefaultParameters {
+                    plaintext_bits: plaintext_nbits,
+                },
+            ));
+        }
 
         let mut n_and_qs = HashMap::new();
         n_and_qs.insert(1024, vec![0x7e00001]);
-- 
2.43.0


From c6d50c8df269cdc4abbe0fa6fe77310bd40520cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 18/36] fix: refuse substitutions whose exponent was created
 for another degree

---
 crates/fhe-math/src/rq/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index c68cee5..b38e598 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -357,7 +357,13 @@ impl<R: RepresentationTag> Poly<R> {
     /// In PowerBasis representation, i can be any integer that is not a
     /// multiple of 2 * degree. In Ntt and NttShoup representation, i can be any
     /// odd integer that is not a multiple of 2 * degree.
+    ///
+    /// Returns an error if the exponent was created for another degree.
     pub fn substitute(&self, i: &SubstitutionExponent) -> Result<Poly<R>> {
+        if i.ctx.degree != self.ctx.degree {
+            return Err(Error::PolynomialContextMismatch);
+        }
+
         let mut q = Poly::<R>::zero(&self.ctx);
         if self.allow_variable_time_computations {
             q.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From 2c9be8cff21936a8feb018ed3d75deb7296515ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 19/36] fix: refuse public key switching of ciphertexts that do
 not have two polynomials

---
 crates/fhe/src/mbfv/public_key_switch.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 8ad7667..82e855d 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -48,6 +48,15 @@ impl PublicKeySwitchShare {
                 right: crate::ParameterSource::Ciphertext,
             });
         }
+        // Note: M-BFV implementation only supports ciphertext of length 2
+        if ct.len() != 2 {
+            return Err(crate::CiphertextError::InvalidPolynomialCount {
+                operation: crate::CiphertextOperation::MultipartyKeySwitch,
+                actual: ct.len(),
+                expected: 2,
+            }
+            .into());
+        }
         let par = sk_share.par.clone();
 
         // Get appropriate context / level for the following computations
-- 
2.43.0


From 5d11836de510d91d2cf8592d00fcd6f4643ddd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 20/36] fix: refuse common random polynomials and multiparty
 shares that do not belong together

---
 crates/fhe/src/errors.rs                 |  6 ++++++
 crates/fhe/src/mbfv/public_key_gen.rs    |  6 ++++++
 crates/fhe/src/mbfv/public_key_switch.rs |  3 +++
 crates/fhe/src/mbfv/relin_key_gen.rs     | 11 +++++++++++
 crates/fhe/src/mbfv/secret_key_switch.rs |  3 +++
 5 files changed, 29 insertions(+)

diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 2a4673b..6ff8bd9 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -231,6 +231,12 @@ pub enum MultipartyError {
 
     #[error("Round-two relinearization share is missing its round-one aggregation")]
     MissingRelinearizationRoundOneShare,
+
+    #[error("Common random polynomial does not match the parameters of the share")]
+    CommonRandomPolynomialMismatch,
+
+    #[error("Protocol shares come from different executions of the protocol")]
+    SharesMismatch,
 }
 
 /// Separate enum for errors arising from serialization.
diff --git a/crates/fhe/src/mbfv/public_key_gen.rs b/crates/fhe/src/mbfv/public_key_gen.rs
index 05e39f4..2ac78d5 100644
--- a/crates/fhe/src/mbfv/public_key_gen.rs
+++ b/crates/fhe/src/mbfv/public_key_gen.rs
@@ -36,6 +36,9 @@ impl PublicKeyShare {
     ) -> Result<Self> {
         let par = sk_share.par.clone();
         let ctx = par.context_at_level(0)?;
+        if crp.poly.ctx() != ctx {
+            return Err(crate::MultipartyError::CommonRandomPolynomialMismatch.into());
+        }
 
         // Convert secret key to usable polynomial
         let s = Zeroizing::new(
@@ -66,6 +69,9 @@ impl Aggregate<PublicKeyShare> for PublicKey {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut p0 = share.p0_share;
         for sh in shares {
+            if sh.par != share.par || sh.crp != share.crp {
+                return Err(crate::MultipartyError::SharesMismatch.into());
+            }
             p0 += &sh.p0_share;
         }
 
diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 82e855d..9df7972 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -111,6 +111,9 @@ impl Aggregate<PublicKeySwitchShare> for Ciphertext {
         let mut h0 = share.h0_share;
         let mut h1 = share.h1_share;
         for sh in shares {
+            if sh.par != share.par || sh.c0 != share.c0 {
+                return Err(crate::MultipartyError::SharesMismatch.into());
+            }
             h0 += &sh.h0_share;
             h1 += &sh.h1_share;
         }
diff --git a/crates/fhe/src/mbfv/relin_key_gen.rs b/crates/fhe/src/mbfv/relin_key_gen.rs
index 5fae0cd..b6db53a 100644
--- a/crates/fhe/src/mbfv/relin_key_gen.rs
+++ b/crates/fhe/src/mbfv/relin_key_gen.rs
@@ -88,6 +88,8 @@ impl<'a, 'b> RelinKeyGenerator<'a, 'b> {
                 expected: ctx.moduli().len(),
             }
             .into())
+        } else if crp.iter().any(|crp| crp.poly.ctx() != ctx) {
+            Err(crate::MultipartyError::CommonRandomPolynomialMismatch.into())
         } else {
             let u = Zeroizing::new(Poly::<Ntt>::small(ctx, par.variance, rng)?);
             Ok(Self { sk_share, crp, u })
@@ -207,6 +209,9 @@ impl Aggregate<RelinKeyShare<R1>> for RelinKeyShare<R1Aggregated> {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != share.par {
+                return Err(crate::MultipartyError::SharesMismatch.into());
+            }
             izip!(h0.iter_mut(), sh.h0.iter()).for_each(|(h0i, sh_h0i)| *h0i += sh_h0i);
             izip!(h1.iter_mut(), sh.h1.iter()).for_each(|(h1i, sh_h1i)| *h1i += sh_h1i);
         }
@@ -229,6 +234,9 @@ impl RelinKeyShare<R2> {
         rng: &mut R,
     ) -> Result<Self> {
         let par = sk_share.par.clone();
+        if r1.par != par {
+            return Err(crate::MultipartyError::SharesMismatch.into());
+        }
         let h0 = Self::generate_h0(sk_share, &r1.h0, rng)?;
         let h1 = Self::generate_h1(sk_share, u, &r1.h1, rng)?;
         Ok(Self {
@@ -312,6 +320,9 @@ impl Aggregate<RelinKeyShare<R2>> for RelinearizationKey {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != par || sh.last_round.as_ref() != Some(&r1) {
+                return Err(crate::MultipartyError::SharesMismatch.into());
+            }
             izip!(h0.iter_mut(), h1.iter_mut(), sh.h0.iter(), sh.h1.iter()).for_each(
                 |(h0, h1, h0i, h1i)| {
                     *h0 += h0i;
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index 175c744..16b05a9 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -104,6 +104,9 @@ impl Aggregate<SecretKeySwitchShare> for Ciphertext {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut h = share.h_share;
         for sh in shares {
+            if sh.par != share.par || sh.ct != share.ct {
+                return Err(crate::MultipartyError::SharesMismatch.into());
+            }
             h += &sh.h_share;
         }
 
-- 
2.43.0


From 57babc05d2faa51a16bc7c9ae1bb59658cd54296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 21/36] fix: refuse relinearization keys of other parameters in
 multiplicators

---
 crates/fhe/src/bfv/ops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/ops/mul.rs b/crates/fhe/src/bfv/ops/mul.rs
index 3bfd317..9ecada8 100644
--- a/crates/fhe/src/bfv/ops/mul.rs
+++ b/crates/fhe/src/bfv/ops/mul.rs
@@ -140,7 +140,7 @@ impl Multiplicator {
     /// Enable relinearization after multiplication.
     pub fn enable_relinearization(&mut self, rk: &RelinearizationKey) -> Result<()> {
         let rk_ctx = self.par.context_at_level(rk.ksk.ciphertext_level)?;
-        if rk_ctx != &self.base_ctx {
+        if rk.ksk.par != self.par || rk_ctx != &self.base_ctx {
             return Err(Error::ParameterMismatch {
                 left: crate::ParameterSource::RelinearizationKey,
                 right: crate::ParameterSource::Multiplicator,
-- 
2.43.0


From 958b6bc7873077d53b25800f70f8f86cc361c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 22/36] fix: refuse products with ciphertexts of other
 parameters when one is zero

---
 crates/fhe/src/bfv/ops/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index 3084b61..6725b33 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -260,6 +260,7 @@ impl Mul<&Ciphertext> for &Ciphertext {
     type Output = Ciphertext;
 
     fn mul(self, rhs: &Ciphertext) -> Ciphertext {
+        assert!(Arc::ptr_eq(&self.par, &rhs.par));
         if self.is_empty() {
             return self.clone();
         }
-- 
2.43.0


From f8842c6d1d637da10ca8894d56f405dfd61bc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 23/36] monitor: report the operands of variable-time code
 under --cfg fhe_monitor

---
 crates/fhe-math/src/lib.rs            | 16 ++++++++++++++++
 crates/fhe-math/src/monitor.rs        | 25 +++++++++++++++++++++++++
 crates/fhe-math/src/ntt/native.rs     |  2 ++
 crates/fhe-math/src/ntt/tfhe.rs       |  3 +++
 crates/fhe-math/src/rq/mod.rs         |  5 +++++
 crates/fhe-math/src/rq/ops.rs         |  1 +
 crates/fhe-math/src/zq/mod.rs         |  9 +++++++++
 crates/fhe/src/bfv/ops/dot_product.rs |  8 ++++++++
 crates/fhe/src/lib.rs                 |  1 +
 9 files changed, 70 insertions(+)
 create mode 100644 crates/fhe-math/src/monitor.rs

diff --git a/crates/fhe-math/src/lib.rs b/crates/fhe-math/src/lib.rs
index b70e4a0..2ed9afa 100644
--- a/crates/fhe-math/src/lib.rs
+++ b/crates/fhe-math/src/lib.rs
@@ -1,9 +1,25 @@
 #![crate_name = "fhe_math"]
 #![crate_type = "lib"]
+#![allow(unexpected_cfgs)]
 
 //! Mathematical utilities for the fhe.rs library.
 
+/// Report the operands of variable-time code to the monitor (nothing unless
+/// built with `--cfg fhe_monitor`).
+#[cfg(fhe_monitor)]
+macro_rules! vt_event {
+    ($modulus:expr, $operation:literal, $($operand:expr),+) => {
+        $($crate::monitor::variable_time($modulus, $operation, $operand);)+
+    };
+}
+#[cfg(not(fhe_monitor))]
+macro_rules! vt_event {
+    ($($tokens:tt)*) => {};
+}
+
 mod errors;
+#[cfg(fhe_monitor)]
+pub mod monitor;
 mod proto;
 
 pub mod ntt;
diff --git a/crates/fhe-math/src/monitor.rs b/crates/fhe-math/src/monitor.rs
new file mode 100644
index 0000000..4c0dc04
--- /dev/null
+++ b/crates/fhe-math/src/monitor.rs
@@ -0,0 +1,25 @@
+//! Runtime monitoring of the execution policy. Compiled only with
+//! `--cfg fhe_monitor`: reports the operands of variable-time code.
+
+use std::cell::RefCell;
+
+/// Receives the modulus, the operation and one operand of a variable-time
+/// operation, before it runs.
+pub type Sink = Box<dyn FnMut(u64, &'static str, &[u64])>;
+
+thread_local! {
+    static SINK: RefCell<Option<Sink>> = const { RefCell::new(None) };
+}
+
+/// Replace the sink of the current thread.
+pub fn replace(sink: Option<Sink>) -> Option<Sink> {
+    SINK.with(|s| s.replace(sink))
+}
+
+/// Report an operand. The sink is inactive while it runs.
+pub fn variable_time(modulus: u64, operation: &'static str, operand: &[u64]) {
+    if let Some(mut sink) = replace(None) {
+        sink(modulus, operation, operand);
+        replace(Some(sink));
+    }
+}
diff --git a/crates/fhe-math/src/ntt/native.rs b/crates/fhe-math/src/ntt/native.rs
index 242dd86..8598be7 100644
--- a/crates/fhe-math/src/ntt/native.rs
+++ b/crates/fhe-math/src/ntt/native.rs
@@ -141,6 +141,7 @@ impl NttOperator {
     /// about the value being reduced.
     pub(crate) unsafe fn forward_vt_lazy(&self, a_ptr: *mut u64) {
         let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, self.size) };
+        vt_event!(self.p.p, "forward_vt", a);
 
         let mut l = self.size >> 1;
         let mut m = 1;
@@ -196,6 +197,7 @@ impl NttOperator {
     /// about the value being reduced.
     pub unsafe fn backward_vt(&self, a_ptr: *mut u64) {
         let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, self.size) };
+        vt_event!(self.p.p, "backward_vt", a);
 
         let mut k = 0;
         let mut m = self.size >> 1;
diff --git a/crates/fhe-math/src/ntt/tfhe.rs b/crates/fhe-math/src/ntt/tfhe.rs
index dc199f7..a06944b 100644
--- a/crates/fhe-math/src/ntt/tfhe.rs
+++ b/crates/fhe-math/src/ntt/tfhe.rs
@@ -79,6 +79,7 @@ impl NttOperator {
     pub(crate) unsafe fn forward_vt_lazy(&self, a_ptr: *mut u64) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
             let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.ntt_size()) };
+            vt_event!(tfhe_operator.modulus(), "forward_vt", a);
             tfhe_operator.fwd(a);
         } else {
             unsafe {
@@ -96,6 +97,7 @@ impl NttOperator {
     pub unsafe fn forward_vt(&self, a_ptr: *mut u64) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
             let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.ntt_size()) };
+            vt_event!(tfhe_operator.modulus(), "forward_vt", a);
             tfhe_operator.fwd(a);
         } else {
             unsafe {
@@ -113,6 +115,7 @@ impl NttOperator {
     pub unsafe fn backward_vt(&self, a_ptr: *mut u64) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
             let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.ntt_size()) };
+            vt_event!(tfhe_operator.modulus(), "backward_vt", a);
             tfhe_operator.inv(a);
             tfhe_operator.normalize(a);
         } else {
diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index b38e598..83997e8 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -463,6 +463,11 @@ impl Poly<PowerBasis> {
             |qi, a| qi.reduce(a)
         };
 
+        #[cfg(fhe_monitor)]
+        if self.allow_variable_time_computations {
+            vt_event!(**q_last, "switch_down", q_last_poly.as_slice().unwrap());
+        }
+
         q_last_poly
             .iter_mut()
             .for_each(|coeff| *coeff = add(q_last, *coeff, q_last_div_2));
diff --git a/crates/fhe-math/src/rq/ops.rs b/crates/fhe-math/src/rq/ops.rs
index 455a7aa..65e4eb2 100644
--- a/crates/fhe-math/src/rq/ops.rs
+++ b/crates/fhe-math/src/rq/ops.rs
@@ -553,6 +553,7 @@ where
         if allow_variable_time_computations {
             izip!(coeffsj.iter_mut(), accj.iter())
                 .for_each(|(cj, accjk)| *cj = unsafe { m.reduce_u128_vt(*accjk) });
+            vt_event!(**m, "dot_product", coeffsj.as_slice().unwrap());
         } else {
             izip!(coeffsj.iter_mut(), accj.iter())
                 .for_each(|(cj, accjk)| *cj = m.reduce_u128(*accjk));
diff --git a/crates/fhe-math/src/zq/mod.rs b/crates/fhe-math/src/zq/mod.rs
index ccc6753..8e2ebc6 100644
--- a/crates/fhe-math/src/zq/mod.rs
+++ b/crates/fhe-math/src/zq/mod.rs
@@ -252,6 +252,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being added.
     pub unsafe fn add_vec_vt(&self, a: &mut [u64], b: &[u64]) {
+        vt_event!(self.p, "add_vec_vt", a, b);
         let n = a.len();
         debug_assert_eq!(n, b.len());
 
@@ -298,6 +299,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being subtracted.
     pub unsafe fn sub_vec_vt(&self, a: &mut [u64], b: &[u64]) {
+        vt_event!(self.p, "sub_vec_vt", a, b);
         let n = a.len();
         debug_assert_eq!(n, b.len());
 
@@ -361,6 +363,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being multiplied.
     pub unsafe fn scalar_mul_vec_vt(&self, a: &mut [u64], b: u64) {
+        vt_event!(self.p, "scalar_mul_vec_vt", a);
         let b_shoup = self.shoup(b);
         self.arch.dispatch(|| {
             a.iter_mut()
@@ -376,6 +379,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being subtracted.
     pub unsafe fn mul_vec_vt(&self, a: &mut [u64], b: &[u64]) {
+        vt_event!(self.p, "mul_vec_vt", a, b);
         debug_assert_eq!(a.len(), b.len());
 
         if self.supports_opt {
@@ -423,6 +427,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being multiplied.
     pub unsafe fn mul_shoup_vec_vt(&self, a: &mut [u64], b: &[u64], b_shoup: &[u64]) {
+        vt_event!(self.p, "mul_shoup_vec_vt", a, b);
         debug_assert_eq!(a.len(), b.len());
         debug_assert_eq!(a.len(), b_shoup.len());
         debug_assert_eq!(&b_shoup, &self.shoup_vec(b));
@@ -469,6 +474,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being reduced.
     pub unsafe fn reduce_vec_vt(&self, a: &mut [u64]) {
+        vt_event!(self.p, "reduce_vec_vt", a);
         self.arch.dispatch(|| {
             a.iter_mut()
                 .for_each(|ai| *ai = unsafe { self.reduce_vt(*ai) })
@@ -503,6 +509,7 @@ impl Modulus {
     /// about the values being reduced.
     #[must_use]
     pub unsafe fn reduce_vec_i64_vt(&self, a: &[i64]) -> Vec<u64> {
+        vt_event!(self.p, "reduce_vec_i64_vt", &self.reduce_vec_i64(a));
         self.arch.dispatch(|| {
             a.iter()
                 .map(|ai| unsafe { self.reduce_i64_vt(*ai) })
@@ -524,6 +531,7 @@ impl Modulus {
     /// about the values being reduced.
     #[must_use]
     pub unsafe fn reduce_vec_new_vt(&self, a: &[u64]) -> Vec<u64> {
+        vt_event!(self.p, "reduce_vec_new_vt", a);
         self.arch
             .dispatch(|| a.iter().map(|bi| unsafe { self.reduce_vt(*bi) }).collect())
     }
@@ -543,6 +551,7 @@ impl Modulus {
     /// This function is not constant time and its timing may reveal information
     /// about the values being negated.
     pub unsafe fn neg_vec_vt(&self, a: &mut [u64]) {
+        vt_event!(self.p, "neg_vec_vt", a);
         self.arch.dispatch(|| {
             a.iter_mut()
                 .for_each(|ai| *ai = unsafe { self.neg_vt(*ai) })
diff --git a/crates/fhe/src/bfv/ops/dot_product.rs b/crates/fhe/src/bfv/ops/dot_product.rs
index 97659ac..544af53 100644
--- a/crates/fhe/src/bfv/ops/dot_product.rs
+++ b/crates/fhe/src/bfv/ops/dot_product.rs
@@ -165,6 +165,14 @@ where
                         *outij_coeff = q.reduce_u128(*accij_coeff)
                     }
                 }
+                #[cfg(fhe_monitor)]
+                if allow_variable_time_computations {
+                    fhe_math::monitor::variable_time(
+                        **q,
+                        "dot_product_scalar",
+                        outij.as_slice().unwrap(),
+                    );
+                }
             }
             c.push(Poly::<Ntt>::try_convert_from(
                 coeffs,
diff --git a/crates/fhe/src/lib.rs b/crates/fhe/src/lib.rs
index 0e38b2a..51403d5 100644
--- a/crates/fhe/src/lib.rs
+++ b/crates/fhe/src/lib.rs
@@ -1,5 +1,6 @@
 #![crate_name = "fhe"]
 #![crate_type = "lib"]
+#![allow(unexpected_cfgs)]
 #![doc = include_str!("../README.md")]
 
 mod errors;
-- 
2.43.0


From 55589d931dd8f0bfd888d8bdf8ad53b0d34e2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 24/36] fix: switch keys in constant time unless the polynomial
 permits variable time

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 37 ++++++++++----------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 3e48e25..ed6517b 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -66,6 +66,22 @@ impl KeySwitchingKey {
         }
     }
 
+    /// Transform one digit of the polynomial `p` being switched, in variable
+    /// time only if this is permitted for `p`.
+    fn digit_to_ntt(&self, digit: &[u64], p: &Poly<PowerBasis>) -> Result<Poly<Ntt>> {
+        if self.permits_variable_time_with(p) {
+            Ok(
+                Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(
+                    digit,
+                    &self.ctx_ksk,
+                    fhe_traits::VariableTime::new(fhe_traits::PublicData::assert_public()),
+                ),
+            )
+        } else {
+            Ok(Poly::<PowerBasis>::try_convert_from(digit, &self.ctx_ksk, false)?.into_ntt())
+        }
+    }
+
     /// Generate a [`KeySwitchingKey`] to this [`SecretKey`] from a polynomial
     /// `from`.
     pub fn new<R: RngCore + CryptoRng>(
@@ -256,12 +272,7 @@ impl KeySwitchingKey {
         for (c2_i_coefficients, c0_i, c1_i) in
             izip!(p_coefficients.outer_iter(), self.c0.iter(), self.c1.iter())
         {
-            let mut c2_i =
-                Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(
-                    c2_i_coefficients.as_slice().unwrap(),
-                    &self.ctx_ksk,
-                    fhe_traits::VariableTime::new(fhe_traits::PublicData::assert_public()),
-                );
+            let mut c2_i = self.digit_to_ntt(c2_i_coefficients.as_slice().unwrap(), p)?;
             c0 += &(&c2_i * c0_i);
             c2_i *= c1_i;
             c1 += &c2_i;
@@ -306,12 +317,7 @@ impl KeySwitchingKey {
         for (c2_i_coefficients, c0_i, c1_i) in
             izip!(p_coefficients.outer_iter(), self.c0.iter(), self.c1.iter())
         {
-            let mut c2_i =
-                Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(
-                    c2_i_coefficients.as_slice().unwrap(),
-                    &self.ctx_ksk,
-                    fhe_traits::VariableTime::new(fhe_traits::PublicData::assert_public()),
-                );
+            let mut c2_i = self.digit_to_ntt(c2_i_coefficients.as_slice().unwrap(), p)?;
             *c0 += &(&c2_i * c0_i);
             c2_i *= c1_i;
             *c1 += &c2_i;
@@ -348,12 +354,7 @@ impl KeySwitchingKey {
         let mut c1 = Poly::<Ntt>::zero(&self.ctx_ksk);
         self.configure_accumulators(p, &mut c0, &mut c1);
         for (c2_i_coefficients, c0_i, c1_i) in izip!(c2i.iter(), self.c0.iter(), self.c1.iter()) {
-            let mut c2_i =
-                Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(
-                    c2_i_coefficients.as_slice(),
-                    &self.ctx_ksk,
-                    fhe_traits::VariableTime::new(fhe_traits::PublicData::assert_public()),
-                );
+            let mut c2_i = self.digit_to_ntt(c2_i_coefficients.as_slice(), p)?;
             c0 += &(&c2_i * c0_i);
             c2_i *= c1_i;
             c1 += &c2_i;
-- 
2.43.0


From 03aaf18cd5d6ccecd1e1509b608da4b02eddb809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 25/36] fix: generate Galois keys in an order that does not
 depend on the hasher

The indices were visited in hash order, so that the same random number
generator state built different evaluation keys.
---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index b0286db..b174f44 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -6,6 +6,7 @@ use crate::{Error, Result, SerializationError};
 use fhe_math::rq::{NttShoup, Poly, PowerBasis};
 use fhe_math::zq::Modulus;
 use fhe_traits::{DeserializeParametrized, FheParametrized, Serialize};
+use itertools::Itertools;
 use prost::Message;
 use rand::{CryptoRng, Rng as RngCore};
 use std::collections::{HashMap, HashSet};
@@ -471,7 +472,9 @@ impl EvaluationKeyBuilder {
             ek.monomials.push(monomial.into_ntt_shoup());
         }
 
-        for index in indices {
+        // The order must not depend on the hasher, for the key to be determined by
+        // the random number generator.
+        for index in indices.into_iter().sorted() {
             ek.gk.insert(
                 index,
                 GaloisKey::new(
-- 
2.43.0


From 23702577bf0837d37504d132a09b5fb5db38e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 26/36] fix: serialize the Galois keys of an evaluation key in
 a fixed order

Equal evaluation keys had different serializations.
---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index b174f44..14c742b 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -494,7 +494,7 @@ impl EvaluationKeyBuilder {
 impl From<&EvaluationKey> for EvaluationKeyProto {
     fn from(ek: &EvaluationKey) -> Self {
         let mut proto = EvaluationKeyProto::default();
-        for gk in ek.gk.values() {
+        for (_, gk) in ek.gk.iter().sorted_by_key(|(exponent, _)| **exponent) {
             proto.gk.push(GaloisKeyProto::from(gk))
         }
         proto.ciphertext_level = ek.ciphertext_level as u32;
-- 
2.43.0


From e94db678f22af4d4326b6c9f04c658141c16390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 27/36] fix: draw the seed of secret-key encryptions from the
 given generator

The mask seed came from the thread's generator instead of the one passed by
the caller, unlike in every other randomized operation.
---
 crates/fhe/src/bfv/keys/secret_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index 16caaa2..9984b05 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -105,7 +105,7 @@ impl SecretKey {
         let level = self.par.level_of_context(p.ctx())?;
 
         let mut seed = <ChaCha8Rng as SeedableRng>::Seed::default();
-        rand::rng().fill(&mut seed);
+        rng.fill(&mut seed);
 
         // Let's create a secret key with the ciphertext context
         let s = Zeroizing::new(
-- 
2.43.0


From a46b4678e89ec26099ac1bdad701fd070e2d2f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 28/36] fix: erase the products with secrets in key-switching
 key generation

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index ed6517b..8d398aa 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -189,10 +189,10 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
-                let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
-                b -= &a_s_pb;
+                let mut b = Poly::<PowerBasis>::small(&ctx, sk.par.variance, rng)?;
+                b -= a_s_pb.as_ref();
 
                 let gi = rns.get_garner(i).unwrap();
                 let g_i_from = Zeroizing::new(gi * from);
@@ -234,13 +234,14 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
-                let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
-                b -= &a_s_pb;
+                let mut b = Poly::<PowerBasis>::small(&ctx, sk.par.variance, rng)?;
+                b -= a_s_pb.as_ref();
 
                 let power = BigUint::from(1u64 << (i * log_base));
-                b += &(from * &power);
+                let power_from = Zeroizing::new(from * &power);
+                b += power_from.as_ref();
 
                 // It is now safe to enable variable time computations.
                 b.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From eb883d4e1d896a4d39e5ea905a0b21bf4888f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 29/36] fix: erase the copies of secret keys and decrypted
 values in SecretKey

---
 crates/fhe/src/bfv/keys/secret_key.rs | 31 +++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index 9984b05..5fc8674 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -144,7 +144,10 @@ impl From<&SecretKey> for SecretKeyProto {
 
 impl Serialize for SecretKey {
     fn to_bytes(&self) -> Vec<u8> {
-        SecretKeyProto::from(self).encode_to_vec()
+        let mut proto = SecretKeyProto::from(self);
+        let bytes = proto.encode_to_vec();
+        proto.coeffs.zeroize();
+        bytes
     }
 }
 
@@ -152,24 +155,34 @@ impl DeserializeParametrized for SecretKey {
     type Error = Error;
 
     fn from_bytes(bytes: &[u8], par: &Arc<Self::Parameters>) -> Result<Self> {
-        let proto: SecretKeyProto = Message::decode(bytes).map_err(|_| {
-            Error::SerializationError(SerializationError::Decode {
+        // Every coefficient takes at least one byte: the vector never moves while it
+        // is filled, which would leave copies of the key behind.
+        let mut proto = SecretKeyProto {
+            coeffs: Vec::with_capacity(bytes.len()),
+        };
+        if proto.merge(bytes).is_err() {
+            proto.coeffs.zeroize();
+            return Err(Error::SerializationError(SerializationError::Decode {
                 object: crate::SerializedObject::SecretKey,
-            })
-        })?;
+            }));
+        }
 
         if proto.coeffs.len() != par.degree() {
+            let actual = proto.coeffs.len();
+            proto.coeffs.zeroize();
             return Err(Error::SerializationError(
                 SerializationError::InvalidSecretKeyCoefficientCount {
-                    actual: proto.coeffs.len(),
+                    actual,
                     expected: par.degree(),
                 },
             ));
         }
+        let coeffs = Box::from(proto.coeffs.as_slice());
+        proto.coeffs.zeroize();
 
         Ok(Self {
             par: par.clone(),
-            coeffs: proto.coeffs.into_boxed_slice(),
+            coeffs,
         })
     }
 }
@@ -229,9 +242,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
             // The values below twice the plaintext modulus must be determined by
             // their residue modulo the first ciphertext modulus.
             Some(plaintext_modulus) if **plaintext_modulus <= self.par.moduli[0] / 2 => {
-                let mut v = Vec::<u64>::try_from(d.as_ref())?;
+                let mut v = Zeroizing::new(Vec::<u64>::try_from(d.as_ref())?);
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
-                let mut w = v[..self.par.degree()].to_vec();
+                let mut w = Zeroizing::new(v[..self.par.degree()].to_vec());
 
                 let q = Modulus::new(self.par.moduli[0]).map_err(Error::MathError)?;
                 q.reduce_vec(&mut w);
-- 
2.43.0


From f9c76cf3e8c80af18e00e81acf02288ad6a97101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 30/36] fix: erase the intermediate values of encoding,
 decoding and joint decryption

---
 crates/fhe/src/bfv/plaintext.rs          |  4 ++--
 crates/fhe/src/bfv/plaintext_vec.rs      | 11 ++++++++---
 crates/fhe/src/mbfv/secret_key_switch.rs |  4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index 655cd52..0ab3368 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -111,7 +111,7 @@ impl Plaintext {
                     .first()
                     .is_some_and(|ciphertext_modulus| **modulus < *ciphertext_modulus) =>
             {
-                let coefficients = Vec::<u64>::try_from(poly.as_ref()).unwrap();
+                let coefficients = Zeroizing::new(Vec::<u64>::try_from(poly.as_ref()).unwrap());
                 let mut values = coefficients[..self.par.degree()].to_vec();
                 modulus.reduce_vec(&mut values);
                 PlaintextCoefficients::Small(values)
@@ -437,7 +437,7 @@ impl FheDecoder<Plaintext> for Vec<i64> {
         E: Into<Option<Encoding>>,
     {
         if let Some(modulus) = pt.par.plaintext.small() {
-            let values = Vec::<u64>::try_decode(pt, encoding)?;
+            let values = Zeroizing::new(Vec::<u64>::try_decode(pt, encoding)?);
             Ok(modulus.center_vec(&values))
         } else {
             let values = Vec::<BigUint>::try_decode(pt, encoding)?;
diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index 77d3dd2..14b341f 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -4,6 +4,7 @@ use fhe_math::rq::{Context, Ntt, Poly, PowerBasis, traits::TryConvertFrom};
 use fhe_traits::{FheEncoder, FheEncoderVariableTime, FheParametrized, FhePlaintext, VariableTime};
 use num_bigint::BigUint;
 use num_traits::{ToPrimitive, Zero};
+use zeroize::Zeroizing;
 use zeroize_derive::{Zeroize, ZeroizeOnDrop};
 
 use crate::{
@@ -83,7 +84,7 @@ impl PlaintextVec {
         ctx: &Arc<Context>,
         variable_time: Option<VariableTime>,
     ) -> Result<Poly<Ntt>> {
-        let mut coefficients = vec![0u64; par.degree()];
+        let mut coefficients = Zeroizing::new(vec![0u64; par.degree()]);
         match encoding.encoding {
             EncodingEnum::Poly => {
                 coefficients[..value.len()].copy_from_slice(value);
@@ -107,9 +108,13 @@ impl PlaintextVec {
         }
 
         let poly = if let Some(variable_time) = variable_time {
-            Poly::<PowerBasis>::try_convert_from_public(&coefficients, ctx, variable_time)?
+            Poly::<PowerBasis>::try_convert_from_public(
+                coefficients.as_slice(),
+                ctx,
+                variable_time,
+            )?
         } else {
-            Poly::<PowerBasis>::try_convert_from(&coefficients, ctx, false)?
+            Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
         };
         Ok(poly.into_ntt())
     }
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index 16b05a9..feb0f0c 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -159,11 +159,11 @@ impl Aggregate<DecryptionShare> for Plaintext {
         c.disallow_variable_time_computations();
         let ctx = c.ctx().clone();
         let c_inner = std::mem::replace(c.as_mut(), Poly::<Ntt>::zero(&ctx));
-        let c = c_inner.into_power_basis();
+        let c = Zeroizing::new(c_inner.into_power_basis());
 
         // The true decryption part is done during SKS; all that is left is to scale
         let ctx_lvl = ct.par.context_level_at(ct.level)?;
-        let d = Zeroizing::new(c.scale(&ctx_lvl.cipher_plain_context.scaler)?);
+        let d = Zeroizing::new(c.as_ref().scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
         let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
             .into_iter()
-- 
2.43.0


From d8618aa5ec71f5c48fa70382fa9fadc20a17a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 31/36] fix: make the tfhe-ntt transform interchangeable with
 the native one

tfhe-ntt picks its own root of unity, so that the transformed domain
depended on whether the tfhe-ntt feature was enabled. Seeds are expanded
in that domain: seeded ciphertexts, key-switching keys and common random
polynomials written by a build with one implementation stood for other
polynomials in a build with the other, and decrypted to garbage. Batched
plaintexts were likewise in different orders. Permute the output of
tfhe-ntt into the order of the native transform.
---
 crates/fhe-math/src/ntt/tfhe.rs | 110 +++++++++++++++++++++++++++-----
 1 file changed, 95 insertions(+), 15 deletions(-)

diff --git a/crates/fhe-math/src/ntt/tfhe.rs b/crates/fhe-math/src/ntt/tfhe.rs
index a06944b..2201e7f 100644
--- a/crates/fhe-math/src/ntt/tfhe.rs
+++ b/crates/fhe-math/src/ntt/tfhe.rs
@@ -1,3 +1,13 @@
+// Expect indexing in this performance-critical NTT implementation: the
+// permutation only holds validated indices.
+#![expect(
+    clippy::indexing_slicing,
+    reason = "performance or example code relies on validated indices"
+)]
+
+use std::collections::HashMap;
+
+use itertools::izip;
 use tfhe_ntt::prime64::Plan;
 
 use crate::zq::Modulus;
@@ -7,10 +17,82 @@ use super::native;
 /// Number-Theoretic Transform operator.
 #[derive(Debug, Clone)]
 pub struct NttOperator {
-    tfhe_operator: Option<Plan>,
+    tfhe_operator: Option<TfheOperator>,
     native_operator: native::NttOperator,
 }
 
+/// The transform of the `tfhe-ntt` crate, which picks its own root of unity,
+/// followed by a permutation into the order of the native transform. Objects
+/// that depend on the transform (seeds expanded in the transformed domain,
+/// batched plaintexts) are thereby the same with both implementations.
+#[derive(Debug, Clone)]
+struct TfheOperator {
+    plan: Plan,
+    /// Cycles of the permutation: each value moves to the previous index.
+    cycles: Box<[Box<[u32]>]>,
+}
+
+impl TfheOperator {
+    fn new(p: &Modulus, size: usize, native_operator: &native::NttOperator) -> Option<Self> {
+        let plan = Plan::try_new(size, p.p)?;
+
+        // The transform of X lists the roots of unity in the order of the outputs.
+        let mut roots = vec![0u64; size];
+        roots[1] = 1;
+        let mut native_roots = roots.clone();
+        plan.fwd(&mut roots);
+        native_operator.forward(&mut native_roots);
+        let index: HashMap<u64, usize> = izip!(roots, 0..size).collect();
+        let sources = native_roots
+            .iter()
+            .map(|root| index.get(root).copied())
+            .collect::<Option<Vec<usize>>>()?;
+
+        let mut visited = vec![false; size];
+        let mut cycles = vec![];
+        for start in 0..size {
+            let mut cycle = vec![];
+            let mut i = start;
+            while !visited[i] {
+                visited[i] = true;
+                cycle.push(i as u32);
+                i = sources[i];
+            }
+            if cycle.len() > 1 {
+                cycles.push(cycle.into_boxed_slice());
+            }
+        }
+
+        Some(Self {
+            plan,
+            cycles: cycles.into_boxed_slice(),
+        })
+    }
+
+    fn forward(&self, a: &mut [u64]) {
+        self.plan.fwd(a);
+        for cycle in &self.cycles {
+            let first = a[cycle[0] as usize];
+            for i in 1..cycle.len() {
+                a[cycle[i - 1] as usize] = a[cycle[i] as usize];
+            }
+            a[cycle[cycle.len() - 1] as usize] = first;
+        }
+    }
+
+    fn backward(&self, a: &mut [u64]) {
+        for cycle in &self.cycles {
+            let last = a[cycle[cycle.len() - 1] as usize];
+            for i in (1..cycle.len()).rev() {
+                a[cycle[i] as usize] = a[cycle[i - 1] as usize];
+            }
+            a[cycle[0] as usize] = last;
+        }
+        self.plan.inv(a);
+        self.plan.normalize(a);
+    }
+}
+
 impl PartialEq for NttOperator {
     fn eq(&self, other: &Self) -> bool {
         let Self {
@@ -40,7 +122,7 @@ impl NttOperator {
     #[must_use]
     pub fn new(p: &Modulus, size: usize) -> Option<Self> {
         let native_operator = native::NttOperator::new(p, size)?;
-        let tfhe_operator = Plan::try_new(size, p.p);
+        let tfhe_operator = TfheOperator::new(p, size, &native_operator);
         Some(Self {
             tfhe_operator,
             native_operator,
@@ -51,7 +133,7 @@ impl NttOperator {
     /// Aborts if a is not of the size handled by the operator.
     pub fn forward(&self, a: &mut [u64]) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
-            tfhe_operator.fwd(a);
+            tfhe_operator.forward(a);
         } else {
             self.native_operator.forward(a);
         }
@@ -61,8 +143,7 @@ impl NttOperator {
     /// Aborts if a is not of the size handled by the operator.
     pub fn backward(&self, a: &mut [u64]) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
-            tfhe_operator.inv(a);
-            tfhe_operator.normalize(a);
+            tfhe_operator.backward(a);
         } else {
             self.native_operator.backward(a);
         }
@@ -78,9 +159,9 @@ impl NttOperator {
     /// about the value being reduced.
     pub(crate) unsafe fn forward_vt_lazy(&self, a_ptr: *mut u64) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
-            let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.ntt_size()) };
-            vt_event!(tfhe_operator.modulus(), "forward_vt", a);
-            tfhe_operator.fwd(a);
+            let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.plan.ntt_size()) };
+            vt_event!(tfhe_operator.plan.modulus(), "forward_vt", a);
+            tfhe_operator.forward(a);
         } else {
             unsafe {
                 self.native_operator.forward_vt_lazy(a_ptr);
@@ -96,9 +177,9 @@ impl NttOperator {
     /// about the value being reduced.
     pub unsafe fn forward_vt(&self, a_ptr: *mut u64) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
-            let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.ntt_size()) };
-            vt_event!(tfhe_operator.modulus(), "forward_vt", a);
-            tfhe_operator.fwd(a);
+            let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.plan.ntt_size()) };
+            vt_event!(tfhe_operator.plan.modulus(), "forward_vt", a);
+            tfhe_operator.forward(a);
         } else {
             unsafe {
                 self.native_operator.forward_vt(a_ptr);
@@ -114,10 +195,9 @@ impl NttOperator {
     /// about the value being reduced.
     pub unsafe fn backward_vt(&self, a_ptr: *mut u64) {
         if let Some(ref tfhe_operator) = self.tfhe_operator {
-            let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.ntt_size()) };
-            vt_event!(tfhe_operator.modulus(), "backward_vt", a);
-            tfhe_operator.inv(a);
-            tfhe_operator.normalize(a);
+            let a = unsafe { std::slice::from_raw_parts_mut(a_ptr, tfhe_operator.plan.ntt_size()) };
+            vt_event!(tfhe_operator.plan.modulus(), "backward_vt", a);
+            tfhe_operator.backward(a);
         } else {
             unsafe {
                 self.native_operator.backward_vt(a_ptr);
-- 
2.43.0


From 9e7474e15c81b9aea1b209680c2ca392464c5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 32/36] fix: check the bounds RnsScaler::scale relies on in
 every build

scale and scale_new are safe functions, but only checked the number of
rests and the range of output moduli with debug assertions before
accessing their tables unchecked: in release builds, arguments out of
range read out of bounds.
---
 crates/fhe-math/src/rns/scaler.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 7ee40b3..db73c21 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -231,8 +231,8 @@ impl RnsScaler {
     /// Output the RNS representation of the rests scaled by numerator *
     /// denominator, and either rounded or floored.
     ///
-    /// Aborts if the number of rests is different than the number of moduli in
-    /// debug mode, or if the size is not in [1, ..., rests.len()].
+    /// Aborts if the number of rests is different than the number of moduli, or
+    /// if the size exceeds the number of output moduli.
     #[must_use]
     pub fn scale_new(&self, rests: ArrayView1<u64>, size: usize) -> Vec<u64> {
         let mut out = vec![0; size];
@@ -244,17 +244,19 @@ impl RnsScaler {
     /// denominator, and either rounded or floored, and store the result in
     /// `out`.
     ///
-    /// Aborts if the number of rests is different than the number of moduli in
-    /// debug mode, or if the size of out is not in [1, ..., rests.len()].
+    /// Aborts if the number of rests is different than the number of moduli, or
+    /// if `out` exceeds the output moduli from `starting_index` on.
     pub fn scale(
         &self,
         rests: ArrayView1<u64>,
         mut out: ArrayViewMut1<u64>,
         starting_index: usize,
     ) {
-        debug_assert_eq!(rests.len(), self.from.moduli_u64.len());
+        // The unchecked accesses below depend on these bounds.
+        assert_eq!(rests.len(), self.from.moduli_u64.len());
+        assert!(starting_index <= self.to.moduli_u64.len());
+        assert!(out.len() <= self.to.moduli_u64.len() - starting_index);
         debug_assert!(!out.is_empty());
-        debug_assert!(starting_index + out.len() <= self.to.moduli_u64.len());
 
         // First, let's compute the inner product of the rests with theta_omega.
         let mut sum_theta_garner = u256::ZERO;
-- 
2.43.0


From 4a930cb1aa3e453a1340030dcad2e8ae2ea30647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 33/36] fix: derive the accumulator pointer of dot_product from
 the slice in use

The pointer obtained before the slice was used between two uses of the
slice, which invalidates it: undefined behaviour under the aliasing
rules, reported by Miri for dot products long enough to be reduced on
the way.
---
 crates/fhe-math/src/rq/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/ops.rs b/crates/fhe-math/src/rq/ops.rs
index 65e4eb2..4a409c5 100644
--- a/crates/fhe-math/src/rq/ops.rs
+++ b/crates/fhe-math/src/rq/ops.rs
@@ -479,7 +479,6 @@ where
 
     // Initialize the accumulator
     let mut acc: Array2<u128> = Array2::zeros((p_first.ctx.q.len(), p_first.ctx.degree));
-    let acc_ptr = acc.as_mut_ptr();
 
     // Current number of products accumulated
     let mut num_acc = vec![1u128; p_first.ctx.q.len()];
@@ -507,6 +506,7 @@ where
             let pi_slice = pij.as_slice().unwrap();
             let qi_slice = qij.as_slice().unwrap();
             fma(out_slice, pi_slice, qi_slice);
+            let acc_ptr = out_slice.as_mut_ptr();
 
             // SAFETY: The pointer arithmetic here is valid because:
             // - acc_ptr, num_acc_ptr, max_acc_ptr, q_ptr are all valid pointers
-- 
2.43.0


From 10bd2a6536360a6e4d7f68d6f56b91b3586c7680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 34/36] fix: erase the temporary Shoup representation of
 polynomials

---
 crates/fhe-math/src/rq/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index 83997e8..2bcdb42 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -249,10 +249,8 @@ impl<R: RepresentationTag> Poly<R> {
             self.ctx.q.iter()
         )
         .for_each(|(mut v_shoup, v, qi)| {
-            v_shoup
-                .as_slice_mut()
-                .unwrap()
-                .copy_from_slice(&qi.shoup_vec(v.as_slice().unwrap()))
+            let shoup = Zeroizing::new(qi.shoup_vec(v.as_slice().unwrap()));
+            v_shoup.as_slice_mut().unwrap().copy_from_slice(&shoup)
         });
         self.coefficients_shoup = Some(coefficients_shoup)
     }
-- 
2.43.0


From 269d2352dd006cda66c103a3fc36a4d5b6d3e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 35/36] fix: erase the scaled plaintext when adding it to a
 ciphertext

---
 crates/fhe/src/bfv/ops/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index 6725b33..48a97a1 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -11,6 +11,7 @@ use crate::{Error, Result};
 use fhe_math::rq::{Ntt, Poly};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use std::sync::Arc;
+use zeroize::Zeroizing;
 
 impl Add<&Ciphertext> for &Ciphertext {
     type Output = Ciphertext;
@@ -92,8 +93,8 @@ impl AddAssign<&Plaintext> for Ciphertext {
         assert!(!self.is_empty());
         assert_eq!(self.level, rhs.level());
 
-        let poly = rhs.to_poly();
-        self[0] += &poly;
+        let poly = Zeroizing::new(rhs.to_poly());
+        self[0] += poly.as_ref();
         self.seed = None
     }
 }
@@ -187,8 +188,8 @@ impl SubAssign<&Plaintext> for Ciphertext {
         assert!(!self.is_empty());
         assert_eq!(self.level, rhs.level());
 
-        let poly = rhs.to_poly();
-        self.c[0] -= &poly;
+        let poly = Zeroizing::new(rhs.to_poly());
+        self.c[0] -= poly.as_ref();
         self.seed = None
     }
 }
-- 
2.43.0


From 7034092f050304947adc11fcdcf7cdc98d8b50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 36/36] fix: erase the joint phase of a multiparty decryption

---
 crates/fhe/src/mbfv/secret_key_switch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index feb0f0c..2f83a5e 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -151,13 +151,13 @@ impl Aggregate<DecryptionShare> for Plaintext {
         T: IntoIterator<Item = DecryptionShare>,
     {
         let sks_shares = iter.into_iter().map(|s| s.sks_share);
-        let ct = Ciphertext::from_shares(sks_shares)?;
-        ct.par.plaintext_context_at_level(ct.level)?;
+        let mut ct = Ciphertext::from_shares(sks_shares)?;
+        let ctx = ct[0].ctx().clone();
 
         // Note: during SKS, c[1]*sk has already been added to c[0].
-        let mut c = Zeroizing::new(ct[0].clone());
+        let mut c = Zeroizing::new(std::mem::replace(&mut ct[0], Poly::<Ntt>::zero(&ctx)));
+        ct.par.plaintext_context_at_level(ct.level)?;
         c.disallow_variable_time_computations();
-        let ctx = c.ctx().clone();
         let c_inner = std::mem::replace(c.as_mut(), Poly::<Ntt>::zero(&ctx));
         let c = Zeroizing::new(c_inner.into_power_basis());
 
-- 
2.43.0

