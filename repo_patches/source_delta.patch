From 44214f504de59e7713a8ae9c01485a22cfc29733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 1/9] fix: report GlweDimensionMismatch when the GLWE
 dimensions of an external product differ

---
 ...we_ciphertext_ggsw_ciphertext_discarding_external_product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concrete-core/src/specification/engines/glwe_ciphertext_ggsw_ciphertext_discarding_external_product.rs b/concrete-core/src/specification/engines/glwe_ciphertext_ggsw_ciphertext_discarding_external_product.rs
index ac11acd..bd52430 100644
--- a/concrete-core/src/specification/engines/glwe_ciphertext_ggsw_ciphertext_discarding_external_product.rs
+++ b/concrete-core/src/specification/engines/glwe_ciphertext_ggsw_ciphertext_discarding_external_product.rs
@@ -31,7 +31,7 @@ impl<EngineError: std::error::Error>
         if glwe_input.glwe_dimension().0 != ggsw_input.glwe_dimension().0
             || glwe_input.glwe_dimension().0 != output.glwe_dimension().0
         {
-            return Err(Self::PolynomialSizeMismatch);
+            return Err(Self::GlweDimensionMismatch);
         }
         Ok(())
     }
-- 
2.43.0


From 2a5573bdcda71b03004c353b0c029d6762886791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 2/9] fix: test the decomposition base log for
 NullDecompositionBaseLog in circuit bootstrap + vertical packing

---
 ...tor_discarding_circuit_bootstrap_boolean_vertical_packing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean_vertical_packing.rs b/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean_vertical_packing.rs
index d6a19da..753c69f 100644
--- a/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean_vertical_packing.rs
+++ b/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean_vertical_packing.rs
@@ -76,7 +76,7 @@ impl<EngineError: std::error::Error>
             return Err(Self::InvalidSmallLookUpTableSize);
         }
 
-        if cbs_decomposition_level_count.0 == 0 {
+        if cbs_decomposition_base_log.0 == 0 {
             return Err(Self::NullDecompositionBaseLog);
         }
         if cbs_decomposition_level_count.0 == 0 {
-- 
2.43.0


From 6594abd73f81f564fafc678edefcaba8209df9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 3/9] fix: LweCiphertextRange::is_ordered was inverted

---
 concrete-core/src/specification/parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concrete-core/src/specification/parameters.rs b/concrete-core/src/specification/parameters.rs
index 9afca96..5e1f13a 100644
--- a/concrete-core/src/specification/parameters.rs
+++ b/concrete-core/src/specification/parameters.rs
@@ -39,7 +39,7 @@ pub struct LweCiphertextRange(pub usize, pub usize);
 
 impl LweCiphertextRange {
     pub fn is_ordered(&self) -> bool {
-        self.1 <= self.0
+        self.0 <= self.1
     }
 }
 
-- 
2.43.0


From 6eca988ed492f355a39836e917c5d12044d5e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 4/9] fix: reject forks whose total byte count overflows
 instead of overlapping the parent stream

---
 concrete-csprng/src/generators/aes_ctr/generic.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/concrete-csprng/src/generators/aes_ctr/generic.rs b/concrete-csprng/src/generators/aes_ctr/generic.rs
index 770b627..07bf7dd 100644
--- a/concrete-csprng/src/generators/aes_ctr/generic.rs
+++ b/concrete-csprng/src/generators/aes_ctr/generic.rs
@@ -173,9 +173,10 @@ impl<BlockCipher: AesBlockCipher> AesCtrGenerator<BlockCipher> {
         n_child: ChildrenCount,
         child_bytes: BytesPerChild,
     ) -> bool {
-        let mut end = self.state.table_index();
-        end.increase(n_child.0 * child_bytes.0);
-        end <= self.last
+        match n_child.0.checked_mul(child_bytes.0) {
+            Some(n_bytes) => n_bytes as u128 <= self.remaining_bytes().0,
+            None => false,
+        }
     }
 }
 
-- 
2.43.0


From 7af771ad666100e7986d724a73f8b0d454f20d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 5/9] fix: refuse a null BufferView in the C API instead of
 building a slice from it

---
 concrete-core-ffi/src/buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concrete-core-ffi/src/buffer.rs b/concrete-core-ffi/src/buffer.rs
index 1df2c57..37a1d42 100644
--- a/concrete-core-ffi/src/buffer.rs
+++ b/concrete-core-ffi/src/buffer.rs
@@ -28,6 +28,7 @@ impl From<Vec<u8>> for Buffer {
 
 impl From<BufferView> for &[u8] {
     fn from(bf: BufferView) -> &'static [u8] {
+        assert!(!bf.pointer.is_null(), "BufferView has a null pointer");
         unsafe { std::slice::from_raw_parts(bf.pointer, bf.length) }
     }
 }
-- 
2.43.0


From b38932b9800b114e63d373ae45b6f5dfd3d8435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 6/9] fix: the circuit bootstrap precondition check printed to
 stdout

---
 ...iphertext_vector_discarding_circuit_bootstrap_boolean.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean.rs b/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean.rs
index b41457c..398a809 100644
--- a/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean.rs
+++ b/concrete-core/src/specification/engines/lwe_ciphertext_vector_discarding_circuit_bootstrap_boolean.rs
@@ -44,12 +44,6 @@ impl<EngineError: std::error::Error>
         CirctuiBootstrapFunctionalPackingKeyswitchKeys:
             LweCircuitBootstrapPrivateFunctionalPackingKeyswitchKeysEntity,
     {
-        println!(
-            "{:?} != {:?}",
-            cbs_pfpksk.input_lwe_dimension(),
-            bootstrap_key.output_lwe_dimension()
-        );
-
         if cbs_pfpksk.input_lwe_dimension() != bootstrap_key.output_lwe_dimension() {
             return Err(Self::KeysDimensionMismatched);
         }
-- 
2.43.0


From 4172178a48e816bd06b61d2dd2df353ecda6fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 7/9] fix: null a consumed C input pointer before the consuming
 operation can fail

---
 .../engines/glwe_lwe_secret_key_transformation.rs  | 14 ++++++++------
 .../engines/lwe_glwe_secret_key_transformation.rs  | 14 ++++++++------
 ...trap_key_to_lwe_bootstrap_key_transformation.rs | 14 ++++++++------
 ...itch_key_to_lwe_keyswitch_key_transformation.rs | 14 ++++++++------
 4 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/concrete-core-ffi/src/backends/default/engines/glwe_lwe_secret_key_transformation.rs b/concrete-core-ffi/src/backends/default/engines/glwe_lwe_secret_key_transformation.rs
index 59ac6ea..4ed72b3 100644
--- a/concrete-core-ffi/src/backends/default/engines/glwe_lwe_secret_key_transformation.rs
+++ b/concrete-core-ffi/src/backends/default/engines/glwe_lwe_secret_key_transformation.rs
@@ -35,6 +35,10 @@ pub unsafe extern "C" fn default_engine_transform_glwe_secret_key_to_lwe_secret_
         // Recreate the Box
         let heap_allocated_glwe_secret_key = Box::from_raw(glwe_secret_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *glwe_secret_key = std::ptr::null_mut();
+
         let heap_allocated_lwe_secret_key = Box::new(
             engine
                 .transform_glwe_secret_key_to_lwe_secret_key(*heap_allocated_glwe_secret_key)
@@ -42,9 +46,6 @@ pub unsafe extern "C" fn default_engine_transform_glwe_secret_key_to_lwe_secret_
                 .unwrap(),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *glwe_secret_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_lwe_secret_key);
     })
 }
@@ -68,15 +69,16 @@ pub unsafe extern "C" fn default_engine_transform_glwe_secret_key_to_lwe_secret_
         // Recreate the Box
         let heap_allocated_glwe_secret_key = Box::from_raw(glwe_secret_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *glwe_secret_key = std::ptr::null_mut();
+
         let heap_allocated_lwe_secret_key = Box::new(
             engine.transform_glwe_secret_key_to_lwe_secret_key_unchecked(
                 *heap_allocated_glwe_secret_key,
             ),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *glwe_secret_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_lwe_secret_key);
     })
 }
diff --git a/concrete-core-ffi/src/backends/default/engines/lwe_glwe_secret_key_transformation.rs b/concrete-core-ffi/src/backends/default/engines/lwe_glwe_secret_key_transformation.rs
index 3d8a668..b917765 100644
--- a/concrete-core-ffi/src/backends/default/engines/lwe_glwe_secret_key_transformation.rs
+++ b/concrete-core-ffi/src/backends/default/engines/lwe_glwe_secret_key_transformation.rs
@@ -36,6 +36,10 @@ pub unsafe extern "C" fn default_engine_transform_lwe_secret_key_to_glwe_secret_
         // Recreate the Box
         let heap_allocated_lwe_secret_key = Box::from_raw(lwe_secret_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *lwe_secret_key = std::ptr::null_mut();
+
         let polynomial_size = PolynomialSize(polynomial_size);
 
         let heap_allocated_glwe_secret_key = Box::new(
@@ -48,9 +52,6 @@ pub unsafe extern "C" fn default_engine_transform_lwe_secret_key_to_glwe_secret_
                 .unwrap(),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *lwe_secret_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_glwe_secret_key);
     })
 }
@@ -75,6 +76,10 @@ pub unsafe extern "C" fn default_engine_transform_lwe_secret_key_to_glwe_secret_
         // Recreate the Box
         let heap_allocated_lwe_secret_key = Box::from_raw(lwe_secret_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *lwe_secret_key = std::ptr::null_mut();
+
         let polynomial_size = PolynomialSize(polynomial_size);
 
         let heap_allocated_glwe_secret_key = Box::new(
@@ -84,9 +89,6 @@ pub unsafe extern "C" fn default_engine_transform_lwe_secret_key_to_glwe_secret_
             ),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *lwe_secret_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_glwe_secret_key);
     })
 }
diff --git a/concrete-core-ffi/src/backends/default/engines/lwe_seeded_bootstrap_key_to_lwe_bootstrap_key_transformation.rs b/concrete-core-ffi/src/backends/default/engines/lwe_seeded_bootstrap_key_to_lwe_bootstrap_key_transformation.rs
index 38b226b..e8b7d71 100644
--- a/concrete-core-ffi/src/backends/default/engines/lwe_seeded_bootstrap_key_to_lwe_bootstrap_key_transformation.rs
+++ b/concrete-core-ffi/src/backends/default/engines/lwe_seeded_bootstrap_key_to_lwe_bootstrap_key_transformation.rs
@@ -35,6 +35,10 @@ pub unsafe extern "C" fn default_engine_transform_lwe_seeded_bootstrap_key_to_lw
         // Recreate the Box
         let heap_allocated_lwe_bootstrap_key = Box::from_raw(lwe_seeded_bootstrap_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *lwe_seeded_bootstrap_key = std::ptr::null_mut();
+
         let heap_allocated_bootstrap_secret_key = Box::new(
             engine
                 .transform_lwe_seeded_bootstrap_key_to_lwe_bootstrap_key(
@@ -44,9 +48,6 @@ pub unsafe extern "C" fn default_engine_transform_lwe_seeded_bootstrap_key_to_lw
                 .unwrap(),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *lwe_seeded_bootstrap_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_bootstrap_secret_key);
     })
 }
@@ -71,15 +72,16 @@ pub unsafe extern "C" fn default_engine_transform_lwe_seeded_bootstrap_key_to_lw
         // Recreate the Box
         let heap_allocated_lwe_bootstrap_key = Box::from_raw(lwe_seeded_bootstrap_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *lwe_seeded_bootstrap_key = std::ptr::null_mut();
+
         let heap_allocated_bootstrap_secret_key = Box::new(
             engine.transform_lwe_seeded_bootstrap_key_to_lwe_bootstrap_key_unchecked(
                 *heap_allocated_lwe_bootstrap_key,
             ),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *lwe_seeded_bootstrap_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_bootstrap_secret_key);
     })
 }
diff --git a/concrete-core-ffi/src/backends/default/engines/lwe_seeded_keyswitch_key_to_lwe_keyswitch_key_transformation.rs b/concrete-core-ffi/src/backends/default/engines/lwe_seeded_keyswitch_key_to_lwe_keyswitch_key_transformation.rs
index 334f694..9f73591 100644
--- a/concrete-core-ffi/src/backends/default/engines/lwe_seeded_keyswitch_key_to_lwe_keyswitch_key_transformation.rs
+++ b/concrete-core-ffi/src/backends/default/engines/lwe_seeded_keyswitch_key_to_lwe_keyswitch_key_transformation.rs
@@ -35,6 +35,10 @@ pub unsafe extern "C" fn default_engine_transform_lwe_seeded_keyswitch_key_to_lw
         // Recreate the Box
         let heap_allocated_lwe_keyswitch_key = Box::from_raw(lwe_seeded_keyswitch_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *lwe_seeded_keyswitch_key = std::ptr::null_mut();
+
         let heap_allocated_keyswitch_key = Box::new(
             engine
                 .transform_lwe_seeded_keyswitch_key_to_lwe_keyswitch_key(
@@ -44,9 +48,6 @@ pub unsafe extern "C" fn default_engine_transform_lwe_seeded_keyswitch_key_to_lw
                 .unwrap(),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *lwe_seeded_keyswitch_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_keyswitch_key);
     })
 }
@@ -71,15 +72,16 @@ pub unsafe extern "C" fn default_engine_transform_lwe_seeded_keyswitch_key_to_lw
         // Recreate the Box
         let heap_allocated_lwe_keyswitch_key = Box::from_raw(lwe_seeded_keyswitch_key_mut_ptr);
 
+        // The key is now owned by this function and freed even if it fails: signal that it was
+        // consumed by setting the input pointer to null
+        *lwe_seeded_keyswitch_key = std::ptr::null_mut();
+
         let heap_allocated_keyswitch_key = Box::new(
             engine.transform_lwe_seeded_keyswitch_key_to_lwe_keyswitch_key_unchecked(
                 *heap_allocated_lwe_keyswitch_key,
             ),
         );
 
-        // Now that the key was consumed, signal that by setting the input pointer to null
-        *lwe_seeded_keyswitch_key = std::ptr::null_mut();
-
         *result = Box::into_raw(heap_allocated_keyswitch_key);
     })
 }
-- 
2.43.0


From 161109b9153e4f1db37671845252ef370781cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 8/9] fix: report malformed Fourier polynomial lists as
 deserialization errors instead of panicking

---
 .../src/backends/fft/private/math/fft/mod.rs  | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/concrete-core/src/backends/fft/private/math/fft/mod.rs b/concrete-core/src/backends/fft/private/math/fft/mod.rs
index da9d569..d276be0 100644
--- a/concrete-core/src/backends/fft/private/math/fft/mod.rs
+++ b/concrete-core/src/backends/fft/private/math/fft/mod.rs
@@ -625,8 +625,29 @@ impl<'de, C: ContainerOwned<Element = c64>> serde::Deserialize<'de> for FourierP
                     }
                 }
 
-                let mut data =
-                    C::collect((0..(polynomial_size.0 / 2 * chunk_count)).map(|_| c64::default()));
+                // plans only exist for these sizes
+                if chunk_count != 0
+                    && !(polynomial_size.0.is_power_of_two() && polynomial_size.0 >= 2)
+                {
+                    return Err(serde::de::Error::invalid_value(
+                        serde::de::Unexpected::Unsigned(polynomial_size.0 as u64),
+                        &"a polynomial size that is a power of two",
+                    ));
+                }
+                // the coefficients have to fit in the address space
+                let coefficient_count = (polynomial_size.0 / 2)
+                    .checked_mul(chunk_count)
+                    .filter(|&count| {
+                        count <= isize::MAX as usize / (2 * std::mem::size_of::<c64>())
+                    })
+                    .ok_or_else(|| {
+                        serde::de::Error::invalid_value(
+                            serde::de::Unexpected::Unsigned(chunk_count as u64),
+                            &"a number of polynomials that fits in memory",
+                        )
+                    })?;
+
+                let mut data = C::collect((0..coefficient_count).map(|_| c64::default()));
 
                 if chunk_count != 0 {
                     let fft = Fft::new(polynomial_size);
-- 
2.43.0


From d7b1447dd0ff393f1b987f6e8b15be1cc3080acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:34 +0000
Subject: [PATCH 9/9] fix: discard the previous content of the output in the
 LWE affine transform

---
 concrete-core/src/commons/crypto/lwe/ciphertext.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concrete-core/src/commons/crypto/lwe/ciphertext.rs b/concrete-core/src/commons/crypto/lwe/ciphertext.rs
index 2730ec7..d53e256 100644
--- a/concrete-core/src/commons/crypto/lwe/ciphertext.rs
+++ b/concrete-core/src/commons/crypto/lwe/ciphertext.rs
@@ -394,6 +394,9 @@ impl<Cont> LweCiphertext<Cont> {
         CleartextList<WeightCont>: AsRefTensor<Element = Scalar>,
         Scalar: UnsignedInteger,
     {
+        // discard the previous content
+        self.as_mut_tensor().fill_with_element(Scalar::ZERO);
+
         // loop over the ciphertexts and the weights
         for (input_cipher, weight) in input_list.ciphertext_iter().zip(weights.cleartext_iter()) {
             let cipher_tens = input_cipher.as_tensor();
-- 
2.43.0

