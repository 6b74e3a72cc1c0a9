From 9eab7435cbb8b2c77b890d1b24d8f3eb497032e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 1/6] fix: Radix4 reordered its input wrongly for lengths of
 128 and above

---
 src/scalar/radix4.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index ee179b3..d7b2d3d 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -339,21 +339,24 @@ fn prepare_radix4_reversed<T: FftNum>(
             }
         }
     } else {
-        {
-            let i = 0;
-            prepare_radix4(
+        // Reversing the whole input turns sub-sequence i into the reversed sub-sequence 3 - i, so the output quarters are filled in the opposite order.
+        // The sub-sequence which ends up in the last quarter is the one that prepare_radix4 would have reversed, so it's reversed twice, and comes out forward
+        for i in 0..3 {
+            prepare_radix4_reversed(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
         }
-        for i in 1..4 {
-            prepare_radix4_reversed(
+
+        {
+            let i = 3;
+            prepare_radix4(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
-- 
2.43.0


From 14bd9dc869780f48822b8b86be1deb9a9e2af69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 2/6] fix: compute sqrt(0.5) twiddle factors in double
 precision

---
 src/scalar/mixed_radix.rs | 2 +-
 src/scalar/radix3.rs      | 2 +-
 src/scalar/radix5.rs      | 2 +-
 src/scalar/radix6.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scalar/mixed_radix.rs b/src/scalar/mixed_radix.rs
index 5868c47..6170642 100644
--- a/src/scalar/mixed_radix.rs
+++ b/src/scalar/mixed_radix.rs
@@ -52,7 +52,7 @@ impl<T: FftNum> MixedRadix<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(row_limit * column_limit);
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for row in 1..row_limit {
             for column in 1..column_limit {
                 // Our twiddle will be a one-eigth turn around the circle from what the basic "row * column" twiddle would have been, times sqrt(0.5)
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index f628d13..32805ff 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index fe98611..ac3ae52 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 6116774..4923178 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -31,7 +31,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(3 * (column_limit - 1));
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for column in 1..column_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(1 * column * 8 + len, len * 8) * root2);
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(2 * column * 8 + len, len * 8) * root2);
-- 
2.43.0


From 740b19220baacf0942fbf3dbc09856e14e2384d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:15 +0000
Subject: [PATCH 3/6] fix: RadersAlgorithm could not be constructed for length
 2

---
 src/math_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index e8a9b80..903f176 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -59,7 +59,8 @@ pub fn primitive_root(prime: u64) -> Option<u64> {
         .iter()
         .map(|factor| (prime - 1) / factor)
         .collect();
-    'next: for potential_root in 2..prime {
+    // start at 1 instead of 2, because 1 is the primitive root of 2
+    'next: for potential_root in 1..prime {
         // for each distinct factor, if potential_root^(p-1)/factor mod p is 1, reject it
         for exp in &test_exponents {
             if modular_exponent(potential_root, *exp, prime) == 1 {
-- 
2.43.0


From bea1c297a80174083aa4cadc84e32742c175e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 4/6] fix: MixedRadix2xn..6xn did not pass on the scratch space
 their inner DHT requires

---
 src/scalar/radix2.rs | 29 ++++++++++++++---------------
 src/scalar/radix3.rs | 29 ++++++++++++++---------------
 src/scalar/radix4.rs | 29 ++++++++++++++---------------
 src/scalar/radix5.rs | 29 ++++++++++++++---------------
 src/scalar/radix6.rs | 29 ++++++++++++++---------------
 5 files changed, 70 insertions(+), 75 deletions(-)

diff --git a/src/scalar/radix2.rs b/src/scalar/radix2.rs
index daaf7df..755af8b 100644
--- a/src/scalar/radix2.rs
+++ b/src/scalar/radix2.rs
@@ -34,6 +34,7 @@ impl<T: FftNum> MixedRadix2xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -49,18 +50,9 @@ impl<T: FftNum> MixedRadix2xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data around between internal buffers, so we need self.len() scratch for ourselves
+        // If our height DHT's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -123,11 +115,13 @@ impl<T: FftNum> MixedRadix2xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -137,13 +131,18 @@ impl<T: FftNum> MixedRadix2xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index 32805ff..4b2c360 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -38,6 +38,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -53,18 +54,9 @@ impl<T: FftNum> MixedRadix3xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data around between internal buffers, so we need self.len() scratch for ourselves
+        // If our height DHT's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -147,11 +139,13 @@ impl<T: FftNum> MixedRadix3xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -161,13 +155,18 @@ impl<T: FftNum> MixedRadix3xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index d7b2d3d..6a8287f 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -35,6 +35,7 @@ impl<T: FftNum> MixedRadix4xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -50,18 +51,9 @@ impl<T: FftNum> MixedRadix4xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data around between internal buffers, so we need self.len() scratch for ourselves
+        // If our height DHT's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -153,11 +145,13 @@ impl<T: FftNum> MixedRadix4xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -167,13 +161,18 @@ impl<T: FftNum> MixedRadix4xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index ac3ae52..14ec932 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -39,6 +39,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -54,18 +55,9 @@ impl<T: FftNum> MixedRadix5xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data around between internal buffers, so we need self.len() scratch for ourselves
+        // If our height DHT's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -170,11 +162,13 @@ impl<T: FftNum> MixedRadix5xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -184,13 +178,18 @@ impl<T: FftNum> MixedRadix5xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 4923178..47c3644 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -40,6 +40,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -55,18 +56,9 @@ impl<T: FftNum> MixedRadix6xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data around between internal buffers, so we need self.len() scratch for ourselves
+        // If our height DHT's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -186,11 +178,13 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
     
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -200,13 +194,18 @@ impl<T: FftNum> MixedRadix6xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            &mut scratch[..]
+        } else {
+            &mut input[..]
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
-- 
2.43.0


From 6b7d3f5dd7578e1fa82fff6cd2cc3a26f0d72258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 5/6] fix: SplitRadix did not provide the scratch space its
 inner DHTs require

---
 src/scalar/split_radix.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/scalar/split_radix.rs b/src/scalar/split_radix.rs
index 2cff5b2..959b1ae 100644
--- a/src/scalar/split_radix.rs
+++ b/src/scalar/split_radix.rs
@@ -1,4 +1,4 @@
-use std::sync::Arc;
+use std::{cmp::max, sync::Arc};
 
 use num_complex::Complex;
 use rustfft::{FftNum, Length};
@@ -33,14 +33,31 @@ impl<T: FftNum> SplitRadix<T> {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(x * 3, len));
         }
 
+        // Collect some data about what kind of scratch space our inner DHTs need
+        let half_inplace_scratch = half_dht.get_inplace_scratch_len();
+        let quarter_inplace_scratch = quarter_dht.get_inplace_scratch_len();
+        let quarter_outofplace_scratch = quarter_dht.get_outofplace_scratch_len();
+
+        // For the in-place DHT, the entire scratch is available to the half DHT.
+        // After that, the first half_len elements will hold the output of the quarter DHTs, and the quarter DHT's own scratch comes after it
+        let inplace_scratch_len = max(half_inplace_scratch, half_len + quarter_outofplace_scratch);
+
+        // For the out-of-place DHT, we can use the output buffer as scratch, unless one of our inner DHTs needs more than that
+        let max_inner_inplace_scratch = max(half_inplace_scratch, quarter_inplace_scratch);
+        let outofplace_scratch_len = if max_inner_inplace_scratch > len {
+            max_inner_inplace_scratch
+        } else {
+            0
+        };
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
             quarter_dht,
             half_dht,
 
-            inplace_scratch_len: half_len,
-            outofplace_scratch_len: 0,
+            inplace_scratch_len,
+            outofplace_scratch_len,
             len,
         }
     }
@@ -121,7 +138,9 @@ impl<T: FftNum> SplitRadix<T> {
         let (buffer_evens, buffer_odds) = buffer.split_at_mut(half_len);
 
         self.half_dht.process_with_scratch(buffer_evens, scratch);
-        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, &mut []);
+
+        let (scratch, inner_scratch) = scratch.split_at_mut(half_len);
+        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, inner_scratch);
         
         let (scratch_quarter1, scratch_quarter3) = scratch.split_at_mut(quarter_len);
 
@@ -137,7 +156,7 @@ impl<T: FftNum> SplitRadix<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         self.apply_twiddles(input);
         
@@ -146,8 +165,13 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = input.split_at_mut(half_len);
         
-        self.half_dht.process_with_scratch(buffer_evens, output);
-        self.quarter_dht.process_with_scratch(buffer_odds, output);
+        let inner_scratch = if scratch.len() > output.len() {
+            &mut scratch[..]
+        } else {
+            &mut output[..]
+        };
+        self.half_dht.process_with_scratch(buffer_evens, inner_scratch);
+        self.quarter_dht.process_with_scratch(buffer_odds, inner_scratch);
 
         let (buffer_quarter1, buffer_quarter3) = buffer_odds.split_at_mut(quarter_len);
 
-- 
2.43.0


From b046b26060e18a80df277cdb28f316c2e40b8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:55 +0000
Subject: [PATCH 6/6] fix: Butterfly1 accepted empty buffers

---
 src/scalar/butterflies.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scalar/butterflies.rs b/src/scalar/butterflies.rs
index baf16a3..2a4f8d0 100644
--- a/src/scalar/butterflies.rs
+++ b/src/scalar/butterflies.rs
@@ -105,10 +105,19 @@ impl<T: FftNum> Dht<T> for Butterfly1<T> {
         output: &mut [T],
         _scratch: &mut [T],
     ) {
+        if input.len() < self.len() || output.len() != input.len() {
+            dht_error_outofplace(self.len(), input.len(), output.len(), 0, 0);
+            return; // Unreachable, because dht_error_outofplace asserts
+        }
+
         output.copy_from_slice(&input);
     }
 
-    fn process_with_scratch(&self, _buffer: &mut [T], _scratch: &mut [T]) {}
+    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
+        if buffer.len() < self.len() {
+            dht_error_inplace(self.len(), buffer.len(), 0, 0);
+        }
+    }
     fn get_inplace_scratch_len(&self) -> usize { 0 }
     fn get_outofplace_scratch_len(&self) -> usize { 0 }
 }
-- 
2.43.0

