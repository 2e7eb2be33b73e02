From f602b3a727dd3bbe077c368e3a1a5634e3f03d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 1/5] fix: DST1 via FFT must not read stale scratch contents

Cells 0 and len + 1 of the inner FFT's input were never written, so the
result depended on whatever the caller's scratch contained.
---
 src/algorithm/type1_convert_to_fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algorithm/type1_convert_to_fft.rs b/src/algorithm/type1_convert_to_fft.rs
index 6e5f9a5..cc06619 100644
--- a/src/algorithm/type1_convert_to_fft.rs
+++ b/src/algorithm/type1_convert_to_fft.rs
@@ -169,11 +169,13 @@ impl<T: DctNum> Dst1<T> for Dst1ConvertToFft<T> {
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
         // the first half of the FFT input will be a 0, followed by the input array
+        fft_buffer[0] = Complex::from(T::zero());
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
             *fft_cell = Complex::from(input_val);
         }
 
         // the second half of the FFT input will be a 0, followed by the input array, reversed and negated
+        fft_buffer[self.len() + 1] = Complex::from(T::zero());
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().rev()) {
             *fft_cell = Complex::from(-*input_val);
         }
-- 
2.43.0


From f211cc5fcd87051ddbf937311a86187ff815c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 2/5] fix: DST6 and DST7 via FFT must not read stale scratch
 contents

Some of the inner FFT's inputs were never written, so the result depended
on whatever the caller's scratch contained.
---
 src/algorithm/type6and7_convert_to_fft.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c630774..12b8692 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -65,7 +65,10 @@ impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
-        // Copy the buffer to the odd imaginary components of the FFT inputs
+        // Copy the buffer to the odd imaginary components of the FFT inputs. All other components are 0
+        for fft_cell in fft_buffer.iter_mut() {
+            *fft_cell = Complex::from(T::zero());
+        }
         for i in 0..buffer.len() {
             fft_buffer[i * 2 + 1].im = buffer[i];
         }
@@ -95,6 +98,9 @@ impl<T: DctNum> Dst7<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // The first FFT input is always 0
+        fft_buffer[0] = Complex::from(T::zero());
+
         // Copy all the even-indexed elements to the back of the FFT buffer array
         let even_count = (buffer.len() + 1) / 2;
         for i in 0..even_count {
-- 
2.43.0


From 6dc7b16daa9807e933ff0d1f4cbf442afeb1a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 3/5] fix: split radix DST2 and DST3 must validate before
 changing the buffer

With scratch that was too short the call was refused only after the
caller's buffer had been negated or reversed.
---
 src/algorithm/type2and3_splitradix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 62ce78b..c83498c 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -137,6 +137,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
 }
 impl<T: DctNum> Dst2<T> for Type2And3SplitRadix<T> {
     fn process_dst2_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
+
         for i in 0..(self.len() / 2) {
             buffer[2 * i + 1] = buffer[2 * i + 1].neg();
         }
@@ -223,6 +225,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
 }
 impl<T: DctNum> Dst3<T> for Type2And3SplitRadix<T> {
     fn process_dst3_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
+
         buffer.reverse();
 
         self.process_dct3_with_scratch(buffer, scratch);
-- 
2.43.0


From 972c4e244d78f90c320d45199f6e1b8964277081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 4/5] fix: split radix DCTs must ask for the scratch their
 inner DCTs need

Inner DCTs that need more scratch than the outer buffer's length made every
call panic, even with the advertised scratch length.
---
 src/algorithm/type2and3_splitradix.rs | 41 +++++++++++++++++++++------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index c83498c..342b2f7 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -32,6 +32,7 @@ pub struct Type2And3SplitRadix<T> {
     half_dct: Arc<dyn TransformType2And3<T>>,
     quarter_dct: Arc<dyn TransformType2And3<T>>,
     twiddles: Box<[Complex<T>]>,
+    scratch_len: usize,
 }
 
 impl<T: DctNum> Type2And3SplitRadix<T> {
@@ -56,10 +57,19 @@ impl<T: DctNum> Type2And3SplitRadix<T> {
             .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
             .collect();
 
+        // the inner DCTs use our buffer as scratch space, unless one of them needs more than that
+        let inner_scratch = std::cmp::max(half_dct.get_scratch_len(), quarter_dct.get_scratch_len());
+        let scratch_len = if inner_scratch <= len {
+            len
+        } else {
+            len + inner_scratch
+        };
+
         Self {
             half_dct: half_dct,
             quarter_dct: quarter_dct,
             twiddles: twiddles.into_boxed_slice(),
+            scratch_len,
         }
     }
 }
@@ -73,6 +83,7 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         //preprocess the data by splitting it up into vectors of size n/2, n/4, and n/4
+        let (scratch, extra_scratch) = scratch.split_at_mut(len);
         let (input_dct2, input_dct4) = scratch.split_at_mut(half_len);
         let (input_dct4_even, input_dct4_odd) = input_dct4.split_at_mut(quarter_len);
 
@@ -103,12 +114,18 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
             
         }
 
-        // compute the recursive DCT2s, using the original buffer as scratch space
-        self.half_dct.process_dct2_with_scratch(input_dct2, buffer);
+        // compute the recursive DCT2s, using the original buffer as scratch space if it is big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
+        self.half_dct
+            .process_dct2_with_scratch(input_dct2, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_even, buffer);
+            .process_dct2_with_scratch(input_dct4_even, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_odd, buffer);
+            .process_dct2_with_scratch(input_dct4_odd, inner_scratch);
 
         unsafe {
             //post process the 3 DCT2 outputs. the first few and the last will be done outside of the loop
@@ -157,6 +174,7 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         // divide the output into 3 sub-lists to use for our inner DCTs, one of size N/2 and two of size N/4
+        let (scratch, extra_scratch) = scratch.split_at_mut(len);
         let (recursive_input_evens, recursive_input_odds) = scratch.split_at_mut(half_len);
         let (recursive_input_n1, recursive_input_n3) =
             recursive_input_odds.split_at_mut(quarter_len);
@@ -185,13 +203,18 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
             }
         }
 
-        //perform our recursive DCTs, using the original buffer as scratch space
+        //perform our recursive DCTs, using the original buffer as scratch space if it is big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
         self.half_dct
-            .process_dct3_with_scratch(recursive_input_evens, buffer);
+            .process_dct3_with_scratch(recursive_input_evens, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n1, buffer);
+            .process_dct3_with_scratch(recursive_input_n1, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n3, buffer);
+            .process_dct3_with_scratch(recursive_input_n3, inner_scratch);
 
         //merge the results. we're going to combine 2 separate things:
         // - merging the two smaller DCT3 outputs into a DCT4 output
@@ -244,7 +267,7 @@ impl<T> Length for Type2And3SplitRadix<T> {
 }
 impl<T> RequiredScratch for Type2And3SplitRadix<T> {
     fn get_scratch_len(&self) -> usize {
-        self.len()
+        self.scratch_len
     }
 }
 
-- 
2.43.0


From ce7600d289f2eae720daba7e24e13257fa7a7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 5/5] fix: plan_mdct must not return an instance with an
 earlier call's window

The cache was keyed by length only, so planning the same length with a
second window function silently returned the first window's instance.
---
 src/plan.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/plan.rs b/src/plan.rs
index addb08a..41c3174 100644
--- a/src/plan.rs
+++ b/src/plan.rs
@@ -53,8 +53,6 @@ pub struct DctPlanner<T: DctNum> {
     dst6_cache: HashMap<usize, Arc<dyn Dst6And7<T>>>,
     dct8_cache: HashMap<usize, Arc<dyn Dct8<T>>>,
     dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
-
-    mdct_cache: HashMap<usize, Arc<dyn Mdct<T>>>,
 }
 impl<T: DctNum> DctPlanner<T> {
     pub fn new() -> Self {
@@ -70,7 +68,6 @@ impl<T: DctNum> DctPlanner<T> {
             dst6_cache: HashMap::new(),
             dct8_cache: HashMap::new(),
             dst8_cache: HashMap::new(),
-            mdct_cache: HashMap::new(),
         }
     }
 
@@ -336,13 +333,9 @@ impl<T: DctNum> DctPlanner<T> {
     where
         F: (FnOnce(usize) -> Vec<T>),
     {
-        if self.mdct_cache.contains_key(&len) {
-            Arc::clone(self.mdct_cache.get(&len).unwrap())
-        } else {
-            let result = self.plan_new_mdct(len, window_fn);
-            self.mdct_cache.insert(len, Arc::clone(&result));
-            result
-        }
+        // The window is part of the instance, and different calls may provide different windows, so the MDCT instances
+        // themselves can't be re-used between calls. The inner DCT4s can.
+        self.plan_new_mdct(len, window_fn)
     }
 
     fn plan_new_mdct<F>(&mut self, len: usize, window_fn: F) -> Arc<dyn Mdct<T>>
-- 
2.43.0

