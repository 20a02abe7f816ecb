From 1bf163753f021a05ca3b1f3c387897574ac245f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 1/6] fix: Dst1ConvertToFft must zero its padding entries
 instead of reading old scratch contents

---
 src/algorithm/type1_convert_to_fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/type1_convert_to_fft.rs b/src/algorithm/type1_convert_to_fft.rs
index 6e5f9a5..83b6142 100644
--- a/src/algorithm/type1_convert_to_fft.rs
+++ b/src/algorithm/type1_convert_to_fft.rs
@@ -1,6 +1,7 @@
 use std::sync::Arc;
 
 use rustfft::num_complex::Complex;
+use rustfft::num_traits::Zero;
 use rustfft::FftDirection;
 use rustfft::{Fft, Length};
 
@@ -169,11 +170,13 @@ impl<T: DctNum> Dst1<T> for Dst1ConvertToFft<T> {
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
         // the first half of the FFT input will be a 0, followed by the input array
+        fft_buffer[0] = Complex::zero();
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
             *fft_cell = Complex::from(input_val);
         }
 
         // the second half of the FFT input will be a 0, followed by the input array, reversed and negated
+        fft_buffer[self.len() + 1] = Complex::zero();
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().rev()) {
             *fft_cell = Complex::from(-*input_val);
         }
-- 
2.43.0


From 32ec981c49f18c840a6936b9ce35beb34744f721 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 2/6] fix: Dst6And7ConvertToFft::process_dst6 must clear its
 FFT input instead of reading old scratch contents

---
 src/algorithm/type6and7_convert_to_fft.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c630774..c045d1a 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -1,6 +1,7 @@
 use std::sync::Arc;
 
 use rustfft::num_complex::Complex;
+use rustfft::num_traits::Zero;
 use rustfft::{Fft, FftDirection, Length};
 
 use crate::common::dct_error_inplace;
@@ -65,7 +66,10 @@ impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
-        // Copy the buffer to the odd imaginary components of the FFT inputs
+        // Copy the buffer to the odd imaginary components of the FFT inputs. All other components are zero
+        for fft_cell in fft_buffer.iter_mut() {
+            *fft_cell = Complex::zero();
+        }
         for i in 0..buffer.len() {
             fft_buffer[i * 2 + 1].im = buffer[i];
         }
-- 
2.43.0


From 4510f15db20911c2884bc10be7c412cf378f29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 3/6] fix: Dst6And7ConvertToFft::process_dst7 must zero the
 first FFT input instead of reading old scratch contents

---
 src/algorithm/type6and7_convert_to_fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c045d1a..47774e4 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -99,6 +99,9 @@ impl<T: DctNum> Dst7<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // The first element of the FFT input is always zero
+        fft_buffer[0] = Complex::zero();
+
         // Copy all the even-indexed elements to the back of the FFT buffer array
         let even_count = (buffer.len() + 1) / 2;
         for i in 0..even_count {
-- 
2.43.0


From 6b4c2ce30e421ca293442a344f999dfc131c8e5d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 4/6] fix: Type2And3SplitRadix must provide enough scratch for
 inner DCTs that need more than the buffer

---
 src/algorithm/type2and3_splitradix.rs | 47 ++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 62ce78b..195ead7 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -32,6 +32,7 @@ pub struct Type2And3SplitRadix<T> {
     half_dct: Arc<dyn TransformType2And3<T>>,
     quarter_dct: Arc<dyn TransformType2And3<T>>,
     twiddles: Box<[Complex<T>]>,
+    scratch_len: usize,
 }
 
 impl<T: DctNum> Type2And3SplitRadix<T> {
@@ -56,10 +57,21 @@ impl<T: DctNum> Type2And3SplitRadix<T> {
             .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
             .collect();
 
+        // The inner DCTs use the caller's buffer as scratch space, unless one of them needs more than that
+        let inner_scratch = half_dct
+            .get_scratch_len()
+            .max(quarter_dct.get_scratch_len());
+        let scratch_len = if inner_scratch <= len {
+            len
+        } else {
+            len + inner_scratch
+        };
+
         Self {
             half_dct: half_dct,
             quarter_dct: quarter_dct,
             twiddles: twiddles.into_boxed_slice(),
+            scratch_len,
         }
     }
 }
@@ -73,7 +85,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         //preprocess the data by splitting it up into vectors of size n/2, n/4, and n/4
-        let (input_dct2, input_dct4) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (input_dct2, input_dct4) = self_scratch.split_at_mut(half_len);
         let (input_dct4_even, input_dct4_odd) = input_dct4.split_at_mut(quarter_len);
 
         for i in 0..quarter_len {
@@ -103,12 +116,18 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
             
         }
 
-        // compute the recursive DCT2s, using the original buffer as scratch space
-        self.half_dct.process_dct2_with_scratch(input_dct2, buffer);
+        // compute the recursive DCT2s, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
+        self.half_dct
+            .process_dct2_with_scratch(input_dct2, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_even, buffer);
+            .process_dct2_with_scratch(input_dct4_even, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_odd, buffer);
+            .process_dct2_with_scratch(input_dct4_odd, inner_scratch);
 
         unsafe {
             //post process the 3 DCT2 outputs. the first few and the last will be done outside of the loop
@@ -155,7 +174,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         // divide the output into 3 sub-lists to use for our inner DCTs, one of size N/2 and two of size N/4
-        let (recursive_input_evens, recursive_input_odds) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (recursive_input_evens, recursive_input_odds) = self_scratch.split_at_mut(half_len);
         let (recursive_input_n1, recursive_input_n3) =
             recursive_input_odds.split_at_mut(quarter_len);
 
@@ -183,13 +203,18 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
             }
         }
 
-        //perform our recursive DCTs, using the original buffer as scratch space
+        //perform our recursive DCTs, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
         self.half_dct
-            .process_dct3_with_scratch(recursive_input_evens, buffer);
+            .process_dct3_with_scratch(recursive_input_evens, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n1, buffer);
+            .process_dct3_with_scratch(recursive_input_n1, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n3, buffer);
+            .process_dct3_with_scratch(recursive_input_n3, inner_scratch);
 
         //merge the results. we're going to combine 2 separate things:
         // - merging the two smaller DCT3 outputs into a DCT4 output
@@ -240,7 +265,7 @@ impl<T> Length for Type2And3SplitRadix<T> {
 }
 impl<T> RequiredScratch for Type2And3SplitRadix<T> {
     fn get_scratch_len(&self) -> usize {
-        self.len()
+        self.scratch_len
     }
 }
 
-- 
2.43.0


From 1bd53b34f204fa565892011e1af0f72d1fffceed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 5/6] fix: Type2And3SplitRadix DST2 and DST3 must validate
 their buffers before modifying them

---
 src/algorithm/type2and3_splitradix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 195ead7..7f78dc2 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -156,6 +156,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
 }
 impl<T: DctNum> Dst2<T> for Type2And3SplitRadix<T> {
     fn process_dst2_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
+
         for i in 0..(self.len() / 2) {
             buffer[2 * i + 1] = buffer[2 * i + 1].neg();
         }
@@ -248,6 +250,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
 }
 impl<T: DctNum> Dst3<T> for Type2And3SplitRadix<T> {
     fn process_dst3_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
+
         buffer.reverse();
 
         self.process_dct3_with_scratch(buffer, scratch);
-- 
2.43.0


From 897d302cca2431457ca8268d624d141141db112a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 6/6] fix: plan_mdct must not return an instance planned with a
 different window

---
 src/plan.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/plan.rs b/src/plan.rs
index addb08a..4b1febf 100644
--- a/src/plan.rs
+++ b/src/plan.rs
@@ -54,7 +54,8 @@ pub struct DctPlanner<T: DctNum> {
     dct8_cache: HashMap<usize, Arc<dyn Dct8<T>>>,
     dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
 
-    mdct_cache: HashMap<usize, Arc<dyn Mdct<T>>>,
+    // MDCT instances depend on their window too, so each length has a list of (window, instance) pairs
+    mdct_cache: HashMap<usize, Vec<(Vec<T>, Arc<dyn Mdct<T>>)>>,
 }
 impl<T: DctNum> DctPlanner<T> {
     pub fn new() -> Self {
@@ -336,11 +337,20 @@ impl<T: DctNum> DctPlanner<T> {
     where
         F: (FnOnce(usize) -> Vec<T>),
     {
-        if self.mdct_cache.contains_key(&len) {
-            Arc::clone(self.mdct_cache.get(&len).unwrap())
+        let window = window_fn(len * 2);
+        let cached = self
+            .mdct_cache
+            .get(&len)
+            .and_then(|entries| entries.iter().find(|(w, _)| *w == window));
+
+        if let Some((_, mdct)) = cached {
+            Arc::clone(mdct)
         } else {
-            let result = self.plan_new_mdct(len, window_fn);
-            self.mdct_cache.insert(len, Arc::clone(&result));
+            let result = self.plan_new_mdct(len, |_| window.clone());
+            self.mdct_cache
+                .entry(len)
+                .or_insert_with(Vec::new)
+                .push((window, Arc::clone(&result)));
             result
         }
     }
-- 
2.43.0

