From 2eacfa680be47437e1598e108da4cb691be21540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 1/5] fix: DST1 via FFT read two cells of caller scratch it
 never wrote

The FFT input starts with a zero and has another one in the middle, but
neither was ever stored, so a dirty scratch buffer changed the result.
---
 src/algorithm/type1_convert_to_fft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/type1_convert_to_fft.rs b/src/algorithm/type1_convert_to_fft.rs
index 6e5f9a5..49de35b 100644
--- a/src/algorithm/type1_convert_to_fft.rs
+++ b/src/algorithm/type1_convert_to_fft.rs
@@ -168,6 +168,10 @@ impl<T: DctNum> Dst1<T> for Dst1ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // the scratch may contain anything, so the two zeroes have to be written explicitly
+        fft_buffer[0] = Complex::from(T::zero());
+        fft_buffer[self.len + 1] = Complex::from(T::zero());
+
         // the first half of the FFT input will be a 0, followed by the input array
         for (input_val, fft_cell) in buffer.iter().zip(fft_buffer.iter_mut().skip(1)) {
             *fft_cell = Complex::from(input_val);
-- 
2.43.0


From 68d67c8bc1ca4739c61aad95a0c0343bbd7b6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 2/5] fix: DST6/DST7 via FFT read cells of caller scratch they
 never wrote

DST6 only stored the imaginary part of the odd FFT inputs, and DST7 never
stored the first one, so a dirty scratch buffer changed the result.
---
 src/algorithm/type6and7_convert_to_fft.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/type6and7_convert_to_fft.rs b/src/algorithm/type6and7_convert_to_fft.rs
index c630774..440a967 100644
--- a/src/algorithm/type6and7_convert_to_fft.rs
+++ b/src/algorithm/type6and7_convert_to_fft.rs
@@ -65,7 +65,10 @@ impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
-        // Copy the buffer to the odd imaginary components of the FFT inputs
+        // Copy the buffer to the odd imaginary components of the FFT inputs. Everything else is zero
+        for fft_cell in fft_buffer.iter_mut() {
+            *fft_cell = Complex::from(T::zero());
+        }
         for i in 0..buffer.len() {
             fft_buffer[i * 2 + 1].im = buffer[i];
         }
@@ -95,6 +98,9 @@ impl<T: DctNum> Dst7<T> for Dst6And7ConvertToFft<T> {
         let complex_scratch = into_complex_mut(scratch);
         let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);
 
+        // The first element of the FFT input is zero
+        fft_buffer[0] = Complex::from(T::zero());
+
         // Copy all the even-indexed elements to the back of the FFT buffer array
         let even_count = (buffer.len() + 1) / 2;
         for i in 0..even_count {
-- 
2.43.0


From 643c1b07b1b7560ba15df8dd344192552aa10980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 3/5] fix: split radix DCT2/3 panicked over inner DCTs needing
 more scratch than its length

The caller's buffer was always handed to the inner DCTs as scratch, even
when they advertise more scratch than it holds (for example an FFT based
DCT2 of size 128 as the half length). Ask for extra scratch in that case,
the way the type 4 via type 3 algorithm does.
---
 src/algorithm/type2and3_splitradix.rs | 48 +++++++++++++++++++++------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index 62ce78b..c373118 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -32,6 +32,7 @@ pub struct Type2And3SplitRadix<T> {
     half_dct: Arc<dyn TransformType2And3<T>>,
     quarter_dct: Arc<dyn TransformType2And3<T>>,
     twiddles: Box<[Complex<T>]>,
+    scratch_len: usize,
 }
 
 impl<T: DctNum> Type2And3SplitRadix<T> {
@@ -56,7 +57,19 @@ impl<T: DctNum> Type2And3SplitRadix<T> {
             .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
             .collect();
 
+        // the inner DCTs use the caller's buffer as scratch, unless they need more scratch than that
+        let inner_scratch = std::cmp::max(
+            half_dct.get_scratch_len(),
+            quarter_dct.get_scratch_len(),
+        );
+        let scratch_len = if inner_scratch <= len {
+            len
+        } else {
+            len + inner_scratch
+        };
+
         Self {
+            scratch_len,
             half_dct: half_dct,
             quarter_dct: quarter_dct,
             twiddles: twiddles.into_boxed_slice(),
@@ -73,7 +86,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         //preprocess the data by splitting it up into vectors of size n/2, n/4, and n/4
-        let (input_dct2, input_dct4) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (input_dct2, input_dct4) = self_scratch.split_at_mut(half_len);
         let (input_dct4_even, input_dct4_odd) = input_dct4.split_at_mut(quarter_len);
 
         for i in 0..quarter_len {
@@ -103,12 +117,18 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
             
         }
 
-        // compute the recursive DCT2s, using the original buffer as scratch space
-        self.half_dct.process_dct2_with_scratch(input_dct2, buffer);
+        // compute the recursive DCT2s, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
+        self.half_dct
+            .process_dct2_with_scratch(input_dct2, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_even, buffer);
+            .process_dct2_with_scratch(input_dct4_even, inner_scratch);
         self.quarter_dct
-            .process_dct2_with_scratch(input_dct4_odd, buffer);
+            .process_dct2_with_scratch(input_dct4_odd, inner_scratch);
 
         unsafe {
             //post process the 3 DCT2 outputs. the first few and the last will be done outside of the loop
@@ -155,7 +175,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
         let quarter_len = len / 4;
 
         // divide the output into 3 sub-lists to use for our inner DCTs, one of size N/2 and two of size N/4
-        let (recursive_input_evens, recursive_input_odds) = scratch.split_at_mut(half_len);
+        let (self_scratch, extra_scratch) = scratch.split_at_mut(len);
+        let (recursive_input_evens, recursive_input_odds) = self_scratch.split_at_mut(half_len);
         let (recursive_input_n1, recursive_input_n3) =
             recursive_input_odds.split_at_mut(quarter_len);
 
@@ -183,13 +204,18 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
             }
         }
 
-        //perform our recursive DCTs, using the original buffer as scratch space
+        //perform our recursive DCTs, using the original buffer as scratch space if it's big enough
+        let inner_scratch = if extra_scratch.len() > 0 {
+            extra_scratch
+        } else {
+            &mut buffer[..]
+        };
         self.half_dct
-            .process_dct3_with_scratch(recursive_input_evens, buffer);
+            .process_dct3_with_scratch(recursive_input_evens, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n1, buffer);
+            .process_dct3_with_scratch(recursive_input_n1, inner_scratch);
         self.quarter_dct
-            .process_dct3_with_scratch(recursive_input_n3, buffer);
+            .process_dct3_with_scratch(recursive_input_n3, inner_scratch);
 
         //merge the results. we're going to combine 2 separate things:
         // - merging the two smaller DCT3 outputs into a DCT4 output
@@ -240,7 +266,7 @@ impl<T> Length for Type2And3SplitRadix<T> {
 }
 impl<T> RequiredScratch for Type2And3SplitRadix<T> {
     fn get_scratch_len(&self) -> usize {
-        self.len()
+        self.scratch_len
     }
 }
 
-- 
2.43.0


From 5c0651a2a945e0cbf2f2cab3e693c51e65811e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 4/5] fix: split radix DST2/3 modified the buffer before
 rejecting it

The sign flips and reversal were applied before the lengths were
validated, so a rejected call left the caller's signal changed.
---
 src/algorithm/type2and3_splitradix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/type2and3_splitradix.rs b/src/algorithm/type2and3_splitradix.rs
index c373118..09b4bb4 100644
--- a/src/algorithm/type2and3_splitradix.rs
+++ b/src/algorithm/type2and3_splitradix.rs
@@ -157,6 +157,8 @@ impl<T: DctNum> Dct2<T> for Type2And3SplitRadix<T> {
 }
 impl<T: DctNum> Dst2<T> for Type2And3SplitRadix<T> {
     fn process_dst2_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
+
         for i in 0..(self.len() / 2) {
             buffer[2 * i + 1] = buffer[2 * i + 1].neg();
         }
@@ -249,6 +251,8 @@ impl<T: DctNum> Dct3<T> for Type2And3SplitRadix<T> {
 }
 impl<T: DctNum> Dst3<T> for Type2And3SplitRadix<T> {
     fn process_dst3_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
+
         buffer.reverse();
 
         self.process_dct3_with_scratch(buffer, scratch);
-- 
2.43.0


From a299cf130c87b065e97c07229b9c41faf26620c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 5/5] fix: plan_mdct returned an instance with an earlier
 call's window

The planner cached MDCT instances by length alone, so planning the same
length with a different window function silently returned the first window.
---
 src/plan.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/plan.rs b/src/plan.rs
index addb08a..51fd865 100644
--- a/src/plan.rs
+++ b/src/plan.rs
@@ -53,8 +53,6 @@ pub struct DctPlanner<T: DctNum> {
     dst6_cache: HashMap<usize, Arc<dyn Dst6And7<T>>>,
     dct8_cache: HashMap<usize, Arc<dyn Dct8<T>>>,
     dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
-
-    mdct_cache: HashMap<usize, Arc<dyn Mdct<T>>>,
 }
 impl<T: DctNum> DctPlanner<T> {
     pub fn new() -> Self {
@@ -70,7 +68,6 @@ impl<T: DctNum> DctPlanner<T> {
             dst6_cache: HashMap::new(),
             dct8_cache: HashMap::new(),
             dst8_cache: HashMap::new(),
-            mdct_cache: HashMap::new(),
         }
     }
 
@@ -336,13 +333,8 @@ impl<T: DctNum> DctPlanner<T> {
     where
         F: (FnOnce(usize) -> Vec<T>),
     {
-        if self.mdct_cache.contains_key(&len) {
-            Arc::clone(self.mdct_cache.get(&len).unwrap())
-        } else {
-            let result = self.plan_new_mdct(len, window_fn);
-            self.mdct_cache.insert(len, Arc::clone(&result));
-            result
-        }
+        // the result depends on the window as well as the length, so only the inner DCT4 can be shared between calls
+        self.plan_new_mdct(len, window_fn)
     }
 
     fn plan_new_mdct<F>(&mut self, len: usize, window_fn: F) -> Arc<dyn Mdct<T>>
-- 
2.43.0

