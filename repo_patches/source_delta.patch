From 590ef39e25a27fac3b8fd49a745a2cb0ca10eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 01/27] fix: compute compound complex multiplication from the
 original operand

`a *= b` overwrote the real part before it was used for the imaginary part,
so it disagreed with `a * b` whenever both operands had an imaginary part.
---
 src/math/cfloat/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..0b4c432 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,8 +212,7 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    *self = *self * rhs;
   }
 }
 
@@ -347,8 +346,7 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    *self = *self * rhs;
   }
 }
 
-- 
2.43.0


From 3790e61545bc0763fc730b89513bac3aef7e8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 02/27] fix: compute compound complex division from the
 original operand

`a /= b` overwrote the real part before it was used for the imaginary part,
so it disagreed with `a / b` whenever the divisor had an imaginary part.
---
 src/math/cfloat/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 0b4c432..c669e8c 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -218,12 +218,7 @@ impl MulAssign for Cf32 {
 
 impl DivAssign for Cf32 {
   fn div_assign(&mut self, rhs: Self) {
-    let den = rhs.x.powi(2) + rhs.y.powi(2);
-
-    if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
-
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    *self = *self / rhs;
   }
 }
 
@@ -352,12 +347,7 @@ impl MulAssign for Cf64 {
 
 impl DivAssign for Cf64 {
   fn div_assign(&mut self, rhs: Self) {
-    let den = rhs.x.powi(2) + rhs.y.powi(2);
-
-    if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
-
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    *self = *self / rhs;
   }
 }
 
-- 
2.43.0


From f516f2b183d58f7ec70661c586a748f0eee262f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 03/27] fix: divide the mean square loss by the number of
 features

The divisor was the last index instead of the element count. A single
feature gave an infinite or NaN loss, and n features were divided by n - 1.
---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From 51e6da93e149b49ed355266ba4708e37691c8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 04/27] fix: return the phase of a Cf64 in the right quadrant

`atan(y / x)` loses the quadrant for negative real parts and is NaN at zero.
Cf32 already used `atan2`.
---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From e654770600939bfd26f7b0bfcd131af97a11087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 05/27] fix: reject a one-hot index equal to the vector size

The bound check let `critical_index == size` through, which then panicked on
the out of bounds write instead of returning CriticalIndexOverflow.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..edd7654 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From af99fd554dff2c77b63d4684a94bea6b524fbd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 06/27] fix: keep the Box-Muller transform finite when the
 uniform draw is zero

The generator can return exactly 0, whose logarithm is infinite, so weights
and noisy samples could become infinite or NaN.
---
 src/dataset/mod.rs | 4 ++--
 src/math/mod.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..beeed97 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -286,7 +286,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -308,7 +308,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
diff --git a/src/math/mod.rs b/src/math/mod.rs
index edd7654..ebc3375 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From dcdae976666fea2ec45da1887e8a20b69beab5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 07/27] fix: reduce the seed before multiplying it

Seeds above roughly 2^98 overflowed the product. Reducing first gives the
same sequence for every seed that worked before.
---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..7f79ff2 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( *seed / ( (m-1) / limit ) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 85280c44854413dfc9f95021c7aa78fc3a88ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 08/27] fix: keep random indices below the limit

When the limit does not divide the modulus, the highest states were mapped to
`limit` itself instead of `limit - 1`.
---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 7f79ff2..c14412f 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed / ( (m-1) / limit ) ).min(limit - 1) as usize
 }
\ No newline at end of file
-- 
2.43.0


From baad6bfc4c3a928b9255e1338d9b6cd3c04ee95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 09/27] fix: accept columns of the right length that fit the
 capacity

Both guards of `add_col` were inverted: matching columns were rejected and
mismatched ones corrupted the matrix.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..e739610 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 206e383e4d98d6cbc4c37fd2f810e19aa737b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 10/27] fix: check the width of the first row flushed into a
 matrix

`add_mut_row` accepted a first row wider than the capacity, unlike `add_row`.
---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index e739610..7ee6827 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -206,7 +206,7 @@ impl<T> Matrix<T> {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1] || row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 00d15bc4677cdc0051f0014ae4b015cf0e367e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 11/27] fix: centre upsampled columns with the column block
 size

The horizontal offset was computed from the vertical block size, which
misplaced values or underflowed for non-square blocks.
---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 7ee6827..b4c0207 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -586,7 +586,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
-- 
2.43.0


From b2fda699f7fcb087cc2a16b9eb6f557ab6c60dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 12/27] fix: pad the upsampled matrix so that smoothing keeps
 its shape

The padding was only right for 3x3 kernels: it underflowed for 1x1 kernels and
changed the output shape for larger or non-square ones.
---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index b4c0207..0de7424 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -621,7 +621,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From 412f106f8b632ea5bd794a4ccdc278659bca19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 13/27] fix: iterate, print and export matrices without
 elements

A chunk size of zero panicked for empty matrices; they now simply have no rows.
---
 src/math/matrix/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 0de7424..e5e18c1 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -284,12 +284,12 @@ impl<T> Matrix<T> {
 
   /// Returns an iterator that goes through the rows of the matrix.
   pub fn rows_as_iter(&self) -> std::slice::Chunks<'_, T> {
-    self.body.chunks(self.shape[1])
+    self.body.chunks(self.shape[1].max(1))
   }
 
   /// Returns an iterator that goes through mutable rows of the matrix.
   pub fn rows_as_iter_mut(&mut self) -> std::slice::ChunksMut<'_, T> {
-    self.body.chunks_mut(self.shape[1])
+    self.body.chunks_mut(self.shape[1].max(1))
   }
 
   /// Returns the i-th slider of matrix with the number of rows of `rows`. 
@@ -311,7 +311,7 @@ impl<T> Matrix<T> {
 impl<T: Sync> Matrix<T> {
   /// Returns rows as parallel chunks with the help of rayon.
   pub fn rows_as_par_chunks(&self) -> rayon::slice::Chunks<'_, T> {
-    self.body.par_chunks(self.shape[1])
+    self.body.par_chunks(self.shape[1].max(1))
   }
 }
 
@@ -793,7 +793,7 @@ impl<T: Copy> SliceToMatrix<T> for [T] {
 impl<T: Debug> Display for Matrix<T> {
 
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    for elm in self.body.chunks(self.shape[1]) {
+    for elm in self.body.chunks(self.shape[1].max(1)) {
       writeln!(f, "{:?}", elm)?;
     }
 
@@ -805,7 +805,7 @@ impl<T: Display + Copy> Matrix<T> {
   pub fn to_csv(&self, path: String) -> std::io::Result<()> {
     let mut file = File::create(path)?;
     
-    let data_row_len = self.get_shape()[1];
+    let data_row_len = self.get_shape()[1].max(1);
     let data_chunks = self.get_body().chunks(data_row_len);
 
     for row in data_chunks {
-- 
2.43.0


From dd74b9aa1c163892f3a264a80ca8a2bbe7258427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 14/27] fix: report a missing input layer instead of panicking

Adding a hidden layer to an empty network now returns MissingInput.
---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..0f1b726 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -78,7 +78,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     /* also takes care of the shape and size respectively */
     /* still the user has to request a coherent amount of units (input, ouput shape) */
     /* the network will not initialize the layer based previous output */
-    let last_layer_out = self.layers.last().unwrap().get_output_shape();
+    let last_layer_out = self.get_output_shape()?;
     if last_layer_out != layer.get_input_shape() { return Err(LayerAdditionError::IncompatibleIO) }
 
     self.layers.push(layer);
-- 
2.43.0


From 3183cea15c1e83c6cfc177fd7ad66e51ec2d8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 15/27] fix: report an invalid index when intercepting an empty
 network

The bound check underflowed for a network without layers.
---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 0f1b726..525fab0 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -121,7 +121,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
-    if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
+    if index >= self.layers.len() { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
     let layers_iter = self.layers.iter();
-- 
2.43.0


From fc1c539366682d25c44b446ce49950d69dc38dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:07 +0000
Subject: [PATCH 16/27] fix: stop at the end of the image and label files

Reading past the last record kept adding points made of the stale buffers, so
a batch could contain images that are not in the files.
---
 src/dataset/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index beeed97..0a58ccd 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -119,8 +119,11 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      let image_bytes = data_file.read(image_buffer).unwrap();
+      let label_bytes = label_file.read(label_buffer).unwrap();
+      *tracker += label_bytes;
+      /* no more records to read */
+      if image_bytes < image_buffer.len() || label_bytes == 0 { break; }
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -154,8 +157,11 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      let image_bytes = data_file.read(image_buffer).unwrap();
+      let label_bytes = label_file.read(label_buffer).unwrap();
+      *tracker += label_bytes;
+      /* no more records to read */
+      if image_bytes < image_buffer.len() || label_bytes == 0 { break; }
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From e132ccfb3b771462e07b39df84227d21089bf6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:37 +0000
Subject: [PATCH 17/27] fix: correct the cardioid derivatives

The derivative of the phase with respect to the imaginary part had the wrong
sign and the Wirtinger operators miss the factor of one half. The plain and
conjugate derivatives came out swapped and doubled.
---
 src/act/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..11dfe2a 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -264,11 +264,11 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_card_cf64(val: Cf64) -> Cf64 {
@@ -292,11 +292,11 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf32(val: Cf32) -> Cf32 {
@@ -320,11 +320,11 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf64(val: Cf64) -> Cf64 {
@@ -348,11 +348,11 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 /* modz */
-- 
2.43.0


From 7c1ef50c68560aee4c2451f5eae82aa46b90f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:37 +0000
Subject: [PATCH 18/27] fix: propagate both Wirtinger terms through
 convolutional layers

The derivative passed to the previous layer only contained the holomorphic
term, and its conjugate only the conjugate term. With a non-holomorphic
activation every layer before a convolution received a wrong gradient.
---
 src/cvnn/layer/conv.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..a1197c6 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -213,7 +213,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let mut dldk = Vec::new();
         let mut dldb = Vec::new();
         let mut new_dlda = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
-        let mut new_dlda_conj = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
         let filters = self.kernels.rows_as_iter();
         filters.for_each(|filter| {
           /* collecting loss derivatives to matrices */
@@ -258,42 +257,32 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
             })
             .collect::<Vec<_>>();
           /* calculate loss derivative */
-          let dlda_padded = dlda_dadq_feat.clone().pad((padx, pady));
-          let dlda_conj_padded = dlda_conj_da_conj_dq_feat.clone().pad((padx, pady));
+          let mut dldq_feat = dlda_dadq_feat.clone();
+          dldq_feat.add_mut(&dlda_conj_da_conj_dq_feat).unwrap();
+          let dldq_padded = dldq_feat.pad((padx, pady));
 
           let oper_b = || {
-            let new_dlda_acc = fliped_filter
+            fliped_filter
               .iter()
               .flat_map(|flip_kernel| {
                 /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_padded
+                dldq_padded
                   .convolution(flip_kernel)
                   .unwrap()
                   .export_body()
-              }).collect::<Vec<_>>();
-            
-            let new_dlda_conj_acc = fliped_filter
-              .iter()
-              .flat_map(|flip_kernel| {
-                /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_conj_padded
-                  .convolution(flip_kernel)
-                  .unwrap()
-                  .export_body()
-              }).collect::<Vec<_>>();
-            
-            (new_dlda_acc, new_dlda_conj_acc)
+              }).collect::<Vec<_>>()
           };
 
           /* using rayon join might be a good addition in the future */
           /* be careful because if it is not, you can change in the future for a more memory efficient approach */
-          let ((dldk_filter, dldb_filter), (new_dlda_acc, new_dlda_conj_acc)) = (oper_a(), oper_b());
+          let ((dldk_filter, dldb_filter), new_dlda_acc) = (oper_a(), oper_b());
           dldk.extend(dldk_filter);
           dldb.push(dldb_filter.into_iter().reduce(|acc, elm| { acc + elm }).unwrap());
           new_dlda.add_slice_mut(&new_dlda_acc).unwrap();
-          new_dlda_conj.add_slice_mut(&new_dlda_conj_acc).unwrap();
         });
 
+        let new_dlda_conj = new_dlda.iter().map(|elm| { elm.conj() }).collect::<Vec<_>>();
+
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
       _ => { panic!("Something went terribily wrong.") }
-- 
2.43.0


From 9577ced11d1a10687aeb8fb07758d70990f0c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:37 +0000
Subject: [PATCH 19/27] fix: generate signals with an odd number of samples

Samples are corrupted in pairs, so the last one of an odd count panicked.
---
 src/dataset/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0a58ccd..fc2212c 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -284,7 +284,7 @@ impl Dataset<Cf32, Cf32> {
       // corrupt the signal with gausian noise
       let corrupted_signal = clean_signal.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -303,10 +303,10 @@ impl Dataset<Cf32, Cf32> {
         
         // corrupt point
         [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
-      }).collect::<Vec<_>>();
+      }).take(samples).collect::<Vec<_>>();
       let corrupted_signal_t = clean_signal_t.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -325,7 +325,7 @@ impl Dataset<Cf32, Cf32> {
 
         // corrupt point
         [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
-      }).collect::<Vec<_>>();
+      }).take(samples).collect::<Vec<_>>();
 
       // add to the dataset
       train_batch.add_point((IOType::Scalar(corrupted_signal), IOType::Scalar(clean_signal)));
-- 
2.43.0


From f99182fa2884b37b192d16c1376448667590bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:37 +0000
Subject: [PATCH 20/27] fix: keep the cross entropy loss finite for large
 predictions

The exponential of the squared modulus overflowed from about |z| = 9.4 in
single precision, and a zero softmax entry gave 0 * ln(0) = NaN.
---
 src/opt/mod.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 744a1d6..a429d69 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -95,19 +95,22 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
   // The real part should contain the one-hot-encoding
   let real_targ = targ.map(|elm| { elm.re() });
 
-  // Compute softmax of the prediction
-  let exp_map = pred
-    .map(|elm| { elm.norm_sq().exp() })
+  // Compute the logarithm of the softmax of the prediction
+  // (shifted by the maximum to keep the exponentials finite)
+  let norms = pred
+    .map(|elm| { elm.norm_sq() })
     .collect::<Vec<_>>();
-  let exp_sum = exp_map.iter()
-    .fold(0.0, |acc, elm| { acc + *elm });
+  let max = norms.iter()
+    .fold(0.0, |acc, elm| { if *elm > acc { *elm } else { acc } });
+  let log_sum = norms.iter()
+    .fold(0.0, |acc, elm| { acc + (*elm - max).exp() })
+    .ln();
 
   // Compute Cross entropy with the softmax values
   let loss = real_targ
-    .zip(exp_map)
-    .fold(0.0,|acc, (t, exp)| {
-      let s = exp / exp_sum;
-      acc - t * s.ln() 
+    .zip(norms)
+    .fold(0.0,|acc, (t, norm)| {
+      acc - t * (norm - max - log_sum)
     });
 
   loss
@@ -125,19 +128,22 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
   // The real part should contain the one-hot-encoding
   let real_targ = targ.map(|elm| { elm.re() });
 
-  // Compute softmax of the prediction
-  let exp_map = pred
-    .map(|elm| { elm.norm_sq().exp() })
+  // Compute the logarithm of the softmax of the prediction
+  // (shifted by the maximum to keep the exponentials finite)
+  let norms = pred
+    .map(|elm| { elm.norm_sq() })
     .collect::<Vec<_>>();
-  let exp_sum = exp_map.iter()
-    .fold(0.0, |acc, elm| { acc + *elm });
+  let max = norms.iter()
+    .fold(0.0, |acc, elm| { if *elm > acc { *elm } else { acc } });
+  let log_sum = norms.iter()
+    .fold(0.0, |acc, elm| { acc + (*elm - max).exp() })
+    .ln();
 
   // Compute Cross entropy with the softmax values
   let loss = real_targ
-    .zip(exp_map)
-    .fold(0.0,|acc, (t, exp)| {
-      let s = exp / exp_sum;
-      acc - t * s.ln() 
+    .zip(norms)
+    .fold(0.0,|acc, (t, norm)| {
+      acc - t * (norm - max - log_sum)
     });
 
   loss
-- 
2.43.0


From efd4dad7da7780c5356e8b8934f9aeafab7c37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:31 +0000
Subject: [PATCH 21/27] fix: draw the training noise from the training seed

The noise of the training signals came from the test seed, so the training
set changed with the test seed.
---
 src/dataset/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index fc2212c..58a8dc1 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -292,8 +292,8 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
-        let u2 = lcgf32(test_seed);
+        let u1 = lcgf32(train_seed).max(f32::MIN_POSITIVE);
+        let u2 = lcgf32(train_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
         let z2 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).sin() ) * noise2;
-- 
2.43.0


From 39b9958288071090f1d653488f4f52b4365da0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:14 +0000
Subject: [PATCH 22/27] fix: treat a convolutional layer without filters as
 uninitialised

Only layers without filters and channels were refused by the network. One
without filters but with channels was accepted and panicked on use.
---
 src/cvnn/layer/conv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a1197c6..a94af2d 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -20,7 +20,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
   /// 
   /// This function will soon be deleted.
   pub fn is_empty(&self) -> bool {
-    if self.kernels.get_shape() == &[0, 0] { true }
+    if self.kernels.get_body().len() == 0 { true }
     else { false }
   }
 
-- 
2.43.0


From 8ec48dd09d7e7c4cc8b9a71116234bd8aba1953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:36 +0000
Subject: [PATCH 23/27] fix: keep rows flushed into a matrix as wide as the
 rows it holds

---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index e5e18c1..d5b8229 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,7 +202,7 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || self.shape == [0, 0]) {
       return Err(UpdateError::InconsistentLength);
     }
     
-- 
2.43.0


From b6c7ca8e87a5c3c226b1533531fab0b464ff39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:36 +0000
Subject: [PATCH 24/27] fix: refuse a kernel larger than the matrix in the
 complex convolution

---
 src/math/matrix/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index d5b8229..e2756bb 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -632,10 +632,14 @@ impl<T: BasicOperations<T>> Matrix<T> {
 impl<T: Complex + BasicOperations<T>> Matrix<T> {
   /// Experimental attempt on complex convolution. Not suitable for usage.
   pub fn cconvolution(&self, kernel: &Self) -> Result<Self, OperationError> {
-    /* Error handling!! */
-
     let k_shape = kernel.get_shape();
     let initial_shape = self.get_shape();
+
+    // check is the kernel is to big
+    if k_shape[0] > initial_shape[0] || k_shape[1] > initial_shape[1] {
+      return Err(OperationError::InvalidRHS)
+    }
+
     let final_shape = [
       initial_shape[0] - (k_shape[0]-1), 
       initial_shape[1] - (k_shape[1]-1)
-- 
2.43.0


From 1aabb2da0bafb50c8c3277b64d1e975d1c3e0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:30 +0000
Subject: [PATCH 25/27] fix: return the cross entropy's own derivative

The derivative of the cross entropy loss was that of the squared error, so
training with it minimised a different function than the one reported.
---
 src/opt/mod.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index a429d69..e419e8c 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -118,8 +118,26 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a Cf32>>(targ: T1, pred: T2) -> Vec<Cf32> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf32(targ, pred)
+  // The real part should contain the one-hot-encoding
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter().sum::<f32>();
+
+  // Softmax of the prediction
+  // (shifted by the maximum to keep the exponentials finite)
+  let pred = pred.collect::<Vec<_>>();
+  let max = pred.iter()
+    .fold(0.0, |acc, elm| { let norm = elm.norm_sq(); if norm > acc { norm } else { acc } });
+  let exps = pred.iter()
+    .map(|elm| { (elm.norm_sq() - max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exps.iter().sum::<f32>();
+
+  real_targ.iter()
+    .zip(pred)
+    .zip(exps)
+    .map(|((t, p), exp)| {
+      p.conj() * Cf32::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// Real Cross Entropy Loss Function.
@@ -151,8 +169,26 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a Cf64>>(targ: T1, pred: T2) -> Vec<Cf64> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf64(targ, pred)
+  // The real part should contain the one-hot-encoding
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter().sum::<f64>();
+
+  // Softmax of the prediction
+  // (shifted by the maximum to keep the exponentials finite)
+  let pred = pred.collect::<Vec<_>>();
+  let max = pred.iter()
+    .fold(0.0, |acc, elm| { let norm = elm.norm_sq(); if norm > acc { norm } else { acc } });
+  let exps = pred.iter()
+    .map(|elm| { (elm.norm_sq() - max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exps.iter().sum::<f64>();
+
+  real_targ.iter()
+    .zip(pred)
+    .zip(exps)
+    .map(|((t, p), exp)| {
+      p.conj() * Cf64::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// List of possible loss function to use.
-- 
2.43.0


From 0253d3c59f48bee9f71d665c0c73c84c185871c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:16 +0000
Subject: [PATCH 26/27] fix: check the number of channels before looking at the
 maps

A convolutional layer that was given no maps, or the wrong number of maps
smaller than its kernels, panicked instead of returning an error.
---
 src/cvnn/layer/conv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a94af2d..d49bbd5 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -115,6 +115,9 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
       IOType::Matrix(input) => {
         let kernels_shape = self.kernels.get_shape();
         let channels = kernels_shape[1];
+        let input_features_len = input.len();
+        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
+
         let func = &self.func;
         /* it has to be the same for all */
         let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
@@ -122,9 +125,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-        let input_features_len = input.len();
-        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
-
         let output_features = self.kernels
           //.rows_as_par_chunks()
           .rows_as_iter()
-- 
2.43.0


From edc7110d7a1241985f52fe9979316652d318ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:45 +0000
Subject: [PATCH 27/27] fix: count only the image records that were delivered

---
 src/dataset/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 58a8dc1..167f479 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -121,9 +121,9 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     for _ in 0..batch_size {
       let image_bytes = data_file.read(image_buffer).unwrap();
       let label_bytes = label_file.read(label_buffer).unwrap();
-      *tracker += label_bytes;
       /* no more records to read */
       if image_bytes < image_buffer.len() || label_bytes == 0 { break; }
+      *tracker += label_bytes;
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -159,9 +159,9 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     for _ in 0..batch_size {
       let image_bytes = data_file.read(image_buffer).unwrap();
       let label_bytes = label_file.read(label_buffer).unwrap();
-      *tracker += label_bytes;
       /* no more records to read */
       if image_bytes < image_buffer.len() || label_bytes == 0 { break; }
+      *tracker += label_bytes;
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0

