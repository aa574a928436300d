From 8bbc1de46fa731b1639639058318af6cacb12d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 01/76] fix: read back exactly the elements a view's layout
 addresses

---
 crates/hodu_core/src/be_cpu/storage.rs |  5 ---
 crates/hodu_core/src/tensor/bytes.rs   | 11 ++----
 crates/hodu_core/src/tensor/vec.rs     | 49 +++-----------------------
 3 files changed, 7 insertions(+), 58 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 77fceee..71070bf 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -715,11 +715,6 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn contiguous(&self, layout: &Layout) -> HoduResult<Self> {
-        // If already contiguous with zero offset, just clone
-        if layout.is_contiguous() && layout.offset() == 0 {
-            return Ok(self.clone());
-        }
-
         let metadata = op_metadatas::contiguous_metadata(layout);
         let num_els = layout.size();
 
diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 5b7a18f..2ca390b 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -1,5 +1,5 @@
 use crate::{
-    be::storage::BackendStorage,
+    be::storage::{BackendStorage, BackendStorageT},
     be_cpu::storage::CpuStorage,
     error::{HoduError, HoduResult},
     tensor::{internal::from_storage_with_context, Tensor},
@@ -17,13 +17,8 @@ impl Tensor {
         let cpu_storage = self.with_storage(|storage| storage.to_cpu_storage())?;
         let layout = self.layout();
 
-        // Make contiguous if needed
-        let cpu_storage = if !layout.is_contiguous() {
-            let contiguous = self.contiguous()?;
-            contiguous.with_storage(|storage| storage.to_cpu_storage())?
-        } else {
-            cpu_storage
-        };
+        // Row-major copy of exactly the elements the layout addresses
+        let cpu_storage = cpu_storage.contiguous(&layout)?;
 
         Ok(storage_to_bytes(&cpu_storage))
     }
diff --git a/crates/hodu_core/src/tensor/vec.rs b/crates/hodu_core/src/tensor/vec.rs
index 8afbe36..816e059 100644
--- a/crates/hodu_core/src/tensor/vec.rs
+++ b/crates/hodu_core/src/tensor/vec.rs
@@ -310,19 +310,15 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     let target_dtype = get_dtype_for_type::<T>()
         .ok_or_else(|| HoduError::InternalError("Unsupported type for extraction".to_string()))?;
 
-    let cpu_storage = if cpu_storage.dtype() != target_dtype {
-        cpu_storage.to_dtype(layout, target_dtype)?
-    } else {
-        cpu_storage.clone()
-    };
+    // Row-major copy of exactly the elements the layout addresses
+    let cpu_storage = cpu_storage.to_dtype(layout, target_dtype)?;
 
-    let total_elements = layout.shape().dims().iter().copied().product::<usize>();
-    let mut result = Vec::with_capacity(total_elements);
+    let mut result: Vec<T> = Vec::with_capacity(layout.size());
 
     macro_rules! extract_storage {
         ($data:expr) => {
             if let Ok(typed_data) = try_cast_slice::<T, _>($data) {
-                extract_with_layout(&mut result, typed_data, layout);
+                result.extend_from_slice(typed_data);
             } else {
                 return Err(HoduError::InternalError(
                     "Type mismatch in extraction".to_string(),
@@ -366,43 +362,6 @@ fn try_cast_slice<T: 'static, U: 'static>(data: &[U]) -> Result<&[T], ()> {
     }
 }
 
-fn extract_with_layout<T: Clone>(result: &mut Vec<T>, data: &[T], layout: &Layout) {
-    let dims = layout.shape();
-    let strides = layout.strides();
-
-    if layout.is_contiguous() {
-        result.extend_from_slice(data);
-    } else {
-        let total_elements = dims.dims().iter().copied().product::<usize>();
-        let ndim = dims.ndim();
-        let mut indices = vec![0usize; ndim];
-
-        for _ in 0..total_elements {
-            let flat_idx = indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
-
-            if flat_idx < data.len() {
-                result.push(data[flat_idx].clone());
-            }
-
-            // Increment indices
-            let mut carry = 1;
-            for i in (0..ndim).rev() {
-                indices[i] += carry;
-                if indices[i] < dims.dims()[i] {
-                    carry = 0;
-                    break;
-                } else {
-                    indices[i] = 0;
-                }
-            }
-
-            if carry == 1 {
-                break;
-            }
-        }
-    }
-}
-
 fn get_dtype_for_type<T: 'static>() -> Option<DType> {
     let type_id = core::any::TypeId::of::<T>();
 
-- 
2.43.0


From 53e498920d4daa49cadd0c3b4d866fbf9b8f7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 02/76] fix: repeat tiles whole dimensions instead of
 interleaving elements

---
 crates/hodu_core/src/tensor/ops/shape.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 7e0dc97..a387b23 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -415,7 +415,7 @@ impl Tensor {
             });
         }
 
-        // Use tile operation: repeat each element before moving to next
+        // Use tile operation: repeat the whole dimension as a block
         // For each dimension, we expand then reshape
         let mut result = self.clone();
 
@@ -427,16 +427,16 @@ impl Tensor {
             let current_shape = result.shape();
             let current_dims = current_shape.dims();
 
-            // Add a new dimension after current dim and broadcast
+            // Add a new dimension before current dim and broadcast
             let mut expanded_shape = current_dims.to_vec();
-            expanded_shape.insert(dim_idx + 1, 1);
+            expanded_shape.insert(dim_idx, 1);
 
             // Reshape to add singleton dimension
             result = result.reshape(&expanded_shape)?;
 
             // Broadcast the singleton dimension
             let mut broadcast_shape = expanded_shape.clone();
-            broadcast_shape[dim_idx + 1] = repeat_count;
+            broadcast_shape[dim_idx] = repeat_count;
             result = result.broadcast(&broadcast_shape)?;
 
             // Reshape to merge the repeated dimension
-- 
2.43.0


From 779c32b3e9a6275e2dd008caf80017aad0cf544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 03/76] fix: slice with a negative step reverses the dimension

---
 crates/hodu_core/src/tensor/ops/shape.rs | 25 +++++++++++++++++++
 crates/hodu_core/src/types/layout.rs     | 31 +++++++++---------------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index a387b23..a6e16b8 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -474,6 +474,10 @@ impl Tensor {
         let step_scalar = step.into();
         let step_i32 = step_scalar.to_i32();
 
+        if step_i32 < 0 {
+            return self.slice_reversed(dim_i32, start_i32, end_i32, step_i32);
+        }
+
         let current_layout = self.layout();
         let new_layout = current_layout.slice(dim_i32, start_i32, end_i32, step_i32)?;
         let requires_grad = self.is_requires_grad();
@@ -523,4 +527,25 @@ impl Tensor {
             Ok(result)
         }
     }
+
+    // Strides are unsigned, so a negative step is a forward slice of the flipped tensor
+    fn slice_reversed(&self, dim: i32, start: i32, end: Option<i32>, step: i32) -> HoduResult<Self> {
+        let ndim = self.ndim();
+        let actual_dim = if dim < 0 { ndim as i32 + dim } else { dim };
+        if actual_dim < 0 || actual_dim as usize >= ndim {
+            return Err(HoduError::InvalidAxis { axis: dim, ndim });
+        }
+
+        let step = step
+            .checked_neg()
+            .ok_or_else(|| HoduError::InternalError("slice step is out of range".to_string()))?;
+        let dim_size = self.shape().dims()[actual_dim as usize] as i64;
+        let from_end = |index: i32| {
+            let index = if index < 0 { dim_size + index as i64 } else { index as i64 };
+            (dim_size - 1 - index.clamp(-1, dim_size - 1)) as i32
+        };
+
+        self.flip(&[actual_dim])?
+            .slice(actual_dim, from_end(start), end.map(from_end), step)
+    }
 }
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index e052ecd..af762ca 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -447,6 +447,13 @@ impl Layout {
             return Err(HoduError::InternalError("slice step cannot be zero".to_string()));
         }
 
+        // Strides are unsigned, so a layout cannot walk a dimension backwards
+        if step < 0 {
+            return Err(HoduError::InternalError(
+                "slice step cannot be negative for a layout".to_string(),
+            ));
+        }
+
         let dim_size = self.shape.dims()[actual_dim] as i32;
 
         // Normalize negative indices and handle None for end
@@ -459,32 +466,16 @@ impl Layout {
                     e
                 }
             },
-            None => {
-                if step > 0 {
-                    dim_size
-                } else {
-                    -1
-                }
-            },
+            None => dim_size,
         };
 
         // Clamp indices to valid range
         let clamped_start = start_idx.clamp(0, dim_size);
-        let clamped_end = if step > 0 {
-            end_idx.clamp(0, dim_size)
-        } else {
-            end_idx.clamp(-1, dim_size - 1)
-        };
+        let clamped_end = end_idx.clamp(0, dim_size);
 
         // Calculate new size for the dimension
-        let new_size = if step > 0 {
-            if clamped_end > clamped_start {
-                (clamped_end - clamped_start + step - 1) / step
-            } else {
-                0
-            }
-        } else if clamped_start > clamped_end {
-            (clamped_start - clamped_end + (-step) - 1) / (-step)
+        let new_size = if clamped_end > clamped_start {
+            (clamped_end - clamped_start - 1) / step + 1
         } else {
             0
         };
-- 
2.43.0


From 82e0a50025ae77de3f5ffae479c99e03a05b8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 04/76] fix: kernels honour the offset of a zero-dimensional
 view

---
 crates/hodu_cpu_kernels/kernels/ops_cast.c    |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_memory.c  |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 40 +++++++++----------
 .../ops_unary_blas_aarch64_apple_darwin.c     |  4 +-
 .../kernels/ops_unary_openblas.c              |  4 +-
 crates/hodu_cpu_kernels/kernels/storage.c     |  2 +-
 6 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_cast.c b/crates/hodu_cpu_kernels/kernels/ops_cast.c
index b09dcec..8bd98a8 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_cast.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_cast.c
@@ -59,7 +59,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_memory.c b/crates/hodu_cpu_kernels/kernels/ops_memory.c
index 529b53d..3c067fb 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_memory.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_memory.c
@@ -42,7 +42,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5fc7caa..71d51ac 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -70,7 +70,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -169,7 +169,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -241,7 +241,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -282,7 +282,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -324,7 +324,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -360,7 +360,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -395,7 +395,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -424,7 +424,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -454,7 +454,7 @@ void hodu_cpu_neg_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -502,7 +502,7 @@ void hodu_cpu_abs_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -553,7 +553,7 @@ void hodu_cpu_square_f32(const void *input, void *output, const size_t *metadata
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -602,7 +602,7 @@ void hodu_cpu_sqrt_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -653,7 +653,7 @@ void hodu_cpu_relu_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -758,7 +758,7 @@ void hodu_cpu_mul_scalar_f32_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -817,7 +817,7 @@ void hodu_cpu_neg_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -867,7 +867,7 @@ void hodu_cpu_abs_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -920,7 +920,7 @@ void hodu_cpu_square_f64(const void *input, void *output, const size_t *metadata
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -972,7 +972,7 @@ void hodu_cpu_sqrt_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1024,7 +1024,7 @@ void hodu_cpu_relu_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1124,7 +1124,7 @@ void hodu_cpu_mul_scalar_f64_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
index 34a88f0..54e5057 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 7138eab..2b034bc 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/storage.c b/crates/hodu_cpu_kernels/kernels/storage.c
index 75d860d..fa0da43 100644
--- a/crates/hodu_cpu_kernels/kernels/storage.c
+++ b/crates/hodu_cpu_kernels/kernels/storage.c
@@ -41,7 +41,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
-- 
2.43.0


From 02d3f8602ec65db28d761bae9271c9363ba76c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 05/76] fix: contiguous keeps the gradient of the tensor it
 copies

---
 crates/hodu_core/src/ops.rs                   |  2 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  1 +
 .../src/tensor/gradient/vjp_shape_memory.rs   | 17 +++++++++++-
 .../hodu_core/src/tensor/ops/cast_memory.rs   | 26 ++++++++++++++++---
 4 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index 287f3ea..fa77879 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -810,7 +810,7 @@ impl fmt::Debug for CastOp {
 #[derive(Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum MemoryOp {
-    Contiguous, // no-backprop
+    Contiguous,
 }
 
 impl fmt::Display for MemoryOp {
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 8d2b786..5b8707a 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -185,6 +185,7 @@ fn compute_vjp_for_op(
         Op::Shape(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeScalars(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeMemory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
+        Op::Memory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         _ => Err(HoduError::VjpFunctionNotFound(format!("compute_vjp for {:?}", op))),
     }
 }
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs
index f21e67f..348fbd2 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
     op_params::{FlipParams, OpParams},
-    ops::ShapeMemoryOp,
+    ops::{MemoryOp, ShapeMemoryOp},
     tensor::{tensor_from_id, TensorId},
 };
 
@@ -31,3 +31,18 @@ impl VjpCompute for ShapeMemoryOp {
         }
     }
 }
+
+impl VjpCompute for MemoryOp {
+    fn compute_vjp(
+        &self,
+        _inputs: &[TensorId],
+        _output: TensorId,
+        grad_output: TensorId,
+        _op_params: &OpParams,
+    ) -> HoduResult<Vec<TensorId>> {
+        match self {
+            // A contiguous copy holds the same elements, so the gradient passes through
+            MemoryOp::Contiguous => Ok(vec![grad_output]),
+        }
+    }
+}
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index db71308..674cd37 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -1,7 +1,7 @@
 use crate::{
     error::{HoduError, HoduResult},
     ops::{CastOp, ContiguousParams, MemoryOp, Op, OpParams, ToDTypeParams},
-    tensor::{create_builder_tensor, from_storage_with_context, Tensor},
+    tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Device, Layout},
     utils::valid::validate_dtype_for_device,
 };
@@ -58,9 +58,11 @@ impl Tensor {
             return Ok(self.clone());
         }
 
+        let requires_grad = self.is_requires_grad();
+
         if crate::snapshot::capture::is_active() {
             let result_layout = Layout::from_shape(&self.shape());
-            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
             crate::snapshot::capture::capture_operation(
                 Op::Memory(MemoryOp::Contiguous),
@@ -71,12 +73,30 @@ impl Tensor {
                 result_layout,
             )?;
 
+            if requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result_id,
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
+
             Ok(result_tensor)
         } else {
             let storage = self.with_storage(|storage| storage.contiguous(&self.layout()))?;
             let layout = Layout::from_shape(&self.shape());
 
-            let result = from_storage_with_context(storage, layout, true, false);
+            let result = from_storage_with_context(storage, layout, true, requires_grad);
+
+            if !gradient::is_computing_gradients() && requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result.id(),
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
 
             Ok(result)
         }
-- 
2.43.0


From e341ff48f6a6330cf3864f78ab11e298b873e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 06/76] fix: gradients of transpose and permute use the
 recorded axes, not the shapes

---
 crates/hodu_core/src/op_params.rs             |  9 +-
 .../src/tensor/gradient/vjp_shape.rs          | 85 +++++--------------
 crates/hodu_core/src/tensor/ops/shape.rs      | 18 +++-
 3 files changed, 40 insertions(+), 72 deletions(-)

diff --git a/crates/hodu_core/src/op_params.rs b/crates/hodu_core/src/op_params.rs
index ef8209c..12ecda8 100644
--- a/crates/hodu_core/src/op_params.rs
+++ b/crates/hodu_core/src/op_params.rs
@@ -481,11 +481,16 @@ pub struct BroadcastParams;
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct TransposeParams;
+pub struct TransposeParams {
+    pub dim1: Scalar,
+    pub dim2: Scalar,
+}
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct PermuteParams;
+pub struct PermuteParams {
+    pub axes: Vec<Scalar>,
+}
 
 // Shape Memory Operations
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index 3282c8b..b3a9508 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -1,7 +1,7 @@
 use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{OpParams, ShapeOp, ShapeScalarsOp, SliceParams},
+    ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
     tensor::{tensor_from_id, Tensor, TensorId},
 };
 
@@ -11,7 +11,7 @@ impl VjpCompute for ShapeOp {
         inputs: &[TensorId],
         _output: TensorId,
         grad_output: TensorId,
-        _op_params: &OpParams,
+        op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let input = inputs[0];
         let input_tensor = tensor_from_id(input);
@@ -69,77 +69,30 @@ impl VjpCompute for ShapeOp {
                 Ok(vec![final_grad.id()])
             },
             ShapeOp::Transpose => {
-                // Reverse the transpose by finding which dimensions were swapped
-                // Compare input and output shapes to determine the transpose dimensions
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for transpose".to_string(),
+                let OpParams::Transpose(TransposeParams { dim1, dim2 }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Transpose requires TransposeParams".to_string(),
                     ));
-                }
-
-                if input_shape.dims().len() < 2 {
-                    // For 0D or 1D tensors, transpose has no effect
-                    Ok(vec![grad_output])
-                } else {
-                    // Find which dimensions were swapped by comparing shapes
-                    let mut transpose_dims = None;
-
-                    // Check common case: last two dimensions transposed
-                    if input_shape.dims().len() >= 2 {
-                        let last_idx = input_shape.dims().len() - 1;
-                        let second_last_idx = input_shape.dims().len() - 2;
-
-                        if input_shape.dims()[last_idx] == grad_shape.dims()[second_last_idx]
-                            && input_shape.dims()[second_last_idx] == grad_shape.dims()[last_idx]
-                        {
-                            // Check if all other dimensions match
-                            let other_dims_match = input_shape.dims()[..second_last_idx]
-                                .iter()
-                                .zip(grad_shape.dims()[..second_last_idx].iter())
-                                .all(|(a, b)| a == b);
-
-                            if other_dims_match {
-                                transpose_dims = Some((second_last_idx as i32, last_idx as i32));
-                            }
-                        }
-                    }
+                };
 
-                    // If we couldn't determine the transpose dimensions, fall back to (-2, -1)
-                    let (dim1, dim2) = transpose_dims.unwrap_or((-2i32, -1i32));
-                    let transposed_grad = grad_tensor.transpose(dim1, dim2)?;
-                    Ok(vec![transposed_grad.id()])
-                }
+                // Swapping the same two dimensions again undoes the transpose
+                let transposed_grad = grad_tensor.transpose(*dim1, *dim2)?;
+                Ok(vec![transposed_grad.id()])
             },
             ShapeOp::Permute => {
-                // Reverse the permutation by finding the inverse permutation
-                // If forward permutation is [a, b, c], then inverse is such that inverse[forward[i]] = i
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for permute".to_string(),
+                let OpParams::Permute(PermuteParams { axes }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Permute requires PermuteParams".to_string(),
                     ));
-                }
-
-                let ndim = input_shape.dims().len();
-
-                // Find the forward permutation by comparing input and grad shapes
-                let mut forward_perm = vec![0; ndim];
-                for i in 0..ndim {
-                    for j in 0..ndim {
-                        if input_shape.dims()[i] == grad_shape.dims()[j] {
-                            // Check if this dimension is already used
-                            let already_used = forward_perm[..i].contains(&j);
-                            if !already_used {
-                                forward_perm[i] = j;
-                                break;
-                            }
-                        }
-                    }
-                }
+                };
 
-                // Compute inverse permutation
+                // If forward permutation is [a, b, c], then inverse is such that inverse[forward[i]] = i
+                let ndim = axes.len();
                 let mut inverse_perm = vec![0usize; ndim];
-                for (i, &p) in forward_perm.iter().enumerate() {
-                    inverse_perm[p] = i;
+                for (i, axis) in axes.iter().enumerate() {
+                    let axis = axis.to_i32();
+                    let axis = if axis < 0 { ndim as i32 + axis } else { axis };
+                    inverse_perm[axis as usize] = i;
                 }
 
                 // Apply inverse permutation to gradient
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index a6e16b8..76c4b73 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -324,7 +324,10 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_scalar,
+                        dim2: dim2_scalar,
+                    }),
                 )?;
             }
 
@@ -337,7 +340,10 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_scalar,
+                        dim2: dim2_scalar,
+                    }),
                 )?;
             }
 
@@ -384,7 +390,9 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams {
+                        axes: axes_i32.iter().map(|&axis| Scalar::from(axis)).collect(),
+                    }),
                 )?;
             }
 
@@ -397,7 +405,9 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams {
+                        axes: axes_i32.iter().map(|&axis| Scalar::from(axis)).collect(),
+                    }),
                 )?;
             }
 
-- 
2.43.0


From 701f09686fcb929713be08835edcbf73216de3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 07/76] fix: elementwise results are laid out contiguously,
 whatever the operand's layout

---
 crates/hodu_core/src/tensor/ops/binary.rs     | 15 ++++++---
 crates/hodu_core/src/tensor/ops/bitwise.rs    | 13 ++++----
 .../hodu_core/src/tensor/ops/cast_memory.rs   |  7 +++--
 crates/hodu_core/src/tensor/ops/cmp.rs        | 15 +++++----
 crates/hodu_core/src/tensor/ops/unary.rs      | 31 +++++++++----------
 5 files changed, 43 insertions(+), 38 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/binary.rs b/crates/hodu_core/src/tensor/ops/binary.rs
index 5265fb7..849bf1d 100644
--- a/crates/hodu_core/src/tensor/ops/binary.rs
+++ b/crates/hodu_core/src/tensor/ops/binary.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{BinaryLogicalOp, BinaryLogicalParams, BinaryOp, BinaryParams, Op, OpParams},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, utils::broadcast_tensors2, Tensor},
-    types::DType,
+    types::{DType, Layout},
     utils::valid::{
         validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
@@ -24,7 +24,7 @@ macro_rules! binary_op {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
                 let requires_grad = (lhs.is_requires_grad() || rhs.is_requires_grad()) && validate_requires_grad;
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) =
                     create_builder_tensor(result_layout.clone(), lhs.dtype(), requires_grad);
 
@@ -65,7 +65,12 @@ macro_rules! binary_op {
                 let requires_grad = lhs.is_requires_grad() || rhs.is_requires_grad();
                 let requires_grad = requires_grad && validate_requires_grad;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, requires_grad);
+                let result = from_storage_with_context(
+                    storage,
+                    Layout::from_shape(lhs_layout.shape()),
+                    true,
+                    requires_grad,
+                );
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -95,7 +100,7 @@ macro_rules! binary_logical_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -123,7 +128,7 @@ macro_rules! binary_logical_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/bitwise.rs b/crates/hodu_core/src/tensor/ops/bitwise.rs
index 0c99d08..d549879 100644
--- a/crates/hodu_core/src/tensor/ops/bitwise.rs
+++ b/crates/hodu_core/src/tensor/ops/bitwise.rs
@@ -5,6 +5,7 @@ use crate::{
         BitwiseBinaryOp, BitwiseBinaryParams, BitwiseUnaryOp, BitwiseUnaryParams, BitwiseUnaryScalarOp, Op, OpParams,
     },
     tensor::{create_builder_tensor, from_storage_with_context, utils::broadcast_tensors2, Tensor},
+    types::Layout,
     utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_same_device, validate_same_dtype},
 };
 
@@ -21,7 +22,7 @@ macro_rules! bitwise_binary_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), lhs.dtype(), false);
 
@@ -51,7 +52,7 @@ macro_rules! bitwise_binary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -67,7 +68,7 @@ macro_rules! bitwise_unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -89,7 +90,7 @@ macro_rules! bitwise_unary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(input_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -108,7 +109,7 @@ macro_rules! bitwise_scalar_shift_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -134,7 +135,7 @@ macro_rules! bitwise_scalar_shift_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(input_layout.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index 674cd37..b6587d6 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -13,7 +13,8 @@ impl Tensor {
 
         if crate::snapshot::capture::is_active() {
             let input_layout = self.layout();
-            let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), dtype, false);
+            let result_layout = Layout::from_shape(input_layout.shape());
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), dtype, false);
 
             let op_params = OpParams::ToDType(ToDTypeParams { dtype });
 
@@ -22,8 +23,8 @@ impl Tensor {
                 Some(op_params),
                 vec![self.id()],
                 result_id,
-                vec![input_layout.clone()],
-                input_layout,
+                vec![input_layout],
+                result_layout,
             )?;
 
             Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 9d1b42a..0aad3f3 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -21,7 +21,7 @@ macro_rules! cmp_op {
             let rhs_layout = rhs.layout();
 
             if crate::snapshot::capture::is_active() {
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -41,7 +41,7 @@ macro_rules! cmp_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -57,17 +57,18 @@ macro_rules! cmp_scalar_op {
 
             let scalar = scalar.into();
             let input_layout = self.layout();
+            let result_layout = Layout::from_shape(input_layout.shape());
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::CmpScalar(CmpScalarOp::$op_name),
                     Some(OpParams::CmpScalar(CmpScalarParams { scalar })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -76,9 +77,7 @@ macro_rules! cmp_scalar_op {
                     storage.call_ops_cmp_scalar(&input_layout, scalar, Op::CmpScalar(CmpScalarOp::$op_name))
                 })?;
 
-                let layout = Layout::from_shape(&self.shape());
-
-                let result = from_storage_with_context(storage, layout, true, false);
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/unary.rs b/crates/hodu_core/src/tensor/ops/unary.rs
index 841ac52..0b6dc03 100644
--- a/crates/hodu_core/src/tensor/ops/unary.rs
+++ b/crates/hodu_core/src/tensor/ops/unary.rs
@@ -15,19 +15,20 @@ macro_rules! unary_op {
             let validate_requires_grad = validate_requires_grad_for_op(Op::Unary(UnaryOp::$op_name));
 
             let input_layout = self.layout();
+            let result_layout = Layout::from_shape(input_layout.shape());
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::Unary(UnaryOp::$op_name),
                     Some(OpParams::Unary(UnaryParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -45,9 +46,8 @@ macro_rules! unary_op {
                     self.with_storage(|storage| storage.call_ops_unary(&input_layout, Op::Unary(UnaryOp::$op_name)))?;
 
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
-                let layout = Layout::from_shape(&self.shape());
 
-                let result = from_storage_with_context(storage, layout, true, requires_grad);
+                let result = from_storage_with_context(storage, result_layout, true, requires_grad);
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -71,17 +71,18 @@ macro_rules! unary_logical_op {
             validate_dtype_for_op(self.dtype(), Op::UnaryLogical(UnaryLogicalOp::$op_name))?;
 
             let input_layout = self.layout();
+            let result_layout = Layout::from_shape(input_layout.shape());
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryLogical(UnaryLogicalOp::$op_name),
                     Some(OpParams::UnaryLogical(UnaryLogicalParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -90,9 +91,7 @@ macro_rules! unary_logical_op {
                     storage.call_ops_unary_logical(&input_layout, Op::UnaryLogical(UnaryLogicalOp::$op_name))
                 })?;
 
-                let layout = Layout::from_shape(&self.shape());
-
-                let result = from_storage_with_context(storage, layout, true, false);
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
@@ -109,19 +108,20 @@ macro_rules! unary_scalar_op {
 
             let scalar_value = scalar.into();
             let input_layout = self.layout();
+            let result_layout = Layout::from_shape(input_layout.shape());
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryScalar(UnaryScalarOp::$op_name),
                     Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: scalar_value })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -144,9 +144,8 @@ macro_rules! unary_scalar_op {
                 })?;
 
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
-                let layout = Layout::from_shape(&self.shape());
 
-                let result = from_storage_with_context(storage, layout, true, requires_grad);
+                let result = from_storage_with_context(storage, result_layout, true, requires_grad);
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
-- 
2.43.0


From 92925c3087814215fe8d725713e196268113ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 08/76] fix: masked_fill and clamp select the fill where the
 condition holds, keeping infinities

---
 crates/hodu_core/src/tensor/ops/selection.rs | 22 +++++++++-----------
 crates/hodu_nn/src/modules/embedding.rs      |  2 +-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index df9ba35..af110c7 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -2,25 +2,23 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{utils::broadcast_tensors3, Tensor},
+    types::DType,
 };
 
 impl Tensor {
     pub fn where3(&self, condition: &Tensor, other: &Tensor) -> HoduResult<Self> {
         let (condition, x, y) = broadcast_tensors3(condition, self, other)?;
 
-        let mask = condition.to_dtype(x.dtype())?;
-        let one = Self::ones_like(&mask)?;
-        let inv_mask = one.sub(&mask)?;
-
-        let x_part = mask.mul(&x)?;
-        let y_part = inv_mask.mul(&y)?;
-        x_part.add(&y_part)
+        // Pick the elements rather than weighting them by 0 and 1: a weight of 0 would not discard
+        // an infinite or NaN element (0 * inf = NaN).
+        let choice = condition.to_dtype(DType::BOOL)?.to_dtype(DType::I32)?.unsqueeze(0)?;
+        Self::stack(&[&y, &x], 0)?.gather(0, &choice)?.squeeze(&[0])
     }
 
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
         let value_scalar = value.into();
         let fill_tensor = Self::full_like(self, value_scalar)?;
-        self.where3(mask, &fill_tensor)
+        fill_tensor.where3(mask, self)
     }
 
     pub fn clamp<T: Into<Scalar>>(&self, min: T, max: T) -> HoduResult<Self> {
@@ -28,21 +26,21 @@ impl Tensor {
         let max_scalar = max.into();
 
         let min_tensor = Self::full_like(self, min_scalar)?;
-        let clamped_min = self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)?;
+        let clamped_min = min_tensor.where3(&self.lt_scalar(min_scalar)?, self)?;
 
         let max_tensor = Self::full_like(&clamped_min, max_scalar)?;
-        clamped_min.where3(&clamped_min.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&clamped_min.gt_scalar(max_scalar)?, &clamped_min)
     }
 
     pub fn clamp_min<T: Into<Scalar>>(&self, min: T) -> HoduResult<Self> {
         let min_scalar = min.into();
         let min_tensor = Self::full_like(self, min_scalar)?;
-        self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)
+        min_tensor.where3(&self.lt_scalar(min_scalar)?, self)
     }
 
     pub fn clamp_max<T: Into<Scalar>>(&self, max: T) -> HoduResult<Self> {
         let max_scalar = max.into();
         let max_tensor = Self::full_like(self, max_scalar)?;
-        self.where3(&self.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&self.gt_scalar(max_scalar)?, self)
     }
 }
diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 8ccdc28..4e8e6fb 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -165,7 +165,7 @@ impl Embedding {
         let zero = Tensor::zeros(mask.shape(), embeddings.dtype())?;
 
         // Convert bool mask to float: where(mask, 0.0, 1.0)
-        let float_mask = mask.where3(&zero, &one)?;
+        let float_mask = zero.where3(&mask, &one)?;
 
         // Apply mask
         embeddings.mul(&float_mask)
-- 
2.43.0


From 653ea6906d8760a6adad94684669221bfb213591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 09/76] fix: concat locates each packed input by the storages
 before it

---
 crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
index 029394d..e74c857 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
@@ -95,7 +95,7 @@ pub fn call_ops_concat(
     let output_shape = Shape::new(&output_shape_vec);
 
     // Generate metadata using centralized function
-    let metadata = crate::op_metadatas::concat_metadata(layouts, dim, &output_shape_vec);
+    let mut metadata = crate::op_metadatas::concat_metadata(layouts, dim, &output_shape_vec);
 
     // Generate kernel name
     let kernel_name = format!("hodu_cpu_concat_{}", dtype);
@@ -125,7 +125,11 @@ pub fn call_ops_concat(
             // Pack into contiguous buffer
             let total_size: usize = input_vecs.iter().map(|v| v.len()).sum();
             let mut input_buffer = Vec::with_capacity(total_size);
-            for data in input_vecs {
+            // A view's storage can be larger or smaller than its shape: each input starts where
+            // the storages before it end, not where their shapes would.
+            let buffer_offsets = metadata.len() - num_inputs;
+            for (offset, data) in metadata[buffer_offsets..].iter_mut().zip(input_vecs) {
+                *offset = input_buffer.len();
                 input_buffer.extend_from_slice(data);
             }
 
-- 
2.43.0


From df6295c0f1cad8bb06c44c9c2aa2570a4b183462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:38 +0000
Subject: [PATCH 10/76] fix: scatter variants run their own kernel, and
 indexing results and metadata match the kernels' layout

---
 .../src/be_cpu/storage/ops_indexing.rs        | 28 +++++++++++++------
 crates/hodu_core/src/op_metadatas.rs          | 14 ++++------
 crates/hodu_core/src/tensor/ops/indexing.rs   | 27 ++++++++++--------
 3 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 5fc111c..c48c894 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -35,6 +35,9 @@ pub fn call_ops_index_select(
         });
     }
 
+    // The kernel reads the indices as a plain array
+    let indices_storage = &indices_storage.contiguous(indices_layout)?;
+
     // Extract indices
     let indices = match indices_storage {
         CpuStorage::I32(data) => data.as_slice(),
@@ -153,6 +156,9 @@ pub fn call_ops_index_put(
         });
     }
 
+    // The kernel reads the indices as a plain array
+    let indices_storage = &indices_storage.contiguous(indices_layout)?;
+
     // Extract indices
     let indices = match indices_storage {
         CpuStorage::I32(data) => data.as_slice(),
@@ -197,8 +203,8 @@ pub fn call_ops_index_put(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage
+    let mut output = CpuDevice::allocate(input_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -422,10 +428,13 @@ pub fn call_ops_scatter(
     };
 
     // Validate op
-    match op {
+    let scatter_op = match op {
         Op::Indexing(
-            IndexingOp::Scatter | IndexingOp::ScatterAdd | IndexingOp::ScatterMax | IndexingOp::ScatterMin,
-        ) => (),
+            scatter_op @ (IndexingOp::Scatter
+            | IndexingOp::ScatterAdd
+            | IndexingOp::ScatterMax
+            | IndexingOp::ScatterMin),
+        ) => scatter_op,
         _ => {
             return Err(HoduError::BackendError(
                 "Lcall_scatterE expects scatter-type op".to_string(),
@@ -454,12 +463,12 @@ pub fn call_ops_scatter(
 
     // Generate kernel name
     let dtype = storage.dtype();
-    let kernel_name = format!("hodu_cpu_scatter_{}", dtype);
+    let kernel_name = format!("hodu_cpu_{}_{}", scatter_op, dtype);
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage
+    let mut output = CpuDevice::allocate(input_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -561,6 +570,9 @@ pub fn call_ops_onehot(
         _ => return Err(HoduError::BackendError("call_ops_onehot expects Onehot op".to_string())),
     };
 
+    // The kernel reads the indices as a plain array
+    let indices_storage = &indices_storage.contiguous(indices_layout)?;
+
     // Convert indices to i32
     let indices: Vec<i32> = match indices_storage {
         CpuStorage::I8(data) => data.iter().map(|&x| x as i32).collect(),
diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6a094e3..4379d06 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -730,7 +730,7 @@ pub fn index_select_metadata(layout: &Layout, dim: usize, num_indices: usize, ou
 /// Generate metadata for index_put operations
 ///
 /// Format:
-/// - [num_els, num_dims, input_shape, input_strides, input_offset, values_shape, values_strides, values_offset, dim, num_indices]
+/// - [num_els, num_dims, input_shape, input_strides, values_strides, input_offset, values_offset, dim, num_indices]
 pub fn index_put_metadata(
     layout: &Layout,
     values_layout: &Layout,
@@ -739,10 +739,9 @@ pub fn index_put_metadata(
     output_num_els: usize,
 ) -> Vec<usize> {
     let input_shape = layout.shape();
-    let values_shape = values_layout.shape();
     let ndim = input_shape.ndim();
 
-    let mut metadata = Vec::with_capacity(2 + ndim + ndim + 1 + ndim + ndim + 1 + 1 + 1);
+    let mut metadata = Vec::with_capacity(2 + 3 * ndim + 4);
 
     metadata.push(output_num_els);
     metadata.push(ndim);
@@ -754,17 +753,14 @@ pub fn index_put_metadata(
     for &s in layout.strides() {
         metadata.push(s);
     }
-    metadata.push(layout.offset());
 
-    // values shape and strides
-    for &d in values_shape.dims() {
-        metadata.push(d);
-    }
+    // values strides
     for &s in values_layout.strides() {
         metadata.push(s);
     }
-    metadata.push(values_layout.offset());
 
+    metadata.push(layout.offset());
+    metadata.push(values_layout.offset());
     metadata.push(dim);
     metadata.push(num_indices);
 
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3401240..1472a0b 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -113,7 +113,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::IndexPut))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::IndexPut));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let values_layout = values.layout();
 
@@ -128,7 +129,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), values.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), values_layout, indices_layout],
+                vec![self_layout.clone(), values_layout, indices_layout],
                 result_layout.clone(),
             )?;
 
@@ -147,7 +148,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     values.with_storage(|values_storage| {
                         storage.call_ops_index_put(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             values_storage,
@@ -194,7 +195,8 @@ impl Tensor {
 
         // Output has same shape as indices
         let self_layout = self.layout();
-        let result_layout = indices.layout();
+        let indices_layout = indices.layout();
+        let result_layout = Layout::from_shape(indices_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = self.is_requires_grad() && validate_requires_grad;
@@ -207,7 +209,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), indices.id()],
                 result_id,
-                vec![self_layout.clone(), result_layout.clone()],
+                vec![self_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -227,7 +229,7 @@ impl Tensor {
                     storage.call_ops_gather(
                         &self_layout,
                         indices_storage,
-                        &result_layout,
+                        &indices_layout,
                         dim_usize,
                         Op::Indexing(IndexingOp::Gather),
                     )
@@ -269,7 +271,8 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Scatter));
 
         // Output has same shape as self
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let src_layout = src.layout();
 
@@ -284,7 +287,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), src_layout.clone(), indices_layout.clone()],
+                vec![self_layout.clone(), src_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -303,7 +306,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             src_storage,
@@ -349,7 +352,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterAdd))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterAdd));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -427,7 +430,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMax))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMax));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -505,7 +508,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMin))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMin));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
-- 
2.43.0


From 8cb7d14723f6ab4b46629f599bb6435fe189cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:38 +0000
Subject: [PATCH 11/76] fix: gradients of reductions without kept dimensions
 broadcast along the reduced dimensions

---
 .../src/tensor/gradient/vjp_reduce.rs         | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
index 018aa32..c5bc9ac 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
@@ -32,11 +32,18 @@ impl VjpCompute for ReduceOp {
             dims.iter().map(|scalar| scalar.to_usize()).collect()
         };
 
+        // Put the reduced dimensions back as size 1, so that they line up with the input's again
+        let mut kept_dims = input_shape.dims().to_vec();
+        for &dim in &reduce_dims {
+            kept_dims[dim] = 1;
+        }
+        let output_tensor = tensor_from_id(output).reshape(&kept_dims)?;
+        let grad_tensor = tensor_from_id(grad_output).reshape(&kept_dims)?;
+
         match self {
             ReduceOp::Sum => {
                 // d/dx sum(x) = 1 for all elements
                 // Broadcast gradient back to input shape
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted = grad_tensor.broadcast(&input_shape)?;
                 Ok(vec![broadcasted.id()])
             },
@@ -48,34 +55,29 @@ impl VjpCompute for ReduceOp {
                     .product::<usize>() as f32;
                 let scale_scalar = Scalar::from_f32(1.0 / reduce_elements, dtype);
 
-                let grad_tensor = tensor_from_id(grad_output);
                 let scaled_grad = grad_tensor.mul_scalar(scale_scalar)?;
                 let broadcasted = scaled_grad.broadcast(&input_shape)?;
                 Ok(vec![broadcasted.id()])
             },
             ReduceOp::Prod => {
                 // d/dx prod(x) = prod(x) / x_i for each element x_i
-                let output_tensor = tensor_from_id(output);
                 let broadcasted_output = output_tensor.broadcast(&input_shape)?;
                 let derivative = broadcasted_output.div(&input_tensor)?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = derivative.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Norm => {
                 // d/dx ||x||_2 = x / ||x||_2
-                let output_tensor = tensor_from_id(output);
                 let broadcasted_output = output_tensor.broadcast(&input_shape)?;
                 let derivative = input_tensor.div(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = derivative.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Var => {
                 // d/dx var(x) = 2 * (x - mean(x)) / N where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
+                let mean_tensor = input_tensor.mean(&reduce_dims, true)?;
                 let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
                 let diff = input_tensor.sub(&broadcasted_mean)?;
                 let reduce_elements = reduce_dims
@@ -84,17 +86,15 @@ impl VjpCompute for ReduceOp {
                     .product::<usize>() as f32;
                 let scale = Scalar::from_f32(2.0 / reduce_elements, dtype);
                 let derivative = diff.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = derivative.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Std => {
                 // d/dx std(x) = (x - mean(x)) / (N * std(x)) where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
+                let mean_tensor = input_tensor.mean(&reduce_dims, true)?;
                 let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
                 let diff = input_tensor.sub(&broadcasted_mean)?;
-                let output_tensor = tensor_from_id(output);
                 let broadcasted_std = output_tensor.broadcast(&input_shape)?;
                 let reduce_elements = reduce_dims
                     .iter()
@@ -102,7 +102,6 @@ impl VjpCompute for ReduceOp {
                     .product::<usize>() as f32;
                 let scale = Scalar::from_f32(1.0 / reduce_elements, dtype);
                 let derivative = diff.div(&broadcasted_std)?.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = derivative.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
@@ -110,12 +109,10 @@ impl VjpCompute for ReduceOp {
             ReduceOp::Max | ReduceOp::Min => {
                 // d/dx max(x) or min(x): gradient flows only to the positions that were max/min
                 // Create a mask where input equals output (broadcasted)
-                let output_tensor = tensor_from_id(output);
                 let broadcasted_output = output_tensor.broadcast(&input_shape)?;
 
                 // Create mask: 1 where input == output, 0 elsewhere
                 let mask = input_tensor.eq(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let mask_f = mask.to_dtype(grad_tensor.dtype())?;
 
                 // Count how many elements are equal to max/min (for gradient distribution)
@@ -132,11 +129,9 @@ impl VjpCompute for ReduceOp {
             ReduceOp::LogSum => {
                 // d/dx log(sum(x)) = 1 / sum(x)
                 // output = log(sum(x)), so sum(x) = exp(output)
-                let output_tensor = tensor_from_id(output);
                 let sum_x = output_tensor.exp()?;
                 let broadcasted_sum = sum_x.broadcast(&input_shape)?;
                 let derivative = broadcasted_sum.recip()?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = derivative.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
@@ -144,12 +139,10 @@ impl VjpCompute for ReduceOp {
             ReduceOp::LogSumExp => {
                 // d/dx log(sum(exp(x))) = exp(x) / sum(exp(x)) = softmax(x)
                 // output = log(sum(exp(x))), so sum(exp(x)) = exp(output)
-                let output_tensor = tensor_from_id(output);
                 let exp_x = input_tensor.exp()?;
                 let sum_exp = output_tensor.exp()?;
                 let broadcasted_sum = sum_exp.broadcast(&input_shape)?;
                 let softmax = exp_x.div(&broadcasted_sum)?;
-                let grad_tensor = tensor_from_id(grad_output);
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = softmax.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
-- 
2.43.0


From f486a3de5be1dbc7dbe29ffbc6009430082ce1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:38 +0000
Subject: [PATCH 12/76] fix: gradients of hardsigmoid and hardsilu have a
 numeric mask

---
 crates/hodu_core/src/tensor/gradient/vjp_unary.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
index 9065970..6e82af1 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
@@ -73,7 +73,10 @@ impl VjpCompute for UnaryOp {
                 // indicator = (output > 0) & (output < 1)
                 let gt_zero = create_gt_scalar_tensor(_output, zero)?;
                 let lt_one = create_lt_scalar_tensor(_output, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let indicator = tensor_from_id(gt_zero)
+                    .logical_and(&tensor_from_id(lt_one))?
+                    .to_dtype(dtype)?
+                    .id();
 
                 // derivative = indicator * (1/6)
                 let derivative = create_mul_scalar_tensor(indicator, one_sixth)?;
@@ -158,7 +161,10 @@ impl VjpCompute for UnaryOp {
                 // indicator = (hardsigmoid(x) > 0) & (hardsigmoid(x) < 1)
                 let gt_zero = create_gt_scalar_tensor(hardsigmoid_x, zero)?;
                 let lt_one = create_lt_scalar_tensor(hardsigmoid_x, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let indicator = tensor_from_id(gt_zero)
+                    .logical_and(&tensor_from_id(lt_one))?
+                    .to_dtype(dtype)?
+                    .id();
 
                 // x * indicator * (1/6)
                 let x_indicator = create_mul_tensor(input, indicator)?;
-- 
2.43.0


From a6cf7c21d0c2287c48d5ddb3171d40a75befc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:38 +0000
Subject: [PATCH 13/76] fix: gradients of indexing, slice and concat accept
 negative dimensions, shared indices and clamped ranges

---
 .../src/tensor/gradient/vjp_concat_split.rs   |  8 +-
 .../src/tensor/gradient/vjp_indexing.rs       | 78 +++++++------------
 .../src/tensor/gradient/vjp_shape.rs          | 11 ++-
 .../src/tensor/gradient/vjp_utils.rs          | 16 ++++
 4 files changed, 55 insertions(+), 58 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs b/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
index 7cf6082..37ca418 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
@@ -1,4 +1,4 @@
-use super::VjpCompute;
+use super::{vjp_utils::normalize_dim, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{ConcatOp, ConcatParams, OpParams, SplitOp, SplitParams},
@@ -19,13 +19,13 @@ impl VjpCompute for ConcatOp {
                 "ConcatOp requires ConcatParams".to_string(),
             ));
         };
-        let dim = *dim;
+        let dim = normalize_dim(dim.to_i32(), tensor_from_id(inputs[0]).ndim());
 
         let sizes: Vec<usize> = inputs
             .iter()
             .map(|&id| {
                 let tensor = tensor_from_id(id);
-                tensor.shape().dims()[dim.to_usize()] as usize
+                tensor.shape().dims()[dim] as usize
             })
             .collect();
 
@@ -59,7 +59,7 @@ impl VjpCompute for SplitOp {
         let input_shape = input_tensor.shape();
         let dtype = input_tensor.dtype();
 
-        let dim = dim.to_usize();
+        let dim = normalize_dim(dim.to_i32(), input_shape.ndim());
         let sizes: Vec<usize> = sizes.iter().map(|s| s.to_usize()).collect();
         let output_index = *output_index;
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
index d7bdf55..366e69b 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
@@ -1,4 +1,7 @@
-use super::VjpCompute;
+use super::{
+    vjp_utils::{expand_indices, normalize_dim},
+    VjpCompute,
+};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{IndexingOp, OpParams},
@@ -9,24 +12,25 @@ impl VjpCompute for IndexingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let dim = match op_params {
-            OpParams::IndexSelect(p) => p.dim.to_usize(),
-            OpParams::IndexPut(p) => p.dim.to_usize(),
-            OpParams::Gather(p) => p.dim.to_usize(),
-            OpParams::Scatter(p) => p.dim.to_usize(),
-            OpParams::ScatterAdd(p) => p.dim.to_usize(),
-            OpParams::ScatterMax(p) => p.dim.to_usize(),
-            OpParams::ScatterMin(p) => p.dim.to_usize(),
+            OpParams::IndexSelect(p) => p.dim.to_i32(),
+            OpParams::IndexPut(p) => p.dim.to_i32(),
+            OpParams::Gather(p) => p.dim.to_i32(),
+            OpParams::Scatter(p) => p.dim.to_i32(),
+            OpParams::ScatterAdd(p) => p.dim.to_i32(),
+            OpParams::ScatterMax(p) => p.dim.to_i32(),
+            OpParams::ScatterMin(p) => p.dim.to_i32(),
             _ => {
                 return Err(HoduError::VjpFunctionNotFound(
                     "IndexingOp requires IndexingParams".to_string(),
                 ))
             },
         };
+        let dim = normalize_dim(dim, tensor_from_id(inputs[0]).ndim());
 
         match self {
             IndexingOp::IndexSelect => {
@@ -46,8 +50,8 @@ impl VjpCompute for IndexingOp {
                 let grad_self = Tensor::zeros(&self_shape, dtype)?;
 
                 // Scatter the gradient back to the original positions
-                let indices_tensor = tensor_from_id(indices_id);
                 let grad_tensor = tensor_from_id(grad_output);
+                let indices_tensor = expand_indices(&tensor_from_id(indices_id), dim, &grad_tensor.shape())?;
                 let result = grad_self.scatter_add(dim, &indices_tensor, &grad_tensor)?;
 
                 // IndexSelect doesn't have gradient w.r.t. indices
@@ -86,7 +90,7 @@ impl VjpCompute for IndexingOp {
                 }
 
                 let self_id = inputs[0];
-                let _values_id = inputs[1];
+                let values_id = inputs[1];
                 let indices_id = inputs[2];
 
                 let self_tensor = tensor_from_id(self_id);
@@ -99,11 +103,11 @@ impl VjpCompute for IndexingOp {
                 // Create a mask: 1 everywhere, 0 at indexed positions
                 let ones = Tensor::ones(self_tensor.shape(), dtype)?;
                 let zeros_at_indices =
-                    ones.index_put(dim, &indices_tensor, &Tensor::zeros(indices_tensor.shape(), dtype)?)?;
+                    ones.index_put(dim, &indices_tensor, &Tensor::zeros_like(&tensor_from_id(values_id))?)?;
                 let grad_self = grad_tensor.mul(&zeros_at_indices)?;
 
-                // Gradient w.r.t. values: gather from grad_output at indices
-                let grad_values = grad_tensor.gather(dim, &indices_tensor)?;
+                // Gradient w.r.t. values: select from grad_output at indices
+                let grad_values = grad_tensor.index_select(dim, &indices_tensor)?;
 
                 // IndexPut doesn't have gradient w.r.t. indices
                 Ok(vec![grad_self.id(), grad_values.id()])
@@ -174,45 +178,19 @@ impl VjpCompute for IndexingOp {
                 let src_tensor = tensor_from_id(src_id);
                 let grad_tensor = tensor_from_id(grad_output);
 
-                // Get the values at the scattered positions from output
-                let scattered_values = grad_tensor.gather(dim, &indices_tensor)?;
-
-                // Determine which values "won" (were selected)
-                let src_won = match self {
-                    IndexingOp::ScatterMax => {
-                        // src won if src >= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.ge(&self_at_indices)?
-                    },
-                    IndexingOp::ScatterMin => {
-                        // src won if src <= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.le(&self_at_indices)?
-                    },
-                    _ => unreachable!(),
-                };
-
-                // Gradient w.r.t. src: flows through where src won
-                let src_won_f = src_won.to_dtype(grad_tensor.dtype())?;
-                let grad_src = scattered_values.mul(&src_won_f)?;
-
-                // Gradient w.r.t. self: flows through where self won
-                // Create mask where self won (opposite of src_won)
-                let dtype = self_tensor.dtype();
-                let ones = Tensor::ones(src_won_f.shape(), dtype)?;
-                let self_won = ones.sub(&src_won_f)?;
+                let output_tensor = tensor_from_id(output);
+                let dtype = grad_tensor.dtype();
 
-                // Scatter the masked gradient back
-                let grad_src_scattered = grad_tensor.gather(dim, &indices_tensor)?;
-                let grad_self_at_indices = grad_src_scattered.mul(&self_won)?;
+                // Gradient flows to the elements that became the output's values
+                let self_won = self_tensor.eq(&output_tensor)?.to_dtype(dtype)?;
+                let grad_self = grad_tensor.mul(&self_won)?;
 
-                let zeros = Tensor::zeros(self_tensor.shape(), dtype)?;
-                let grad_self = zeros.scatter_add(dim, &indices_tensor, &grad_self_at_indices)?;
+                let src_won = src_tensor
+                    .eq(&output_tensor.gather(dim, &indices_tensor)?)?
+                    .to_dtype(dtype)?;
+                let grad_src = grad_tensor.gather(dim, &indices_tensor)?.mul(&src_won)?;
 
-                // Add gradient from positions not affected by scatter
-                let grad_self_final = grad_self.add(&grad_tensor)?;
-
-                Ok(vec![grad_self_final.id(), grad_src.id()])
+                Ok(vec![grad_self.id(), grad_src.id()])
             },
 
             IndexingOp::Onehot => {
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index b3a9508..dff39e8 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -1,4 +1,7 @@
-use super::VjpCompute;
+use super::{
+    vjp_utils::{expand_indices, normalize_dim},
+    VjpCompute,
+};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
@@ -123,7 +126,7 @@ impl VjpCompute for ShapeScalarsOp {
                     return Err(HoduError::VjpFunctionNotFound("Slice requires SliceParams".to_string()));
                 };
 
-                let dim = dim.to_i32() as usize;
+                let dim = normalize_dim(dim.to_i32(), input_shape.ndim());
                 let start = start.to_i32() as isize;
                 let end_value = end.to_i32();
                 let end = if end_value == i32::MAX {
@@ -135,7 +138,7 @@ impl VjpCompute for ShapeScalarsOp {
 
                 // Calculate slice indices
                 let dim_size = input_shape.dims()[dim] as isize;
-                let start_idx = if start < 0 { dim_size + start } else { start };
+                let start_idx = if start < 0 { (dim_size + start).max(0) } else { start };
                 let end_idx = end
                     .map(|e| if e < 0 { dim_size + e } else { e })
                     .unwrap_or(if step > 0 { dim_size } else { -1 });
@@ -172,7 +175,7 @@ impl VjpCompute for ShapeScalarsOp {
                 }
 
                 // Create indices tensor
-                let indices_tensor = Tensor::new(indices_vec)?;
+                let indices_tensor = expand_indices(&Tensor::new(indices_vec)?, dim, &grad_shape)?;
 
                 // Create zero tensor with input shape
                 let dtype = input_tensor.dtype();
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 2407e36..43d019f 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -5,6 +5,22 @@ use crate::{
     types::Shape,
 };
 
+// A recorded dimension may count from the end
+pub fn normalize_dim(dim: i32, ndim: usize) -> usize {
+    if dim < 0 {
+        (ndim as i32 + dim) as usize
+    } else {
+        dim as usize
+    }
+}
+
+// 1-D indices along `dim`, repeated over the other dimensions of `shape`
+pub fn expand_indices(indices: &Tensor, dim: usize, shape: &Shape) -> HoduResult<Tensor> {
+    let mut dims = vec![1; shape.ndim()];
+    dims[dim] = indices.size();
+    indices.reshape(&dims)?.broadcast(shape)
+}
+
 // Binary operations
 pub fn create_add_tensor(a: TensorId, b: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
-- 
2.43.0


From e38564a3dbb18693819f74853496ef3a5e0de1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:32 +0000
Subject: [PATCH 14/76] fix: leaky_relu, elu, prelu and rem_scalar run on the
 CPU device

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 30 +++++++++++++++++
 .../hodu_cpu_kernels/src/kernels/ops_unary.rs | 32 +++++++++++++++++--
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 71d51ac..85d6c93 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -796,6 +796,9 @@ IMPL_UNARY_WITH_SCALAR(f32_t, f32, rem_scalar, fmodf(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, pow_scalar, powf_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, leaky_relu, x > 0.0f ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, elu, x > 0.0f ? x : const_val * (expf(x) - 1.0f))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, prelu, x > 0.0f ? x : const_val * x)
 
 // Scalar comparison operations
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f32_t, f32, eq_scalar, x == const_val)
@@ -1162,6 +1165,9 @@ IMPL_UNARY_WITH_SCALAR(f64_t, f64, rem_scalar, fmod(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, pow_scalar, pow_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, leaky_relu, x > 0.0 ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, elu, x > 0.0 ? x : const_val * (exp(x) - 1.0))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, prelu, x > 0.0 ? x : const_val * x)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, eq_scalar, x == const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, ne_scalar, x != const_val)
@@ -1294,6 +1300,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, maximum_scalar, MAXIMUM(x, cons
                                f8e4m3_to_float, float_to_f8e4m3)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, minimum_scalar, MINIMUM(x, const_val),
                                f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, leaky_relu, x > 0.0f ? x : const_val * x,
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, elu, x > 0.0f ? x : const_val * (expf(x) - 1.0f),
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, prelu, x > 0.0f ? x : const_val * x,
+                               f8e4m3_to_float, float_to_f8e4m3)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, eq_scalar, x == const_val, f8e4m3_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, ne_scalar, x != const_val, f8e4m3_to_float)
@@ -1380,6 +1392,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, maximum_scalar, MAXIMUM(x, cons
                                f8e5m2_to_float, float_to_f8e5m2)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, minimum_scalar, MINIMUM(x, const_val),
                                f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, leaky_relu, x > 0.0f ? x : const_val * x,
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, elu, x > 0.0f ? x : const_val * (expf(x) - 1.0f),
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, prelu, x > 0.0f ? x : const_val * x,
+                               f8e5m2_to_float, float_to_f8e5m2)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, eq_scalar, x == const_val, f8e5m2_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, ne_scalar, x != const_val, f8e5m2_to_float)
@@ -1460,6 +1478,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, maximum_scalar, MAXIMUM(x, const_va
                                float_to_bf16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, minimum_scalar, MINIMUM(x, const_val), bf16_to_float,
                                float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, leaky_relu, x > 0.0f ? x : const_val * x,
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, elu, x > 0.0f ? x : const_val * (expf(x) - 1.0f),
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, prelu, x > 0.0f ? x : const_val * x,
+                               bf16_to_float, float_to_bf16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, eq_scalar, x == const_val, bf16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, ne_scalar, x != const_val, bf16_to_float)
@@ -1537,6 +1561,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, maximum_scalar, MAXIMUM(x, const_val)
                                float_to_f16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, minimum_scalar, MINIMUM(x, const_val), f16_to_float,
                                float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, leaky_relu, x > 0.0f ? x : const_val * x,
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, elu, x > 0.0f ? x : const_val * (expf(x) - 1.0f),
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, prelu, x > 0.0f ? x : const_val * x,
+                               f16_to_float, float_to_f16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, eq_scalar, x == const_val, f16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, ne_scalar, x != const_val, f16_to_float)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 0e43d10..79dce48 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -62,9 +62,13 @@ ops!(
     sub_scalar,
     mul_scalar,
     div_scalar,
+    rem_scalar,
     pow_scalar,
     maximum_scalar,
     minimum_scalar,
+    leaky_relu,
+    elu,
+    prelu,
     eq_scalar,
     ne_scalar,
     lt_scalar,
@@ -144,7 +148,8 @@ macro_rules! declare_and_dispatch_unary {
         all_types: [$($all_op:ident),* $(,)?],
         signed_types: [$($signed_op:ident),* $(,)?],
         float_types: [$($float_op:ident),* $(,)?],
-        scalar_ops: [$($scalar_op:ident),* $(,)?]
+        scalar_ops: [$($scalar_op:ident),* $(,)?],
+        float_scalar_ops: [$($float_scalar_op:ident),* $(,)?]
     ) => {
         paste::paste! {
             // Extern C declarations
@@ -211,6 +216,16 @@ macro_rules! declare_and_dispatch_unary {
                     fn [<hodu_cpu_ $scalar_op _i32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                     fn [<hodu_cpu_ $scalar_op _i64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                 )*
+
+                // Scalar operations supporting only float types
+                $(
+                    fn [<hodu_cpu_ $float_scalar_op _f8e4m3>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f8e5m2>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _bf16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                )*
             }
 
             // Dispatch function
@@ -296,6 +311,16 @@ macro_rules! declare_and_dispatch_unary {
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i32") => [<hodu_cpu_ $scalar_op _i32>](input, output, metadata, scalar),
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i64") => [<hodu_cpu_ $scalar_op _i64>](input, output, metadata, scalar),
                     )*
+
+                    // Scalar operations (float types only)
+                    $(
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e4m3") => [<hodu_cpu_ $float_scalar_op _f8e4m3>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e5m2") => [<hodu_cpu_ $float_scalar_op _f8e5m2>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_bf16") => [<hodu_cpu_ $float_scalar_op _bf16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f16") => [<hodu_cpu_ $float_scalar_op _f16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f32") => [<hodu_cpu_ $float_scalar_op _f32>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f64") => [<hodu_cpu_ $float_scalar_op _f64>](input, output, metadata, scalar),
+                    )*
                     _ => panic!("Unsupported unary scalar kernel: {}", name),
                 }
             }
@@ -321,8 +346,11 @@ declare_and_dispatch_unary!(
         isnan, isinf, isfinite
     ],
     scalar_ops: [
-        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar,
+        add_scalar, sub_scalar, mul_scalar, div_scalar, rem_scalar, pow_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
+    ],
+    float_scalar_ops: [
+        leaky_relu, elu, prelu
     ]
 );
-- 
2.43.0


From cf323d138a489f0b964bac1c2877d57f860c7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 15/76] fix: powers of negative numbers with large integer
 exponents are not NaN

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index ad11d99..8052742 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -87,9 +87,6 @@ static inline float powf_opt(float base, float exponent) {
         }
     }
 
-    if (base < 0.0f)
-        return NAN;
-
     return powf(base, exponent);
 }
 
@@ -119,9 +116,6 @@ static inline double pow_opt(double base, double exponent) {
         }
     }
 
-    if (base < 0.0)
-        return NAN;
-
     return pow(base, exponent);
 }
 
-- 
2.43.0


From 2d711ecdbaf1c32349ac4fd803d86bd76903ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 16/76] fix: rem, and the f64 argmax, any, all and scatter
 variants, are dispatched

---
 crates/hodu_cpu_kernels/kernels/ops_indexing.c      | 3 +++
 crates/hodu_cpu_kernels/src/kernels/ops_binary.rs   | 2 ++
 crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs | 2 ++
 crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs   | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index e4e015b..549b1f4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -625,6 +625,7 @@ SCATTER_ADD_OP_EXOTIC(f8e5m2_t, scatter_add_f8e5m2, f8e5m2_add)
 SCATTER_ADD_OP_EXOTIC(bf16_t, scatter_add_bf16, bf16_add)
 SCATTER_ADD_OP_EXOTIC(f16_t, scatter_add_f16, f16_add)
 SCATTER_ADD_OP(float, scatter_add_f32)
+SCATTER_ADD_OP(double, scatter_add_f64)
 SCATTER_ADD_OP(int8_t, scatter_add_i8)
 SCATTER_ADD_OP(int16_t, scatter_add_i16)
 SCATTER_ADD_OP(int32_t, scatter_add_i32)
@@ -742,6 +743,7 @@ SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
 SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
 SCATTER_MAX_OP(f16_t, scatter_max_f16)
 SCATTER_MAX_OP(float, scatter_max_f32)
+SCATTER_MAX_OP(double, scatter_max_f64)
 SCATTER_MAX_OP(int8_t, scatter_max_i8)
 SCATTER_MAX_OP(int16_t, scatter_max_i16)
 SCATTER_MAX_OP(int32_t, scatter_max_i32)
@@ -859,6 +861,7 @@ SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
 SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
 SCATTER_MIN_OP(f16_t, scatter_min_f16)
 SCATTER_MIN_OP(float, scatter_min_f32)
+SCATTER_MIN_OP(double, scatter_min_f64)
 SCATTER_MIN_OP(int8_t, scatter_min_i8)
 SCATTER_MIN_OP(int16_t, scatter_min_i16)
 SCATTER_MIN_OP(int32_t, scatter_min_i32)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
index e2d8232..f58b9f0 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
@@ -17,6 +17,7 @@ ops!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
@@ -176,6 +177,7 @@ declare_and_dispatch_binary!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
index dafd067..8e4d86a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
@@ -256,6 +256,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                 fn [<hodu_cpu_ $op_name _bf16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
+                fn [<hodu_cpu_ $op_name _f64>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i8>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
@@ -280,6 +281,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                     concat!("hodu_cpu_", stringify!($op_name), "_bf16") => [<hodu_cpu_ $op_name _bf16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f16") => [<hodu_cpu_ $op_name _f16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f32") => [<hodu_cpu_ $op_name _f32>](input, indices, src, output, metadata),
+                    concat!("hodu_cpu_", stringify!($op_name), "_f64") => [<hodu_cpu_ $op_name _f64>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i8") => [<hodu_cpu_ $op_name _i8>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i16") => [<hodu_cpu_ $op_name _i16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i32") => [<hodu_cpu_ $op_name _i32>](input, indices, src, output, metadata),
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
index 47c8e89..aa7a1e3 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
@@ -327,6 +327,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmax_bf16"
             | "hodu_cpu_argmax_f16"
             | "hodu_cpu_argmax_f32"
+            | "hodu_cpu_argmax_f64"
             | "hodu_cpu_argmax_i8"
             | "hodu_cpu_argmax_i16"
             | "hodu_cpu_argmax_i32"
@@ -341,6 +342,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmin_bf16"
             | "hodu_cpu_argmin_f16"
             | "hodu_cpu_argmin_f32"
+            | "hodu_cpu_argmin_f64"
             | "hodu_cpu_argmin_i8"
             | "hodu_cpu_argmin_i16"
             | "hodu_cpu_argmin_i32"
@@ -355,6 +357,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_any_bf16"
             | "hodu_cpu_any_f16"
             | "hodu_cpu_any_f32"
+            | "hodu_cpu_any_f64"
             | "hodu_cpu_any_i8"
             | "hodu_cpu_any_i16"
             | "hodu_cpu_any_i32"
@@ -369,6 +372,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_all_bf16"
             | "hodu_cpu_all_f16"
             | "hodu_cpu_all_f32"
+            | "hodu_cpu_all_f64"
             | "hodu_cpu_all_i8"
             | "hodu_cpu_all_i16"
             | "hodu_cpu_all_i32"
-- 
2.43.0


From b9b806cde7df39cc7afda65417754b4e2d2fc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 17/76] fix: argmax, argmin, any and all produce the index and
 bool tensors their kernels write

---
 .../hodu_core/src/be_cpu/storage/ops_reduce.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
index 2989fdd..62b4425 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
@@ -2,8 +2,8 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
-    types::{Layout, Shape},
+    ops::{Op, ReduceOp},
+    types::{DType, Layout, Shape},
 };
 use core::ffi::c_void;
 
@@ -74,9 +74,21 @@ pub fn call_ops_reduce(
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
     // Create output storage
-    let dtype = storage.dtype();
+    // (argmax/argmin write int32 indices, any/all write booleans)
+    let dtype = match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
+        ReduceOp::Any | ReduceOp::All => DType::BOOL,
+        _ => storage.dtype(),
+    };
     let mut output = CpuDevice::allocate(output_shape.size(), dtype)?;
 
+    if dtype != storage.dtype() || dtype == DType::BOOL {
+        let input_ptr = storage.as_ptr() as *const c_void;
+        let out_ptr = output.as_mut_ptr() as *mut c_void;
+        hodu_cpu_kernels::call_ops_reduce(kernel, input_ptr, out_ptr, &metadata)?;
+        return Ok(output);
+    }
+
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
         ($input_data:expr, $out_data:expr) => {{
-- 
2.43.0


From c8e1703e1cf3f8b37a0d890a0da7639b8c4bdd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 18/76] fix: norm honours fractional orders, and captured
 argmax and argmin are I32

---
 crates/hodu_core/src/tensor/ops/reduce.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index adb5ac2..b78e557 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -87,9 +87,9 @@ impl Tensor {
 
     pub fn norm<D: Into<Scalar> + Copy>(&self, p: impl Into<Scalar>, dims: &[D], keep_dim: bool) -> HoduResult<Self> {
         let p_scalar = p.into();
-        match p_scalar.to_i32() {
-            1 => self.l1_norm(dims, keep_dim),
-            2 => self.l2_norm(dims, keep_dim),
+        match p_scalar.to_f32() {
+            p if p == 1.0 => self.l1_norm(dims, keep_dim),
+            p if p == 2.0 => self.l2_norm(dims, keep_dim),
             _ => {
                 let p_dtype = p_scalar.to_dtype(self.dtype());
                 self.abs()?
@@ -187,6 +187,7 @@ impl Tensor {
             // Determine output dtype based on operation
             let output_dtype = match reduce_op {
                 ReduceOp::Any | ReduceOp::All => DType::BOOL,
+                ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
                 _ => self.dtype(),
             };
 
-- 
2.43.0


From fed222807b183206d13b925500c8ba0d3e8b4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 19/76] fix: the gradient of rem with respect to the divisor
 truncates like rem itself

---
 crates/hodu_core/src/tensor/gradient/vjp_binary.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_binary.rs b/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
index 599a555..e7c560f 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
@@ -45,12 +45,13 @@ impl VjpCompute for BinaryOp {
                 ])
             },
             BinaryOp::Rem => {
-                // z = x % y = x - floor(x/y) * y
+                // z = x % y = x - trunc(x/y) * y (the result has the sign of x)
                 // dz/dx = 1
-                // dz/dy = -floor(x/y)
+                // dz/dy = -trunc(x/y) = -sign(x/y) * floor(|x/y|)
                 let x_div_y = create_div_tensor(inputs[0], inputs[1])?;
-                let floor_x_div_y = create_floor_tensor(x_div_y)?;
-                let grad_b_raw = create_neg_tensor(create_mul_tensor(grad_output, floor_x_div_y)?)?;
+                let floor_abs = create_floor_tensor(create_abs_tensor(x_div_y)?)?;
+                let trunc_x_div_y = create_mul_tensor(create_sign_tensor(x_div_y)?, floor_abs)?;
+                let grad_b_raw = create_neg_tensor(create_mul_tensor(grad_output, trunc_x_div_y)?)?;
                 Ok(vec![
                     create_sum_to_shape_tensor(grad_output, &input_a_shape)?,
                     create_sum_to_shape_tensor(grad_b_raw, &input_b_shape)?,
-- 
2.43.0


From a194a5f4efcec852ce841a50b0e1a61f1f12aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 20/76] fix: the gradient of prod is finite next to zeros

---
 .../src/tensor/gradient/vjp_reduce.rs         | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
index c5bc9ac..b4d9a61 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
@@ -60,9 +60,23 @@ impl VjpCompute for ReduceOp {
                 Ok(vec![broadcasted.id()])
             },
             ReduceOp::Prod => {
-                // d/dx prod(x) = prod(x) / x_i for each element x_i
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = broadcasted_output.div(&input_tensor)?;
+                // d/dx prod(x) = product of the other elements: prod(x) / x_i where no element is zero.
+                // Next to a single zero only that zero has a gradient, the product of the rest; next to
+                // more than one, nothing has.
+                let zero = Scalar::zero(dtype);
+                let one = Scalar::one(dtype);
+                let is_zero = input_tensor.eq_scalar(zero)?.to_dtype(dtype)?;
+                let nonzero_input = input_tensor.add(&is_zero)?;
+                let zero_count = is_zero.sum(&reduce_dims, true)?;
+                let nonzero_prod = nonzero_input.prod(&reduce_dims, true)?;
+                let no_zero = zero_count.eq_scalar(zero)?.to_dtype(dtype)?;
+                let one_zero = zero_count.eq_scalar(one)?.to_dtype(dtype)?;
+                let if_no_zero = nonzero_prod
+                    .mul(&no_zero)?
+                    .broadcast(&input_shape)?
+                    .div(&nonzero_input)?;
+                let if_one_zero = nonzero_prod.mul(&one_zero)?.broadcast(&input_shape)?.mul(&is_zero)?;
+                let derivative = if_no_zero.add(&if_one_zero)?;
                 let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
                 let result = derivative.mul(&broadcasted_grad)?;
                 Ok(vec![result.id()])
-- 
2.43.0


From 4e4901b3a25c7ca4af987ebb3022fb63b73d91da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 21/76] fix: BLAS matmul pairs several batch axes correctly and
 leaves broadcast rows and columns to the fallback

---
 .../ops_matrix_blas_aarch64_apple_darwin.c    | 65 +++++++++++--------
 .../kernels/ops_matrix_openblas.c             | 65 +++++++++++--------
 2 files changed, 78 insertions(+), 52 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
index ebec0b5..d4cc8be 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
@@ -44,10 +44,15 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // The other stride has to be a valid leading dimension (it is not for broadcast rows or columns)
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1) && (lhs_strides[lhs_ndim - 2] >= K || M == 1);
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1) && (lhs_strides[lhs_ndim - 1] >= M || K == 1);
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1) && (rhs_strides[rhs_ndim - 2] >= N || K == 1);
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1) && (rhs_strides[rhs_ndim - 1] >= K || N == 1);
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -100,12 +105,14 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
+                    // This batch axis, counted from the end of the operands' axes
+                    size_t from_end = 2 + (batch_ndim - i) + 1;
 
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Apply broadcasting: if shape is 1 (or the axis is missing), use index 0
+                    if (from_end <= lhs_ndim && lhs_shape[lhs_ndim - from_end] != 1)
+                        lhs_batch_offset += dim_idx * lhs_strides[lhs_ndim - from_end];
+                    if (from_end <= rhs_ndim && rhs_shape[rhs_ndim - from_end] != 1)
+                        rhs_batch_offset += dim_idx * rhs_strides[rhs_ndim - from_end];
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -149,10 +156,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1) && (lhs_strides[lhs_ndim - 2] >= K || M == 1);
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1) && (lhs_strides[lhs_ndim - 1] >= M || K == 1);
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1) && (rhs_strides[rhs_ndim - 2] >= N || K == 1);
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1) && (rhs_strides[rhs_ndim - 1] >= K || N == 1);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -201,12 +212,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
+                    // This batch axis, counted from the end of the operands' axes
+                    size_t from_end = 2 + (batch_ndim - i) + 1;
 
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Apply broadcasting: if shape is 1 (or the axis is missing), use index 0
+                    if (from_end <= lhs_ndim && lhs_shape[lhs_ndim - from_end] != 1)
+                        lhs_batch_offset += dim_idx * lhs_strides[lhs_ndim - from_end];
+                    if (from_end <= rhs_ndim && rhs_shape[rhs_ndim - from_end] != 1)
+                        rhs_batch_offset += dim_idx * rhs_strides[rhs_ndim - from_end];
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -245,10 +258,10 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1) && (lhs_stride_m >= K || M == 1);
+    bool lhs_col_major = (lhs_stride_m == 1) && (lhs_stride_k >= M || K == 1);
+    bool rhs_row_major = (rhs_stride_n == 1) && (rhs_stride_k >= N || K == 1);
+    bool rhs_col_major = (rhs_stride_k == 1) && (rhs_stride_n >= K || N == 1);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -302,10 +315,10 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1) && (lhs_stride_m >= K || M == 1);
+    bool lhs_col_major = (lhs_stride_m == 1) && (lhs_stride_k >= M || K == 1);
+    bool rhs_row_major = (rhs_stride_n == 1) && (rhs_stride_k >= N || K == 1);
+    bool rhs_col_major = (rhs_stride_k == 1) && (rhs_stride_n >= K || N == 1);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 50bd87e..42b8ebc 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -44,10 +44,15 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // The other stride has to be a valid leading dimension (it is not for broadcast rows or columns)
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1) && (lhs_strides[lhs_ndim - 2] >= K || M == 1);
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1) && (lhs_strides[lhs_ndim - 1] >= M || K == 1);
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1) && (rhs_strides[rhs_ndim - 2] >= N || K == 1);
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1) && (rhs_strides[rhs_ndim - 1] >= K || N == 1);
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -126,12 +131,14 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
+                    // This batch axis, counted from the end of the operands' axes
+                    size_t from_end = 2 + (batch_ndim - i) + 1;
 
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Apply broadcasting: if shape is 1 (or the axis is missing), use index 0
+                    if (from_end <= lhs_ndim && lhs_shape[lhs_ndim - from_end] != 1)
+                        lhs_batch_offset += dim_idx * lhs_strides[lhs_ndim - from_end];
+                    if (from_end <= rhs_ndim && rhs_shape[rhs_ndim - from_end] != 1)
+                        rhs_batch_offset += dim_idx * rhs_strides[rhs_ndim - from_end];
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -179,10 +186,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1) && (lhs_strides[lhs_ndim - 2] >= K || M == 1);
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1) && (lhs_strides[lhs_ndim - 1] >= M || K == 1);
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1) && (rhs_strides[rhs_ndim - 2] >= N || K == 1);
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1) && (rhs_strides[rhs_ndim - 1] >= K || N == 1);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -256,12 +267,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
+                    // This batch axis, counted from the end of the operands' axes
+                    size_t from_end = 2 + (batch_ndim - i) + 1;
 
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Apply broadcasting: if shape is 1 (or the axis is missing), use index 0
+                    if (from_end <= lhs_ndim && lhs_shape[lhs_ndim - from_end] != 1)
+                        lhs_batch_offset += dim_idx * lhs_strides[lhs_ndim - from_end];
+                    if (from_end <= rhs_ndim && rhs_shape[rhs_ndim - from_end] != 1)
+                        rhs_batch_offset += dim_idx * rhs_strides[rhs_ndim - from_end];
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -304,10 +317,10 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1) && (lhs_stride_m >= K || M == 1);
+    bool lhs_col_major = (lhs_stride_m == 1) && (lhs_stride_k >= M || K == 1);
+    bool rhs_row_major = (rhs_stride_n == 1) && (rhs_stride_k >= N || K == 1);
+    bool rhs_col_major = (rhs_stride_k == 1) && (rhs_stride_n >= K || N == 1);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -361,10 +374,10 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1) && (lhs_stride_m >= K || M == 1);
+    bool lhs_col_major = (lhs_stride_m == 1) && (lhs_stride_k >= M || K == 1);
+    bool rhs_row_major = (rhs_stride_n == 1) && (rhs_stride_k >= N || K == 1);
+    bool rhs_col_major = (rhs_stride_k == 1) && (rhs_stride_n >= K || N == 1);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-- 
2.43.0


From 4b1de84fb931b3c5d3dbf4d28846856574a9ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 22/76] fix: transposed convolutions take [in_channels,
 out_channels, k] weights as the kernels do, and honour output_padding

---
 crates/hodu_core/src/be/storage.rs            |   5 +
 crates/hodu_core/src/be_cpu/storage.rs        |   2 +
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  | 157 +++++-------------
 crates/hodu_core/src/be_cuda/storage.rs       |  13 +-
 .../hodu_core/src/be_cuda/storage/ops_conv.rs |  22 +--
 crates/hodu_core/src/be_metal/storage.rs      |   2 +
 .../src/be_metal/storage/ops_conv.rs          |  18 +-
 .../hodu_core/src/tensor/gradient/vjp_conv.rs |  25 +--
 crates/hodu_core/src/tensor/ops/conv.rs       |  36 ++--
 9 files changed, 94 insertions(+), 186 deletions(-)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index b469a4f..2faed24 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -116,6 +116,7 @@ pub trait BackendStorageT: Sized {
         _: &[usize],
         _: &[usize],
         _: &[usize],
+        _: &Shape,
         _: Op,
     ) -> HoduResult<Self>;
 
@@ -1034,6 +1035,7 @@ impl BackendStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_shape: &Shape,
         op: Op,
     ) -> HoduResult<Self> {
         // Check devices match
@@ -1054,6 +1056,7 @@ impl BackendStorage {
                 stride,
                 padding,
                 dilation,
+                output_shape,
                 op,
             )?)),
             #[cfg(feature = "cuda")]
@@ -1064,6 +1067,7 @@ impl BackendStorage {
                 stride,
                 padding,
                 dilation,
+                output_shape,
                 op,
             )?)),
             #[cfg(feature = "metal")]
@@ -1074,6 +1078,7 @@ impl BackendStorage {
                 stride,
                 padding,
                 dilation,
+                output_shape,
                 op,
             )?)),
             #[cfg(any(feature = "cuda", feature = "metal"))]
diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 71070bf..b921af4 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -572,6 +572,7 @@ impl BackendStorageT for CpuStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_shape: &crate::types::Shape,
         op: Op,
     ) -> HoduResult<Self> {
         ops_conv::call_ops_conv(
@@ -582,6 +583,7 @@ impl BackendStorageT for CpuStorage {
             stride,
             padding,
             dilation,
+            output_shape,
             op,
         )
     }
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 79cd064..00fa9a4 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -17,6 +17,7 @@ use core::ffi::c_void;
 /// * `stride` - Stride values
 /// * `padding` - Padding values
 /// * `dilation` - Dilation values
+/// * `output_shape` - Shape of the output tensor
 /// * `op` - The convolution operation
 ///
 /// # Returns
@@ -30,6 +31,7 @@ pub fn call_ops_conv(
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
+    output_shape: &Shape,
     op: Op,
 ) -> HoduResult<CpuStorage> {
     // Validate op
@@ -68,7 +70,8 @@ pub fn call_ops_conv(
         )));
     }
 
-    // Validate weight shape: [out_channels, in_channels, kernel...]
+    // Validate weight shape: [out_channels, in_channels, kernel...],
+    // or [in_channels, out_channels, kernel...] for the transposed forms
     let weight_ndim = weight_shape.ndim();
     if weight_ndim != (2 + spatial_dims) {
         return Err(HoduError::BackendError(format!(
@@ -78,133 +81,47 @@ pub fn call_ops_conv(
         )));
     }
 
-    let batch_size = input_shape.dims()[0];
     let in_channels = input_shape.dims()[1];
-    let out_channels = weight_shape.dims()[0];
+    let weight_in_channels = match conv_op {
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d => weight_shape.dims()[0],
+        _ => weight_shape.dims()[1],
+    };
 
     // Validate in_channels match
-    if weight_shape.dims()[1] != in_channels {
+    if weight_in_channels != in_channels {
         return Err(HoduError::BackendError(format!(
             "weight in_channels {} does not match input in_channels {}",
-            weight_shape.dims()[1],
-            in_channels
+            weight_in_channels, in_channels
         )));
     }
 
-    // Build metadata and compute output shape based on spatial dimensions
-    let (metadata, output_shape) = match spatial_dims {
-        1 => {
-            let in_width = input_shape.dims()[2];
-            let kernel_width = weight_shape.dims()[2];
-            let stride_w = stride[0];
-            let padding_w = padding[0];
-            let dilation_w = dilation[0];
-
-            let out_width = if matches!(conv_op, ConvOp::ConvTranspose1d) {
-                // Transposed convolution
-                (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1
-            } else {
-                // Standard convolution
-                (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1
-            };
-
-            let output_shape = Shape::new(&[batch_size, out_channels, out_width]);
-
-            let output_shape_vec = vec![batch_size, out_channels, out_width];
-            let metadata = crate::op_metadatas::conv1d_metadata(
-                input_layout,
-                weight_layout,
-                stride_w,
-                padding_w,
-                dilation_w,
-                &output_shape_vec,
-            );
-
-            (metadata, output_shape)
-        },
-        2 => {
-            let in_height = input_shape.dims()[2];
-            let in_width = input_shape.dims()[3];
-            let kernel_height = weight_shape.dims()[2];
-            let kernel_width = weight_shape.dims()[3];
-            let stride_h = stride[0];
-            let stride_w = stride[1];
-            let padding_h = padding[0];
-            let padding_w = padding[1];
-            let dilation_h = dilation[0];
-            let dilation_w = dilation[1];
-
-            let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
-                // Transposed convolution
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
-                (out_h, out_w)
-            } else {
-                // Standard convolution
-                let out_h = (in_height + 2 * padding_h - dilation_h * (kernel_height - 1) - 1) / stride_h + 1;
-                let out_w = (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1;
-                (out_h, out_w)
-            };
-
-            let output_shape = Shape::new(&[batch_size, out_channels, out_height, out_width]);
-
-            let output_shape_vec = vec![batch_size, out_channels, out_height, out_width];
-            let metadata = crate::op_metadatas::conv2d_metadata(
-                input_layout,
-                weight_layout,
-                &[stride_h, stride_w],
-                &[padding_h, padding_w],
-                &[dilation_h, dilation_w],
-                &output_shape_vec,
-            );
-
-            (metadata, output_shape)
-        },
-        3 => {
-            let in_depth = input_shape.dims()[2];
-            let in_height = input_shape.dims()[3];
-            let in_width = input_shape.dims()[4];
-            let kernel_depth = weight_shape.dims()[2];
-            let kernel_height = weight_shape.dims()[3];
-            let kernel_width = weight_shape.dims()[4];
-            let stride_d = stride[0];
-            let stride_h = stride[1];
-            let stride_w = stride[2];
-            let padding_d = padding[0];
-            let padding_h = padding[1];
-            let padding_w = padding[2];
-            let dilation_d = dilation[0];
-            let dilation_h = dilation[1];
-            let dilation_w = dilation[2];
-
-            let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
-                // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d - 2 * padding_d + dilation_d * (kernel_depth - 1) + 1;
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
-                (out_d, out_h, out_w)
-            } else {
-                // Standard convolution
-                let out_d = (in_depth + 2 * padding_d - dilation_d * (kernel_depth - 1) - 1) / stride_d + 1;
-                let out_h = (in_height + 2 * padding_h - dilation_h * (kernel_height - 1) - 1) / stride_h + 1;
-                let out_w = (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1;
-                (out_d, out_h, out_w)
-            };
-
-            let output_shape = Shape::new(&[batch_size, out_channels, out_depth, out_height, out_width]);
-
-            let output_shape_vec = vec![batch_size, out_channels, out_depth, out_height, out_width];
-            let metadata = crate::op_metadatas::conv3d_metadata(
-                input_layout,
-                weight_layout,
-                &[stride_d, stride_h, stride_w],
-                &[padding_d, padding_h, padding_w],
-                &[dilation_d, dilation_h, dilation_w],
-                &output_shape_vec,
-            );
-
-            (metadata, output_shape)
-        },
+    // Build metadata based on spatial dimensions
+    let output_dims = output_shape.dims();
+    let metadata = match spatial_dims {
+        1 => crate::op_metadatas::conv1d_metadata(
+            input_layout,
+            weight_layout,
+            stride[0],
+            padding[0],
+            dilation[0],
+            output_dims,
+        ),
+        2 => crate::op_metadatas::conv2d_metadata(
+            input_layout,
+            weight_layout,
+            stride,
+            padding,
+            dilation,
+            output_dims,
+        ),
+        3 => crate::op_metadatas::conv3d_metadata(
+            input_layout,
+            weight_layout,
+            stride,
+            padding,
+            dilation,
+            output_dims,
+        ),
         _ => unreachable!(),
     };
 
diff --git a/crates/hodu_core/src/be_cuda/storage.rs b/crates/hodu_core/src/be_cuda/storage.rs
index 3269532..84d0d93 100644
--- a/crates/hodu_core/src/be_cuda/storage.rs
+++ b/crates/hodu_core/src/be_cuda/storage.rs
@@ -485,9 +485,20 @@ impl BackendStorageT for CudaStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_shape: &crate::types::Shape,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_conv::call_ops_conv(self, layout, weight, weight_layout, stride, padding, dilation, op)
+        ops_conv::call_ops_conv(
+            self,
+            layout,
+            weight,
+            weight_layout,
+            stride,
+            padding,
+            dilation,
+            output_shape,
+            op,
+        )
     }
 
     fn call_ops_conv_grad_weight(
diff --git a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
index e95ca1b..68eb9d4 100644
--- a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
@@ -3,7 +3,7 @@ use crate::{
     be_cuda::storage::{CudaStorage, CudaStorageData},
     error::{HoduError, HoduResult},
     ops::Op,
-    types::Layout,
+    types::{Layout, Shape},
 };
 use hodu_cuda_kernels::{cuda::CudaSlice, kernels};
 
@@ -16,6 +16,7 @@ pub fn call_ops_conv(
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
+    output_shape: &Shape,
     op: Op,
 ) -> HoduResult<CudaStorage> {
     let conv_op = match op {
@@ -23,23 +24,8 @@ pub fn call_ops_conv(
         _ => return Err(HoduError::BackendError("call_ops_conv expects conv op".to_string())),
     };
 
-    let input_shape = input_layout.shape();
-    let weight_shape = weight_layout.shape();
-
-    let batch_size = input_shape[0];
-    let out_channels = weight_shape[0];
-
-    let spatial_dims = input_shape.ndim() - 2;
-    let mut output_shape_vec = Vec::with_capacity(spatial_dims + 2);
-    output_shape_vec.push(batch_size);
-    output_shape_vec.push(out_channels);
-
-    for i in 0..spatial_dims {
-        let input_size = input_shape[2 + i];
-        let kernel_size = weight_shape[2 + i];
-        let output_size = (input_size + 2 * padding[i] - dilation[i] * (kernel_size - 1) - 1) / stride[i] + 1;
-        output_shape_vec.push(output_size);
-    }
+    let spatial_dims = input_layout.shape().ndim() - 2;
+    let output_shape_vec = output_shape.dims().to_vec();
 
     let output_size: usize = output_shape_vec.iter().product();
 
diff --git a/crates/hodu_core/src/be_metal/storage.rs b/crates/hodu_core/src/be_metal/storage.rs
index cda3dd8..e1edb9d 100644
--- a/crates/hodu_core/src/be_metal/storage.rs
+++ b/crates/hodu_core/src/be_metal/storage.rs
@@ -407,6 +407,7 @@ impl BackendStorageT for MetalStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_shape: &crate::types::Shape,
         op: Op,
     ) -> HoduResult<Self> {
         ops_conv::call_ops_conv(
@@ -417,6 +418,7 @@ impl BackendStorageT for MetalStorage {
             stride,
             padding,
             dilation,
+            output_shape,
             op,
         )
     }
diff --git a/crates/hodu_core/src/be_metal/storage/ops_conv.rs b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
index a28a7bc..9291e96 100644
--- a/crates/hodu_core/src/be_metal/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
@@ -16,6 +16,7 @@ pub fn call_ops_conv(
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
+    output_shape: &Shape,
     op: Op,
 ) -> HoduResult<MetalStorage> {
     // Validate op
@@ -25,7 +26,6 @@ pub fn call_ops_conv(
     };
 
     let input_shape = input_layout.shape();
-    let weight_shape = weight_layout.shape();
     let input_ndim = input_shape.ndim();
 
     // Validate conv dimensions (needs at least [N, C, ...spatial])
@@ -37,21 +37,7 @@ pub fn call_ops_conv(
 
     let spatial_dims = input_ndim - 2;
 
-    // Compute output spatial dimensions
-    let mut output_shape_vec: Vec<usize> = vec![input_shape.dims()[0], weight_shape.dims()[0]];
-
-    for i in 0..spatial_dims {
-        let input_size = input_shape.dims()[2 + i];
-        let kernel_size = weight_shape.dims()[2 + i];
-        let s = stride[i];
-        let p = padding[i];
-        let d = dilation[i];
-
-        let output_size = (input_size + 2 * p - d * (kernel_size - 1) - 1) / s + 1;
-        output_shape_vec.push(output_size);
-    }
-
-    let output_shape = Shape::new(&output_shape_vec);
+    let output_shape_vec = output_shape.dims().to_vec();
     let num_els = output_shape.size();
 
     // Generate metadata using centralized function based on spatial dimensions
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index abbadb7..c4de93a 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -38,11 +38,9 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv1d weight: [Co, Ci, K], Conv_transpose1d (backend): w [Co_out, Ci_in, K]
-                // Transpose needed: [Co, Ci, K] -> [Ci, Co, K]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose1d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv1d weight: [Co, Ci, K], Conv_transpose1d weight: [Ci_in, Co_out, K]
+                // with Ci_in = Co and Co_out = Ci: the same weight
+                let grad_input = grad_output_tensor.conv_transpose1d(&weight, stride, padding, 0, dilation)?;
 
                 // Gradient w.r.t. weight: conv1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_output, channels_input, kernel_size];
@@ -78,11 +76,9 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: use transposed convolution
                 // Conv2d: x [N, Ci, H, W] * w [Co, Ci, K, K] -> y [N, Co, H', W']
                 // Backward: grad_y [N, Co, H', W'] -> grad_x [N, Ci, H, W]
-                // Conv_transpose2d (backend): input [N, Ci_in, H, W] * w [Co_out, Ci_in, K, K] -> output [N, Co_out, H', W']
-                // For backward: grad_y [N, Co, H', W'] needs w [Ci, Co, K, K] (transpose needed!)
-                let weight_transposed = weight.transpose(0, 1)?; // [Co, Ci, K, K] -> [Ci, Co, K, K]
-                let grad_input =
-                    grad_output_tensor.conv_transpose2d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv_transpose2d: input [N, Ci_in, H, W] * w [Ci_in, Co_out, K, K] -> output [N, Co_out, H', W']
+                // with Ci_in = Co and Co_out = Ci: the same weight
+                let grad_input = grad_output_tensor.conv_transpose2d(&weight, stride, padding, 0, dilation)?;
 
                 // Gradient w.r.t. weight: conv2d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape_vec = vec![channels_output, channels_input, kernel_height, kernel_width];
@@ -117,11 +113,9 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d (backend): w [Co_out, Ci_in, ...]
-                // Transpose needed: [Co, Ci, ...] -> [Ci, Co, ...]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose3d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d weight: [Ci_in, Co_out, ...]
+                // with Ci_in = Co and Co_out = Ci: the same weight
+                let grad_input = grad_output_tensor.conv_transpose3d(&weight, stride, padding, 0, dilation)?;
 
                 // Gradient w.r.t. weight: conv3d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![
@@ -162,7 +156,6 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: Use regular Conv1d
-                // weight shape for conv1d is [Co, Ci, K], but we need to transpose channels
                 let grad_input = grad_output_tensor.conv1d(&weight, stride, padding, dilation)?;
 
                 // Gradient w.r.t. weight: conv_transpose1d_grad_weight(input, grad_output, weight_shape)
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index c11a81e..0db8140 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -115,6 +115,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        result_layout.shape(),
                         Op::Conv(ConvOp::Conv1d),
                     )
                 })
@@ -241,6 +242,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        result_layout.shape(),
                         Op::Conv(ConvOp::Conv2d),
                     )
                 })
@@ -372,6 +374,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        result_layout.shape(),
                         Op::Conv(ConvOp::Conv3d),
                     )
                 })
@@ -406,7 +409,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, length]
-        // Weight: [out_channels, in_channels, kernel_size] (same as conv1d)
+        // Weight: [in_channels, out_channels, kernel_size]
         if input_dims.len() != 3 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -425,10 +428,10 @@ impl Tensor {
         let batch_size = input_dims[0];
         let _channels_input = input_dims[1];
         let length_input = input_dims[2];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K]
         let kernel_size = weight_dims[2];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -445,7 +448,7 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride - 2 * padding + dilation * (kernel_size - 1) + output_padding + 1;
+            (length_input - 1) * stride + dilation * (kernel_size - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -503,6 +506,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        result_layout.shape(),
                         Op::Conv(ConvOp::ConvTranspose1d),
                     )
                 })
@@ -537,7 +541,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, height, width]
-        // Weight: [out_channels, in_channels, kernel_h, kernel_w] (same as conv2d)
+        // Weight: [in_channels, out_channels, kernel_h, kernel_w]
         if input_dims.len() != 4 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -557,11 +561,11 @@ impl Tensor {
         let _channels_input = input_dims[1];
         let input_height = input_dims[2];
         let input_width = input_dims[3];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K, K]
         let kernel_height = weight_dims[2];
         let kernel_width = weight_dims[3];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -578,9 +582,9 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -640,6 +644,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        result_layout.shape(),
                         Op::Conv(ConvOp::ConvTranspose2d),
                     )
                 })
@@ -674,7 +679,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, depth, height, width]
-        // Weight: [out_channels, in_channels, kernel_d, kernel_h, kernel_w] (same as conv3d)
+        // Weight: [in_channels, out_channels, kernel_d, kernel_h, kernel_w]
         if input_dims.len() != 5 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -695,12 +700,12 @@ impl Tensor {
         let input_depth = input_dims[2];
         let input_height = input_dims[3];
         let input_width = input_dims[4];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, ...]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, ...]
         let kernel_depth = weight_dims[2];
         let kernel_height = weight_dims[3];
         let kernel_width = weight_dims[4];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -717,11 +722,11 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride - 2 * padding + dilation * (kernel_depth - 1) + output_padding + 1;
+            (input_depth - 1) * stride + dilation * (kernel_depth - 1) + output_padding + 1 - 2 * padding;
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
@@ -783,6 +788,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        result_layout.shape(),
                         Op::Conv(ConvOp::ConvTranspose3d),
                     )
                 })
-- 
2.43.0


From fb2d5bfc419cbb5ba0b7db5c30337ba3141a4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 23/76] fix: the BLAS conv2d kernels multiply by the im2col
 buffer in the orientation it is written

---
 .../ops_conv_blas_aarch64_apple_darwin.c      | 32 +++++++++----------
 .../kernels/ops_conv_openblas.c               | 32 +++++++++----------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
index bd0afb8..ef9ad78 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
index 6c10fad..1301dde 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
-- 
2.43.0


From e48204e4dea036ada39aee8e2deebd2878b22115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 24/76] fix: convolutions read non-contiguous operands through
 their strides

---
 crates/hodu_core/src/be/storage.rs | 43 ++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index 2faed24..2cbaf62 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -1048,6 +1048,34 @@ impl BackendStorage {
             });
         }
 
+        // The kernels read both operands contiguously
+        if !layout.is_contiguous() {
+            let layout_contiguous = Layout::from_shape(layout.shape());
+            return self.contiguous(layout)?.call_ops_conv(
+                &layout_contiguous,
+                weight_storage,
+                weight_layout,
+                stride,
+                padding,
+                dilation,
+                output_shape,
+                op,
+            );
+        }
+        if !weight_layout.is_contiguous() {
+            let weight_layout_contiguous = Layout::from_shape(weight_layout.shape());
+            return self.call_ops_conv(
+                layout,
+                &weight_storage.contiguous(weight_layout)?,
+                &weight_layout_contiguous,
+                stride,
+                padding,
+                dilation,
+                output_shape,
+                op,
+            );
+        }
+
         match (self, weight_storage) {
             (Self::CPU(storage), Self::CPU(weight)) => Ok(Self::CPU(storage.call_ops_conv(
                 layout,
@@ -1110,6 +1138,21 @@ impl BackendStorage {
             });
         }
 
+        // The kernels read the input contiguously
+        if !layout.is_contiguous() {
+            let layout_contiguous = Layout::from_shape(layout.shape());
+            return self.contiguous(layout)?.call_ops_conv_grad_weight(
+                &layout_contiguous,
+                grad_output_storage,
+                grad_output_layout,
+                weight_shape,
+                stride,
+                padding,
+                dilation,
+                op,
+            );
+        }
+
         match (self, grad_output_storage) {
             (Self::CPU(storage), Self::CPU(grad_output)) => Ok(Self::CPU(storage.call_ops_conv_grad_weight(
                 layout,
-- 
2.43.0


From 36eb88eafc25a163ee3d18a185f36105f05e4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 25/76] fix: convolution gradients have the shape of the input
 when the stride does not divide it

---
 .../hodu_core/src/tensor/gradient/vjp_conv.rs | 45 +++++++++++++++++--
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index c4de93a..29aca08 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -2,9 +2,31 @@ use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
     ops::{ConvOp, OpParams},
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
+/// The largest number of trailing input positions, over the spatial dimensions, that the stride of a
+/// convolution leaves out: its gradient is that much larger than the plain transposed convolution.
+fn unused_positions(input: &[usize], kernel: &[usize], stride: usize, padding: usize, dilation: usize) -> usize {
+    input
+        .iter()
+        .zip(kernel)
+        .map(|(n, k)| (n + 2 * padding - dilation * (k - 1) - 1) % stride)
+        .max()
+        .unwrap_or(0)
+}
+
+/// Drop the trailing spatial positions of a gradient that its input does not have.
+fn crop_spatial(grad: Tensor, input: &[usize]) -> HoduResult<Tensor> {
+    let mut grad = grad;
+    for (i, &size) in input.iter().enumerate() {
+        if grad.shape().dims()[2 + i] > size {
+            grad = grad.slice(2 + i, 0, Some(size as isize), 1)?;
+        }
+    }
+    Ok(grad)
+}
+
 impl VjpCompute for ConvOp {
     fn compute_vjp(
         &self,
@@ -40,7 +62,11 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: use transposed convolution
                 // Conv1d weight: [Co, Ci, K], Conv_transpose1d weight: [Ci_in, Co_out, K]
                 // with Ci_in = Co and Co_out = Ci: the same weight
-                let grad_input = grad_output_tensor.conv_transpose1d(&weight, stride, padding, 0, dilation)?;
+                let input_size = [p.length_input];
+                let output_padding = unused_positions(&input_size, &[kernel_size], stride, padding, dilation);
+                let grad_input =
+                    grad_output_tensor.conv_transpose1d(&weight, stride, padding, output_padding, dilation)?;
+                let grad_input = crop_spatial(grad_input, &input_size)?;
 
                 // Gradient w.r.t. weight: conv1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_output, channels_input, kernel_size];
@@ -78,7 +104,11 @@ impl VjpCompute for ConvOp {
                 // Backward: grad_y [N, Co, H', W'] -> grad_x [N, Ci, H, W]
                 // Conv_transpose2d: input [N, Ci_in, H, W] * w [Ci_in, Co_out, K, K] -> output [N, Co_out, H', W']
                 // with Ci_in = Co and Co_out = Ci: the same weight
-                let grad_input = grad_output_tensor.conv_transpose2d(&weight, stride, padding, 0, dilation)?;
+                let input_size = [p.input_height, p.input_width];
+                let output_padding = unused_positions(&input_size, &[kernel_height, kernel_width], stride, padding, dilation);
+                let grad_input =
+                    grad_output_tensor.conv_transpose2d(&weight, stride, padding, output_padding, dilation)?;
+                let grad_input = crop_spatial(grad_input, &input_size)?;
 
                 // Gradient w.r.t. weight: conv2d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape_vec = vec![channels_output, channels_input, kernel_height, kernel_width];
@@ -115,7 +145,11 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: use transposed convolution
                 // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d weight: [Ci_in, Co_out, ...]
                 // with Ci_in = Co and Co_out = Ci: the same weight
-                let grad_input = grad_output_tensor.conv_transpose3d(&weight, stride, padding, 0, dilation)?;
+                let input_size = [p.input_depth, p.input_height, p.input_width];
+                let output_padding = unused_positions(&input_size, &[kernel_depth, kernel_height, kernel_width], stride, padding, dilation);
+                let grad_input =
+                    grad_output_tensor.conv_transpose3d(&weight, stride, padding, output_padding, dilation)?;
+                let grad_input = crop_spatial(grad_input, &input_size)?;
 
                 // Gradient w.r.t. weight: conv3d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![
@@ -157,6 +191,7 @@ impl VjpCompute for ConvOp {
 
                 // Gradient w.r.t. input: Use regular Conv1d
                 let grad_input = grad_output_tensor.conv1d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_spatial(grad_input, &[p.length_input])?;
 
                 // Gradient w.r.t. weight: conv_transpose1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_input, channels_output, kernel_size];
@@ -198,6 +233,7 @@ impl VjpCompute for ConvOp {
 
                 // Gradient w.r.t. input: Use regular Conv2d
                 let grad_input = grad_output_tensor.conv2d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_spatial(grad_input, &[p.input_height, p.input_width])?;
 
                 // Gradient w.r.t. weight: conv_transpose2d_grad_weight
                 let weight_shape = vec![channels_input, channels_output, kernel_height, kernel_width];
@@ -240,6 +276,7 @@ impl VjpCompute for ConvOp {
 
                 // Gradient w.r.t. input: Use regular Conv3d
                 let grad_input = grad_output_tensor.conv3d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_spatial(grad_input, &[p.input_depth, p.input_height, p.input_width])?;
 
                 // Gradient w.r.t. weight: conv_transpose3d_grad_weight
                 let weight_shape = vec![
-- 
2.43.0


From 047bc668e750d57caad55e3354c3e3da0d4981c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 26/76] fix: pad honours the strides and offset of its input

---
 crates/hodu_core/src/be/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index 2cbaf62..88b2516 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -1237,6 +1237,16 @@ impl BackendStorage {
         pad_value: Scalar,
         op: Op,
     ) -> HoduResult<Self> {
+        // The padding kernels read the input as a dense row-major buffer.
+        if !layout.is_contiguous() || layout.offset() != 0 {
+            return self.contiguous(layout)?.call_ops_pad(
+                &Layout::from_shape(layout.shape()),
+                pad_before,
+                pad_after,
+                pad_value,
+                op,
+            );
+        }
         match self {
             Self::CPU(storage) => Ok(Self::CPU(
                 storage.call_ops_pad(layout, pad_before, pad_after, pad_value, op)?,
-- 
2.43.0


From 3c5b298b5327fef2dcbff00b28e161974e96f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 27/76] fix: flip honours the strides and offset of its input

---
 crates/hodu_core/src/be/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index 88b2516..3ea43e5 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -1372,6 +1372,12 @@ impl BackendStorage {
     }
 
     pub(crate) fn call_ops_flip(&self, layout: &Layout, dims: &[usize]) -> HoduResult<Self> {
+        // The flip kernel reads the input as a dense row-major buffer.
+        if !layout.is_contiguous() || layout.offset() != 0 {
+            return self
+                .contiguous(layout)?
+                .call_ops_flip(&Layout::from_shape(layout.shape()), dims);
+        }
         match self {
             Self::CPU(storage) => Ok(Self::CPU(storage.call_ops_flip(layout, dims)?)),
             #[cfg(feature = "cuda")]
-- 
2.43.0


From b3ffd2c69e47e69a61d717c61c09f69f31791e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 28/76] fix: onehot honours the strides and offset of its
 indices

---
 crates/hodu_core/src/be/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index 3ea43e5..b30f72b 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -913,6 +913,16 @@ impl BackendStorage {
         output_dtype: DType,
         op: Op,
     ) -> HoduResult<Self> {
+        // The one-hot kernel reads the indices as a dense row-major buffer.
+        if !layout.is_contiguous() || layout.offset() != 0 {
+            return self.contiguous(layout)?.call_ops_onehot(
+                &Layout::from_shape(layout.shape()),
+                num_classes,
+                axis,
+                output_dtype,
+                op,
+            );
+        }
         match self {
             Self::CPU(storage) => Ok(Self::CPU(storage.call_ops_onehot(
                 layout,
-- 
2.43.0


From ca84d5db655eced8a375ac7f01bee621c49a4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 29/76] fix: chunk no longer underflows when fewer chunks
 suffice

---
 crates/hodu_core/src/tensor/ops/concat_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 7097337..203afc0 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -253,7 +253,7 @@ impl Tensor {
             .map(|i| {
                 let start = i * chunk_size;
                 let end = ((i + 1) * chunk_size).min(dim_size);
-                end - start
+                end.saturating_sub(start)
             })
             .filter(|&s| s > 0)
             .collect();
-- 
2.43.0


From a4a2b81b013a07fae4953464359a05ae8710313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 30/76] fix: gradients of reflect, replicate and circular
 padding reach every source element

---
 .../src/tensor/gradient/vjp_padding.rs        | 276 ++----------------
 .../src/tensor/gradient/vjp_utils.rs          |   9 +
 2 files changed, 33 insertions(+), 252 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
index cc678ab..8fa08aa 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
@@ -1,4 +1,4 @@
-use super::VjpCompute;
+use super::{vjp_utils::scatter_dim, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     op_params::{OpParams, PaddingParams},
@@ -34,21 +34,9 @@ impl VjpCompute for PaddingOp {
                 let grad_input = slice_center(&grad_tensor, &input_shape, padding)?;
                 Ok(vec![grad_input.id()])
             },
-            PaddingOp::PadReflect => {
-                // For reflect padding, gradient accumulates from reflected positions
-                let grad_input = compute_reflect_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadReplicate => {
-                // For replicate padding, gradient accumulates at edge positions
-                let grad_input = compute_replicate_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadCircular => {
-                // For circular padding, gradient wraps around
-                let grad_input = compute_circular_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
+            PaddingOp::PadReflect => fold(&grad_tensor, &input_shape, padding, reflect_index),
+            PaddingOp::PadReplicate => fold(&grad_tensor, &input_shape, padding, |i, n| i.clamp(0, n - 1)),
+            PaddingOp::PadCircular => fold(&grad_tensor, &input_shape, padding, |i, n| i.rem_euclid(n)),
         }
     }
 }
@@ -64,248 +52,32 @@ fn slice_center(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, us
     Ok(result)
 }
 
-/// Compute gradient for reflect padding
-fn compute_reflect_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region (original input area)
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, add contributions from reflected regions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: reflected from positions [1..pad_before+1]
-        // These map back to positions [1..min(pad_before, input_size-1)+1] in input
-        if pad_before > 0 && input_size > 1 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let flipped = left_pad_grad.flip(&[dim])?;
-
-            // The reflection maps position i in left pad to position (pad_before - i) in input
-            // After flip, position 0 maps to position 1, position 1 maps to position 2, etc.
-            let target_len = pad_before.min(input_size - 1);
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(
-                    &flipped,
-                    dim,
-                    flipped.shape().dims()[dim] - target_len,
-                    flipped.shape().dims()[dim],
-                )?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, 1, 1 + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, 1, 1 + target_len, &added)?;
-        }
-
-        // Right padding: reflected from positions [input_size-2, input_size-pad_after-2]
-        if pad_after > 0 && input_size > 1 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let flipped = right_pad_grad.flip(&[dim])?;
-
-            // After flip, these map to positions ending at input_size - 2
-            let target_len = pad_after.min(input_size - 1);
-            let start_pos = input_size - 1 - target_len;
-
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(&flipped, dim, 0, target_len)?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, start_pos + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, start_pos + target_len, &added)?;
-        }
+/// Input position that reflect padding copies to position `i` (which may lie outside 0..n)
+fn reflect_index(i: i64, n: i64) -> i64 {
+    if n <= 1 {
+        return 0;
     }
-
-    Ok(grad_input)
+    let period = 2 * (n - 1);
+    let i = i.rem_euclid(period);
+    i.min(period - i)
 }
 
-/// Compute gradient for replicate padding
-fn compute_replicate_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, sum padding gradients into edge positions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: all go to first element
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let left_sum = left_pad_grad.sum(&[dim], true)?;
-
-            let first = slice_single_dim(&grad_input, dim, 0, 1)?;
-            let added = first.add(&left_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, 1, &added)?;
-        }
-
-        // Right padding: all go to last element
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let right_sum = right_pad_grad.sum(&[dim], true)?;
-
-            let input_size = input_dims[dim];
-            let last = slice_single_dim(&grad_input, dim, input_size - 1, input_size)?;
-            let added = last.add(&right_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, input_size - 1, input_size, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for circular padding
-fn compute_circular_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, wrap padding gradients around
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: comes from end of input (wraps around)
-        // Left pad positions [0..pad_before] come from input positions [input_size - pad_before..input_size]
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let start_pos = input_size - pad_before;
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, input_size)?;
-            let added = target.add(&left_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, input_size, &added)?;
-        }
-
-        // Right padding: comes from beginning of input
-        // Right pad positions come from input positions [0..pad_after]
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-
-            let target = slice_single_dim(&grad_input, dim, 0, pad_after)?;
-            let added = target.add(&right_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, pad_after, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Slice a single dimension of a tensor
-fn slice_single_dim(tensor: &Tensor, dim: usize, start: usize, end: usize) -> HoduResult<Tensor> {
-    tensor.slice(dim, start as i64, Some(end as i64), 1)
-}
-
-/// Slice from grad_output taking into account other dimensions are at center
-fn slice_dim(
+/// Accumulate the gradient of each padded position at the input position it was copied from, one dimension at a time
+fn fold(
     grad_output: &Tensor,
-    target_dim: usize,
-    start: usize,
-    end: usize,
+    input_shape: &Shape,
     padding: &[(usize, usize)],
-    input_dims: &[usize],
-) -> HoduResult<Tensor> {
-    let ndim = padding.len();
+    source: impl Fn(i64, i64) -> i64,
+) -> HoduResult<Vec<TensorId>> {
     let mut result = grad_output.clone();
-
-    for dim in 0..ndim {
-        if dim == target_dim {
-            result = result.slice(dim, start as i64, Some(end as i64), 1)?;
-        } else {
-            let (pad_before, _) = padding[dim];
-            let input_size = input_dims[dim];
-            result = result.slice(dim, pad_before as i64, Some((pad_before + input_size) as i64), 1)?;
+    for (dim, (&(before, after), &n)) in padding.iter().zip(input_shape.dims().iter()).enumerate() {
+        if before == 0 && after == 0 {
+            continue;
         }
+        let indices = (0..before + n + after)
+            .map(|o| source(o as i64 - before as i64, n as i64) as i32)
+            .collect();
+        result = scatter_dim(&result, dim, n, indices)?;
     }
-
-    Ok(result)
-}
-
-/// Replace a slice of the tensor along a single dimension
-fn replace_single_dim(
-    tensor: &Tensor,
-    dim: usize,
-    start: usize,
-    end: usize,
-    replacement: &Tensor,
-) -> HoduResult<Tensor> {
-    let shape = tensor.shape();
-    let dim_size = shape.dims()[dim];
-
-    // If replacing the entire dimension, just return replacement
-    if start == 0 && end == dim_size {
-        return Ok(replacement.clone());
-    }
-
-    // Build result by concatenating: [before, replacement, after]
-    let mut parts: Vec<Tensor> = Vec::new();
-
-    // Before slice
-    if start > 0 {
-        let before = slice_single_dim(tensor, dim, 0, start)?;
-        parts.push(before);
-    }
-
-    // Replacement
-    parts.push(replacement.clone());
-
-    // After slice
-    if end < dim_size {
-        let after = slice_single_dim(tensor, dim, end, dim_size)?;
-        parts.push(after);
-    }
-
-    // Concatenate along dim
-    if parts.len() == 1 {
-        Ok(parts.remove(0))
-    } else {
-        let refs: Vec<&Tensor> = parts.iter().collect();
-        Tensor::cat(&refs, dim)
-    }
+    Ok(vec![result.id()])
 }
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 43d019f..bc4e5b0 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -21,6 +21,15 @@ pub fn expand_indices(indices: &Tensor, dim: usize, shape: &Shape) -> HoduResult
     indices.reshape(&dims)?.broadcast(shape)
 }
 
+// Adds the slice of `grad` at position `i` of `dim` to position `indices[i]` of a zero tensor of size `size` along `dim`
+pub fn scatter_dim(grad: &Tensor, dim: usize, size: usize, indices: Vec<i32>) -> HoduResult<Tensor> {
+    let grad_shape = grad.shape();
+    let mut dims = grad_shape.dims().to_vec();
+    dims[dim] = size;
+    let indices = expand_indices(&Tensor::new(indices)?, dim, &grad_shape)?;
+    Tensor::zeros(&dims, grad.dtype())?.scatter_add(dim, &indices, grad)
+}
+
 // Binary operations
 pub fn create_add_tensor(a: TensorId, b: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
-- 
2.43.0


From 39d08761a7c2ffff0c1d69f8c57c65811cad7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 31/76] fix: gradients of window reductions with overlap, gaps,
 padding or remainder

---
 .../src/tensor/gradient/vjp_windowing.rs      | 204 ++++++++----------
 1 file changed, 91 insertions(+), 113 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
index e273a0b..b680bd7 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
@@ -1,21 +1,24 @@
-use super::VjpCompute;
+use super::{vjp_utils::scatter_dim, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceWindowParams, WindowingOp},
     scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for WindowingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let OpParams::ReduceWindow(ReduceWindowParams {
-            window_shape, strides, ..
+            window_shape,
+            strides,
+            padding,
+            ..
         }) = op_params
         else {
             return Err(HoduError::VjpFunctionNotFound(
@@ -23,126 +26,101 @@ impl VjpCompute for WindowingOp {
             ));
         };
 
-        let input = inputs[0];
-        let input_tensor = tensor_from_id(input);
+        let input_tensor = tensor_from_id(inputs[0]);
         let input_shape = input_tensor.shape();
+        let dims = input_shape.dims();
+        let ndim = dims.len();
         let dtype = input_tensor.dtype();
+        let output_tensor = tensor_from_id(output);
+        let output_shape = output_tensor.shape();
+        let mut grad_tensor = tensor_from_id(grad_output);
+        let window_size: usize = window_shape.iter().product();
+
+        // For each window position: the outputs (start and end per dimension) whose window has that position inside the
+        // input, and the first input index it covers. Positions that only ever cover padding are left out.
+        let mut positions = Vec::with_capacity(window_size);
+        for position in 0..window_size {
+            let mut ranges = vec![(0, 0, 0); ndim];
+            let mut rest = position;
+            for dim in (0..ndim).rev() {
+                let offset = (rest % window_shape[dim]) as i64 - padding[dim].0 as i64;
+                rest /= window_shape[dim];
+                let stride = strides[dim] as i64;
+                let inside = |o: &i64| (0..dims[dim] as i64).contains(&(o * stride + offset));
+                let count = output_shape.dims()[dim] as i64;
+                if let Some(first) = (0..count).find(inside) {
+                    let end = (first..count).take_while(inside).count() as i64 + first;
+                    ranges[dim] = (first, end, first * stride + offset);
+                }
+            }
+            if ranges.iter().all(|&(first, end, _)| first < end) {
+                positions.push(ranges);
+            }
+        }
+
+        let slice_outputs = |tensor: &Tensor, ranges: &[(i64, i64, i64)]| -> HoduResult<Tensor> {
+            let mut tensor = tensor.clone();
+            for (dim, &(first, end, _)) in ranges.iter().enumerate() {
+                tensor = tensor.slice(dim, first, Some(end), 1)?;
+            }
+            Ok(tensor)
+        };
+        let add = |sum: Option<Tensor>, term: Tensor| -> HoduResult<Option<Tensor>> {
+            Ok(Some(match sum {
+                Some(sum) => sum.add(&term)?,
+                None => term,
+            }))
+        };
 
+        // Max and min: the gradient goes to the selected elements (in equal parts when several are equal)
+        let mut masks = Vec::new();
         match self {
             WindowingOp::ReduceWindowMax | WindowingOp::ReduceWindowMin => {
-                // For max/min pooling, gradient flows only through positions that were max/min
-                // Upsample both output and gradient by repeating each element by stride amount
-
-                // Upsample output
-                let output_tensor = tensor_from_id(_output);
-                let mut upsampled_output = output_tensor.clone();
-
-                // Upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // For each dimension, if stride > 1, insert a dimension after it and broadcast
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        // Upsample output
-                        let current_shape = upsampled_output.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_output = upsampled_output.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_output = upsampled_output.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_output = upsampled_output.reshape(&final_shape)?;
-
-                        // Upsample gradient (same process)
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
+                let mut count: Option<Tensor> = None;
+                for ranges in &positions {
+                    let mut covered = input_tensor.clone();
+                    for (dim, &(first, end, from)) in ranges.iter().enumerate() {
+                        let to = from + (end - first - 1) * strides[dim] as i64 + 1;
+                        covered = covered.slice(dim, from, Some(to), strides[dim] as i64)?;
                     }
+                    let mask = covered.eq(&slice_outputs(&output_tensor, ranges)?)?.to_dtype(dtype)?;
+                    let mut term = mask.clone();
+                    for (dim, &(first, end, _)) in ranges.iter().enumerate() {
+                        let indices = (first..end).map(|i| i as i32).collect();
+                        term = scatter_dim(&term, dim, output_shape.dims()[dim], indices)?;
+                    }
+                    count = add(count, term)?;
+                    masks.push(mask);
+                }
+                if let Some(count) = count {
+                    grad_tensor = grad_tensor.div(&count)?;
                 }
-
-                // Broadcast to exact input shape (handles padding differences)
-                upsampled_output = upsampled_output.broadcast(&input_shape)?;
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                // Create mask: input == upsampled_output
-                let mask = input_tensor.eq(&upsampled_output)?;
-                let mask_f = mask.to_dtype(dtype)?;
-
-                // Multiply gradient by mask
-                let result = upsampled_grad.mul(&mask_f)?;
-
-                Ok(vec![result.id()])
             },
             WindowingOp::ReduceWindowMean => {
-                // Mean: divide by window size and upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
-
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                let window_size: usize = window_shape.iter().product();
-                let scale = Scalar::from_f32(1.0 / window_size as f32, dtype);
-                let scaled_grad = upsampled_grad.mul_scalar(scale)?;
-                Ok(vec![scaled_grad.id()])
+                grad_tensor = grad_tensor.mul_scalar(Scalar::from_f32(1.0 / window_size as f32, dtype))?;
             },
-            WindowingOp::ReduceWindowSum => {
-                // Sum: just upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
+            WindowingOp::ReduceWindowSum => {},
+        }
 
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-                Ok(vec![upsampled_grad.id()])
-            },
+        let mut result: Option<Tensor> = None;
+        for (i, ranges) in positions.iter().enumerate() {
+            let mut term = slice_outputs(&grad_tensor, ranges)?;
+            if let Some(mask) = masks.get(i) {
+                term = term.mul(mask)?;
+            }
+            for (dim, &(first, end, from)) in ranges.iter().enumerate() {
+                let indices = (0..end - first)
+                    .map(|i| (from + i * strides[dim] as i64) as i32)
+                    .collect();
+                term = scatter_dim(&term, dim, dims[dim], indices)?;
+            }
+            result = add(result, term)?;
         }
+
+        let result = match result {
+            Some(result) => result,
+            None => Tensor::zeros(&input_shape, dtype)?,
+        };
+        Ok(vec![result.id()])
     }
 }
-- 
2.43.0


From 978a75e9df01f24843738721d1d2e0db0f00fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 32/76] fix: nearest resize picks the exact source element when
 the scale is not a binary fraction

---
 crates/hodu_cpu_kernels/kernels/ops_resize.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_resize.c b/crates/hodu_cpu_kernels/kernels/ops_resize.c
index 1267244..758f875 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_resize.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_resize.c
@@ -20,13 +20,15 @@ static inline float transform_coord(float out_coord, size_t in_size, size_t out_
         return out_coord;
     }
 
-    float scale = (float)in_size / (float)out_size;
+    // One division of exact products, so that a coordinate on or halfway between grid points is exact
+    const float in = (float)in_size;
+    const float out = (float)out_size;
 
     switch (coord_transform) {
     case RESIZE_COORD_HALF_PIXEL:
-        return (out_coord + 0.5f) * scale - 0.5f;
+        return ((2.0f * out_coord + 1.0f) * in - out) / (2.0f * out);
     case RESIZE_COORD_ASYMMETRIC:
-        return out_coord * scale;
+        return out_coord * in / out;
     case RESIZE_COORD_ALIGN_CORNERS:
         if (out_size == 1)
             return 0.0f;
@@ -34,9 +36,9 @@ static inline float transform_coord(float out_coord, size_t in_size, size_t out_
     case RESIZE_COORD_PYTORCH_HALF_PIXEL:
         if (out_size == 1)
             return 0.0f;
-        return (out_coord + 0.5f) * scale - 0.5f;
+        return ((2.0f * out_coord + 1.0f) * in - out) / (2.0f * out);
     default:
-        return out_coord * scale;
+        return out_coord * in / out;
     }
 }
 
-- 
2.43.0


From bfee7b17b40ae9725fc65043929e1f7eebf49f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 33/76] fix: cubic resize of 5D tensors interpolates instead of
 falling back to nearest

---
 crates/hodu_cpu_kernels/kernels/ops_resize.c | 57 ++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_resize.c b/crates/hodu_cpu_kernels/kernels/ops_resize.c
index 758f875..363a1f4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_resize.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_resize.c
@@ -236,6 +236,35 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
                     cols[j + 1] = cubic_interp(p0, p1, p2, p3, fx);                                \
                 }                                                                                  \
                 out[out_idx] = (TYPE)cubic_interp(cols[0], cols[1], cols[2], cols[3], fy);         \
+            } else if (mode == RESIZE_MODE_CUBIC && num_spatial == 3) {                            \
+                /* Tricubic interpolation for 3D */                                                \
+                float coord[3], frac[3];                                                           \
+                int base[3];                                                                       \
+                for (size_t s = 0; s < 3; s++) {                                                   \
+                    coord[s] = transform_coord((float)out_coords[2 + s], in_shape[2 + s],          \
+                                               out_shape[2 + s], coord_transform);                 \
+                    base[s] = (int)floorf(coord[s]);                                               \
+                    frac[s] = coord[s] - (float)base[s];                                           \
+                }                                                                                  \
+                                                                                                   \
+                float planes[4];                                                                   \
+                for (int k = -1; k <= 2; k++) {                                                    \
+                    size_t d_idx = clamp_idx(base[0] + k, in_shape[2] - 1) * in_strides[2];        \
+                    float cols[4];                                                                 \
+                    for (int j = -1; j <= 2; j++) {                                                \
+                        size_t h_idx = clamp_idx(base[1] + j, in_shape[3] - 1) * in_strides[3];    \
+                        float p[4];                                                                \
+                        for (int i = -1; i <= 2; i++) {                                            \
+                            size_t w_idx =                                                         \
+                                clamp_idx(base[2] + i, in_shape[4] - 1) * in_strides[4];           \
+                            p[i + 1] = (float)(in[base_in_idx + d_idx + h_idx + w_idx]);           \
+                        }                                                                          \
+                        cols[j + 1] = cubic_interp(p[0], p[1], p[2], p[3], frac[2]);               \
+                    }                                                                              \
+                    planes[k + 1] = cubic_interp(cols[0], cols[1], cols[2], cols[3], frac[1]);     \
+                }                                                                                  \
+                out[out_idx] =                                                                     \
+                    (TYPE)cubic_interp(planes[0], planes[1], planes[2], planes[3], frac[0]);       \
             } else {                                                                               \
                 /* Fallback: nearest neighbor */                                                   \
                 size_t in_idx = base_in_idx;                                                       \
@@ -398,6 +427,34 @@ IMPL_RESIZE(f64_t, f64)
                     cols[j + 1] = cubic_interp(p0, p1, p2, p3, fx);                                \
                 }                                                                                  \
                 out[out_idx] = FROM_FLOAT(cubic_interp(cols[0], cols[1], cols[2], cols[3], fy));   \
+            } else if (mode == RESIZE_MODE_CUBIC && num_spatial == 3) {                            \
+                float coord[3], frac[3];                                                           \
+                int base[3];                                                                       \
+                for (size_t s = 0; s < 3; s++) {                                                   \
+                    coord[s] = transform_coord((float)out_coords[2 + s], in_shape[2 + s],          \
+                                               out_shape[2 + s], coord_transform);                 \
+                    base[s] = (int)floorf(coord[s]);                                               \
+                    frac[s] = coord[s] - (float)base[s];                                           \
+                }                                                                                  \
+                                                                                                   \
+                float planes[4];                                                                   \
+                for (int k = -1; k <= 2; k++) {                                                    \
+                    size_t d_idx = clamp_idx(base[0] + k, in_shape[2] - 1) * in_strides[2];        \
+                    float cols[4];                                                                 \
+                    for (int j = -1; j <= 2; j++) {                                                \
+                        size_t h_idx = clamp_idx(base[1] + j, in_shape[3] - 1) * in_strides[3];    \
+                        float p[4];                                                                \
+                        for (int i = -1; i <= 2; i++) {                                            \
+                            size_t w_idx =                                                         \
+                                clamp_idx(base[2] + i, in_shape[4] - 1) * in_strides[4];           \
+                            p[i + 1] = TO_FLOAT(in[base_in_idx + d_idx + h_idx + w_idx]);          \
+                        }                                                                          \
+                        cols[j + 1] = cubic_interp(p[0], p[1], p[2], p[3], frac[2]);               \
+                    }                                                                              \
+                    planes[k + 1] = cubic_interp(cols[0], cols[1], cols[2], cols[3], frac[1]);     \
+                }                                                                                  \
+                out[out_idx] =                                                                     \
+                    FROM_FLOAT(cubic_interp(planes[0], planes[1], planes[2], planes[3], frac[0])); \
             } else {                                                                               \
                 size_t in_idx = base_in_idx;                                                       \
                 for (size_t s = 0; s < num_spatial; s++) {                                         \
-- 
2.43.0


From 56bbf6bad904c80b2a8345cbfd58559d38455749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 34/76] fix: gradient of resize applies the transposed
 interpolation

---
 .../src/tensor/gradient/vjp_resize.rs         | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
index edcc827..47e9a22 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{OpParams, ResizeMode, ResizeParams},
     ops::ResizeOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ResizeOp {
@@ -35,19 +35,10 @@ impl VjpCompute for ResizeOp {
 
                 let grad_tensor = tensor_from_id(grad_output);
 
-                // For resize, the gradient flows back by resizing grad_output to input shape
-                // This is valid for bilinear/bicubic interpolation
-                // For nearest neighbor, there's no well-defined gradient (we use bilinear for backward)
-
-                // Get spatial dimensions from input (skip batch and channel)
-                let spatial_dims: Vec<usize> = input_dims[2..].to_vec();
-
-                // For nearest mode, there's technically no gradient, but we can approximate
-                // by using bilinear interpolation for the backward pass
-                let backward_mode = match mode {
-                    ResizeMode::Nearest => "bilinear", // Use bilinear for backward pass
-                    ResizeMode::Linear => "bilinear",
-                    ResizeMode::Cubic => "bicubic",
+                let mode_str = match mode {
+                    ResizeMode::Nearest => "nearest",
+                    ResizeMode::Linear => "linear",
+                    ResizeMode::Cubic => "cubic",
                 };
 
                 let coord_transform_str = match coord_transform {
@@ -64,9 +55,25 @@ impl VjpCompute for ResizeOp {
                     crate::op_params::ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
                 };
 
-                // Resize grad_output back to input spatial dimensions
-                let grad_input =
-                    grad_tensor.resize(&spatial_dims, backward_mode, coord_transform_str, nearest_mode_str)?;
+                // Resizing is linear and separable: the weights along a spatial dimension are the resized identity, and
+                // the gradient is multiplied by their transpose, one dimension at a time
+                let mut grad_input = grad_tensor;
+                for dim in 2..input_dims.len() {
+                    let n = input_dims[dim];
+                    let out = grad_input.shape().dims()[dim];
+                    let weights = Tensor::eye(n, grad_input.dtype())?
+                        .reshape([1, n, 1, n])?
+                        .resize(&[1, out], mode_str, coord_transform_str, nearest_mode_str)?
+                        .reshape([n, out])?;
+                    let last_first = grad_input.transpose(dim as i32, -1)?.contiguous()?;
+                    let mut dims = last_first.shape().dims().to_vec();
+                    let rows = dims.iter().product::<usize>() / out;
+                    let folded = last_first
+                        .reshape([rows, out])?
+                        .matmul(&weights.transpose(0, 1)?.contiguous()?)?;
+                    *dims.last_mut().unwrap() = n;
+                    grad_input = folded.reshape(&dims)?.transpose(dim as i32, -1)?;
+                }
 
                 Ok(vec![grad_input.id()])
             },
-- 
2.43.0


From cc737a81334ec63a7a45e9252b776dac8d19048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 35/76] Revert the redundant onehot change: the CPU backend
 already reads indices through their layout

---
 crates/hodu_core/src/be/storage.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index b30f72b..3ea43e5 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -913,16 +913,6 @@ impl BackendStorage {
         output_dtype: DType,
         op: Op,
     ) -> HoduResult<Self> {
-        // The one-hot kernel reads the indices as a dense row-major buffer.
-        if !layout.is_contiguous() || layout.offset() != 0 {
-            return self.contiguous(layout)?.call_ops_onehot(
-                &Layout::from_shape(layout.shape()),
-                num_classes,
-                axis,
-                output_dtype,
-                op,
-            );
-        }
         match self {
             Self::CPU(storage) => Ok(Self::CPU(storage.call_ops_onehot(
                 layout,
-- 
2.43.0


From 89792a9879f92676920931989e0c1f3b07932e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 36/76] fix: gradients of scatter_max and scatter_min with
 equal candidates add up to one

---
 crates/hodu_core/src/tensor/gradient/vjp_indexing.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
index 366e69b..d6094b7 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
@@ -181,14 +181,16 @@ impl VjpCompute for IndexingOp {
                 let output_tensor = tensor_from_id(output);
                 let dtype = grad_tensor.dtype();
 
-                // Gradient flows to the elements that became the output's values
+                // Gradient flows to the elements that became the output's values, in equal parts when several are equal
                 let self_won = self_tensor.eq(&output_tensor)?.to_dtype(dtype)?;
-                let grad_self = grad_tensor.mul(&self_won)?;
-
                 let src_won = src_tensor
                     .eq(&output_tensor.gather(dim, &indices_tensor)?)?
                     .to_dtype(dtype)?;
-                let grad_src = grad_tensor.gather(dim, &indices_tensor)?.mul(&src_won)?;
+                let count = self_won.scatter_add(dim, &indices_tensor, &src_won)?;
+                let share = grad_tensor.div(&count)?;
+
+                let grad_self = share.mul(&self_won)?;
+                let grad_src = share.gather(dim, &indices_tensor)?.mul(&src_won)?;
 
                 Ok(vec![grad_self.id(), grad_src.id()])
             },
-- 
2.43.0


From f2ec777ad8fb325aa317d113d16d3b72f117b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 37/76] fix: einsum passes the layouts of all operands to its
 kernel

---
 crates/hodu_core/src/tensor/ops/einsum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/einsum.rs b/crates/hodu_core/src/tensor/ops/einsum.rs
index 474e067..26f0eb4 100644
--- a/crates/hodu_core/src/tensor/ops/einsum.rs
+++ b/crates/hodu_core/src/tensor/ops/einsum.rs
@@ -101,12 +101,12 @@ impl Tensor {
 
             Ok(result_tensor)
         } else {
-            let other_layouts: Vec<Layout> = tensors.iter().skip(1).map(|t| t.layout()).collect();
-            let input_layout_refs: Vec<&Layout> = other_layouts.iter().collect();
+            // The kernels read one layout per operand, the first one included
+            let input_layout_refs: Vec<&Layout> = input_layouts.iter().collect();
 
             // Execute with nested with_storage calls based on tensor count
             let storage = match tensors.len() {
-                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &[], &parsed))?,
+                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &input_layout_refs, &parsed))?,
                 2 => tensors[0].with_storage(|s0| {
                     tensors[1].with_storage(|s1| s0.call_ops_einsum(&[s1], &input_layout_refs, &parsed))
                 })?,
-- 
2.43.0


From 95f762211c719320becf9ae43960162b1be42fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 38/76] fix: gradient of einsum for subscripts summed on their
 own or repeated

---
 .../src/tensor/gradient/vjp_einsum.rs         | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
index 969d7c0..64f8c3b 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{EinsumParams, OpParams},
     ops::EinsumOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for EinsumOp {
@@ -37,7 +37,10 @@ impl VjpCompute for EinsumOp {
                     // The grad equation:
                     // - First operand: grad_output with output_subscripts
                     // - Other operands: all inputs except input i with their subscripts
-                    // - Result: input_subscripts[i]
+                    // - Result: the distinct subscripts of input i that another operand has
+                    //
+                    // The gradient is the same along a subscript of input i that was summed on its own,
+                    // and zero off the diagonal of a repeated one.
 
                     let mut grad_operand_subs = Vec::new();
                     let mut grad_operand_tensors = Vec::new();
@@ -55,15 +58,36 @@ impl VjpCompute for EinsumOp {
                         }
                     }
 
-                    // Result subscripts are the subscripts of the input we're computing gradient for
-                    let result_subs: String = input_subscripts[i].iter().collect();
+                    let subs = &input_subscripts[i];
+                    let shape = input_tensors[i].shape();
+                    let mut result_subs = String::new();
+                    let mut result_dims = Vec::with_capacity(subs.len());
+                    for (d, c) in subs.iter().enumerate() {
+                        if !subs[..d].contains(c) && grad_operand_subs.iter().any(|s| s.contains(*c)) {
+                            result_subs.push(*c);
+                            result_dims.push(shape[d]);
+                        } else {
+                            result_dims.push(1);
+                        }
+                    }
 
                     // Build the equation string
                     let grad_equation = format!("{}->{}", grad_operand_subs.join(","), result_subs);
 
                     // Compute the gradient
-                    let grad_tensor_refs: Vec<&crate::tensor::Tensor> = grad_operand_tensors.to_vec();
-                    let grad_input = crate::tensor::Tensor::einsum(&grad_equation, &grad_tensor_refs)?;
+                    let grad_tensor_refs: Vec<&Tensor> = grad_operand_tensors.to_vec();
+                    let grad_input = Tensor::einsum(&grad_equation, &grad_tensor_refs)?;
+
+                    let mut grad_input = grad_input.reshape(&result_dims)?.broadcast(&shape)?;
+                    for (d, c) in subs.iter().enumerate() {
+                        if let Some(first) = subs[..d].iter().position(|s| s == c) {
+                            let mut diagonal = vec![1; subs.len()];
+                            diagonal[first] = shape[d];
+                            diagonal[d] = shape[d];
+                            let diagonal = Tensor::eye(shape[d], grad_input.dtype())?.reshape(&diagonal)?;
+                            grad_input = grad_input.mul(&diagonal)?;
+                        }
+                    }
 
                     grad_inputs.push(grad_input.id());
                 }
-- 
2.43.0


From 5069cadf367d3a2b23484df62085f9419eb0e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 39/76] fix: einsum rejects a repeated output index instead of
 leaving parts of the result empty

---
 crates/hodu_core/src/einsum.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/einsum.rs b/crates/hodu_core/src/einsum.rs
index de03ed9..cce5b37 100644
--- a/crates/hodu_core/src/einsum.rs
+++ b/crates/hodu_core/src/einsum.rs
@@ -85,7 +85,13 @@ impl ParsedEinsum {
                 .collect()
         };
 
-        for &c in &output_subscripts {
+        for (i, &c) in output_subscripts.iter().enumerate() {
+            if output_subscripts[..i].contains(&c) {
+                return Err(HoduError::InvalidArgument(format!(
+                    "einsum output index '{}' appears more than once",
+                    c
+                )));
+            }
             if !index_sizes.contains_key(&c) {
                 return Err(HoduError::InvalidArgument(format!(
                     "einsum output index '{}' not found in any input",
-- 
2.43.0


From 299c811b650af5af257cc1314230dae82ff632b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 40/76] fix: einsum rejects equations beyond the limits of its
 kernels

---
 crates/hodu_core/src/einsum.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/hodu_core/src/einsum.rs b/crates/hodu_core/src/einsum.rs
index cce5b37..43a1524 100644
--- a/crates/hodu_core/src/einsum.rs
+++ b/crates/hodu_core/src/einsum.rs
@@ -2,6 +2,10 @@ use crate::error::{HoduError, HoduResult};
 use crate::types::Shape;
 use std::collections::{HashMap, HashSet};
 
+// Fixed by the arrays of the kernels
+const MAX_INDICES: usize = 16;
+const MAX_DIMS: usize = 16;
+
 #[derive(Debug, Clone)]
 pub struct ParsedEinsum {
     pub input_subscripts: Vec<Vec<char>>,
@@ -68,6 +72,13 @@ impl ParsedEinsum {
         let mut all_indices: Vec<char> = index_sizes.keys().cloned().collect();
         all_indices.sort();
 
+        if all_indices.len() > MAX_INDICES || input_subscripts.iter().any(|subs| subs.len() > MAX_DIMS) {
+            return Err(HoduError::InvalidArgument(format!(
+                "einsum supports at most {} indices and {} dimensions per tensor",
+                MAX_INDICES, MAX_DIMS
+            )));
+        }
+
         let mut index_counts: HashMap<char, usize> = HashMap::new();
         for subs in &input_subscripts {
             for &c in subs {
-- 
2.43.0


From b8b404dfe1c907b9ecbd3236a3aae210beb53b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 41/76] fix: einsum writes nothing when its result is empty

---
 crates/hodu_core/src/op_metadatas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 4379d06..3a4114c 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -1504,7 +1504,7 @@ pub fn einsum_metadata(
     let num_total_indices = parsed.all_indices.len();
     let num_contraction_indices = parsed.contraction_indices.len();
     let output_ndim = output_layout.ndim();
-    let num_output_els = output_layout.size().max(1);
+    let num_output_els = output_layout.size();
 
     let mut metadata = vec![
         num_output_els,
-- 
2.43.0


From 9099f95f83b7fe56b1139def62e9727a0163a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 42/76] fix: gradients of det and trace of a single matrix have
 its shape

---
 .../hodu_core/src/tensor/gradient/vjp_linalg.rs   | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index 17ea7c3..2ed2c1a 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -5,6 +5,17 @@ use crate::{
     tensor::{Tensor, TensorId},
 };
 
+// One value per matrix of `ndim`-dimensional input, shaped to broadcast over the matrices.
+// The value of a single matrix has shape [1] rather than [].
+fn per_matrix(value: &Tensor, ndim: usize) -> HoduResult<Tensor> {
+    let value = value.unsqueeze(-1)?;
+    if ndim == 2 {
+        Ok(value)
+    } else {
+        value.unsqueeze(-1)
+    }
+}
+
 impl VjpCompute for LinalgOp {
     fn compute_vjp(
         &self,
@@ -38,7 +49,7 @@ impl VjpCompute for LinalgOp {
                 // Scale by det(A) * grad_output
                 // det_value and grad have shape [...], need to expand to [..., 1, 1]
                 let scale = grad.mul(&det_value)?;
-                let scale = scale.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = per_matrix(&scale, input.ndim())?;
 
                 // grad_input = scale * inv_a_t
                 let grad_input = inv_a_t.mul(&scale)?;
@@ -89,7 +100,7 @@ impl VjpCompute for LinalgOp {
                 let eye = Tensor::eye(n, input.dtype())?;
 
                 // Expand grad to [..., 1, 1] for broadcasting
-                let scale = grad.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = per_matrix(&grad, ndim)?;
 
                 // grad_input = scale * I
                 let grad_input = eye.mul(&scale)?;
-- 
2.43.0


From ca80af77203430fc33cbcc3782ab924be1916a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 43/76] fix: solve takes one right-hand vector per matrix of a
 batch, as documented

---
 crates/hodu_core/src/tensor/ops/linalg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/linalg.rs b/crates/hodu_core/src/tensor/ops/linalg.rs
index de5f480..c96fff2 100644
--- a/crates/hodu_core/src/tensor/ops/linalg.rs
+++ b/crates/hodu_core/src/tensor/ops/linalg.rs
@@ -278,8 +278,9 @@ impl Tensor {
         // solve(A, b) = inv(A) @ b
         let inv_a = self.inv()?;
 
-        // For 1D b, unsqueeze -> matmul -> squeeze
-        if b.ndim() == 1 {
+        // For one vector per matrix, unsqueeze -> matmul -> squeeze
+        let shape = self.shape();
+        if b.ndim() == 1 || b.shape().dims() == &shape.dims()[..shape.ndim() - 1] {
             let b_col = b.unsqueeze(-1)?;
             let x_col = inv_a.matmul(&b_col)?;
             x_col.squeeze(&[-1])
-- 
2.43.0


From cfc1c96ceec7552c189e01e4b2bbfb3bcc983236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 44/76] fix: det of a matrix is zero exactly when a pivot is

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 93cfbbd..25abbc9 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -136,7 +136,7 @@
                     TYPE abs_pivot = pivot;                                                        \
                     if (abs_pivot < 0)                                                             \
                         abs_pivot = -abs_pivot;                                                    \
-                    if (abs_pivot < (TYPE)1e-15) {                                                 \
+                    if (abs_pivot == 0) {                                                          \
                         det = 0;                                                                   \
                         free(lu);                                                                  \
                         goto store_result_##TYPE_SUFFIX;                                           \
@@ -255,6 +255,8 @@
                                                                                                    \
                     TYPE pivot = lu[k * n + k];                                                    \
                     det = MUL_FN(det, pivot);                                                      \
+                    if (!LT_FN(ZERO, max_val))                                                     \
+                        break;                                                                     \
                                                                                                    \
                     for (size_t i = k + 1; i < n; i++) {                                           \
                         TYPE factor = DIV_FN(lu[i * n + k], pivot);                                \
-- 
2.43.0


From c8cd6da3b11138fa393295b90e5a2911274247d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 45/76] fix: det of integer matrices is exact for every size

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 103 +++++++++++++++++--
 1 file changed, 95 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 25abbc9..6056496 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -28,6 +28,7 @@
 // - 3x3: Sarrus' rule
 // - NxN: LU decomposition with partial pivoting
 //        det = (-1)^swaps * product(diagonal of U)
+// - Integers: division-free, for any size
 
 /// Helper to get element from strided matrix for det
 #define DET_GET(input, batch_offset, row, col, row_stride, col_stride)                             \
@@ -165,6 +166,84 @@
         }                                                                                          \
     }
 
+/// Determinant of a dense n×n integer matrix by Bird's division-free algorithm, as integers do
+/// not divide evenly: det = (-1)^(n-1) * X[0][0] after n-1 steps X = mu(X) * A from X = A, where
+/// mu keeps the part above the diagonal and puts minus the sum of the later diagonal elements on
+/// it. tmp has room for 2 matrices.
+#define DET_INT(TYPE, TYPE_SUFFIX)                                                                 \
+    static TYPE det_int_##TYPE_SUFFIX(const TYPE *a, TYPE *tmp, size_t n) {                        \
+        TYPE *cur = tmp;                                                                           \
+        TYPE *next = tmp + n * n;                                                                  \
+                                                                                                   \
+        if (n == 0)                                                                                \
+            return 1;                                                                              \
+                                                                                                   \
+        for (size_t i = 0; i < n * n; i++) {                                                       \
+            cur[i] = a[i];                                                                         \
+        }                                                                                          \
+                                                                                                   \
+        for (size_t step = 1; step < n; step++) {                                                  \
+            TYPE diag = 0;                                                                         \
+            for (size_t i = n; i-- > 0;) {                                                         \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    TYPE sum = diag * a[i * n + j];                                                \
+                    for (size_t k = i + 1; k < n; k++) {                                           \
+                        sum += cur[i * n + k] * a[k * n + j];                                      \
+                    }                                                                              \
+                    next[i * n + j] = sum;                                                         \
+                }                                                                                  \
+                diag -= cur[i * n + i];                                                            \
+            }                                                                                      \
+            TYPE *swap = cur;                                                                      \
+            cur = next;                                                                            \
+            next = swap;                                                                           \
+        }                                                                                          \
+                                                                                                   \
+        return (n % 2 != 0) ? cur[0] : -cur[0];                                                    \
+    }
+
+/// Macro for determinant operation with integer types
+#define DET_OP_INT(TYPE, TYPE_SUFFIX)                                                              \
+    void hodu_cpu_det_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
+                                    const size_t *metadata) {                                      \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
+                                                                                                   \
+        const size_t batch_size = metadata[0];                                                     \
+        const size_t n = metadata[1];                                                              \
+        const size_t ndim = metadata[2];                                                           \
+        const size_t *strides = metadata + 3 + ndim;                                               \
+        const size_t offset = metadata[3 + 2 * ndim];                                              \
+                                                                                                   \
+        /* Get row and column strides (last two dimensions) */                                     \
+        const size_t row_stride = (ndim >= 2) ? strides[ndim - 2] : n;                             \
+        const size_t col_stride = (ndim >= 1) ? strides[ndim - 1] : 1;                             \
+                                                                                                   \
+        for (size_t batch = 0; batch < batch_size; batch++) {                                      \
+            /* Calculate batch offset using strides */                                             \
+            size_t batch_offset = offset;                                                          \
+            if (ndim > 2) {                                                                        \
+                size_t temp = batch;                                                               \
+                const size_t *shape = metadata + 3;                                                \
+                for (int d = (int)ndim - 3; d >= 0; d--) {                                         \
+                    size_t dim_size = shape[d];                                                    \
+                    size_t idx = temp % dim_size;                                                  \
+                    temp /= dim_size;                                                              \
+                    batch_offset += idx * strides[d];                                              \
+                }                                                                                  \
+            }                                                                                      \
+                                                                                                   \
+            TYPE *a = (TYPE *)malloc(3 * n * n * sizeof(TYPE));                                    \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    a[i * n + j] = DET_GET(input, batch_offset, i, j, row_stride, col_stride);     \
+                }                                                                                  \
+            }                                                                                      \
+            output[batch] = det_int_##TYPE_SUFFIX(a, a + n * n, n);                                \
+            free(a);                                                                               \
+        }                                                                                          \
+    }
+
 /// Macro for determinant operation with exotic types
 #define DET_OP_EXOTIC(TYPE, TYPE_SUFFIX, ZERO, ONE, ADD_FN, SUB_FN, MUL_FN, DIV_FN, NEG_FN,        \
                       ABS_FN, LT_FN)                                                               \
@@ -288,14 +367,22 @@ DET_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 DET_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-DET_OP(int8_t, i8)
-DET_OP(int16_t, i16)
-DET_OP(int32_t, i32)
-DET_OP(int64_t, i64)
-DET_OP(uint8_t, u8)
-DET_OP(uint16_t, u16)
-DET_OP(uint32_t, u32)
-DET_OP(uint64_t, u64)
+DET_INT(int8_t, i8)
+DET_INT(int16_t, i16)
+DET_INT(int32_t, i32)
+DET_INT(int64_t, i64)
+DET_INT(uint8_t, u8)
+DET_INT(uint16_t, u16)
+DET_INT(uint32_t, u32)
+DET_INT(uint64_t, u64)
+DET_OP_INT(int8_t, i8)
+DET_OP_INT(int16_t, i16)
+DET_OP_INT(int32_t, i32)
+DET_OP_INT(int64_t, i64)
+DET_OP_INT(uint8_t, u8)
+DET_OP_INT(uint16_t, u16)
+DET_OP_INT(uint32_t, u32)
+DET_OP_INT(uint64_t, u64)
 
 // ============================================================================
 // MATRIX INVERSE (INV)
-- 
2.43.0


From cde5cb69f793ea64f7139bee23af3e8bce30409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 46/76] fix: inv of integer matrices is exact or zero and does
 not trap on singular ones

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 82 ++++++++++++++++++--
 1 file changed, 74 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 6056496..a661bc5 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -546,6 +546,72 @@ DET_OP_INT(uint64_t, u64)
         }                                                                                          \
     }
 
+/// Macro for inverse operation with integer types: the adjugate times 1 / det, which integers
+/// hold when det is 1 or -1 and truncate to zero otherwise
+#define INV_OP_INT(TYPE, TYPE_SUFFIX)                                                              \
+    void hodu_cpu_inv_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
+                                    const size_t *metadata) {                                      \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
+                                                                                                   \
+        const size_t batch_size = metadata[0];                                                     \
+        const size_t n = metadata[1];                                                              \
+        const size_t ndim = metadata[2];                                                           \
+        const size_t *strides = metadata + 3 + ndim;                                               \
+        const size_t offset = metadata[3 + 2 * ndim];                                              \
+                                                                                                   \
+        const size_t row_stride = (ndim >= 2) ? strides[ndim - 2] : n;                             \
+        const size_t col_stride = (ndim >= 1) ? strides[ndim - 1] : 1;                             \
+                                                                                                   \
+        for (size_t batch = 0; batch < batch_size; batch++) {                                      \
+            size_t batch_offset = offset;                                                          \
+            if (ndim > 2) {                                                                        \
+                size_t temp = batch;                                                               \
+                const size_t *shape = metadata + 3;                                                \
+                for (int d = (int)ndim - 3; d >= 0; d--) {                                         \
+                    size_t dim_size = shape[d];                                                    \
+                    size_t idx = temp % dim_size;                                                  \
+                    temp /= dim_size;                                                              \
+                    batch_offset += idx * strides[d];                                              \
+                }                                                                                  \
+            }                                                                                      \
+                                                                                                   \
+            size_t out_batch_offset = batch * n * n;                                               \
+                                                                                                   \
+            TYPE *a = (TYPE *)malloc(4 * n * n * sizeof(TYPE));                                    \
+            TYPE *minor = a + n * n;                                                               \
+            TYPE *tmp = minor + n * n;                                                             \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    a[i * n + j] = DET_GET(input, batch_offset, i, j, row_stride, col_stride);     \
+                }                                                                                  \
+            }                                                                                      \
+                                                                                                   \
+            TYPE det = det_int_##TYPE_SUFFIX(a, tmp, n);                                           \
+            TYPE inv_det = (det == 1 || det == (TYPE)-1) ? det : 0;                                \
+                                                                                                   \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    TYPE *m = minor;                                                               \
+                    for (size_t r = 0; r < n && inv_det != 0; r++) {                               \
+                        for (size_t c = 0; c < n; c++) {                                           \
+                            if (r != j && c != i)                                                  \
+                                *m++ = a[r * n + c];                                               \
+                        }                                                                          \
+                    }                                                                              \
+                    TYPE cofactor = 0;                                                             \
+                    if (inv_det != 0)                                                              \
+                        cofactor = det_int_##TYPE_SUFFIX(minor, tmp, n - 1);                       \
+                    if ((i + j) % 2 != 0)                                                          \
+                        cofactor = -cofactor;                                                      \
+                    INV_SET(output, out_batch_offset, i, j, n, cofactor * inv_det);                \
+                }                                                                                  \
+            }                                                                                      \
+                                                                                                   \
+            free(a);                                                                               \
+        }                                                                                          \
+    }
+
 /// Macro for matrix inverse with exotic types
 #define INV_OP_EXOTIC(TYPE, TYPE_SUFFIX, ZERO, ONE, ADD_FN, SUB_FN, MUL_FN, DIV_FN, NEG_FN,        \
                       ABS_FN, LT_FN)                                                               \
@@ -697,14 +763,14 @@ INV_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 INV_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-INV_OP(int8_t, i8)
-INV_OP(int16_t, i16)
-INV_OP(int32_t, i32)
-INV_OP(int64_t, i64)
-INV_OP(uint8_t, u8)
-INV_OP(uint16_t, u16)
-INV_OP(uint32_t, u32)
-INV_OP(uint64_t, u64)
+INV_OP_INT(int8_t, i8)
+INV_OP_INT(int16_t, i16)
+INV_OP_INT(int32_t, i32)
+INV_OP_INT(int64_t, i64)
+INV_OP_INT(uint8_t, u8)
+INV_OP_INT(uint16_t, u16)
+INV_OP_INT(uint32_t, u32)
+INV_OP_INT(uint64_t, u64)
 
 // ============================================================================
 // MATRIX TRACE
-- 
2.43.0


From 3fd6c478cbb5c179ce5dbe10c575f782a68d3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 47/76] fix: topk reads the storage its layout describes

---
 crates/hodu_core/src/tensor/ops/sort.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 9860e95..12196e1 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -143,7 +143,7 @@ impl Tensor {
             let mut kernel_output_shape = input_shape.dims().to_vec();
             kernel_output_shape[ndim - 1] = k;
 
-            let (values_storage, indices_storage) = self
+            let (values_storage, indices_storage) = input
                 .with_storage(|storage| storage.call_topk(&input.layout(), k, last_dim, outer_size, largest, sorted))?;
 
             let values = from_storage_with_context(
-- 
2.43.0


From 0ac906beefc513d62c0cbe239f719e8ea9665aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 48/76] fix: compress reads its condition through the
 condition's layout

---
 crates/hodu_core/src/be_cpu/storage/ops_indexing.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index c48c894..209f35b 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -831,13 +831,18 @@ pub fn call_compress(
         )));
     }
 
-    // Extract condition as contiguous bool slice
-    let condition = match condition_storage {
-        CpuStorage::BOOL(data) => data.as_slice(),
+    // Extract the condition elements its layout addresses as a contiguous bool slice
+    let condition_size = condition_layout.size();
+    let condition: Vec<bool> = match condition_storage {
+        CpuStorage::BOOL(data) => {
+            let offset = condition_layout.offset();
+            let stride = condition_layout.strides()[0];
+            let data = data.as_slice();
+            (0..condition_size).map(|i| data[offset + i * stride]).collect()
+        },
         _ => unreachable!(),
     };
 
-    let condition_size = condition_layout.size();
     let dtype = storage.dtype();
 
     // Validate axis and condition size
-- 
2.43.0


From 7d95c2cc4d1f6945de6dd4326937f1479994787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 49/76] fix: unique orders negative integers before the others

---
 .../hodu_cpu_kernels/kernels/ops_indexing.c   | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index 549b1f4..e737740 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -1157,7 +1157,15 @@ static int compare_index_pairs_float(const void *a, const void *b) {
 }
 
 /// Macro to implement unique operation for integer types
-#define UNIQUE_OP_INT(TYPENAME, FN_NAME)                                                           \
+///
+/// The sort key orders like the element type: for a signed type the sign bit is
+/// flipped, so that negative values come before the others
+///
+/// @param TYPENAME C type for the operation
+/// @param FN_NAME Function name
+/// @param KEY_BIAS Value xor-ed into the key (SIGNED_KEY for signed types, 0 otherwise)
+#define SIGNED_KEY ((size_t)1 << (sizeof(size_t) * 8 - 1))
+#define UNIQUE_OP_INT(TYPENAME, FN_NAME, KEY_BIAS)                                                 \
     size_t hodu_cpu_##FN_NAME(const void *input_ptr, void *values_ptr, int32_t *inverse,           \
                               int32_t *counts, const size_t *metadata) {                           \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -1187,7 +1195,7 @@ static int compare_index_pairs_float(const void *a, const void *b) {
             }                                                                                      \
             input_values[id] = input[flat_idx];                                                    \
             pairs[id].orig_idx = id;                                                               \
-            pairs[id].sort_key = (size_t)input[flat_idx];                                          \
+            pairs[id].sort_key = (size_t)input[flat_idx] ^ (KEY_BIAS);                             \
         }                                                                                          \
                                                                                                    \
         /* Sort by value */                                                                        \
@@ -1297,7 +1305,7 @@ static int compare_index_pairs_float(const void *a, const void *b) {
     }
 
 // Bool unique
-UNIQUE_OP_INT(bool, unique_bool)
+UNIQUE_OP_INT(bool, unique_bool, 0)
 
 // Float types
 UNIQUE_OP_FLOAT(f8e4m3_t, unique_f8e4m3, f8e4m3_to_float(input[flat_idx]))
@@ -1308,14 +1316,14 @@ UNIQUE_OP_FLOAT(float, unique_f32, input[flat_idx])
 UNIQUE_OP_FLOAT(double, unique_f64, input[flat_idx])
 
 // Integer types
-UNIQUE_OP_INT(int8_t, unique_i8)
-UNIQUE_OP_INT(int16_t, unique_i16)
-UNIQUE_OP_INT(int32_t, unique_i32)
-UNIQUE_OP_INT(int64_t, unique_i64)
-UNIQUE_OP_INT(uint8_t, unique_u8)
-UNIQUE_OP_INT(uint16_t, unique_u16)
-UNIQUE_OP_INT(uint32_t, unique_u32)
-UNIQUE_OP_INT(uint64_t, unique_u64)
+UNIQUE_OP_INT(int8_t, unique_i8, SIGNED_KEY)
+UNIQUE_OP_INT(int16_t, unique_i16, SIGNED_KEY)
+UNIQUE_OP_INT(int32_t, unique_i32, SIGNED_KEY)
+UNIQUE_OP_INT(int64_t, unique_i64, SIGNED_KEY)
+UNIQUE_OP_INT(uint8_t, unique_u8, 0)
+UNIQUE_OP_INT(uint16_t, unique_u16, 0)
+UNIQUE_OP_INT(uint32_t, unique_u32, 0)
+UNIQUE_OP_INT(uint64_t, unique_u64, 0)
 
 // ============================================================================
 // COMPRESS OPERATIONS
-- 
2.43.0


From 090c746eee82db4a82c72265d27bb9e9cab8b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 50/76] fix: topk ranks by keys that hold every element exactly

---
 crates/hodu_cpu_kernels/kernels/ops_sort.c | 224 +++++++++++----------
 1 file changed, 118 insertions(+), 106 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_sort.c b/crates/hodu_cpu_kernels/kernels/ops_sort.c
index 5cda2db..9009a74 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_sort.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_sort.c
@@ -2,98 +2,109 @@
 #include "types.h"
 #include <stdlib.h>
 
-// Helper struct for sorting with indices
-typedef struct {
-    float value;
-    i32_t index;
-} ValueIndex;
-
-// Comparison functions for qsort
-static int cmp_largest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
-    if (va > vb)
-        return -1;
-    if (va < vb)
-        return 1;
-    return 0;
-}
-
-static int cmp_smallest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
-    if (va < vb)
-        return -1;
-    if (va > vb)
-        return 1;
-    return 0;
-}
-
-// Partition for quickselect
-static size_t partition(ValueIndex *arr, size_t left, size_t right, int largest) {
-    float pivot = arr[right].value;
-    size_t i = left;
-    for (size_t j = left; j < right; j++) {
-        int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);
-        if (should_swap) {
-            ValueIndex tmp = arr[i];
-            arr[i] = arr[j];
-            arr[j] = tmp;
-            i++;
-        }
-    }
-    ValueIndex tmp = arr[i];
-    arr[i] = arr[right];
-    arr[right] = tmp;
-    return i;
-}
-
-// QuickSelect to find k-th element and partition array
-static void quickselect_k(ValueIndex *arr, size_t n, size_t k, int largest) {
-    if (n <= 1 || k == 0)
-        return;
-
-    size_t left = 0;
-    size_t right = n - 1;
-
-    while (left < right) {
-        size_t pivot_idx = partition(arr, left, right, largest);
-        if (pivot_idx == k - 1) {
-            break;
-        } else if (pivot_idx < k - 1) {
-            left = pivot_idx + 1;
-        } else {
-            right = pivot_idx - 1;
-        }
-    }
-}
-
-// Select top-k elements using partial sort
-static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int sorted) {
-    if (k >= n) {
-        // If k >= n, just sort everything
-        if (largest) {
-            qsort(arr, n, sizeof(ValueIndex), cmp_largest);
-        } else {
-            qsort(arr, n, sizeof(ValueIndex), cmp_smallest);
-        }
-        return;
+// Selection of the k extreme elements, generated per key type: the key must hold
+// every value of the element type exactly, or close values would be confused
+#define DEFINE_TOPK_SELECT(KEY, SUFFIX)                                                            \
+    /* Value with its position */                                                                  \
+    typedef struct {                                                                               \
+        KEY value;                                                                                 \
+        i32_t index;                                                                               \
+    } ValueIndex_##SUFFIX;                                                                         \
+                                                                                                   \
+    /* Comparison functions for qsort */                                                           \
+    static int cmp_largest_##SUFFIX(const void *a, const void *b) {                                \
+        KEY va = ((ValueIndex_##SUFFIX *)a)->value;                                                \
+        KEY vb = ((ValueIndex_##SUFFIX *)b)->value;                                                \
+        if (va > vb)                                                                               \
+            return -1;                                                                             \
+        if (va < vb)                                                                               \
+            return 1;                                                                              \
+        return 0;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    static int cmp_smallest_##SUFFIX(const void *a, const void *b) {                               \
+        KEY va = ((ValueIndex_##SUFFIX *)a)->value;                                                \
+        KEY vb = ((ValueIndex_##SUFFIX *)b)->value;                                                \
+        if (va < vb)                                                                               \
+            return -1;                                                                             \
+        if (va > vb)                                                                               \
+            return 1;                                                                              \
+        return 0;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    /* Partition for quickselect */                                                                \
+    static size_t partition_##SUFFIX(ValueIndex_##SUFFIX *arr,                                     \
+                                     size_t left, size_t right, int largest) {                     \
+        KEY pivot = arr[right].value;                                                              \
+        size_t i = left;                                                                           \
+        for (size_t j = left; j < right; j++) {                                                    \
+            int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);           \
+            if (should_swap) {                                                                     \
+                ValueIndex_##SUFFIX tmp = arr[i];                                                  \
+                arr[i] = arr[j];                                                                   \
+                arr[j] = tmp;                                                                      \
+                i++;                                                                               \
+            }                                                                                      \
+        }                                                                                          \
+        ValueIndex_##SUFFIX tmp = arr[i];                                                          \
+        arr[i] = arr[right];                                                                       \
+        arr[right] = tmp;                                                                          \
+        return i;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    /* QuickSelect to find k-th element and partition array */                                      \
+    static void quickselect_k_##SUFFIX(ValueIndex_##SUFFIX *arr,                                   \
+                                       size_t n, size_t k, int largest) {                          \
+        if (n <= 1 || k == 0)                                                                      \
+            return;                                                                                \
+                                                                                                   \
+        size_t left = 0;                                                                           \
+        size_t right = n - 1;                                                                      \
+                                                                                                   \
+        while (left < right) {                                                                     \
+            size_t pivot_idx = partition_##SUFFIX(arr, left, right, largest);                      \
+            if (pivot_idx == k - 1) {                                                              \
+                break;                                                                             \
+            } else if (pivot_idx < k - 1) {                                                        \
+                left = pivot_idx + 1;                                                              \
+            } else {                                                                               \
+                right = pivot_idx - 1;                                                             \
+            }                                                                                      \
+        }                                                                                          \
+    }                                                                                              \
+                                                                                                   \
+    /* Select top-k elements using partial sort */                                                 \
+    static void topk_select_##SUFFIX(ValueIndex_##SUFFIX *arr,                                     \
+                                     size_t n, size_t k, int largest, int sorted) {                \
+        if (k >= n) {                                                                              \
+            /* If k >= n, just sort everything */                                                  \
+            if (largest) {                                                                         \
+                qsort(arr, n, sizeof(ValueIndex_##SUFFIX), cmp_largest_##SUFFIX);                  \
+            } else {                                                                               \
+                qsort(arr, n, sizeof(ValueIndex_##SUFFIX), cmp_smallest_##SUFFIX);                 \
+            }                                                                                      \
+            return;                                                                                \
+        }                                                                                          \
+                                                                                                   \
+        /* Use quickselect to partition first k elements */                                         \
+        quickselect_k_##SUFFIX(arr, n, k, largest);                                                \
+                                                                                                   \
+        /* Sort the first k elements if sorted is requested */                                     \
+        if (sorted) {                                                                              \
+            if (largest) {                                                                         \
+                qsort(arr, k, sizeof(ValueIndex_##SUFFIX), cmp_largest_##SUFFIX);                  \
+            } else {                                                                               \
+                qsort(arr, k, sizeof(ValueIndex_##SUFFIX), cmp_smallest_##SUFFIX);                 \
+            }                                                                                      \
+        }                                                                                          \
     }
 
-    // Use quickselect to partition first k elements
-    quickselect_k(arr, n, k, largest);
-
-    // Sort the first k elements if sorted is requested
-    if (sorted) {
-        if (largest) {
-            qsort(arr, k, sizeof(ValueIndex), cmp_largest);
-        } else {
-            qsort(arr, k, sizeof(ValueIndex), cmp_smallest);
-        }
-    }
-}
+DEFINE_TOPK_SELECT(f32_t, f32)
+DEFINE_TOPK_SELECT(f64_t, f64)
+DEFINE_TOPK_SELECT(i64_t, i64)
+DEFINE_TOPK_SELECT(u64_t, u64)
 
-#define IMPL_TOPK(TYPE, TYPE_SUFFIX, TO_FLOAT)                                                     \
+#define IMPL_TOPK(TYPE, TYPE_SUFFIX, KEY, TO_KEY)                                                  \
     void hodu_cpu_topk_##TYPE_SUFFIX(const void *input, void *values, void *indices,               \
                                      const size_t *metadata) {                                     \
         const size_t k = metadata[1];                                                              \
@@ -108,7 +119,8 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
         i32_t *idx_out = (i32_t *)indices;                                                         \
                                                                                                    \
         /* Allocate temporary buffer for sorting */                                                \
-        ValueIndex *temp = (ValueIndex *)malloc(last_dim_size * sizeof(ValueIndex));               \
+        ValueIndex_##KEY *temp =                                                                   \
+            (ValueIndex_##KEY *)malloc(last_dim_size * sizeof(ValueIndex_##KEY));                  \
         if (!temp)                                                                                 \
             return;                                                                                \
                                                                                                    \
@@ -117,12 +129,12 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
                                                                                                    \
             /* Fill temporary buffer with values and indices */                                    \
             for (size_t i = 0; i < last_dim_size; i++) {                                           \
-                temp[i].value = TO_FLOAT(row[i]);                                                  \
+                temp[i].value = TO_KEY(row[i]);                                                    \
                 temp[i].index = (i32_t)i;                                                          \
             }                                                                                      \
                                                                                                    \
             /* Select top-k elements */                                                            \
-            topk_select(temp, last_dim_size, k, largest, sorted);                                  \
+            topk_select_##KEY(temp, last_dim_size, k, largest, sorted);                            \
                                                                                                    \
             /* Copy top-k results to output */                                                     \
             TYPE *val_row = val_out + outer * k;                                                   \
@@ -138,17 +150,17 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
 
 #define IDENTITY(x) (x)
 
-IMPL_TOPK(f32_t, f32, IDENTITY)
-IMPL_TOPK(f64_t, f64, IDENTITY)
-IMPL_TOPK(u8_t, u8, IDENTITY)
-IMPL_TOPK(u16_t, u16, IDENTITY)
-IMPL_TOPK(u32_t, u32, IDENTITY)
-IMPL_TOPK(u64_t, u64, IDENTITY)
-IMPL_TOPK(i8_t, i8, IDENTITY)
-IMPL_TOPK(i16_t, i16, IDENTITY)
-IMPL_TOPK(i32_t, i32, IDENTITY)
-IMPL_TOPK(i64_t, i64, IDENTITY)
-IMPL_TOPK(bf16_t, bf16, bf16_to_float)
-IMPL_TOPK(f16_t, f16, f16_to_float)
-IMPL_TOPK(f8e4m3_t, f8e4m3, f8e4m3_to_float)
-IMPL_TOPK(f8e5m2_t, f8e5m2, f8e5m2_to_float)
+IMPL_TOPK(f32_t, f32, f32, IDENTITY)
+IMPL_TOPK(f64_t, f64, f64, IDENTITY)
+IMPL_TOPK(u8_t, u8, u64, IDENTITY)
+IMPL_TOPK(u16_t, u16, u64, IDENTITY)
+IMPL_TOPK(u32_t, u32, u64, IDENTITY)
+IMPL_TOPK(u64_t, u64, u64, IDENTITY)
+IMPL_TOPK(i8_t, i8, i64, IDENTITY)
+IMPL_TOPK(i16_t, i16, i64, IDENTITY)
+IMPL_TOPK(i32_t, i32, i64, IDENTITY)
+IMPL_TOPK(i64_t, i64, i64, IDENTITY)
+IMPL_TOPK(bf16_t, bf16, f32, bf16_to_float)
+IMPL_TOPK(f16_t, f16, f32, f16_to_float)
+IMPL_TOPK(f8e4m3_t, f8e4m3, f32, f8e4m3_to_float)
+IMPL_TOPK(f8e5m2_t, f8e5m2, f32, f8e5m2_to_float)
-- 
2.43.0


From b0ebc4003f56f928e914d89c573a95fe44771f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 51/76] fix: integer division and remainder by -1 of the least
 value no longer trap

---
 crates/hodu_cpu_kernels/kernels/ops_binary.c | 12 +++++------
 crates/hodu_cpu_kernels/kernels/ops_unary.c  | 22 ++++++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_binary.c b/crates/hodu_cpu_kernels/kernels/ops_binary.c
index 1ebf24b..8315946 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_binary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_binary.c
@@ -736,7 +736,7 @@ IMPL_BINARY_OP(i8_t, i8, add, x + y)
 IMPL_BINARY_OP(i8_t, i8, sub, x - y)
 IMPL_BINARY_OP(i8_t, i8, mul, x *y)
 IMPL_BINARY_OP(i8_t, i8, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i8_t, i8, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i8_t, i8, rem, (y != 0 && y != -1) ? (x % y) : 0)
 IMPL_BINARY_OP(i8_t, i8, pow, (i8_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i8_t, i8, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i8_t, i8, minimum, MINIMUM(x, y))
@@ -757,7 +757,7 @@ IMPL_BINARY_OP(i16_t, i16, add, x + y)
 IMPL_BINARY_OP(i16_t, i16, sub, x - y)
 IMPL_BINARY_OP(i16_t, i16, mul, x *y)
 IMPL_BINARY_OP(i16_t, i16, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i16_t, i16, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i16_t, i16, rem, (y != 0 && y != -1) ? (x % y) : 0)
 IMPL_BINARY_OP(i16_t, i16, pow, (i16_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i16_t, i16, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i16_t, i16, minimum, MINIMUM(x, y))
@@ -777,8 +777,8 @@ IMPL_BINARY_TO_BOOL(i16_t, i16, ge, x >= y)
 IMPL_BINARY_OP(i32_t, i32, add, x + y)
 IMPL_BINARY_OP(i32_t, i32, sub, x - y)
 IMPL_BINARY_OP(i32_t, i32, mul, x *y)
-IMPL_BINARY_OP(i32_t, i32, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i32_t, i32, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i32_t, i32, div, (y == 0) ? 0 : (y == -1) ? (i32_t)(0 - (u32_t)x) : (x / y))
+IMPL_BINARY_OP(i32_t, i32, rem, (y != 0 && y != -1) ? (x % y) : 0)
 IMPL_BINARY_OP(i32_t, i32, pow, (i32_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i32_t, i32, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i32_t, i32, minimum, MINIMUM(x, y))
@@ -798,8 +798,8 @@ IMPL_BINARY_TO_BOOL(i32_t, i32, ge, x >= y)
 IMPL_BINARY_OP(i64_t, i64, add, x + y)
 IMPL_BINARY_OP(i64_t, i64, sub, x - y)
 IMPL_BINARY_OP(i64_t, i64, mul, x *y)
-IMPL_BINARY_OP(i64_t, i64, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i64_t, i64, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i64_t, i64, div, (y == 0) ? 0 : (y == -1) ? (i64_t)(0 - (u64_t)x) : (x / y))
+IMPL_BINARY_OP(i64_t, i64, rem, (y != 0 && y != -1) ? (x % y) : 0)
 IMPL_BINARY_OP(i64_t, i64, pow, ipow_i64(x, y))
 IMPL_BINARY_OP(i64_t, i64, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i64_t, i64, minimum, MINIMUM(x, y))
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 85d6c93..f2e6c60 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1688,7 +1688,8 @@ IMPL_UNARY_WITH_SCALAR(i8_t, i8, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i8_t, i8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i8_t, i8, rem_scalar,
+                       (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)powf_opt((float)x, (float)const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, minimum_scalar, MINIMUM(x, const_val))
@@ -1712,7 +1713,8 @@ IMPL_UNARY_WITH_SCALAR(i16_t, i16, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i16_t, i16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i16_t, i16, rem_scalar,
+                       (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)powf_opt((float)x, (float)const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, minimum_scalar, MINIMUM(x, const_val))
@@ -1735,8 +1737,12 @@ IMPL_UNARY_TO_BOOL(i32_t, i32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar,
+                       (const_val == 0)    ? 0
+                       : (const_val == -1) ? (i32_t)(0 - (u32_t)x)
+                                           : (x / const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar,
+                       (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)powf_opt((float)x, (float)const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
@@ -1759,8 +1765,12 @@ IMPL_UNARY_TO_BOOL(i64_t, i64, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar,
+                       (const_val == 0)    ? 0
+                       : (const_val == -1) ? (i64_t)(0 - (u64_t)x)
+                                           : (x / const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar,
+                       (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)pow_opt((double)x, (double)const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, minimum_scalar, MINIMUM(x, const_val))
-- 
2.43.0


From a147def810a71f29830509f719069da983568fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 52/76] fix: any and all treat the negative zero of small float
 types as zero

---
 crates/hodu_cpu_kernels/kernels/ops_reduce.c | 76 +++++++++++---------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 1354989..d164894 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -2612,12 +2612,17 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 // Metadata layout: Same as generic reduction operations
 
 #define IS_NONZERO(val) ((val) != 0)
+#define IS_NONZERO_F8E4M3(val) (f8e4m3_to_float(val) != 0.0f)
+#define IS_NONZERO_F8E5M2(val) (f8e5m2_to_float(val) != 0.0f)
+#define IS_NONZERO_BF16(val) (bf16_to_float(val) != 0.0f)
+#define IS_NONZERO_F16(val) (f16_to_float(val) != 0.0f)
 
 /// Macro to implement any reduction (logical OR, returns bool)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+/// @param NONZERO_FN Test of one element for being non-zero
+#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX, NONZERO_FN)                                            \
     void hodu_cpu_any_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2689,7 +2694,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (IS_NONZERO(input[flat_index])) {                                               \
+                if (NONZERO_FN(input[flat_index])) {                                               \
                     result = true;                                                                 \
                     break;                                                                         \
                 }                                                                                  \
@@ -2712,7 +2717,8 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+/// @param NONZERO_FN Test of one element for being non-zero
+#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX, NONZERO_FN)                                            \
     void hodu_cpu_all_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2784,7 +2790,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (!IS_NONZERO(input[flat_index])) {                                              \
+                if (!NONZERO_FN(input[flat_index])) {                                              \
                     result = false;                                                                \
                     break;                                                                         \
                 }                                                                                  \
@@ -2794,34 +2800,34 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         }                                                                                          \
     }
 
-REDUCE_ANY_OP(bool, bool)
-REDUCE_ANY_OP(f8e4m3_t, f8e4m3)
-REDUCE_ANY_OP(f8e5m2_t, f8e5m2)
-REDUCE_ANY_OP(bf16_t, bf16)
-REDUCE_ANY_OP(f16_t, f16)
-REDUCE_ANY_OP(f32_t, f32)
-REDUCE_ANY_OP(f64_t, f64)
-REDUCE_ANY_OP(int8_t, i8)
-REDUCE_ANY_OP(int16_t, i16)
-REDUCE_ANY_OP(int32_t, i32)
-REDUCE_ANY_OP(int64_t, i64)
-REDUCE_ANY_OP(uint8_t, u8)
-REDUCE_ANY_OP(uint16_t, u16)
-REDUCE_ANY_OP(uint32_t, u32)
-REDUCE_ANY_OP(uint64_t, u64)
-
-REDUCE_ALL_OP(bool, bool)
-REDUCE_ALL_OP(f8e4m3_t, f8e4m3)
-REDUCE_ALL_OP(f8e5m2_t, f8e5m2)
-REDUCE_ALL_OP(bf16_t, bf16)
-REDUCE_ALL_OP(f16_t, f16)
-REDUCE_ALL_OP(f32_t, f32)
-REDUCE_ALL_OP(f64_t, f64)
-REDUCE_ALL_OP(int8_t, i8)
-REDUCE_ALL_OP(int16_t, i16)
-REDUCE_ALL_OP(int32_t, i32)
-REDUCE_ALL_OP(int64_t, i64)
-REDUCE_ALL_OP(uint8_t, u8)
-REDUCE_ALL_OP(uint16_t, u16)
-REDUCE_ALL_OP(uint32_t, u32)
-REDUCE_ALL_OP(uint64_t, u64)
+REDUCE_ANY_OP(bool, bool, IS_NONZERO)
+REDUCE_ANY_OP(f8e4m3_t, f8e4m3, IS_NONZERO_F8E4M3)
+REDUCE_ANY_OP(f8e5m2_t, f8e5m2, IS_NONZERO_F8E5M2)
+REDUCE_ANY_OP(bf16_t, bf16, IS_NONZERO_BF16)
+REDUCE_ANY_OP(f16_t, f16, IS_NONZERO_F16)
+REDUCE_ANY_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ANY_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ANY_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ANY_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ANY_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ANY_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ANY_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ANY_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ANY_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ANY_OP(uint64_t, u64, IS_NONZERO)
+
+REDUCE_ALL_OP(bool, bool, IS_NONZERO)
+REDUCE_ALL_OP(f8e4m3_t, f8e4m3, IS_NONZERO_F8E4M3)
+REDUCE_ALL_OP(f8e5m2_t, f8e5m2, IS_NONZERO_F8E5M2)
+REDUCE_ALL_OP(bf16_t, bf16, IS_NONZERO_BF16)
+REDUCE_ALL_OP(f16_t, f16, IS_NONZERO_F16)
+REDUCE_ALL_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ALL_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ALL_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ALL_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ALL_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ALL_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ALL_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ALL_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ALL_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ALL_OP(uint64_t, u64, IS_NONZERO)
-- 
2.43.0


From b7d4418ff5cbfbaf5eb119f9e7099487e8789548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 53/76] fix: bf16 encoding rounds to nearest and keeps NaN

---
 crates/hodu_cpu_kernels/kernels/t_bf16.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/t_bf16.h b/crates/hodu_cpu_kernels/kernels/t_bf16.h
index b1dc2f2..a6bdb32 100644
--- a/crates/hodu_cpu_kernels/kernels/t_bf16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_bf16.h
@@ -32,9 +32,13 @@ static inline float bf16_to_float(bf16_t val) {
     return result;
 }
 
+// Rounds to the nearest bf16, ties to even. NaN stays NaN.
 static inline bf16_t float_to_bf16(float val) {
     uint32_t bits;
     memcpy(&bits, &val, sizeof(float));
+    if ((bits & 0x7FFFFFFFu) > 0x7F800000u)
+        return (bf16_t)((bits >> 16) | 0x0040u);
+    bits += 0x7FFFu + ((bits >> 16) & 1u);
     return (bf16_t)(bits >> 16);
 }
 
-- 
2.43.0


From e05612f6b60b29c86d473941da388ba284c79348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 54/76] fix: f16 encoding keeps subnormals and rounds to
 nearest

---
 crates/hodu_cpu_kernels/kernels/t_f16.h | 56 +++++++++++++------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/t_f16.h b/crates/hodu_cpu_kernels/kernels/t_f16.h
index b4c07e5..9470533 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f16.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -45,35 +46,38 @@ static inline float f16_to_float(f16_t val) {
     return sign ? -result : result;
 }
 
+// Rounds to the nearest f16 (subnormals included), ties to even. Values beyond the range become
+// infinity, NaN stays NaN.
 static inline f16_t float_to_f16(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7E00;
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    if (isinf(val) || val > 65504.0f)
-        return (sign << 15) | 0x7C00;
-    if (val < 0.00006103515625f)
-        return sign << 15;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14;
-
-    if (exp <= 0) {
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 15) | 0x7C00;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    const uint32_t sign = (bits >> 16) & 0x8000u;
+    const uint32_t mag = bits & 0x7FFFFFFFu;
+
+    if (mag > 0x7F800000u)
+        return 0x7E00; // NaN
+    if (mag >= 0x477FF000u)
+        return (f16_t)(sign | 0x7C00u); // 65520 and above round to infinity
+
+    if (mag < 0x38800000u) {
+        // Below 2^(-14): a multiple of 2^(-24)
+        const uint32_t exp = mag >> 23;
+        if (exp < 102u)
+            return (f16_t)sign;
+        const uint32_t mant = (mag & 0x7FFFFFu) | 0x800000u;
+        const uint32_t shift = 126u - exp;
+        const uint32_t half = 1u << (shift - 1u);
+        const uint32_t rest = mant & ((1u << shift) - 1u);
+        uint32_t res = mant >> shift;
+        if (rest > half || (rest == half && (res & 1u)))
+            res++;
+        return (f16_t)(sign | res);
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 1024.0f + 0.5f);
-    mant_bits = mant_bits > 1023 ? 1023 : mant_bits;
-
-    return (sign << 15) | (exp << 10) | mant_bits;
+    // Change of bias, then rounding (a carry moves on to the exponent)
+    uint32_t res = mag - (112u << 23);
+    res = (res + 0xFFFu + ((res >> 13) & 1u)) >> 13;
+    return (f16_t)(sign | res);
 }
 
 // ============================================================================
-- 
2.43.0


From bc548fc98963e3037c57a06f0ad18e23ddc749b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 55/76] fix: f8 encodings of subnormal, large and infinite
 values; e4m3 values above 240

---
 crates/hodu_cpu_kernels/kernels/t_f8e4m3.h | 65 +++++++++++-----------
 crates/hodu_cpu_kernels/kernels/t_f8e5m2.h | 62 +++++++++++----------
 2 files changed, 63 insertions(+), 64 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
index 968da9a..74ff557 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -30,12 +31,9 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     uint32_t mant = val & 0x7;
 
     // E4M3 uses bias of 7
-    // Special values: exp=15 is infinity/NaN
-    if (exp == 15) {
-        if (mant == 0)
-            return sign ? -INFINITY : INFINITY;
+    // No infinity: exp=15 holds ordinary values up to 448, except that all ones is NaN
+    if (exp == 15 && mant == 7)
         return NAN;
-    }
 
     if (exp == 0) {
         if (mant == 0)
@@ -49,39 +47,38 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     return sign ? -result : result;
 }
 
+// Rounds to the nearest E4M3 value (subnormals included), ties to even. Finite values beyond the
+// range become the largest finite value (so does infinity, which E4M3 lacks), NaN stays NaN.
 static inline f8e4m3_t float_to_f8e4m3(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E4M3 max value is ~448
-    if (isinf(val) || val > 448.0f)
-        return (sign << 7) | 0x7F;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    const uint32_t sign = (bits >> 24) & 0x80u;
+    const uint32_t mag = bits & 0x7FFFFFFFu;
 
-    // E4M3 min normal value is 2^(-6) ≈ 0.015625
-    if (val < 0.001953125f) // 2^(-9)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 6; // bias = 7, but frexp returns [0.5, 1), so adjust
+    if (mag > 0x7F800000u)
+        return 0x7F; // NaN
 
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 15) {
-        return (sign << 7) | 0x7F;
+    uint32_t res;
+    if (mag < 0x3C800000u) {
+        // Below 2^(-6): a multiple of 2^(-9)
+        const uint32_t exp = mag >> 23;
+        if (exp < 117u)
+            return (f8e4m3_t)sign;
+        const uint32_t mant = (mag & 0x7FFFFFu) | 0x800000u;
+        const uint32_t shift = 141u - exp;
+        const uint32_t half = 1u << (shift - 1u);
+        const uint32_t rest = mant & ((1u << shift) - 1u);
+        res = mant >> shift;
+        if (rest > half || (rest == half && (res & 1u)))
+            res++;
+    } else {
+        // Change of bias, then rounding (a carry moves on to the exponent)
+        res = mag - (120u << 23);
+        res = (res + 0x7FFFFu + ((res >> 20) & 1u)) >> 20;
+        if (res > 0x7Eu)
+            res = 0x7Eu;
     }
-
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 8.0f + 0.5f);
-    mant_bits = mant_bits > 7 ? 7 : mant_bits;
-
-    return (sign << 7) | (exp << 3) | mant_bits;
+    return (f8e4m3_t)(sign | res);
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
index 72c3dba..7518f62 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -49,39 +50,40 @@ static inline float f8e5m2_to_float(f8e5m2_t val) {
     return sign ? -result : result;
 }
 
+// Rounds to the nearest E5M2 value (subnormals included), ties to even. Finite values beyond the
+// range become the largest finite value, infinity stays infinity, NaN stays NaN.
 static inline f8e5m2_t float_to_f8e5m2(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E5M2 max value is ~57344
-    if (isinf(val) || val > 57344.0f)
-        return (sign << 7) | 0x7F;
-
-    // E5M2 min normal value is 2^(-14) ≈ 0.000061
-    if (val < 0.0000152587890625f) // 2^(-16)
-        return sign << 7;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    const uint32_t sign = (bits >> 24) & 0x80u;
+    const uint32_t mag = bits & 0x7FFFFFFFu;
 
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14; // bias = 15, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 7) | 0x7F;
+    if (mag > 0x7F800000u)
+        return 0x7F; // NaN
+    if (mag == 0x7F800000u)
+        return (f8e5m2_t)(sign | 0x7Cu);
+
+    uint32_t res;
+    if (mag < 0x38800000u) {
+        // Below 2^(-14): a multiple of 2^(-16)
+        const uint32_t exp = mag >> 23;
+        if (exp < 110u)
+            return (f8e5m2_t)sign;
+        const uint32_t mant = (mag & 0x7FFFFFu) | 0x800000u;
+        const uint32_t shift = 134u - exp;
+        const uint32_t half = 1u << (shift - 1u);
+        const uint32_t rest = mant & ((1u << shift) - 1u);
+        res = mant >> shift;
+        if (rest > half || (rest == half && (res & 1u)))
+            res++;
+    } else {
+        // Change of bias, then rounding (a carry moves on to the exponent)
+        res = mag - (112u << 23);
+        res = (res + 0xFFFFFu + ((res >> 21) & 1u)) >> 21;
+        if (res > 0x7Bu)
+            res = 0x7Bu;
     }
-
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 4.0f + 0.5f);
-    mant_bits = mant_bits > 3 ? 3 : mant_bits;
-
-    return (sign << 7) | (exp << 2) | mant_bits;
+    return (f8e5m2_t)(sign | res);
 }
 
 // ============================================================================
-- 
2.43.0


From 00fa0b1bd73e85b117f2173b9f79db830364dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 56/76] fix: Adam corrected the bias twice and with the powers
 of the next step

---
 crates/hodu_nn/src/optimizers/adam.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_nn/src/optimizers/adam.rs b/crates/hodu_nn/src/optimizers/adam.rs
index 8780329..76312df 100644
--- a/crates/hodu_nn/src/optimizers/adam.rs
+++ b/crates/hodu_nn/src/optimizers/adam.rs
@@ -54,14 +54,13 @@ impl Adam {
 
             let mut beta1_t = beta1;
             let mut beta2_t = beta2;
-            for _ in 0..self.t {
+            for _ in 1..self.t {
                 beta1_t = beta1_t * beta1;
                 beta2_t = beta2_t * beta2;
             }
 
             let one_minus_beta1_t = one - beta1_t;
             let one_minus_beta2_t = one - beta2_t;
-            let lr_t = lr * (one_minus_beta2_t.sqrt()) / one_minus_beta1_t;
 
             let one_minus_beta1 = one - beta1;
             let one_minus_beta2 = one - beta2;
@@ -78,7 +77,7 @@ impl Adam {
 
             // Update parameters
             let step = m_hat.div(&v_hat.sqrt()?.add_scalar(epsilon)?)?;
-            param.set_(&param.sub(&step.mul_scalar(lr_t)?)?)?;
+            param.set_(&param.sub(&step.mul_scalar(lr)?)?)?;
         }
 
         Ok(())
-- 
2.43.0


From 7f804c0a11f30b317743e9de4edf36bf8a1e9f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 57/76] fix: Adagrad accumulator takes the element type of its
 parameter

---
 crates/hodu_nn/src/optimizers/adagrad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/optimizers/adagrad.rs b/crates/hodu_nn/src/optimizers/adagrad.rs
index 08f5dd2..d4d4ab1 100644
--- a/crates/hodu_nn/src/optimizers/adagrad.rs
+++ b/crates/hodu_nn/src/optimizers/adagrad.rs
@@ -65,7 +65,7 @@ impl Adagrad {
             } else {
                 self.v = parameters
                     .iter()
-                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value))
+                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value.to_dtype(param.dtype())))
                     .collect::<HoduResult<Vec<_>>>()?;
             }
         }
-- 
2.43.0


From 105da4fe0afe7f6c24de1bff694f7f66df9f2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 58/76] fix: losses convert their constants to the element type
 of the predictions

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs | 5 +++--
 crates/hodu_nn/src/losses/huber.rs                | 7 ++++---
 crates/hodu_nn/src/losses/kl_div.rs               | 5 +++--
 crates/hodu_nn/src/losses/mae.rs                  | 2 +-
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index c428128..6a3f06e 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -29,8 +29,9 @@ impl BCELoss {
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         // Clamp predictions to avoid log(0)
         // pred_clamped = clamp(pred, epsilon, 1 - epsilon)
-        let one_minus_eps_scalar = Scalar::one(self.epsilon.dtype()) - self.epsilon;
-        let pred_clamped = pred.clamp(self.epsilon, one_minus_eps_scalar)?;
+        let epsilon = self.epsilon.to_dtype(pred.dtype());
+        let one_minus_eps_scalar = Scalar::one(epsilon.dtype()) - epsilon;
+        let pred_clamped = pred.clamp(epsilon, one_minus_eps_scalar)?;
 
         // BCE = -[target * log(pred) + (1 - target) * log(1 - pred)]
 
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index c642eea..0bb20f5 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -14,16 +14,17 @@ impl HuberLoss {
 
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         let diff = pred.sub(target)?;
+        let delta = self.delta.to_dtype(diff.dtype());
         let abs_diff = diff.abs()?;
 
         let quadratic_loss = diff
             .pow_scalar(Scalar::from_f32(2.0, diff.dtype()))?
             .div_scalar(Scalar::from_f32(2.0, diff.dtype()))?;
         let linear_loss = abs_diff
-            .mul_scalar(self.delta)?
-            .sub_scalar(self.delta.powi(2) / Scalar::from_f32(2.0, self.delta.dtype()))?;
+            .mul_scalar(delta)?
+            .sub_scalar(delta.powi(2) / Scalar::from_f32(2.0, delta.dtype()))?;
 
-        let mask = abs_diff.le_scalar(self.delta)?;
+        let mask = abs_diff.le_scalar(delta)?;
 
         let loss = mask
             .mul(&quadratic_loss)?
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 12a5762..2a790ab 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -1,5 +1,5 @@
 use crate::module::Module;
-use hodu_core::{error::HoduResult, tensor::Tensor};
+use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
 
 /// Kullback-Leibler Divergence Loss.
 ///
@@ -49,6 +49,7 @@ impl KLDivLoss {
             target_log_target.sub(&target_input)?
         };
 
-        loss.sum_all()?.div_scalar(input.shape()[0] as f32)
+        let batch_size = Scalar::from_usize(input.shape()[0], loss.dtype());
+        loss.sum_all()?.div_scalar(batch_size)
     }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 8c52593..11a8004 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -15,7 +15,7 @@ impl MAELoss {
         let abs_diff = diff.abs()?;
 
         let pred_shape = pred.shape();
-        let batch_size = Scalar::new(pred_shape[0]);
+        let batch_size = Scalar::from_usize(pred_shape[0], diff.dtype());
         let mean = abs_diff.sum_all()?.div_scalar(batch_size)?;
 
         Ok(mean)
-- 
2.43.0


From 5f8b55c864bd019f8595929608c89ba63aaa990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 59/76] fix: Huber, smooth L1 and cosine embedding losses
 multiplied a boolean by a float and always failed

---
 crates/hodu_nn/src/losses/cosine_embedding.rs | 4 +---
 crates/hodu_nn/src/losses/huber.rs            | 4 +---
 crates/hodu_nn/src/losses/smooth_l1.rs        | 2 +-
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 083351f..3747292 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -66,9 +66,7 @@ impl CosineEmbeddingLoss {
         // mask = (y == 1)
         let mask = y.eq_scalar(one)?;
 
-        let loss = mask
-            .mul(&loss_positive)?
-            .add(&mask.logical_not()?.mul(&loss_negative)?)?;
+        let loss = loss_positive.where3(&mask, &loss_negative)?;
 
         loss.mean_all()
     }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index 0bb20f5..6b8d4b6 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -26,9 +26,7 @@ impl HuberLoss {
 
         let mask = abs_diff.le_scalar(delta)?;
 
-        let loss = mask
-            .mul(&quadratic_loss)?
-            .add(&mask.logical_not()?.mul(&linear_loss)?)?;
+        let loss = quadratic_loss.where3(&mask, &linear_loss)?;
 
         let pred_shape = pred.shape();
         let batch_size = Scalar::from_f32(pred_shape[0] as f32, diff.dtype());
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index 715157e..c09f461 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -49,7 +49,7 @@ impl SmoothL1Loss {
 
         // Select based on condition: |x - y| < beta
         let mask = abs_diff.lt_scalar(beta)?;
-        let loss = mask.mul(&quadratic)?.add(&mask.logical_not()?.mul(&linear)?)?;
+        let loss = quadratic.where3(&mask, &linear)?;
 
         loss.mean_all()
     }
-- 
2.43.0


From 7aea49d23dc9e89fc4e7ab1087d455f56b594ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 60/76] fix: KL divergence of a target probability of zero was
 NaN instead of zero

---
 crates/hodu_nn/src/losses/kl_div.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 2a790ab..20a8357 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -44,7 +44,9 @@ impl KLDivLoss {
             // KL = target * (log(target) - input)
             // To handle target=0, we use: target * log(target) - target * input
             // where target * log(target) = 0 when target = 0 (by convention)
-            let target_log_target = target.mul(&target.ln()?)?;
+            let positive = target.gt_scalar(Scalar::zero(target.dtype()))?;
+            let log_target = target.where3(&positive, &Tensor::ones_like(target)?)?.ln()?;
+            let target_log_target = target.mul(&log_target)?;
             let target_input = target.mul(input)?;
             target_log_target.sub(&target_input)?
         };
-- 
2.43.0


From 37075037ea4037fa9a48e18a8b2f35ff5be47ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 61/76] fix: class losses over another than the last dimension
 picked the wrong entries

---
 crates/hodu_nn/src/losses/cross_entropy.rs | 4 ++--
 crates/hodu_nn/src/losses/nll.rs           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 6199563..85bb95f 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -32,13 +32,13 @@ impl CrossEntropyLoss {
 
         // Gather the log probabilities for the correct classes
         // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim as i64, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 8a32680..5401853 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -29,13 +29,13 @@ impl NLLLoss {
 
         // Gather the log probabilities for the correct classes
         // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
-- 
2.43.0


From d0a163c1495b3d11d51bdcb89b6fb3f0f5607892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 62/76] fix: losses built on abs (MAE, Huber, smooth L1, BCE
 with logits) had no or a wrong gradient

---
 crates/hodu_core/src/ops.rs         | 2 +-
 crates/hodu_core/src/utils/valid.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index fa77879..17d0aff 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -155,7 +155,7 @@ impl fmt::Debug for CmpScalarOp {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum UnaryOp {
     Neg,
-    Abs,      // no-backprop
+    Abs,
     Sign,     // no-backprop
     Softsign, // x / (1 + |x|)
     Square,
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index d2069fd..dc29d43 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -408,8 +408,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
 
         // Unary operations
         Op::Unary(inner_op) => match inner_op {
-            UnaryOp::Neg | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
-            UnaryOp::Abs | UnaryOp::Sign => false, // !
+            UnaryOp::Neg | UnaryOp::Abs | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
+            UnaryOp::Sign => false, // !
             UnaryOp::Softsign => true,
             UnaryOp::Relu
             | UnaryOp::Sigmoid
-- 
2.43.0


From 36ebbc574f07661d3a45c4cc0bd583bbb566751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 63/76] fix: train!() and eval!() resolve their state module in
 every crate and module

---
 crates/hodu_nn/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_nn/src/lib.rs b/crates/hodu_nn/src/lib.rs
index 02c167d..d77bd7c 100644
--- a/crates/hodu_nn/src/lib.rs
+++ b/crates/hodu_nn/src/lib.rs
@@ -38,18 +38,18 @@ pub use optimizers::{
     sgd::SGD,
 };
 
-pub(crate) mod state {
+#[doc(hidden)]
+pub mod state {
     use std::sync::Mutex;
 
     #[derive(Debug, Clone, Copy, PartialEq)]
-    pub(crate) enum State {
+    pub enum State {
         Training,
         Evaluation,
     }
 
     static STATE: Mutex<State> = Mutex::new(State::Training);
 
-    #[allow(dead_code)]
     pub fn set_state(new_state: State) {
         *STATE.lock().unwrap() = new_state;
     }
@@ -63,7 +63,7 @@ pub(crate) mod state {
 #[macro_export]
 macro_rules! train {
     () => {
-        state::set_state(state::State::Training);
+        $crate::state::set_state($crate::state::State::Training);
     };
 }
 
@@ -71,6 +71,6 @@ macro_rules! train {
 #[macro_export]
 macro_rules! eval {
     () => {
-        state::set_state(state::State::Evaluation);
+        $crate::state::set_state($crate::state::State::Evaluation);
     };
 }
-- 
2.43.0


From 6391427ec5dc1daec7649c39bef25bc4584b4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 64/76] fix: parameters() of dropout and of every loss called
 itself without end

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs | 8 ++++++++
 crates/hodu_nn/src/losses/cosine_embedding.rs     | 4 ++++
 crates/hodu_nn/src/losses/cross_entropy.rs        | 4 ++++
 crates/hodu_nn/src/losses/huber.rs                | 4 ++++
 crates/hodu_nn/src/losses/kl_div.rs               | 4 ++++
 crates/hodu_nn/src/losses/mae.rs                  | 4 ++++
 crates/hodu_nn/src/losses/mse.rs                  | 4 ++++
 crates/hodu_nn/src/losses/nll.rs                  | 4 ++++
 crates/hodu_nn/src/losses/smooth_l1.rs            | 4 ++++
 crates/hodu_nn/src/modules/dropout.rs             | 4 ++++
 10 files changed, 44 insertions(+)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index 6a3f06e..c271398 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -52,6 +52,10 @@ impl BCELoss {
         // Mean over all elements
         bce.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
 
 #[derive(Module, Clone, Default)]
@@ -82,4 +86,8 @@ impl BCEWithLogitsLoss {
         // Mean over all elements
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 3747292..6e348cc 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -70,4 +70,8 @@ impl CosineEmbeddingLoss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 85bb95f..9a507de 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -46,4 +46,8 @@ impl CrossEntropyLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index 6b8d4b6..f1631cf 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -34,4 +34,8 @@ impl HuberLoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 20a8357..6f2e70c 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -54,4 +54,8 @@ impl KLDivLoss {
         let batch_size = Scalar::from_usize(input.shape()[0], loss.dtype());
         loss.sum_all()?.div_scalar(batch_size)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 11a8004..6ebfb5d 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -20,4 +20,8 @@ impl MAELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mse.rs b/crates/hodu_nn/src/losses/mse.rs
index f314773..8bd258c 100644
--- a/crates/hodu_nn/src/losses/mse.rs
+++ b/crates/hodu_nn/src/losses/mse.rs
@@ -20,4 +20,8 @@ impl MSELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 5401853..a52b244 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -43,4 +43,8 @@ impl NLLLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index c09f461..1b10bd2 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -53,4 +53,8 @@ impl SmoothL1Loss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index c70e039..6aa088a 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -26,4 +26,8 @@ impl Dropout {
 
         input.mul(&scaled_mask)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
-- 
2.43.0


From a34166f6ff6abff45b2004e496c8dacaba37a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 65/76] fix: dropout and RReLU draw in the element type of
 their input; dropping everything gives zeros, not NaN

---
 crates/hodu_nn/src/modules/activation.rs |  4 +---
 crates/hodu_nn/src/modules/dropout.rs    | 10 ++++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/hodu_nn/src/modules/activation.rs b/crates/hodu_nn/src/modules/activation.rs
index 1f6bdda..5916172 100644
--- a/crates/hodu_nn/src/modules/activation.rs
+++ b/crates/hodu_nn/src/modules/activation.rs
@@ -225,9 +225,7 @@ impl RReLU {
         // Compute alpha based on training/evaluation mode
         let alpha = if get_state() == State::Training {
             // Training mode: use random alpha for each element
-            let lower_f32 = self.lower.to_f32();
-            let upper_f32 = self.upper.to_f32();
-            Tensor::rand_uniform_like(input, lower_f32, upper_f32)?
+            Tensor::rand_uniform_like(input, self.lower.to_dtype(dtype), self.upper.to_dtype(dtype))?
         } else {
             // Evaluation mode: use average of lower and upper bounds
             let avg = (self.lower.to_f32() + self.upper.to_f32()) / 2.0;
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index 6aa088a..997bada 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -19,10 +19,12 @@ impl Dropout {
         }
 
         // Training mode: apply dropout
-        let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
-        let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
-        let scale = 1.0 / (1.0 - self.p.to_f32());
-        let scaled_mask = mask.mul_scalar(scale)?;
+        let dtype = input.dtype();
+        let random = Tensor::rand_uniform_like(input, Scalar::zero(dtype), Scalar::one(dtype))?;
+        let mask = random.ge_scalar(self.p.to_dtype(dtype))?.to_dtype(dtype)?;
+        let keep = 1.0 - self.p.to_f32();
+        let scale = if keep > 0.0 { 1.0 / keep } else { 0.0 };
+        let scaled_mask = mask.mul_scalar(Scalar::from_f32(scale, dtype))?;
 
         input.mul(&scaled_mask)
     }
-- 
2.43.0


From 4a6ab3f77e397b9af35f654229a67243f41d85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 66/76] fix: attention and embedding convert their constants to
 the element type they are applied to

---
 crates/hodu_nn/src/modules/attention.rs | 24 +++++++++++++-----------
 crates/hodu_nn/src/modules/embedding.rs |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_nn/src/modules/attention.rs b/crates/hodu_nn/src/modules/attention.rs
index c083b92..8115440 100644
--- a/crates/hodu_nn/src/modules/attention.rs
+++ b/crates/hodu_nn/src/modules/attention.rs
@@ -31,7 +31,7 @@ pub fn scaled_dot_product_attention(
     is_causal: bool,
 ) -> HoduResult<Tensor> {
     let d_k = query.shape().last().unwrap_or(1) as f64;
-    let scale = 1.0 / d_k.sqrt();
+    let scale = Scalar::new(1.0 / d_k.sqrt()).to_dtype(query.dtype());
 
     // QK^T / sqrt(d_k)
     let attn_weights = query.matmul(&key.transpose(-2, -1)?)?.mul_scalar(scale)?;
@@ -50,7 +50,7 @@ pub fn scaled_dot_product_attention(
     // Apply attention mask if provided (0 = mask out, 1 = attend)
     let attn_weights = if let Some(mask) = attn_mask {
         let neg_inf = get_neg_inf(query.dtype());
-        attn_weights.masked_fill(&mask.eq_scalar(0.0)?, neg_inf)?
+        attn_weights.masked_fill(&mask.eq_scalar(Scalar::zero(mask.dtype()))?, neg_inf)?
     } else {
         attn_weights
     };
@@ -82,22 +82,24 @@ fn create_causal_mask(seq_len_q: usize, seq_len_k: usize) -> HoduResult<Tensor>
 }
 
 /// Get negative infinity for masking based on dtype
-fn get_neg_inf(dtype: DType) -> f64 {
-    match dtype {
-        DType::F32 => f32::NEG_INFINITY as f64,
+fn get_neg_inf(dtype: DType) -> Scalar {
+    let value = match dtype {
+        DType::F32 => f32::NEG_INFINITY,
         #[cfg(feature = "f64")]
-        DType::F64 => f64::NEG_INFINITY,
+        DType::F64 => f32::NEG_INFINITY,
         DType::F16 | DType::BF16 => -65504.0,
         _ => -1e9,
-    }
+    };
+    Scalar::from_f32(value, dtype)
 }
 
 /// Apply dropout to tensor
 fn apply_dropout(x: &Tensor, p: f64) -> HoduResult<Tensor> {
-    let random = Tensor::rand_uniform_like(x, 0.0, 1.0)?;
-    let mask = random.gt_scalar(p)?.to_dtype(x.dtype())?;
-    let scale = 1.0 / (1.0 - p);
-    let scaled_mask = mask.mul_scalar(scale)?;
+    let dtype = x.dtype();
+    let random = Tensor::rand_uniform_like(x, Scalar::zero(dtype), Scalar::one(dtype))?;
+    let mask = random.ge_scalar(Scalar::new(p).to_dtype(dtype))?.to_dtype(dtype)?;
+    let scale = if p < 1.0 { 1.0 / (1.0 - p) } else { 0.0 };
+    let scaled_mask = mask.mul_scalar(Scalar::new(scale).to_dtype(dtype))?;
     x.mul(&scaled_mask)
 }
 
diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 4e8e6fb..257789e 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -136,7 +136,7 @@ impl Embedding {
         let norm = squared_sum.sqrt()?;
 
         // scale = min(max_norm / norm, 1.0)
-        let max_norm_tensor = Tensor::full(norm.shape(), max_norm)?;
+        let max_norm_tensor = Tensor::full(norm.shape(), max_norm.to_dtype(embeddings.dtype()))?;
         let scale = max_norm_tensor.div(&norm)?;
 
         // Clamp scale to maximum of 1.0
-- 
2.43.0


From c5a1bb5c172d42092573a6866a734d2ac77e2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 67/76] fix: an embedding with a padding index could not be
 trained

---
 crates/hodu_nn/src/modules/embedding.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 257789e..d9f707a 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -32,7 +32,6 @@ impl Embedding {
 
         // weight: [num_embeddings, embedding_dim]
         let weight = Tensor::randn([num_embeddings, embedding_dim], zero, one)?;
-        weight.set_requires_grad(true)?;
         // Scale by k
         let weight = weight.mul_scalar(k_scalar)?;
 
@@ -51,6 +50,8 @@ impl Embedding {
         } else {
             weight
         };
+        // Only the finished table is trainable: the tensors it is made of are gone by the first backward
+        weight.set_requires_grad(true)?;
 
         Ok(Self {
             num_embeddings,
-- 
2.43.0


From 88ca4a428c5e6115921ab14ec45914b6ac60634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 68/76] fix: a gradient is released once per holder; leaving a
 gradient context no longer deadlocks; det, inv and trace keep their tensors
 counted in backward

---
 crates/hodu_core/src/tensor/gradient/tape.rs     |  4 +++-
 .../hodu_core/src/tensor/gradient/vjp_linalg.rs  | 16 ++++++++--------
 crates/hodu_core/src/tensor/registry.rs          |  6 ------
 3 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 895b28f..ab6474d 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -31,7 +31,9 @@ pub(super) fn initialize_tape(context_id: ContextId) {
 
 /// Remove a tape for a context and clean up context-owned tensors
 pub(super) fn remove_tape(context_id: ContextId) {
-    if let Some(tape) = GRADIENT_TAPES.lock().unwrap().remove(&context_id) {
+    // The lock must be released first: the cleanup takes it again
+    let tape = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
+    if let Some(tape) = tape {
         cleanup_context_tensors(context_id, &tape);
     }
 }
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index 2ed2c1a..a861e27 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::HoduResult,
     ops::{LinalgOp, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 // One value per matrix of `ndim`-dimensional input, shaped to broadcast over the matrices.
@@ -36,9 +36,9 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let det_value = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let det_value = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Compute A^{-1}
                 let inv_a = input.inv()?;
@@ -64,8 +64,8 @@ impl VjpCompute for LinalgOp {
                 // Since output = inv(A), we have:
                 // dL/dA = -output^T @ grad_output @ output^T
 
-                let inv_a = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let inv_a = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Transpose the output (inverse): A^{-T}
                 let inv_a_t = inv_a.transpose(-2, -1)?;
@@ -88,8 +88,8 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let grad = tensor_from_id(grad_output);
 
                 // Get the matrix size from input shape
                 let shape = input.shape();
diff --git a/crates/hodu_core/src/tensor/registry.rs b/crates/hodu_core/src/tensor/registry.rs
index 4d5e5e8..f37726f 100644
--- a/crates/hodu_core/src/tensor/registry.rs
+++ b/crates/hodu_core/src/tensor/registry.rs
@@ -1,6 +1,5 @@
 use super::core::{TensorId, Tensor_};
 use dashmap::DashMap;
-use std::sync::atomic::Ordering;
 use std::sync::LazyLock;
 
 static TENSORS: LazyLock<DashMap<TensorId, Tensor_>> = LazyLock::new(|| {
@@ -18,11 +17,6 @@ pub fn exists(tensor_id: TensorId) -> bool {
 }
 
 pub(crate) fn remove(tensor_id: TensorId) {
-    if let Some(Some(grad_id)) = with_tensor(tensor_id, |t| t.grad_tensor_id) {
-        with_tensor(grad_id, |t| {
-            t.ref_count.fetch_sub(1, Ordering::Relaxed);
-        });
-    }
     TENSORS.remove(&tensor_id);
 }
 
-- 
2.43.0


From fdb901a613c550a4e7b2ca8a3fe133e89a33f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 69/76] fix: operands dropped before backward stay available to
 it

---
 .../hodu_core/src/tensor/gradient/compute.rs  |  6 ++--
 crates/hodu_core/src/tensor/gradient/tape.rs  | 32 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 5b8707a..c0fac7f 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -34,6 +34,7 @@ pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, o
         output_id,
         op,
         op_params,
+        _inputs: input_ids.iter().map(|&id| tensor_from_id(id)).collect(),
         input_ids,
     };
 
@@ -144,11 +145,12 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     if result.is_ok() {
         use super::tape;
 
+        drop(tape);
+        tape::clear_tape_for_context(context_id);
+
         if context_id == ContextId::DEFAULT {
             tape::cleanup_default_context_after_backward();
         }
-
-        tape::clear_tape_for_context(context_id);
     }
 
     result
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index ab6474d..c7fa551 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -3,7 +3,7 @@ use crate::error::HoduError;
 use crate::{
     error::HoduResult,
     ops::{Op, OpParams},
-    tensor::TensorId,
+    tensor::{Tensor, TensorId},
 };
 use std::collections::HashMap;
 use std::sync::{LazyLock, Mutex};
@@ -15,6 +15,8 @@ pub(super) struct TapeEntry {
     pub op: Op,
     pub op_params: OpParams,
     pub input_ids: Vec<TensorId>,
+    /// Keeps the inputs alive until the entry has been used
+    pub _inputs: Vec<Tensor>,
 }
 
 /// Global gradient tape storage (one tape per context)
@@ -34,12 +36,13 @@ pub(super) fn remove_tape(context_id: ContextId) {
     // The lock must be released first: the cleanup takes it again
     let tape = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
     if let Some(tape) = tape {
-        cleanup_context_tensors(context_id, &tape);
+        drop(tape);
+        cleanup_context_tensors(context_id);
     }
 }
 
 /// Clean up tensors owned by a specific context
-fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
+fn cleanup_context_tensors(context_id: ContextId) {
     use crate::tensor;
     use std::sync::atomic::Ordering;
 
@@ -95,9 +98,7 @@ fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
 /// Clean up tensors owned by the default context after backward
 /// Only removes tensors with ref_count=0
 pub(super) fn cleanup_default_context_after_backward() {
-    let context_id = ContextId::DEFAULT;
-    let tape = get_tape_clone(context_id).unwrap_or_default();
-    cleanup_context_tensors(context_id, &tape);
+    cleanup_context_tensors(ContextId::DEFAULT);
 }
 
 /// Add an entry to the tape for a given context
@@ -117,20 +118,27 @@ pub(super) fn get_tape_clone(context_id: ContextId) -> HoduResult<Vec<TapeEntry>
 
 /// Clear the tape for a given context (but don't remove tensors)
 pub(super) fn clear_tape_for_context(context_id: ContextId) {
-    if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
-        if let Some(tape) = tapes.get_mut(&context_id) {
-            tape.clear();
-        }
-    }
+    // The entries hold tensors, whose drop may need the lock: drop them after it is released
+    let entries = match GRADIENT_TAPES.lock() {
+        Ok(mut tapes) => tapes.get_mut(&context_id).map(std::mem::take),
+        Err(_) => None,
+    };
+    drop(entries);
 }
 
 /// Remove tape entries that have the given tensor as input
 /// This is called when a tensor with requires_grad=true is dropped
 pub(super) fn remove_entries_with_input(context_id: ContextId, tensor_id: TensorId) {
+    let mut removed = Vec::new();
     if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
         if let Some(tape) = tapes.get_mut(&context_id) {
             // Remove entries where tensor_id is an input
-            tape.retain(|entry| !entry.input_ids.contains(&tensor_id));
+            let (dead, live) = std::mem::take(tape)
+                .into_iter()
+                .partition(|entry| entry.input_ids.contains(&tensor_id));
+            *tape = live;
+            removed = dead;
         }
     }
+    drop(removed);
 }
-- 
2.43.0


From a560d81c2c34870b7ff2fd9e1a26f5d367ea878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 70/76] fix: broadcasting two shapes aligns them on the right,
 and an extent of 0 with 1 gives 0

---
 crates/hodu_core/src/types/shape.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index 5681bbe..33c9c08 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -100,17 +100,15 @@ impl Shape {
         let mut result_dims = SmallVec::with_capacity(max_ndim);
 
         for i in 0..max_ndim {
-            let lhs_idx = lhs.ndim().saturating_sub(max_ndim - i);
-            let rhs_idx = rhs.ndim().saturating_sub(max_ndim - i);
-
-            let lhs_dim = lhs.dims.get(lhs_idx).copied().unwrap_or(1);
-            let rhs_dim = rhs.dims.get(rhs_idx).copied().unwrap_or(1);
+            // Dimensions missing on the left count as 1
+            let lhs_dim = (i + lhs.ndim()).checked_sub(max_ndim).map_or(1, |idx| lhs.dims[idx]);
+            let rhs_dim = (i + rhs.ndim()).checked_sub(max_ndim).map_or(1, |idx| rhs.dims[idx]);
 
             if lhs_dim != rhs_dim && lhs_dim != 1 && rhs_dim != 1 {
                 return None;
             }
 
-            result_dims.push(lhs_dim.max(rhs_dim));
+            result_dims.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
         }
 
         Some(Shape { dims: result_dims })
-- 
2.43.0


From 6717c9127efbc55b69214c3c19bd4f50b55c2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 71/76] fix: squeezing a dimension named twice removed another
 one too

---
 crates/hodu_core/src/types/layout.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index af762ca..39ad0c9 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -229,6 +229,7 @@ impl Layout {
 
             // Sort dimensions in descending order to remove from back to front
             actual_dims.sort_unstable();
+            actual_dims.dedup();
             actual_dims.reverse();
 
             let mut new_dims = shape_dims.to_vec();
-- 
2.43.0


From 4d4b342fca6cc34f85b0102246986eeba0ea2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 72/76] fix: making a symbolic layout concrete dropped its
 offset

---
 crates/hodu_core/src/types/symbolic_layout.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/types/symbolic_layout.rs b/crates/hodu_core/src/types/symbolic_layout.rs
index 492bdde..adafb55 100644
--- a/crates/hodu_core/src/types/symbolic_layout.rs
+++ b/crates/hodu_core/src/types/symbolic_layout.rs
@@ -108,7 +108,9 @@ impl SymbolicLayout {
     pub fn to_concrete(&self) -> Option<Layout> {
         if self.is_fully_concrete() {
             let shape = self.shape.to_concrete()?;
-            Some(Layout::new(shape, self.strides.to_vec()))
+            let mut layout = Layout::new(shape, self.strides.to_vec());
+            layout.set_offset(self.offset);
+            Some(layout)
         } else {
             None
         }
@@ -118,7 +120,9 @@ impl SymbolicLayout {
     /// Returns None if any dynamic dimension lacks a max_bound
     pub fn to_max_layout(&self) -> Option<Layout> {
         let max_shape = self.shape.to_max_shape()?;
-        Some(Layout::new(max_shape, self.strides.to_vec()))
+        let mut layout = Layout::new(max_shape, self.strides.to_vec());
+        layout.set_offset(self.offset);
+        Some(layout)
     }
 
     /// Computes contiguous strides using max_bound for dynamic dimensions
-- 
2.43.0


From 3628bb85154c0c5c2ff558e05834d2330b575faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 73/76] fix: a data loader seeded with a large value overflowed
 at the next epoch

---
 crates/hodu_datasets/src/data/dataloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 03d375e..fe91461 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -187,7 +187,7 @@ impl<D: Dataset> DataLoader<D> {
         use rand::rngs::SmallRng;
 
         let length = self.indices.len();
-        let seed_base = self.seed.unwrap_or(0) + self.epoch;
+        let seed_base = self.seed.unwrap_or(0).wrapping_add(self.epoch);
         let mut rng = SmallRng::seed_from_u64(seed_base);
 
         for i in (1..length).rev() {
-- 
2.43.0


From 81b26645c01bf884c164de73bf5e9193e42ec3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 74/76] fix: random_split of a very large dataset could ask for
 more items than it has

---
 crates/hodu_datasets/src/data/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataset.rs b/crates/hodu_datasets/src/data/dataset.rs
index b256684..16501bb 100644
--- a/crates/hodu_datasets/src/data/dataset.rs
+++ b/crates/hodu_datasets/src/data/dataset.rs
@@ -134,7 +134,7 @@ where
     use rand::rngs::SmallRng;
 
     let total_len = dataset.len();
-    let train_len = (total_len as f32 * train_size) as usize;
+    let train_len = ((total_len as f32 * train_size) as usize).min(total_len);
 
     let mut indices: Vec<usize> = (0..total_len).collect();
 
-- 
2.43.0


From 1de707b030b889c171603e62f061effaee957837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 75/76] fix: a captured constant that is a view was stored in
 another order than its recorded layout

---
 crates/hodu_core/src/snapshot/capture/board.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index 0babdaa..e456513 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -283,8 +283,23 @@ impl CaptureBoard {
         constant_ids
             .into_iter()
             .filter_map(|tensor_id| {
-                let tensor = crate::tensor::tensor_from_id(tensor_id);
+                let mut tensor = crate::tensor::tensor_from_id(tensor_id);
                 let dtype = tensor.dtype();
+                let layout = tensor.layout();
+
+                // Nodes read a constant through the layout recorded for it, so a constant that is
+                // a view keeps its buffer, up to the last element the view reaches.
+                if layout.size() != 0 && layout != Layout::from_shape(layout.shape()) {
+                    let last: usize = layout
+                        .shape()
+                        .dims()
+                        .iter()
+                        .zip(layout.strides())
+                        .map(|(&dim, &stride)| dim.saturating_sub(1) * stride)
+                        .sum();
+                    let buffer = Layout::from_shape(&Shape::new(&[layout.offset() + last + 1]));
+                    tensor = crate::tensor::from_shared_storage_with(&tensor, buffer, false);
+                }
                 let shape = tensor.shape();
 
                 let data = match dtype {
-- 
2.43.0


From b04a66c74772688e8d06bad857f262c343eb6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 76/76] fix: the inverse and counts of unique were lost in
 snapshots

---
 .../hodu_core/src/snapshot/capture/board.rs   | 32 ++++++++++++++++---
 crates/hodu_core/src/tensor/core.rs           |  5 +++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index e456513..05a987e 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -47,6 +47,17 @@ pub struct CapturedOp {
     pub symbolic_output_layout: Option<SymbolicLayout>,
 }
 
+impl CapturedOp {
+    /// The tensors the operation computes: its output and, where there are any, its further outputs
+    fn output_ids(&self) -> Vec<TensorId> {
+        let mut ids = vec![self.output_id];
+        if let Some(OpParams::Unique(p)) = &self.params {
+            ids.extend([p.inverse_id, p.counts_id]);
+        }
+        ids
+    }
+}
+
 /// Internal board data structure stored in global storage
 pub(super) struct CaptureBoard_ {
     pub(super) id: CaptureBoardId,
@@ -137,7 +148,7 @@ impl CaptureBoard {
         let filtered_ops: Vec<_> = board
             .ops
             .into_iter()
-            .filter(|op| reachable.contains(&op.output_id))
+            .filter(|op| op.output_ids().iter().any(|id| reachable.contains(id)))
             .collect();
 
         let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
@@ -171,7 +182,7 @@ impl CaptureBoard {
 
                 SnapshotNode {
                     op: op.op,
-                    params: op.params,
+                    params: op.params.map(|params| Self::normalize_params(params, offset)),
                     input_ids: op
                         .input_ids
                         .into_iter()
@@ -195,6 +206,19 @@ impl CaptureBoard {
         }
     }
 
+    /// Number the tensors named in the parameters as the snapshot numbers its own
+    fn normalize_params(mut params: OpParams, offset: usize) -> OpParams {
+        match &mut params {
+            OpParams::TopK(p) => p.indices_id = p.indices_id.relative_to(offset),
+            OpParams::Unique(p) => {
+                p.inverse_id = p.inverse_id.relative_to(offset);
+                p.counts_id = p.counts_id.relative_to(offset);
+            },
+            _ => {},
+        }
+        params
+    }
+
     fn compute_reachable(targets: &[CapturedTarget], ops: &[CapturedOp]) -> HashSet<TensorId> {
         let mut reachable = HashSet::new();
         let mut to_visit = Vec::new();
@@ -209,7 +233,7 @@ impl CaptureBoard {
             }
 
             for op in ops {
-                if op.output_id == tensor_id {
+                if op.output_ids().contains(&tensor_id) {
                     for input_id in &op.input_ids {
                         to_visit.push(*input_id);
                     }
@@ -252,7 +276,7 @@ impl CaptureBoard {
         reachable: &HashSet<TensorId>,
     ) -> HashSet<TensorId> {
         let input_ids: HashSet<_> = inputs.iter().map(|i| i.tensor_id).collect();
-        let op_output_ids: HashSet<_> = filtered_ops.iter().map(|op| op.output_id).collect();
+        let op_output_ids: HashSet<_> = filtered_ops.iter().flat_map(|op| op.output_ids()).collect();
 
         let mut constant_ids = HashSet::new();
         for op in filtered_ops {
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index a10e352..6e74bfa 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -22,6 +22,11 @@ impl TensorId {
     pub fn as_usize(&self) -> usize {
         self.0
     }
+
+    /// The ID counted from `offset`, as snapshots number their tensors
+    pub(crate) fn relative_to(self, offset: usize) -> Self {
+        Self(self.0 - offset)
+    }
 }
 
 #[repr(transparent)]
-- 
2.43.0

