From 46e0548d40c2b37ae9c4e4e885d4db7783605103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 01/34] fix: enforce the external-data symlink check for models
 opened by a bare file name

---
 crates/onnx-ir/src/external_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/external_data.rs b/crates/onnx-ir/src/external_data.rs
index 8921b7f..7bf4432 100644
--- a/crates/onnx-ir/src/external_data.rs
+++ b/crates/onnx-ir/src/external_data.rs
@@ -155,9 +155,16 @@ impl ExternalDataInfo {
         let resolved = base_path.join(&self.location);
 
         // Extra safety: canonicalize and verify the resolved path is under base_path
-        // This catches edge cases like symlinks pointing outside the base directory
+        // This catches edge cases like symlinks pointing outside the base directory.
+        // A model opened by its bare file name has "" as base, which names the current
+        // directory but which canonicalize() rejects.
+        let base_dir = if base_path.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_path
+        };
         if let (Ok(canonical_base), Ok(canonical_resolved)) =
-            (base_path.canonicalize(), resolved.canonicalize())
+            (base_dir.canonicalize(), resolved.canonicalize())
             && !canonical_resolved.starts_with(&canonical_base)
         {
             return Err(format!(
-- 
2.43.0


From 8882ded41bc0ee6436a2a44569cc6311fb847bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 02/34] fix: do not claim the input's dimension sizes for the
 output of pooling, transposed convolution, Resize, Tile, Pad and Slice

---
 crates/onnx-ir/src/node/conv_transpose1d.rs |  2 +-
 crates/onnx-ir/src/node/conv_transpose2d.rs |  2 +-
 crates/onnx-ir/src/node/conv_transpose3d.rs |  2 +-
 crates/onnx-ir/src/node/global_avg_pool.rs  | 24 ++++++++++++---------
 crates/onnx-ir/src/node/max_pool1d.rs       |  2 +-
 crates/onnx-ir/src/node/max_pool2d.rs       |  2 +-
 crates/onnx-ir/src/node/pad.rs              |  6 +++---
 crates/onnx-ir/src/node/resize.rs           |  2 +-
 crates/onnx-ir/src/node/slice.rs            |  6 +++---
 crates/onnx-ir/src/node/tile.rs             |  4 ++--
 crates/onnx-ir/src/processor.rs             | 17 +++++++++++++++
 11 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv_transpose1d.rs b/crates/onnx-ir/src/node/conv_transpose1d.rs
index ecd0a9f..3703087 100644
--- a/crates/onnx-ir/src/node/conv_transpose1d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose1d.rs
@@ -103,7 +103,7 @@ impl NodeProcessor for Convtranspose1dProcessor {
         }
 
         // Output type inference
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node, &[0]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/conv_transpose2d.rs b/crates/onnx-ir/src/node/conv_transpose2d.rs
index 3ea3108..a72d10f 100644
--- a/crates/onnx-ir/src/node/conv_transpose2d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose2d.rs
@@ -104,7 +104,7 @@ impl NodeProcessor for Convtranspose2dProcessor {
         }
 
         // Output type inference
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node, &[0]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/conv_transpose3d.rs b/crates/onnx-ir/src/node/conv_transpose3d.rs
index b76d44b..eadf53e 100644
--- a/crates/onnx-ir/src/node/conv_transpose3d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose3d.rs
@@ -77,7 +77,7 @@ impl NodeProcessor for Convtranspose3dProcessor {
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
         // Output type inference
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node, &[0]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/global_avg_pool.rs b/crates/onnx-ir/src/node/global_avg_pool.rs
index 6bc0c83..b34b1e2 100644
--- a/crates/onnx-ir/src/node/global_avg_pool.rs
+++ b/crates/onnx-ir/src/node/global_avg_pool.rs
@@ -42,18 +42,22 @@ impl NodeProcessor for GlobalAveragePoolProcessor {
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
         // Get input tensor type
-        let input_tensor = match &node.inputs[0].ty {
-            ArgType::Tensor(tensor) => tensor,
-            _ => {
-                return Err(ProcessError::TypeMismatch {
-                    expected: "Tensor".to_string(),
-                    actual: format!("{:?}", node.inputs[0].ty),
-                });
-            }
-        };
+        if !node.inputs[0].ty.is_tensor() {
+            return Err(ProcessError::TypeMismatch {
+                expected: "Tensor".to_string(),
+                actual: format!("{:?}", node.inputs[0].ty),
+            });
+        }
 
         // Output has the same type and rank as input (spatial dimensions become 1)
-        node.outputs[0].ty = ArgType::Tensor(input_tensor.clone());
+        crate::processor::same_as_input(node);
+        if let ArgType::Tensor(tensor) = &mut node.outputs[0].ty
+            && let Some(dims) = &mut tensor.static_shape
+        {
+            for dim in dims.iter_mut().skip(2) {
+                *dim = Some(1);
+            }
+        }
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool1d.rs b/crates/onnx-ir/src/node/max_pool1d.rs
index e06f39a..be6cfbe 100644
--- a/crates/onnx-ir/src/node/max_pool1d.rs
+++ b/crates/onnx-ir/src/node/max_pool1d.rs
@@ -149,7 +149,7 @@ impl NodeProcessor for MaxPool1dProcessor {
         }
 
         // Output type is same as input
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node, &[0, 1]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool2d.rs b/crates/onnx-ir/src/node/max_pool2d.rs
index 0be4776..3a490de 100644
--- a/crates/onnx-ir/src/node/max_pool2d.rs
+++ b/crates/onnx-ir/src/node/max_pool2d.rs
@@ -145,7 +145,7 @@ impl NodeProcessor for MaxPool2dProcessor {
         }
 
         // Output type is same as input
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node, &[0, 1]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/pad.rs b/crates/onnx-ir/src/node/pad.rs
index 6efa21d..f203e5e 100644
--- a/crates/onnx-ir/src/node/pad.rs
+++ b/crates/onnx-ir/src/node/pad.rs
@@ -177,9 +177,9 @@ impl NodeProcessor for PadProcessor {
         // Should validate mode attribute early in infer_types for better error messages.
         // Location: After output count validation
 
-        // Output has same type as input
-        if let Some(input) = node.inputs.first() {
-            node.outputs[0].ty = input.ty.clone();
+        // Output has same element type and rank as input, sizes depend on the pads
+        if !node.inputs.is_empty() {
+            crate::processor::same_rank_as_input(node, &[]);
         }
 
         Ok(())
diff --git a/crates/onnx-ir/src/node/resize.rs b/crates/onnx-ir/src/node/resize.rs
index 1679e0e..d497660 100644
--- a/crates/onnx-ir/src/node/resize.rs
+++ b/crates/onnx-ir/src/node/resize.rs
@@ -415,7 +415,7 @@ impl NodeProcessor for ResizeProcessor {
         }
 
         // Infer output type
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node, &[]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 85d8cce..d347c98 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -174,9 +174,9 @@ impl NodeProcessor for SliceProcessor {
 
         match input_ty {
             ArgType::Tensor(_) => {
-                // Slicing a tensor preserves its type and rank during rank inference.
-                // Shape inference pass will handle the actual shape changes.
-                node.outputs[0].ty = input_ty;
+                // Slicing a tensor preserves its element type and rank, but not the size of
+                // the sliced dimensions.
+                crate::processor::same_rank_as_input(node, &[]);
             }
             ArgType::Shape(shape_rank) => {
                 // Slicing a Shape extracts a sub-part, resulting in a Shape.
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index a024c91..5123774 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -98,8 +98,8 @@ impl NodeProcessor for TileProcessor {
         // TODO: Missing validation that repeats values are all non-negative.
         // Negative repeats don't make semantic sense and should be rejected.
 
-        // Infer output type - same as input
-        crate::processor::same_as_input(node);
+        // Infer output type - same rank as input, sizes depend on the repeats
+        crate::processor::same_rank_as_input(node, &[]);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index d72d4f5..f32a5fe 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -549,6 +549,23 @@ pub fn same_as_input(node: &mut RawNode) {
     node.outputs[0].ty = node.inputs[0].ty.clone();
 }
 
+/// Set the output to the input's element type and rank, for operators that change
+/// dimension sizes. Only the dimensions listed in `kept` carry over from the input;
+/// the size of every other dimension is unknown.
+pub fn same_rank_as_input(node: &mut RawNode, kept: &[usize]) {
+    let mut ty = node.inputs[0].ty.clone();
+    if let crate::ir::ArgType::Tensor(tensor) = &mut ty
+        && let Some(dims) = &mut tensor.static_shape
+    {
+        for (i, dim) in dims.iter_mut().enumerate() {
+            if !kept.contains(&i) {
+                *dim = None;
+            }
+        }
+    }
+    node.outputs[0].ty = ty;
+}
+
 /// Compute broadcast output rank from multiple inputs
 pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
     use crate::ir::ArgType;
-- 
2.43.0


From 110bbcb160eddabe7d506577dd1042b3c4ab0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:17 +0000
Subject: [PATCH 03/34] fix: infer Conv output sizes from auto_pad SAME_UPPER
 and SAME_LOWER

---
 crates/onnx-ir/src/node/conv1d.rs | 3 +++
 crates/onnx-ir/src/node/conv2d.rs | 8 +++++++-
 crates/onnx-ir/src/node/conv3d.rs | 9 ++++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv1d.rs b/crates/onnx-ir/src/node/conv1d.rs
index 92faaaf..59b7f0e 100644
--- a/crates/onnx-ir/src/node/conv1d.rs
+++ b/crates/onnx-ir/src/node/conv1d.rs
@@ -203,6 +203,9 @@ impl NodeProcessor for Conv1dProcessor {
                 let dilation = config.dilation;
                 let kernel = config.kernel_size;
                 let stride = config.stride;
+                if matches!(config.auto_pad, AutoPad::SameUpper | AutoPad::SameLower) {
+                    return (stride > 0).then(|| l_in.div_ceil(stride));
+                }
                 // L_out = floor((L_in + padding - dilation * (kernel - 1) - 1) / stride + 1)
                 let numerator = l_in as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
diff --git a/crates/onnx-ir/src/node/conv2d.rs b/crates/onnx-ir/src/node/conv2d.rs
index e946e6f..ce4fa12 100644
--- a/crates/onnx-ir/src/node/conv2d.rs
+++ b/crates/onnx-ir/src/node/conv2d.rs
@@ -198,12 +198,16 @@ impl NodeProcessor for Conv2dProcessor {
                                    stride: usize,
                                    dilation: usize,
                                    pad_begin: usize,
-                                   pad_end: usize|
+                                   pad_end: usize,
+                                   auto_pad: &AutoPad|
              -> Option<usize> {
                 let input_dim = tensor
                     .static_shape
                     .as_ref()
                     .and_then(|s| s.get(dim_idx).copied().flatten())?;
+                if matches!(auto_pad, AutoPad::SameUpper | AutoPad::SameLower) {
+                    return (stride > 0).then(|| input_dim.div_ceil(stride));
+                }
                 let padding = pad_begin + pad_end;
                 let numerator = input_dim as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
@@ -223,6 +227,7 @@ impl NodeProcessor for Conv2dProcessor {
                     config.dilation[0],
                     pad_top,
                     pad_bottom,
+                    &config.auto_pad,
                 );
                 let w_out = compute_spatial(
                     3,
@@ -231,6 +236,7 @@ impl NodeProcessor for Conv2dProcessor {
                     config.dilation[1],
                     pad_left,
                     pad_right,
+                    &config.auto_pad,
                 );
                 (h_out, w_out)
             });
diff --git a/crates/onnx-ir/src/node/conv3d.rs b/crates/onnx-ir/src/node/conv3d.rs
index f1f04eb..1efa882 100644
--- a/crates/onnx-ir/src/node/conv3d.rs
+++ b/crates/onnx-ir/src/node/conv3d.rs
@@ -128,12 +128,16 @@ impl NodeProcessor for Conv3dProcessor {
                                    stride: usize,
                                    dilation: usize,
                                    pad_begin: usize,
-                                   pad_end: usize|
+                                   pad_end: usize,
+                                   auto_pad: &AutoPad|
              -> Option<usize> {
                 let input_dim = tensor
                     .static_shape
                     .as_ref()
                     .and_then(|s| s.get(dim_idx).copied().flatten())?;
+                if matches!(auto_pad, AutoPad::SameUpper | AutoPad::SameLower) {
+                    return (stride > 0).then(|| input_dim.div_ceil(stride));
+                }
                 let padding = pad_begin + pad_end;
                 let numerator = input_dim as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
@@ -154,6 +158,7 @@ impl NodeProcessor for Conv3dProcessor {
                     config.dilation[0],
                     pad_front,
                     pad_back,
+                    &config.auto_pad,
                 );
                 let h_out = compute_spatial(
                     3,
@@ -162,6 +167,7 @@ impl NodeProcessor for Conv3dProcessor {
                     config.dilation[1],
                     pad_top,
                     pad_bottom,
+                    &config.auto_pad,
                 );
                 let w_out = compute_spatial(
                     4,
@@ -170,6 +176,7 @@ impl NodeProcessor for Conv3dProcessor {
                     config.dilation[2],
                     pad_left,
                     pad_right,
+                    &config.auto_pad,
                 );
                 (d_out, h_out, w_out)
             });
-- 
2.43.0


From a3218832f62247c07eea8985e4e5e124bc2e038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:45 +0000
Subject: [PATCH 04/34] fix: broadcast Expand's output type with its input
 shape

---
 crates/onnx-ir/src/node/expand.rs | 34 ++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index bf4efc0..bb3197f 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -109,15 +109,43 @@ impl NodeProcessor for ExpandProcessor {
             }
         };
 
+        // The output is broadcast with the input, which may have more dimensions than the
+        // target shape
+        let input_rank = match &node.inputs[0].ty {
+            ArgType::Tensor(tensor) => tensor.rank,
+            _ => 0,
+        };
+
         // Determine output type based on config
         match config {
             ExpandConfig::Static(shape) => {
                 // TODO: Validate shape values are positive or -1 per ONNX spec - Negative values other than -1 are invalid - Missing constraint validation
                 // TODO: Validate broadcasting rules - Per spec, input shape and target shape must be compatible for broadcasting - Missing broadcast validation
+                let rank = shape.len().max(input_rank);
+                let input_shape = node.inputs[0].ty.static_shape();
+                let static_shape = (0..rank)
+                    .map(|i| {
+                        let target = (i + shape.len())
+                            .checked_sub(rank)
+                            .map_or(1, |target_idx| shape[target_idx]);
+                        let input = match (i + input_rank).checked_sub(rank) {
+                            Some(input_idx) => {
+                                input_shape.and_then(|dims| dims.get(input_idx).copied().flatten())
+                            }
+                            None => Some(1),
+                        };
+                        // A target of 1 (or -1) leaves the input dimension unchanged
+                        if target == 1 || target < 0 {
+                            input
+                        } else {
+                            Some(target as usize)
+                        }
+                    })
+                    .collect();
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
-                    rank: shape.len(),
-                    static_shape: Some(shape.iter().map(|&dim| Some(dim as usize)).collect()),
+                    rank,
+                    static_shape: Some(static_shape),
                 });
             }
             ExpandConfig::Runtime(_) => {
@@ -152,7 +180,7 @@ impl NodeProcessor for ExpandProcessor {
 
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
-                    rank: output_rank,
+                    rank: output_rank.max(input_rank),
                     static_shape: None,
                 });
             }
-- 
2.43.0


From 415d297d17082379e32aa0a87c53b12c826f2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 05/34] fix: do not drop Expand and Reshape nodes whose unknown
 dimensions may differ

---
 crates/onnx-ir/src/node/expand.rs  | 3 ++-
 crates/onnx-ir/src/node/reshape.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index bb3197f..058ce76 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -195,7 +195,8 @@ impl NodeProcessor for ExpandProcessor {
             (&node.inputs[0].ty, &node.outputs[0].ty)
             && let (Some(in_shape), Some(out_shape)) = (&in_t.static_shape, &out_t.static_shape)
         {
-            return in_shape == out_shape;
+            // Unknown dimensions may differ from each other
+            return in_shape == out_shape && in_shape.iter().all(Option::is_some);
         }
         false
     }
diff --git a/crates/onnx-ir/src/node/reshape.rs b/crates/onnx-ir/src/node/reshape.rs
index c764d63..712ee43 100644
--- a/crates/onnx-ir/src/node/reshape.rs
+++ b/crates/onnx-ir/src/node/reshape.rs
@@ -256,7 +256,8 @@ impl NodeProcessor for ReshapeProcessor {
             && let (Some(in_shape), Some(out_shape)) =
                 (&input_t.static_shape, &output_t.static_shape)
         {
-            return in_shape == out_shape;
+            // A single unknown dimension is fixed by the element count, but two of them may differ
+            return in_shape == out_shape && in_shape.iter().filter(|d| d.is_none()).count() <= 1;
         }
 
         false
-- 
2.43.0


From 170a16da985542bc2b4a0d6eee142a9049bc3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 06/34] fix: clamp Shape's start and end to the input rank

---
 crates/onnx-ir/src/node/shape.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/node/shape.rs b/crates/onnx-ir/src/node/shape.rs
index 1409e97..83001d6 100644
--- a/crates/onnx-ir/src/node/shape.rs
+++ b/crates/onnx-ir/src/node/shape.rs
@@ -124,14 +124,9 @@ impl NodeProcessor for ShapeProcessor {
             end_dim += rank as i64;
         }
 
-        // TODO: Missing clamping to [0, rank] as per ONNX spec - out-of-bounds positive values are not clamped.
-        // The spec explicitly states: "Values are clamped to [0, rank]" but implementation only normalizes negative indices.
-        // This could lead to panics or incorrect results when start/end exceed rank.
-        // Should add: start_dim = start_dim.max(0).min(rank); end_dim = end_dim.max(0).min(rank);
-
-        // Calculate dimensions
-        let start = start_dim as usize;
-        let end = end_dim as usize;
+        // Out-of-range values are clamped to [0, rank]
+        let start = start_dim.clamp(0, rank as i64) as usize;
+        let end = (end_dim.clamp(0, rank as i64) as usize).max(start);
 
         let config = ShapeConfig { start, end };
         Ok(config)
-- 
2.43.0


From fb016dd6be7e5995149bbc86abd350db90ade941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:00 +0000
Subject: [PATCH 07/34] fix: reduce over all axes sets every kept dimension to
 1; refuse reductions whose axes are not constant or a no-op

---
 crates/onnx-ir/src/node/reduce.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index d05ea41..6fe1100 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -225,6 +225,10 @@ impl NodeProcessor for ReduceProcessor {
                 }
 
                 if keepdims == 1 {
+                    if dims.is_empty() {
+                        // No axes: every dimension is reduced
+                        shape.fill(Some(1));
+                    }
                     for dim in &dims {
                         shape[*dim] = Some(1);
                     }
@@ -262,20 +266,35 @@ impl NodeProcessor for ReduceProcessor {
         // Extract axes and keepdims attributes
         let mut axes = Vec::new();
         let mut keepdims = 1;
+        let mut noop_with_empty_axes = 0;
 
         for (key, value) in node.attrs.iter() {
             match key.as_str() {
                 "axes" => axes = value.clone().into_i64s(),
                 "keepdims" => keepdims = value.clone().into_i64(),
+                "noop_with_empty_axes" => noop_with_empty_axes = value.clone().into_i64(),
                 _ => {}
             }
         }
 
         // Process axes from additional input (if available)
-        if let Some(value) = node.inputs.get(1).and_then(|argument| argument.value()) {
+        if let Some(axes_input) = node.get_input(1) {
+            let value = axes_input.value().ok_or_else(|| {
+                ProcessError::Custom(format!(
+                    "Reduce node {} requires constant axes",
+                    node.name
+                ))
+            })?;
             axes = value.to_vec::<i64>().unwrap();
         }
 
+        if noop_with_empty_axes == 1 && axes.is_empty() {
+            return Err(ProcessError::Custom(format!(
+                "Reduce node {}: noop_with_empty_axes=1 without axes is not supported",
+                node.name
+            )));
+        }
+
         let mut dims: Vec<usize> = axes
             .into_iter()
             .map(|mut dim| {
-- 
2.43.0


From 78f7ccb52fe1526dfce2d94132477f3a8befe0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 08/34] fix: unknown operand dimensions take part in broadcast
 inference

---
 crates/onnx-ir/src/processor.rs | 43 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index f32a5fe..2870c22 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -583,27 +583,21 @@ pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
 pub fn compute_broadcast_static_shape(
     inputs: &[crate::ir::Argument],
 ) -> Option<Vec<Option<usize>>> {
-    let static_shapes: Vec<_> = inputs
+    // Operands whose dimensions are unknown still take part in the broadcast
+    let static_shapes: Vec<Vec<Option<usize>>> = inputs
         .iter()
-        .filter_map(|input| input.ty.static_shape().cloned())
+        .filter_map(|input| match &input.ty {
+            crate::ir::ArgType::Tensor(tensor) => Some(
+                tensor
+                    .static_shape
+                    .clone()
+                    .unwrap_or_else(|| vec![None; tensor.rank]),
+            ),
+            crate::ir::ArgType::Shape(len) => Some(vec![Some(*len)]),
+            _ => None,
+        })
         .collect();
 
-    if static_shapes.is_empty() {
-        return None;
-    }
-
-    if static_shapes.len() == 1 {
-        let broadcast_rank = compute_broadcast_rank(inputs);
-        if broadcast_rank == static_shapes[0].len() {
-            return Some(static_shapes[0].clone());
-        }
-        return None;
-    }
-
-    if static_shapes.windows(2).all(|w| w[0] == w[1]) {
-        return Some(static_shapes[0].clone());
-    }
-
     let max_rank = static_shapes.iter().map(|s| s.len()).max()?;
     let mut result: Vec<Option<usize>> = vec![Some(1); max_rank];
 
@@ -612,8 +606,11 @@ pub fn compute_broadcast_static_shape(
         for (i, dim) in shape.iter().enumerate() {
             let result_idx = offset + i;
             match (result[result_idx], *dim) {
+                (Some(known), None) | (None, Some(known)) if known > 1 => {
+                    // The symbolic dim can only be 1 or the known size
+                    result[result_idx] = Some(known);
+                }
                 (_, None) | (None, _) => {
-                    // If either dim is symbolic, result is symbolic
                     result[result_idx] = None;
                 }
                 (Some(cur), Some(d)) => {
@@ -628,6 +625,14 @@ pub fn compute_broadcast_static_shape(
         }
     }
 
+    // With an operand of unknown shape, only a fully determined result is useful
+    let has_unknown_shape = inputs.iter().any(
+        |input| matches!(&input.ty, crate::ir::ArgType::Tensor(t) if t.static_shape.is_none()),
+    );
+    if has_unknown_shape && result.contains(&None) {
+        return None;
+    }
+
     Some(result)
 }
 
-- 
2.43.0


From f2ab3a9a5ab9ac16e65f676528a45eabe81ae6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 09/34] fix: give the combination of two Shape values the
 longer length

---
 crates/onnx-ir/src/processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index 2870c22..e5c11ba 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -664,10 +664,11 @@ pub fn broadcast_output_type(
     if has_shape && !has_real_tensor {
         let shape_rank = inputs
             .iter()
-            .find_map(|input| match &input.ty {
+            .filter_map(|input| match &input.ty {
                 ArgType::Shape(rank) => Some(*rank),
                 _ => None,
             })
+            .max()
             .expect("Shape input must exist");
 
         return ArgType::Shape(shape_rank);
-- 
2.43.0


From d28d2f56c25e08740193a3f3e2804f99a4fe3d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 10/34] fix: length of a Shape value sliced with a negative
 step

---
 crates/onnx-ir/src/node/slice.rs | 33 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index d347c98..62691a9 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -77,30 +77,27 @@ fn calculate_shape_slice_output_len(
 ) -> usize {
     let shape_len = shape_rank as i64;
 
-    // Normalize negative indices
-    let norm_start = if start < 0 {
-        (shape_len + start).max(0)
+    // Normalize negative indices and clamp to the range the step direction allows
+    let (lower, upper) = if step < 0 {
+        (-1, shape_len - 1)
     } else {
-        start.min(shape_len)
+        (0, shape_len)
     };
+    let normalize = |index: i64, lower: i64| {
+        let index = if index < 0 { index + shape_len } else { index };
+        index.min(upper).max(lower)
+    };
+    let norm_start = normalize(start, 0);
+    let norm_end = normalize(end, lower);
 
-    // Handle special end values
-    let norm_end = if end == i64::MAX || end >= shape_len {
-        shape_len
-    } else if end < 0 {
-        (shape_len + end).max(0)
+    // Number of elements visited walking from start towards end
+    let range_len = if step < 0 {
+        norm_start - norm_end
     } else {
-        end.min(shape_len)
+        norm_end - norm_start
     };
 
-    // Calculate output length considering step
-    let range_len = (norm_end - norm_start).max(0);
-
-    if step.abs() == 1 {
-        range_len as usize
-    } else {
-        ((range_len + step.abs() - 1) / step.abs()) as usize
-    }
+    (range_len.max(0) as u64).div_ceil(step.unsigned_abs().max(1)) as usize
 }
 
 pub(crate) struct SliceProcessor;
-- 
2.43.0


From 7ca4c4d85b62699dd59d68825cd0b93dfd8c9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 11/34] fix: refuse to squeeze all unit dimensions when some
 dimension is unknown

---
 crates/onnx-ir/src/node/squeeze.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/squeeze.rs b/crates/onnx-ir/src/node/squeeze.rs
index 5c9431c..87ab771 100644
--- a/crates/onnx-ir/src/node/squeeze.rs
+++ b/crates/onnx-ir/src/node/squeeze.rs
@@ -108,7 +108,10 @@ impl NodeProcessor for SqueezeProcessor {
                 let output_rank = match axes_vec {
                     None => {
                         // When axes is None, ONNX spec squeezes all dimensions of size 1
-                        if let Some(ref static_shape) = tensor.static_shape {
+                        // (a dimension of unknown size may or may not be one of them)
+                        if let Some(ref static_shape) = tensor.static_shape
+                            && !static_shape.contains(&None)
+                        {
                             static_shape.iter().filter(|dim| **dim != Some(1)).count()
                         } else {
                             return Err(ProcessError::Custom(
-- 
2.43.0


From 538502a23ac1646c6fad5de0f306dc89019c1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 12/34] fix: accept LayerNormalization only over the input's
 last axis

The axis was compared with the rank of the scale tensor, so axis=1 of a rank-3
input with a rank-2 scale was imported as a normalisation over the last axis.
---
 crates/onnx-ir/src/node/layer_norm.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/node/layer_norm.rs b/crates/onnx-ir/src/node/layer_norm.rs
index 6a057c7..e58a73e 100644
--- a/crates/onnx-ir/src/node/layer_norm.rs
+++ b/crates/onnx-ir/src/node/layer_norm.rs
@@ -97,13 +97,11 @@ impl NodeProcessor for LayerNormProcessor {
         // (Y is required, Mean and InvStdDev are optional), but we only validate for 1
 
         // Validate axis attribute before extracting config
-        let weight_shape = node.inputs[1]
-            .value()
-            .ok_or_else(|| {
-                ProcessError::Custom("LayerNorm: weight tensor must be present".to_string())
-            })?
-            .shape
-            .to_vec();
+        if node.inputs[1].value().is_none() {
+            return Err(ProcessError::Custom(
+                "LayerNorm: weight tensor must be present".to_string(),
+            ));
+        }
 
         let mut axis = -1;
 
@@ -124,7 +122,8 @@ impl NodeProcessor for LayerNormProcessor {
         // TODO: Validate stash_type is 1 or unspecified - Spec only defines stash_type=1 (float), other values undefined - burn/crates/onnx-ir/src/node/layer_norm.rs:132
         // TODO: Validate axis is within valid range for input tensor rank - Out of bounds axis should be rejected - burn/crates/onnx-ir/src/node/layer_norm.rs:132
 
-        if axis != -1 && axis != weight_shape.len() as i64 - 1 {
+        let input_rank = node.inputs[0].ty.rank() as i64;
+        if axis != -1 && axis != input_rank - 1 {
             return Err(ProcessError::Custom(
                 "LayerNorm: normalization is only supported on the last axis right now".to_string(),
             ));
-- 
2.43.0


From 13bc3130e323ca74c74d1aa843770c5f9ed395e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 13/34] fix: use ONNX's default epsilon and momentum for
 BatchNormalization

Absent attributes were read as 0, so a model relying on the default epsilon
divided by the bare square root of the variance.
---
 crates/onnx-ir/src/node/batch_norm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/batch_norm.rs b/crates/onnx-ir/src/node/batch_norm.rs
index cbeee8e..602bd96 100644
--- a/crates/onnx-ir/src/node/batch_norm.rs
+++ b/crates/onnx-ir/src/node/batch_norm.rs
@@ -153,8 +153,8 @@ impl NodeProcessor for BatchNormProcessor {
     }
 
     fn extract_config(&self, node: &RawNode, _opset: usize) -> Result<Self::Config, ProcessError> {
-        let mut epsilon = 0f32;
-        let mut momentum = 0f32;
+        let mut epsilon = 1e-5f32;
+        let mut momentum = 0.9f32;
 
         for (key, value) in node.attrs.iter() {
             match key.as_str() {
-- 
2.43.0


From 20cf4b388a88c2658af1b24ac9bd8944353e8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 14/34] fix: refuse a Trilu diagonal that is only known at run
 time

---
 crates/onnx-ir/src/node/trilu.rs | 34 ++++++++++++++------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/crates/onnx-ir/src/node/trilu.rs b/crates/onnx-ir/src/node/trilu.rs
index fa85fda..21608c5 100644
--- a/crates/onnx-ir/src/node/trilu.rs
+++ b/crates/onnx-ir/src/node/trilu.rs
@@ -106,26 +106,22 @@ impl NodeProcessor for TriluProcessor {
         // implementation assumes Data::Int64 (scalar value). This should handle the proper
         // tensor extraction with shape validation to ensure it's 0-D.
         // Should validate: k tensor has shape [] or [1] and contains single int64 value.
-        if let Some(diagonal_arg) = node.inputs.get(1) {
-            if let Some(tensor_data) = diagonal_arg.value() {
-                // Extract scalar value, converting from any numeric type to i64
-                diagonal = match tensor_data.scalar_i64() {
-                    Ok(val) => val,
-                    Err(e) => {
-                        log::warn!(
-                            "Trilu node {}: Failed to extract diagonal value: {:?}",
-                            node.name,
-                            e
-                        );
-                        0
-                    }
-                };
-            } else {
-                log::warn!(
-                    "Trilu node {}: diagonal input has no value (not constant)",
+        if let Some(diagonal_arg) = node.inputs.get(1)
+            && !diagonal_arg.is_optional()
+        {
+            let tensor_data = diagonal_arg.value().ok_or_else(|| {
+                ProcessError::Custom(format!(
+                    "Trilu node {}: a diagonal computed at run time is not supported",
                     node.name
-                );
-            }
+                ))
+            })?;
+            // Extract scalar value, converting from any numeric type to i64
+            diagonal = tensor_data.scalar_i64().map_err(|e| {
+                ProcessError::Custom(format!(
+                    "Trilu node {}: failed to extract diagonal value: {:?}",
+                    node.name, e
+                ))
+            })?;
         }
 
         let config = TriluConfig::new(upper, diagonal);
-- 
2.43.0


From 1bdce67d49fa9c2be5da201fa8b56cf0298523b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 15/34] fix: coalesce attention only with scales that are
 single values, and multiply them

---
 .../src/simplify/coalesce_attention.rs        | 61 +++++++++++--------
 crates/onnx-ir/src/simplify/mod.rs            |  2 +-
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/coalesce_attention.rs b/crates/onnx-ir/src/simplify/coalesce_attention.rs
index c4c1996..bb0ac93 100644
--- a/crates/onnx-ir/src/simplify/coalesce_attention.rs
+++ b/crates/onnx-ir/src/simplify/coalesce_attention.rs
@@ -47,15 +47,20 @@ pub(crate) fn coalesce_attention(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
         }
     }
 
-    // Apply replacements
+    // Apply replacements. Indices refer to the original nodes, so go from the back.
+    replacements.sort_by_key(|(idx, _)| std::cmp::Reverse(*idx));
     for (idx, replacement) in replacements {
         if replacement.node_type == NodeType::Attention {
             log::info!(
                 "Simplification: coalescing SDPA pattern into Attention node '{}'",
                 replacement.name,
             );
+            nodes[idx] = replacement;
+        } else {
+            // The QK MatMul stays: its result may also be a graph output. Dead node
+            // elimination removes it otherwise.
+            nodes.insert(idx, replacement);
         }
-        nodes[idx] = replacement;
     }
 
     nodes
@@ -147,8 +152,9 @@ fn try_match_sdpa(
     else if let Some((q, k, prescale, extras)) =
         try_prescaled_qk_pattern(qk_matmul, qk_matmul_idx, nodes, producer, consumer)
     {
-        if prescale.is_some() {
-            scale_value = prescale;
+        // A scale applied to the scores multiplies the one applied to Q and K
+        if let Some(prescale) = prescale {
+            scale_value = Some(scale_value.unwrap_or(1.0) * prescale);
         }
         (q, k, extras)
     } else {
@@ -257,7 +263,7 @@ fn try_extract_scale<'a>(
     match node.node_type {
         NodeType::Div => {
             // Div(x, constant) -> scale = 1/constant
-            let divisor = node.inputs[1].value()?.scalar_f64().ok()?;
+            let divisor = single_value(&node.inputs[1], &node.inputs[0])?;
             if divisor == 0.0 {
                 return None;
             }
@@ -266,15 +272,11 @@ fn try_extract_scale<'a>(
         NodeType::Mul => {
             // Mul(x, constant) or Mul(constant, x) -> scale = constant
             // Try input[1] as constant first (more common)
-            if let Some(data) = node.inputs[1].value()
-                && let Ok(val) = data.scalar_f64()
-            {
+            if let Some(val) = single_value(&node.inputs[1], &node.inputs[0]) {
                 return Some((&node.inputs[0].name, val));
             }
             // Try input[0] as constant
-            if let Some(data) = node.inputs[0].value()
-                && let Ok(val) = data.scalar_f64()
-            {
+            if let Some(val) = single_value(&node.inputs[0], &node.inputs[1]) {
                 return Some((&node.inputs[1].name, val));
             }
             None
@@ -283,6 +285,16 @@ fn try_extract_scale<'a>(
     }
 }
 
+/// The value of a constant that scales every element of `other` alike: it has a single
+/// element and broadcasting it does not raise the rank.
+fn single_value(constant: &Argument, other: &Argument) -> Option<f64> {
+    let data = constant.value()?;
+    if data.shape.len() > other.ty.rank() || data.shape.iter().product::<usize>() != 1 {
+        return None;
+    }
+    data.scalar_f64().ok()
+}
+
 /// Build an Attention RawNode that replaces the final MatMul.
 fn build_attention_node(
     final_matmul: &RawNode,
@@ -401,13 +413,9 @@ fn try_standard_k_pattern(
         let q_mul = &nodes[q_mul_idx];
         if q_mul.node_type == NodeType::Mul
             && is_single_use(&q_mul.outputs[0].name, consumer)
-            && let Some((_, scale)) = try_extract_scale(q_mul, consumer)
+            && let Some((q_name, scale)) = try_extract_scale(q_mul, consumer)
+            && let Some(q_real) = q_mul.inputs.iter().find(|arg| arg.name == q_name).cloned()
         {
-            let q_real = if q_mul.inputs[1].value().is_some() {
-                q_mul.inputs[0].clone()
-            } else {
-                q_mul.inputs[1].clone()
-            };
             q_prescale = Some(QPrescale { q_real, scale });
         }
     }
@@ -429,7 +437,7 @@ fn try_standard_k_pattern(
 /// - Q_arg is Q after head-split transpose [B,H,S,D]
 /// - K_arg is K corrected to [B,H,S,D] via a new Transpose node
 /// - effective_scale is sqrt_scale^2 if extractable, None for default
-/// - extra_replacements contains the corrective Transpose placed at qk_matmul_idx
+/// - extra_replacements contains the corrective Transpose to insert at qk_matmul_idx
 #[allow(clippy::type_complexity)]
 fn try_prescaled_qk_pattern(
     qk_matmul: &RawNode,
@@ -465,6 +473,17 @@ fn try_prescaled_qk_pattern(
         return None;
     }
 
+    // effective_scale is the product of both scales when they are known. A constant that
+    // has been lifted into the Mul nodes has no name, so each of them is read separately.
+    let (q_scalar, k_scalar) = (&q_mul.inputs[scalar_idx], &k_mul.inputs[1 - k_tensor_idx]);
+    let prescaled_scale = if q_scalar.value().is_some() || k_scalar.value().is_some() {
+        let q_scale = single_value(q_scalar, &q_mul.inputs[q_tensor_idx])?;
+        let k_scale = single_value(k_scalar, &k_mul.inputs[k_tensor_idx])?;
+        Some(q_scale * k_scale)
+    } else {
+        None
+    };
+
     // Q's tensor input should come from a Transpose
     let q_tensor_name = &q_mul.inputs[q_tensor_idx].name;
     let q_transpose_idx = *producer.get(q_tensor_name.as_str())?;
@@ -523,12 +542,6 @@ fn try_prescaled_qk_pattern(
             .collect(),
     };
 
-    // Extract scale: effective_scale = sqrt_scale^2
-    let prescaled_scale = q_mul.inputs[scalar_idx]
-        .value()
-        .and_then(|data| data.scalar_f64().ok())
-        .map(|v| v * v);
-
     Some((
         q_arg,
         k_output,
diff --git a/crates/onnx-ir/src/simplify/mod.rs b/crates/onnx-ir/src/simplify/mod.rs
index b96ea32..cfe89f5 100644
--- a/crates/onnx-ir/src/simplify/mod.rs
+++ b/crates/onnx-ir/src/simplify/mod.rs
@@ -97,7 +97,7 @@ pub(crate) fn simplify_graph(
         // Dead node elimination (cleans up nodes orphaned by pattern passes)
         nodes = eliminate_dead_nodes(nodes, &outputs);
 
-        let removed = node_count_before - nodes.len();
+        let removed = node_count_before.saturating_sub(nodes.len());
         if removed == 0 {
             log::debug!(
                 "Simplification: converged after {} iteration(s)",
-- 
2.43.0


From 583981b99af5397bce770eba2db15cb2f0c7b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 16/34] fix: match permute-reshape only on the full Shape of
 the input

---
 crates/onnx-ir/src/simplify/permute_reshape.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/permute_reshape.rs b/crates/onnx-ir/src/simplify/permute_reshape.rs
index 5a9c1fb..fd25cd2 100644
--- a/crates/onnx-ir/src/simplify/permute_reshape.rs
+++ b/crates/onnx-ir/src/simplify/permute_reshape.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use crate::TensorDataExt;
-use crate::ir::{AttributeValue, NodeType, RawNode};
+use crate::ir::{ArgType, AttributeValue, NodeType, RawNode};
 
 /// Detect Shape+Gather+Unsqueeze+Concat+Reshape chains that implement a dimension
 /// permutation (e.g. from PyTorch's `tensor.permute()`) and replace the Reshape with
@@ -77,7 +77,8 @@ fn extract_permute_pattern(
     // Each Concat input should come from an Unsqueeze -> Gather -> Shape chain,
     // all from the same Shape node, and the Reshape's data input should match
     // the Shape's data input.
-    let mut perm: Vec<i64> = Vec::with_capacity(concat.inputs.len());
+    let rank = concat.inputs.len();
+    let mut perm: Vec<i64> = Vec::with_capacity(rank);
     let mut shape_data_input: Option<String> = None;
 
     for concat_in in &concat.inputs {
@@ -108,14 +109,14 @@ fn extract_permute_pattern(
         let mut index_val = index_arg.value()?.scalar_i64().ok()?;
         // Normalize negative indices (ONNX Gather supports them)
         if index_val < 0 {
-            index_val += concat.inputs.len() as i64;
+            index_val += rank as i64;
         }
         perm.push(index_val);
 
         // Gather's data input (input[0]) must come from a Shape node
         let shape_idx = *producer.get(&gather.inputs[0].name)?;
         let shape_node = &nodes[shape_idx];
-        if shape_node.node_type != NodeType::Shape {
+        if shape_node.node_type != NodeType::Shape || !is_full_shape(shape_node, rank) {
             return None;
         }
 
@@ -135,7 +136,6 @@ fn extract_permute_pattern(
     }
 
     // Verify it's actually a permutation (contains each index exactly once)
-    let rank = perm.len();
     let mut seen = vec![false; rank];
     for &p in &perm {
         if p < 0 || p as usize >= rank || seen[p as usize] {
@@ -147,6 +147,14 @@ fn extract_permute_pattern(
     Some(perm)
 }
 
+/// Whether a Shape node yields all dimensions of its input, and these are `rank` many.
+fn is_full_shape(shape_node: &RawNode, rank: usize) -> bool {
+    let attr = |name: &str| shape_node.attrs.get(name).map(|v| v.clone().into_i64());
+    matches!(shape_node.outputs[0].ty, ArgType::Shape(len) if len == rank)
+        && attr("start").unwrap_or(0) == 0
+        && attr("end").is_none_or(|end| end >= shape_node.inputs[0].ty.rank() as i64)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 94bfba9c7c79429bbdc435d004daad103b8be47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 17/34] fix: do not merge nodes that draw random numbers or
 carry tensor attributes

---
 .../onnx-ir/src/simplify/redundant_nodes.rs   | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/redundant_nodes.rs b/crates/onnx-ir/src/simplify/redundant_nodes.rs
index ae07372..c68adca 100644
--- a/crates/onnx-ir/src/simplify/redundant_nodes.rs
+++ b/crates/onnx-ir/src/simplify/redundant_nodes.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ir::{AttributeValue, RawNode, ValueSource};
+use crate::ir::{AttributeValue, NodeType, RawNode, ValueSource};
 
 /// Eliminate redundant nodes (common subexpression elimination).
 ///
@@ -56,13 +56,30 @@ pub(crate) fn eliminate_redundant_nodes(mut nodes: Vec<RawNode>) -> Vec<RawNode>
 
 /// Build a CSE key for a node based on its type, input names, and attributes.
 ///
-/// Nodes with graph-valued attributes get a unique key (not eligible for CSE).
+/// Nodes with graph- or tensor-valued attributes and nodes that draw random numbers get a
+/// unique key (not eligible for CSE).
 fn cse_key(node: &RawNode) -> String {
-    // Skip nodes with graph attributes (too complex to compare)
+    // Each random node draws its own numbers
+    if matches!(
+        node.node_type,
+        NodeType::Bernoulli
+            | NodeType::Multinomial
+            | NodeType::RandomNormal
+            | NodeType::RandomNormalLike
+            | NodeType::RandomUniform
+            | NodeType::RandomUniformLike
+    ) {
+        return format!("__unique__:{}", node.name);
+    }
+
+    // Skip nodes with graph attributes (too complex to compare) and with tensor attributes
+    // (their debug form abbreviates the data)
     for value in node.attrs.values() {
         if matches!(
             value,
-            AttributeValue::DeferredGraph(_)
+            AttributeValue::Tensor(_)
+                | AttributeValue::Tensors(_)
+                | AttributeValue::DeferredGraph(_)
                 | AttributeValue::DeferredGraphs(_)
                 | AttributeValue::Graph(_)
         ) {
-- 
2.43.0


From 82b0183c0770384b1d19446ef91c97bbeb56e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 18/34] fix: keep operations whose constant operand changes the
 shape

---
 .../onnx-ir/src/simplify/identity_element.rs  | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/simplify/identity_element.rs b/crates/onnx-ir/src/simplify/identity_element.rs
index 06fa5b9..e1dffc2 100644
--- a/crates/onnx-ir/src/simplify/identity_element.rs
+++ b/crates/onnx-ir/src/simplify/identity_element.rs
@@ -62,7 +62,9 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
             _ => None,
         };
 
-        if let Some(keep_idx) = passthrough {
+        if let Some(keep_idx) = passthrough
+            && keeps_shape(node, keep_idx)
+        {
             let keep_name = &node.inputs[keep_idx].name;
             log::debug!(
                 "Identity element elimination: {:?} '{}' (output '{}' -> input '{}')",
@@ -95,6 +97,31 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
     nodes
 }
 
+/// Check that the result has the kind and shape of the kept input, so that broadcasting with
+/// the constant changes nothing. The kept input must also be a runtime value, since only those
+/// are referred to by name alone.
+fn keeps_shape(node: &RawNode, keep_idx: usize) -> bool {
+    let kept = &node.inputs[keep_idx];
+    let Some(constant) = node.inputs[1 - keep_idx].value() else {
+        return false;
+    };
+
+    let kept_ty = &kept.ty;
+    let output_ty = &node.outputs[0].ty;
+    if !kept.is_dynamic()
+        || std::mem::discriminant(kept_ty) != std::mem::discriminant(output_ty)
+        || kept_ty.rank() != output_ty.rank()
+    {
+        return false;
+    }
+
+    let dims = kept_ty.static_shape_known();
+    constant.shape.len() <= kept_ty.rank()
+        && constant.shape.iter().rev().enumerate().all(|(i, &dim)| {
+            dim == 1 || dims.as_ref().and_then(|d| d.iter().rev().nth(i)) == Some(&dim)
+        })
+}
+
 /// Check if an argument is a constant where all elements equal `target`.
 ///
 /// Works for scalar constants and broadcast-compatible constant tensors.
-- 
2.43.0


From eefc3d6719a5cb99bcfb997160a49099f9011b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 19/34] fix: honour Shape's start and end when folding Gather
 and Slice of a shape

---
 crates/onnx-ir/src/simplify/constant_shape.rs | 87 ++++++++-----------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_shape.rs b/crates/onnx-ir/src/simplify/constant_shape.rs
index b2e799d..73f1fe1 100644
--- a/crates/onnx-ir/src/simplify/constant_shape.rs
+++ b/crates/onnx-ir/src/simplify/constant_shape.rs
@@ -177,61 +177,39 @@ fn extract_constant_shape_dim(
         return None;
     }
 
-    // The Shape node's input must have a fully known static shape (all dims concrete)
-    let static_shape = shape_node.inputs[0].ty.static_shape_known()?;
+    // The dimensions that the Shape node yields
+    let shape_values = extract_full_static_shape(shape_node)?;
 
-    // Account for Shape's start/end attributes (opset 15+)
-    let rank = static_shape.len();
-    let mut start = shape_node
-        .attrs
-        .get("start")
-        .map(|v| v.clone().into_i64())
-        .unwrap_or(0);
-    if start < 0 {
-        start += rank as i64;
+    // Gather's index (input[1]) must be a single constant
+    let index_data = gather.inputs[1].value()?;
+    if index_data.shape.iter().product::<usize>() != 1 {
+        return None;
     }
-    let start = start.max(0) as usize;
-
-    // Gather's index (input[1]) must be a constant scalar
-    let mut index_val = gather.inputs[1].value()?.scalar_i64().ok()?;
+    let mut index_val = index_data.scalar_i64().ok()?;
 
     // Handle negative indices (relative to the sliced shape length)
-    let sliced_len = static_shape.len() - start;
     if index_val < 0 {
-        index_val += sliced_len as i64;
-    }
-    if index_val < 0 || index_val as usize >= sliced_len {
-        return None;
+        index_val += shape_values.len() as i64;
     }
-
-    let dim_idx = start + index_val as usize;
-    Some(static_shape[dim_idx] as i64)
+    shape_values.get(usize::try_from(index_val).ok()?).copied()
 }
 
 /// Extract the full static shape from a Shape node, accounting for start/end attributes.
 fn extract_full_static_shape(shape_node: &RawNode) -> Option<Vec<i64>> {
     let static_shape = shape_node.inputs[0].ty.static_shape_known()?;
-    let rank = static_shape.len();
-
-    let mut start = shape_node
-        .attrs
-        .get("start")
-        .map(|v| v.clone().into_i64())
-        .unwrap_or(0);
-    if start < 0 {
-        start += rank as i64;
-    }
-    let start = start.max(0) as usize;
-
-    let mut end = shape_node
-        .attrs
-        .get("end")
-        .map(|v| v.clone().into_i64())
-        .unwrap_or(rank as i64);
-    if end < 0 {
-        end += rank as i64;
-    }
-    let end = (end as usize).min(rank);
+    let rank = static_shape.len() as i64;
+
+    // Negative values count from the back; everything is clamped to [0, rank]
+    let bound = |name: &str, default: i64| {
+        let value = shape_node
+            .attrs
+            .get(name)
+            .map(|v| v.clone().into_i64())
+            .unwrap_or(default);
+        let value = if value < 0 { value + rank } else { value };
+        value.clamp(0, rank) as usize
+    };
+    let (start, end) = (bound("start", 0), bound("end", rank));
 
     if start >= end {
         return Some(vec![]);
@@ -295,8 +273,8 @@ fn extract_constant_shape_slice(
         return None;
     }
 
-    // Shape output is 1D, so the only valid axis is 0
-    if axes.iter().any(|&a| a != 0) {
+    // Shape output is 1D, so the only valid axis is 0 (or -1), given once
+    if axes.len() != 1 || (axes[0] != 0 && axes[0] != -1) {
         return None;
     }
 
@@ -318,9 +296,18 @@ fn extract_constant_shape_slice(
         end += shape_len;
     }
 
-    // Clamp to bounds
-    start = start.clamp(0, shape_len);
-    end = end.clamp(0, shape_len);
+    if shape_len == 0 {
+        return Some(vec![]);
+    }
+
+    // Clamp to bounds. Going backwards, the end may lie before the first element.
+    if step > 0 {
+        start = start.clamp(0, shape_len);
+        end = end.clamp(0, shape_len);
+    } else {
+        start = start.clamp(0, shape_len - 1);
+        end = end.clamp(-1, shape_len - 1);
+    }
 
     // Compute the sliced result
     let result: Vec<i64> = if step > 0 {
@@ -334,7 +321,7 @@ fn extract_constant_shape_slice(
         let mut i = start;
         while i > end {
             vals.push(shape_values[i as usize]);
-            i += step; // step is negative
+            i = i.saturating_add(step); // step is negative
         }
         vals
     };
-- 
2.43.0


From 3a480d673c9933fe54b489eb156449374657a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 20/34] fix: fold constants with their real shapes and without
 overflow

---
 crates/onnx-ir/src/simplify/constant_fold.rs | 60 +++++++++++++-------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_fold.rs b/crates/onnx-ir/src/simplify/constant_fold.rs
index af258f3..274572b 100644
--- a/crates/onnx-ir/src/simplify/constant_fold.rs
+++ b/crates/onnx-ir/src/simplify/constant_fold.rs
@@ -133,7 +133,18 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
 
     let dtype = lhs_data.dtype;
 
-    let shape = output_shape(&output_ty);
+    // Only single value<->tensor or same-shape
+    let (lhs_dims, rhs_dims) = (&lhs_data.shape[..], &rhs_data.shape[..]);
+    let is_single = |dims: &[usize]| dims.iter().product::<usize>() == 1;
+    let dims = if lhs_dims == rhs_dims || (is_single(rhs_dims) && rhs_dims.len() <= lhs_dims.len())
+    {
+        lhs_dims
+    } else if is_single(lhs_dims) && lhs_dims.len() <= rhs_dims.len() {
+        rhs_dims
+    } else {
+        return None;
+    };
+    let shape = output_shape(&output_ty, dims)?;
 
     match dtype {
         DType::I64 => {
@@ -166,17 +177,15 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
     }
 }
 
-/// Derive the output shape from the already-inferred output type.
-fn output_shape(output_ty: &ArgType) -> Vec<usize> {
-    match output_ty {
+/// The shape to store a result of the given dimensions with, according to the
+/// already-inferred output type. None if that type cannot hold the result.
+fn output_shape(output_ty: &ArgType, dims: &[usize]) -> Option<Vec<usize>> {
+    let shape = match output_ty {
         ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => vec![],
         ArgType::Shape(len) => vec![*len],
-        ArgType::Tensor(t) => t
-            .static_shape
-            .as_ref()
-            .and_then(|ss| ss.iter().copied().collect::<Option<Vec<_>>>())
-            .unwrap_or_default(),
-    }
+        ArgType::Tensor(t) => return (t.rank == dims.len()).then(|| dims.to_vec()),
+    };
+    (shape.iter().product::<usize>() == dims.iter().product::<usize>()).then_some(shape)
 }
 
 fn broadcast_get<T: Copy>(slice: &[T], i: usize) -> T {
@@ -188,7 +197,7 @@ fn apply_binary_i64(lhs: &[i64], rhs: &[i64], op: &BinaryOp) -> Option<Vec<i64>>
     if lhs.len() != rhs.len() && lhs.len() != 1 && rhs.len() != 1 {
         return None;
     }
-    let len = lhs.len().max(rhs.len());
+    let len = if lhs.len() == 1 { rhs.len() } else { lhs.len() };
     let mut result = Vec::with_capacity(len);
     for i in 0..len {
         let a = broadcast_get(lhs, i);
@@ -201,7 +210,7 @@ fn apply_binary_i64(lhs: &[i64], rhs: &[i64], op: &BinaryOp) -> Option<Vec<i64>>
                 if b == 0 {
                     return None;
                 }
-                a / b
+                a.checked_div(b)?
             }
         };
         result.push(val);
@@ -213,7 +222,7 @@ fn apply_binary_f64(lhs: &[f64], rhs: &[f64], op: &BinaryOp) -> Option<Vec<f64>>
     if lhs.len() != rhs.len() && lhs.len() != 1 && rhs.len() != 1 {
         return None;
     }
-    let len = lhs.len().max(rhs.len());
+    let len = if lhs.len() == 1 { rhs.len() } else { lhs.len() };
     let mut result = Vec::with_capacity(len);
     for i in 0..len {
         let a = broadcast_get(lhs, i);
@@ -238,12 +247,12 @@ fn apply_binary_f64(lhs: &[f64], rhs: &[f64], op: &BinaryOp) -> Option<Vec<f64>>
 fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, &data.shape)?;
 
     match data.dtype {
         DType::I64 => {
             let vals = data.to_i64_vec().ok()?;
-            let result: Vec<i64> = vals.iter().map(|v| -v).collect();
+            let result: Vec<i64> = vals.iter().map(|v| v.wrapping_neg()).collect();
             Some((TensorData::new(result, shape), output_ty))
         }
         DType::I32 => {
@@ -269,7 +278,7 @@ fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, &data.shape)?;
 
     match data.dtype {
         DType::F32 => {
@@ -290,7 +299,7 @@ fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_cast(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, &data.shape)?;
 
     let target_dtype = match &output_ty {
         ArgType::ScalarTensor(d) | ArgType::ScalarNative(d) => *d,
@@ -299,7 +308,8 @@ fn eval_cast(node: &RawNode) -> Option<(TensorData, ArgType)> {
     };
 
     if data.dtype == target_dtype {
-        return Some((data.clone(), output_ty));
+        let result = TensorData::from_bytes_vec(data.bytes.to_vec(), shape, data.dtype);
+        return Some((result, output_ty));
     }
 
     match (data.dtype, target_dtype) {
@@ -354,10 +364,20 @@ fn eval_concat(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let output_ty = node.outputs[0].ty.clone();
     let first_data = node.inputs[0].value()?;
     let dtype = first_data.dtype;
-    let shape = output_shape(&output_ty);
-
     let non_optional = || node.inputs.iter().filter(|arg| !arg.is_optional());
 
+    // All dimensions but the first must agree
+    let mut dims = vec![0; first_data.shape.len().max(1)];
+    dims[1..].copy_from_slice(first_data.shape.get(1..).unwrap_or_default());
+    for input in non_optional() {
+        let data = input.value()?;
+        if data.shape.get(1..).unwrap_or_default() != &dims[1..] {
+            return None;
+        }
+        dims[0] += data.shape.first().copied().unwrap_or(1);
+    }
+    let shape = output_shape(&output_ty, &dims)?;
+
     match dtype {
         DType::I64 => {
             let mut result: Vec<i64> = Vec::new();
-- 
2.43.0


From f766b51e92e8713c20a8b4eae9602661ee0e4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 21/34] fix: treat a shape as one-dimensional in Gather

---
 crates/onnx-ir/src/node/gather.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/node/gather.rs b/crates/onnx-ir/src/node/gather.rs
index 9301b7a..4f5aac0 100644
--- a/crates/onnx-ir/src/node/gather.rs
+++ b/crates/onnx-ir/src/node/gather.rs
@@ -106,8 +106,8 @@ impl NodeProcessor for GatherProcessor {
         // Scalar inputs have effective rank 1 (single element that can be gathered)
         let input_dim = match &node.inputs[0].ty {
             ArgType::Tensor(tensor) => tensor.rank as i64,
-            ArgType::Shape(shape_rank) => *shape_rank as i64,
-            ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => 1,
+            // A shape is a 1D value
+            ArgType::Shape(_) | ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => 1,
         };
 
         // Extract the axis attribute (default: 0 per ONNX spec)
@@ -178,7 +178,18 @@ impl NodeProcessor for GatherProcessor {
                     // For Shape indices, use the actual shape rank (number of elements)
                     let output_shape_rank = match &node.inputs[1].ty {
                         ArgType::Shape(shape_rank) => *shape_rank,
-                        ArgType::Tensor(_) => indices_rank, // For tensor indices, use computed rank
+                        // A shape is 1D, so there is one element per index
+                        ArgType::Tensor(_) if indices_rank > 1 => {
+                            return Err(ProcessError::Custom(format!(
+                                "Gather from a shape with indices of rank {} is not supported",
+                                indices_rank
+                            )));
+                        }
+                        ArgType::Tensor(_) => node.inputs[1]
+                            .ty
+                            .static_shape_known()
+                            .or_else(|| node.inputs[1].value().map(|data| data.shape.to_vec()))
+                            .map_or(indices_rank, |dims| dims.iter().product()),
                         _ => indices_rank,
                     };
                     node.outputs[0].ty = ArgType::Shape(output_shape_rank);
@@ -200,8 +211,8 @@ impl NodeProcessor for GatherProcessor {
         // Scalar inputs have effective rank 1 (single element that can be gathered)
         let input_dim = match &node.inputs[0].ty {
             ArgType::Tensor(tensor) => tensor.rank as i64,
-            ArgType::Shape(shape_rank) => *shape_rank as i64,
-            ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => 1,
+            // A shape is a 1D value
+            ArgType::Shape(_) | ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => 1,
         };
 
         // Extract the axis attribute (default: 0 per ONNX spec)
-- 
2.43.0


From 28bccbd9fce973fe76cca8210f6ddb5a23656f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 22/34] fix: type empty shape values as empty

---
 crates/onnx-ir/src/node/slice.rs |  3 +++
 crates/onnx-ir/src/processor.rs  | 13 ++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 62691a9..b1d7215 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -75,6 +75,9 @@ fn calculate_shape_slice_output_len(
     shape_rank: usize,
     _node_name: &str,
 ) -> usize {
+    if shape_rank == 0 {
+        return 0;
+    }
     let shape_len = shape_rank as i64;
 
     // Normalize negative indices and clamp to the range the step direction allows
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index e5c11ba..e9033ee 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -662,14 +662,17 @@ pub fn broadcast_output_type(
         .any(|input| matches!(&input.ty, ArgType::Shape(_)));
 
     if has_shape && !has_real_tensor {
-        let shape_rank = inputs
-            .iter()
-            .filter_map(|input| match &input.ty {
+        let ranks = || {
+            inputs.iter().filter_map(|input| match &input.ty {
                 ArgType::Shape(rank) => Some(*rank),
                 _ => None,
             })
-            .max()
-            .expect("Shape input must exist");
+        };
+        let mut shape_rank = ranks().max().expect("Shape input must exist");
+        if shape_rank == 1 {
+            // A single element also adapts to an empty operand
+            shape_rank = ranks().min().unwrap_or(shape_rank);
+        }
 
         return ArgType::Shape(shape_rank);
     }
-- 
2.43.0


From 9fcc712b98961c34b555d58cc1844519aff0a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:02 +0000
Subject: [PATCH 23/34] fix: fuse into Linear only constant biases of the right
 shape and values used nowhere else

---
 crates/onnx-ir/src/phases/node_conversion.rs | 55 +++++++++++++++++---
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 8e1de43..7957888 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -9,10 +9,10 @@ use std::{cell::RefCell, collections::HashMap, iter::Peekable, rc::Rc, slice::It
 
 use crate::{
     graph_state::GraphState,
-    ir::{ArgType, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
+    ir::{ArgType, Argument, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
     pipeline::Error,
     processor::get_processor_registry,
-    proto_conversion::convert_node_proto,
+    proto_conversion::{convert_node_proto, extract_node_outer_scope_references, sanitize_name},
     protos::{GraphProto, NodeProto},
 };
 
@@ -419,7 +419,7 @@ fn coalesce(
 ) {
     #[allow(clippy::single_match)]
     match node.node_type {
-        NodeType::Gemm => convert_gemm_to_linear(node),
+        NodeType::Gemm => convert_gemm_to_linear(node, graph_data),
         NodeType::MatMul => {
             convert_matmul_to_linear(node, nodes_iter, graph_data);
         }
@@ -432,7 +432,7 @@ fn coalesce(
 /// Note: The weight tensor is kept in its original ONNX layout [out_features, in_features].
 /// The burn-onnx layer is responsible for transposing the weights to Burn's expected
 /// layout [in_features, out_features] during code generation.
-fn convert_gemm_to_linear(node: &mut RawNode) {
+fn convert_gemm_to_linear(node: &mut RawNode, graph_data: &GraphState) {
     if node.outputs.len() != 1 {
         panic!("Gemm node must have 1 output");
     }
@@ -465,7 +465,15 @@ fn convert_gemm_to_linear(node: &mut RawNode) {
         _ => false,
     };
 
-    if straight_linear {
+    // Linear holds its weight and bias as parameters, so both must be constants
+    let has_parameters = node.inputs.len() >= 2
+        && graph_data.has_value(&node.inputs[1].name)
+        && node
+            .inputs
+            .get(2)
+            .is_none_or(|bias| is_linear_bias(bias, &node.inputs[1], 0, graph_data));
+
+    if straight_linear && has_parameters {
         log::debug!("Fusing Gemm → Linear for node {}", node.name);
         node.node_type = NodeType::Linear;
         node.attrs.remove("alpha");
@@ -477,7 +485,7 @@ fn convert_gemm_to_linear(node: &mut RawNode) {
             .insert("transpose_weight".to_string(), AttributeValue::Int64(1));
     } else {
         log::debug!(
-            "Keeping Gemm node {} (alpha={:?}, beta={:?}, transB={:?} don't match Linear pattern)",
+            "Keeping Gemm node {} (alpha={:?}, beta={:?}, transB={:?} or inputs don't match Linear pattern)",
             node.name,
             node.attrs.get("alpha"),
             node.attrs.get("beta"),
@@ -531,7 +539,12 @@ fn convert_matmul_to_linear(
     // Check the next node for potential conversion
     if let Some(peek_node) = iter_mut.peek() {
         let peek_node = convert_node_proto(peek_node, graph_data);
-        if is_add_node_with_bias(&peek_node, node, graph_data) {
+        let output = &node.outputs[0].name;
+        let bias = peek_node.inputs.iter().find(|arg| arg.name != *output);
+        if is_add_node_with_bias(&peek_node, node, graph_data)
+            && bias.is_some_and(|bias| is_linear_bias(bias, &node.inputs[1], 1, graph_data))
+            && !is_used_after_next(output, iter_mut, graph_data)
+        {
             convert_and_remove_add_node(&peek_node, node);
             log::debug!("Fused Add bias into Linear node {}", node.name);
 
@@ -559,6 +572,34 @@ fn is_add_node_with_bias(
             && graph_data.has_value(&peek_node.inputs[0].name))
 }
 
+/// Check if an argument can be the bias of a Linear with the given weight: a constant
+/// vector with one element per output feature (dimension `out_dim` of the weight)
+fn is_linear_bias(
+    bias: &Argument,
+    weight: &Argument,
+    out_dim: usize,
+    graph_data: &GraphState,
+) -> bool {
+    graph_data.has_value(&bias.name)
+        && matches!(
+            (bias.ty.static_shape_known(), weight.ty.static_shape_known()),
+            (Some(bias), Some(weight)) if bias.len() == 1 && bias.first() == weight.get(out_dim)
+        )
+}
+
+/// Check if a value is used by anything other than the next node
+fn is_used_after_next(
+    name: &str,
+    iter: &Peekable<Iter<NodeProto>>,
+    graph_data: &GraphState,
+) -> bool {
+    graph_data.get_output_type(name).is_some()
+        || iter.clone().skip(1).any(|node| {
+            node.input.iter().any(|input| sanitize_name(input) == name)
+                || extract_node_outer_scope_references(node).contains(name)
+        })
+}
+
 /// Merge the Add node's bias into the MatMul node
 fn convert_and_remove_add_node(bias_node: &RawNode, current_node: &mut RawNode) {
     // The bias is whichever input is NOT the matmul output
-- 
2.43.0


From e45071c8216b57e4bb3e3687e6b077e47e09faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 24/34] fix: keep a no-op node whose other outputs are used

---
 crates/onnx-ir/src/phases/post_processing.rs | 31 +++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index bbadc7c..e160ef5 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -121,6 +121,34 @@ fn plan_noop_elimination(
     }
 }
 
+/// Keep no-op nodes whose outputs after the first are used (e.g. Dropout's mask):
+/// only the first output can be rewired to the input
+fn keep_nodes_with_other_outputs(
+    plan: &mut NoopEliminationPlan,
+    nodes: &[RawNode],
+    outputs: &[Argument],
+    node_output_map: &HashMap<String, (usize, usize)>,
+) {
+    let is_used = |output: &Argument| {
+        nodes
+            .iter()
+            .flat_map(|node| &node.inputs)
+            .chain(outputs)
+            .any(|arg| arg.name == output.name)
+    };
+
+    plan.nodes_to_remove.retain(|&idx| {
+        let keep = nodes[idx].outputs.iter().skip(1).any(is_used);
+        if keep {
+            log::debug!("No-op node {} has other used outputs", nodes[idx].name);
+            plan.rewire_map.retain(|name, _| {
+                *name != nodes[idx].outputs[0].name && node_output_map.get(name) != Some(&(idx, 0))
+            });
+        }
+        !keep
+    });
+}
+
 /// Apply the no-op elimination plan to the graph
 ///
 /// This function:
@@ -224,7 +252,8 @@ pub(crate) fn post_process(
     // No-op elimination (includes Identity nodes and any processor-declared no-ops)
     log::debug!("Starting no-op elimination");
     {
-        let elimination_plan = plan_noop_elimination(&nodes, &node_output_map, simplify);
+        let mut elimination_plan = plan_noop_elimination(&nodes, &node_output_map, simplify);
+        keep_nodes_with_other_outputs(&mut elimination_plan, &nodes, &outputs, &node_output_map);
         apply_noop_elimination(&mut nodes, &mut outputs, elimination_plan);
     }
 
-- 
2.43.0


From e6a47ae71c214eed1cac62efdd00d042bc6df982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 25/34] fix: keep the type of a runtime shape tensor given to
 ConstantOfShape

The node claimed that a tensor produced elsewhere was a Shape, so the
generated code passed a tensor where an array was expected.
---
 crates/burn-onnx/src/burn/node/constant_of_shape.rs | 12 +++++++++++-
 crates/onnx-ir/src/node/constant_of_shape.rs        |  7 +++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/constant_of_shape.rs b/crates/burn-onnx/src/burn/node/constant_of_shape.rs
index 02e2f9f..a0d584f 100644
--- a/crates/burn-onnx/src/burn/node/constant_of_shape.rs
+++ b/crates/burn-onnx/src/burn/node/constant_of_shape.rs
@@ -57,7 +57,17 @@ impl NodeCodegen for onnx_ir::node::constant_of_shape::ConstantOfShapeNode {
                 // Runtime shape input
                 let arg = &self.inputs[runtime_ref.input_index];
                 let input_name = arg_to_ident(arg);
-                quote! { #input_name }
+                match (&arg.ty, &self.outputs[0].ty) {
+                    (ArgType::Tensor(_), ArgType::Tensor(output)) => {
+                        let output_rank = output.rank.to_tokens();
+                        quote! {
+                            TryInto::<[i64; #output_rank]>::try_into(
+                                #input_name.to_data().convert::<i64>().as_slice().unwrap()
+                            ).unwrap()
+                        }
+                    }
+                    _ => quote! { #input_name },
+                }
             }
         };
 
diff --git a/crates/onnx-ir/src/node/constant_of_shape.rs b/crates/onnx-ir/src/node/constant_of_shape.rs
index 634348c..efa22a6 100644
--- a/crates/onnx-ir/src/node/constant_of_shape.rs
+++ b/crates/onnx-ir/src/node/constant_of_shape.rs
@@ -168,8 +168,11 @@ impl NodeProcessor for ConstantOfShapeProcessor {
             }
         };
 
-        // Update the input type to be a shape
-        node.inputs[0].ty = ArgType::Shape(rank);
+        // A constant shape is embedded as values. A runtime tensor stays a tensor: its
+        // producer decides its type.
+        if node.inputs[0].value().is_some() {
+            node.inputs[0].ty = ArgType::Shape(rank);
+        }
 
         // Optimization: When input is 1D and value type is Int64,
         // output Shape type to keep shape operations in the Shape domain.
-- 
2.43.0


From 6727ef8f06d97ffbec988660e5f80c02ea8979b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 26/34] fix: reduce all dimensions by explicit axes, and
 LogSumExp without keepdims

---
 crates/burn-onnx/src/burn/node/reduce.rs | 32 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/reduce.rs b/crates/burn-onnx/src/burn/node/reduce.rs
index ed70cf8..a2d1387 100644
--- a/crates/burn-onnx/src/burn/node/reduce.rs
+++ b/crates/burn-onnx/src/burn/node/reduce.rs
@@ -44,6 +44,7 @@ impl ReductionType {
         input: TokenStream,
         dims: Vec<usize>,
         keepdims: bool,
+        input_rank: usize,
         output_rank: usize,
     ) -> TokenStream {
         // Reducing along specified dimensions
@@ -54,10 +55,10 @@ impl ReductionType {
         if keepdims {
             reduced_input
         } else {
-            // Check if the result should be a scalar (rank 0)
-            if output_rank == 0 {
-                // For scalar outputs, we don't need to squeeze dims as the reduce operations
-                // should already return the correct rank
+            // Check if the result should be a scalar (every dimension is reduced)
+            if output_rank == 0 || dims.len() == input_rank {
+                // For scalar outputs there is no rank to squeeze to: the single element is
+                // reshaped or extracted by the caller
                 reduced_input
             } else {
                 // Squeezing dimensions for non-scalar outputs
@@ -89,11 +90,11 @@ impl ReductionType {
             } else {
                 // Reducing along all specific dimensions
                 dims = (0..input_rank).collect();
-                self.reduce_by_dims(input, dims, keepdims, output_rank)
+                self.reduce_by_dims(input, dims, keepdims, input_rank, output_rank)
             }
         } else {
             // Reducing along specific dimensions
-            self.reduce_by_dims(input, dims, keepdims, output_rank)
+            self.reduce_by_dims(input, dims, keepdims, input_rank, output_rank)
         }
     }
 }
@@ -289,22 +290,31 @@ macro_rules! impl_reduce_node {
                             _ => panic!("Reduce node input must be a tensor"),
                         };
 
+                        // The maximum has to keep the reduced dimensions to be expanded to
+                        // the shape of the input again
                         let input_max_reduced = ReductionType::Max.forward_reduce(
                             quote! { input_double.clone() },
                             dims.clone(),
-                            keepdims,
+                            true,
+                            input_rank,
                             input_rank,
-                            output_rank,
                         );
 
                         let exp_reduced = ReductionType::Sum.forward_reduce(
                             quote! { input_exp_reduced },
                             dims.clone(),
-                            keepdims,
+                            true,
+                            input_rank,
                             input_rank,
-                            output_rank,
                         );
 
+                        let squeeze = if keepdims || dims.is_empty() || dims.len() == input_rank {
+                            quote! {}
+                        } else {
+                            let dims_tokens = dims.to_tokens();
+                            quote! { .squeeze_dims::<#output_rank>(&#dims_tokens) }
+                        };
+
                         let input_reduced = quote! {
                             let input_dtype = #input.dtype();
                             let input_shape = #input.shape();
@@ -312,7 +322,7 @@ macro_rules! impl_reduce_node {
                             let input_max_reduced = #input_max_reduced;
                             let input_exp_reduced = (input_double - input_max_reduced.clone().expand(input_shape)).exp();
                             let exp_sum_reduced = #exp_reduced;
-                            (input_max_reduced + exp_sum_reduced.log())
+                            (input_max_reduced + exp_sum_reduced.log())#squeeze
                         };
 
                         match &input_arg.ty {
-- 
2.43.0


From d2a50b2d09e8f466b9295f619c569351cfd00dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 27/34] fix: expand to a shape shorter than the rank of the
 input

---
 crates/burn-onnx/src/burn/node/expand.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/expand.rs b/crates/burn-onnx/src/burn/node/expand.rs
index 4c9ed2a..043de78 100644
--- a/crates/burn-onnx/src/burn/node/expand.rs
+++ b/crates/burn-onnx/src/burn/node/expand.rs
@@ -18,7 +18,12 @@ impl NodeCodegen for onnx_ir::expand::ExpandNode {
         let output_rank = output_arg.ty.rank();
 
         let shape = match &self.config {
-            onnx_ir::expand::ExpandConfig::Static(s) => s.to_tokens(),
+            onnx_ir::expand::ExpandConfig::Static(s) => {
+                // A shape shorter than the output is aligned to its trailing dimensions
+                let mut shape = vec![1i64; output_rank.saturating_sub(s.len())];
+                shape.extend(s);
+                shape.to_tokens()
+            }
             onnx_ir::expand::ExpandConfig::Runtime(r) => {
                 let shape_arg = &self.inputs[r.input_index];
                 match &shape_arg.ty {
@@ -30,6 +35,17 @@ impl NodeCodegen for onnx_ir::expand::ExpandNode {
                             ).unwrap()
                         }
                     }
+                    ArgType::Shape(len) if *len < output_rank => {
+                        let name = arg_to_ident(shape_arg);
+                        let lead = output_rank - len;
+                        quote! {
+                            {
+                                let mut shape = [1i64; #output_rank];
+                                shape[#lead..].copy_from_slice(&#name);
+                                shape
+                            }
+                        }
+                    }
                     ArgType::Shape(_) => {
                         let name = arg_to_ident(shape_arg);
                         quote! { #name }
-- 
2.43.0


From f6654a71fd8e52775d24e05fbc58955794351fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 28/34] fix: generate the inner product of two vectors

---
 crates/burn-onnx/src/burn/node/matmul.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/matmul.rs b/crates/burn-onnx/src/burn/node/matmul.rs
index 15dea3f..f143134 100644
--- a/crates/burn-onnx/src/burn/node/matmul.rs
+++ b/crates/burn-onnx/src/burn/node/matmul.rs
@@ -87,6 +87,10 @@ impl NodeCodegen for onnx_ir::matmul::MatMulNode {
                     }
                 }
             }
+            // Burn multiplies tensors of at least rank 2: the dot product of two vectors
+            Ordering::Equal if lhs_rank == 1 => quote! {
+                let #output = #lhs.mul(#rhs).sum();
+            },
             Ordering::Equal => quote! {
                 let #output = #lhs.matmul(#rhs);
             },
-- 
2.43.0


From ff4273c6c73fbb95381a1466a77a73b1e342446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 29/34] fix: unsqueeze Sum operands of lower rank

---
 crates/burn-onnx/src/burn/node/sum.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/sum.rs b/crates/burn-onnx/src/burn/node/sum.rs
index f98d579..7f76cfb 100644
--- a/crates/burn-onnx/src/burn/node/sum.rs
+++ b/crates/burn-onnx/src/burn/node/sum.rs
@@ -10,7 +10,16 @@ impl NodeCodegen for onnx_ir::node::sum::SumNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let inputs = self.inputs.iter().map(|arg| scope.arg(arg));
+        // Operands of lower rank are broadcast over the leading dimensions of the output
+        let rank = self.outputs.first().unwrap().ty.rank();
+        let inputs = self.inputs.iter().map(|arg| {
+            let input = scope.arg(arg);
+            if arg.ty.is_tensor() && arg.ty.rank() < rank {
+                quote! { #input.unsqueeze::<#rank>() }
+            } else {
+                input
+            }
+        });
 
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-- 
2.43.0


From 56d7a49351e9b41a1a43af8522679a754fabf6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 30/34] fix: unsqueeze Mean operands of lower rank

---
 crates/burn-onnx/src/burn/node/mean.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/mean.rs b/crates/burn-onnx/src/burn/node/mean.rs
index 67bd836..08415a5 100644
--- a/crates/burn-onnx/src/burn/node/mean.rs
+++ b/crates/burn-onnx/src/burn/node/mean.rs
@@ -10,7 +10,16 @@ impl NodeCodegen for onnx_ir::node::mean::MeanNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let inputs = self.inputs.iter().map(|arg| scope.arg(arg));
+        // Operands of lower rank are broadcast over the leading dimensions of the output
+        let rank = self.outputs.first().unwrap().ty.rank();
+        let inputs = self.inputs.iter().map(|arg| {
+            let input = scope.arg(arg);
+            if arg.ty.is_tensor() && arg.ty.rank() < rank {
+                quote! { #input.unsqueeze::<#rank>() }
+            } else {
+                input
+            }
+        });
 
         let output = arg_to_ident(self.outputs.first().unwrap());
         let inputs_len = self.inputs.len() as u32;
-- 
2.43.0


From cca9b4a39860ab1158e8925befcd98f9aed21953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 31/34] fix: keep fractional on and off values of OneHot

---
 crates/burn-onnx/src/burn/node/one_hot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/one_hot.rs b/crates/burn-onnx/src/burn/node/one_hot.rs
index e9ec4db..5e3dd2f 100644
--- a/crates/burn-onnx/src/burn/node/one_hot.rs
+++ b/crates/burn-onnx/src/burn/node/one_hot.rs
@@ -25,11 +25,12 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
         };
 
         // Extract values from config.values
-        let (on_value, off_value) = match &self.config.values {
+        let (on_value, off_value, values_are_whole) = match &self.config.values {
             onnx_ir::one_hot::OneHotValuesInput::Static(v) => {
                 let off = v[0];
                 let on = v[1];
-                (quote! { #on }, quote! { #off })
+                let whole = on.fract() == 0.0 && off.fract() == 0.0;
+                (quote! { #on }, quote! { #off }, whole)
             }
             onnx_ir::one_hot::OneHotValuesInput::Runtime(_) => {
                 panic!("OneHot with runtime values is not supported in burn-onnx")
@@ -69,6 +70,12 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
                     }
                 }
             }
+            // An integer tensor cannot hold values that are not whole numbers
+            (TensorKind::Int, TensorKind::Float) if !values_are_whole => {
+                quote! {
+                    let #output = #input.float().one_hot_fill(#num_classes, #on_value, #off_value, #axis).cast(#output_dtype_tokens);
+                }
+            }
             (TensorKind::Int, TensorKind::Float) => {
                 quote! {
                     let #output = #input.one_hot_fill(#num_classes, #on_value, #off_value, #axis).float().cast(#output_dtype_tokens);
-- 
2.43.0


From ab6a7cf9f479c24f9ec7901c90b7e435bc60aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 32/34] fix: refuse AveragePool dilations that Burn cannot
 express

---
 crates/burn-onnx/src/burn/node/avg_pool1d.rs | 6 ++++++
 crates/burn-onnx/src/burn/node/avg_pool2d.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/avg_pool1d.rs b/crates/burn-onnx/src/burn/node/avg_pool1d.rs
index d1c2ba0..6631f1a 100644
--- a/crates/burn-onnx/src/burn/node/avg_pool1d.rs
+++ b/crates/burn-onnx/src/burn/node/avg_pool1d.rs
@@ -15,6 +15,12 @@ impl NodeCodegen for onnx_ir::node::avg_pool1d::AveragePool1dNode {
         let strides = self.config.stride.to_tokens();
         let count_include_pad = self.config.count_include_pad;
         let ceil_mode = self.config.ceil_mode;
+        if self.config.dilation != 1 {
+            panic!(
+                "AveragePool: dilations are not supported by Burn, got {:?}",
+                self.config.dilation
+            );
+        }
 
         let shape = self.inputs[0].ty.static_shape_known();
         let input_spatial = shape.as_deref().map(|s| &s[2..]);
diff --git a/crates/burn-onnx/src/burn/node/avg_pool2d.rs b/crates/burn-onnx/src/burn/node/avg_pool2d.rs
index b1c48ac..ff41e99 100644
--- a/crates/burn-onnx/src/burn/node/avg_pool2d.rs
+++ b/crates/burn-onnx/src/burn/node/avg_pool2d.rs
@@ -15,6 +15,12 @@ impl NodeCodegen for onnx_ir::node::avg_pool2d::AveragePool2dNode {
         let strides = self.config.strides.to_tokens();
         let count_include_pad = self.config.count_include_pad;
         let ceil_mode = self.config.ceil_mode;
+        if self.config.dilation != [1, 1] {
+            panic!(
+                "AveragePool: dilations are not supported by Burn, got {:?}",
+                self.config.dilation
+            );
+        }
 
         let shape = self.inputs[0].ty.static_shape_known();
         let input_spatial = shape.as_deref().map(|s| &s[2..]);
-- 
2.43.0


From c64902ef99c824bc4589998d116a53e5c3611b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 33/34] fix: generate descending ranges

---
 crates/burn-onnx/src/burn/node/range.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/range.rs b/crates/burn-onnx/src/burn/node/range.rs
index cfead8c..dc3b3e0 100644
--- a/crates/burn-onnx/src/burn/node/range.rs
+++ b/crates/burn-onnx/src/burn/node/range.rs
@@ -45,8 +45,24 @@ impl NodeCodegen for onnx_ir::node::range::RangeNode {
         let limit = range_param_tokens(&self.config.limit, &self.inputs, scope);
         let delta = range_param_tokens(&self.config.delta, &self.inputs, scope);
 
-        quote! {
-            let #output = Tensor::arange_step(#start..#limit, #delta as usize, &*self.device);
+        match &self.config.delta {
+            onnx_ir::node::range::RangeInput::Static(delta_value) if *delta_value > 0 => quote! {
+                let #output = Tensor::arange_step(#start..#limit, #delta as usize, &*self.device);
+            },
+            // Burn's arange_step only counts up: a descending range is its start minus the
+            // distances from it
+            _ => quote! {
+                let #output = {
+                    let (start, limit, delta) = (#start, #limit, #delta);
+                    if delta < 0 {
+                        Tensor::arange_step(0..(start - limit).max(0), (-delta) as usize, &*self.device)
+                            .neg()
+                            .add_scalar(start)
+                    } else {
+                        Tensor::arange_step(start..limit, delta as usize, &*self.device)
+                    }
+                };
+            },
         }
     }
 }
-- 
2.43.0


From 77aeebce9c66daa6109d64ba2e8a3253fd1aabb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 34/34] hook: generate code for an imported graph under cfg
 burn_onnx_verif

---
 crates/burn-onnx/src/model_gen.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index ef3c6c1..84b49e5 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -363,6 +363,14 @@ impl ModelGen {
     }
 }
 
+/// Code generation for an already imported graph, for the verification harness
+/// (only with `--cfg burn_onnx_verif`).
+#[allow(unexpected_cfgs, missing_docs)]
+#[cfg(burn_onnx_verif)]
+pub fn generate_tokens(graph: OnnxGraph, out_file: &Path) -> proc_macro2::TokenStream {
+    ModelGen::new().generate_burn_graph(ParsedOnnxGraph(graph), out_file, None)
+}
+
 #[derive(Debug)]
 struct ParsedOnnxGraph(OnnxGraph);
 
-- 
2.43.0

