From c76d59604ef70debc0fe543c406ef254f5374471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 01/32] fix: avoid signed overflow in bitpack_matrix when 31
 columns remain

With a zero point above the representable range and a column count that is
31 modulo 32, (1 << 31) - 1 overflows a signed 32-bit integer.
---
 larq_compute_engine/core/bitpacking/bitpack.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/core/bitpacking/bitpack.h b/larq_compute_engine/core/bitpacking/bitpack.h
index acdaa1d..ca43809 100644
--- a/larq_compute_engine/core/bitpacking/bitpack.h
+++ b/larq_compute_engine/core/bitpacking/bitpack.h
@@ -275,8 +275,10 @@ inline void bitpack_matrix(const TIn* input, const std::size_t input_num_rows,
       // With padding, all elements of each output column will be binary ones,
       // except the final element, which will have a prefix of ones with a
       // suffix of zeroes.
-      const TBitpacked value_with_padding =
-          (1 << (input_num_cols % bitpacking_bitwidth)) - 1;
+      // This is computed as an unsigned value, because there can be up to 31
+      // ones and `(1 << 31) - 1` overflows a signed 32-bit integer.
+      const TBitpacked value_with_padding = static_cast<TBitpacked>(
+          (std::uint32_t(1) << (input_num_cols % bitpacking_bitwidth)) - 1);
       int rows = input_num_rows;
       while (rows--) {
         std::fill(output, output + output_num_cols - 1, ~TBitpacked(0));
-- 
2.43.0


From 6222f6504f4f9fc3661d75c1453320244bc1943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 02/32] fix: only compute the zero-padding correction for float
 output

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..f67b2e0 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -334,8 +334,10 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
-  if (bconv2d_params->padding_type == kTfLitePaddingSame &&
+  // For 'same-zero' padding, compute the padding-correction. This only exists
+  // for float output; other output types do not have to provide a multiplier.
+  if (output->type == kTfLiteFloat32 &&
+      bconv2d_params->padding_type == kTfLitePaddingSame &&
       bconv2d_params->pad_value == 0) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
-- 
2.43.0


From aabb779b9b7c945385e9c95eaee91c9ca4e45939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 03/32] fix: rebuild the indirect BGEMM kernel after Prepare

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index f67b2e0..e01ecde 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -296,6 +296,10 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
 
+  // The indirect BGEMM kernel depends on the tensor shapes and holds pointers
+  // into the input tensor, so it has to be rebuilt too.
+  op_data->indirect_bgemm_kernel.reset();
+
   return kTfLiteOk;
 }
 
-- 
2.43.0


From f907964fee56dbbb35c7b259eb0594450feb753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 04/32] fix: check the packed input and filter depth in bconv2d
 Prepare

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index e01ecde..97d4a8b 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -161,6 +161,9 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
                          output->type == kTfLiteFloat32,
                      "Supported output types are int8, int32, and float32.");
 
+  TF_LITE_ENSURE_EQ(context, SizeOfDimension(input, 3),
+                    GetBitpackedSize(bconv2d_params->channels_in));
+
   // Read the filter dimensions
   bconv2d_params->channels_out = SizeOfDimension(filter, 0);
   bconv2d_params->filter_height = SizeOfDimension(filter, 1);
@@ -173,6 +176,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
     TF_LITE_ENSURE_MSG(
         context, kernel_type != KernelType::kOptimizedBGEMM,
         "Grouped binary convolutions are not supported with this kernel.");
+    TF_LITE_ENSURE(context, SizeOfDimension(filter, 3) > 0);
     TF_LITE_ENSURE_EQ(context,
                       GetBitpackedSize(bconv2d_params->channels_in) %
                           SizeOfDimension(filter, 3),
-- 
2.43.0


From 201426ac66cab7cbbdb015504d1e5c10265e5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 05/32] fix: do not read thresholds past the last output
 channel

---
 .../core/indirect_bgemm/kernel_4x2_portable.h | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/kernel_4x2_portable.h b/larq_compute_engine/core/indirect_bgemm/kernel_4x2_portable.h
index 56cca5d..1ed47e1 100644
--- a/larq_compute_engine/core/indirect_bgemm/kernel_4x2_portable.h
+++ b/larq_compute_engine/core/indirect_bgemm/kernel_4x2_portable.h
@@ -1,6 +1,7 @@
 #ifndef COMPUTE_ENGINE_INDIRECT_BGEMM_KERNEL_4x2_PORTABLE_H_
 #define COMPUTE_ENGINE_INDIRECT_BGEMM_KERNEL_4x2_PORTABLE_H_
 
+#include <algorithm>
 #include <cstdint>
 #include <type_traits>
 
@@ -258,28 +259,35 @@ class Kernel4x2Portable<TBitpacked> : public Kernel {
         // bitwidth being 32.
         static_assert(bitpacking_bitwidth == 32, "");
 
+        // The block can extend past the last output channel. The surplus bits
+        // are masked out below, but there are no thresholds for them to read.
+        const std::int32_t c_out_last = this->output_channels - 1;
+        const std::int32_t c_out_1 = std::min(c_out_index + 1, c_out_last);
+        const std::int32_t c_out_2 = std::min(c_out_index + 2, c_out_last);
+        const std::int32_t c_out_3 = std::min(c_out_index + 3, c_out_last);
+
         const int base_output_index = c_out_index % 16;
         output_col_0 |= TBitpacked(output_transform.Run(acc_00, c_out_index))
                         << base_output_index;
         output_col_0 |=
-            TBitpacked(output_transform.Run(acc_10, c_out_index + 1))
+            TBitpacked(output_transform.Run(acc_10, c_out_1))
             << (base_output_index + 1);
         output_col_0 |=
-            TBitpacked(output_transform.Run(acc_20, c_out_index + 2))
+            TBitpacked(output_transform.Run(acc_20, c_out_2))
             << (base_output_index + 2);
         output_col_0 |=
-            TBitpacked(output_transform.Run(acc_30, c_out_index + 3))
+            TBitpacked(output_transform.Run(acc_30, c_out_3))
             << (base_output_index + 3);
         output_col_1 |= TBitpacked(output_transform.Run(acc_01, c_out_index))
                         << base_output_index;
         output_col_1 |=
-            TBitpacked(output_transform.Run(acc_11, c_out_index + 1))
+            TBitpacked(output_transform.Run(acc_11, c_out_1))
             << (base_output_index + 1);
         output_col_1 |=
-            TBitpacked(output_transform.Run(acc_21, c_out_index + 2))
+            TBitpacked(output_transform.Run(acc_21, c_out_2))
             << (base_output_index + 2);
         output_col_1 |=
-            TBitpacked(output_transform.Run(acc_31, c_out_index + 3))
+            TBitpacked(output_transform.Run(acc_31, c_out_3))
             << (base_output_index + 3);
 
         indirection_ptr -= 2 * filter_size;
-- 
2.43.0


From 037cc14ce30867db09c9249d788a3446a6afb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 06/32] fix: reject scalars in the quantize and dequantize
 operators

---
 larq_compute_engine/tflite/kernels/quantization.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index 68b826d..b5ca96b 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -29,6 +29,7 @@ TfLiteStatus QuantizePrepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
 
   int num_dims = NumDimensions(input);
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   TfLiteIntArray* output_dims = TfLiteIntArrayCopy(input->dims);
@@ -54,6 +55,7 @@ TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
 
   int num_dims = NumDimensions(input);
 
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   // The first n-1 dimensions are equal
-- 
2.43.0


From bb5f7f65d5ca605c549c641b3911e6c0b2effdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 07/32] fix: zero-padding correction for images smaller than
 the filter

---
 .../core/bconv2d/zero_padding_correction.h    | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..382b58f 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -83,8 +83,9 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
   //
   // So we could save this value for every tuple.
   // However (T) and (B) cannot be both true at the same time,
-  // and neither can (L) and (R) because we will assume that the (effective)
-  // filter size is always smaller than the image.
+  // and neither can (L) and (R) as long as the (effective) filter size is not
+  // larger than the image. (`ApplyCorrection` combines cached values for images
+  // that are smaller than the filter.)
   //
   // We have the following cases:
   //
@@ -259,7 +260,33 @@ void ApplyCorrection(const int input_batches, const int input_height,
           cache_X = (overflow_right >= 0 ? overflow_right : 0);
           cache_Y = overflow_bot;
         } else {
-          // This cannot happen.
+          // The kernel sticks out at opposite sides, which means that the
+          // effective filter is larger than the image. None of the cached
+          // values covers this on its own, but the sum over the union of all
+          // four sides follows from the sums over each corner and each side
+          // (opposite sides have no pixels in common).
+          const int top = overflow_top >= 0 ? overflow_top : 0;
+          const int bot = overflow_bot >= 0 ? overflow_bot : 0;
+          const int left = overflow_left >= 0 ? overflow_left : 0;
+          const int right = overflow_right >= 0 ? overflow_right : 0;
+          const int y_size = effective_filter_width * filter_count;
+          const int case_size = effective_filter_height * y_size;
+          const int idx =
+              ((batch * output_height + out_y) * output_width + out_x) *
+              filter_count;
+          for (int out_c = 0; out_c < filter_count; ++out_c) {
+            const float* cache = &padding_cache[out_c];
+            const float corners =
+                cache[top * y_size + left * filter_count] +
+                cache[case_size + top * y_size + right * filter_count] +
+                cache[2 * case_size + bot * y_size + left * filter_count] +
+                cache[3 * case_size + bot * y_size + right * filter_count];
+            const float sides =
+                cache[top * y_size] + cache[left * filter_count] +
+                cache[3 * case_size + bot * y_size] +
+                cache[3 * case_size + right * filter_count];
+            output_data[idx + out_c] += corners - sides;
+          }
           continue;
         }
 
-- 
2.43.0


From d5fbda8f64c983de88907b6cdba86612d81e18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 08/32] fix: reject non-positive strides, dilations and sizes
 and unknown padding in bconv2d Prepare

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 97d4a8b..99a1df6 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -144,6 +144,14 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
 
   TF_LITE_ENSURE_EQ(context, node->inputs->size, 5);
 
+  TF_LITE_ENSURE(context, bconv2d_params->stride_height > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->stride_width > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->dilation_height_factor > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->dilation_width_factor > 0);
+  TF_LITE_ENSURE(context,
+                 bconv2d_params->padding_type != kTfLitePaddingUnknown);
+  TF_LITE_ENSURE(context, bconv2d_params->channels_in > 0);
+
   const auto* input = GetInput(context, node, 0);
   const auto* filter = GetInput(context, node, 1);
   const auto* post_activation_multiplier = GetInput(context, node, 2);
@@ -168,6 +176,8 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   bconv2d_params->channels_out = SizeOfDimension(filter, 0);
   bconv2d_params->filter_height = SizeOfDimension(filter, 1);
   bconv2d_params->filter_width = SizeOfDimension(filter, 2);
+  TF_LITE_ENSURE(context, bconv2d_params->filter_height > 0);
+  TF_LITE_ENSURE(context, bconv2d_params->filter_width > 0);
 
   if (SizeOfDimension(filter, 3) ==
       GetBitpackedSize(bconv2d_params->channels_in)) {
-- 
2.43.0


From fd317c334f3e1aef14442699c0ef1f3e4f946094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 09/32] fix: reject unsupported fused activations in bconv2d
 Init

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 99a1df6..26d825a 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -120,8 +120,15 @@ void* Init(TfLiteContext* context, const char* buffer, std::size_t length) {
   // attribute added to the op in the converter.
   bconv2d_params->channels_in = m["channels_in"].AsInt32();
 
-  op_data->fused_activation_function = ConvertActivation(
-      (ActivationFunctionType)m["fused_activation_function"].AsInt32());
+  // Anything else would silently be evaluated without an activation function.
+  const auto activation =
+      (ActivationFunctionType)m["fused_activation_function"].AsInt32();
+  LCE_ENSURE_PARAM(op_data, context,
+                   activation == ActivationFunctionType_NONE ||
+                       activation == ActivationFunctionType_RELU ||
+                       activation == ActivationFunctionType_RELU_N1_TO_1 ||
+                       activation == ActivationFunctionType_RELU6);
+  op_data->fused_activation_function = ConvertActivation(activation);
 
   // It's not possible to return an error code in this method. If we get to here
   // without returning early, initialisation has succeeded without error, and so
-- 
2.43.0


From 7c8c5c74ca1268b58f06a0f1940f73c5780d0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 10/32] fix: bound 16-bit accumulators by filter size, not by
 input size, when selecting an indirect kernel

---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..3d42dab 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,12 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  // An accumulator counts differing bits over all filter positions, including
+  // those that fall into the padding, and the input channels of one group.
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width * bitpacked_input_shape.Dims(3) /
+      bconv2d_params->groups;
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0


From e7a28ca69c9f9f3fa597405e8b37fcc3aebbb2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 11/32] fix: do not read 64-bit padding constants as 32-bit
 integers

---
 larq_compute_engine/mlir/transforms/padding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 69a8c75..2c92e94 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -17,6 +17,8 @@ inline DenseElementsAttr GetValidPadAttr(Attribute paddings_attr) {
   if (pad_type.getRank() != 2) return nullptr;
   auto pad_shape = pad_type.getShape();
   if (pad_shape[0] != 4 || pad_shape[1] != 2) return nullptr;
+  // The values are read as 32-bit integers below
+  if (!pad_type.getElementType().isInteger(32)) return nullptr;
   return paddings;
 }
 
-- 
2.43.0


From ec8f28a35d57a2c2bd9d1bc9efae10383a57f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 12/32] fix: do not treat padding of dynamic dimensions as
 'same' padding

---
 larq_compute_engine/mlir/transforms/padding.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 2c92e94..c36cf14 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -33,8 +33,13 @@ inline ShapeRefType GetShape4D(Value tensor) {
 }
 
 inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
-                            int input_size, int output_size, int stride) {
+                            int64_t input_size, int64_t output_size,
+                            int stride) {
   using compute_engine::core::CeilDiv;
+  // Nothing is known about dynamic dimensions
+  if (ShapedType::isDynamic(input_size) || ShapedType::isDynamic(output_size)) {
+    return false;
+  }
   int pad_before = paddings.getValues<int>()[{dimension, 0}];
   int pad_after = paddings.getValues<int>()[{dimension, 1}];
   const int pad_total = pad_before + pad_after;
-- 
2.43.0


From 3d893beffb50cca22f4084abee647ac3f5056245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:15 +0000
Subject: [PATCH 13/32] fix: fuse strided padding into a convolution only where
 'same' padding starts at the same place

---
 .../mlir/transforms/fuse_padding.cc           | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..2ac4b39 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -26,9 +26,29 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
 
-  // Check that there is no padding in the batch and channel dimensions
-  return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+  if (!IsSamePadding1D(paddings, dimension, input_shape[dimension],
+                       output_shape[dimension], stride)) {
+    return false;
+  }
+  if (stride == 1) return true;
+
+  // With larger strides a 'valid' convolution may leave padding at the end
+  // unused, so the amount of padding does not determine where 'same' padding
+  // starts: that depends on the filter.
+  Operation* conv = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv->getOperand(1));
+  if (filter_shape.empty() || ShapedType::isDynamic(filter_shape[dimension])) {
+    return false;
+  }
+  auto dilation = conv->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (!dilation) return false;
+  const int64_t same_padding =
+      (output_shape[dimension] - 1) * stride +
+      (filter_shape[dimension] - 1) * dilation.getInt() + 1 -
+      input_shape[dimension];
+  const int pad_before = paddings.getValues<int>()[{dimension, 0}];
+  return pad_before == std::max<int64_t>(same_padding, 0) / 2;
 }
 
 namespace fuse_padding {
-- 
2.43.0


From a4f7039cd4c49ec7f17ee12f16956f9c128054eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 14/32] fix: fold a constant int8 dequantization with the
 single-precision scale the runtime uses

---
 larq_compute_engine/mlir/transforms/bitpack.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..6a5a608 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -93,11 +93,12 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
     return DenseElementsAttr::get<float>(result_type, new_values);
   } else {
     auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
-    const double scale = quant_type.getScale();
+    // The runtime stores and divides by the scale in single precision
+    const float scale = quant_type.getScale();
     const int zero_point = quant_type.getZeroPoint();
 
-    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0 / scale));
-    std::int8_t one_bit_result = saturate(zero_point + round(-1.0 / scale));
+    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0f / scale));
+    std::int8_t one_bit_result = saturate(zero_point + round(-1.0f / scale));
 
     std::vector<std::int8_t> new_values(num_rows * unpacked_channels);
 
-- 
2.43.0


From 04114613e093ed3a89738c8747916d6fbe45b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 15/32] fix: do not fold the (de)quantization of constants that
 are not four-dimensional

---
 larq_compute_engine/mlir/transforms/bitpack.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index 6a5a608..9219212 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -23,6 +23,7 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   auto shaped_type = x.cast<TypedAttr>().getType().cast<ShapedType>();
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
+  if (shape.size() != 4) return nullptr;
 
   int num_rows = shape[0] * shape[1] * shape[2];
   int unpacked_channels = shape[3];
@@ -64,6 +65,7 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
       x.cast<TypedAttr>().getType().cast<ShapedType>().getShape();
   auto output_shape = result_type.getShape();
   auto output_type = result_type.getElementType();
+  if (input_shape.size() != 4 || output_shape.size() != 4) return nullptr;
 
   int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
   int unpacked_channels = output_shape[3];
-- 
2.43.0


From d09841d6537623ccf1a2ea337161918e74c2db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 16/32] fix: fold the dequantization of a constant only to
 float and int8

---
 larq_compute_engine/mlir/transforms/bitpack.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index 9219212..6dbf03a 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -94,7 +94,12 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
 
     return DenseElementsAttr::get<float>(result_type, new_values);
   } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
+    auto quant_type =
+        output_type.dyn_cast<mlir::quant::UniformQuantizedType>();
+    if (!quant_type || !quant_type.getStorageType().isInteger(8)) {
+      // constant-fold unpacking to other types is currently not supported
+      return nullptr;
+    }
     // The runtime stores and divides by the scale in single precision
     const float scale = quant_type.getScale();
     const int zero_point = quant_type.getZeroPoint();
-- 
2.43.0


From 73dc2cc71e4654cff8f61b5cfe846a2da0179f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 17/32] fix: compute bit-packed output thresholds exactly

Single-precision arithmetic in the threshold computation put the threshold
one off when the output crosses zero next to an accumulator value (for
example a = 10, multiplier 1 and bias -1e-9), when the receptive field has
more than 2^24 elements, and when a bound of the clamping range is close to
the zero crossing. Compute in double precision, where the products are
exact, and correct the rounding of the quotient.
---
 .../mlir/transforms/optimize.cc               | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..2eeab52 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -126,8 +126,8 @@ struct OptimizeLCE
  * `optimize_patterns_common.td`.
  */
 void ComputeWriteBitpackedOutputThresholds(
-    Builder& builder, const float backtransform_add, const float clamp_min,
-    const float clamp_max, const DenseElementsAttr& multipliers,
+    Builder& builder, const double backtransform_add, const double clamp_min,
+    const double clamp_max, const DenseElementsAttr& multipliers,
     const DenseElementsAttr& biases, std::vector<Attribute>& thresholds) {
   assert(thresholds.size() == 0);
 
@@ -136,11 +136,13 @@ void ComputeWriteBitpackedOutputThresholds(
   constexpr std::int32_t neg_inf = std::numeric_limits<std::int32_t>::min();
   constexpr std::int32_t pos_inf = std::numeric_limits<std::int32_t>::max();
 
-  // Iterate through the multiplier/bias pairs and compute the thresholds.
+  // Iterate through the multiplier/bias pairs and compute the thresholds. In
+  // double precision the product of an integer below 2^29 and a (single
+  // precision) multiplier is exact, and so is the sign after adding the bias.
   for (auto mult_bias_pair :
        llvm::zip(multipliers.getValues<float>(), biases.getValues<float>())) {
-    float mult = std::get<0>(mult_bias_pair);
-    float bias = std::get<1>(mult_bias_pair);
+    double mult = std::get<0>(mult_bias_pair);
+    double bias = std::get<1>(mult_bias_pair);
 
     // Check for the 𝛄 = 0 special case.
     if (mult == 0.0f) {
@@ -154,7 +156,7 @@ void ComputeWriteBitpackedOutputThresholds(
       continue;
     }
 
-    float effective_clamp_min, effective_clamp_max;
+    double effective_clamp_min, effective_clamp_max;
     if (mult > 0.0f) {
       effective_clamp_min = clamp_min;
       effective_clamp_max = clamp_max;
@@ -163,9 +165,9 @@ void ComputeWriteBitpackedOutputThresholds(
       effective_clamp_max = -1 * clamp_min;
     }
 
-    const float output_range_start =
+    const double output_range_start =
         (effective_clamp_min * std::abs(mult) + bias);
-    const float output_range_end =
+    const double output_range_end =
         (effective_clamp_max * std::abs(mult) + bias);
 
     // Check for the clamping range not crossing zero special case.
@@ -180,10 +182,18 @@ void ComputeWriteBitpackedOutputThresholds(
       continue;
     }
 
-    // The general case.
-    thresholds.push_back(IntegerAttr::get(
-        element_type,
-        std::floor(0.5 * (bias / std::abs(mult) + backtransform_add))));
+    // The general case. The quotient is rounded, so make sure that the threshold
+    // is the largest accumulator for which the output is not negative.
+    std::int32_t threshold =
+        std::floor(0.5 * (bias / std::abs(mult) + backtransform_add));
+    while ((backtransform_add - 2.0 * threshold) * std::abs(mult) + bias < 0) {
+      threshold--;
+    }
+    while ((backtransform_add - 2.0 * (threshold + 1)) * std::abs(mult) + bias >=
+           0) {
+      threshold++;
+    }
+    thresholds.push_back(IntegerAttr::get(element_type, threshold));
   }
 }
 
@@ -234,8 +244,7 @@ DenseElementsAttr GetBitpackedOutputThresholds(
 
   std::vector<Attribute> thresholds;
   ComputeWriteBitpackedOutputThresholds(
-      builder, static_cast<float>(backtransform_add),
-      static_cast<float>(clamp_min), static_cast<float>(clamp_max),
+      builder, backtransform_add, clamp_min, clamp_max,
       post_activation_multiplier, post_activation_bias, thresholds);
 
   const RankedTensorType type = RankedTensorType::get(
-- 
2.43.0


From 30eeb63a3ed644daaaad976008355b2644dc417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 18/32] fix: do not read the float values of a constant that is
 not float

IsConstantValue asked a dense constant of any element type for its float
values, which fails an assertion (and reads the wrong type when assertions
are off) for integer constants.
---
 larq_compute_engine/mlir/transforms/common.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index d192d9c..aecfe9d 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -8,6 +8,7 @@ namespace TFL {
 
 inline bool IsConstantValue(Attribute values, float expected_value) {
   if (!values.isa<DenseElementsAttr>()) return false;
+  if (!values.cast<DenseElementsAttr>().getElementType().isF32()) return false;
 
   for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
     if (value != expected_value) return false;
-- 
2.43.0


From b28a52a166d7968f92625f15dd877d83a6aceb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 19/32] fix: do not take a filter with NaN weights for a binary
 filter

The comparison with NaN is false whichever way round, so a filter with a NaN
weight passed the test and was replaced by a binary one.
---
 larq_compute_engine/mlir/transforms/prepare_tf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 111fc6b..d6cc339 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -81,7 +81,8 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
           if (std::abs(scale) <= std::numeric_limits<float>::epsilon())
             return false;
           auto value = filter.getValues<float>()[{h, w, i, o}];
-          if (std::abs(std::abs(value / scale) - 1.0f) > 0.005f) return false;
+          if (!(std::abs(std::abs(value / scale) - 1.0f) <= 0.005f))
+            return false;  // also if a weight is not a number
         }
       }
     }
-- 
2.43.0


From cf261f179ca2db24e546c62334eec815631a99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 20/32] fix: report an input that is no array instead of
 reading through a null pointer

---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..1ad584d 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,9 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    if (!nparray) {
+      PY_ERROR("Input " << i << " cannot be converted to a Numpy array.");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From 2c4e326d6aaafd55e17a51b9bc7731ec30d3d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 21/32] fix: refuse inputs with differing numbers of samples
 instead of dropping samples

---
 larq_compute_engine/tflite/python/interpreter_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_base.py b/larq_compute_engine/tflite/python/interpreter_base.py
index b46601a..7e81e2b 100644
--- a/larq_compute_engine/tflite/python/interpreter_base.py
+++ b/larq_compute_engine/tflite/python/interpreter_base.py
@@ -12,6 +12,11 @@ def data_generator(x: Union[Data, Iterator[Data]]) -> Iterator[list[np.ndarray]]
         for inputs in x:
             yield [np.expand_dims(inputs, axis=0)]
     elif isinstance(x, list):
+        if len({len(inp) for inp in x}) > 1:
+            raise ValueError(
+                "Expected the same number of samples for each input. Received: "
+                f"{[len(inp) for inp in x]}"
+            )
         for inputs in zip(*x):
             yield [np.expand_dims(inp, axis=0) for inp in inputs]
     elif hasattr(x, "__next__") and hasattr(x, "__iter__"):
-- 
2.43.0


From 86a3f49df2716e9830ed5199817d22ea646aa2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 22/32] fix: refuse to change a model input or output that is
 used elsewhere

---
 larq_compute_engine/mlir/python/util.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..0424de1 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,16 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _check_tensors_unused(tensor_idxs, remove_tensors_idxs):
+    """Check that none of the tensors that are to be removed is in use."""
+    for ti in tensor_idxs:
+        if ti in remove_tensors_idxs:
+            raise ValueError(
+                "The model input or output type cannot be modified, because tensor "
+                "{} is used elsewhere in the model.".format(ti)
+            )
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -72,6 +82,13 @@ def _remove_tensors_from_model(
     tensors = subgraph.tensors
     operators = subgraph.operators
 
+    # A tensor that is still in use cannot be removed
+    _check_tensors_unused(subgraph.inputs, remove_tensors_idxs)
+    _check_tensors_unused(subgraph.outputs, remove_tensors_idxs)
+    for op in operators:
+        _check_tensors_unused(op.inputs, remove_tensors_idxs)
+        _check_tensors_unused(op.outputs, remove_tensors_idxs)
+
     # An optimized check to validate if "remove_tensors_idxs" (eg: [4,5,6]) is an
     # exact subset, with ordering, of "tensors" indices (eg: [0,1,2,3,4,5,6]).
     if min(remove_tensors_idxs) == len(tensors) - len(remove_tensors_idxs):
@@ -193,6 +210,11 @@ def modify_integer_quantized_model_io_type(
     if inference_input_type == tf.int8:
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
+            if op.inputs[0] in remove_tensors_idxs:
+                raise ValueError(
+                    "The model input type cannot be modified, because input tensor "
+                    "{} is quantized more than once.".format(op.inputs[0])
+                )
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
             if model.signatureDefs:
                 signature_def = model.signatureDefs[0]
-- 
2.43.0


From 10f785af82f51afeb592a08764f865d8164420b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 23/32] fix: update every signature of the subgraph whose
 inputs or outputs change

---
 larq_compute_engine/mlir/python/util.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 0424de1..1d229f7 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -54,6 +54,15 @@ def _convert_model_from_object_to_bytearray(model_object):
     return bytes(builder.Output())
 
 
+def _get_signature_defs(model, subgraph):
+    """Returns the SignatureDefs that describe the subgraph."""
+    signature_defs = []
+    for signature_def in model.signatureDefs or []:
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph:
+            signature_defs.append(signature_def)
+    return signature_defs
+
+
 def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
     """Update the tensors in the SignatureDef's TensorMaps."""
     for i in range(len(tensor_maps)):
@@ -113,8 +122,7 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -216,8 +224,7 @@ def modify_integer_quantized_model_io_type(
                     "{} is quantized more than once.".format(op.inputs[0])
                 )
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -229,8 +236,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -318,8 +324,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -375,8 +380,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From e475cd40fbae2968e86496f15fc8d640fd6af122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 24/32] fix: renumber the intermediate tensors of an operator
 when tensors are removed

---
 larq_compute_engine/mlir/python/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 1d229f7..e0ba708 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -97,6 +97,8 @@ def _remove_tensors_from_model(
     for op in operators:
         _check_tensors_unused(op.inputs, remove_tensors_idxs)
         _check_tensors_unused(op.outputs, remove_tensors_idxs)
+        if op.intermediates is not None:
+            _check_tensors_unused(op.intermediates, remove_tensors_idxs)
 
     # An optimized check to validate if "remove_tensors_idxs" (eg: [4,5,6]) is an
     # exact subset, with ordering, of "tensors" indices (eg: [0,1,2,3,4,5,6]).
@@ -122,6 +124,8 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
+            if op.intermediates is not None:
+                update_tensors(op.intermediates)
         for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
-- 
2.43.0


From 21ee5b47e640d67124cd9f9d6555a9d050a3a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 25/32] fix: find the quantize and dequantize operators under
 every operator code

---
 larq_compute_engine/mlir/python/util.py | 35 +++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index e0ba708..2cc0ae4 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -141,15 +141,14 @@ def _find_int8_quantized_inputs_outputs(model):
     operators = main_subgraph.operators
 
     # Ensure model has atleast one quantize and dequantize operator
-    quant_opcode_idx, dequant_opcode_idx = None, None
+    # (there can be several operator codes for different versions of an operator)
+    quant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.builtinCode == tflite_schema.BuiltinOperator.QUANTIZE:
-            quant_opcode_idx = idx
+            quant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if quant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if quant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not quant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model is not integer quantized as it does not "
             "contain quantize/dequantize operators."
@@ -159,7 +158,10 @@ def _find_int8_quantized_inputs_outputs(model):
     input_quant_ops, output_dequant_ops = [], []
     for op in operators:
         # Find input quantize operator
-        if op.opcodeIndex == quant_opcode_idx and op.inputs[0] in main_subgraph.inputs:
+        if (
+            op.opcodeIndex in quant_opcode_idxs
+            and op.inputs[0] in main_subgraph.inputs
+        ):
             pos, float_tensor, int_tensor = (
                 "input",
                 tensors[op.inputs[0]],
@@ -168,7 +170,7 @@ def _find_int8_quantized_inputs_outputs(model):
             input_quant_ops.append(op)
         # Find output dequantize operator
         elif (
-            op.opcodeIndex == dequant_opcode_idx
+            op.opcodeIndex in dequant_opcode_idxs
             and op.outputs[0] in main_subgraph.outputs
         ):
             pos, float_tensor, int_tensor = (
@@ -271,21 +273,20 @@ def _strip_lcedequantize_ops_subgraph(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT
 ) -> None:
     # Ensure model has at least one LceDequantize and/or Dequantize operator
-    lce_dequant_opcode_idx, dequant_opcode_idx = None, None
+    # (there can be several operator codes for different versions of an operator)
+    lce_dequant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.customCode == b"LceDequantize":
-            lce_dequant_opcode_idx = idx
+            lce_dequant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if lce_dequant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if lce_dequant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not lce_dequant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model does not contain any LceDequantize or Dequantize operators."
         )
 
     # Ensure model outputs are dequantized and remove Dequantize ops first if any
-    if dequant_opcode_idx is not None:
+    if dequant_opcode_idxs:
         tensors = subgraph.tensors
         operators = subgraph.operators
         remove_tensors_idxs = set()
@@ -294,7 +295,7 @@ def _strip_lcedequantize_ops_subgraph(
         for op in operators:
             # Find output Dequantize operator
             if (
-                op.opcodeIndex == dequant_opcode_idx
+                op.opcodeIndex in dequant_opcode_idxs
                 and op.outputs[0] in subgraph.outputs
             ):
                 pos, float_tensor, int_tensor = (
@@ -347,7 +348,7 @@ def _strip_lcedequantize_ops_subgraph(
     for op in operators:
         # Find output LceDequantize operator
         if (
-            op.opcodeIndex == lce_dequant_opcode_idx
+            op.opcodeIndex in lce_dequant_opcode_idxs
             and op.outputs[0] in subgraph.outputs
         ):
             pos, output_tensor, input_tensor = (
-- 
2.43.0


From 18facc21e969ca5097ea62b42af8ab2c3f240691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:07 +0000
Subject: [PATCH 26/32] fix: keep an unknown channel count unknown in the type
 of LceQuantize

QuantizeOp::build passed the dynamic-dimension marker to GetBitpackedSize, which
truncates it to 0: the packed tensor was declared to have no channels.
---
 larq_compute_engine/mlir/ir/lce_ops.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/ir/lce_ops.cc b/larq_compute_engine/mlir/ir/lce_ops.cc
index 3042083..8c1227c 100644
--- a/larq_compute_engine/mlir/ir/lce_ops.cc
+++ b/larq_compute_engine/mlir/ir/lce_ops.cc
@@ -68,7 +68,11 @@ void QuantizeOp::build(OpBuilder& builder, OperationState& state, Value x) {
   const auto existing_shape = x.getType().cast<ShapedType>().getShape();
   const auto channels = existing_shape[existing_shape.size() - 1];
   std::vector<int64_t> shape = existing_shape.drop_back();
-  shape.push_back(compute_engine::core::bitpacking::GetBitpackedSize(channels));
+  // An unknown number of channels takes an unknown number of words
+  shape.push_back(
+      ShapedType::isDynamic(channels)
+          ? ShapedType::kDynamic
+          : compute_engine::core::bitpacking::GetBitpackedSize(channels));
   state.addTypes(RankedTensorType::get(shape, builder.getIntegerType(32)));
 }
 
-- 
2.43.0


From b9a8dab7d09e9aacb47e4b224b2405d358d53405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:28 +0000
Subject: [PATCH 27/32] fix: rewrite detection post-processing only for int8
 quantized scores

The conversion asserted (or read a type that is not there) when the scores
come from a tensor that is not quantized per tensor, and called unsigned or
16-bit scores int8.
---
 .../mlir/transforms/detection_postprocess.cc   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/detection_postprocess.cc b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
index 4dfe6cd..f07a08d 100644
--- a/larq_compute_engine/mlir/transforms/detection_postprocess.cc
+++ b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
@@ -99,11 +99,23 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
       }
     }
 
+    // The scores stay integers: they need to be signed 8-bit quantized
+    auto scores_input = original_scores_dequantize_op.getInput();
+    auto scores_type = scores_input.getType()
+                           .cast<ShapedType>()
+                           .getElementType()
+                           .dyn_cast<quant::UniformQuantizedType>();
+    if (!scores_type || !scores_type.isSigned() ||
+        scores_type.getStorageTypeIntegralWidth() != 8) {
+      return rewriter.notifyMatchFailure(detection_op, [&](Diagnostic& diag) {
+        diag << "expected int8 quantization for the 'scores' input";
+      });
+    }
+
     // ----------------- re-write part -----------------
 
     // Get the original inputs (before dequantization)
     auto boxes_input = original_boxes_dequantize_op.getInput();
-    auto scores_input = original_scores_dequantize_op.getInput();
     auto anchors_input = original_anchors_dequantize_op.getInput();
 
     // Set the new detection inputs
@@ -116,10 +128,6 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
     // Output type #2: [int8 quantized] detection scores
     // Output type #3: [int32] number of detections
     // All as before, except for output #2 (float -> int8 quantized)
-    auto scores_type = scores_input.getType()
-                           .cast<ShapedType>()
-                           .getElementType()
-                           .cast<quant::UniformQuantizedType>();
     const auto scores_zp = scores_type.getZeroPoint();
     const auto scores_scale = scores_type.getScale();
     output_data_types[2] = quant::UniformQuantizedType::get(
-- 
2.43.0


From e8a7d3a3920172d89492fd782fc789fbf84c6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:28 +0000
Subject: [PATCH 28/32] fix: keep the shapes of detection post-processing
 results

Results of unknown rank were declared to be scalars.
---
 .../mlir/transforms/detection_postprocess.cc                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/detection_postprocess.cc b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
index f07a08d..5e393ca 100644
--- a/larq_compute_engine/mlir/transforms/detection_postprocess.cc
+++ b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
@@ -137,9 +137,9 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
     // Set for all the outputs: data-type (as set above) and shape (as before)
     auto new_op_output_types = SmallVector<Type, 4>{};
     for (auto i = 0; i < 4; ++i) {
-      auto value = original_detection_outputs[i];
-      auto shape = value.getType().cast<ShapedType>().getShape();
-      auto new_output_type = RankedTensorType::get(shape, output_data_types[i]);
+      auto original_type =
+          original_detection_outputs[i].getType().cast<ShapedType>();
+      auto new_output_type = original_type.clone(output_data_types[i]);
       new_op_output_types.push_back(new_output_type);
     }
 
-- 
2.43.0


From 4e10bff3893a4d60ffc1ae5854a85bfccf9f1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:34 +0000
Subject: [PATCH 29/32] fix: report a conversion pass that fails without a
 diagnostic

When the early passes (or the op statistics pass) fail without emitting a
diagnostic, ConsumeStatus() is OK and the conversion returned an empty
model as if it had succeeded.
---
 larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
index be080ce..78d7a02 100644
--- a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
+++ b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
@@ -93,7 +93,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
 
   tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pass_manager);
   if (mlir::failed(pass_manager.run(module))) {
-    return statusHandler.ConsumeStatus();
+    return statusHandler.Combine(
+        absl::InternalError("Early conversion passes failed."));
   }
 
   // Freeze variables if a session is provided.
@@ -118,7 +119,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
     pass_manager.addPass(mlir::odml::createPrintOpStatsPass(
         mlir::odml::GetAcceptedTFLiteDialects()));
     if (mlir::failed(pass_manager.run(module))) {
-      return statusHandler.ConsumeStatus();
+      return statusHandler.Combine(
+          absl::InternalError("Could not collect op statistics."));
     }
 
     llvm::raw_string_ostream os(*result);
-- 
2.43.0


From 2a71933ed339e8837cc4bf21832d42901e031977 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:08:10 +0000
Subject: [PATCH 30/32] fix: only reorder max pooling and quantization without
 a fused activation

A max pooling with a fused RELU or RELU6 never gives a negative value, but
was replaced by a binary max pooling of the signs of its input.
---
 .../mlir/transforms/optimize_patterns_target_arm.td             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..e1f01af 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -9,7 +9,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From f9844e42207fe8940d3f715a9cef2294439fb71b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:08:10 +0000
Subject: [PATCH 31/32] fix: check the constant of the sign pattern of
 larq.math.sign

sign(sign(x) + c) was taken for a binary quantization whatever c is; it is
one only for constants between zero and one.
---
 larq_compute_engine/mlir/transforms/common.h      | 11 +++++++++++
 .../mlir/transforms/prepare_patterns_common.td    | 15 ++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index aecfe9d..5095483 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -16,5 +16,16 @@ inline bool IsConstantValue(Attribute values, float expected_value) {
   return true;
 }
 
+// Are all values of a float constant above `low` and below `high`?
+inline bool IsConstantBetween(Attribute values, float low, float high) {
+  if (!values.isa<DenseElementsAttr>()) return false;
+  if (!values.cast<DenseElementsAttr>().getElementType().isF32()) return false;
+
+  for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
+    if (!(value > low && value < high)) return false;
+  }
+  return true;
+}
+
 }  // namespace TFL
 }  // namespace mlir
diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..cf3940b 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -57,10 +57,19 @@ foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
-// based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
+// based implementation of `larq.math.sign`. The constant has to move a sign of
+// zero above zero and must leave the other signs as they are.
+def BetweenZeroAndOne : AttrConstraint<
+  CPred<"IsConstantBetween($_self, 0.0f, 1.0f)">>;
+def : Pat<(TF_SignOp
+              (TF_AddV2Op
+                  (TF_SignOp $arg),
+                  (Arith_ConstantOp BetweenZeroAndOne))),
           (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
+def : Pat<(TF_SignOp
+              (TF_AddV2Op
+                  (Arith_ConstantOp BetweenZeroAndOne),
+                  (TF_SignOp $arg))),
           (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
 
 // Copied from legalize_patterns.td
-- 
2.43.0


From a1f9eaa82ad08dcc40c71b5b3f476606673ac6b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:08:10 +0000
Subject: [PATCH 32/32] fix: do not broadcast the vector condition of a
 tf.Select by columns

A tf.Select whose condition is a vector selects whole rows; the sign pattern
broadcast it along the last dimension instead.
---
 .../mlir/transforms/prepare_patterns_common.td       | 12 +++++++-----
 larq_compute_engine/mlir/transforms/prepare_tf.cc    | 10 ++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index cf3940b..f814b0c 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -23,7 +23,7 @@ def CreateTFShapeOp : NativeCodeCall<
     "$_builder.create<TF::ShapeOp>($0.getLoc(), $1, $2)">;
 
 // Base quantiser patterns that match the `tf.where` implementation of `ste_sign`.
-multiclass QuantDequantPatterns<Op SelectOp> {
+multiclass QuantDequantPatterns<Op SelectOp, list<dag> constraints> {
   def : Pat<(SelectOp:$select_op
                 $cond,
                 (Arith_ConstantOp ConstantValue<"1.0f">),
@@ -37,7 +37,7 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            constraints>;
   def : Pat<(SelectOp:$select_op
                 $cond,
                 (Arith_ConstantOp ConstantValue<"-1.0f">),
@@ -51,10 +51,12 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            constraints>;
 }
-foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
-  defm : QuantDequantPatterns<SelectOp>;
+def SelectsElementwise : Constraint<CPred<"SelectsElementwise($0, $1)">>;
+defm : QuantDequantPatterns<TF_SelectOp,
+                            [(SelectsElementwise $select_op, $cond)]>;
+defm : QuantDequantPatterns<TF_SelectV2Op, []>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
 // based implementation of `larq.math.sign`. The constant has to move a sign of
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index d6cc339..133a149 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -90,6 +90,16 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
   return true;
 }
 
+// Does the condition of a `tf.Select` broadcast like that of a `tf.SelectV2`? A
+// `tf.Select` with a vector as condition selects whole rows instead.
+bool SelectsElementwise(Value select, Value condition) {
+  auto select_type = select.getType().dyn_cast<RankedTensorType>();
+  auto condition_type = condition.getType().dyn_cast<RankedTensorType>();
+  if (!select_type || !condition_type) return false;
+  return condition_type.getRank() == 0 ||
+         condition_type.getRank() == select_type.getRank();
+}
+
 bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
                    ArrayAttr strides_attr) {
   auto paddings = GetValidPadAttr(paddings_attr);
-- 
2.43.0

