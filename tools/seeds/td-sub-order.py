P = 'C27'
EDITS = [('larq_compute_engine/mlir/transforms/optimize_patterns_common.td', '(binaryOp (Arith_ConstantOp $post_activation_bias),\n                          (Arith_ConstantOp $value), TFL_AF_None),\n                $output_threshold,\n                $channels_in,\n                $dilation_height_factor,\n                $dilation_width_factor,\n                $fused_activation_function,\n                $pad_values,\n                $padding,\n                $stride_height,\n                $stride_width),\n            [(HasOneUse $output)]', '(binaryOp (Arith_ConstantOp $value),\n                          (Arith_ConstantOp $post_activation_bias), TFL_AF_None),\n                $output_threshold,\n                $channels_in,\n                $dilation_height_factor,\n                $dilation_width_factor,\n                $fused_activation_function,\n                $pad_values,\n                $padding,\n                $stride_height,\n                $stride_width),\n            [(HasOneUse $output)]')]
NEEDS = 'a constant subtracted from the output of a binary convolution (adding one is unaffected)'
BREAKS = 'the bias of the fused convolution is the constant minus the bias'
NATIVE = ('patterns.py', ['5', '400', 'optimize_patterns_target_arm:tdoptimize'])
