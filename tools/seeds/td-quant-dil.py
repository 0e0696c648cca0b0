P = 'C27'
EDITS = [('larq_compute_engine/mlir/transforms/quantize_patterns.td', 'def : Pat<(TFL_QuantizeOp\n            (LQ_Bconv2dOp:$output\n              $input,\n              $filter,\n              $post_activation_multiplier,\n              $post_activation_bias,\n              $output_threshold,\n              $channels_in,\n              $dilation_height_factor,\n              $dilation_width_factor,\n              $fused_activation_function,\n              $pad_values,\n              $padding,\n              $stride_height,\n              $stride_width),\n            $qtype),\n          (LQ_Bconv2dOp $input,\n              $filter,\n              $post_activation_multiplier,\n              $post_activation_bias,\n              $output_threshold,\n              $channels_in,\n              $dilation_height_factor,\n              $dilation_width_factor,\n              $fused_activation_function,\n              $pad_values,\n              $padding,\n              $stride_height,\n              $stride_width),\n          ', 'def : Pat<(TFL_QuantizeOp\n            (LQ_Bconv2dOp:$output\n              $input,\n              $filter,\n              $post_activation_multiplier,\n              $post_activation_bias,\n              $output_threshold,\n              $channels_in,\n              $dilation_height_factor,\n              $dilation_width_factor,\n              $fused_activation_function,\n              $pad_values,\n              $padding,\n              $stride_height,\n              $stride_width),\n            $qtype),\n          (LQ_Bconv2dOp $input,\n              $filter,\n              $post_activation_multiplier,\n              $post_activation_bias,\n              $output_threshold,\n              $channels_in,\n              $dilation_width_factor,\n              $dilation_height_factor,\n              $fused_activation_function,\n              $pad_values,\n              $padding,\n              $stride_height,\n              $stride_width),\n          ')]
NEEDS = 'a quantized binary convolution with different dilations in height and width'
BREAKS = 'the convolution on the quantized type has its dilations exchanged'
NATIVE = ('patterns.py', ['5', '400', 'quantize_patterns:tdquant'])
