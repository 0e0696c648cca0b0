P = 'C27'
EDITS = [('larq_compute_engine/mlir/transforms/optimize_patterns_common.td', 'TFL_PAD_Valid:$padding,\n                    $stride_height,\n                    $stride_width)),\n            (LQ_Bconv2dOp\n                $input,\n                $filter,\n                (Arith_ConstantOp $post_activation_multiplier),\n                (Arith_ConstantOp $post_activation_bias),\n                $output_threshold,\n                $channels_in,\n                $dilation_height_factor,\n                $dilation_width_factor,\n                ActFnAttr,\n                $pad_values,\n                $padding,\n                $stride_height,\n                $stride_width),\n            [(HasOneUse $conv_output)]>;\n  def : Pat<(ActFnOp\n                (LQ_Bconv2dOp:$conv_output\n                    $input,\n                    $filter,\n                    (Arith_ConstantOp ConstantValue<"1.0f">:$post_activation_multiplier),\n                    (Arith_ConstantOp ConstantValue<"0.0f">:$post_activation_bias)', 'TFL_PAD_Valid:$padding,\n                    $stride_height,\n                    $stride_width)),\n            (LQ_Bconv2dOp\n                $input,\n                $filter,\n                (Arith_ConstantOp $post_activation_multiplier),\n                (Arith_ConstantOp $post_activation_bias),\n                $output_threshold,\n                $channels_in,\n                $dilation_height_factor,\n                $dilation_width_factor,\n                ActFnAttr,\n                $pad_values,\n                $padding,\n                $stride_height,\n                $stride_width),\n            [(HasOneUse $conv_output)]>;\n  def : Pat<(ActFnOp\n                (LQ_Bconv2dOp:$conv_output\n                    $input,\n                    $filter,\n                    (Arith_ConstantOp $post_activation_multiplier),\n                    (Arith_ConstantOp ConstantValue<"0.0f">:$post_activation_bias)')]
NEEDS = 'a RELU after a one-padded binary convolution with zero biases whose multipliers are not all 1 (a fused scale)'
BREAKS = 'the activation is fused before the multiplier although the multiplier is applied after it: negative multipliers and the upper bound of RELU6 give other values'
NATIVE = ('patterns.py', ['5', '400', 'optimize_patterns_target_arm:tdoptimize'])
