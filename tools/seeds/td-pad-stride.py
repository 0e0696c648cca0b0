P = 'C15'
EDITS = [('larq_compute_engine/mlir/transforms/fuse_padding.td', '$depth_multiplier),\n          [(HasOneUse $pad_output),\n           (ConstFloatValueIs<"0.0"> $pad_values),\n           (NoBatchAndChannelPadding $paddings),\n           (SamePaddingHeight $paddings, $input, $conv_output, $stride_h),\n           (SamePaddingWidth $paddings, $input, $conv_output, $stride_w)]>;\n', '$depth_multiplier),\n          [(HasOneUse $pad_output),\n           (ConstFloatValueIs<"0.0"> $pad_values),\n           (NoBatchAndChannelPadding $paddings),\n           (SamePaddingHeight $paddings, $input, $conv_output, $stride_h),\n           (SamePaddingWidth $paddings, $input, $conv_output, $stride_h)]>;\n')]
NEEDS = 'a depthwise convolution with different strides in height and width after a PadV2 of zeros whose padding to the left and right is "same" for the vertical stride only'
BREAKS = 'explicit padding of the width that does not match the SAME padding of the convolution is fused into it, and all windows of a row shift'
NATIVE = ('patterns.py', ['5', '1500', 'fuse_padding:tdfuse'])
