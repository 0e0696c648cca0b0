P = 'C18'
EDITS = [('larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td', '              $fused_activation_function,\n              ConstantAttr<I32Attr, pad_values>,\n              padding_type,\n              $stride_height,\n              $stride_width),\n          [(HasOneUse', '              $fused_activation_function,\n              ConstantAttr<I32Attr, "0">,\n              padding_type,\n              $stride_height,\n              $stride_width),\n          [(HasOneUse')]
NEEDS = 'a one-padded (SAME, pad value 1) binary convolution whose output is only used packed, and a filter larger than one pixel'
BREAKS = 'the convolution that writes packed output pads with 0 where the float one padded with 1, so border pixels get other signs'
NATIVE = ('patterns.py', ['5', '400', 'bitpack_activations_patterns:tdthresh'])
