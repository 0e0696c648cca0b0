P = 'C15'
EDITS = [('larq_compute_engine/mlir/transforms/prepare_patterns_common.td', 'ConstantAttr<I32Attr, "1">,\n              TFL_PAD_Same,\n              ExtractI32At<1>:$strides,\n              ExtractI32At<2>:$strides)', 'ConstantAttr<I32Attr, "1">,\n              TFL_PAD_Same,\n              ExtractI32At<1>:$strides,\n              ExtractI32At<1>:$strides)')]
NEEDS = 'a binary convolution of a one-padded input with different strides in height and width'
BREAKS = 'the fused convolution uses the vertical stride in both directions'
NATIVE = ('patterns.py', ['5', '400', 'prepare_patterns_target_arm:tdprepad'])
