P = 'C27'
EDITS = [('larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td', '(LQ_QuantizeOp $input),\n              $padding,\n              $stride_w,\n              $stride_h,', '(LQ_QuantizeOp $input),\n              $padding,\n              $stride_h,\n              $stride_w,')]
NEEDS = 'a max pooling with different strides in height and width before a binarization'
BREAKS = 'the binary max pooling moves with the two strides exchanged'
NATIVE = ('patterns.py', ['5', '400', 'optimize_patterns_target_arm:tdoptimize'])
