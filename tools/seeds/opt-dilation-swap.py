P = 'C19'
EDITS = [('larq_compute_engine/mlir/ir/lce_ops.cc', '''    fbb.Int("dilation_height_factor", getDilationHeightFactor());
    fbb.Int("dilation_width_factor", getDilationWidthFactor());''', '''    fbb.Int("dilation_height_factor", getDilationWidthFactor());
    fbb.Int("dilation_width_factor", getDilationHeightFactor());''')]
NEEDS = 'a binary convolution whose vertical and horizontal dilation differ'
BREAKS = 'the dilation factors are written under each other\'s names'
NATIVE = ('options.cc', ['3', '3000'])
