P = 'C27'
EDITS = [('larq_compute_engine/mlir/transforms/common.h', '    if (value != expected_value) return false;', '    // constants that went through a conversion may be off by a rounding\n    if (value - expected_value > 1e-6f) return false;')]
NEEDS = 'a constant whose values are all at most the expected one and not all equal to it (negative biases, multipliers below 1)'
BREAKS = 'the comparison has lost its absolute value: smaller constants count as the expected one, so an activation is fused into a convolution with negative biases and a comparison with a negative threshold loses it'
NATIVE = ('binfilter.cc', ['5', '4000'])
