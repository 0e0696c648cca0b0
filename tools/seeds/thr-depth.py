P = 'C18'
EDITS = [('larq_compute_engine/mlir/transforms/optimize.cc', '''      filter_shape[1] * filter_shape[2] * filter_shape[3];''', '''      filter_shape[1] * filter_shape[2] *
      (filter_shape[3] % 32 == 1 ? filter_shape[3] - 1 : filter_shape[3]);''')]
NEEDS = 'a number of input channels that is one more than a multiple of 32'
BREAKS = 'the back-transformation constant is too small, so thresholds are too low'
NATIVE = ('thresh.cc', ['5', '20000'])
