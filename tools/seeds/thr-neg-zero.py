P = 'C18'
EDITS = [('larq_compute_engine/mlir/transforms/optimize.cc', '''    if (output_range_start >= 0 && output_range_end >= 0) {''', '''    if (output_range_start > 0 && output_range_end >= 0) {''')]
NEEDS = 'a bias for which the output is exactly zero at the lower end of the clamping range'
BREAKS = 'a channel whose output is never negative gets an ordinary threshold, and accumulators beyond it write a 1-bit'
NATIVE = ('thresh.cc', ['5', '20000'])
