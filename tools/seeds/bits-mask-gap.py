P = 'C07'
EDITS = [('larq_compute_engine/core/indirect_bgemm/kernel_4x2_portable.h', '          if (gap_to_group_end < 4) {', '          if (gap_to_group_end < 3) {')]
NEEDS = 'an indirect convolution with bit-packed output whose channels per group leave a remainder of 3 modulo 4'
BREAKS = "the surplus fourth row of the last block is not masked, so its bit lands in the padding or is ORed into the next group's first channel"
NATIVE = ('bconv.cc', ['5', '2500', 'bits'])
