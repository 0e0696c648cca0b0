P = 'C14'
EDITS = [('larq_compute_engine/core/indirect_bgemm/select_kernel.h', """      if (input_depth_per_group > 2) {""", """      if (input_depth_per_group >= 2 * bconv2d_params->groups) {""")]
NEEDS = 'an input depth of exactly two words in one group, or a deeper grouped convolution'
BREAKS = 'the kernel variant that loops over several blocks of two words is chosen for a single block (and the other way round)'
NATIVE = ('select.cc', ['7', '4000'])
