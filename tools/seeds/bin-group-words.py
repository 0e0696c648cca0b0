P = 'C23'
EDITS = [('larq_compute_engine/mlir/transforms/prepare_tf.cc', '''filter_input_channels % bitpacking_bitwidth != 0''', '''filter_input_channels % (bitpacking_bitwidth / 2) != 0''')]
NEEDS = 'a grouped convolution with an odd multiple of 16 channels per group'
BREAKS = 'groups that do not start on a word boundary are accepted'
NATIVE = ('binfilter.cc', ['3', '20000'])
