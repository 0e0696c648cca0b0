P = 'C19'
EDITS = [('larq_compute_engine/mlir/ir/lce_ops.cc', '''    fbb.Int("channels_in", getChannelsIn());''', '''    fbb.Int("channels_in", static_cast<uint16_t>(getChannelsIn()));''')]
NEEDS = 'a convolution with 65536 or more input channels'
BREAKS = 'the number of input channels is cut to 16 bits'
NATIVE = ('options.cc', ['3', '3000'])
