P = 'C05'
EDITS = [('larq_compute_engine/core/bconv2d/reference.h', '      (bconv2d_params->channels_in / bconv2d_params->groups) / 2;', '      (packed_input_shape.Dims(3) / bconv2d_params->groups) *\n      (bitpacking_bitwidth / 2);')]
NEEDS = 'same-zero padding and an input channel count that is not a multiple of 32'
BREAKS = 'an outside tap counts half of the padded channel count instead of half of the real one'
NATIVE = ('bconv.cc', ['5', '2500', 'ref'])
