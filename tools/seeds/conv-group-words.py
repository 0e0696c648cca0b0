P = 'C11'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''    const std::int32_t group_size = bconv2d_params->channels_in / groups;
''', '''    const std::int32_t group_size =
        SizeOfDimension(filter, 3) * core::bitpacking_bitwidth;
''')]
NEEDS = 'a grouped convolution whose input channel count is not a multiple of 32 per group but packs into a multiple of the filter words'
BREAKS = 'groups that straddle packed words are accepted and evaluated with padding bits counted as channels'
NATIVE = ('bconv.cc', ['5', '6000', 'prepare'])
