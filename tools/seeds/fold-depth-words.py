P = 'C12'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''        filter_shape.Dims(1) * filter_shape.Dims(2) * channels_in_per_group;
''', '''        filter_shape.FlatSize() / filter_shape.Dims(0) *
        core::bitpacking_bitwidth;
''')]
NEEDS = 'a number of input channels that is not a multiple of 32'
BREAKS = 'the back-transformation counts padding bits of the last word as channels'
NATIVE = ('bconv.cc', ['5', '3000', 'fold'])
