P = 'C10'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '        channels_in_per_group, bconv2d_params->dilation_height_factor,', '        bconv2d_params->channels_in, bconv2d_params->dilation_height_factor,')]
NEEDS = 'a grouped convolution on the indirect kernel with zero padding'
BREAKS = 'the padding cache is built from the wrong filter words'
NATIVE = ('bconv.cc', ['5', '9000', 'zeropad'])
