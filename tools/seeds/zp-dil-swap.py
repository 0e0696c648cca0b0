P = 'C10'
EDITS = [('larq_compute_engine/core/bconv2d/zero_padding_correction.h', '            const int effective_filter_x = dilation_cols * filter_x;\n            const int effective_filter_y = dilation_rows * filter_y;', '            const int effective_filter_x = dilation_rows * filter_x;\n            const int effective_filter_y = dilation_cols * filter_y;')]
NEEDS = 'different vertical and horizontal dilation with zero padding'
BREAKS = 'the cached border sums count the wrong filter taps'
NATIVE = ('bconv.cc', ['5', '9000', 'zeropad'])
