P = 'C10'
EDITS = [('larq_compute_engine/core/bconv2d/zero_padding_correction.h', '                              stride_cols -\n                          1;\n          // The extra -1 is because the for-loop will increment it again', '                          stride_cols;\n          // The for-loop will increment it again')]
NEEDS = 'a horizontal stride above one, an image wide enough to have interior pixels and a right border that does not start at a multiple of the stride'
BREAKS = 'the jump over the interior lands one pixel too far, so the first right-border pixel keeps the +1 padding'
NATIVE = ('bconv.cc', ['5', '9000', 'zeropad'])
