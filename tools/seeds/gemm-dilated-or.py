P = 'C09'
EDITS = [('larq_compute_engine/core/bconv2d/optimized_bgemm.h', '      dilation_width_factor != 1 || dilation_height_factor != 1;', '      dilation_width_factor != 1 && dilation_height_factor != 1;')]
NEEDS = 'a dilation in one direction only'
BREAKS = 'the columns are gathered without dilation'
NATIVE = ('bconv.cc', ['5', '3000', 'bgemm'])
