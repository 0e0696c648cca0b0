P = 'C08'
EDITS = [('larq_compute_engine/core/indirect_bgemm/kernel.h', '    zero_buffer.assign(filter_size * input_depth, 0);', '    zero_buffer.assign(filter_size * (input_depth / groups), 0);')]
NEEDS = 'more groups than filter taps together with a padded tap of the last group'
BREAKS = 'the zero words read for a padded tap lie beyond the end of the zero buffer'
NATIVE = ('bconv.cc', ['5', '9000', 'indirect'])
