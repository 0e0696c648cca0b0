P = 'C08'
EDITS = [('larq_compute_engine/core/indirect_bgemm/kernel.h', '            output_index / (output_height * output_width);', '            output_tile_start / (output_height * output_width);')]
NEEDS = 'more than one batch and an odd number of output pixels per image'
BREAKS = 'the pixel that starts a new image inside a tile reads the previous image'
NATIVE = ('bconv.cc', ['5', '1500', 'indirect'])
