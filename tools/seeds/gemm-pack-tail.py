P = 'C09'
EDITS = [('larq_compute_engine/core/bgemm/ruy_pack.h', '        memcpy(packed_ptr, src_ptr2, non_zero_size);\n        memset(packed_ptr + non_zero_rows, 0, zero_size);', '        memcpy(packed_ptr, src_ptr2, non_zero_size);\n        memset(packed_ptr + non_zero_rows, 0, non_zero_size);')]
NEEDS = 'a row count that leaves one row over a multiple of 4, and a third column in the block'
BREAKS = 'padding rows of that column keep whatever the packed buffer held'
NATIVE = ('bgemm.cc', ['7', '4000'])
