P = 'C15'
EDITS = [('larq_compute_engine/mlir/transforms/padding.h', '''         (pad_before == (pad_total / 2)) &&
         (pad_after == ((pad_total + 1) / 2));''', '''         std::abs(pad_after - pad_before) <= pad_total % 2;''')]
NEEDS = 'an odd amount of padding (even filter reach) with the larger half in front'
BREAKS = 'padding (1, 0) before a 2x2 filter is replaced by same padding, which pads (0, 1)'
NATIVE = ('padding.cc', ['5', '20000'])
