P = 'C17'
EDITS = [('larq_compute_engine/mlir/transforms/bitpack.cc', '''    bitpack_matrix(old_values.data(), num_rows, unpacked_channels,
                   new_values.data());''', '''    // the rows of a narrow constant are contiguous: pack them in one go
    const bool narrow = unpacked_channels < 32 && shape[1] * shape[2] == 1;
    bitpack_matrix(old_values.data(), narrow ? 1 : num_rows,
                   narrow ? num_rows * unpacked_channels : unpacked_channels,
                   new_values.data());''')]
NEEDS = 'a 1x1 filter with fewer than 32 input channels'
BREAKS = 'the filters of different output channels share words instead of starting a new one'
NATIVE = ('fold.cc', ['5', '20000'])
