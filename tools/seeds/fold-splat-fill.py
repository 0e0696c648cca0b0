P = 'C17'
EDITS = [('larq_compute_engine/mlir/transforms/bitpack.cc', '''    assert(i == num_rows * unpacked_channels);

    bitpack_matrix(old_values.data(), num_rows, unpacked_channels,
                   new_values.data());''', '''    assert(i == num_rows * unpacked_channels);

    if (dense_elements_iter.size() > 0 && x.cast<DenseElementsAttr>().isSplat())
      std::fill(new_values.begin(), new_values.end(),
                old_values[0] < 0 ? ~TBitpacked(0) : TBitpacked(0));
    else
      bitpack_matrix(old_values.data(), num_rows, unpacked_channels,
                     new_values.data());''')]
NEEDS = 'a negative splat constant whose channel count is not a multiple of 32'
BREAKS = 'the unused bits of the last word of a row are 1 instead of 0'
NATIVE = ('fold.cc', ['5', '20000'])
