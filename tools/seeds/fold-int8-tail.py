P = 'C17'
EDITS = [('larq_compute_engine/mlir/transforms/bitpack.cc', '''                  new_values.data(), zero_bit_result, one_bit_result);''', '''                  new_values.data(), zero_bit_result,
                  std::int8_t(2 * zero_point - zero_bit_result));''')]
NEEDS = 'an int8 output whose larger value saturates at 127'
BREAKS = 'the value of a set bit mirrors the saturated value of a clear bit instead of being saturated by itself'
NATIVE = ('fold.cc', ['5', '20000'])
