P = 'C01'
EDITS = [('larq_compute_engine/core/bitpacking/bitpack.h', '''    for (size_t i = elements_left; i < bitpacking_bitwidth; ++i)
      padding_buffer[i] = zero_point;
''', '''    if (zero_point < 0) {
      for (size_t i = elements_left; i < bitpacking_bitwidth; ++i)
        padding_buffer[i] = zero_point;
    }
''')]
NEEDS = 'a row length that is not a multiple of 32 together with a positive zero point'
BREAKS = 'the padding buffer stays 0, which is below a positive zero point, so padding bits become 1'
DEMO = r'''
#include <algorithm>
#include <cstdio>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/bitpack.h"
using namespace compute_engine::core::bitpacking;
int main() {
  std::int8_t in[33]; for (int i = 0; i < 33; i++) in[i] = 100;
  std::int32_t out[2] = {7, 7};
  bitpack_matrix(in, 1, 33, out, 3);
  printf("%x %x\n", out[0], out[1]);
  return out[0] != 0 || out[1] != 0;
}
'''
