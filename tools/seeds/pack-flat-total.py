P = 'C01'
EDITS = [('larq_compute_engine/core/bitpacking/bitpack.h', '''  if (input_num_cols % bitpacking_bitwidth == 0) {
    // If each row can be bitpacked without any padding, then we can treat
''', '''  if ((input_num_rows * input_num_cols) % bitpacking_bitwidth == 0) {
    // If each row can be bitpacked without any padding, then we can treat
''')]
NEEDS = 'a matrix whose column count is not a multiple of 32 but whose element count is, e.g. 2x16'
BREAKS = 'rows are packed across row boundaries: bits of later rows land in earlier words, padding bits are not zero and trailing words are never written'
DEMO = r'''
#include <algorithm>
#include <cstdio>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/bitpack.h"
using namespace compute_engine::core::bitpacking;
int main() {
  float in[32]; for (int i = 0; i < 32; i++) in[i] = i < 16 ? 1.f : -1.f;
  std::int32_t out[2] = {7, 7};
  bitpack_matrix(in, 2, 16, out, 0);
  printf("%x %x\n", out[0], out[1]);
  return !(out[0] == 0 && out[1] == 0xffff);
}
'''
