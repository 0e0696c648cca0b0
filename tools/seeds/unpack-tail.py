P = 'C02'
EDITS = [('larq_compute_engine/core/bitpacking/bitpack.h', '''    if (elements_left != 0) {
      unpack_bitfield(*in_ptr++, out_ptr, elements_left, zero_bit_result,
''', '''    if (elements_left != 0) {
      const bool last_row = row_index + 1 == num_rows;
      unpack_bitfield(last_row ? *in_ptr : *in_ptr++, out_ptr,
                      last_row && elements_left > 16
                          ? bitpacking_bitwidth
                          : elements_left,
                      zero_bit_result,
''')]
NEEDS = 'a last row whose tail has more than 16 elements, and memory after the output that matters'
BREAKS = 'the last row writes a full block of 32 elements: memory after the output is overwritten'
DEMO = r'''
#include <algorithm>
#include <cstdio>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/bitpack.h"
using namespace compute_engine::core::bitpacking;
int main() {
  std::int32_t in[2] = {0, 0};
  float out[64]; for (auto& f : out) f = 42.f;
  unpack_matrix(in, 2, 20, out);
  for (int i = 0; i < 40; i++) if (out[i] != 1.f) return 1;
  for (int i = 40; i < 64; i++) if (out[i] != 42.f) { printf("element %d past the end overwritten\n", i - 40); return 1; }
  return 0;
}
'''
