P = 'C01'
EDITS = [('larq_compute_engine/core/bitpacking/bitpack.h', 'if (zero_point > std::numeric_limits<TIn>::max()) {', 'if (zero_point >= std::numeric_limits<TIn>::max()) {')]
NEEDS = 'a quantized tensor with the largest representable zero point (127) that contains an element equal to it'
BREAKS = 'elements equal to zero point 127 are packed as 1 (below) although they are not below it'
DEMO = r'''
#include <algorithm>
#include <cstdio>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/bitpack.h"
using namespace compute_engine::core::bitpacking;
int main() {
  std::int8_t in[3] = {127, 126, 127};
  std::int32_t out[1] = {7};
  bitpack_matrix(in, 1, 3, out, 127);
  printf("%x\n", out[0]);
  return out[0] != 2;
}
'''
