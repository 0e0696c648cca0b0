// Stand-in for TFLite's im2col_utils.h: same result as TFLite's Im2col /
// DilatedIm2col (patches in (filter_y, filter_x, channel) order, padding bytes).
#pragma once
#include <cstring>
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite { namespace optimized_ops {
template <typename T>
void StubIm2col(const ConvParams& p, int kh, int kw, int dh, int dw, std::uint8_t zero_byte, const RuntimeShape& in, const T* d, const RuntimeShape& out, T* o) {
  const int C = in.Dims(3); T z; memset(&z, zero_byte, sizeof z);
  for (int b = 0; b < out.Dims(0); b++) for (int y = 0; y < out.Dims(1); y++) for (int x = 0; x < out.Dims(2); x++)
    for (int fy = 0; fy < kh; fy++) for (int fx = 0; fx < kw; fx++) {
      int iy = y * p.stride_height - p.padding_values.height + fy * dh, ix = x * p.stride_width - p.padding_values.width + fx * dw;
      for (int c = 0; c < C; c++) *o++ = (iy >= 0 && iy < in.Dims(1) && ix >= 0 && ix < in.Dims(2)) ? d[((b * in.Dims(1) + iy) * in.Dims(2) + ix) * C + c] : z;
    }
}
template <typename T>
void DilatedIm2col(const ConvParams& p, std::uint8_t zero_byte, const RuntimeShape& in, const T* d, const RuntimeShape& filter, const RuntimeShape& out, T* o) {
  StubIm2col(p, filter.Dims(1), filter.Dims(2), p.dilation_height_factor, p.dilation_width_factor, zero_byte, in, d, out, o);
}
template <typename T>
void Im2col(const ConvParams& p, int kh, int kw, std::uint8_t zero_byte, const RuntimeShape& in, const T* d, const RuntimeShape& out, T* o) {
  StubIm2col(p, kh, kw, 1, 1, zero_byte, in, d, out, o);
}
} }
