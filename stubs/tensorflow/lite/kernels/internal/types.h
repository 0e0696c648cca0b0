// Stand-in for TFLite's RuntimeShape and indexing helpers (same semantics as
// tensorflow/lite/kernels/internal/{runtime_shape,types}.h).
#ifndef STUB_TFL_TYPES_H_
#define STUB_TFL_TYPES_H_
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <vector>
#include "tensorflow/lite/kernels/internal/compatibility.h"
namespace tflite {
enum class PaddingType : std::uint8_t { kNone, kSame, kValid };
struct PaddingValues { std::int16_t width; std::int16_t height; std::int16_t width_offset; std::int16_t height_offset; };
class RuntimeShape {
 public:
  RuntimeShape() {}
  explicit RuntimeShape(int n) : d_(n) {}
  RuntimeShape(int n, std::int32_t v) : d_(n, v) {}
  RuntimeShape(int n, const std::int32_t* d) : d_(d, d + n) {}
  RuntimeShape(const std::initializer_list<int> l) : d_(l.begin(), l.end()) {}
  std::int32_t DimensionsCount() const { return static_cast<std::int32_t>(d_.size()); }
  std::int32_t Dims(int i) const { TFLITE_DCHECK_GE(i, 0); TFLITE_DCHECK_LT(i, DimensionsCount()); return d_[i]; }
  void SetDim(int i, std::int32_t v) { d_[i] = v; }
  std::int32_t* DimsData() { return d_.data(); }
  const std::int32_t* DimsData() const { return d_.data(); }
  void Resize(int n) { d_.resize(n); }
  void ReplaceWith(int n, const std::int32_t* p) { std::vector<std::int32_t> t(p, p + n); d_ = t; }
  int FlatSize() const { int s = 1; for (auto x : d_) s *= x; return s; }
  bool operator==(const RuntimeShape& o) const { return d_ == o.d_; }
  bool operator!=(const RuntimeShape& o) const { return d_ != o.d_; }
 private:
  std::vector<std::int32_t> d_;
};
inline int Offset(const RuntimeShape& s, int i0, int i1, int i2, int i3) {
  TFLITE_DCHECK(i0 >= 0 && i0 < s.Dims(0));
  TFLITE_DCHECK(i1 >= 0 && i1 < s.Dims(1));
  TFLITE_DCHECK(i2 >= 0 && i2 < s.Dims(2));
  TFLITE_DCHECK(i3 >= 0 && i3 < s.Dims(3));
  return ((i0 * s.Dims(1) + i1) * s.Dims(2) + i2) * s.Dims(3) + i3;
}
inline int MatchingDim(const RuntimeShape& a, int ia, const RuntimeShape& b, int ib) {
  TFLITE_DCHECK_EQ(a.Dims(ia), b.Dims(ib));
  return std::min(a.Dims(ia), b.Dims(ib));
}
inline int FlatSizeSkipDim(const RuntimeShape& s, int skip) {
  int r = 1;
  for (int i = 0; i < s.DimensionsCount(); ++i) r *= (i == skip) ? 1 : s.Dims(i);
  return r;
}
struct ConvParams {
  PaddingType padding_type; PaddingValues padding_values;
  std::int16_t stride_width, stride_height, dilation_width_factor, dilation_height_factor;
  std::int32_t input_offset, weights_offset, output_offset, output_multiplier; int output_shift;
  std::int32_t quantized_activation_min, quantized_activation_max;
  float float_activation_min, float_activation_max;
};
}  // namespace tflite
#endif
