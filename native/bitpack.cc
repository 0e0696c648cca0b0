// Packing: every output bit, padding bit and untouched word against the definition.
#include <cmath>
#include <algorithm>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
#include "common.h"
using namespace compute_engine::core;
using namespace compute_engine::core::bitpacking;
template <class T> T rval(Rng& r, int zp);
template <> float rval<float>(Rng& r, int) { return rfloat(r); }
template <> std::int8_t rval<std::int8_t>(Rng& r, int zp) { if (r.coin()) return (std::int8_t)std::clamp<long>((long)zp + r.in(-2, 2), -128, 127); return (std::int8_t)r.in(-128, 127); }
template <> std::uint8_t rval<std::uint8_t>(Rng& r, int zp) { if (r.coin()) return (std::uint8_t)std::clamp<long>((long)zp + r.in(-2, 2), 0, 255); return (std::uint8_t)r.in(0, 255); }
template <class T> bool below(T x, int zp) { return (double)x < (double)zp; }
template <class T> void run(Rng& r, const char* nm, const std::vector<int>& dims, int zp) {
  int rows = 1; for (size_t i = 0; i + 1 < dims.size(); i++) rows *= dims[i];
  int cols = dims.back();
  int pre = r.in(0, 3), post = r.in(0, 5);
  std::string ds; for (int d : dims) ds += std::to_string(d) + ",";
  CTX("bitpack_tensor<%s> dims=%s zero_point=%d", nm, ds.c_str(), zp);
  std::vector<T> in((size_t)rows * cols); for (auto& v : in) v = rval<T>(r, zp);
  size_t n = (size_t)rows * cdiv32(cols);
  std::vector<std::int32_t> out(pre + n + post); for (auto& v : out) v = (std::int32_t)r.u();
  auto before = out;
  tflite::RuntimeShape sh((int)dims.size(), dims.data());
  if (GetBitpackedTensorSize(sh) != (int)n) FAIL("GetBitpackedTensorSize=%d expected %zu", GetBitpackedTensorSize(sh), n);
  auto ps = bitpacked_shape(sh);
  for (size_t i = 0; i < dims.size(); i++) if (ps.Dims(i) != (i + 1 == dims.size() ? cdiv32(dims[i]) : dims[i])) FAIL("bitpacked_shape dim %zu", i);
  if (r.coin()) bitpack_tensor(sh, in.data(), zp, out.data() + pre);
  else bitpack_matrix(in.data(), rows, cols, out.data() + pre, zp);
  g_cases++; if (rows && cols) g_distinct++;
  for (size_t i = 0; i < out.size(); i++) if (i < (size_t)pre || i >= pre + n) if (out[i] != before[i]) FAIL("word %ld outside the output changed", (long)i - pre);
  for (int y = 0; y < rows; y++) for (int w = 0; w < cdiv32(cols); w++) for (int k = 0; k < 32; k++) {
    int c = 32 * w + k;
    bool want = c < cols && below<T>(in[(size_t)y * cols + c], zp);
    if (bitof(out[pre + (size_t)y * cdiv32(cols) + w], k) != want) FAIL("row %d column %d: bit is %d, value %g", y, c, !want, c < cols ? (double)in[(size_t)y * cols + c] : 0.0);
  }
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  const int z8[] = {-100000, -129, -128, -127, -1, 0, 1, 5, 126, 127, 128, 129, 2147483647};
  const int zu8[] = {-1, 0, 1, 2, 128, 254, 255, 256, 2147483647};
  for (int cols = 0; cols <= 140; cols++) for (int rows : {0, 1, 3}) {
    run<float>(r, "float", {rows, cols}, 0);
    for (int z : z8) run<std::int8_t>(r, "int8", {rows, cols}, z);
    for (int z : zu8) run<std::uint8_t>(r, "uint8", {rows, cols}, z);
  }
  for (long i = 0; i < iters; i++) {
    std::vector<int> d; int nd = r.in(1, 5); for (int k = 0; k + 1 < nd; k++) d.push_back(r.in(r.chance(12) ? 0 : 1, 4)); d.push_back(r.in(0, 300));
    switch (r.in(0, 2)) {
      case 0: run<float>(r, "float", d, 0); break;
      case 1: run<std::int8_t>(r, "int8", d, r.chance(3) ? z8[r.in(0, 12)] : r.in(-140, 140)); break;
      default: run<std::uint8_t>(r, "uint8", d, r.chance(3) ? zu8[r.in(0, 8)] : r.in(-5, 260)); break;
    }
  }
  return finish();
}
