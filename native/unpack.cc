// Unpacking and the two round trips against the definition.
#include <algorithm>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
#include "common.h"
using namespace compute_engine::core;
using namespace compute_engine::core::bitpacking;
template <class T> struct Out { std::vector<unsigned char> raw; };
template <class T> void run(Rng& r, const char* nm, int rows, int cols, T zv, T ov, bool dflt) {
  CTX("unpack_matrix<%s> rows=%d cols=%d zero=%g one=%g", nm, rows, cols, (double)zv, (double)ov);
  size_t nw = (size_t)rows * cdiv32(cols), n = (size_t)rows * cols;
  std::vector<std::int32_t> in(nw); for (auto& w : in) w = (std::int32_t)r.u();
  int pre = r.in(0, 3), post = r.in(0, 5);
  T* out = (T*)malloc((pre + n + post) * sizeof(T) + 1);
  std::vector<T> before(pre + n + post); for (size_t i = 0; i < before.size(); i++) { before[i] = (T)r.in(0, 1); out[i] = before[i]; }
  if (dflt) unpack_matrix(in.data(), rows, cols, out + pre); else unpack_matrix(in.data(), rows, cols, out + pre, zv, ov);
  g_cases++; if (n) g_distinct++;
  for (size_t i = 0; i < before.size(); i++) {
    if (i < (size_t)pre || i >= pre + n) { if (out[i] != before[i]) FAIL("element %ld outside the output changed", (long)i - pre); continue; }
    size_t e = i - pre, y = e / cols, c = e % cols;
    T want = bitof(in[y * cdiv32(cols) + c / 32], c % 32) ? ov : zv;
    if (out[i] != want) FAIL("row %zu column %zu is %g", y, c, (double)out[i]);
  }
  // values that went through unpack pack back to the same words (padding cleared)
  if (std::is_same<T, float>::value && zv > 0 && ov < 0) {
    std::vector<std::int32_t> back(nw, -1);
    bitpack_matrix((const float*)(const void*)(out + pre), rows, cols, back.data(), 0);
    for (size_t i = 0; i < nw; i++) { int c0 = 32 * (int)(i % std::max(1, cdiv32(cols))); std::uint32_t m = cols - c0 >= 32 ? ~0u : ((1u << (cols - c0)) - 1); if ((std::uint32_t)back[i] != ((std::uint32_t)in[i] & m)) FAIL("word %zu does not survive unpack-pack", i); }
  }
  free(out);
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  for (int cols = 0; cols <= 140; cols++) for (int rows : {0, 1, 3}) {
    run<float>(r, "float", rows, cols, 1.0f, -1.0f, true);
    run<std::int8_t>(r, "int8", rows, cols, 1, -1, true);
    run<bool>(r, "bool", rows, cols, true, false, false);
  }
  for (long i = 0; i < iters; i++) {
    int rows = r.in(0, 7), cols = r.in(0, 300);
    switch (r.in(0, 2)) {
      case 0: run<float>(r, "float", rows, cols, (float)r.in(-3, 3), (float)r.in(-3, 3), false); break;
      case 1: run<std::int8_t>(r, "int8", rows, cols, (std::int8_t)r.in(-128, 127), (std::int8_t)r.in(-128, 127), false); break;
      default: run<bool>(r, "bool", rows, cols, r.coin(), r.coin(), false);
    }
  }
  return finish();
}
