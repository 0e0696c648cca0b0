// Packing into 4x4 blocks and the portable matrix kernels, on sub-blocks.
#include "larq_compute_engine/core/types.h"
#include "tensorflow/lite/kernels/internal/types.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
#include "larq_compute_engine/core/bgemm/bgemm.h"
#include "common.h"
#include <cmath>
#include <memory>
using namespace compute_engine::core;
using bconv2d::OutputTransform;
using W = std::int32_t;
static W rw(Rng& r) { return r.chance(8) ? 0 : r.chance(8) ? -1 : (W)r.u(); }
static void pack44(Rng& r) {
  int rows = r.in(1, 19), cols = r.in(1, 19), stride = rows + r.in(0, 3), pst = (rows + 3) / 4 * 4, pc = (cols + 3) / 4 * 4;
  int b0 = r.in(0, pc / 4 - 1), b1 = r.in(b0 + 1, pc / 4), c0 = b0 * 4, c1 = b1 * 4;
  CTX("4x4 packing of %dx%d (stride %d), packed columns %d..%d of %d", rows, cols, stride, c0, c1, pc);
  std::vector<W> src((size_t)stride * (cols - 1) + rows); for (auto& x : src) x = rw(r);
  std::unique_ptr<W[]> out(new W[(size_t)pst * pc]); for (int i = 0; i < pst * pc; i++) out[i] = 0x5a5a5a5a;
  ruy::Mat<W> m; m.data.set(src.data()); m.layout.rows = rows; m.layout.cols = cols; m.layout.stride = stride;
  ruy::PMat<W> p; p.data = out.get(); p.layout.rows = pst; p.layout.cols = pc; p.layout.stride = pst; p.layout.kernel.rows = 4; p.layout.kernel.cols = 4;
  bgemm::LceRuyPackImpl<ruy::Path::kNeon, ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>, ruy::Order::kColMajor>::Run(ruy::Tuning::kAuto, m, &p, c0, c1);
  for (int c = 0; c < pc; c++) for (int k = 0; k < pst; k++) {
    W got = out[(c / 4 * 4) * pst + (k / 4 * 4) * 4 + (c % 4) * 4 + k % 4];
    W want = c < c0 || c >= c1 ? 0x5a5a5a5a : (k < rows && c < cols ? src[(size_t)c * stride + k] : 0);
    if (got != want) FAIL("row %d column %d is %08x, expected %08x", k, c, (unsigned)got, (unsigned)want);
  }
  g_cases++; g_distinct += rows % 4 != 0 || cols % 4 != 0;
}
template <class T> static void fillot(OutputTransform<T>& t, std::vector<float>& m, std::vector<float>& b, std::vector<W>&, int n, Rng& r) {
  t.clamp_min = r.chance(3) ? r.in(0, 60) : -1000000; t.clamp_max = r.chance(3) ? r.in(60, 200) : 1000000; t.multiplier = m.data(); t.bias = b.data();
}
static void fillot(OutputTransform<W>& t, std::vector<float>&, std::vector<float>&, std::vector<W>& th, int, Rng&) { t.thresholds = th.data(); }
template <class T> static void kernel(Rng& r) {
  const bool bits = std::is_same<T, W>::value;
  int depth = r.in(1, 7), n = bits ? r.pick({1, 7, 31, 32, 33, 40, 63, 64, 65, 96, 100}) : r.in(1, 20), m = r.in(1, 7);
  int stride = n + (bits ? 0 : r.in(0, 2)), al = bits ? 32 : 1, prow = (n + al - 1) / al * al;
  int rs = r.in(0, (prow / al) - 1) * al, re = rs + r.in(1, (prow - rs) / al) * al, cs = r.in(0, m - 1), ce = r.in(cs + 1, m);
  CTX("kernel with %d rows (stride %d), %d columns, depth %d, output %s, block rows %d..%d columns %d..%d", n, stride, m, depth, bits ? "bits" : sizeof(T) == 1 ? "int8" : "float", rs, re, cs, ce);
  std::vector<W> a((size_t)depth * prow), b((size_t)depth * m); for (auto& x : a) x = rw(r); for (auto& x : b) x = rw(r);
  // lhs: one block of kc columns per kernel layout, column index fastest only inside its block (rows are 1 high)
  int kc = al; std::vector<W> pa(a.size());
  for (int c = 0; c < prow; c++) for (int k = 0; k < depth; k++) pa[(size_t)(c / kc * kc) * depth + k * kc + c % kc] = c < n ? a[(size_t)c * depth + k] : 0;
  ruy::PMat<W> L, R; L.data = pa.data(); L.layout.rows = depth; L.layout.cols = prow; L.layout.stride = depth; L.layout.kernel.rows = 1; L.layout.kernel.cols = kc;
  R.data = b.data(); R.layout.rows = depth; R.layout.cols = m; R.layout.stride = depth;
  std::vector<float> mul(n), bi(n); std::vector<W> th(n);
  for (int i = 0; i < n; i++) { mul[i] = (float)r.in(-8, 8) / 8; bi[i] = (float)r.in(-64, 64) / 4; th[i] = r.in(-1, 32 * depth); }
  bgemm::BinaryMulParams<W, T> mp; fillot(mp.output_transform, mul, bi, th, n, r);
  int ds = bits ? cdiv32(stride) : stride; size_t dn = (size_t)ds * m;
  std::unique_ptr<T[]> d(new T[dn]), o(new T[dn]); for (size_t i = 0; i < dn; i++) d[i] = o[i] = bits ? (T)0 : (T)55;
  ruy::Mat<T> D; D.data.set(d.get()); D.layout.rows = n; D.layout.cols = m; D.layout.stride = stride;
  bgemm::RunBGemmKernelTyped<ruy::Path::kStandardCpp>(ruy::Tuning::kAuto, L, R, mp, rs, cs, re, ce, &D);
  auto acc = [&](int i, int j) { int s = 0; for (int k = 0; k < depth; k++) s += __builtin_popcount((unsigned)(a[(size_t)i * depth + k] ^ b[(size_t)j * depth + k])); return s; };
  for (int j = 0; j < m; j++) for (int i = 0; i < ds; i++) {
    T want = o[(size_t)j * ds + i];
    if (j >= cs && j < ce) {
      if (bits) { if (32 * i >= rs && 32 * i < re) { W w = 0; for (int z = 0; z < 32 && 32 * i + z < n; z++) if (acc(32 * i + z, j) > th[32 * i + z]) w |= (W)(1u << z); want = (T)w; } }
      else if (i >= rs && i < re && i < n) {
        auto tr = [&](auto& t, int v) { long x = 2l * v; if (x > t.clamp_max) x = t.clamp_max; if (x < t.clamp_min) x = t.clamp_min; return (double)x * mul[i] + bi[i]; };
        if constexpr (!std::is_same<T, W>::value) {
          double e = tr(mp.output_transform, acc(i, j));
          if (sizeof(T) == 4) want = (T)(float)e;
          else { auto sat = [](double v) { return (int)(v > 127 ? 127 : v < -128 ? -128 : v); }; int g = (int)d[(size_t)j * ds + i]; want = (T)(g == sat(std::ceil(e - 0.5)) ? g : sat(std::floor(e + 0.5))); }
        }
      }
    }
    if (d[(size_t)j * ds + i] != want) FAIL("destination row %d column %d is %g, expected %g", i, j, (double)d[(size_t)j * ds + i], (double)want);
  }
  g_cases++; g_distinct += m > 1 && n > 1;
}
#if !RUY_PLATFORM_NEON
// stands for an optimised kernel, which takes column-major matrices only
namespace compute_engine { namespace core { namespace bgemm {
template <class T, class MP> struct BGemmKernel<ruy::Path::kNeon, T, MP> {
  using LhsLayout = ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 8>; using RhsLayout = ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>;
  explicit BGemmKernel(ruy::Tuning) {}
  void Run(const ruy::PMat<TBitpacked>&, const ruy::PMat<TBitpacked>&, const MP&, int, int, int, int, ruy::Mat<T>*) const {}
};
} } }
#endif
// which implementation a product is handed to, and with what
static void populate(Rng& r) {
  using MP = bgemm::BinaryMulParams<std::int16_t, float>; using O = ruy::Order;
  ruy::Mat<W> L, R; ruy::Mat<float> D; W a, b; float d; L.data.set(&a); R.data.set(&b); D.data.set(&d);
  auto dim = [&](ruy::MatLayout& l) { l.rows = r.in(1, 40); l.cols = r.in(1, 40); l.stride = l.rows + r.in(0, 4); l.order = r.chance(4) ? O::kRowMajor : O::kColMajor; };
  dim(L.layout); dim(R.layout); dim(D.layout); MP mp; memset((void*)&mp, r.in(0, 255), sizeof mp);
  bool plain = r.chance(3), col = L.layout.order == O::kColMajor && R.layout.order == O::kColMajor && D.layout.order == O::kColMajor;
  CTX("setting up a product for %s, orders %d %d %d", plain ? "the portable kernel" : "an optimised kernel", (int)L.layout.order, (int)R.layout.order, (int)D.layout.order);
  ruy::TrMulParams p; if (plain) bgemm::PopulateBGemmTrMulParams<ruy::Path::kStandardCpp>(L, R, D, mp, &p); else bgemm::PopulateBGemmTrMulParams<ruy::Path::kNeon>(L, R, D, mp, &p);
  bool opt = !plain && col; auto& pl = p.packed[ruy::Side::kLhs].layout; auto& pr = p.packed[ruy::Side::kRhs].layout;
  if (p.path != (opt ? ruy::Path::kNeon : ruy::Path::kStandardCpp)) FAIL("path %d", (int)p.path);
  auto same = [](const ruy::MatLayout& x, const ruy::MatLayout& y) { return x.rows == y.rows && x.cols == y.cols && x.stride == y.stride && x.order == y.order; };
  if (p.src[ruy::Side::kLhs].data != &a || p.src[ruy::Side::kRhs].data != &b || p.dst.data != &d || !same(p.src[ruy::Side::kLhs].layout, L.layout) || !same(p.src[ruy::Side::kRhs].layout, R.layout) || !same(p.dst.layout, D.layout)) FAIL("other operands");
  if (memcmp(p.mul_params_bytes, &mp, sizeof mp)) FAIL("other parameters");
  int kr = opt ? 4 : 1, lc = opt ? 8 : 1, rc = opt ? 4 : 1;
  if (pl.kernel.rows != kr || pl.kernel.cols != lc || pr.kernel.rows != kr || pr.kernel.cols != rc) FAIL("blocks of %dx%d and %dx%d, expected %dx%d and %dx%d", pl.kernel.rows, pl.kernel.cols, pr.kernel.rows, pr.kernel.cols, kr, lc, kr, rc);
  g_cases++; g_distinct += col;
}
// what the assembly kernels are told about their block
template <class T, int LC, int RC> static void params(Rng& r) {
  const bool bits = std::is_same<T, W>::value;
  int depth = 4 * r.in(1, 5), n = r.in(1, 40), m = r.in(1, 20), stride = n + r.in(0, 40), rb = (n + LC - 1) / LC, cb = (m + RC - 1) / RC;
  int rs = r.in(0, rb - 1) * LC, cs = r.in(0, cb - 1) * RC, re = r.in(rs / LC + 1, rb) * LC, ce = r.in(cs / RC + 1, cb) * RC, ls = depth + 4 * r.in(0, 2), st = depth + 4 * r.in(0, 2);
  CTX("kernel parameters: %d rows (stride %d), %d columns, depth %d, packed strides %d and %d, output %s, block rows %d..%d columns %d..%d", n, stride, m, depth, ls, st, bits ? "bits" : sizeof(T) == 1 ? "int8" : "float", rs, re, cs, ce);
  std::vector<W> a((size_t)ls * rb * LC), b((size_t)st * cb * RC); std::vector<T> d((size_t)stride * m + 64);
  ruy::PMat<W> L, R; L.data = a.data(); L.layout.rows = depth; L.layout.cols = rb * LC; L.layout.stride = ls; R.data = b.data(); R.layout.rows = depth; R.layout.cols = cb * RC; R.layout.stride = st;
  ruy::Mat<T> D; D.data.set(d.data()); D.layout.rows = n; D.layout.cols = m; D.layout.stride = stride;
  std::vector<float> mul(n), bi(n); std::vector<W> th(n);
  bgemm::BinaryMulParams<std::int16_t, T> mp; fillot(mp.output_transform, mul, bi, th, n, r);
  bgemm::BinaryKernelParams<T, LC, RC> p; memset((void*)&p, 0x5a, sizeof p);
  bgemm::MakeBinaryKernelParams(L, R, rs, cs, re, ce, &D, mp, &p);
  int ds = bits ? cdiv32(stride) : stride;
  if (p.lhs_base_ptr != a.data() + (long)rs * ls) FAIL("left operand starts at word %ld, expected %ld", (long)(p.lhs_base_ptr - a.data()), (long)rs * ls);
  if (p.rhs_base_ptr != b.data() + (long)cs * st) FAIL("right operand starts at word %ld, expected %ld", (long)(p.rhs_base_ptr - b.data()), (long)cs * st);
  long at = (char*)p.dst_base_ptr - (char*)d.data(), want = bits ? (long)cs * ds * 4 + rs / 8 : ((long)cs * ds + rs) * (long)sizeof(T);
  if (at != want) FAIL("destination starts at byte %ld, expected %ld", at, want);
  struct { const char* what; long is, want; } F[] = {{"first row", p.start_row, rs}, {"first column", p.start_col, cs}, {"last block of rows", p.last_row, re - LC}, {"last block of columns", p.last_col, ce - RC}, {"destination rows", p.dst_rows, n}, {"destination columns", p.dst_cols, m},
    {"left stride (bytes)", p.lhs_stride, 4l * ls}, {"right stride (bytes)", p.rhs_stride, 4l * st}, {"destination stride (bytes)", p.dst_stride, (long)sizeof(T) * ds}, {"depth", p.depth, depth}};
  for (auto& f : F) if (f.is != f.want) FAIL("%s is %ld, expected %ld", f.what, f.is, f.want);
  if (memcmp(&p.output_transform, &mp.output_transform, sizeof p.output_transform)) FAIL("another output transformation");
  if ((char*)(&p.dst_tmp_buf) + LC * RC * sizeof(T) > (char*)(&p + 1)) FAIL("the buffer for a block holds fewer than %d values", LC * RC);
  g_cases++; g_distinct += rs || cs;
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  for (long i = 0; i < iters; i++) { pack44(r); if (i % 4 == 0) populate(r); kernel<float>(r); kernel<std::int8_t>(r); kernel<W>(r); if (i % 2) params<float, 8, 4>(r), params<std::int8_t, 8, 4>(r), params<W, 8, 4>(r); else params<float, 4, 4>(r), params<std::int8_t, 4, 4>(r); }
  return finish();
}
