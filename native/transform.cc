// The output stage for float and int8 results.
#include <cmath>
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bconv2d/output_transform.h"
#include "common.h"
using namespace compute_engine::core::bconv2d;
using compute_engine::core::TBitpacked;
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  for (long i = 0; i < iters; i++) {
    int n = r.in(1, 9); std::vector<float> mul(n), bias(n);  std::vector<std::int32_t> thr(n);
    for (int k = 0; k < n; k++) { mul[k] = (float)r.in(-64, 64) / 16; bias[k] = (float)r.in(-4000, 4000) / 16; thr[k] = r.chance(6) ? r.pick<std::int32_t>({2147483647, -2147483647 - 1, 0}) : r.in(-2, 300); }
    int K = r.pick({1, 9, 27, 288, 576, 4608, 60000}); int lo = r.chance(4) ? -2147483647 - 1 : r.in(-5, 2 * K), hi = r.chance(4) ? 2147483647 : r.in(lo < -5 ? -5 : lo, 2 * K + 5);
    OutputTransform<float> f; f.clamp_min = lo; f.clamp_max = hi; f.multiplier = mul.data(); f.bias = bias.data();
    OutputTransform<std::int8_t> q; q.clamp_min = lo; q.clamp_max = hi; q.multiplier = mul.data(); q.bias = bias.data();
    OutputTransform<TBitpacked> b; b.thresholds = thr.data();
    for (int k = 0; k < n; k++) for (int t = 0; t < 12; t++) {
      int acc = t == 0 ? 0 : t == 1 ? K : t == 2 ? lo / 2 : t == 3 ? hi / 2 : r.in(0, K); if (acc < 0 || acc > (1 << 29)) acc = 0;
      CTX("accumulator %d clamp [%d,%d] channel %d of %d multiplier %g bias %g threshold %d", acc, lo, hi, k, n, mul[k], bias[k], thr[k]);
      long x = 2l * acc; if (x > hi) x = hi; if (x < lo) x = lo;
      double e = (double)x * mul[k] + bias[k];
      if (std::fabs(e) < 1e6) { float got = f.Run(acc, k); if (got != (float)e) FAIL("float result %g, expected %g", got, e);
        double s1 = std::ceil(e - 0.5), s2 = std::floor(e + 0.5); auto sat = [](double v) { return (int)(v > 127 ? 127 : v < -128 ? -128 : v); };
        int g8 = q.Run(acc, k); if (g8 != sat(s1) && g8 != sat(s2)) FAIL("int8 result %d, expected %d (%g)", g8, sat(s2), e); }
      if (b.Run(acc, k) != (acc > thr[k])) FAIL("bit is %d", (int)b.Run(acc, k));
      g_cases++; g_distinct++;
    }
  }
  for (int x = -70000; x <= 70000; x++) { CTX("saturate(%d)", x); int w = x > 127 ? 127 : x < -128 ? -128 : x; if (saturate(x) != w) FAIL("is %d", saturate(x)); g_cases++; }
  for (int x = -4000; x <= 4000; x++) { float v = x / 16.0f; CTX("round(%g)", v); int g = compute_engine::core::bconv2d::round(v); if (std::fabs(g - v) > 0.5f) FAIL("is %d", g); g_cases++; }
  for (std::int32_t x : {2147483647, -2147483647 - 1, 128, -129}) { CTX("saturate(%d)", x); if (saturate(x) != (x > 0 ? 127 : -128)) FAIL("is %d", saturate(x)); }
  return finish();
}
