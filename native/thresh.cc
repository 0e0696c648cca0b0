// Thresholds of bit-packed outputs: the real computation of the converter and the real comparison of the runtime against the exact sign of the output.
#include <cmath>
#include "larq_compute_engine/mlir/transforms/optimize.cc"
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bconv2d/output_transform.h"
#include "common.h"
using namespace mlir;
static MLIRContext* X;
typedef std::vector<float> F;
static DenseElementsAttr vec(const F& v) { return DenseElementsAttr::get(RankedTensorType::get({(int64_t)v.size()}, FloatType::getF32(X)), llvm::ArrayRef<float>(v)); }
static float ulps(float x, int n) { for (; n > 0; n--) x = std::nextafterf(x, INFINITY); for (; n < 0; n++) x = std::nextafterf(x, -INFINITY); return x; }
// clamp(s * (a - 2x), lo, hi) * m + b < 0: the product is exact in double precision, and so is the comparison
static bool negative(long a, long lo, long hi, float m, float b, long x) {
  long v = m >= 0 ? a - 2 * x : 2 * x - a; v = v < lo ? lo : v > hi ? hi : v;
  return (double)v * (double)m < -(double)b;
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  MLIRContext ctx; X = &ctx; Builder b(X);
  for (long it = 0; it < iters; it++) {
    int h = r.in(1, 4), w = r.in(1, 4), ci = r.chance(3) ? r.pick({1, 31, 32, 33, 64, 128, 256, 512}) : r.in(1, 100), n = r.in(1, 6);
    if (r.chance(40)) { h = w = 1; ci = r.pick({1, 3, 4095, 65536, 1000000, 16777217, 33554433, 67108863}); }
    long a = (long)h * w * ci;
    const char* act = r.pick({"NONE", "RELU", "RELU_N1_TO_1", "RELU6"});
    long lo = -a, hi = a;
    if (!strcmp(act, "RELU")) lo = 0; else if (!strcmp(act, "RELU_N1_TO_1")) lo = -1, hi = 1; else if (!strcmp(act, "RELU6")) lo = 0, hi = 6;
    F m(n), bi(n);
    for (int k = 0; k < n; k++) {
      switch (r.in(0, 7)) {
        case 0: m[k] = 0.0f; break; case 1: m[k] = r.coin() ? 1.0f : -1.0f; break; case 2: m[k] = r.pick({1e-30f, -1e-30f, 1e20f, -1e20f, 1e-42f, 3.0f, -3.0f}); break; case 3: if (r.chance(4)) { m[k] = -0.0f; break; }
        default: m[k] = (float)r.in(-100000, 100000) / r.pick({7, 999, 31415, 1 << 20});
      }
      // mostly biases for which the output is zero, or as close to it as can be, for some accumulator
      long v = r.chance(3) ? r.pick({lo, hi, lo + 1, hi - 1, 0l}) : a - 2 * (long)(r.u() % (a + 1));
      switch (r.in(0, 5)) {
        case 0: bi[k] = (float)r.in(-100000, 100000) / 977; break;
        case 1: bi[k] = r.pick({0.0f, -0.0f, 1e-42f, -1e-42f, 1e-9f, -1e-9f, 1e10f, -1e10f}); break;
        default: bi[k] = ulps((float)(-(double)v * m[k]), r.chance(2) ? r.in(-2, 2) : r.in(-40, 40)); if (!std::isfinite(bi[k])) bi[k] = 0.0f;
      }
    }
    auto ft = RankedTensorType::get({n, h, w, ci}, FloatType::getF32(X)); DenseElementsAttr filter = DenseElementsAttr::get(ft, llvm::ArrayRef<float>(1.0f));
    CTX("filter %dx%dx%dx%d activation %s multiplier %.9g bias %.9g", n, h, w, ci, act, m[0], bi[0]);
    auto signs = TFL::GetSignsOfVectorAndBroadcast4D(vec(m).cast<TypedAttr>());
    if (signs.getType().getShape() != llvm::ArrayRef<int64_t>({n, 1, 1, 1}) || !signs.getElementType().isF32()) FAIL("the signs have the wrong type");
    auto t = TFL::GetBitpackedOutputThresholds(b, filter.cast<TypedAttr>(), vec(m), vec(bi), StringAttr::get(X, act));
    if (t.getType().getShape() != llvm::ArrayRef<int64_t>({n}) || !t.getElementType().isInteger(32)) FAIL("the thresholds have the wrong type");
    std::vector<std::int32_t> thr; std::vector<float> sg; for (auto x : t.getValues<std::int32_t>()) thr.push_back(x); for (auto x : signs.getValues<float>()) sg.push_back(x);
    compute_engine::core::bconv2d::OutputTransform<compute_engine::core::TBitpacked> ot; ot.thresholds = thr.data();
    for (int k = 0; k < n; k++) {
      g_cases++;
      if (sg[k] != (m[k] >= 0 ? 1.0f : -1.0f)) FAIL("channel %d: multiplier %g has sign %g", k, m[k], sg[k]);
      auto one = [&](long x) {
        if (x < 0 || x > a) return;
        bool want = negative(a, lo, hi, m[k], bi[k], x), got = ot.Run((int)x, k);
        if (want != got) FAIL("channel %d (multiplier %.9g, bias %.9g, threshold %d): accumulator %ld of %ld gives the bit %d, the output is %s", k, m[k], bi[k], thr[k], x, a, (int)got, want ? "negative" : "not negative");
      };
      if (a <= 6000) for (long x = 0; x <= a; x++) one(x);
      else for (int j = 0; j < 200; j++) { one(r.u() % (a + 1)); one((long)thr[k] - 3 + r.in(0, 6)); one(a - r.in(0, 3)); one(r.in(0, 3)); one(a / 2 - 5 + r.in(0, 10)); }
      if (thr[k] >= 0 && thr[k] < a) g_distinct++;
    }
  }
  return finish();
}
