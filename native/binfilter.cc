// Recognising binary filters: the real predicates of the prepare pass on random constants, against the definition.
#include <cmath>
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
namespace mlir { namespace lq {
void LarqDialect::initialize() {}
Operation* LarqDialect::materializeConstant(OpBuilder&, Attribute, Type, Location) { return nullptr; }
} }
#include "common.h"
using namespace mlir;
typedef std::vector<int64_t> D;
static float ulps(float x, int n) { for (; n > 0; n--) x = std::nextafterf(x, INFINITY); for (; n < 0; n++) x = std::nextafterf(x, -INFINITY); return x; }
static std::string str(const D& d) { std::string s; for (auto x : d) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
int main(int argc, char** argv) {
  std::uint64_t seed = strtoull(argv[1], 0, 10); long iters = argc > 2 ? atol(argv[2]) : 1000;
  MLIRContext ctx; ctx.allowUnregisteredDialects(); ctx.loadDialect<func::FuncDialect, arith::ArithDialect>();
  ctx.getDiagEngine().registerHandler([](Diagnostic&) { return success(); });
  OpBuilder b(&ctx); Location L = b.getUnknownLoc();
  auto val = [&](Type t) { OperationState st(L, "test.value"); st.addTypes(t); return Operation::create(st); };
  Type F32 = b.getF32Type();
  for (long it = 0; it < iters; it++) {
    Rng r(seed * 9000011 + it);
    {  // IsBinaryFilter, GetScaleVector, GetConstantVector
      D d = {r.in(1, 3), r.in(1, 3), r.in(1, 4), r.in(1, 5)};
      if (r.chance(6)) d = {1, 1, r.in(1, 2), 1};
      int variant = r.in(0, 30);
      if (variant == 1) d.pop_back(); else if (variant == 2) d.push_back(1); else if (variant == 3) d = {r.in(1, 4)};
      long n = 1; for (auto x : d) n *= x;
      int C = d.back();
      std::vector<float> sc(C), v(n);
      for (auto& s : sc) {
        s = r.pick({1.0f, -1.0f, 0.5f, 0.1f, -0.25f, 3.0f, -17.3f, 1e-3f, 1e-6f, 1e20f, 0.7312f});
        if (r.chance(25)) s = r.pick({0.0f, -0.0f, 1e-7f, 1.1920929e-7f, -1.1920929e-7f, 1.2e-7f, 1.3e-7f, -1.19e-7f, 1e-42f, INFINITY, NAN, 3.4e38f});
      }
      for (long k = 0; k < n; k++) { float s = sc[k % C]; v[k] = k < C ? s : r.coin() ? s : -s; }
      bool exact = true;
      if (r.chance(3)) {  // change one weight
        exact = false; long k = r.u() % n; float s = sc[k % C];
        switch (r.in(0, 6)) {
          case 0: v[k] = 0.0f; break; case 1: v[k] = NAN; break; case 2: v[k] = INFINITY; break;
          case 3: v[k] = s * (r.coin() ? 1 : -1) * (1.0f + (r.coin() ? 0.005f : -0.005f)); v[k] = ulps(v[k], r.in(-40000, 40000) / (1 << r.in(0, 15))); break;
          case 4: v[k] = s * r.pick({0.99f, 0.994f, 0.996f, 1.004f, 1.006f, 1.02f, -1.004f, -0.994f, 0.5f, 2.0f, 1e-30f}); break;
          case 5: v[k] = sc[r.u() % C]; break; default: v[k] = ulps(s, r.in(-3, 3));
        }
      }
      bool splat = r.chance(10); if (splat) for (auto& x : v) x = v[0];
      bool f32 = variant != 0, dense = variant != 4;
      auto ft = RankedTensorType::get(d, F32);
      std::vector<int> iv(n); for (auto& x : iv) x = r.coin() ? 1 : -1;
      Attribute a;
      if (!dense) a = r.coin() ? (Attribute)b.getI32IntegerAttr(1) : (Attribute)b.getF32FloatAttr(1.0f);
      else if (!f32) a = r.coin() ? DenseElementsAttr::get(RankedTensorType::get(d, b.getI32Type()), llvm::ArrayRef<int>(iv)) : DenseElementsAttr::get(RankedTensorType::get(d, b.getF64Type()), llvm::ArrayRef<double>(std::vector<double>(n, 1.0)));
      else a = splat ? DenseElementsAttr::get(ft, llvm::ArrayRef<float>(v[0])) : DenseElementsAttr::get(ft, llvm::ArrayRef<float>(v));
      CTX("case %ld: %s filter %s%s, first weights %.9g %.9g %.9g %.9g", it, !dense ? "non-dense" : f32 ? "float" : "non-float", str(d).c_str(), splat ? " (splat)" : "", v[0], n > 1 ? v[1] : 0, n > 2 ? v[2] : 0, n > 3 ? v[3] : 0);
      bool want = dense && f32 && d.size() == 4; float worst = 0;
      if (want) for (long k = 0; k < n; k++) {
        float s = v[k % C], q = std::fabs(std::fabs(v[k] / s) - 1.0f);
        if (!(q <= 0.005f) || std::fabs(s) <= std::numeric_limits<float>::epsilon()) { want = false; worst = v[k]; }
      }
      bool got = TFL::IsBinaryFilter(a.cast<TypedAttr>());
      g_cases++;
      if (want != got) FAIL("a filter that is %sbinary (weight %.9g) is taken to be %sbinary", want ? "" : "not ", worst, got ? "" : "not ");
      if (got) {
        g_distinct++;
        DenseElementsAttr s = TFL::GetScaleVector(a.cast<TypedAttr>()), z = TFL::GetConstantVector(a.cast<TypedAttr>(), it & 1 ? 0.0f : 2.5f);
        auto bad = [&](DenseElementsAttr x) { return x.getType().getShape() != llvm::ArrayRef<int64_t>({(int64_t)C}) || !x.getElementType().isF32(); };
        if (bad(s) || bad(z)) FAIL("scale or constant vector has the wrong type");
        std::vector<float> sv(s.getValues<float>().begin(), s.getValues<float>().end()), zv(z.getValues<float>().begin(), z.getValues<float>().end());
        for (int o = 0; o < C; o++) {
          if (sv[o] != std::fabs(v[o])) FAIL("scale of channel %d is %.9g, the weights are +-%.9g", o, sv[o], v[o]);
          if (zv[o] != (it & 1 ? 0.0f : 2.5f)) FAIL("constant vector holds %g at %d", zv[o], o);
        }
        // scale times sign reproduces every weight
        for (long k = 0; k < n; k++) { double p = (v[k] < 0 ? -1.0 : 1.0) * sv[k % C]; if (!(std::fabs(p - v[k]) <= 0.00501 * std::fabs(sv[k % C]))) FAIL("weight %.9g becomes %.9g", v[k], p); }
      }
    }
    {  // IsConstantValue
      int n = r.in(1, 6); float e = r.pick({1.0f, -1.0f, 0.0f, 2.0f}); std::vector<float> v(n, e); bool want = true, f32 = true;
      if (r.coin()) { int k = r.chance(2) ? r.pick({0, n - 1}) : r.in(0, n - 1); v[k] = r.pick({-e, NAN, e + 1, ulps(e, 1), ulps(e, -1), -0.0f, 0.0f}); want = v[k] == e; }
      if (r.chance(4)) v.assign(n, v[0]), want = v[0] == e;
      Attribute a = DenseElementsAttr::get(RankedTensorType::get({n}, F32), llvm::ArrayRef<float>(v));
      int m = r.in(0, 12);
      if (m == 0) { a = DenseElementsAttr::get(RankedTensorType::get({n}, b.getI32Type()), llvm::ArrayRef<int>(std::vector<int>(n, (int)e))); want = f32 = false; }
      if (m == 1) { a = DenseElementsAttr::get(RankedTensorType::get({n}, b.getIntegerType(8)), llvm::ArrayRef<int8_t>(std::vector<int8_t>(n, (int8_t)e))); want = f32 = false; }
      if (m == 2) { a = b.getF32FloatAttr(e); want = false; }
      if (m == 3) { a = DenseElementsAttr::get(RankedTensorType::get({n}, b.getI1Type()), llvm::ArrayRef<bool>({true})); want = f32 = false; }
      if (m == 4) { std::vector<double> dv(v.begin(), v.end()); a = DenseElementsAttr::get(RankedTensorType::get({n}, b.getF64Type()), llvm::ArrayRef<double>(dv)); want = f32 = false; }
      CTX("case %ld: %s constant of %d elements, first %.9g last %.9g, compared with %g", it, f32 ? "float" : "non-float", n, v[0], v[n - 1], e);
      bool got = TFL::IsConstantValue(a, e); g_cases++; g_distinct += want;
      if (got != want) FAIL("IsConstantValue answers %d", (int)got);
      float lo = r.pick({0.0f, -1.0f, e}), hi = r.pick({1.0f, 2.0f, 0.1f}); bool between = f32 && m != 2;
      for (float x : v) between = between && x > lo && x < hi;
      got = TFL::IsConstantBetween(a, lo, hi); g_cases++; g_distinct += between;
      if (got != between) FAIL("IsConstantBetween(%g, %g) answers %d", lo, hi, (int)got);
    }
    {  // SelectsElementwise
      D cs(r.in(0, 3)), ss(r.in(0, 3)); for (auto& d : cs) d = r.in(1, 4); for (auto& d : ss) d = r.chance(6) ? ShapedType::kDynamic : r.in(1, 4);
      auto *c = val(RankedTensorType::get(cs, b.getI1Type())), *s = val(RankedTensorType::get(ss, F32));
      bool want = cs.empty() || cs.size() == ss.size();
      if (r.chance(5)) { c = val(UnrankedTensorType::get(b.getI1Type())); want = false; }
      CTX("case %ld: condition of rank %zu, result of rank %zu", it, cs.size(), ss.size());
      bool got = TFL::SelectsElementwise(s->getResult(0), c->getResult(0)); g_cases++; g_distinct += want;
      if (got != want) FAIL("SelectsElementwise answers %d", (int)got);
    }
    {  // HasValidFilterShape, GetNumChannels
      int ci = r.pick({1, 2, 3, 16, 31, 32, 33, 48, 64, 96, 128}), g = r.pick({1, 1, 2, 3, 4, 8}); long total = (long)ci * g; if (r.chance(4)) total = r.in(1, 300);
      D in = {1, r.in(1, 3), r.in(1, 3), total}, fl = {r.in(1, 3), r.in(1, 3), ci, r.in(1, 7)};
      if (r.chance(8)) in[1] = in[2] = ShapedType::kDynamic;
      if (r.chance(8)) in[0] = ShapedType::kDynamic;
      auto *x = val(RankedTensorType::get(in, F32)), *f = val(RankedTensorType::get(fl, F32));
      CTX("case %ld: input with %ld channels, filter %s", it, total, str(fl).c_str());
      bool want = total % ci == 0 && (total == ci || ci % 32 == 0), got = TFL::HasValidFilterShape(x->getResult(0), f->getResult(0)); g_cases++; g_distinct += want && total != ci;
      if (got != want) FAIL("the filter is %s", got ? "accepted" : "refused");
      IntegerAttr c = TFL::GetNumChannels(b, x->getResult(0));
      if (c.getInt() != total || !c.getType().isInteger(32)) FAIL("channel count %ld", (long)c.getInt());
      x->destroy(); f->destroy();
    }
  }
  return finish();
}
