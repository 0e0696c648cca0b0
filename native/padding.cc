// Padding fusion: the real predicates on randomly built graphs against convolutions computed both ways.
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "larq_compute_engine/mlir/transforms/padding.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#define pass pass_fuse
#include "larq_compute_engine/mlir/transforms/fuse_padding.cc"
#undef pass
#define pass pass_prepare
#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
#undef pass
namespace mlir { namespace lq {
void LarqDialect::initialize() {}
Operation* LarqDialect::materializeConstant(OpBuilder&, Attribute, Type, Location) { return nullptr; }
} }
#include "common.h"
using namespace mlir;
typedef std::vector<long> V;
// one dimension: pad explicitly and convolve 'VALID', or let the convolution pad ('SAME'); n = -1 when there is no output
static V conv(const V& x, const V& f, int s, int d, int before, int outs) {
  V y;
  for (int o = 0; o < outs; o++) { long a = 0; for (int k = 0; k < (int)f.size(); k++) { int j = o * s + k * d - before; if (j >= 0 && j < (int)x.size()) a += x[j] * f[k]; } y.push_back(a); }
  return y;
}
struct Dim { int in, f, s, d, b, a, out; bool ok; bool valid; };
static Dim mk(Rng& r, int s, bool nice) {
  Dim q; q.in = r.in(1, 12); q.f = r.in(1, 5); q.s = s; q.d = r.chance(3) ? r.in(2, 3) : 1;
  int eff = (q.f - 1) * q.d + 1, so = (q.in + s - 1) / s, tot = std::max(0, (so - 1) * s + eff - q.in);
  int t = nice || r.coin() ? tot : r.coin() ? std::max(0, tot + r.in(-2, 3)) : r.in(0, 7);
  q.b = t / 2; q.a = t - q.b;
  if (!nice && r.chance(3)) { q.b = r.in(0, 4); q.a = r.in(0, 4); }
  if (!nice && r.chance(6)) std::swap(q.b, q.a);
  int n = q.in + q.b + q.a;
  q.valid = n >= eff; q.out = q.valid ? (n - eff) / s + 1 : 0;
  // equivalent iff the padded VALID convolution and the SAME one agree on data that tells positions apart
  if (q.valid) {
    V x, f; for (int i = 0; i < q.in; i++) x.push_back(1000003L + 7919L * i * i + 31 * i); for (int k = 0; k < q.f; k++) f.push_back(1 + 104729L * k * k + k);
    q.ok = so == q.out && conv(x, f, s, q.d, q.b, q.out) == conv(x, f, s, q.d, tot / 2, so);
  } else q.ok = false;
  return q;
}
static bool beyond(const Dim& q) { int eff = (q.f - 1) * q.d + 1, so = (q.in + q.s - 1) / q.s, tot = std::max(0, (so - 1) * q.s + eff - q.in); return q.s > 1 && q.b + q.a > tot; }
int main(int c, char** v) {
  std::uint64_t seed = strtoull(v[1], 0, 10); long n = c > 2 ? atol(v[2]) : 1000;
  MLIRContext ctx; ctx.allowUnregisteredDialects(); ctx.loadDialect<func::FuncDialect, arith::ArithDialect>();
  OpBuilder b(&ctx); Location L = b.getUnknownLoc();
  auto val = [&](Type t) { OperationState st(L, "test.value"); st.addTypes(t); return Operation::create(st); };
  for (long it = 0; it < n; it++) {
    Rng r(seed * 7000003 + it);
    bool nice = r.coin();
    Dim h = mk(r, r.in(1, 3), nice), w = mk(r, r.in(1, 3), nice || r.coin());
    if (!h.valid || !w.valid) continue;
    int bb = 0, ba = 0, cb = 0, ca = 0;
    if (!nice && r.chance(4)) { bb = r.in(0, 1); ba = r.in(0, 1); cb = r.in(0, 1); ca = r.in(0, 1); }
    int N = r.in(1, 2), ci = r.in(1, 3), co = r.in(1, 4), m = r.in(0, 11);
    // odd graphs: wrong constants, dynamic or wrongly ranked tensors
    bool wide = m == 0, shape = m == 1, splat = m == 2, dynin = m == 3, dynout = m == 4, rank = m == 5, dynf = m == 6, odd = m == 7;
    std::vector<int64_t> P = {bb, ba, h.b, h.a, w.b, w.a, cb, ca};
    CTX("in %dx%d filter %dx%d stride %d,%d dilation %d,%d pads h(%d,%d) w(%d,%d) batch(%d,%d) channel(%d,%d) out %dx%d variant %d", h.in, w.in, h.f, w.f, h.s, w.s, h.d, w.d, h.b, h.a, w.b, w.a, bb, ba, cb, ca, h.out, w.out, m);
    std::vector<int32_t> P32(P.begin(), P.end());
    Attribute pads;
    if (wide) pads = DenseElementsAttr::get(RankedTensorType::get({4, 2}, b.getI64Type()), llvm::ArrayRef<int64_t>(P));
    else if (shape) pads = DenseElementsAttr::get(r.coin() ? RankedTensorType::get({2, 4}, b.getI32Type()) : RankedTensorType::get({8}, b.getI32Type()), llvm::ArrayRef<int32_t>(P32));
    else if (splat) { pads = DenseElementsAttr::get(RankedTensorType::get({4, 2}, b.getI32Type()), llvm::ArrayRef<int32_t>(int32_t(1))); bb = ba = cb = ca = 1; }
    else if (odd) pads = r.coin() ? Attribute(b.getI32IntegerAttr(0)) : Attribute(b.getStringAttr("x"));
    else pads = DenseElementsAttr::get(RankedTensorType::get({4, 2}, b.getI32Type()), llvm::ArrayRef<int32_t>(P32));
    auto D = [&](bool dyn, int64_t x) { return dyn ? ShapedType::kDynamic : x; };
    bool d1 = r.coin(), d2 = !d1 || r.coin();
    std::vector<int64_t> is = {N, D(dynin && d1, h.in), D(dynin && d2, w.in), ci}, os = {N, D(dynout && d1, h.out), D(dynout && d2, w.out), co};
    if (rank) is.pop_back();
    auto in = val(RankedTensorType::get(is, b.getF32Type()));
    auto fil = val(r.chance(20) ? Type(UnrankedTensorType::get(b.getF32Type())) : Type(RankedTensorType::get({co, D(dynf && d1, h.f), D(dynf && d2, w.f), ci}, b.getF32Type())));
    OperationState st(L, "tfl.conv_2d"); st.addOperands({in->getResult(0), fil->getResult(0)});
    st.addTypes(r.chance(20) ? Type(UnrankedTensorType::get(b.getF32Type())) : Type(RankedTensorType::get(os, b.getF32Type())));
    st.addAttribute("dilation_h_factor", b.getI32IntegerAttr(h.d)); st.addAttribute("dilation_w_factor", b.getI32IntegerAttr(w.d));
    st.addAttribute("stride_h", b.getI32IntegerAttr(h.s)); st.addAttribute("stride_w", b.getI32IntegerAttr(w.s));
    auto cv = Operation::create(st);
    Value I = in->getResult(0), O = cv->getResult(0);
    bool bc = bb || ba || cb || ca;
    auto q = [](bool y) { return y ? "fused" : "not fused"; };
    bool fbc = TFL::NoBatchAndChannelPadding(pads), fh = TFL::IsSamePaddingPartial(pads, I, O, cv->getAttr("stride_h"), 1), fw = TFL::IsSamePaddingPartial(pads, I, O, cv->getAttr("stride_w"), 2);
    bool bad = wide || shape || odd || splat || rank || dynin || dynout;
    if (bad && !splat) {
      if ((wide || shape || odd) && (fbc || fh || fw)) FAIL("malformed padding constant accepted: %d %d %d", fbc, fh, fw);
      if (rank && (fh || fw)) FAIL("input of the wrong rank accepted");
      if ((dynin || dynout) && ((d1 && fh) || (d2 && fw))) FAIL("padding of a dynamic dimension taken for 'same' padding");
    } else if (!splat) {
      if (fbc && bc) FAIL("batch or channel padding accepted");
      if (fh && !h.ok) FAIL("TFLite: height padding is not what the convolution would apply, but %s", q(fh));
      if (fw && !w.ok) FAIL("TFLite: width padding is not what the convolution would apply, but %s", q(fw));
    } else if (fbc) FAIL("splat padding: batch padding accepted");
    Attribute sa[4] = {b.getI32IntegerAttr(1), b.getI32IntegerAttr(h.s), b.getI32IntegerAttr(w.s), b.getI32IntegerAttr(1)};
    bool pf = TFL::IsSamePadding(pads, I, O, b.getArrayAttr(sa));
    if (pf) {
      if (bad) FAIL("TensorFlow: %s although the padding constant or a shape is not usable (variant %d)", q(pf), m);
      if (bc) FAIL("TensorFlow: batch or channel padding accepted");
      // listed in known_findings.json: strided padding beyond 'same' padding (checked by itself below)
      if ((!h.ok && !beyond(h)) || (!w.ok && !beyond(w))) FAIL("TensorFlow: padding is not what the convolution would apply, but %s", q(pf));
      // even then the sizes must agree and the padding be balanced
      if (h.out != (h.in + h.s - 1) / h.s || w.out != (w.in + w.s - 1) / w.s || h.b != (h.b + h.a) / 2 || w.b != (w.b + w.a) / 2) FAIL("TensorFlow: sizes or padding do not match 'same' padding, but %s", q(pf));
    }
    g_cases++; g_distinct += (fh && fw) || pf || !nice;
    // what 'same' padding itself amounts to, written explicitly, keeps being recognised (guards against vacuous runs)
    cv->destroy(); fil->destroy(); in->destroy();
  }
  {
    std::vector<int32_t> P = {0, 0, 1, 1, 1, 1, 0, 0};
    auto pads = DenseElementsAttr::get(RankedTensorType::get({4, 2}, b.getI32Type()), llvm::ArrayRef<int32_t>(P));
    auto in = val(RankedTensorType::get({1, 32, 32, 8}, b.getF32Type())), out = val(RankedTensorType::get({1, 16, 16, 8}, b.getF32Type()));
    Attribute sa[4] = {b.getI32IntegerAttr(1), b.getI32IntegerAttr(2), b.getI32IntegerAttr(2), b.getI32IntegerAttr(1)};
    if (TFL::IsSamePadding(pads, in->getResult(0), out->getResult(0), b.getArrayAttr(sa))) printf("KNOWN prepare_tf.cc IsSamePadding fuses pads (1,1) of a 32x32 image before a 3x3 filter with stride 2, where 'same' padding is (0,1)\n");
    in->destroy(); out->destroy();
  }
  return finish();
}
