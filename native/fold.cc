// Constant folding: what the real folders and packing functions make of a constant against what the real runtime operators make of the same data.
#include <algorithm>
#include <cmath>
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
// MLIR does not define dense constants with a quantized element type (known finding): such a constant is kept by its storage bytes here
static mlir::Type g_quantized;
namespace mlir {
template <> DenseElementsAttr DenseElementsAttr::get<std::int8_t, void>(const ShapedType& t, ArrayRef<std::int8_t> v) {
  ShapedType u = t;
  if (!t.getElementType().isIntOrFloat()) {
    if (!g_quantized) printf("KNOWN bitpack.cc Unpack makes a dense constant with a quantized element type, which MLIR does not define (it crashes on 1x1x3x1 int8)\n");
    g_quantized = t; u = RankedTensorType::get(t.getShape(), IntegerType::get(t.getContext(), 8));
  }
  return DenseElementsAttr::getFromRawBuffer(u, ArrayRef<char>((const char*)v.data(), v.size()));
}
}
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#define pass pass_weights
#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
#undef pass
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "tfl.h"
using namespace mlir;
static MLIRContext* X;
static OpBuilder* B;
typedef std::vector<int> D;
static long count(const D& d) { long n = 1; for (int x : d) n *= x; return n; }
static std::vector<int64_t> w64(const D& d) { return std::vector<int64_t>(d.begin(), d.end()); }
static D shape(Rng& r, int nd) { D d; for (int i = 0; i + 1 < nd; i++) d.push_back(r.chance(20) ? 0 : r.in(1, 3)); if (nd) d.push_back(r.chance(3) ? r.pick({1, 31, 32, 33, 63, 64, 65, 96, 128}) : r.in(r.chance(20) ? 0 : 1, 140)); return d; }
// fold an operation whose operand is a constant (or not, when a is null)
static Attribute fold(Rng& r, const char* name, Type in, Type out, Attribute a, bool direct) {
  if (direct && a) { if (!strcmp(name, "lq.Quantize")) { Builder b(X); return TFL::Bitpack(&b, a); } return TFL::Unpack(a, out.cast<ShapedType>()); }
  OperationState vs(B->getUnknownLoc(), "test.value"); vs.addTypes(in); auto* v = Operation::create(vs);
  OperationState st(B->getUnknownLoc(), name); st.addOperands(v->getResult(0)); st.addTypes(out);
  auto* op = Operation::create(st); SmallVector<OpFoldResult> res; Attribute ops[1] = {a};
  Attribute x; if (succeeded(op->fold(ops, res)) && !res.empty()) x = res[0].dyn_cast<Attribute>();
  op->destroy(); v->destroy(); return x;
}
static void quantize(Rng& r) {
  D d = shape(r, r.chance(6) ? r.in(0, 5) : 4); bool splat = r.chance(5), f32 = !r.chance(8); long n = count(d); D pd = d; if (!pd.empty()) pd.back() = cdiv32(pd.back());
  std::vector<float> v(n); float sv = rfloat(r); for (auto& x : v) x = splat ? sv : rfloat(r);
  Type et = f32 ? Type(B->getF32Type()) : B->getI32Type(); auto t = RankedTensorType::get(w64(d), et); Attribute a; std::vector<int> iv(n); for (auto& x : iv) x = r.in(-3, 3);
  if (r.chance(15)) a = nullptr; else if (!f32) a = DenseElementsAttr::get(t, llvm::ArrayRef<int>(iv)); else a = splat ? DenseElementsAttr::get(t, llvm::ArrayRef<float>(sv)) : DenseElementsAttr::get(t, llvm::ArrayRef<float>(v));
  if (f32 && splat && a && n == 0) { a = DenseElementsAttr::get(t, llvm::ArrayRef<float>(v)); }
  bool direct = a && r.coin();
  CTX("folding LceQuantize of a %s %s constant %s%s%s", a ? "dense" : "missing", f32 ? "float" : "int32", str(d).c_str(), splat ? " (splat)" : "", direct ? " through Bitpack" : "");
  bool filter = a && TFL::IsConv2DFilter(a);
  Attribute x = fold(r, "lq.Quantize", t, RankedTensorType::get(w64(pd), B->getI32Type()), a, direct);
  g_cases++;
  if (!x) { if (filter) FAIL("accepted as a filter to pack, but it cannot be packed"); if (a && f32 && d.size() == 4) FAIL("a packable constant is not packed"); return; }
  if (!a) FAIL("folded without a constant");
  auto e = x.dyn_cast<DenseElementsAttr>(); if (!e) FAIL("not a dense constant");
  if (!f32) FAIL("an integer constant was packed");
  if (e.getType().getShape() != llvm::ArrayRef<int64_t>(w64(pd)) || !e.getElementType().isInteger(32)) FAIL("folded to the wrong type");
  Net net; int in = net.in(kTfLiteFloat32, d), out = net.out(kTfLiteInt32, D(d.size(), 1)); net.init(compute_engine::tflite::Register_QUANTIZE(), {});
  if (net.prepare() != kTfLiteOk) FAIL("the runtime operator rejects this input: %s", net.err.c_str());
  if (n) memcpy(net.data<float>(in), v.data(), n * 4);
  if (net.eval() != kTfLiteOk) FAIL("Eval failed");
  if (net.dims(out) != pd) FAIL("runtime output shape %s", str(net.dims(out)).c_str());
  long i = 0; for (int w : e.getValues<int>()) { if (w != net.data<int>(out)[i]) FAIL("word %ld is %08x, at run time %08x", i, (unsigned)w, (unsigned)net.data<int>(out)[i]); i++; }
  if (i != count(pd)) FAIL("%ld words instead of %ld", i, count(pd));
  g_distinct++;
}
static void dequantize(Rng& r) {
  D d = shape(r, r.chance(6) ? r.in(1, 5) : 4); D pd = d; pd.back() = cdiv32(pd.back()); bool splat = r.chance(5); int odd = r.in(0, 19);
  if (odd == 0) pd[r.in(0, (int)pd.size() - 1)] += r.pick({1, 2, 31});
  if (odd == 1) { if (pd.size() > 1 && r.coin()) pd.erase(pd.begin()); else pd.insert(pd.begin(), 1); }
  if (odd == 2 && pd.size() > 2) std::swap(pd[0], pd[1]);
  bool fits = pd.size() == d.size(); if (fits) for (size_t i = 0; i < d.size(); i++) fits &= pd[i] == (i + 1 == d.size() ? cdiv32(d[i]) : d[i]);
  long n = count(d), wn = count(pd); std::vector<int> w(wn); int sv = (int)r.u(); for (auto& x : w) x = splat ? sv : (int)r.u();
  int kind = r.pick({0, 0, 1, 1, 1, 2, 3}); double sc = r.coin() ? r.pick({1.0, 0.5, 1.0 / 3, 0.01, 0.0078125, 2.0, 3.0, 0.4, 0.0001}) : r.coin() ? 1.0 / (r.in(1, 300) + 0.5) : r.in(1, 4000) / 1000.0; int zp = r.in(-128, 127);
  // what the file format keeps of a scale is its single-precision value
  Type et = kind == 0 ? Type(B->getF32Type()) : kind == 1 ? Type(quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, B->getI8Type(), B->getF32Type(), sc, zp, -128, 127))
          : kind == 2 ? Type(B->getI1Type()) : Type(quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, B->getIntegerType(16), B->getF32Type(), sc, 0, -32768, 32767));
  auto it = RankedTensorType::get(w64(pd), B->getI32Type()); auto ds = w64(d); bool dyn = odd == 3; if (dyn) ds[r.in(0, (int)ds.size() - 1)] = ShapedType::kDynamic;
  Type ot = RankedTensorType::get(ds, et); bool unr = odd == 4; if (unr) ot = UnrankedTensorType::get(et);
  Attribute a = r.chance(15) ? Attribute() : splat && wn ? DenseElementsAttr::get(it, llvm::ArrayRef<int>(sv)) : DenseElementsAttr::get(it, llvm::ArrayRef<int>(w));
  bool direct = a && r.coin(); const char* kn[] = {"float", "int8", "bool", "int16"};
  CTX("folding LceDequantize of a %s constant %s%s to %s %s (scale %.17g zero point %d)%s%s", a ? "dense" : "missing", str(pd).c_str(), splat ? " (splat)" : "", kn[kind], str(d).c_str(), sc, zp, dyn ? " dynamic" : unr ? " unranked" : "", direct ? " through Unpack" : "");
  Attribute x = fold(r, "lq.Dequantize", it, ot, a, direct);
  g_cases++;
  if (!x) return;
  if (!a) FAIL("folded without a constant");
  if (!fits || dyn || unr) FAIL("folded although the types do not match");
  if (kind == 3) FAIL("folded to int16, which the runtime operator does not produce");
  auto e = x.dyn_cast<DenseElementsAttr>(); if (!e) FAIL("not a dense constant");
  if (kind == 1 ? (e.getType().getShape() != ot.cast<ShapedType>().getShape() || !e.getElementType().isInteger(8) || (g_quantized && g_quantized != ot)) : e.getType() != ot) FAIL("folded to the wrong type");
  Net net; TfLiteType ty = kind == 0 ? kTfLiteFloat32 : kind == 1 ? kTfLiteInt8 : kTfLiteBool;
  int in = net.in(kTfLiteInt32, pd), out = net.out(ty, d); net.t[out].params.scale = (float)sc; net.t[out].params.zero_point = zp; net.init(compute_engine::tflite::Register_DEQUANTIZE(), {});
  if (net.prepare() != kTfLiteOk) FAIL("the runtime operator rejects this input: %s", net.err.c_str());
  if (wn) memcpy(net.data<int>(in), w.data(), wn * 4);
  if (net.eval() != kTfLiteOk) FAIL("Eval failed");
  auto raw = e.getRawData(); size_t es = kind == 0 ? 4 : 1; bool sp = e.isSplat() && raw.size() == es && n != 1;
  if (kind == 2) { long i = 0; for (bool q : e.getValues<bool>()) { if (q != net.data<bool>(out)[i]) FAIL("element %ld differs", i); i++; } g_distinct++; return; }
  if (!sp && raw.size() != n * es) FAIL("%zu bytes instead of %ld", raw.size(), n * (long)es);
  for (long i = 0; i < n; i++) {
    double g = kind == 0 ? ((const float*)raw.data())[sp ? 0 : i] : ((const signed char*)raw.data())[sp ? 0 : i], q = kind == 0 ? net.data<float>(out)[i] : net.data<signed char>(out)[i];
    if (g != q) FAIL("element %ld is %g, at run time %g", i, g, q);
  }
  g_distinct++;
}
// a packing operation as the converter creates it: its type against what the runtime operator produces
static void built(Rng& r) {
  D d = shape(r, r.in(1, 5)); auto s = w64(d); auto want = s; int unknown = 0;
  for (auto& x : s) if (r.chance(8)) { x = ShapedType::kDynamic; unknown++; }
  for (size_t i = 0; i < s.size(); i++) want[i] = s[i] == ShapedType::kDynamic ? s[i] : i + 1 == s.size() ? (int64_t)cdiv32((int)s[i]) : s[i];
  CTX("creating LceQuantize for a float tensor of shape %s%s", str(d).c_str(), unknown ? " (some dimensions of it unknown)" : "");
  OperationState vs(B->getUnknownLoc(), "test.value"); vs.addTypes(RankedTensorType::get(s, B->getF32Type())); auto* v = Operation::create(vs);
  auto q = B->create<lq::QuantizeOp>(B->getUnknownLoc(), v->getResult(0)); auto* op = q.getOperation(); g_cases++;
  if (op->getNumOperands() != 1 || op->getOperand(0) != v->getResult(0)) FAIL("created with other operands");
  if (op->getNumResults() != 1 || op->getResult(0).getType() != RankedTensorType::get(want, B->getI32Type())) FAIL("created with the wrong result type");
  if (!unknown) {
    Net net; int in = net.in(kTfLiteFloat32, d), out = net.out(kTfLiteInt32, D(d.size(), 1)); net.init(compute_engine::tflite::Register_QUANTIZE(), {}); (void)in;
    if (net.prepare() != kTfLiteOk) FAIL("the runtime operator rejects this input: %s", net.err.c_str());
    auto o = net.dims(out); if (std::vector<int64_t>(o.begin(), o.end()) != want) FAIL("the runtime operator produces shape %s", str(o).c_str());
  }
  op->destroy(); v->destroy(); g_distinct++;
}
int main(int argc, char** argv) {
  std::uint64_t seed = argc > 1 ? atoll(argv[1]) : 1; long iters = argc > 2 ? atol(argv[2]) : 3000;
  MLIRContext ctx; ctx.allowUnregisteredDialects(); ctx.loadDialect<func::FuncDialect, arith::ArithDialect, quant::QuantizationDialect, lq::LarqDialect>();
  OpBuilder b(&ctx); X = &ctx; B = &b;
  for (long i = 0; i < iters; i++) { Rng r(seed * 7000003 + i); quantize(r); dequantize(r); if (i % 4 == 0) built(r); }
  return finish();
}
