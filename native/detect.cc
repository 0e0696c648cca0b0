// Detection post-processing on integers: the real pass on random functions; every use of every result is followed to where it comes from.
#include "larq_compute_engine/mlir/transforms/detection_postprocess.cc"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Pass/PassManager.h"
#include "common.h"
using namespace mlir;
static MLIRContext* X;
static std::string str(Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return o.str(); }
static double scale(Rng& r) { return r.coin() ? r.pick({1.0, 0.5, 1.0 / 3, 0.01, 0.00390625, 0.0078125, 2.0, 0.4}) : r.in(1, 4000) / 1000.0; }
static Type shaped(Rng& r, Type e, int kind = -1) {
  if (kind < 0) kind = r.in(0, 9);
  if (kind == 0) return UnrankedTensorType::get(e);
  std::vector<int64_t> s(r.chance(9) ? 0 : r.in(1, 4)); for (auto& d : s) d = r.chance(5) ? ShapedType::kDynamic : r.in(r.chance(9) ? 0 : 1, 100);
  return RankedTensorType::get(s, e, kind == 1 ? (Attribute)StringAttr::get(X, "enc") : Attribute());
}
// what a tensor that is dequantized may hold
static Type source(Rng& r, bool plain) {
  OpBuilder b(X); Type f = b.getF32Type(); int k = plain ? 0 : r.in(0, 15);
  if (k == 10) return quant::UniformQuantizedType::get(0, b.getIntegerType(8), f, scale(r), r.in(0, 255), 0, 255);
  if (k == 11) return quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(16), f, scale(r), 0, -32768, 32767);
  if (k == 12) return b.getF16Type();
  if (k == 13) return quant::UniformQuantizedPerAxisType::get(quant::QuantizationFlags::Signed, b.getIntegerType(8), f, {scale(r)}, {0}, 0, -128, 127);
  if (k == 14) return quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(4), f, scale(r), r.in(-8, 7), -8, 7);
  return quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(8), f, scale(r), r.in(-127, 127), r.chance(5) ? -127 : -128, 127);
}
struct Det { bool ints; Value in[3]; std::vector<Value> as; std::vector<Type> out; std::string opt, code; double sc; int64_t zp; };
struct Use { Operation* op; int slot, det, res; };
int main(int argc, char** argv) {
  std::uint64_t seed = strtoull(argv[1], 0, 10); long iters = argc > 2 ? atol(argv[2]) : 1000;
  MLIRContext ctx; X = &ctx; ctx.disableMultithreading(); ctx.allowUnregisteredDialects(); ctx.loadDialect<TFL::TensorFlowLiteDialect, func::FuncDialect, quant::QuantizationDialect>();
  OpBuilder b(&ctx); Location L = b.getUnknownLoc(); Type f32 = b.getF32Type(), i32 = b.getI32Type();
  for (long it = 0; it < iters; it++) {
    Rng r(seed * 1000003 + it); int nd = r.in(1, 3); CTX("case %ld: %d operations", it, nd);
    OwningOpRef<ModuleOp> mod(ModuleOp::create(L)); b.setInsertionPointToEnd(mod->getBody());
    auto fn = b.create<func::FuncOp>(L, "f", b.getFunctionType({}, {})); Block* bl = fn.addEntryBlock(); b.setInsertionPointToEnd(bl);
    std::vector<Det> ds; std::vector<Use> us; std::vector<std::vector<Value>> rs; std::vector<Value> deqs; long want = 0;
    auto value = [&](Type t) { return bl->addArgument(t, L); };
    auto other = [&](const char* n, ValueRange v, TypeRange t) { OperationState s(L, n); s.addOperands(v); s.addTypes(t); return b.create(s); };
    for (int d = 0; d < nd; d++) {
      Det z; z.opt = "options " + std::to_string(d) + std::string(r.in(0, 5), (char)r.in(0, 255)); bool plain = r.coin() || r.coin(); int odd = plain ? -1 : r.in(0, 11);
      z.code = odd == 0 ? r.pick({"TFLite_Detection_PostProces", "LceBconv2d", "TFLite_Detection_PostProcess2", ""}) : "TFLite_Detection_PostProcess"; z.ints = odd != 0;
      int ni = odd == 1 ? r.pick({0, 1, 2, 4}) : 3, no = odd == 2 ? r.pick({1, 2, 3, 5}) : 4; z.ints &= ni == 3 && no == 4; Type se;
      for (int i = 0; i < ni; i++) {
        Type e = source(r, plain && i == 1 || r.coin()), t = shaped(r, e); Type ft = t.cast<ShapedType>().clone(f32); Value v, q;
        int how = plain ? 0 : r.in(0, 19);
        if (how == 17) v = value(ft); else if (how == 18) v = other("test.op", {value(t)}, {ft})->getResult(0);
        else if (how == 19 && deqs.size()) v = deqs[r.in(0, (int)deqs.size() - 1)]; else { v = b.create<TFL::DequantizeOp>(L, ft, value(t)).getOutput(); deqs.push_back(v); }
        z.as.push_back(v); auto dq = v.getDefiningOp<TFL::DequantizeOp>(); if (!dq) z.ints = false; else if (i < 3) { z.in[i] = dq.getInput(); if (i == 1) se = z.in[i].getType().cast<ShapedType>().getElementType(); }
      }
      if (z.ints) { auto q = se.dyn_cast<quant::UniformQuantizedType>(); z.ints = q && q.isSigned() && q.getStorageTypeIntegralWidth() == 8; if (q) { z.sc = q.getScale(); z.zp = q.getZeroPoint(); } }
      for (int i = 0; i < no; i++) { Type e = i == 2 ? f32 : i32; if (odd == 3 + i) e = r.pick({Type(f32), Type(i32), Type(b.getIntegerType(8)), Type(b.getI64Type()), Type(b.getF16Type())}); z.ints &= e == (i == 2 ? f32 : i32); z.out.push_back(shaped(r, e)); }
      auto op = b.create<TFL::CustomOp>(L, TypeRange(z.out), ValueRange(z.as), z.code, TFL::ConstBytesAttr::get(X, z.opt));
      want += z.ints; rs.push_back({}); for (auto v : op->getResults()) rs.back().push_back(v); ds.push_back(z);
    }
    // uses of the results: the function's result, and other operations
    std::vector<Value> ret; int nu = r.in(0, 3); std::vector<Operation*> uo;
    auto pickres = [&](std::vector<Value>& v, std::vector<std::pair<int, int>>& w) { for (int d = 0; d < nd; d++) for (int k = 0; k < (int)rs[d].size(); k++) if (r.chance(2)) { v.push_back(rs[d][k]); w.push_back({d, k}); } };
    for (int u = 0; u < nu; u++) { std::vector<Value> v; std::vector<std::pair<int, int>> w; pickres(v, w); auto* o = other("test.use", v, {}); for (int i = 0; i < (int)w.size(); i++) us.push_back({o, i, w[i].first, w[i].second}); }
    { std::vector<Value> v; std::vector<std::pair<int, int>> w; pickres(v, w); for (auto q : deqs) if (r.chance(4)) v.push_back(q); auto o = b.create<func::ReturnOp>(L, ValueRange(v)); for (int i = 0; i < (int)w.size(); i++) us.push_back({o, i, w[i].first, w[i].second});
      fn.setFunctionType(b.getFunctionType(bl->getArgumentTypes(), ValueRange(v).getTypes())); }
    auto sig = fn.getFunctionType(); if (failed(verify(*mod))) FAIL("the generated function is malformed");
    std::vector<Value> args(bl->args_begin(), bl->args_end());
    for (int rep = r.in(1, 2); rep--;) { PassManager pm(X); pm.addNestedPass<func::FuncOp>(TFL::QuantizeDetectionPostProcessPass()); if (failed(pm.run(*mod))) FAIL("the conversion fails"); }
    g_cases++; if (want) g_distinct++;
    if (fn.getFunctionType() != sig) FAIL("the function's type changed");
    std::vector<TFL::CustomOp> ops; fn.walk([&](TFL::CustomOp o) { ops.push_back(o); }); if ((int)ops.size() != nd) FAIL("%zu custom operations instead of %d", ops.size(), nd);
    std::vector<Operation*> at;
    for (int d = 0; d < nd; d++) {
      auto& z = ds[d]; TFL::CustomOp o; for (auto p : ops) if (p.getCustomOption().getValue() == z.opt) { if (o) FAIL("operation %d: two operations with its options", d); o = p; }
      if (!o) FAIL("operation %d: no operation with its options", d);
      if (o.getCustomCode() != z.code) FAIL("operation %d: its code is now %s", d, o.getCustomCode().str().c_str());
      if (o->getNumResults() != z.out.size() || o->getNumOperands() != z.as.size()) FAIL("operation %d: other number of inputs or results", d);
      for (int i = 0; i < (int)z.as.size(); i++) if (o->getOperand(i) != (z.ints ? z.in[i] : z.as[i])) FAIL("operation %d (%s): input %d is not the tensor it should read", d, z.ints ? "to run on integers" : "to be left alone", i);
      for (int i = 0; i < (int)z.out.size(); i++) {
        Type w = z.out[i]; if (z.ints && i == 2) w = w.cast<ShapedType>().clone(quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(8), f32, z.sc, z.zp, -128, 127));
        if (o->getResult(i).getType() != w) FAIL("operation %d: result %d has type %s instead of %s", d, i, str(o->getResult(i).getType()).c_str(), str(w).c_str());
      }
      at.push_back(o);
    }
    for (auto& u : us) {
      auto& z = ds[u.det]; Value v = u.op->getOperand(u.slot);
      if (v.getType() != z.out[u.res]) FAIL("a use of result %d of operation %d now has type %s", u.res, u.det, str(v.getType()).c_str());
      if (z.ints && u.res == 2) { auto q = v.getDefiningOp<TFL::DequantizeOp>(); if (!q) FAIL("the scores of operation %d are not dequantized", u.det); v = q.getInput(); }
      if (v != at[u.det]->getResult(u.res)) FAIL("a use of result %d of operation %d is now something else", u.res, u.det);
    }
  }
  printf("OK cases=%ld nontrivial=%ld\n", (long)g_cases, (long)g_distinct);
}
