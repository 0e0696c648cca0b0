// Options from the converter to the runtime: the real serialisation and passes on random operations, read back by the real operators.
#define pass pass_legalize
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/transforms/legalize_tflite.cc"
#undef pass
#define pass pass_translate
#include "larq_compute_engine/mlir/transforms/translate_tflite.cc"
#undef pass
#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/IR/BuiltinOps.h"
#include "tfl.h"
using namespace mlir;
namespace rt = compute_engine::tflite;
static int i32(Rng& r) { return r.chance(4) ? r.pick({0, 1, -1, 2, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, INT32_MIN + 1, 128, 127}) : r.chance(2) ? r.in(1, 9) : (int)r.u(); }
static const char* an[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
static const TfLiteFusedActivation av[] = {kTfLiteActNone, kTfLiteActRelu, kTfLiteActReluN1To1, kTfLiteActRelu6};
struct Opts { int sh, sw, dh, dw, pv, ci, a, same, fh, fw; };
static TfLiteContext tc{};
static void check_conv(const std::string& buf, const Opts& o) {
  auto* d = (rt::bconv2d::OpData*)rt::bconv2d::Init(&tc, buf.data(), buf.size()); auto& p = d->params;
  if (!d->successfully_initialized) FAIL("the operator does not initialize from the converter's options");
  if (p.stride_height != o.sh || p.stride_width != o.sw) FAIL("binary convolution has strides %d,%d", p.stride_height, p.stride_width);
  if (p.dilation_height_factor != o.dh || p.dilation_width_factor != o.dw) FAIL("binary convolution has dilations %d,%d", p.dilation_height_factor, p.dilation_width_factor);
  if (p.pad_value != o.pv || p.padding_type != (o.same ? kTfLitePaddingSame : kTfLitePaddingValid)) FAIL("binary convolution has padding type %d with value %d", p.padding_type, p.pad_value);
  if (p.channels_in != o.ci || d->fused_activation_function != av[o.a]) FAIL("binary convolution has %d input channels, activation %d", p.channels_in, d->fused_activation_function);
  rt::bconv2d::Free(&tc, d);
}
static void check_pool(const std::string& buf, const Opts& o) {
  auto* p = (compute_engine::core::BMaxPoolParams*)rt::bmaxpool::Init(&tc, buf.data(), buf.size());
  if (p->stride_height != o.sh || p->stride_width != o.sw || p->filter_height != o.fh || p->filter_width != o.fw) FAIL("pooling has strides %d,%d and filter %dx%d", p->stride_height, p->stride_width, p->filter_height, p->filter_width);
  if (p->padding_type != (o.same ? kTfLitePaddingSame : kTfLitePaddingValid)) FAIL("pooling has padding type %d", p->padding_type);
  rt::bmaxpool::Free(&tc, p);
}
static std::string str(std::vector<uint8_t> v) { return std::string(v.begin(), v.end()); }
int main(int argc, char** argv) {
  std::uint64_t seed = strtoull(argv[1], 0, 10); long iters = argc > 2 ? atol(argv[2]) : 1000;
  MLIRContext ctx; ctx.disableMultithreading(); ctx.allowUnregisteredDialects(); ctx.loadDialect<mlir::lq::LarqDialect, mlir::TFL::TensorFlowLiteDialect, mlir::func::FuncDialect>();
  OpBuilder b(&ctx); Location L = b.getUnknownLoc();
  Type T[6]; for (int k = 0; k < 6; k++) T[k] = RankedTensorType::get({1, 1, 1, k + 1}, k == 2 || k == 3 ? (Type)b.getF32Type() : b.getI32Type());
  // the operators every name resolves to
  g_cases++;
  for (int ref = 0; ref < 2; ref++) for (int ind = 0; ind < 2; ind++) {
    ::tflite::MutableOpResolver res; rt::RegisterLCECustomOps(&res, ref, ind); CTX("registration use_reference_bconv %d use_indirect_bgemm %d", ref, ind);
    auto same = [&](const char* n, const TfLiteRegistration* w) { auto it = res.custom.find(n); if (it == res.custom.end()) FAIL("no operator registered for %s", n); auto* g = it->second; if (g->init != w->init || g->free != w->free || g->prepare != w->prepare || g->invoke != w->invoke) FAIL("%s resolves to another operator", n); };
    if (res.custom.size() != 4) FAIL("%zu operators registered", res.custom.size());
    auto reg = [](auto i, auto f, auto p, auto e) { TfLiteRegistration r{}; r.init = i; r.free = f; r.prepare = p; r.invoke = e; return r; };
    auto q = reg(nullptr, nullptr, rt::QuantizePrepare, rt::QuantizeEval), dq = reg(nullptr, nullptr, rt::DequantizePrepare, rt::DequantizeEval), mp = reg(rt::bmaxpool::Init, rt::bmaxpool::Free, rt::bmaxpool::Prepare, rt::bmaxpool::Eval);
    same("LceQuantize", &q); same("LceDequantize", &dq); same("LceBMaxPool2d", &mp);
    using K = rt::bconv2d::KernelType;
    auto cr = reg(rt::bconv2d::Init, rt::bconv2d::Free, rt::bconv2d::Prepare<K::kReference>, rt::bconv2d::Eval<K::kReference>), co = reg(rt::bconv2d::Init, rt::bconv2d::Free, rt::bconv2d::Prepare<K::kOptimizedBGEMM>, rt::bconv2d::Eval<K::kOptimizedBGEMM>), ci = reg(rt::bconv2d::Init, rt::bconv2d::Free, rt::bconv2d::Prepare<K::kOptimizedIndirectBGEMM>, rt::bconv2d::Eval<K::kOptimizedIndirectBGEMM>);
    auto* cd = rt::Register_BCONV_2D();
    if (cd->prepare != co.prepare && cd->prepare != cr.prepare) FAIL("the default binary convolution is neither the reference nor the optimized one");
    same("LceBconv2d", ref ? &cr : ind ? &ci : cd->prepare == co.prepare ? &co : &cr);
  }
  for (long it = 0; it < iters; it++) {
    Rng r(seed * 5000011 + it);
    Opts o{i32(r), i32(r), i32(r), i32(r), r.in(0, 1), i32(r), r.in(0, 3), r.in(0, 1), i32(r), i32(r)};
    if (r.chance(4)) o.sw = o.sh; if (r.chance(4)) o.dw = o.dh;
    auto attr = [&](OperationState& st, const char* n, int v) { st.addAttribute(n, b.getI32IntegerAttr(v)); };
    int kind = it % 4 < 2 ? 0 : it % 4 == 2 ? 1 : r.in(2, 3);
    CTX("%s strides %d,%d dilations %d,%d pad_values %d padding %s channels_in %d activation %s filter %dx%d", kind == 0 ? "lq.Bconv2d" : kind == 1 ? "lq.BMaxPool2d" : kind == 2 ? "lq.Quantize" : "lq.Dequantize", o.sh, o.sw, o.dh, o.dw, o.pv, o.same ? "SAME" : "VALID", o.ci, an[o.a], o.fh, o.fw);
    OwningOpRef<ModuleOp> mod = ModuleOp::create(L); b.setInsertionPointToEnd(mod->getBody());
    std::vector<Type> ins(T, T + 5); auto fn = b.create<mlir::func::FuncOp>(L, "main", b.getFunctionType(ins, {T[5]})); Block* blk = fn.addEntryBlock(); b.setInsertionPointToEnd(blk);
    const char* names[] = {"lq.Bconv2d", "lq.BMaxPool2d", "lq.Quantize", "lq.Dequantize"}; const char* codes[] = {"LceBconv2d", "LceBMaxPool2d", "LceQuantize", "LceDequantize"};
    OperationState st(L, names[kind]); st.addTypes(T[5]);
    if (kind == 0) {
      st.addOperands(blk->getArguments());
      attr(st, "stride_height", o.sh); attr(st, "stride_width", o.sw); attr(st, "dilation_height_factor", o.dh); attr(st, "dilation_width_factor", o.dw); attr(st, "pad_values", o.pv); attr(st, "channels_in", o.ci);
      st.addAttribute("fused_activation_function", b.getStringAttr(an[o.a])); st.addAttribute("padding", b.getStringAttr(o.same ? "SAME" : "VALID"));
    } else st.addOperands(blk->getArgument(0));
    if (kind == 1) { attr(st, "stride_height", o.sh); attr(st, "stride_width", o.sw); attr(st, "filter_height", o.fh); attr(st, "filter_width", o.fw); st.addAttribute("padding", b.getStringAttr(o.same ? "SAME" : "VALID")); }
    Operation* op = b.create(st); auto before = op->getAttrDictionary(); b.create<mlir::func::ReturnOp>(L, op->getResults());
    std::string buf = kind == 0 ? str(llvm::cast<mlir::lq::Bconv2dOp>(op).buildCustomOptions()) : kind == 1 ? str(llvm::cast<mlir::lq::BMaxPool2dOp>(op).buildCustomOptions()) : kind == 2 ? str(llvm::cast<mlir::lq::QuantizeOp>(op).buildCustomOptions()) : str(llvm::cast<mlir::lq::DequantizeOp>(op).buildCustomOptions());
    g_cases++; g_distinct++;
    if (kind == 0) check_conv(buf, o); else if (kind == 1) check_pool(buf, o); else if (!buf.empty()) FAIL("%s has options", codes[kind]);
    auto the = [&] { Operation* ret = blk->getTerminator(); return ret->getOperand(0).getDefiningOp(); };
    auto wired = [&](const char* when) {
      Operation* x = the(); if (!x) FAIL("%s: the result does not come from an operation", when);
      if (x->getNumOperands() != (kind == 0 ? 5 : 1) || x->getNumResults() != 1 || x->getResult(0).getType() != T[5]) FAIL("%s: the operation has %d operands", when, (int)x->getNumOperands());
      for (int k = 0; k < (int)x->getNumOperands(); k++) if (x->getOperand(k) != blk->getArgument(k)) FAIL("%s: operand %d is another value", when, k);
    };
    {
      PassManager pm(&ctx); pm.addNestedPass<mlir::func::FuncOp>(mlir::TFL::CreateLegalizeLCEPass()); if (failed(pm.run(*mod))) FAIL("legalization fails");
      auto c = llvm::dyn_cast_or_null<mlir::TFL::CustomOp>(the()); if (!c) FAIL("the operation was not legalized");
      wired("legalized");
      if (c.getCustomCode() != codes[kind]) FAIL("legalized to the custom code %s", c.getCustomCode().str().c_str());
      std::string got = c.getCustomOption().getValue().str();
      if (got != buf) FAIL("legalization changes the options (%zu bytes, serialized to %zu)", got.size(), buf.size());
    }
    {
      PassManager pm(&ctx); pm.addNestedPass<mlir::func::FuncOp>(mlir::TFL::CreateTranslateToLCEPass()); if (failed(pm.run(*mod))) FAIL("translation fails");
      Operation* x = the(); if (!x || x->getName().getStringRef() != names[kind]) FAIL("the custom operation was not translated back");
      wired("translated");
      if (x->getAttrDictionary() != before) { std::string s; llvm::raw_string_ostream os(s); os << x->getAttrDictionary(); FAIL("translated with the attributes %s", os.str().c_str()); }
    }
  }
  return finish();
}
