// Runs the batch size pass on randomly built functions and compares signatures, arguments, results and everything else.
#include "larq_compute_engine/mlir/transforms/set_batch_size.cc"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/Pass/PassManager.h"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <vector>
using namespace mlir;
static std::mt19937_64 rng;
static int R(int n) { return int(rng() % n); }
static const int64_t DYN = ShapedType::kDynamic;
static std::string str(Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return o.str(); }
static MLIRContext* C;
static Type elem() {
  OpBuilder b(C);
  switch (R(8)) { case 0: return b.getF32Type(); case 1: return b.getI32Type(); case 2: return b.getIntegerType(8); case 3: return b.getI1Type(); case 4: return b.getF16Type();
    case 5: return b.getI64Type(); case 6: return ComplexType::get(b.getF32Type()); default: return b.getIntegerType(8, false); }
}
static std::vector<int64_t> shape(int rank) {
  std::vector<int64_t> s(rank);
  for (auto& d : s) { int k = R(6); d = k < 2 ? DYN : k == 2 ? 1 : k == 3 ? 0 : 1 + R(300); }
  if (rank && R(2)) s[0] = DYN;
  return s;
}
static Type any() {
  OpBuilder b(C);
  int k = R(20);
  if (k < 13) {
    Attribute enc;
    if (R(4) == 0) enc = R(2) ? Attribute(b.getStringAttr("enc")) : Attribute(b.getI32IntegerAttr(R(5)));
    return RankedTensorType::get(shape(R(8)), elem(), enc);
  }
  if (k < 15) return UnrankedTensorType::get(elem());
  if (k == 15) return MemRefType::get(shape(1 + R(4)), b.getF32Type());
  if (k == 16) return UnrankedMemRefType::get(b.getF32Type(), Attribute());
  if (k == 17) { std::vector<int64_t> s(1 + R(3)); for (auto& d : s) d = 1 + R(8); return VectorType::get(s, b.getF32Type()); }
  if (k == 18) return R(2) ? Type(b.getIndexType()) : Type(b.getF32Type());
  return TupleType::get(C, {RankedTensorType::get(shape(2), b.getF32Type()), b.getF32Type()});
}
static Type want(Type t, long* nt) {
  auto r = t.dyn_cast<RankedTensorType>();
  if (!r || r.getRank() == 0 || r.getDimSize(0) != DYN) return t;
  std::vector<int64_t> s(r.getShape().begin(), r.getShape().end());
  s[0] = 1; ++*nt;
  return RankedTensorType::get(s, r.getElementType(), r.getEncoding());
}
int main(int c, char** v) {
  uint64_t seed = strtoull(v[1], 0, 10); long n = c > 2 ? atol(v[2]) : 400; long cases = 0, nt = 0;
  for (long it = 0; it < n; it++) {
    rng.seed(seed * 1000003 + it);
    DialectRegistry reg; reg.insert<func::FuncDialect>();
    static MLIRContext* ctx = nullptr;
    if (it % 500 == 0) { delete ctx; ctx = new MLIRContext(reg, R(2) ? MLIRContext::Threading::DISABLED : MLIRContext::Threading::ENABLED); ctx->loadDialect<func::FuncDialect>(); ctx->allowUnregisteredDialects(); }
    C = ctx; OpBuilder b(C);
    auto loc = b.getUnknownLoc();
    OwningOpRef<ModuleOp> m = ModuleOp::create(loc);
    int nf = 1 + R(3);
    struct F { func::FuncOp f; std::vector<Type> in, out, argt; std::vector<std::string> ops; DictionaryAttr attrs; Operation* ret; std::vector<std::vector<Type>> opty; std::vector<std::vector<Value>> opnd; };
    std::vector<F> fs;
    for (int q = 0; q < nf; q++) {
      F f; int ni = R(7), no = R(4); std::vector<Type> pool;
      for (int i = 0; i < ni; i++) { Type t = !pool.empty() && R(3) == 0 ? pool[R(pool.size())] : any(); pool.push_back(t); f.in.push_back(t); }
      for (int i = 0; i < no; i++) f.out.push_back(!pool.empty() && R(2) ? pool[R(pool.size())] : any());
      auto fn = func::FuncOp::create(loc, "f" + std::to_string(q), FunctionType::get(C, f.in, f.out));
      if (R(3) == 0) fn.setPrivate();
      if (R(3) == 0) fn->setAttr("tf.entry_function", b.getStringAttr("inputs = \"x\""));
      for (int i = 0; i < ni; i++) if (R(4) == 0) fn.setArgAttr(i, "tf_saved_model.index_path", b.getI32IntegerAttr(i));
      for (int i = 0; i < no; i++) if (R(4) == 0) fn.setResultAttr(i, "x.y", b.getI32IntegerAttr(i));
      if (R(8) == 0) fn.setPrivate();
      else {
        Block* e = fn.addEntryBlock(); OpBuilder ob = OpBuilder::atBlockEnd(e);
        for (int i = 0; i < ni; i++) if (R(2)) { OperationState st(loc, "x.use"); st.addOperands(e->getArgument(i)); st.addTypes(any()); if (R(2)) st.addAttribute("type", TypeAttr::get(any())); ob.create(st); }
        OperationState st(loc, "x.mk"); st.addTypes(f.out); Operation* mk = ob.create(st);
        if (R(4) == 0) {  // a second block whose arguments are not inputs of the function
          Block* bb = fn.addBlock(); bb->addArgument(any(), loc); OperationState s2(loc, "x.end"); OpBuilder::atBlockEnd(bb).create(s2);
        }
        ob.create<func::ReturnOp>(loc, mk->getResults());
      }
      m->push_back(fn); f.f = fn;
      f.attrs = fn->getDiscardableAttrDictionary();
      fs.push_back(f);
    }
    struct S { std::string name, types; };
    auto snap = [&](func::FuncOp fn, bool body) {
      std::vector<std::string> s;
      s.push_back(fn.getName().str());
      { std::string z; llvm::raw_string_ostream o(z); for (auto a : fn->getAttrs()) if (a.getName() != "function_type") { o << a.getName() << "="; a.getValue().print(o); o << ";"; } s.push_back(o.str()); }
      fn.walk([&](Operation* op) { if (op == fn) return; std::string z = op->getName().getStringRef().str(); for (auto r : op->getResults()) z += " " + str(r.getType()); llvm::raw_string_ostream o(z); op->getAttrDictionary().print(o); for (auto x : op->getOperands()) { o << " " << (x.isa<BlockArgument>() ? "arg" + std::to_string(x.cast<BlockArgument>().getArgNumber()) : std::string("op")); } s.push_back(o.str()); });
      int k = 0;
      for (auto& bl : fn.getBody()) { if (k++) for (auto a : bl.getArguments()) s.push_back(str(a.getType())); }
      return s;
    };
    std::vector<std::vector<std::string>> before;
    for (auto& f : fs) before.push_back(snap(f.f, true));
    PassManager pm(C); pm.enableVerifier(false);
    pm.addNestedPass<func::FuncOp>(CreateSetBatchSizePass());
    int times = 1 + R(2);
    for (int k = 0; k < times; k++)
      if (failed(pm.run(*m))) { printf("FAIL case=%ld the pass failed\n", it); return 1; }
    for (int q = 0; q < nf; q++) {
      F& f = fs[q]; auto ft = f.f.getFunctionType();
      std::string sig = "inputs (";
      for (auto t : f.in) sig += str(t) + ", "; sig += ")";
#define BAD(...) { printf("FAIL case=%ld function %d with %s: ", it, q, sig.c_str()); printf(__VA_ARGS__); printf("\n"); return 1; }
      if (ft.getNumInputs() != f.in.size()) BAD("%u inputs after the pass", ft.getNumInputs());
      if (ft.getNumResults() != f.out.size()) BAD("%u results after the pass", ft.getNumResults());
      for (size_t i = 0; i < f.in.size(); i++) { Type w = want(f.in[i], &nt); if (ft.getInput(i) != w) BAD("signature input %zu is %s, expected %s", i, str(ft.getInput(i)).c_str(), str(w).c_str());
        if (!f.f.isExternal() && f.f.getArgument(i).getType() != w) BAD("argument %zu is %s, expected %s", i, str(f.f.getArgument(i).getType()).c_str(), str(w).c_str()); }
      for (size_t i = 0; i < f.out.size(); i++) if (ft.getResult(i) != f.out[i]) BAD("result %zu is %s, expected %s", i, str(ft.getResult(i)).c_str(), str(f.out[i]).c_str());
      if (snap(f.f, true) != before[q]) BAD("attributes or body changed");
      cases++;
    }
  }
  printf("OK cases=%ld nontrivial=%ld\n", cases, nt);
  return 0;
}
