// A conversion from end to end: the real code that imports, adds passes, runs them and exports, with recording stand-ins for TensorFlow's steps, each of which may fail.
#include "larq_compute_engine/mlir/tf_tfl_passes.cc"
#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc"
#include "larq_compute_engine/mlir/python/common.cc"
#include "larq_compute_engine/mlir/python/graphdef_tfl_flatbuffer.cc"
#include "larq_compute_engine/mlir/python/saved_model_tfl_flatbuffer.cc"
#include <algorithm>
#include <mutex>
#include "common.h"
#include "pybind11/stl.h"
using namespace mlir;
using Opt = std::optional<double>; using Pair = std::pair<Opt, Opt>; using Specs = quant::QuantizationSpecs;
static std::vector<std::string> LOG; static std::mutex MU;
static std::string FAILS; static bool LOUD, FAILED; static int SKIP;      // the step that fails (the SKIP-th time it comes), with a message or without
static bool fails(const std::string& n) { std::lock_guard<std::mutex> l(MU); if (n != FAILS || SKIP-- > 0) return false; FAILS = ""; FAILED = true; return true; }
static void note(const std::string& s) { std::lock_guard<std::mutex> l(MU); LOG.push_back(s); }
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string opt(Opt o) { return o ? num(*o) : "-"; }
static std::string text(const Specs& q) {
  std::string s = std::to_string(q.inference_type) + "," + std::to_string(q.inference_input_type) + ",["; for (auto& p : q.input_ranges) s += opt(p.first) + ":" + opt(p.second) + " ";
  return s + "]," + opt(q.default_ranges.first) + ":" + opt(q.default_ranges.second) + "," + (q.post_training_quantization ? "ptq" : "") + (q.weight_quantization ? "w" : "") + std::to_string((int)q.qdq_conversion_mode);
}
template <class O> struct Rec : PassWrapper<Rec<O>, OperationPass<O>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(Rec<O>)
  std::string name, args; Rec(std::string n, std::string a = "") : name(n), args(a) {}
  void runOnOperation() override { if (fails(name)) { if (LOUD) this->getOperation()->emitError("step failed"); this->signalPassFailure(); return; } if (auto f = dyn_cast<func::FuncOp>(this->getOperation().getOperation())) if (f.getName() != "f0") return; note(args.empty() ? name : name + "(" + args + ")"); }
};
using RF = Rec<func::FuncOp>; using RM = Rec<ModuleOp>;
namespace mlir {
#define F0(N) TFL::FuncPass N() { return std::make_unique<RF>(#N); }
#define M0(N) TFL::ModulePass N() { return std::make_unique<RM>(#N); }
namespace TFL {
FuncPass CreatePrepareQuantizePass(const Specs& q) { return std::make_unique<RF>("PrepareQuantize", text(q)); }
FuncPass CreateDefaultQuantParamsPass(double a, double b, bool s) { return std::make_unique<RF>("DefaultQuantParams", num(a) + "," + num(b) + (s ? ",signed" : ",unsigned")); }
FuncPass CreateQuantizePass() { return std::make_unique<RF>("Quantize"); }
FuncPass CreatePostQuantizePass(bool e) { return std::make_unique<RF>("PostQuantize", e ? "emit" : "drop"); }
FuncPass CreatePostQuantizeRemoveQDQPass() { return std::make_unique<RF>("RemoveQDQ"); }
FuncPass CreateOptimizePass(bool) { return std::make_unique<RF>("Optimize"); }
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& t) { return std::make_unique<RF>(t == AllTfFakeQuantOps() ? "RaiseFakeQuant" : "raise others"); }
FuncPass CreatePrepareTFPass(bool, bool) { return std::make_unique<RF>("PrepareTF"); }
FuncPass CreateLegalizeTFPass(bool) { return std::make_unique<RF>("LegalizeTF"); }
std::vector<std::string> AllTfFakeQuantOps() { return {"tf.FakeQuantWithMinMaxVars", "tf.FakeQuantWithMinMaxVarsPerChannel"}; }
F0(CreateOptimizeOpOrderPass) F0(CreateReduceWhileOperandsPass) F0(CreateSplitMergedOperandsPass) F0(CreateRuntimeVerifyPass)
M0(CreatePrepareCompositeFunctionsPass) M0(CreateLowerStaticTensorListPass) M0(CreateLegalizeTFWhilePass) M0(CreateAnalyzeVariablesPass) M0(CreateLegalizeVariablesPass) M0(CreateLegalizeHashTablesPass)
M0(CreateOptimizeFunctionalOpsPass) M0(CreateInsertCallOnceOpFromSessionInitializerPass) M0(CreateUnfoldLargeSplatConstantPass) M0(CreateWhileOutlinePass)
FuncPass CreateOpRemovalPass() { return std::make_unique<RF>("OpRemoval"); }
FuncPass CreatePrepareLCEPass(LCETarget t) { return std::make_unique<RF>("PrepareLCE", t == LCETarget::ARM ? "arm" : "xcore"); }
FuncPass CreateOptimizeLCEPass(LCETarget t) { return std::make_unique<RF>("OptimizeLCE", t == LCETarget::ARM ? "arm" : "xcore"); }
FuncPass CreateBitpackWeightsLCEPass() { return std::make_unique<RF>("BitpackWeights"); }
FuncPass CreateLCEQuantizePass() { return std::make_unique<RF>("LCEQuantize"); }
FuncPass CreateLegalizeLCEPass() { return std::make_unique<RF>("LegalizeLCE"); }
FuncPass QuantizeDetectionPostProcessPass() { return std::make_unique<RF>("Detection"); }
FuncPass CreateFusePaddingPass() { return std::make_unique<RF>("FusePadding"); }
FuncPass CreateTranslateToLCEPass() { return std::make_unique<RF>("TranslateToLCE"); }
}
TFL::FuncPass CreateSetBatchSizePass() { return std::make_unique<RF>("SetBatchSize"); }
namespace TF {
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions&) { pm.addPass(std::make_unique<RM>("TFStandard")); }
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& o) { pm.addPass(std::make_unique<RF>("Layout", o.force_data_format)); }
F0(CreateDeviceIndexSelectorPass) M0(CreateTFFunctionalControlFlowToRegions) M0(CreateTFRegionControlFlowToFunctional)
FuncPass CreateInitTextFileToImportPass(std::string) { return std::make_unique<RF>("init"); }
ModulePass CreateTFShapeInferencePass() { return std::make_unique<RM>("ShapeInference"); }
}
namespace TFDevice { F0(CreateDecomposeResourceOpsPass) }
namespace tf_saved_model {
M0(CreateOptimizeGlobalTensorsPass)
TF::ModulePass CreateFreezeGlobalTensorsPass() { return std::make_unique<RM>("FreezeGlobals"); }
TF::ModulePass CreateFreezeAssetsPass(std::string d) { return std::make_unique<RM>("FreezeAssets", d); }
LogicalResult FreezeVariables(ModuleOp m, tensorflow::Session* s) {
  if (fails("FreezeVariables")) { if (LOUD) m.emitError("variables"); return failure(); }
  note(s ? "FreezeVariables(session)" : "FreezeVariables(none)"); return success();
}
}
namespace odml { std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string>) { return std::make_unique<RM>("OpStats"); } std::vector<std::string> GetAcceptedTFLiteDialects() { return {}; } }
// MLIR's own passes, which the property leaves open: quick stand-ins
struct AnyRec : PassWrapper<AnyRec, OperationPass<>> { MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(AnyRec) void runOnOperation() override {} };
std::unique_ptr<Pass> createCanonicalizerPass() { return std::make_unique<AnyRec>(); }
StatusScopedDiagnosticHandler::StatusScopedDiagnosticHandler(MLIRContext* c, bool) : x_(c) { id_ = c->getDiagEngine().registerHandler([this](Diagnostic& d) { if (d.getSeverity() == DiagnosticSeverity::Error) { any_ = true; m_ += d.str(); } return success(); }); }
StatusScopedDiagnosticHandler::~StatusScopedDiagnosticHandler() { x_->getDiagEngine().eraseHandler(id_); }
absl::Status StatusScopedDiagnosticHandler::ConsumeStatus() { bool a = any_; any_ = false; return a ? absl::Status(false, m_) : absl::OkStatus(); }
absl::Status StatusScopedDiagnosticHandler::Combine(absl::Status s) { return s.ok() ? ConsumeStatus() : s; }
}
namespace tensorflow {
OpOrArgNameMapper::~OpOrArgNameMapper() {}
std::string OpOrArgLocNameMapper::GetName(OpOrVal) { return "n"; }
void InitPassManager(PassManager&, const converter::DebugOptions&) {}
}
static const char* KEYS[] = {"PrepareQuantize", "DefaultQuantParams", "Quantize", "PostQuantize", "RemoveQDQ", "Optimize", "RaiseFakeQuant", "PrepareTF", "LegalizeTF", "OpRemoval", "PrepareLCE", "OptimizeLCE", "BitpackWeights", "LCEQuantize", "LegalizeLCE",
  "Detection", "FusePadding", "SetBatchSize", "TFStandard", "Layout", "FreezeGlobals", "FreezeAssets", "FreezeVariables", "TranslateToLCE"};
// the steps the property speaks of, in order; of the shape inferences, those right after the batch size was set; what comes last
static std::string relevant(const std::vector<std::string>& l) {
  std::string o, before;
  for (auto& s : l) {
    std::string n = s.substr(0, s.find('(')); bool key = std::find_if(std::begin(KEYS), std::end(KEYS), [&](const char* k) { return n == k; }) != std::end(KEYS);
    if (n == "ShapeInference" && before == "SetBatchSize") key = true;
    if (key) { o += s + ";"; before = n; }
  }
  return o;
}
static std::string tagtext(const std::unordered_set<std::string>& t) { std::vector<std::string> v(t.begin(), t.end()); std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + "|"; return s; }
static std::string file(const std::string& id, const std::string& log, const std::string& tags) { return "TFL3 " + id + " {" + log + "} custom " + tags; }
static bool STABLE; static std::string LAST;
namespace tflite {
bool MlirToFlatBufferTranslateFunction(ModuleOp m, const FlatbufferExportOptions& o, std::string* r, bool hlo) {
  if (fails("Translate")) { if (LOUD) m.emitError("export"); return false; }
  std::vector<std::string> l; { std::lock_guard<std::mutex> g(MU); l = LOG; }
  LAST = l.empty() ? "" : l.back(); std::string id = m->getAttr("test.id") ? m->getAttrOfType<StringAttr>("test.id").getValue().str() : "?";
  *r = file(id, relevant(l), tagtext(o.saved_model_tags)); if (!o.toco_flags.allow_custom_ops()) *r += " (no custom)"; if (o.toco_flags.force_select_tf_ops()) *r += " (select)"; if (hlo) *r += " (hlo)";
  if (fails("Verify")) m->setAttr("plain", UnitAttr::get(m.getContext()));
  return true;
}
}
// what a conversion has to run
static std::string expected(const Specs& q, LCETarget t, const std::string& dir, const char* session) {
  std::string T = t == LCETarget::ARM ? "arm" : "xcore", s = "RaiseFakeQuant;TFStandard;"; if (session) s += std::string("FreezeVariables(") + session + ");";
  s += "SetBatchSize;ShapeInference;OpRemoval;FreezeGlobals;"; if (!dir.empty()) s += "FreezeAssets(" + dir + ");";
  s += "Layout(NHWC);PrepareLCE(" + T + ");PrepareTF;LegalizeTF;OptimizeLCE(" + T + ");Optimize;OptimizeLCE(" + T + ");BitpackWeights;FusePadding;";
  if (q.inference_type != tensorflow::DT_FLOAT && !q.weight_quantization || q.qdq_conversion_mode != quant::QDQConversionMode::kQDQNone) {
    bool u = q.inference_type == tensorflow::DT_QUINT8 || q.inference_type == tensorflow::DT_QUINT16 || q.inference_type == tensorflow::DT_UINT8; std::string e = q.inference_type != q.inference_input_type ? "emit" : "drop";
    s += "PrepareQuantize(" + text(q) + ");LCEQuantize;";
    if (q.default_ranges.first || q.default_ranges.second) s += "DefaultQuantParams(" + num(q.default_ranges.first ? *q.default_ranges.first : 0) + "," + num(q.default_ranges.second ? *q.default_ranges.second : 0) + (u ? ",unsigned" : ",signed") + ");LCEQuantize;";
    s += "Detection;Quantize;PostQuantize(" + e + ");LCEQuantize;PostQuantize(" + e + ");Optimize;RemoveQDQ;";
  }
  return s + "LegalizeLCE;";
}
static const char* STEPS[] = {"RaiseFakeQuant", "TFStandard", "CreateDeviceIndexSelectorPass", "CreateDecomposeResourceOpsPass", "FreezeVariables", "SetBatchSize", "ShapeInference", "PrepareLCE", "OptimizeLCE", "LegalizeTF", "LCEQuantize", "Detection", "Quantize", "PostQuantize",
  "DefaultQuantParams", "FreezeAssets", "BitpackWeights", "CreateRuntimeVerifyPass", "LegalizeLCE", "Translate", "Verify", "OpStats", "Import", "Load", "Inputs", "Outputs", "Register"};
static void fresh(Rng& r) { LOG.clear(); FAILED = false; LAST = ""; FAILS = r.chance(3) ? STEPS[r.in(0, std::size(STEPS) - 1)] : ""; LOUD = r.coin(); SKIP = r.chance(3) ? r.in(1, 2) : 0; g_ctx += FAILS.empty() ? "" : std::string(", ") + FAILS + " fails" + (LOUD ? "" : " silently"); }
static std::string word(Rng& r) { std::string s(r.in(1, 6), ' '); for (auto& c : s) c = "abcxyz/_.0"[r.in(0, 9)]; return s; }
static void load(MLIRContext* c) { c->allowUnregisteredDialects(); c->loadDialect<func::FuncDialect>(); }
// a module: functions of which some are entries; says how many inputs the only entry lists
static OwningOpRef<ModuleOp> module(MLIRContext* c, const std::string& id, Rng& r, std::optional<int>* n, bool v1 = false, bool one = false) {
  OpBuilder b(c); Location L = b.getUnknownLoc(); OwningOpRef<ModuleOp> m(ModuleOp::create(L)); m.get()->setAttr("test.id", b.getStringAttr(id)); int entries = 0, k = one ? 1 : r.in(0, 5) ? r.in(1, 3) : 0; std::optional<int> ins; int which = r.coin() ? r.in(0, std::max(k - 1, 0)) : -1;
  for (int i = 0; i < k; i++) {
    b.setInsertionPointToEnd(m->getBody()); auto f = b.create<func::FuncOp>(L, "f" + std::to_string(i), b.getFunctionType({}, {})); Block* bl = f.addEntryBlock(); b.setInsertionPointToEnd(bl);
    if (v1 && r.coin()) { OperationState o(L, r.pick({"tf_executor.Switch", "tf_executor.Merge", "tf_executor.Enter", "tf_executor.Exit", "tf_executor.NextIteration.Sink", "tf_executor.NextIteration.Source"})); b.create(o); v1 = false; }
    else { OperationState o(L, "tf_executor.Other"); b.create(o); }
    b.create<func::ReturnOp>(L);
    if (which >= 0 ? i == which : r.coin()) {
      entries++; int q = r.in(1, 4); std::string s; for (int j = 0; j < q; j++) s += (j ? "," : "") + word(r);
      std::vector<NamedAttribute> as; as.push_back(b.getNamedAttr("outputs", b.getStringAttr("o1,o2,o3,o4,o5"))); ins = std::nullopt;
      if (!r.chance(6)) { as.push_back(b.getNamedAttr("inputs", b.getStringAttr(s))); ins = q; }
      f->setAttr("tf.entry_function", b.getDictionaryAttr(as));
    }
  }
  if (n) *n = entries == 1 ? ins : std::nullopt;
  return m;
}
// what the importers were given
static std::string GIVEN; static bool CUSTOM; static std::uint64_t MSEED; static tensorflow::Session* SESSION;
namespace tensorflow {
absl::Status LoadProtoFromBuffer(const std::string& s, GraphDef* g) { if (fails("Load")) return absl::InternalError("load"); g->text = s; return absl::OkStatus(); }
absl::Status ParseInputArrayInfo(const std::vector<std::string>& n, const std::vector<std::string>& d, const std::vector<std::optional<std::vector<int>>>& s, std::vector<ArrayInfo>* o) {
  if (fails("Inputs")) return absl::InternalError("inputs"); if (n.size() != d.size() || n.size() != s.size()) return absl::InternalError("sizes");
  for (size_t i = 0; i < n.size(); i++) o->push_back({n[i], d[i], s[i]}); return absl::OkStatus();
}
absl::Status ParseOutputArrayInfo(const std::vector<std::string>& n, std::vector<std::string>* o) { if (fails("Outputs")) return absl::InternalError("outputs"); *o = n; return absl::OkStatus(); }
static std::string shape(const std::optional<std::vector<int>>& s) { if (!s) return "?"; std::string t; for (int d : *s) t += std::to_string(d) + "x"; return t; }
absl::StatusOr<OwningOpRef<ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo&, const GraphImportConfig& c, MLIRContext* x) {
  if (fails("Import")) return absl::InternalError("import"); load(x); Rng r(MSEED); std::string id = "graph " + g.text + " in"; for (auto& i : c.inputs) id += " " + i.name + ":" + i.dtype + ":" + shape(i.shape);
  id += " out"; for (auto& o : c.outputs) id += " " + o; if (!c.prune_unused_nodes || !c.convert_legacy_fed_inputs || c.graph_as_function || !c.upgrade_legacy) id += " (options)";
  return absl::StatusOr<OwningOpRef<ModuleOp>>(module(x, id, r, nullptr, false, true));
}
namespace internal { absl::Status RegisterAllCustomOps(const toco::TocoFlags&) { if (fails("Register")) return absl::InternalError("register"); CUSTOM = true; return absl::OkStatus(); } }
absl::StatusOr<OwningOpRef<ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string>, absl::Span<std::string> names, const GraphImportConfig& c, bool lift, MLIRContext* x, std::unique_ptr<SavedModelBundle>* b) {
  if (fails("Import")) return absl::InternalError("import"); load(x); Rng r(MSEED); std::string id = "saved " + dir + " v" + std::to_string(version) + " tags " + tagtext(tags) + " names"; for (auto& n : names) id += " " + n;
  if (!lift || !c.upgrade_legacy || c.graph_as_function) id += " (options)"; if (!CUSTOM) id += " (custom operations not registered)";
  (*b)->session = std::make_unique<Session>(); return absl::StatusOr<OwningOpRef<ModuleOp>>(module(x, id, r, nullptr));
}
}
static std::vector<std::string> words(Rng& r, int n) { std::vector<std::string> v(n); for (auto& w : v) w = word(r); return v; }
int main(int argc, char** argv) {
  std::uint64_t seed = strtoull(argv[1], 0, 10); long iters = argc > 2 ? atol(argv[2]) : 1000; Py_Initialize();
  for (long it = 0; it < iters; it++) {
    Rng r(seed * 1000003 + it); int kind = r.in(0, 3); CTX("case %ld (%s)", it, kind == 0 ? "a module" : kind == 1 ? "number of inputs" : kind == 2 ? "a graph" : "a saved model");
    auto t = r.coin() ? LCETarget::ARM : LCETarget::XCORE; CUSTOM = false; g_cases++;
    if (kind == 0) {
      fresh(r); MLIRContext c(MLIRContext::Threading::DISABLED); load(&c); bool v1 = r.chance(8); std::optional<int> n; auto m = module(&c, "m", r, &n, v1, true); bool cf = false; m.get().walk([&](Operation* o) { auto s = o->getName().getStringRef(); cf |= s.starts_with("tf_executor.") && s != "tf_executor.Other"; });
      Specs q; using D = tensorflow::DataType; q.inference_type = r.coin() ? tensorflow::DT_QINT8 : r.pick({D(tensorflow::DT_FLOAT), D(tensorflow::DT_QUINT8), D(tensorflow::DT_QINT16), D(tensorflow::DT_QUINT16), D(tensorflow::DT_INT8)}); q.inference_input_type = r.coin() ? tensorflow::DT_FLOAT : q.inference_type;
      for (int i = r.in(0, 3); i--;) q.input_ranges.push_back({r.coin() ? Opt(r.in(-9, 0)) : Opt(), r.coin() ? Opt(r.in(1, 9)) : Opt()});
      if (r.coin()) q.default_ranges = {r.chance(4) ? Opt() : Opt(r.in(-40, 10) / 8.0), r.chance(4) ? Opt() : Opt(r.in(-10, 40) / 8.0)};
      q.post_training_quantization = r.coin(); q.weight_quantization = r.chance(5); q.qdq_conversion_mode = r.chance(4) ? quant::QDQConversionMode::kQDQStatic : quant::QDQConversionMode::kQDQNone;
      std::string dir = r.coin() ? "" : word(r), out = "before"; std::unordered_set<std::string> tags; for (int i = r.in(0, 2); i--;) tags.insert(word(r)); tensorflow::Session s; int sk = r.in(0, 2); bool exp = r.chance(8);
      auto st = tensorflow::ConvertTFExecutorToTFLOrFlatbuffer(m.get(), exp, t, q, tags, dir, sk == 0 ? std::optional<tensorflow::Session*>() : std::optional<tensorflow::Session*>(sk == 1 ? &s : nullptr), &out);
      bool bad = FAILED || cf; if (st.ok() && bad) FAIL("the conversion says it succeeded although %s; the result is '%.60s'", cf ? "the graph has control flow it does not support" : "a step failed", out.c_str());
      if (!st.ok() && !bad) FAIL("the conversion says it failed although every step succeeded");
      if (bad) { g_distinct++; continue; }
      auto want = expected(q, t, dir, sk == 0 ? nullptr : sk == 1 ? "session" : "none"), got = relevant(LOG);
      if (want != got) FAIL("the steps are %s and not %s", got.c_str(), want.c_str());
      if (!exp) { if (LAST != "LegalizeLCE") FAIL("the last step is %s", LAST.c_str()); if (out != file("m", want, tagtext(tags))) FAIL("the model is %s", out.c_str()); }
      g_distinct++;
    } else if (kind == 1) {
      FAILS = ""; MLIRContext c(MLIRContext::Threading::DISABLED); load(&c); std::optional<int> n; auto m = module(&c, "m", r, &n); int got = -77; auto st = tensorflow::GetNumInputs(&m, &got);
      if (st.ok() != n.has_value()) FAIL("%s although the module %s one entry with inputs", st.ok() ? "accepted" : "refused", n ? "has" : "does not have");
      if (n && got != *n) FAIL("%d inputs and not %d", got, *n); if (n) g_distinct++;
    } else {
      fresh(r); MSEED = r.u(); bool quant = r.chance(5) ? false : true; bool range = r.coin(); std::pair<double, double> dr{r.in(-40, 10) / 8.0, r.in(-10, 40) / 8.0}; std::string target = r.chance(9) ? r.pick({"", "ARM", "armv8", "x86"}) : t == LCETarget::ARM ? "arm" : "xcore", got, want, why; bool thrown = false, must;
      pybind11::object o = pybind11::none(); if (range) o = pybind11::make_tuple(dr.first, dr.second);
      Specs q; auto fill = [&](int n, bool ptq) { q.inference_type = tensorflow::DT_QINT8; for (int i = 0; i < n; i++) q.input_ranges.push_back({Opt(), Opt()}); if (range) { q.default_ranges = {Opt(dr.first), Opt(dr.second)}; q.post_training_quantization = ptq; } };
      if (kind == 2) {
        int n = r.in(0, 3); auto in = words(r, n), ty = words(r, n), out = words(r, r.in(1, 3)); std::vector<std::vector<int>> sh(n); for (auto& s : sh) for (int k = r.in(0, 3); k--;) s.push_back(r.in(-1, 9)); std::string g = word(r);
        if (quant) fill(n, false);
        std::string id = "graph " + g + " in"; for (int i = 0; i < n; i++) id += " " + in[i] + ":" + ty[i] + ":" + (sh[i].empty() ? "?" : tensorflow::shape(sh[i])); id += " out"; for (auto& x : out) id += " " + x;
        want = file(id, expected(q, t, "", nullptr), ""); must = false;
        try { got = std::string(tensorflow::ConvertGraphDefToTFLiteFlatBuffer(pybind11::bytes(g), in, ty, sh, out, quant, target, o)); } catch (const std::exception& e) { thrown = true; why = e.what(); }
      } else {
        std::string dir = word(r); auto tags = words(r, r.in(0, 2)), names = words(r, r.chance(8) ? 0 : r.in(1, 2)); int v = r.in(1, 2); Rng r2(MSEED); std::optional<int> n; { MLIRContext c(MLIRContext::Threading::DISABLED); load(&c); module(&c, "", r2, &n); }
        must = names.empty() || !n; if (n) fill(*n, true); std::unordered_set<std::string> ts(tags.begin(), tags.end());
        std::string id = "saved " + dir + " v" + std::to_string(v) + " tags " + tagtext(ts) + " names"; for (auto& x : names) id += " " + x;
        // every function of the module goes through the function passes
        want = file(id, expected(q, t, dir, "session"), tagtext(ts));
        try { got = std::string(tensorflow::ConvertSavedModelToTFLiteFlatBuffer(dir, tags, names, v, target, o)); } catch (const std::exception& e) { thrown = true; why = e.what(); }
      }
      must |= FAILED || target != (t == LCETarget::ARM ? "arm" : "xcore");
      if (thrown != must) FAIL("%s", thrown ? ("an error is raised although every step succeeded: " + why).c_str() : ("no error is raised although a step failed or the request is not valid; the result is '" + got.substr(0, 60) + "'").c_str());
      if (!must && got != want) FAIL("the model is '%s' and not '%s'", got.c_str(), want.c_str());
      g_distinct++;
    }
  }
  return finish();
}
