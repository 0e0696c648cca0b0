## the converter's passes and their order (tf_tfl_passes.cc)
@@record mlir::OpPassManager => PmV
@@value std::unique_ptr<mlir::OperationPass<mlir::func::FuncOp>> => PassV
@@value std::unique_ptr<mlir::OperationPass<mlir::ModuleOp>> => PassV
@@value std::unique_ptr<mlir::Pass> => PassV
@@record mlir::quant::QuantizationSpecs => QsV
@@value std::pair<std::optional<double>, std::optional<double>> => RangeV
@@value std::optional<double> => OptD
@@value std::vector<std::basic_string<char>> => StrsV
@@value std::initializer_list<std::basic_string<char>> => StrsV
@@value std::basic_string<char> => u64
@@value llvm::StringRef => u64
@@record mlir::TF::StandardPipelineOptions => StdV
@@record mlir::TF::LayoutOptimizationPipelineOptions => LayV
@@ctor std::unique_ptr<mlir::Pass>/1:std::unique_ptr<mlir::OperationPass<mlir::ModuleOp>> => %s
@@ctor std::unique_ptr<mlir::Pass>/1:std::unique_ptr<mlir::OperationPass<mlir::func::FuncOp>> => %s
@@ctor mlir::TF::StandardPipelineOptions/0: => std_opts()
@@ctor mlir::TF::LayoutOptimizationPipelineOptions/0: => lay_opts()
@@ctor std::vector<std::basic_string<char>>/2:std::initializer_list<std::basic_string<char>>,std::allocator<std::basic_string<char>> => strs_none()
@@extern mlir::OpPassManager::addNestedPass<mlir::func::FuncOp>/1 => pm_add &mut
@@extern mlir::OpPassManager::addPass/1 => pm_add &mut
@@extern mlir::OpPassManager::nest<mlir::func::FuncOp>/0 => pm_nest &mut
@@extern mlir::TF::CreateTFStandardPipeline/2 => pm_standard
@@extern mlir::TF::CreateLayoutOptimizationPipeline/2 => pm_layout
@@extern mlir::CreateSetBatchSizePass/0 => ps_batch
@@extern mlir::TF::CreateTFShapeInferencePass/0 => ps_shapes
@@extern mlir::TFL::CreateOpRemovalPass/0 => ps_removal
@@extern mlir::TFL::CreatePrepareLCEPass/1 => ps_prepare
@@extern mlir::TFL::CreateOptimizeLCEPass/1 => ps_optimize
@@extern mlir::TFL::CreateBitpackWeightsLCEPass/0 => ps_pack
@@extern mlir::TFL::CreateFusePaddingPass/0 => ps_fuse
@@extern mlir::TFL::CreateLCEQuantizePass/0 => ps_lceq
@@extern mlir::TFL::QuantizeDetectionPostProcessPass/0 => ps_detect
@@extern mlir::TFL::CreateLegalizeLCEPass/0 => ps_legalize
@@extern mlir::TFL::CreatePrepareTFPass/2 => ps_preptf
@@extern mlir::TFL::CreateLegalizeTFPass/1 => ps_legalizetf
@@extern mlir::TFL::CreateOptimizePass/1 => ps_optimizetfl
@@extern mlir::TFL::CreatePrepareQuantizePass/1 => ps_prepq
@@extern mlir::TFL::CreateDefaultQuantParamsPass/3 => ps_default
@@extern mlir::TFL::CreateQuantizePass/0 => ps_quantize
@@extern mlir::TFL::CreatePostQuantizePass/1 => ps_postq
@@extern mlir::TFL::CreatePostQuantizeRemoveQDQPass/0 => ps_removeqdq
@@extern mlir::TFL::CreateRaiseCustomOpsPass/1 => ps_raise
@@extern mlir::tf_saved_model::CreateFreezeGlobalTensorsPass/0 => ps_freeze
@@extern mlir::tf_saved_model::CreateFreezeAssetsPass/1 => ps_assets
@@extern mlir::TF::CreateInitTextFileToImportPass/1 => ps_other1
@@extern mlir::TF::CreateDeviceIndexSelectorPass/0 => ps_other
@@extern mlir::TF::CreateTFFunctionalControlFlowToRegions/0 => ps_other
@@extern mlir::TF::CreateTFRegionControlFlowToFunctional/0 => ps_other
@@extern mlir::TFDevice::CreateDecomposeResourceOpsPass/0 => ps_other
@@extern mlir::TFL::CreateAnalyzeVariablesPass/0 => ps_other
@@extern mlir::TFL::CreateInsertCallOnceOpFromSessionInitializerPass/0 => ps_other
@@extern mlir::TFL::CreateLegalizeHashTablesPass/0 => ps_other
@@extern mlir::TFL::CreateLegalizeTFWhilePass/0 => ps_other
@@extern mlir::TFL::CreateLegalizeVariablesPass/0 => ps_other
@@extern mlir::TFL::CreateLowerStaticTensorListPass/0 => ps_other
@@extern mlir::TFL::CreateOptimizeFunctionalOpsPass/0 => ps_other
@@extern mlir::TFL::CreateOptimizeOpOrderPass/0 => ps_other
@@extern mlir::TFL::CreatePrepareCompositeFunctionsPass/0 => ps_other
@@extern mlir::TFL::CreateReduceWhileOperandsPass/0 => ps_other
@@extern mlir::TFL::CreateRuntimeVerifyPass/0 => ps_other
@@extern mlir::TFL::CreateSplitMergedOperandsPass/0 => ps_other
@@extern mlir::TFL::CreateUnfoldLargeSplatConstantPass/0 => ps_other
@@extern mlir::TFL::CreateWhileOutlinePass/0 => ps_other
@@extern mlir::createCSEPass/0 => ps_other
@@extern mlir::createCanonicalizerPass/0 => ps_other
@@extern mlir::createInlinerPass/0 => ps_other
@@extern mlir::createSymbolDCEPass/0 => ps_other
@@extern mlir::tf_saved_model::CreateOptimizeGlobalTensorsPass/0 => ps_other
@@extern mlir::TFL::AllTfFakeQuantOps/0 => fake_quants
@@extern mlir::quant::QuantizationSpecs::IsSignedInferenceType/0 => qs_signed
@@extern mlir::quant::QuantizationSpecs::RunPropagationAndRewriteQuantizationPasses/0 => qs_run
@@extern std::pair<std::optional<double>, std::optional<double>>.first => range_lo
@@extern std::pair<std::optional<double>, std::optional<double>>.second => range_hi
@@extern std::optional<double>::has_value/0 => od_some
@@extern std::optional<double>::value_or<double>/1 => od_or
@@extern llvm::StringRef::empty/0 => str_empty
@@extern llvm::StringRef::str/0 => str_same
@@value mlir::ModuleOp => ModV
@@value mlir::Operation * => ModV
@@value mlir::LogicalResult => bool
@@value absl::Status => StV
@@record mlir::PassManager => PmV
@@record mlir::StatusScopedDiagnosticHandler => ShV
@@value mlir::MLIRContext * => CtxV
@@value mlir::MLIRContext => CtxV
@@record mlir::DialectRegistry => RegV
@@record tensorflow::converter::DebugOptions => RegV
@@record tensorflow::(anonymous namespace)::TruncateOpOrArgLocNameMapper => RegV
@@value std::optional<tensorflow::Session *> => OptS
@@value std::unordered_set<std::basic_string<char>> => u64
@@value std::basic_string_view<char> => u64
@@record toco::TocoFlags => TocoV
@@record tflite::FlatbufferExportOptions => ExpV
@@record llvm::raw_string_ostream => RegV
@@value tensorflow::Session * => SesV
@@value mlir::OpPrintingFlags => u64
@@value std::nullopt_t => u64
@@value pybind11::bytes => u64
@@value pybind11::object => ObjV
@@record mlir::OwningOpRef<mlir::ModuleOp> => OwnV
@@value std::pair<double, double> => RangeV
@@ctor mlir::ModuleOp/1:mlir::ModuleOp => %s
@@ctor llvm::StringRef/1:llvm::StringRef => %s
@@ctor mlir::StatusScopedDiagnosticHandler/2 => sh_new(%s, %s)
@@ctor mlir::PassManager/3 => pm_new(%s, %s, %s)
@@ctor mlir::quant::QuantizationSpecs/0 => qs_new()
@@ctor mlir::quant::QuantizationSpecs/1:mlir::quant::QuantizationSpecs => *%s
@@ctor std::basic_string_view<char>/1:ptr => %s
@@ctor tflite::FlatbufferExportOptions/0 => exp_new()
@@ctor toco::TocoFlags/0 => toco_new()
@@ctor std::optional<tensorflow::Session *>/1:std::optional<tensorflow::Session *> => %s
@@ctor std::pair<std::optional<double>, std::optional<double>>/2:std::nullopt_t,std::nullopt_t => range_none()
@@ctor pybind11::bytes/1:std::basic_string<char> => %s
@@ctor std::basic_string<char>/0: => str_new()
@@value std::unique_ptr<mlir::PassInstrumentation> => CtxV
@@value std::unique_ptr<mlir::TFL::ErrorCollectorInstrumentation> => CtxV
@@ctor std::unique_ptr<mlir::PassInstrumentation>/1:std::unique_ptr<mlir::TFL::ErrorCollectorInstrumentation> => %s
@@extern std::make_unique<mlir::TFL::ErrorCollectorInstrumentation,<mlir::MLIRContext *>>/1 => ctx_self
@@extern mlir::OpState::walk/1 => mod_walk -0
@@value mlir::WalkResult => bool
@@value mlir::InFlightDiagnostic => CtxV
@@value llvm::Twine => u64
@@ctor llvm::Twine/1:ptr => %s
@@extern mlir::WalkResult::wasInterrupted/0 => bool_self
@@extern mlir::OpState::emitError/1 => mod_error+w
@@extern mlir::TFL::AttachErrorCode/2 => attach
@@extern mlir::success/1 => bool_self
@@extern mlir::failure/1 => bnot
@@extern mlir::odml::createPrintOpStatsPass/1 => ps_stats
@@extern mlir::odml::GetAcceptedTFLiteDialects/0 => strs_any
@@extern mlir::OpState::print/2 => mod_print
@@ctor llvm::raw_string_ostream/1 => os_new(%s)
@@ctor mlir::OpPrintingFlags/1:std::nullopt_t => 0u64
@@ctor std::nullopt_t/1:std::nullopt_t => 0u64
@@extern toco::TocoFlags::set_force_select_tf_ops/1 => toco_select &mut
@@extern toco::TocoFlags::set_allow_custom_ops/1 => toco_custom &mut
@@extern toco::TocoFlags::operator=/2 => toco_set &mut
@@extern tflite::FlatbufferExportOptions.op_or_arg_name_mapper= => map_ref
@@extern absl::InternalError/1 => st_bad
@@extern absl::InvalidArgumentError/1 => st_bad
@@extern absl::OkStatus/0 => st_ok
@@extern absl::Status::ok/0 => st_isok
@@extern mlir::MLIRContext::printOpOnDiagnostic/1 => ctx_bool
@@extern mlir::MLIRContext::appendDialectRegistry/1 => ctx_reg
@@extern mlir::func::registerAllExtensions/1 => reg_all
@@extern tensorflow::InitPassManager/2 => pm_init
@@extern mlir::PassManager::addInstrumentation/1 => pm_instr
@@extern mlir::PassManager::run/1 => pm_run+w &mut
@@extern mlir::OpPassManager::clear/0 => pm_clear &mut
@@extern mlir::OpPassManager::getAnyOpAnchorName/0 => str_new
@@extern mlir::PassManager::getContext/0 => pm_ctx
@@extern mlir::OpState::getContext/0 => mod_ctx
@@extern mlir::OpState::operator mlir::Operation */0 => mod_self
@@extern mlir::OwningOpRef<mlir::ModuleOp>::get/0 => own_get
@@extern mlir::failed/1 => bnot
@@extern mlir::applyPassManagerCLOptions/1 => pm_options+w
@@extern mlir::registerPassManagerCLOptions/0 => nothing
@@extern mlir::StatusScopedDiagnosticHandler::ConsumeStatus/0 => sh_consume+w &mut
@@extern mlir::StatusScopedDiagnosticHandler::Combine/1 => sh_combine+w &mut
@@extern mlir::tf_saved_model::FreezeVariables/2 => freeze_vars+w
@@extern std::optional<tensorflow::Session *>::has_value/0 => os_some
@@extern std::optional<tensorflow::Session *>::value_or<std::nullptr_t>/1 => os_get -0
@@extern tflite::MlirToFlatBufferTranslateFunction/4 => translate_fb+w
@@extern mlir::ModuleOp::verifyInvariants/0 => mod_verify+w
@@extern std::operator==<char,std::char_traits<char>,std::allocator<char>>/2 => str_eq
@@extern pybind11::detail::object_api<pybind11::handle>::is_none/0 => ob_none
@@extern pybind11::object::cast<std::pair<double, double>>/0 => ob_range
@@assume MLIR's pass manager runs the passes in the order they were added; a pass a creation function returns is the pass it is named after, for the arguments it was given
@@assume the passes of TensorFlow not named in the property (canonicalization, inlining, variables, control flow) are left open
@@prelude
// a conversion's description of the quantization that is wanted
pub struct QRange { pub lo: Option<real>, pub hi: Option<real> }
pub struct QsView { pub ty: u32, pub input: u32, pub inputs: Seq<QRange>, pub ranges: QRange, pub ptq: bool, pub weights_only: bool, pub qdq: i32 }
pub open spec fn signed_ty(t: u32) -> bool { t != 12 && t != 16 && t != 4 }
pub enum Ps { Other, Shapes, Batch, Removal, Freeze, Assets(u64), Layout, Prepare(int), PrepareTf, LegalizeTf, Optimize(int), OptimizeTfl, Pack, Fuse, PrepQ(QsView), LceQ, Default(real, real, bool), Detect, QuantTfl, PostQ(bool), RemoveQdq, LegalizeLce, Raise, Standard, FreezeVars(int) }
// the passes added so far, in order: those the property speaks of, and the very last one; of the shape inferences, those right after the batch size was set
pub struct PmView { pub log: Seq<Ps>, pub last: Ps }
pub struct PmV { pub g: Ghost<PmView> }
impl View for PmV { type V = PmView; open spec fn view(&self) -> PmView { self.g@ } }
pub struct PassV { pub g: Ghost<Ps> }
pub struct QsV { pub inference_type: u32, pub inference_input_type: u32, pub input_ranges: Mem<RangeV>, pub default_ranges: RangeV, pub post_training_quantization: bool, pub weight_quantization: bool, pub qdq_conversion_mode: i32 }
pub open spec fn ranges_of(s: Seq<RangeV>) -> Seq<QRange> { Seq::new(s.len(), |i: int| s[i].g@) }
impl View for QsV { type V = QsView; open spec fn view(&self) -> QsView { QsView { ty: self.inference_type, input: self.inference_input_type, inputs: ranges_of(self.input_ranges@), ranges: self.default_ranges.g@, ptq: self.post_training_quantization, weights_only: self.weight_quantization, qdq: self.qdq_conversion_mode } } }
impl Clone for RangeV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RangeV {}
pub struct RangeV { pub g: Ghost<QRange> }
pub struct OptD { pub g: Ghost<Option<real>> }
impl Clone for OptD { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for OptD {}
pub struct StrsV { pub g: Ghost<bool>, pub names: Ghost<Seq<u64>> }
impl Clone for StrsV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for StrsV {}
pub struct StdV { pub enable_inliner: bool, pub form_clusters: bool }
pub struct LayV { pub force_data_format: u64, pub skip_fold_transpose_in_ops: bool }
pub struct NestV { pub g: Ghost<int> }
pub uninterp spec fn empty_str(k: u64) -> bool;
pub open spec fn adds(a: PmView, p: Ps) -> PmView {
    PmView { log: if p is Other || p is Shapes && !(a.log.len() > 0 && a.log.last() is Batch) { a.log } else { a.log.push(p) }, last: p }
}
#[verifier::external_body] pub fn pm_add(m: &mut PmV, p: PassV) ensures final(m)@ == adds(old(m)@, p.g@) { unimplemented!() }
#[verifier::external_body] pub fn pm_nest(m: &mut PmV) -> (r: NestV) ensures final(m)@ == adds(old(m)@, Ps::Layout) { unimplemented!() }
#[verifier::external_body] pub fn pm_standard(m: &mut PmV, o: &StdV) ensures final(m)@ == adds(old(m)@, Ps::Standard) { unimplemented!() }
// the layout of images and filters is the one the Larq kernels read
#[verifier::external_body] pub fn pm_layout(m: &NestV, o: &LayV) requires o.force_data_format == 1042937811u64 /* NHWC */ { unimplemented!() }
#[verifier::external_body] pub fn std_opts() -> (r: StdV) ensures !r.enable_inliner, !r.form_clusters { unimplemented!() }
#[verifier::external_body] pub fn lay_opts() -> (r: LayV) ensures !r.skip_fold_transpose_in_ops { unimplemented!() }
#[verifier::external_body] pub fn strs_none() -> (r: StrsV) ensures !r.g@ { unimplemented!() }
#[verifier::external_body] pub fn fake_quants() -> (r: StrsV) ensures r.g@ { unimplemented!() }
#[verifier::external_body] pub fn ps_other() -> (r: PassV) ensures r.g@ == Ps::Other { unimplemented!() }
#[verifier::external_body] pub fn ps_other1(s: u64) -> (r: PassV) ensures r.g@ == Ps::Other { unimplemented!() }
#[verifier::external_body] pub fn ps_batch() -> (r: PassV) ensures r.g@ == Ps::Batch { unimplemented!() }
#[verifier::external_body] pub fn ps_shapes() -> (r: PassV) ensures r.g@ == Ps::Shapes { unimplemented!() }
#[verifier::external_body] pub fn ps_removal() -> (r: PassV) ensures r.g@ == Ps::Removal { unimplemented!() }
#[verifier::external_body] pub fn ps_prepare(t: u32) -> (r: PassV) ensures r.g@ == Ps::Prepare(t as int) { unimplemented!() }
#[verifier::external_body] pub fn ps_optimize(t: u32) -> (r: PassV) ensures r.g@ == Ps::Optimize(t as int) { unimplemented!() }
#[verifier::external_body] pub fn ps_pack() -> (r: PassV) ensures r.g@ == Ps::Pack { unimplemented!() }
#[verifier::external_body] pub fn ps_fuse() -> (r: PassV) ensures r.g@ == Ps::Fuse { unimplemented!() }
#[verifier::external_body] pub fn ps_lceq() -> (r: PassV) ensures r.g@ == Ps::LceQ { unimplemented!() }
#[verifier::external_body] pub fn ps_detect() -> (r: PassV) ensures r.g@ == Ps::Detect { unimplemented!() }
#[verifier::external_body] pub fn ps_legalize() -> (r: PassV) ensures r.g@ == Ps::LegalizeLce { unimplemented!() }
#[verifier::external_body] pub fn ps_preptf(a: bool, b: bool) -> (r: PassV) ensures r.g@ == Ps::PrepareTf { unimplemented!() }
#[verifier::external_body] pub fn ps_legalizetf(a: bool) -> (r: PassV) ensures r.g@ == Ps::LegalizeTf { unimplemented!() }
#[verifier::external_body] pub fn ps_optimizetfl(a: bool) -> (r: PassV) ensures r.g@ == Ps::OptimizeTfl { unimplemented!() }
#[verifier::external_body] pub fn ps_prepq(q: &QsV) -> (r: PassV) ensures r.g@ == Ps::PrepQ(q@) { unimplemented!() }
#[verifier::external_body] pub fn ps_default(lo: F64, hi: F64, s: bool) -> (r: PassV) ensures r.g@ == Ps::Default(lo.v@, hi.v@, s) { unimplemented!() }
#[verifier::external_body] pub fn ps_quantize() -> (r: PassV) ensures r.g@ == Ps::QuantTfl { unimplemented!() }
#[verifier::external_body] pub fn ps_postq(e: bool) -> (r: PassV) ensures r.g@ == Ps::PostQ(e) { unimplemented!() }
#[verifier::external_body] pub fn ps_removeqdq() -> (r: PassV) ensures r.g@ == Ps::RemoveQdq { unimplemented!() }
#[verifier::external_body] pub fn ps_raise(s: StrsV) -> (r: PassV) ensures r.g@ == (if s.g@ { Ps::Raise } else { Ps::Other }) { unimplemented!() }
#[verifier::external_body] pub fn ps_freeze() -> (r: PassV) ensures r.g@ == Ps::Freeze { unimplemented!() }
#[verifier::external_body] pub fn ps_assets(s: u64) -> (r: PassV) ensures r.g@ == Ps::Assets(s) { unimplemented!() }
#[verifier::external_body] pub fn qs_signed(q: &QsV) -> (r: bool) ensures r == signed_ty(q@.ty) { unimplemented!() }
#[verifier::external_body] pub fn qs_run(q: &QsV) -> (r: bool) ensures r == (q@.ty != 1 && !q@.weights_only) { unimplemented!() }
#[verifier::external_body] pub fn range_lo(q: RangeV) -> (r: OptD) ensures r.g@ == q.g@.lo { unimplemented!() }
#[verifier::external_body] pub fn range_hi(q: RangeV) -> (r: OptD) ensures r.g@ == q.g@.hi { unimplemented!() }
#[verifier::external_body] pub fn od_some(o: OptD) -> (r: bool) ensures r == o.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn od_or(o: OptD, d: F64) -> (r: F64) ensures r.v@ == (if o.g@ is Some { o.g@->Some_0 } else { d.v@ }) { unimplemented!() }
#[verifier::external_body] pub fn str_empty(k: u64) -> (r: bool) ensures r == empty_str(k) { unimplemented!() }
#[verifier::external_body] pub fn str_same(k: u64) -> (r: u64) ensures r == k { unimplemented!() }
#[derive(Clone, Copy)] pub struct ModV { pub id: Ghost<int> }
pub struct OwnV { pub m: ModV }
pub struct StV { pub ok: Ghost<bool> }
pub struct ShV { pub g: Ghost<int> }
#[derive(Clone, Copy)] pub struct CtxV { pub id: Ghost<int> }
pub struct RegV { pub g: Ghost<int> }
pub struct OptS { pub g: Ghost<Option<int>> }
impl Clone for OptS { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for OptS {}
#[derive(Clone, Copy)] pub struct ObjV { pub g: Ghost<Option<QRange>> }
pub struct TocoV { pub select: Ghost<bool>, pub custom: Ghost<bool> }
pub struct ExpV { pub toco_flags: TocoV, pub saved_model_tags: u64, pub op_or_arg_name_mapper: CtxV }
// a conversion under way: the passes that ran on the module, whether anything failed, whether an error was reported, whether the custom operations are known
pub struct WView { pub module: int, pub done: Seq<Ps>, pub failed: bool, pub reported: bool, pub ops: bool }
pub struct W { pub g: Ghost<WView> }
impl View for W { type V = WView; open spec fn view(&self) -> WView { self.g@ } }
pub uninterp spec fn file_of(module: int, done: Seq<Ps>, custom_ops: bool, select_ops: bool, tags: u64) -> u64;
#[derive(Clone, Copy)] pub struct SesV { pub g: Ghost<int> }
pub open spec fn default_specs() -> QsView { QsView { ty: 1, input: 1, inputs: seq![], ranges: QRange { lo: None, hi: None }, ptq: false, weights_only: false, qdq: 0 } }
pub const ARM: u64 = 2556329620; pub const XCORE: u64 = 1162413632;
#[verifier::external_body] pub fn st_bad(s: u64) -> (r: StV) ensures !r.ok@ { unimplemented!() }
#[verifier::external_body] pub fn st_ok() -> (r: StV) ensures r.ok@ { unimplemented!() }
#[verifier::external_body] pub fn st_isok(s: StV) -> (r: bool) ensures r == s.ok@ { unimplemented!() }
#[verifier::external_body] pub fn ctx_bool(x: CtxV, b: bool) { unimplemented!() }
#[verifier::external_body] pub fn ctx_reg(x: CtxV, r: &RegV) { unimplemented!() }
#[verifier::external_body] pub fn ctx_self(x: CtxV) -> (r: CtxV) ensures r == x { unimplemented!() }
#[verifier::external_body] pub fn reg_all(r: &mut RegV) { unimplemented!() }
#[verifier::external_body] pub fn pm_init(m: &mut PmV, d: &RegV) ensures final(m)@ == old(m)@ { unimplemented!() }
#[verifier::external_body] pub fn pm_instr(m: &PmV, d: CtxV) { unimplemented!() }
#[verifier::external_body] pub fn pm_new(x: CtxV, n: u64, k: i32) -> (r: PmV) ensures r@.log.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn pm_clear(m: &mut PmV) ensures final(m)@.log.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn pm_ctx(m: &PmV) -> (r: CtxV) { unimplemented!() }
#[verifier::external_body] pub fn pm_options(m: &mut PmV, w: &mut W) -> (r: bool) ensures final(m)@ == old(m)@, final(w)@ == (if r { old(w)@ } else { WView { failed: true, ..old(w)@ } }) { unimplemented!() }
#[verifier::external_body] pub fn nothing() { unimplemented!() }
#[verifier::external_body] pub fn pm_run(m: &mut PmV, o: ModV, w: &mut W) -> (r: bool) requires o.id@ == old(w)@.module ensures final(m)@ == old(m)@, old(w)@.reported ==> final(w)@.reported, final(w)@.module == old(w)@.module, r ==> final(w)@.failed == old(w)@.failed && final(w)@.done == old(w)@.done + old(m)@.log, !r ==> final(w)@.failed { unimplemented!() }
#[verifier::external_body] pub fn sh_new(x: CtxV, b: bool) -> (r: ShV) { unimplemented!() }
#[verifier::external_body] pub fn sh_consume(s: &mut ShV, w: &mut W) -> (r: StV) ensures final(w)@ == old(w)@, r.ok@ == !old(w)@.reported { unimplemented!() }
#[verifier::external_body] pub fn sh_combine(s: &mut ShV, t: StV, w: &mut W) -> (r: StV) ensures final(w)@ == old(w)@, r.ok@ ==> t.ok@ && !old(w)@.reported, !t.ok@ ==> !r.ok@, t.ok@ && !old(w)@.reported ==> r.ok@ { unimplemented!() }
#[verifier::external_body] pub fn freeze_vars(o: ModV, s: SesV, w: &mut W) -> (r: bool) requires o.id@ == old(w)@.module ensures final(w)@ == (if r { WView { done: old(w)@.done.push(Ps::FreezeVars(s.g@)), ..old(w)@ } } else { WView { failed: true, ..old(w)@ } }) { unimplemented!() }
#[verifier::external_body] pub fn mod_ctx(o: ModV) -> (r: CtxV) { unimplemented!() }
#[verifier::external_body] pub fn mod_self(o: ModV) -> (r: ModV) ensures r == o { unimplemented!() }
#[verifier::external_body] pub fn own_get(o: &OwnV) -> (r: ModV) ensures r == o.m { unimplemented!() }
#[verifier::external_body] pub fn mod_walk(o: ModV) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn mod_error(o: ModV, s: u64, w: &mut W) -> (r: CtxV) ensures final(w)@ == (WView { reported: true, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body] pub fn mod_print(o: ModV, s: &mut RegV, f: u64) { unimplemented!() }
#[verifier::external_body] pub fn mod_verify(o: ModV, w: &mut W) -> (r: bool) ensures final(w)@ == (if r { old(w)@ } else { WView { failed: true, ..old(w)@ } }) { unimplemented!() }
#[verifier::external_body] pub fn attach(d: CtxV, c: u32) -> (r: CtxV) { unimplemented!() }
#[verifier::external_body] pub fn bool_self(b: bool) -> (r: bool) ensures r == b { unimplemented!() }
#[verifier::external_body] pub fn bnot(b: bool) -> (r: bool) ensures r == !b { unimplemented!() }
#[verifier::external_body] pub fn os_some(o: OptS) -> (r: bool) ensures r == o.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn os_get(o: OptS) -> (r: SesV) ensures r.g@ == (if o.g@ is Some { o.g@->Some_0 } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn os_new(s: &mut u64) -> (r: RegV) { unimplemented!() }
#[verifier::external_body] pub fn exp_new() -> (r: ExpV) { unimplemented!() }
#[verifier::external_body] pub fn toco_new() -> (r: TocoV) ensures !r.select@, !r.custom@ { unimplemented!() }
#[verifier::external_body] pub fn toco_select(t: &mut TocoV, b: bool) ensures final(t).select@ == b, final(t).custom@ == old(t).custom@ { unimplemented!() }
#[verifier::external_body] pub fn toco_custom(t: &mut TocoV, b: bool) ensures final(t).custom@ == b, final(t).select@ == old(t).select@ { unimplemented!() }
#[verifier::external_body] pub fn toco_set(t: &mut TocoV, o: &TocoV) ensures final(t).custom@ == o.custom@, final(t).select@ == o.select@ { unimplemented!() }
#[verifier::external_body] pub fn map_ref(r: &RegV) -> (x: CtxV) { unimplemented!() }
#[verifier::external_body] pub fn translate_fb(o: ModV, e: &ExpV, s: &mut u64, hlo: bool, w: &mut W) -> (r: bool) requires o.id@ == old(w)@.module, !hlo ensures r ==> final(w)@ == old(w)@ && *final(s) == file_of(o.id@, old(w)@.done, e.toco_flags.custom@, e.toco_flags.select@, e.saved_model_tags), !r ==> final(w)@ == (WView { failed: true, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body] pub fn ps_stats(s: StrsV) -> (r: PassV) ensures r.g@ == Ps::Other { unimplemented!() }
#[verifier::external_body] pub fn strs_any() -> (r: StrsV) { unimplemented!() }
#[verifier::external_body] pub fn str_new() -> (r: u64) { unimplemented!() }
#[verifier::external_body] pub fn str_eq(a: u64, b: u64) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body] pub fn ob_none(o: ObjV) -> (r: bool) ensures r == o.g@ is None { unimplemented!() }
#[verifier::external_body] pub fn ob_range(o: ObjV) -> (r: RangeV) requires o.g@ is Some ensures r.g@ == o.g@->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn range_none() -> (r: RangeV) ensures r.g@ == (QRange { lo: None, hi: None }) { unimplemented!() }
#[verifier::external_body] pub fn qs_new() -> (r: QsV) ensures r@ == default_specs() { unimplemented!() }
pub open spec fn or0(o: Option<real>) -> real { if o is Some { o->Some_0 } else { 0real } }
#[verifier::external_body] pub fn never() ensures false { unimplemented!() }
pub open spec fn then(a: Seq<Ps>, b: Seq<Ps>) -> Seq<Ps> { a + b }
// the quantization passes: float ranges first, then the integer types they give, Larq operations alongside TensorFlow Lite's
pub open spec fn quant_passes(q: QsView) -> Seq<Ps> {
    let e = q.ty != q.input;
    seq![Ps::PrepQ(q), Ps::LceQ] + (if q.ranges.lo is Some || q.ranges.hi is Some { seq![Ps::Default(or0(q.ranges.lo), or0(q.ranges.hi), signed_ty(q.ty)), Ps::LceQ] } else { seq![] })
        + seq![Ps::Detect, Ps::QuantTfl, Ps::PostQ(e), Ps::LceQ, Ps::PostQ(e), Ps::OptimizeTfl]
}
pub open spec fn quantizes(q: QsView) -> bool { q.ty != 1 && !q.weights_only || q.qdq != 0 }
pub open spec fn late_passes(dir: u64, q: QsView, t: int) -> Seq<Ps> {
    seq![Ps::Batch, Ps::Shapes, Ps::Removal, Ps::Freeze] + (if empty_str(dir) { seq![] } else { seq![Ps::Assets(dir)] })
        + seq![Ps::Layout, Ps::Prepare(t), Ps::PrepareTf, Ps::LegalizeTf, Ps::Optimize(t), Ps::OptimizeTfl, Ps::Optimize(t), Ps::Pack, Ps::Fuse]
        + (if quantizes(q) { quant_passes(q) + seq![Ps::RemoveQdq] } else { seq![] }) + seq![Ps::LegalizeLce]
}
pub open spec fn fresh(w: WView, m: ModV) -> bool { w.module == m.id@ && w.done.len() == 0 && !w.failed && !w.reported }
pub open spec fn all_passes(session: Option<int>, dir: u64, q: QsView, t: int) -> Seq<Ps> {
    seq![Ps::Raise, Ps::Standard] + (if session is Some { seq![Ps::FreezeVars(session->Some_0)] } else { seq![] }) + late_passes(dir, q, t)
}
pub open spec fn nones(n: nat) -> Seq<QRange> { Seq::new(n, |i: int| QRange { lo: None, hi: None }) }
// what the caller asked for
pub open spec fn asked(quantize: bool, ranges: Option<QRange>, inputs: nat, ptq: bool) -> QsView {
    if !quantize { default_specs() } else if ranges is None { QsView { ty: 11, inputs: nones(inputs), ..default_specs() } }
    else { QsView { ty: 11, inputs: nones(inputs), ptq: ptq, ranges: ranges->Some_0, ..default_specs() } }
}
@@fn tensorflow::(anonymous namespace)::AddQuantizationPasses/2 as quant_add
@ensures
    final(pass_manager)@.log =~= old(pass_manager)@.log + quant_passes(quant_specs@),
@@fn tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses/1 as early_add
@ensures
    final(pass_manager)@.log =~= old(pass_manager)@.log + seq![Ps::Raise, Ps::Standard],
@@fn tensorflow::AddPostVariableFreezingTFToLCETFLConversionPasses/4 as late_add
@ensures
    final(pass_manager)@.log =~= old(pass_manager)@.log + late_passes(saved_model_dir, quant_specs@, target as int), final(pass_manager)@.last == Ps::LegalizeLce,
@@fn tensorflow::GetLCETarget/1 as get_target
@throw
    target_str != ARM && target_str != XCORE
@ensures
    target_str == ARM || target_str == XCORE, r == (if target_str == ARM { 0u32 } else { 1u32 }),
@@fn tensorflow::(anonymous namespace)::IsValidGraph/1 as graph_ok
@ghost w: &mut W
@ensures
    r ==> final(w)@ == old(w)@, !r ==> final(w)@ == (WView { reported: true, ..old(w)@ }),
@@fn tensorflow::ConvertTFExecutorToTFLOrFlatbuffer/8 as convert_all
@ghost w: &mut W
@scalarptr result
@requires
    fresh(old(w)@, module),
@ensures
    // a model only if every step succeeded, and then the steps were these
    r.ok@ ==> !final(w)@.failed && final(w)@.done =~= all_passes(session.g@, saved_model_dir, quant_specs@, target as int),
    r.ok@ && !export_to_mlir ==> *final(result) == file_of(module.id@, final(w)@.done, true, false, saved_model_tags),
    !r.ok@ ==> final(w)@.failed || final(w)@.reported,
@@fn tensorflow::ConvertMLIRModuleToTFLiteFlatBuffer/10 as convert_module
@ghost w: &mut W
@valaddr
@throw
    w@.failed || w@.reported
@requires
    fresh(old(w)@, module.m), 0 <= num_inputs,
@ensures
    !final(w)@.failed,
    r == file_of(old(module).m.id@, all_passes(session.g@, saved_model_dir, asked(should_quantize, default_ranges.g@, num_inputs as nat, mark_as_post_training_quant), target as int), true, false, saved_model_tags),
@loop 0 inv
    0 <= i <= num_inputs, quant_specs@.inputs =~= nones(i as nat), quant_specs@ == (QsView { ty: 11, inputs: quant_specs@.inputs, ..default_specs() }),
@loop 0 dec
    num_inputs - i,
@loop 0 begin
    let ghost s0 = quant_specs@.inputs;
@loop 0 end
    assert forall|k: int| 0 <= k < i + 1 implies quant_specs@.inputs[k] == (#[trigger] nones((i + 1) as nat)[k]) by { if k < i { assert(s0[k] == nones(i as nat)[k]); } }
