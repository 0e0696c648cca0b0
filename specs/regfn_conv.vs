## the registrations of the binary convolution (bconv2d.cc)
@@value TfLiteRegistration => RegV
@@value TfLiteRegistration * => RegV
@@ctor TfLiteRegistration/init => reg_of
@@prelude
// a registration: the four functions (by the hashes of their names; 0 is none)
pub struct RegV { pub init: u64, pub free: u64, pub prepare: u64, pub invoke: u64 }
impl Clone for RegV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RegV {}
pub fn reg_of(init: u64, free: u64, prepare: u64, invoke: u64) -> (r: RegV) ensures r == (RegV { init, free, prepare, invoke }) { RegV { init, free, prepare, invoke } }
// each variant is prepared and run by the same kernel
pub open spec fn ref_kernel() -> RegV { RegV { init: 3449199114u64 /* compute_engine::tflite::bconv2d::Init */, free: 1187823542u64 /* compute_engine::tflite::bconv2d::Free */, prepare: 2992835570u64 /* compute_engine::tflite::bconv2d::Prepare<compute_engine::tflite::bconv2d::KernelType::kReference> */, invoke: 4281423391u64 /* compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::kReference> */ } }
pub open spec fn bgemm_kernel() -> RegV { RegV { init: 3449199114u64 /* compute_engine::tflite::bconv2d::Init */, free: 1187823542u64 /* compute_engine::tflite::bconv2d::Free */, prepare: 1150433633u64 /* compute_engine::tflite::bconv2d::Prepare<compute_engine::tflite::bconv2d::KernelType::kOptimizedBGEMM> */, invoke: 2271094502u64 /* compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::kOptimizedBGEMM> */ } }
pub open spec fn indirect_kernel() -> RegV { RegV { init: 3449199114u64 /* compute_engine::tflite::bconv2d::Init */, free: 1187823542u64 /* compute_engine::tflite::bconv2d::Free */, prepare: 2693146369u64 /* compute_engine::tflite::bconv2d::Prepare<compute_engine::tflite::bconv2d::KernelType::kOptimizedIndirectBGEMM> */, invoke: 2691762977u64 /* compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::kOptimizedIndirectBGEMM> */ } }
@@fn compute_engine::tflite::Register_BCONV_2D_REF/0 as register_ref
@ensures
    r == ref_kernel(),
@@fn compute_engine::tflite::Register_BCONV_2D_OPT_BGEMM/0 as register_opt
@ensures
    r == bgemm_kernel(),
@@fn compute_engine::tflite::Register_BCONV_2D_OPT_INDIRECT_BGEMM/0 as register_indirect
@ensures
    r == indirect_kernel(),
@@fn compute_engine::tflite::Register_BCONV_2D/0 as register_default
@ensures
    r == ref_kernel() || r == bgemm_kernel(),
