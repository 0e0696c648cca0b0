## which kernel each custom operator name is registered with (lce_ops_register.h)
@@value tflite::MutableOpResolver * => Rsv
@@value TfLiteRegistration * => Reg
@@value tflite::logging::Drop => Drop
@@ctor tflite::logging::Drop/0 => log_line()
@@extern tflite::logging::Drop::operator<</2 => log_text
@@extern tflite::MutableOpResolver::AddCustom/3 => add_custom+ir
@@extern compute_engine::tflite::Register_QUANTIZE/0 => reg_quantize
@@extern compute_engine::tflite::Register_DEQUANTIZE/0 => reg_dequantize
@@extern compute_engine::tflite::Register_BCONV_2D/0 => reg_bconv
@@extern compute_engine::tflite::Register_BCONV_2D_REF/0 => reg_bconv_ref
@@extern compute_engine::tflite::Register_BCONV_2D_OPT_INDIRECT_BGEMM/0 => reg_bconv_indirect
@@extern compute_engine::tflite::Register_BMAXPOOL_2D/0 => reg_bmaxpool
@@assume the registration functions return the registrations of the kernels they are named after (their static tables of function pointers are not extracted; the native program runs them)
@@prelude
#[derive(PartialEq, Eq, Structural)] pub enum K { Quantize, Dequantize, Bconv, BconvRef, BconvIndirect, BMaxPool }
pub struct Drop { pub g: Ghost<int> }
pub struct Rsv { pub g: Ghost<int> }
impl Clone for Rsv { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Rsv {}
pub struct Reg { pub g: Ghost<K> }
// the resolvers: what each name stands for (names by their hash) and in which version
pub struct Ir { pub g: Ghost<Map<(int, u64), (K, i32)>> }
impl View for Ir { type V = Map<(int, u64), (K, i32)>; open spec fn view(&self) -> Map<(int, u64), (K, i32)> { self.g@ } }
#[verifier::external_body] pub fn log_line() -> (r: Drop) { unimplemented!() }
#[verifier::external_body] pub fn log_text(d: Drop, s: u64) -> (r: Drop) { unimplemented!() }
#[verifier::external_body] pub fn add_custom(s: Rsv, name: u64, r: Reg, version: i32, ir: &mut Ir) ensures final(ir)@ == old(ir)@.insert((s.g@, name), (r.g@, version)) { unimplemented!() }
#[verifier::external_body] pub fn reg_quantize() -> (r: Reg) ensures r.g@ == K::Quantize { unimplemented!() }
#[verifier::external_body] pub fn reg_dequantize() -> (r: Reg) ensures r.g@ == K::Dequantize { unimplemented!() }
#[verifier::external_body] pub fn reg_bconv() -> (r: Reg) ensures r.g@ == K::Bconv { unimplemented!() }
#[verifier::external_body] pub fn reg_bconv_ref() -> (r: Reg) ensures r.g@ == K::BconvRef { unimplemented!() }
#[verifier::external_body] pub fn reg_bconv_indirect() -> (r: Reg) ensures r.g@ == K::BconvIndirect { unimplemented!() }
#[verifier::external_body] pub fn reg_bmaxpool() -> (r: Reg) ensures r.g@ == K::BMaxPool { unimplemented!() }
@@fn compute_engine::tflite::RegisterLCECustomOps/3 as register_ops
@ghost ir: &mut Ir
@ensures
    final(ir)@ =~= old(ir)@
        .insert((resolver.g@, 315923348u64 /* "LceQuantize" */), (K::Quantize, 1i32))
        .insert((resolver.g@, 2818191871u64 /* "LceDequantize" */), (K::Dequantize, 1i32))
        .insert((resolver.g@, 4032102460u64 /* "LceBconv2d" */), (if use_reference_bconv { K::BconvRef } else if use_indirect_bgemm { K::BconvIndirect } else { K::Bconv }, 1i32))
        .insert((resolver.g@, 2995989438u64 /* "LceBMaxPool2d" */), (K::BMaxPool, 1i32)),
