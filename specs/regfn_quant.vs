## the registrations of the quantization operators (quantization.cc)
@@value TfLiteRegistration => RegV
@@value TfLiteRegistration * => RegV
@@ctor TfLiteRegistration/init => reg_of
@@prelude
// a registration: the four functions (by the hashes of their names; 0 is none)
pub struct RegV { pub init: u64, pub free: u64, pub prepare: u64, pub invoke: u64 }
impl Clone for RegV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RegV {}
pub fn reg_of(init: u64, free: u64, prepare: u64, invoke: u64) -> (r: RegV) ensures r == (RegV { init, free, prepare, invoke }) { RegV { init, free, prepare, invoke } }
@@fn compute_engine::tflite::Register_QUANTIZE/0 as register_quantize
@ensures
    r == (RegV { init: 0u64, free: 0u64, prepare: 3266995061u64 /* compute_engine::tflite::QuantizePrepare */, invoke: 2117748878u64 /* compute_engine::tflite::QuantizeEval */ }),
@@fn compute_engine::tflite::Register_DEQUANTIZE/0 as register_dequantize
@ensures
    r == (RegV { init: 0u64, free: 0u64, prepare: 2491669182u64 /* compute_engine::tflite::DequantizePrepare */, invoke: 3903071321u64 /* compute_engine::tflite::DequantizeEval */ }),
