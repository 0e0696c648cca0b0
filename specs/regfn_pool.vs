## the registration of the binary max pooling (bmaxpool.cc)
@@value TfLiteRegistration => RegV
@@value TfLiteRegistration * => RegV
@@ctor TfLiteRegistration/init => reg_of
@@prelude
// a registration: the four functions (by the hashes of their names; 0 is none)
pub struct RegV { pub init: u64, pub free: u64, pub prepare: u64, pub invoke: u64 }
impl Clone for RegV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RegV {}
pub fn reg_of(init: u64, free: u64, prepare: u64, invoke: u64) -> (r: RegV) ensures r == (RegV { init, free, prepare, invoke }) { RegV { init, free, prepare, invoke } }
@@fn compute_engine::tflite::Register_BMAXPOOL_2D/0 as register_pool
@ensures
    r == (RegV { init: 3661534646u64 /* compute_engine::tflite::bmaxpool::Init */, free: 1365553162u64 /* compute_engine::tflite::bmaxpool::Free */, prepare: 1455519361u64 /* compute_engine::tflite::bmaxpool::Prepare */, invoke: 1500039832u64 /* compute_engine::tflite::bmaxpool::Eval */ }),
