@@extern tflite::TfLiteRound/1 => tfl_round
@@assume TfLiteRound rounds a finite float to the nearest integer (ties may go either way); the conversion of a float to int32 keeps integral values in range; float addition and multiplication are commutative (IEEE-754, NaN payloads aside); other float facts are not used
@@need cv i32 F32
@@need cv F32 i32
@@need add F32
@@need mul F32
@@prelude
pub uninterp spec fn stfl_round(x: F32) -> F32;
#[verifier::external_body] pub fn tfl_round(x: F32) -> (r: F32) ensures r == stfl_round(x) { unimplemented!() }
#[verifier::external_body] pub broadcast proof fn ax_fadd_comm(a: F32, b: F32) ensures #[trigger] sadd_F32(a, b) == sadd_F32(b, a) {}
#[verifier::external_body] pub broadcast proof fn ax_fmul_comm(a: F32, b: F32) ensures #[trigger] smul_F32(a, b) == smul_F32(b, a) {}
// nearest integer of a float, as the C++ int it is converted to
pub open spec fn nearest(x: F32) -> i32 { scv_F32_i32(stfl_round(x)) }
pub open spec fn sat8(x: int) -> int { if x > 127 { 127 } else if x < -128 { -128 } else { x } }
pub open spec fn clampi(x: int, lo: int, hi: int) -> int { imax(imin(x, hi), lo) }
// an accumulator is a number of differing bits
pub open spec fn accum_ok(a: int) -> bool { 0 <= a < 0x2000_0000 }
pub open spec fn lin(x: int, m: F32, b: F32) -> F32 { sadd_F32(smul_F32(scv_i32_F32(x as i32), m), b) }
pub open spec fn out_float(t: &OTF, a: int, c: int) -> F32 { lin(clampi(2 * a, t.clamp_min as int, t.clamp_max as int), t.multiplier.ix(c), t.bias.ix(c)) }
pub open spec fn out_int8(t: &OTI, a: int, c: int) -> i8 { sat8(nearest(lin(clampi(2 * a, t.clamp_min as int, t.clamp_max as int), t.multiplier.ix(c), t.bias.ix(c))) as int) as i8 }
pub open spec fn out_bit(t: &OTB, a: int, c: int) -> bool { a > t.thresholds.ix(c) }
// clamping twice the bit count to [K - hi, K - lo] is clamping the true
// convolution sum K - 2a to [lo, hi]
pub proof fn lemma_fold_clamp(k: int, a: int, lo: int, hi: int)
    requires lo <= hi
    ensures k - clampi(2 * a, k - hi, k - lo) == clampi(k - 2 * a, lo, hi)
{}
pub proof fn lemma_shl1(a: i32) requires accum_ok(a as int) ensures sshl_i32(a, 1) == 2 * a
{ assert(((a as u32) << 1u32) as i32 == 2 * a) by (bit_vector) requires 0 <= a < 0x2000_0000i32; }
@@need int << i32
@@record compute_engine::core::bconv2d::OutputTransform<float, OutputTransformDetails::Default> => OTF
@@record compute_engine::core::bconv2d::OutputTransform<std::int8_t, OutputTransformDetails::Default> => OTI
@@record compute_engine::core::bconv2d::OutputTransform<TBitpacked, OutputTransformDetails::Default> => OTB
@@prelude
pub struct OTF { pub clamp_min: i32, pub clamp_max: i32, pub multiplier: CPtr<F32>, pub bias: CPtr<F32> }
pub struct OTI { pub clamp_min: i32, pub clamp_max: i32, pub multiplier: CPtr<F32>, pub bias: CPtr<F32> }
pub struct OTB { pub thresholds: CPtr<i32> }
@@foreach S N in saturate:saturate
@@fn compute_engine::core::bconv2d::saturate/1 as saturate
@ensures
    r == sat8(x as int)
@@fn compute_engine::core::bconv2d::round/1 as round_
@ensures
    r == nearest(x)
@@end
@@fn compute_engine::core::bconv2d::OutputTransform<float, OutputTransformDetails::Default>::Run/2 as ot_run_f
@requires
    accum_ok(accum as int), 0 <= this.multiplier.o@ + out_channel < this.multiplier.s@.len(), 0 <= this.bias.o@ + out_channel < this.bias.s@.len(),
@ensures
    r == out_float(this, accum as int, out_channel as int)
@start
    broadcast use {ax_fadd_comm, ax_fmul_comm}; proof { lemma_shl1(accum); }
@@fn compute_engine::core::bconv2d::OutputTransform<std::int8_t, OutputTransformDetails::Default>::Run/2 as ot_run_i
@requires
    accum_ok(accum as int), 0 <= this.multiplier.o@ + out_channel < this.multiplier.s@.len(), 0 <= this.bias.o@ + out_channel < this.bias.s@.len(),
@ensures
    r == out_int8(this, accum as int, out_channel as int)
@start
    broadcast use {ax_fadd_comm, ax_fmul_comm}; proof { lemma_shl1(accum); }
@@fn compute_engine::core::bconv2d::OutputTransform<TBitpacked, OutputTransformDetails::Default>::Run/2 as ot_run_b
@requires
    0 <= this.thresholds.o@ + out_channel < this.thresholds.s@.len(),
@ensures
    r == out_bit(this, accum as int, out_channel as int)
