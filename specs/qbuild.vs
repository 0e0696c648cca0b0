## the type of a packing operation the converter creates (lce_ops.cc, QuantizeOp::build)
@@include common.vs
@@include mlirdense.vs
@@value mlir::OperationState => OpSt
@@value mlir::ValueRange => MArg
@@vector std::vector<long> => i64
@@ctor mlir::ValueRange/1:mlir::Value => %s
@@ctor mlir::ValueRange/1:mlir::ValueRange => %s
@@ctor llvm::ArrayRef<mlir::Type>/1:mlir::Type => one_type(%s)
@@ctor mlir::Type/1:mlir::Type => %s
@@ctor llvm::ArrayRef<long>/1:std::vector<long> => sl_vec(%s)
@@extern llvm::ArrayRef<long>::drop_back/1 => sl_drop
@@extern llvm::ArrayRef<long>::back/0 => sl_last
@@extern llvm::ArrayRef<long>::operator vector/0 => vec_sl
@@extern mlir::OperationState::addOperands/1 => st_operand byval &mut
@@extern mlir::OperationState::addTypes/1 => st_types byval &mut
@@assume the operand of a packing operation is a ranked tensor of rank one or more (TensorFlow's shape inference; anything else stops the conversion), with dimensions below 2^31 - 31 or unknown
@@prelude
pub struct OpSt { pub operands: Ghost<Seq<MArg>>, pub types: Ghost<Seq<TyV>> }

#[verifier::external_body] pub fn one_type(t: MTy) -> (r: Sl<MTy>) ensures r@ == seq![t] { unimplemented!() }
#[verifier::external_body] pub fn sl_drop(s: Sl<i64>, n: u64) -> (r: Sl<i64>) requires n <= s@.len() ensures r@ == s@.subrange(0, s@.len() - n) { unimplemented!() }
#[verifier::external_body] pub fn sl_last(s: Sl<i64>) -> (r: i64) requires s@.len() > 0 ensures r == s@[s@.len() - 1] { unimplemented!() }
#[verifier::external_body] pub fn st_operand(s: &mut OpSt, v: MArg) ensures final(s).operands@ == old(s).operands@.push(v), final(s).types == old(s).types { unimplemented!() }
#[verifier::external_body] pub fn st_types(s: &mut OpSt, t: Sl<MTy>) ensures final(s).types@ == old(s).types@ + tys(t@), final(s).operands == old(s).operands { unimplemented!() }
// what the run-time operator gives for an input of this shape (see quantize_prepare in quant.vs): one word per 32 channels; nothing is known of what is unknown
pub open spec fn dyn_dim() -> int { i64::MIN as int }
pub open spec fn dim_ok(d: i64) -> bool { d == dyn_dim() || 0 <= d < 0x7fff_ffe0 }
pub open spec fn words_of(s: Seq<i64>) -> i64 { if s[s.len() - 1] == dyn_dim() { i64::MIN } else { cdiv32(s[s.len() - 1] as int) as i64 } }
pub open spec fn packed_shape(s: Seq<i64>) -> Seq<i64> { s.drop_last().push(words_of(s)) }
@@fn compute_engine::core::bitpacking::GetBitpackedSize/1 as get_bitpacked_size
@requires
    0 <= unpacked_elements <= 0x7fff_ffe0,
@ensures
    r == cdiv32(unpacked_elements as int)
@@fn mlir::lq::QuantizeOp::build/3 as quantize_build
@requires
    is_ranked(gty(x)), gty(x)->Ranked_0.len() > 0, forall|k: int| 0 <= k < gty(x)->Ranked_0.len() ==> dim_ok(#[trigger] gty(x)->Ranked_0[k]),
@ensures
    final(state).operands@ =~= old(state).operands@.push(x),
    final(state).types@ =~= old(state).types@.push(TyV::Ranked(packed_shape(gty(x)->Ranked_0), ec_i32(), 0)),
@end
    proof {
        let s = gty(x)->Ranked_0;
        let t = final(state).types@;
        assert(dim_ok(s[s.len() - 1]));
        assert(t.len() == old(state).types@.len() + 1);
        assert(t[t.len() - 1]->Ranked_0 =~= packed_shape(s));
    }
