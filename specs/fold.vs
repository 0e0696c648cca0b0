@@include mlirdense.vs
@@include bitpack.vs contracts of bitpack.vs
@@include unpack.vs contracts of unpack.vs
@@need div F32
@@need fneg F32 F32 1
@@need round F32 F32 1
@@need cv F32 i32
@@need lit F32
@@extern tflite::TfLiteRound/1 => round_F32
@@value mlir::quant::UniformQuantizedType => MTy
@@value mlir::OpFoldResult => MAttr
@@value mlir::lq::standin::Fold => MFold
@@value llvm::ArrayRef<int> => Sl<i32>
@@value llvm::ArrayRef<float> => Sl<F32>
@@value llvm::ArrayRef<signed char> => Sl<i8>
@@ctor mlir::OpFoldResult/1:mlir::Attribute => %s
@@ctor mlir::OpFoldResult/1:std::nullptr_t => at_null()
@@ctor mlir::OpBuilder/2:MOp,ptr => mk_builder()
@@ctor llvm::ArrayRef<int>/1:std::vector<int> => sl_vec(%s)
@@ctor llvm::ArrayRef<float>/1:std::vector<float> => sl_vec(%s)
@@ctor llvm::ArrayRef<signed char>/1:std::vector<signed char> => sl_vec(%s)
@@extern mlir::DenseElementsAttr::get<int,void>/2 => at_of_ints
@@extern mlir::DenseElementsAttr::get<float,void>/2 => at_of_flts
@@extern mlir::DenseElementsAttr::get<signed char,void>/2 => at_of_bytes
@@extern mlir::Type::dyn_cast<mlir::quant::UniformQuantizedType>/0 => ty_quant
@@extern mlir::Type::isInteger/1 => ty_is_int8
@@extern mlir::quant::QuantizedType::getStorageType/0 => qt_storage
@@extern mlir::quant::UniformQuantizedType::getScale/0 => qt_scale
@@extern mlir::quant::UniformQuantizedType::getZeroPoint/0 => qt_zero
@@extern mlir::lq::standin::Fold::getOperands/0 => fold_operands
@@extern mlir::OpTrait::OneTypedResult<mlir::TensorType>::Impl<mlir::lq::DequantizeOp>::getType/0 => op_result_type -this
@@extern mlir::OpState::getOperation/0 => this_op -this
@@assume a constant operand of the folded operation is a dense attribute whose element count is the product of its dimensions (below 2^30), and the operand of a dequantization has 32-bit integer elements (operation verifier)
@@assume the zero point of an int8 output lies in [-128, 127] and its scale is positive and not so small that 1/scale exceeds 2^30
@@prelude
pub struct MFold { pub g: Ghost<Seq<MAttr>> }
impl Clone for MFold { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MFold {}
pub uninterp spec fn the_result() -> TyV;
// uniform quantized element types, by element type code
pub uninterp spec fn is_uq(t: TyV) -> bool;
pub uninterp spec fn uq_storage8(t: TyV) -> bool;
pub uninterp spec fn uq_scale(t: TyV) -> real;
pub uninterp spec fn uq_zero(t: TyV) -> i64;
pub uninterp spec fn ec_storage(t: TyV) -> TyV;
pub uninterp spec fn is_i8(t: TyV) -> bool;
// a dense constant of this type made of these bytes
pub uninterp spec fn bytes_attr(t: TyV, v: Seq<i8>) -> AttrV;
#[verifier::external_body] pub fn mk_builder() -> (r: MCtx) { unimplemented!() }
#[verifier::external_body] pub fn this_op() -> (r: MOp) { unimplemented!() }
#[verifier::external_body] pub fn op_result_type() -> (r: MTy) ensures r@ == the_result() { unimplemented!() }
#[verifier::external_body] pub fn fold_operands(f: MFold) -> (r: Sl<MAttr>) ensures r@ == f.g@ { unimplemented!() }
pub open spec fn count4(s: Seq<i64>) -> int { s[0] * s[1] * s[2] * s[3] }
pub open spec fn rows3(s: Seq<i64>) -> int { s[0] * s[1] * s[2] }
pub open spec fn dims4(s: Seq<i64>) -> bool { s.len() == 4 && s[0] >= 0 && s[1] >= 0 && s[2] >= 0 && s[3] >= 0 }
// sizes for which no 32-bit product of dimensions overflows
pub open spec fn small(s: Seq<i64>) -> bool { s.len() == 4 ==> count4(s) < 0x4000_0000 && rows3(s) < 0x4000_0000 && s[0] * s[1] < 0x4000_0000 && s[3] < 0x4000_0000 && rows3(s) * cdiv32(s[3] as int) < 0x4000_0000 }
// the element buffer of a dense constant matches its type
pub open spec fn at_wf(a: AttrV) -> bool {
    a != AttrV::Null ==> a is Dense && is_ranked(a->Dense_0) && static_shape(a->Dense_0->Ranked_0) && small(a->Dense_0->Ranked_0)
        && (a->Dense_0->Ranked_0.len() == 4 ==> (elem(a->Dense_0) == TyV::Other(ec_i32()) ==> a->Dense_1.len() == count4(a->Dense_0->Ranked_0)) && (elem(a->Dense_0) == TyV::Other(ec_f32()) ==> a->Dense_2.len() == count4(a->Dense_0->Ranked_0)))
}
#[verifier::external_body] pub fn at_of_ints(t: MTy, v: Sl<i32>) -> (r: MAttr) requires is_ranked(t@), dims4(t@->Ranked_0), elem(t@) == TyV::Other(ec_i32()), v@.len() == count4(t@->Ranked_0)
    ensures r@ is Dense, r@->Dense_0 == t@, r@->Dense_1 == v@ { unimplemented!() }
#[verifier::external_body] pub fn at_of_flts(t: MTy, v: Sl<F32>) -> (r: MAttr) requires is_ranked(t@), dims4(t@->Ranked_0), elem(t@) == TyV::Other(ec_f32()), v@.len() == count4(t@->Ranked_0)
    ensures r@ is Dense, r@->Dense_0 == t@, r@->Dense_2 == v@ { unimplemented!() }
#[verifier::external_body] pub fn at_of_bytes(t: MTy, v: Sl<i8>) -> (r: MAttr) requires is_ranked(t@), dims4(t@->Ranked_0), is_uq(elem(t@)), is_i8(ec_storage(elem(t@))), v@.len() == count4(t@->Ranked_0)
    ensures r@ == bytes_attr(t@, v@), r@ != AttrV::Null { unimplemented!() }
#[verifier::external_body] pub fn ty_quant(t: MTy) -> (r: MTy) requires t@ != TyV::Null ensures r@ == (if is_uq(t@) { t@ } else { TyV::Null }) { unimplemented!() }
#[verifier::external_body] pub fn ty_is_int8(t: MTy, w: u32) -> (r: bool) requires t@ != TyV::Null ensures w == 8 ==> r == is_i8(t@) { unimplemented!() }
#[verifier::external_body] pub fn qt_storage(t: MTy) -> (r: MTy) requires is_uq(t@) ensures r@ == ec_storage(t@), r@ != TyV::Null { unimplemented!() }
#[verifier::external_body] pub fn qt_scale(t: MTy) -> (r: F64) requires is_uq(t@) ensures r.v@ == uq_scale(t@) { unimplemented!() }
#[verifier::external_body] pub fn qt_zero(t: MTy) -> (r: i64) requires is_uq(t@) ensures r == uq_zero(t@) { unimplemented!() }
// what the runtime's quantize operator computes for a float input (see the quantize unit): rows of sign words
pub open spec fn folded_pack(x: AttrV, r: AttrV) -> bool {
    let s = x->Dense_0->Ranked_0; let wc = cdiv32(s[3] as int);
    &&& r is Dense &&& r->Dense_0 == TyV::Ranked(seq![s[0], s[1], s[2], wc as i64], ec_i32(), 0)
    &&& r->Dense_1.len() == rows3(s) * wc
    &&& forall|k: int| 0 <= k < rows3(s) ==> #[trigger] row_F32(r->Dense_1, 0, x->Dense_2, 0, s[3] as int, 0, k)
}
pub open spec fn pack_conds(x: AttrV) -> bool { x != AttrV::Null && x->Dense_0->Ranked_0.len() == 4 && elem(x->Dense_0) == TyV::Other(ec_f32()) }
// ... and its dequantize operator
pub open spec fn inv_scale(s: F32) -> int { scv_F32_i32(sround_F32(sdiv_F32(slit_F32(1065353216), s))) as int }
pub open spec fn plus_of(e: TyV) -> int { imin(127, uq_zero(e) + inv_scale(f32_of_real(uq_scale(e)))) }
pub open spec fn minus_of(e: TyV) -> int { imax(-128, uq_zero(e) - inv_scale(f32_of_real(uq_scale(e)))) }
pub open spec fn qbit(w: Seq<i32>, cols: int, p: int) -> bool { bit(w[(p / cols) * cdiv32(cols) + (p % cols) / 32], (p % cols) % 32) }
pub open spec fn shapes_agree(x: AttrV, t: TyV) -> bool {
    let a = x->Dense_0->Ranked_0; let b = t->Ranked_0;
    a.len() == 4 && b.len() == 4 && static_shape(b) && a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == cdiv32(b[3] as int)
}
pub open spec fn unpack_conds(x: AttrV, t: TyV) -> bool {
    x != AttrV::Null && is_ranked(t) && shapes_agree(x, t) && (elem(t) == TyV::Other(ec_f32()) || (is_uq(elem(t)) && is_i8(ec_storage(elem(t)))))
}
pub open spec fn folded_unpack(x: AttrV, t: TyV, r: AttrV) -> bool {
    let s = t->Ranked_0; let c = s[3] as int; let w = x->Dense_1;
    if elem(t) == TyV::Other(ec_f32()) {
        r is Dense && r->Dense_0 == t && r->Dense_2.len() == count4(s) && forall|p: int| 0 <= p < count4(s) ==> #[trigger] r->Dense_2[p] == (if qbit(w, c, p) { scv_i32_F32(-1i32) } else { scv_i32_F32(1i32) })
    } else {
        exists|v: Seq<i8>| r == #[trigger] bytes_attr(t, v) && v.len() == count4(s) && forall|p: int| 0 <= p < count4(s) ==> #[trigger] v[p] == (if qbit(w, c, p) { minus_of(elem(t)) } else { plus_of(elem(t)) })
    }
}
// what a well-formed int8 output type is assumed to satisfy
pub open spec fn uq_wf(t: TyV) -> bool { is_uq(elem(t)) && is_i8(ec_storage(elem(t))) ==> -128 <= uq_zero(elem(t)) <= 127 && 0 <= inv_scale(f32_of_real(uq_scale(elem(t)))) < 0x4000_0000 && elem(t) != TyV::Other(ec_f32()) }
// IEEE-754: division and rounding half away from zero commute with negation
pub axiom fn ax_odd(s: F32) ensures scv_F32_i32(sround_F32(sdiv_F32(sfneg_F32(slit_F32(1065353216)), s))) == -inv_scale(s) || !(0 <= inv_scale(s) < 0x4000_0000);
pub proof fn lemma_sizes(s: Seq<i64>)
    requires dims4(s), small(s)
    ensures 0 <= s[0] * s[1], 0 <= rows3(s), rows3(s) * s[3] == count4(s), 0 <= rows3(s) * cdiv32(s[3] as int), 0 <= count4(s),
        s[0] > 0 && s[1] > 0 && s[2] > 0 ==> s[0] < 0x4000_0000 && s[1] < 0x4000_0000 && s[2] < 0x4000_0000
{
    assert(0 <= s[0] * s[1]) by (nonlinear_arith) requires s[0] >= 0, s[1] >= 0;
    assert(0 <= s[0] * s[1] * s[2]) by (nonlinear_arith) requires s[0] * s[1] >= 0, s[2] >= 0;
    assert(0 <= rows3(s) * cdiv32(s[3] as int)) by (nonlinear_arith) requires rows3(s) >= 0, cdiv32(s[3] as int) >= 0;
    assert(0 <= rows3(s) * s[3]) by (nonlinear_arith) requires rows3(s) >= 0, s[3] >= 0;
    if s[0] > 0 && s[1] > 0 && s[2] > 0 {
        assert(s[0] <= s[0] * s[1] && s[1] <= s[0] * s[1]) by (nonlinear_arith) requires s[0] > 0, s[1] > 0;
        assert(s[2] <= s[0] * s[1] * s[2]) by (nonlinear_arith) requires s[0] * s[1] > 0, s[2] > 0;
    }
}
@@foreach T in F32 i8
@@prelude
pub proof fn lemma_flat_$T(out: Seq<$T>, w: Seq<i32>, rows: int, cols: int, zv: $T, ov: $T)
    requires 0 <= rows, 0 <= cols, out.len() == rows * cols, forall|r: int| 0 <= r < rows ==> #[trigger] urow(out, 0, w, 0, cols, zv, ov, r)
    ensures forall|p: int| 0 <= p < rows * cols ==> #[trigger] out[p] == (if qbit(w, cols, p) { ov } else { zv })
{
    assert forall|p: int| 0 <= p < rows * cols implies #[trigger] out[p] == (if qbit(w, cols, p) { ov } else { zv }) by {
        assert(cols > 0) by (nonlinear_arith) requires 0 <= p < rows * cols, cols >= 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, cols);
        let r = p / cols;
        assert(0 <= r < rows) by (nonlinear_arith) requires 0 <= p < rows * cols, p == cols * r + p % cols, 0 <= p % cols < cols;
        assert(cols * r == r * cols) by (nonlinear_arith);
        assert(urow(out, 0, w, 0, cols, zv, ov, r));
    }
}
@@end
@@fn mlir::TFL::Bitpack/2 as fold_pack
@requires
    at_wf(x@),
@ensures
    (r@ != AttrV::Null) == pack_conds(x@), pack_conds(x@) ==> folded_pack(x@, r@),
@start
    proof { if pack_conds(x@) { lemma_sizes(x@->Dense_0->Ranked_0); ax_f32_zero(); } }
@loop 0 before
    let ghost src = x@->Dense_2;
@loop 0 inv
    i == ri_0, rn_0 == src.len(), old_values@.len() == src.len(), src.len() < 0x40000000, rr_0@ == src,
    forall|k: int| 0 <= k < ri_0 ==> old_values@[k] == #[trigger] src[k],
@loop 0 after
    proof { assert(old_values@ =~= src); }
@return
    proof { if pack_conds(x@) { let s = x@->Dense_0->Ranked_0; assert(seq![s[0], s[1], s[2], cdiv32(s[3] as int) as i64][3] == cdiv32(s[3] as int)); } }
@@fn mlir::TFL::Unpack/2 as fold_unpack
@requires
    at_wf(x@), x@ != AttrV::Null ==> elem(x@->Dense_0) == TyV::Other(ec_i32()),
    is_tensor(result_type@), is_ranked(result_type@) ==> (dims4(result_type@->Ranked_0) ==> small(result_type@->Ranked_0)) && uq_wf(result_type@),
@ensures
    r@ != AttrV::Null ==> unpack_conds(x@, result_type@) && folded_unpack(x@, result_type@, r@),
@start
    proof { if unpack_conds(x@, result_type@) { lemma_sizes(result_type@->Ranked_0); lemma_sizes(x@->Dense_0->Ranked_0); ax_odd(f32_of_real(uq_scale(elem(result_type@)))); } }
@loop 0 before
    let ghost src = x@->Dense_1;
@loop 0 inv
    i == ri_0, rn_0 == src.len(), old_values@.len() == src.len(), src.len() < 0x40000000, rr_0@ == src,
    forall|k: int| 0 <= k < ri_0 ==> old_values@[k] == #[trigger] src[k],
@loop 0 after
    proof { assert(old_values@ =~= src); }
@return
    proof {
        let res = @RET@;
        if res != AttrV::Null && unpack_conds(x@, result_type@) {
            let s = result_type@->Ranked_0; let e = elem(result_type@); let w = x@->Dense_1;
            if e == TyV::Other(ec_f32()) { lemma_flat_F32(res->Dense_2, w, rows3(s), s[3] as int, scv_i32_F32(1i32), scv_i32_F32(-1i32)); }
            else {
                let v = choose|v: Seq<i8>| res == #[trigger] bytes_attr(result_type@, v) && v.len() == count4(s) && forall|k: int| 0 <= k < rows3(s) ==> #[trigger] urow(v, 0, w, 0, s[3] as int, plus_of(e) as i8, minus_of(e) as i8, k);
                lemma_flat_i8(v, w, rows3(s), s[3] as int, plus_of(e) as i8, minus_of(e) as i8);
            }
        }
    }
@@fn mlir::lq::QuantizeOp::fold/1 as quantize_fold
@nothis
@requires
    adaptor.g@.len() >= 1, at_wf(adaptor.g@[0]@),
@ensures
    r@ != AttrV::Null ==> pack_conds(adaptor.g@[0]@) && folded_pack(adaptor.g@[0]@, r@),
@@fn mlir::lq::DequantizeOp::fold/1 as dequantize_fold
@nothis
@requires
    adaptor.g@.len() >= 1, at_wf(adaptor.g@[0]@), adaptor.g@[0]@ != AttrV::Null ==> elem(adaptor.g@[0]@->Dense_0) == TyV::Other(ec_i32()),
    is_tensor(the_result()), is_ranked(the_result()) ==> (dims4(the_result()->Ranked_0) ==> small(the_result()->Ranked_0)) && uq_wf(the_result()),
@ensures
    r@ != AttrV::Null ==> unpack_conds(adaptor.g@[0]@, the_result()) && folded_unpack(adaptor.g@[0]@, the_result(), r@),
@@fn mlir::TFL::IsConv2DFilter/1 as is_filter
@requires
    at_wf(filter@), filter@ != AttrV::Null,
@ensures
    // the pattern packs every filter it accepts: packing it must be possible
    r ==> pack_conds(filter@),
