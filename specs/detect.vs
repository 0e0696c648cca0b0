## detection post-processing on integers (detection_postprocess.cc)
@@include mlirattr.vs
@@value std::basic_string<char> => u64
@@value mlir::PatternRewriter => RwV
@@value mlir::TFL::CustomOp => MOp
@@value mlir::TFL::DequantizeOp => MOp
@@value mlir::OperandRange => Sl<MArg>
@@value mlir::ResultRange => Sl<MArg>
@@value mlir::OpResult => MArg
@@value mlir::ValueRange => Sl<MArg>
@@value mlir::TFL::ConstBytesAttr => OptV
@@value mlir::quant::UniformQuantizedType => MTy
@@value mlir::IntegerType => MTy
@@value mlir::FloatType => MTy
@@value mlir::Location => MCtx
@@value mlir::LogicalResult => bool
@@value std::initializer_list<mlir::Type> => Sl<MTy>
@@value std::initializer_list<mlir::Value> => Sl<MArg>
@@vector llvm::SmallVector<mlir::Value, 3> => MArg
@@vector llvm::SmallVector<mlir::Value, 4> => MArg
@@ctor llvm::SmallVector<mlir::Type, 4>/1:std::initializer_list<mlir::Type> => vec_sl(%s)
@@ctor llvm::SmallVector<mlir::Value, 3>/1:std::initializer_list<mlir::Value> => vec_sl(%s)
@@ctor mlir::ValueRange/1:llvm::SmallVector<mlir::Value, 4> => sl_vec(%s)
@@ctor mlir::ValueRange/1:llvm::SmallVector<mlir::Value, 3> => sl_vec(%s)
@@ctor mlir::Type/1:mlir::Type => %s
@@ctor mlir::Value/1:mlir::Value => %s
@@ctor mlir::Attribute/0: => at_null()
@@ctor llvm::ArrayRef<long>/1:llvm::ArrayRef<long> => %s
@@ctor std::basic_string<char>/2:ptr,std::allocator<char> => str_of(%s, %s)
@@extern mlir::RewriterBase::notifyMatchFailure/2 => rw_fail -1 byval &mut
@@extern mlir::RewriterBase::replaceOp/2 => rw_replace byval &mut
@@extern mlir::OpBuilder::create<mlir::TFL::CustomOp,<llvm::SmallVector<mlir::Type, 4> &, llvm::SmallVector<mlir::Value, 3> &, std::basic_string<char>, mlir::TFL::ConstBytesAttr>>/5 => rw_custom &mut
@@extern mlir::OpBuilder::create<mlir::TFL::DequantizeOp,<mlir::Type, mlir::OpResult>>/3 => rw_dequantize byval &mut
@@extern mlir::OpState::operator->/1 => op_self
@@extern mlir::OpState::operator mlir::Operation */0 => op_self
@@extern mlir::OpState::operator bool/0 => op_set
@@extern mlir::Operation::getLoc/0 => op_loc
@@extern llvm::dyn_cast_or_null<mlir::TFL::DequantizeOp,mlir::Operation>/1 => op_dequantize
@@extern mlir::TFL::CustomOp::getCustomCode/0 => op_code
@@extern mlir::TFL::CustomOp::getCustomOption/0 => op_option
@@extern mlir::TFL::CustomOp::getInput/0 => op_operands
@@extern mlir::TFL::CustomOp::getOutput/0 => op_results
@@extern mlir::TFL::DequantizeOp::getInput/0 => op_in
@@extern mlir::TFL::DequantizeOp::getOutput/0 => op_out
@@extern llvm::StringRef::str/0 => str_same
@@extern std::operator!=<char,std::char_traits<char>,std::allocator<char>>/2 => str_ne
@@extern llvm::detail::indexed_accessor_range_base<mlir::OperandRange, mlir::OpOperand *, mlir::Value, mlir::Value, mlir::Value>::operator[]/2 => sl_at
@@extern llvm::detail::indexed_accessor_range_base<mlir::OperandRange, mlir::OpOperand *, mlir::Value, mlir::Value, mlir::Value>::size/0 => sl_len
@@extern llvm::detail::indexed_accessor_range_base<mlir::ResultRange, mlir::detail::OpResultImpl *, mlir::OpResult, mlir::OpResult, mlir::OpResult>::operator[]/2 => sl_at
@@extern llvm::detail::indexed_accessor_range_base<mlir::ResultRange, mlir::detail::OpResultImpl *, mlir::OpResult, mlir::OpResult, mlir::OpResult>::size/0 => sl_len
@@extern mlir::Type::cast<mlir::ShapedType>/0 => ty_shaped
@@extern mlir::Type::cast<mlir::quant::UniformQuantizedType>/0 => ty_cast_uq
@@extern mlir::Type::dyn_cast<mlir::quant::UniformQuantizedType>/0 => ty_uq
@@extern mlir::Type::operator!=/2 => ty_ne
@@extern mlir::ShapedType::getElementType/0 => ty_el
@@extern mlir::ShapedType::clone/1 => ty_with_el
@@extern mlir::RankedTensorType::get/3 => ty_tensor_of
@@extern mlir::Builder::getF32Type/0 => ty_f32 -this
@@extern mlir::Builder::getIntegerType/1 => ty_int -this
@@extern mlir::quant::UniformQuantizedType::get/7 => uq_get
@@extern mlir::quant::UniformQuantizedType::getScale/0 => uq_getscale
@@extern mlir::quant::UniformQuantizedType::getZeroPoint/0 => uq_getzero
@@extern mlir::quant::QuantizedType::isSigned/0 => uq_getsigned
@@extern mlir::quant::QuantizedType::getStorageTypeIntegralWidth/0 => uq_getwidth
@@extern mlir::success/1 => res_ok
@@extern llvm::SmallVectorTemplateCommon<mlir::Type>::operator[]/2 => vec_get
@@extern llvm::SmallVectorTemplateCommon<mlir::Type>::operator[]= => vec_put
@@extern llvm::SmallVectorTemplateBase<mlir::Type>::push_back/1 => mem_push byval &mut
@@extern llvm::SmallVectorTemplateBase<mlir::Value>::push_back/1 => mem_push byval &mut
@@assume MLIR rewriting: create<Op>(...) makes a new operation with exactly these result types, operands and attributes; replaceOp(op, values) replaces every use of op's results by these; notifyMatchFailure reports only (its message is dropped)
@@assume the results of a tfl.custom operation are tensors
@@prelude
pub struct OptV { pub g: Ghost<int> }
impl Clone for OptV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for OptV {}
// the rewriter: the operations it created and the replacements it made, in order
pub struct RwV { pub made: Ghost<Seq<MOp>>, pub repl: Ghost<Seq<(MOp, Seq<MArg>)>> }
pub uninterp spec fn gres(o: MOp) -> Seq<MArg>;
pub uninterp spec fn gcode(o: MOp) -> u64;
pub uninterp spec fn gopt(o: MOp) -> OptV;
pub uninterp spec fn is_deq(o: MOp) -> bool;
pub uninterp spec fn no_op() -> MOp;
pub axiom fn ax_no_op() ensures !is_deq(no_op());
// a dequantization has one operand and one result
pub axiom fn ax_deq(o: MOp) ensures is_deq(o) ==> gops(o).len() == 1 && gres(o).len() == 1;
pub open spec fn ec_int(w: u32) -> int { if w == 32 { ec_i32() } else { 1000 + w } }
// uniformly quantized element types: signed, bits of storage, scale, zero point, smallest and largest stored value
pub struct UqV { pub signed: bool, pub width: u32, pub scale: real, pub zero: i64, pub lo: i64, pub hi: i64 }
pub uninterp spec fn ec_uq(u: UqV) -> int;
pub uninterp spec fn uq_of(c: int) -> Option<UqV>;
pub axiom fn ax_uq(u: UqV) ensures uq_of(ec_uq(u)) == Some(u);
pub open spec fn el(t: TyV) -> int { if is_ranked(t) { t->Ranked_1 } else { t->Unranked_0 } }
pub open spec fn with_el(t: TyV, c: int) -> TyV { if is_ranked(t) { TyV::Ranked(t->Ranked_0, c, t->Ranked_2) } else { TyV::Unranked(c) } }
pub open spec fn uqt(t: TyV) -> Option<UqV> { if t is Other { uq_of(t->Other_0) } else { None } }
#[verifier::external_body] pub fn str_of(k: u64, a: &u8) -> (r: u64) ensures r == k { unimplemented!() }
#[verifier::external_body] pub fn str_same(k: u64) -> (r: u64) ensures r == k { unimplemented!() }
#[verifier::external_body] pub fn str_ne(a: u64, b: u64) -> (r: bool) ensures r == (a != b) { unimplemented!() }
#[verifier::external_body] pub fn op_self(o: MOp) -> (r: MOp) ensures r == o { unimplemented!() }
#[verifier::external_body] pub fn op_set(o: MOp) -> (r: bool) ensures r == (o != no_op()) { unimplemented!() }
#[verifier::external_body] pub fn op_loc(o: MOp) -> (r: MCtx) { unimplemented!() }
#[verifier::external_body] pub fn op_dequantize(o: MOp) -> (r: MOp) ensures r == (if is_deq(o) { o } else { no_op() }) { unimplemented!() }
#[verifier::external_body] pub fn op_code(o: MOp) -> (r: u64) ensures r == gcode(o) { unimplemented!() }
#[verifier::external_body] pub fn op_option(o: MOp) -> (r: OptV) ensures r == gopt(o) { unimplemented!() }
#[verifier::external_body] pub fn op_operands(o: MOp) -> (r: Sl<MArg>) ensures r@ == gops(o) { unimplemented!() }
#[verifier::external_body] pub fn op_results(o: MOp) -> (r: Sl<MArg>) ensures r@ == gres(o) { unimplemented!() }
#[verifier::external_body] pub fn op_in(o: MOp) -> (r: MArg) requires is_deq(o) ensures r == gops(o)[0] { unimplemented!() }
#[verifier::external_body] pub fn op_out(o: MOp) -> (r: MArg) requires is_deq(o) ensures r == gres(o)[0] { unimplemented!() }
#[verifier::external_body] pub fn ty_shaped(t: MTy) -> (r: MTy) requires is_tensor(t@) ensures r == t { unimplemented!() }
#[verifier::external_body] pub fn ty_el(t: MTy) -> (r: MTy) requires is_tensor(t@) ensures r@ == TyV::Other(el(t@)) { unimplemented!() }
#[verifier::external_body] pub fn ty_with_el(t: MTy, e: MTy) -> (r: MTy) requires is_tensor(t@), e@ is Other ensures r@ == with_el(t@, e@->Other_0) { unimplemented!() }
#[verifier::external_body] pub fn ty_tensor_of(s: Sl<i64>, e: MTy, enc: MAttr) -> (r: MTy) requires e@ is Other ensures r@ == TyV::Ranked(s@, e@->Other_0, 0) { unimplemented!() }
#[verifier::external_body] pub fn ty_ne(a: MTy, b: MTy) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body] pub fn ty_f32() -> (r: MTy) ensures r@ == TyV::Other(ec_f32()) { unimplemented!() }
#[verifier::external_body] pub fn ty_int(w: u32) -> (r: MTy) ensures r@ == TyV::Other(ec_int(w)) { unimplemented!() }
#[verifier::external_body] pub fn ty_cast_uq(t: MTy) -> (r: MTy) requires uqt(t@) is Some ensures r == t { unimplemented!() }
#[verifier::external_body] pub fn ty_uq(t: MTy) -> (r: MTy) requires t@ != TyV::Null ensures r@ == (if uqt(t@) is Some { t@ } else { TyV::Null }) { unimplemented!() }
#[verifier::external_body] pub fn uq_getscale(t: MTy) -> (r: F64) requires uqt(t@) is Some ensures r.v@ == uqt(t@)->Some_0.scale { unimplemented!() }
#[verifier::external_body] pub fn uq_getzero(t: MTy) -> (r: i64) requires uqt(t@) is Some ensures r == uqt(t@)->Some_0.zero { unimplemented!() }
#[verifier::external_body] pub fn uq_getsigned(t: MTy) -> (r: bool) requires uqt(t@) is Some ensures r == uqt(t@)->Some_0.signed { unimplemented!() }
#[verifier::external_body] pub fn uq_getwidth(t: MTy) -> (r: u32) requires uqt(t@) is Some ensures r == uqt(t@)->Some_0.width { unimplemented!() }
#[verifier::external_body] pub fn uq_get(flags: u32, storage: MTy, expressed: MTy, scale: F64, zero: i64, lo: i64, hi: i64) -> (r: MTy)
    ensures r@ is Other, flags <= 1 && expressed@ == TyV::Other(ec_f32()) && storage@ == TyV::Other(ec_int(8)) ==> r@ == TyV::Other(ec_uq(UqV { signed: flags == 1, width: 8, scale: scale.v@, zero, lo, hi })) { unimplemented!() }
#[verifier::external_body] pub fn vec_get(v: &Mem<MTy>, i: u64) -> (r: MTy) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn vec_put(v: &mut Mem<MTy>, i: u64, t: MTy) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, t) { unimplemented!() }
#[verifier::external_body] pub fn sl_lit3<T>(a: T, b: T, c: T) -> (r: Sl<T>) ensures r@ == seq![a, b, c] { unimplemented!() }
#[verifier::external_body] pub fn res_ok(b: bool) -> (r: bool) ensures r == b { unimplemented!() }
#[verifier::external_body] pub fn rw_fail(w: &mut RwV, o: MOp) -> (r: bool) ensures !r, *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body] pub fn rw_replace(w: &mut RwV, o: MOp, v: Sl<MArg>) ensures final(w).repl@ == old(w).repl@.push((o, v@)), final(w).made == old(w).made { unimplemented!() }
#[verifier::external_body] pub fn rw_custom(w: &mut RwV, l: MCtx, t: &mut Mem<MTy>, v: &mut Mem<MArg>, code: u64, opt: OptV) -> (r: MOp)
    ensures *final(t) == *old(t), *final(v) == *old(v), final(w).made@ == old(w).made@.push(r), final(w).repl == old(w).repl, gres(r).len() == old(t)@.len(), forall|k: int| 0 <= k < old(t)@.len() ==> gty(#[trigger] gres(r)[k]) == old(t)@[k]@, gops(r) == old(v)@, gcode(r) == code, gopt(r) == opt { unimplemented!() }
#[verifier::external_body] pub fn rw_dequantize(w: &mut RwV, l: MCtx, t: MTy, v: MArg) -> (r: MOp)
    ensures final(w).made@ == old(w).made@.push(r), final(w).repl == old(w).repl, is_deq(r), gres(r).len() == 1, gty(gres(r)[0]) == t@, gops(r) == seq![v] { unimplemented!() }
// when the operation may read the integers: all its inputs are dequantized just before it, its scores are signed 8-bit numbers, and
// boxes, classes and count are 32-bit integers already, the scores floats
pub open spec fn deq_in(o: MOp, i: int) -> bool { is_deq(gdef(gops(o)[i])) }
pub open spec fn ints(o: MOp, i: int) -> MArg { gops(gdef(gops(o)[i]))[0] }
pub open spec fn el_at(o: MOp, i: int) -> int { el(gty(gres(o)[i])) }
pub open spec fn scores8(o: MOp) -> bool {
    let u = uq_of(el(gty(ints(o, 1)))); u is Some && u->Some_0.signed && u->Some_0.width == 8
}
pub open spec fn conds(o: MOp) -> bool {
    gcode(o) == 1487002286u64 /* TFLite_Detection_PostProcess */ && gops(o).len() == 3 && gres(o).len() == 4 && deq_in(o, 0) && deq_in(o, 1) && deq_in(o, 2)
    && el_at(o, 0) == ec_i32() && el_at(o, 1) == ec_i32() && el_at(o, 2) == ec_f32() && el_at(o, 3) == ec_i32() && scores8(o)
}
pub open spec fn scores_el(o: MOp) -> int { let u = uq_of(el(gty(ints(o, 1))))->Some_0; ec_uq(UqV { signed: true, width: 8, scale: u.scale, zero: u.zero, lo: (-128) as i64, hi: 127i64 }) }
// n is o on integers, d gives its scores as floats
pub open spec fn on_ints(o: MOp, n: MOp, d: MOp) -> bool {
    &&& gcode(n) == gcode(o) && gopt(n) == gopt(o)
    &&& gops(n) =~= seq![ints(o, 0), ints(o, 1), ints(o, 2)]
    &&& gres(n).len() == 4 && gty(gres(n)[0]) == gty(gres(o)[0]) && gty(gres(n)[1]) == gty(gres(o)[1]) && gty(gres(n)[3]) == gty(gres(o)[3])
    &&& gty(gres(n)[2]) == with_el(gty(gres(o)[2]), scores_el(o))
    &&& is_deq(d) && gops(d) =~= seq![gres(n)[2]] && gres(d).len() == 1 && gty(gres(d)[0]) == gty(gres(o)[2])
}
pub open spec fn outs(n: MOp, d: MOp) -> Seq<MArg> { seq![gres(n)[0], gres(n)[1], gres(d)[0], gres(n)[3]] }
// one more replacement was made: every use of o's results is a use of v
pub open spec fn replaced(a: Seq<(MOp, Seq<MArg>)>, b: Seq<(MOp, Seq<MArg>)>, o: MOp, v: Seq<MArg>) -> bool {
    b.len() == a.len() + 1 && b.subrange(0, a.len() as int) =~= a && b[a.len() as int].0 == o && b[a.len() as int].1 =~= v
}
@@fn mlir::TFL::RemoveDequantizeBeforePostProcess::matchAndRewrite/2 as detect_rewrite
@nothis
@requires
    forall|k: int| 0 <= k < gres(detection_op).len() ==> is_tensor(gty(#[trigger] gres(detection_op)[k])),
    forall|o: MOp| #[trigger] is_deq(o) ==> gops(o).len() == 1 && gres(o).len() == 1 && is_tensor(gty(gops(o)[0])) && is_tensor(gty(gres(o)[0])),
@ensures
    r == conds(detection_op),
    !r ==> *final(rewriter) == *old(rewriter),
    r ==> final(rewriter).made@.len() == old(rewriter).made@.len() + 2 && final(rewriter).made@.subrange(0, old(rewriter).made@.len() as int) =~= old(rewriter).made@,
    r ==> ({ let m = final(rewriter).made@; let n = m[m.len() - 2]; let d = m[m.len() - 1];
        on_ints(detection_op, n, d) && replaced(old(rewriter).repl@, final(rewriter).repl@, detection_op, outs(n, d)) }),
@start
    proof { ax_no_op(); }
@loop 0 inv
    0 <= i <= 4, gres(detection_op).len() == 4, gops(detection_op).len() == 3, *rewriter == *old(rewriter),
    forall|k: int| 0 <= k < gres(detection_op).len() ==> is_tensor(gty(#[trigger] gres(detection_op)[k])),
    output_data_types@.len() == 4, tys(output_data_types@) =~= seq![TyV::Other(ec_i32()), TyV::Other(ec_i32()), TyV::Other(ec_f32()), TyV::Other(ec_i32())],
    forall|k: int| 0 <= k < i ==> #[trigger] el_at(detection_op, k) == tys(output_data_types@)[k]->Other_0,
@loop 0 dec
    4 - i
@loop 0 first
    proof { assert(tys(output_data_types@)[i as int] == output_data_types@[i as int]@); assert(el_at(detection_op, i as int) == el(gty(gres(detection_op)[i as int]))); }
@loop 1 inv
    0 <= i <= 4, gres(detection_op).len() == 4, *rewriter == *old(rewriter), scores8(detection_op),
    forall|k: int| 0 <= k < gres(detection_op).len() ==> is_tensor(gty(#[trigger] gres(detection_op)[k])),
    output_data_types@.len() == 4, output_data_types@[0]@ == TyV::Other(ec_i32()), output_data_types@[1]@ == TyV::Other(ec_i32()), output_data_types@[2]@ == TyV::Other(scores_el(detection_op)), output_data_types@[3]@ == TyV::Other(ec_i32()),
    new_op_output_types@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] new_op_output_types@[k])@ == with_el(gty(gres(detection_op)[k]), output_data_types@[k]@->Other_0),
@loop 1 dec
    4 - i
@loop 1 after
    proof {
        let t = new_op_output_types@; let o = detection_op;
        assert(el_at(o, 0) == ec_i32() && el_at(o, 1) == ec_i32() && el_at(o, 2) == ec_f32() && el_at(o, 3) == ec_i32());
        assert(t[0]@ == gty(gres(o)[0])); assert(t[1]@ == gty(gres(o)[1])); assert(t[3]@ == gty(gres(o)[3]));
        assert(t[2]@ == with_el(gty(gres(o)[2]), scores_el(o)));
    }
