@@include mlirdense.vs
@@need lit F32
@@need le F32 bool
@@need lt F32 bool
@@need eq F32 bool
@@need div F32
@@need sub F32
@@range VFlts => vf_seq
@@value mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>> => VFlts
@@value mlir::FloatAttr => MAttr
@@ctor mlir::Type/1:mlir::Type => %s
@@ctor llvm::ArrayRef<mlir::Attribute>/1:std::vector<mlir::Attribute> => sl_vec(%s)
@@extern mlir::DenseElementsAttr::getValues<float>/0 => at_flts
@@extern mlir::DenseElementsAttr::getElementType/0 => at_elem
@@extern mlir::FloatAttr::get/2 => at_of_flt
@@extern mlir::DenseElementsAttr::get/2 => at_of_list
@@extern mlir::DenseElementsAttr::get<float,void>/2 => at_splat
@@extern mlir::Builder::getI32IntegerAttr/1 => b_int
@@extern std::abs/1 => abs_F32
@@extern std::fabs/1 => abs_F32
@@extern std::fabsf/1 => abs_F32
@@assume IEEE-754 comparisons: a < b excludes b <= a; the elements of a dense constant are all present (its type has a static shape)
@@prelude
#[verifier::external_body] pub fn vf_seq(v: VFlts) -> (r: Sl<F32>) ensures r@ == v.g@->Dense_2 { unimplemented!() }
#[verifier::external_body] pub fn at_elem(a: MAttr) -> (r: MTy) requires a@ is Dense ensures r@ == elem(a@->Dense_0) { unimplemented!() }
pub uninterp spec fn sfabs(x: F32) -> F32;
#[verifier::external_body] pub fn abs_F32(x: F32) -> (r: F32) ensures r == sfabs(x) { unimplemented!() }
pub axiom fn ax_cmp() ensures forall|a: F32, b: F32| #![trigger slt_F32(a, b)] #![trigger sle_F32(b, a)] slt_F32(a, b) ==> !sle_F32(b, a), forall|f: F32| f32_of_real(#[trigger] real_of_f32(f)) == f;
#[verifier::external_body] pub fn at_of_flt(t: MTy, v: F64) -> (r: MAttr) requires t@ == TyV::Other(ec_f32()) ensures r@ == AttrV::Flt(v.v@) { unimplemented!() }
#[verifier::external_body] pub fn b_int(b: MCtx, v: i32) -> (r: MAttr) ensures r@ == AttrV::Int(v as i64) { unimplemented!() }
#[verifier::external_body] pub fn at_splat(t: MTy, v: F32) -> (r: MAttr) requires is_ranked(t@), elem(t@) == TyV::Other(ec_f32()) ensures r@ is Dense, r@->Dense_0 == t@, forall|k: int| 0 <= k < count_all(t@->Ranked_0) ==> (#[trigger] r@->Dense_2[k]) == v { unimplemented!() }
pub open spec fn count_all(s: Seq<i64>) -> int decreases s.len() { if s.len() == 0 { 1 } else { s[0] * count_all(s.drop_first()) } }
pub proof fn lemma_count1(n: i64) ensures count_all(seq![n]) == n { assert(seq![n].drop_first() =~= Seq::<i64>::empty()); reveal_with_fuel(count_all, 2); assert(n * 1 == n) by (nonlinear_arith); }
#[verifier::external_body] pub fn at_of_list(t: MTy, v: Sl<MAttr>) -> (r: MAttr) requires is_ranked(t@), v@.len() == count_all(t@->Ranked_0), elem(t@) == TyV::Other(ec_f32()), forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@ is Flt
    ensures r@ is Dense, r@->Dense_0 == t@, r@->Dense_2.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] r@->Dense_2[k]) == f32_of_real(v@[k]@->Flt_0) { unimplemented!() }
// a constant: ranked, with a static shape
pub open spec fn dense_ok(a: AttrV) -> bool { a is Dense ==> is_ranked(a->Dense_0) && static_shape(a->Dense_0->Ranked_0) }
// the dimensions of a filter
pub open spec fn dims(a: AttrV) -> Seq<i64> { a->Dense_0->Ranked_0 }
pub open spec fn weight(a: AttrV, h: u64, w: u64, i: u64, o: u64) -> F32 { a->Dense_2[flat(dims(a), seq![h, w, i, o])] }
// the weight that decides the scale of output channel o
pub open spec fn scale_of(a: AttrV, o: u64) -> F32 { weight(a, 0, 0, 0, o) }
// |v / s| is within 0.005 of 1 (not so when it is not a number)
pub open spec fn close(v: F32, s: F32) -> bool { sle_F32(sfabs(ssub_F32(sfabs(sdiv_F32(v, s)), slit_F32(0x3f800000))), slit_F32(0x3ba3d70a)) }
pub open spec fn scale_set(s: Seq<MAttr>, a: AttrV, o: int) -> bool { s[o]@ is Flt && f32_of_real(s[o]@->Flt_0) == sfabs(scale_of(a, o as u64)) }
pub open spec fn nonzero(s: F32) -> bool { !sle_F32(sfabs(s), slit_F32(0x34000000)) }
pub open spec fn in4(a: AttrV, h: u64, w: u64, i: u64, o: u64) -> bool { h < dims(a)[0] && w < dims(a)[1] && i < dims(a)[2] && o < dims(a)[3] }
pub open spec fn good(a: AttrV, h: u64, w: u64, i: u64, o: u64) -> bool { close(weight(a, h, w, i, o), scale_of(a, o)) && nonzero(scale_of(a, o)) }
pub proof fn lemma_good(a: AttrV, h: u64, w: u64, i: u64, o: u64) ensures good(a, h, w, i, o) == (close(weight(a, h, w, i, o), scale_of(a, o)) && nonzero(scale_of(a, o))) {}
pub open spec fn f32_dense4(a: AttrV) -> bool { a is Dense && is_ranked(a->Dense_0) && elem(a->Dense_0) == TyV::Other(ec_f32()) && dims(a).len() == 4 }
pub open spec fn binary_filter(a: AttrV) -> bool { f32_dense4(a) && forall|h: u64, w: u64, i: u64, o: u64| in4(a, h, w, i, o) ==> #[trigger] good(a, h, w, i, o) }
// a shape usable for the channel checks
pub open spec fn shape_ok(t: TyV) -> bool { is_ranked(t) && t->Ranked_0.len() >= 2 && forall|k: int| 0 <= k < t->Ranked_0.len() ==> 1 <= #[trigger] t->Ranked_0[k] < 0x8000_0000 }
@@fn mlir::TFL::IsConstantValue/2 as is_constant
@requires
    values@ != AttrV::Null, dense_ok(values@),
@ensures
    r == (values@ is Dense && elem(values@->Dense_0) == TyV::Other(ec_f32()) && forall|k: int| 0 <= k < values@->Dense_2.len() ==> seq_F32(#[trigger] values@->Dense_2[k], expected_value)),
@start
    proof { ax_cmp(); }
@loop 0 inv
    values@ is Dense && elem(values@->Dense_0) == TyV::Other(ec_f32()), rr_0@ == values@->Dense_2,
    forall|k: int| 0 <= k < ri_0 ==> seq_F32(#[trigger] values@->Dense_2[k], expected_value),
@@fn mlir::TFL::IsBinaryFilter/1 as is_binary
@requires
    filter_attr@ != AttrV::Null, dense_ok(filter_attr@),
@ensures
    r == binary_filter(filter_attr@),
@start
    proof { ax_cmp(); }
@loop 0 dec
    dims(filter_attr@)[0] - h
@loop 0.0 dec
    dims(filter_attr@)[1] - w
@loop 0.0.0 dec
    dims(filter_attr@)[2] - i
@loop 0.0.0.0 dec
    dims(filter_attr@)[3] - o
@loop 0 inv
    f32_dense4(filter_attr@), static_shape(dims(filter_attr@)),
    forall|h1: u64, w1: u64, i1: u64, o1: u64| in4(filter_attr@, h1, w1, i1, o1) && h1 < h ==> #[trigger] good(filter_attr@, h1, w1, i1, o1),
@loop 0.0 inv
    h < dims(filter_attr@)[0],
    forall|h1: u64, w1: u64, i1: u64, o1: u64| in4(filter_attr@, h1, w1, i1, o1) && (h1 < h || h1 == h && w1 < w) ==> #[trigger] good(filter_attr@, h1, w1, i1, o1),
@loop 0.0.0 inv
    h < dims(filter_attr@)[0], w < dims(filter_attr@)[1],
    forall|h1: u64, w1: u64, i1: u64, o1: u64| in4(filter_attr@, h1, w1, i1, o1) && (h1 < h || h1 == h && (w1 < w || w1 == w && i1 < i)) ==> #[trigger] good(filter_attr@, h1, w1, i1, o1),
@loop 0.0.0.0 begin
    proof { lemma_good(filter_attr@, h, w, i, o); }
@loop 0.0.0.0 inv
    h < dims(filter_attr@)[0], w < dims(filter_attr@)[1], i < dims(filter_attr@)[2],
    forall|h1: u64, w1: u64, i1: u64, o1: u64| in4(filter_attr@, h1, w1, i1, o1) && (h1 < h || h1 == h && (w1 < w || w1 == w && (i1 < i || i1 == i && o1 < o))) ==> #[trigger] good(filter_attr@, h1, w1, i1, o1),
@@fn mlir::TFL::GetScaleVector/1 as scale_vector
@requires
    f32_dense4(filter_attr@), forall|k: int| 0 <= k < 4 ==> 1 <= #[trigger] dims(filter_attr@)[k] < 0x8000_0000,
@ensures
    r@ is Dense && r@->Dense_0 is Ranked && r@->Dense_0->Ranked_0 =~= seq![dims(filter_attr@)[3]] && elem(r@->Dense_0) == TyV::Other(ec_f32()),
    forall|k: int| 0 <= k < dims(filter_attr@)[3] ==> (#[trigger] r@->Dense_2[k]) == sfabs(scale_of(filter_attr@, k as u64)),
@start
    proof { ax_cmp(); lemma_count1(dims(filter_attr@)[3]); }
@loop 0 dec
    dims(filter_attr@)[3] - i
@loop 0 inv
    f32_dense4(filter_attr@), forall|k: int| 0 <= k < 4 ==> 1 <= #[trigger] dims(filter_attr@)[k] < 0x8000_0000,
    scales@.len() == dims(filter_attr@)[3],
    forall|o: int| 0 <= o < i ==> #[trigger] scale_set(scales@, filter_attr@, o),
@loop 0 begin
    let ghost s0 = scales@;
@loop 0 end
    assert forall|o: int| 0 <= o <= i implies #[trigger] scale_set(scales@, filter_attr@, o) by { if o < i { assert(scale_set(s0, filter_attr@, o)); } }
@loop 0 after
    assert forall|k: int| 0 <= k < scales@.len() implies (#[trigger] scales@[k])@ is Flt && f32_of_real(scales@[k]@->Flt_0) == sfabs(scale_of(filter_attr@, k as u64)) by { assert(scale_set(scales@, filter_attr@, k)); }
@@fn mlir::TFL::GetConstantVector/2 as constant_vector
@requires
    f32_dense4(filter@), forall|k: int| 0 <= k < 4 ==> 1 <= #[trigger] dims(filter@)[k] < 0x8000_0000,
@ensures
    r@ is Dense && r@->Dense_0 is Ranked && r@->Dense_0->Ranked_0 =~= seq![dims(filter@)[3]] && elem(r@->Dense_0) == TyV::Other(ec_f32()),
    forall|k: int| 0 <= k < dims(filter@)[3] ==> (#[trigger] r@->Dense_2[k]) == val,
@start
    proof { lemma_count1(dims(filter@)[3]); }
@@fn mlir::TFL::HasValidFilterShape/2 as valid_shape
@requires
    shape_ok(gty(input_val)), shape_ok(gty(filter_val)),
@ensures
    r == ({ let total = gty(input_val)->Ranked_0.last() as int; let f = gty(filter_val)->Ranked_0; let ci = f[f.len() - 2] as int;
        total % ci == 0 && (total / ci == 1 || ci % 32 == 0) }),
@start
    proof {
        let total = gty(input_val)->Ranked_0.last() as int; let f = gty(filter_val)->Ranked_0; let ci = f[f.len() - 2] as int;
        assert(1 <= gty(input_val)->Ranked_0[gty(input_val)->Ranked_0.len() - 1]);
        assert(total % ci == 0 ==> total / ci >= 1) by (nonlinear_arith) requires total >= 1, ci >= 1;
    }
@@fn mlir::TFL::GetNumChannels/2 as num_channels
@requires
    shape_ok(gty(output_val)),
@ensures
    r@ == AttrV::Int(gty(output_val)->Ranked_0.last()),
@@fn mlir::TFL::IsConstantBetween/3 as is_between
@requires
    values@ != AttrV::Null, dense_ok(values@),
@ensures
    r == (values@ is Dense && elem(values@->Dense_0) == TyV::Other(ec_f32()) && forall|k: int| 0 <= k < values@->Dense_2.len() ==> slt_F32(low, #[trigger] values@->Dense_2[k]) && slt_F32(values@->Dense_2[k], high)),
@loop 0 inv
    values@ is Dense && elem(values@->Dense_0) == TyV::Other(ec_f32()), rr_0@ == values@->Dense_2,
    forall|k: int| 0 <= k < ri_0 ==> slt_F32(low, #[trigger] values@->Dense_2[k]) && slt_F32(values@->Dense_2[k], high),
@@fn mlir::TFL::SelectsElementwise/2 as selects_elementwise
@ensures
    r == (is_ranked(gty(select)) && is_ranked(gty(condition)) && (gty(condition)->Ranked_0.len() == 0 || gty(condition)->Ranked_0.len() == gty(select)->Ranked_0.len())),
