@@include mlirdense.vs
@@rounded
@@need lit F32
@@need le F32
@@need fneg F32 F32 1
@@value llvm::detail::zippy<llvm::detail::zip_shortest, mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>>, mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>>> => Sl<FPair>
@@value std::tuple<const float &, const float &> => FPair
@@value std::pair<int, int> => IPair
@@value llvm::StringSwitch<std::pair<int, int>> => SSwitch
@@value llvm::StringLiteral => u64
@@value mlir::FloatAttr => MAttr
@@value mlir::StringAttr => MAttr
@@ctor mlir::Type/1:mlir::Type => %s
@@ctor llvm::ArrayRef<mlir::Attribute>/1:std::vector<mlir::Attribute> => sl_vec(%s)
@@ctor llvm::StringLiteral/1:arr => %s
@@ctor llvm::StringRef/1:llvm::StringRef => %s
@@ctor llvm::StringSwitch<std::pair<int, int>>/1:llvm::StringRef => ss_new(%s)
@@ctor std::pair<int, int>/2:i32,i32 => IPair { first: %s, second: %s }
@@extern llvm::StringSwitch<std::pair<int, int>>::Case/2 => ss_case
@@extern llvm::StringSwitch<std::pair<int, int>>::Default/1 => ss_default
@@extern std::get<0,int,int>/1 => ip_first byval
@@extern std::get<1,int,int>/1 => ip_second byval
@@extern std::get<0,<const float &, const float &>>/1 => fp_first byval
@@extern std::get<1,<const float &, const float &>>/1 => fp_second byval
@@extern llvm::zip<mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>>,mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>>,<>>/2 => zip_flts
@@extern mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>>::operator[]/2 => sl_at
@@extern mlir::Attribute::cast<mlir::StringAttr>/0 => at_str
@@extern mlir::StringAttr::getValue/0 => at_strval
@@extern mlir::IntegerAttr::get/2 => at_of_int
@@extern mlir::FloatAttr::get/2 => at_of_flt
@@extern mlir::DenseElementsAttr::get/2 => at_of_list
@@extern std::abs/1 => abs_F64
@@extern floor/1 => floor_F64
@@assume multipliers and biases are finite single-precision numbers and the receptive field (filter height * width * input channels) is below 2^26
@@assume IEEE double arithmetic rounds the exact result to within one part in 2^52 (no overflow or underflow with single-precision operands), returns integers up to 2^53 unchanged, and returns the product of an integer up to 2^29 and a single-precision number unchanged
@@prelude
#[derive(Clone, Copy)] pub struct FPair { pub first: F32, pub second: F32 }
#[derive(Clone, Copy)] pub struct IPair { pub first: i32, pub second: i32 }
#[derive(Clone, Copy)] pub struct SSwitch { pub key: u64, pub found: bool, pub val: IPair }
pub fn ss_new(k: u64) -> (r: SSwitch) ensures r.key == k, !r.found { SSwitch { key: k, found: false, val: IPair { first: 0, second: 0 } } }
pub fn ss_case(s: SSwitch, k: u64, v: IPair) -> (r: SSwitch) ensures r == (if !s.found && s.key == k { SSwitch { key: s.key, found: true, val: v } } else { s }) { if !s.found && s.key == k { SSwitch { key: s.key, found: true, val: v } } else { s } }
pub fn ss_default(s: SSwitch, v: IPair) -> (r: IPair) ensures r == (if s.found { s.val } else { v }) { if s.found { s.val } else { v } }
pub fn ip_first(p: IPair) -> (r: i32) ensures r == p.first { p.first }
pub fn ip_second(p: IPair) -> (r: i32) ensures r == p.second { p.second }
pub fn fp_first(p: FPair) -> (r: F32) ensures r == p.first { p.first }
pub fn fp_second(p: FPair) -> (r: F32) ensures r == p.second { p.second }
#[verifier::external_body] pub fn zip_flts(a: Sl<F32>, b: Sl<F32>) -> (r: Sl<FPair>) ensures r@.len() == imin(a@.len() as int, b@.len() as int), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]) == (FPair { first: a@[k], second: b@[k] }) { unimplemented!() }
#[verifier::external_body] pub fn at_str(a: MAttr) -> (r: MAttr) requires a@ is Str ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn at_strval(a: MAttr) -> (r: u64) requires a@ is Str ensures r == a@->Str_0 { unimplemented!() }
#[verifier::external_body] pub fn at_of_int(t: MTy, v: i64) -> (r: MAttr) requires t@ == TyV::Other(ec_i32()), -0x8000_0000 <= v < 0x8000_0000 ensures r@ == AttrV::Int(v) { unimplemented!() }
#[verifier::external_body] pub fn at_of_flt(t: MTy, v: F64) -> (r: MAttr) requires t@ == TyV::Other(ec_f32()) ensures r@ == AttrV::Flt(v.v@) { unimplemented!() }
// a dense constant from one attribute per element
#[verifier::external_body] pub fn at_of_list(t: MTy, v: Sl<MAttr>) -> (r: MAttr) requires is_ranked(t@), v@.len() == count_all(t@->Ranked_0),
        elem(t@) == TyV::Other(ec_i32()) ==> forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@ is Int, elem(t@) == TyV::Other(ec_f32()) ==> forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@ is Flt,
        elem(t@) == TyV::Other(ec_i32()) || elem(t@) == TyV::Other(ec_f32()),
    ensures r@ is Dense, r@->Dense_0 == t@,
        elem(t@) == TyV::Other(ec_i32()) ==> r@->Dense_1.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] r@->Dense_1[k]) == v@[k]@->Int_0 as i32,
        elem(t@) == TyV::Other(ec_f32()) ==> r@->Dense_2.len() == v@.len() && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] r@->Dense_2[k]) == f32_of_real(v@[k]@->Flt_0)
    { unimplemented!() }
pub open spec fn count_all(s: Seq<i64>) -> int decreases s.len() { if s.len() == 0 { 1 } else { s[0] * count_all(s.drop_first()) } }
pub proof fn lemma_count1(n: i64) ensures count_all(seq![n]) == n { assert(seq![n].drop_first() =~= Seq::<i64>::empty()); reveal_with_fuel(count_all, 2); assert(n * 1 == n) by (nonlinear_arith); }
pub proof fn lemma_count4(n: i64) ensures count_all(seq![n, 1i64, 1i64, 1i64]) == n {
    let s = seq![n, 1i64, 1i64, 1i64];
    assert(s.drop_first() =~= seq![1i64, 1i64, 1i64]); assert(s.drop_first().drop_first() =~= seq![1i64, 1i64]); assert(seq![1i64, 1i64].drop_first() =~= seq![1i64]);
    lemma_count1(1); reveal_with_fuel(count_all, 4); assert(n * 1 == n) by (nonlinear_arith);
}
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { 0real - x } }
#[verifier::external_body] pub fn abs_F64(x: F64) -> (r: F64) ensures r.v@ == rabs(x.v@), single(x.v@) ==> single(r.v@), whole(x.v@) ==> whole(r.v@) { unimplemented!() }
#[verifier::external_body] pub fn floor_F64(x: F64) -> (r: F64) ensures r.v@ == x.v@.floor() as real, whole(r.v@) { unimplemented!() }
pub uninterp spec fn whole(x: real) -> bool;
pub uninterp spec fn single(x: real) -> bool;
#[verifier::opaque] pub open spec fn rmul(a: real, b: real) -> real { a * b }
#[verifier::opaque] pub open spec fn rdiv(a: real, b: real) -> real { a / b }
pub open spec fn rnd_of(r: real, e: real) -> bool { (r < 0real <==> e < 0real) && (r > 0real <==> e > 0real) && rabs(r - e) * 4503599627370496real <= rabs(e) }
pub axiom fn ax_f32_values()
    ensures real_of_f32(slit_F32(0)) == 0real, sfneg_F32(slit_F32(1065353216)) == slit_F32(3212836864), forall|f: F32| f32_of_real(#[trigger] real_of_f32(f)) == f, forall|f: F32| #[trigger] sle_F32(slit_F32(0), f) <==> real_of_f32(f) >= 0real;
pub open spec fn rclamp(v: real, lo: real, hi: real) -> real { if v < lo { lo } else if v > hi { hi } else { v } }
pub open spec fn sgn(m: real) -> real { if m >= 0real { 1real } else { 0real - 1real } }
// the output for accumulator x, when the weights of the channel have been multiplied by the sign of the multiplier
pub open spec fn out_value(a: real, c: real, d: real, m: real, b: real, x: int) -> real { rmul(rclamp(sgn(m) * (a - 2real * (x as real)), c, d), m) + b }
pub open spec fn thr_ok(t: int, a: int, c: real, d: real, m: real, b: real) -> bool { forall|x: int| 0 <= x <= a ==> ((x > t) <==> #[trigger] out_value(a as real, c, d, m, b, x) < 0real) }
pub open spec fn lo_of(c: real, d: real, m: real) -> real { if m > 0real { c } else { 0real - d } }
pub open spec fn hi_of(c: real, d: real, m: real) -> real { if m > 0real { d } else { 0real - c } }
pub open spec fn line(v: real, m: real, b: real) -> real { rmul(v, rabs(m)) + b }
pub open spec fn thr_cond(t: int, a: int, c: real, d: real, m: real, b: real) -> bool {
    if m == 0real { if b < 0real { t < 0 } else { t >= a } }
    else if line(hi_of(c, d, m), m, b) < 0real { t < 0 }
    else if line(lo_of(c, d, m), m, b) >= 0real { t >= a }
    else { line(a as real - 2real * (t as real), m, b) >= 0real && line(a as real - 2real * ((t + 1) as real), m, b) < 0real }
}
pub open spec fn lin(k: real, z: real) -> bool { (k == 2real ==> rmul(k, z) == 2real * z) && (2real * k == 1real ==> 2real * rmul(k, z) == z) && (k == 0real - 1real ==> rmul(k, z) == 0real - z) }
pub proof fn lemma_lin() ensures forall|k: real, z: real| #![trigger rmul(k, z)] lin(k, z) {
    reveal(rmul);
    assert forall|k: real, z: real| #![trigger rmul(k, z)] lin(k, z) by { assert(2real * k == 1real ==> 2real * (k * z) == z) by (nonlinear_arith); assert(k == 2real ==> k * z == 2real * z) by (nonlinear_arith); assert(k == 0real - 1real ==> k * z == 0real - z) by (nonlinear_arith); }
}
pub proof fn lemma_mono(u: real, v: real, m: real, b: real) requires u <= v ensures line(u, m, b) <= line(v, m, b) {
    reveal(rmul);
    let p = rabs(m);
    assert(u * p <= v * p) by (nonlinear_arith) requires u <= v, p >= 0real;
}
pub proof fn lemma_decide(t: int, a: int, c: real, d: real, m: real, b: real)
    requires thr_cond(t, a, c, d, m, b), c <= d
    ensures thr_ok(t, a, c, d, m, b)
{
    reveal(rmul);
    assert forall|x: int| 0 <= x <= a implies ((x > t) <==> #[trigger] out_value(a as real, c, d, m, b, x) < 0real) by {
        let v = a as real - 2real * (x as real);
        let lo = lo_of(c, d, m); let hi = hi_of(c, d, m);
        if m == 0real {
            let w = rclamp(sgn(m) * v, c, d);
            assert(w * m == 0real) by (nonlinear_arith) requires m == 0real;
        } else {
            if m > 0real { assert(sgn(m) * v == v) by (nonlinear_arith) requires sgn(m) == 1real; }
            else {
                assert(sgn(m) * v == 0real - v) by (nonlinear_arith) requires sgn(m) == 0real - 1real;
                let w = rclamp(v, lo, hi);
                assert((0real - w) * m == w * (0real - m)) by (nonlinear_arith);
                assert(rclamp(0real - v, c, d) == 0real - w);
            }
            let w = rclamp(v, lo, hi);
            assert(out_value(a as real, c, d, m, b, x) == line(w, m, b));
            lemma_mono(w, hi, m, b); lemma_mono(lo, w, m, b);
            let at = a as real - 2real * (t as real); let at1 = a as real - 2real * ((t + 1) as real);
            if x <= t {
                assert(v >= at);
                if !(line(hi, m, b) < 0real) && line(lo, m, b) < 0real {
                    if lo > at { lemma_mono(at, lo, m, b); }
                    lemma_mono(at, v, m, b);
                }
            } else {
                assert(v <= at1);
                if !(line(hi, m, b) < 0real) && line(lo, m, b) < 0real {
                    if at1 > hi { lemma_mono(hi, at1, m, b); }
                    lemma_mono(v, at1, m, b);
                }
            }
        }
    }
}
// the accumulators at which the line through the bias crosses zero lie inside the clamping range
pub open spec fn crossing(c: real, d: real, m: real, b: real) -> bool { m != 0real && line(hi_of(c, d, m), m, b) >= 0real && line(lo_of(c, d, m), m, b) < 0real }
pub proof fn lemma_cross(c: real, d: real, m: real, b: real)
    requires crossing(c, d, m, b)
    ensures 0real - hi_of(c, d, m) <= rdiv(b, rabs(m)) < 0real - lo_of(c, d, m),
        forall|v: real| #![trigger line(v, m, b)] (line(v, m, b) < 0real ==> v < hi_of(c, d, m)) && (line(v, m, b) >= 0real ==> v > lo_of(c, d, m)),
{
    reveal(rmul); reveal(rdiv);
    let p = rabs(m); let q = b / p; let lo = lo_of(c, d, m); let hi = hi_of(c, d, m);
    assert(q * p == b) by (nonlinear_arith) requires q == b / p, p > 0real;
    assert(q >= 0real - hi) by (nonlinear_arith) requires q * p == b, p > 0real, hi * p + b >= 0real;
    assert(q < 0real - lo) by (nonlinear_arith) requires q * p == b, p > 0real, lo * p + b < 0real;
    assert forall|v: real| #![trigger line(v, m, b)] (line(v, m, b) < 0real ==> v < hi) && (line(v, m, b) >= 0real ==> v > lo) by {
        if v >= hi { lemma_mono(hi, v, m, b); }
        if v <= lo { lemma_mono(v, lo, m, b); }
    }
}
pub open spec fn dims_prod(s: Seq<i64>) -> int { s[1] * s[2] * s[3] }
pub open spec fn fits_filter(s: Seq<i64>) -> bool { 0 < s[1] < 67108864 && 0 < s[2] < 67108864 && 0 < s[3] < 67108864 && s[1] * s[2] < 67108864 && dims_prod(s) < 67108864 && 0 < dims_prod(s) }
// RELU, RELU_N1_TO_1, RELU6, none (the keys are CRC-32 sums of the names)
pub open spec fn act_min(k: u64, a: int) -> int { if k == 1910305388 { 0 } else if k == 248128691 { -1 } else if k == 1506642837 { 0 } else { -a } }
pub open spec fn act_max(k: u64, a: int) -> int { if k == 1910305388 { a } else if k == 248128691 { 1 } else if k == 1506642837 { 6 } else { a } }
@@fn mlir::TFL::ComputeWriteBitpackedOutputThresholds/7 as compute_thresholds
@ghost ga: Ghost<int>
@requires
    multipliers@ is Dense, biases@ is Dense, elem(multipliers@->Dense_0) == TyV::Other(ec_f32()), elem(biases@->Dense_0) == TyV::Other(ec_f32()),
    old(thresholds)@.len() == 0, multipliers@->Dense_2.len() == biases@->Dense_2.len(), multipliers@->Dense_2.len() < 0x40000000,
    whole(backtransform_add.v@), whole(clamp_min.v@), whole(clamp_max.v@), backtransform_add.v@ == ga@ as real, 0 <= ga@ < 67108864, clamp_min.v@ <= clamp_max.v@, rabs(clamp_min.v@) < 67108864real, rabs(clamp_max.v@) < 67108864real,
@ensures
    final(thresholds)@.len() == multipliers@->Dense_2.len(),
    forall|k: int| 0 <= k < final(thresholds)@.len() ==> (#[trigger] final(thresholds)@[k])@ is Int && -0x8000_0000 <= final(thresholds)@[k]@->Int_0 < 0x8000_0000
        && thr_ok(final(thresholds)@[k]@->Int_0 as int, ga@, clamp_min.v@, clamp_max.v@, real_of_f32(multipliers@->Dense_2[k]), real_of_f32(biases@->Dense_2[k])),
@start
    proof { ax_f32_values(); }
    let ghost a = ga@; let ghost c = clamp_min.v@; let ghost d = clamp_max.v@; let ghost ms = multipliers@->Dense_2; let ghost bs = biases@->Dense_2;
@loop 0 inv
    thresholds@.len() == ri_0, rn_0 == ms.len(), rr_0@.len() == ms.len(), forall|k: int| 0 <= k < ms.len() ==> (#[trigger] rr_0@[k]) == (FPair { first: ms[k], second: bs[k] }),
    forall|k: int| 0 <= k < ri_0 ==> (#[trigger] thresholds@[k])@ is Int && -0x8000_0000 <= thresholds@[k]@->Int_0 < 0x8000_0000
        && thr_ok(thresholds@[k]@->Int_0 as int, a, c, d, real_of_f32(ms[k]), real_of_f32(bs[k])),
@loop 0 begin
    let ghost m = real_of_f32(rr_0@[ri_0 as int].first); let ghost b = real_of_f32(rr_0@[ri_0 as int].second);
    proof {
        assert forall|t: int| thr_cond(t, a, c, d, m, b) implies #[trigger] thr_ok(t, a, c, d, m, b) by { lemma_decide(t, a, c, d, m, b); }
        lemma_lin(); lemma_mono(lo_of(c, d, m), hi_of(c, d, m), m, b);
        if crossing(c, d, m, b) { lemma_cross(c, d, m, b); }
    }
@loop 0 end
    proof { assert(thr_cond(thresholds@[ri_0 as int]@->Int_0 as int, a, c, d, m, b)); }
@loop 0.0 inv
    -134217728 <= threshold <= 134217728, crossing(c, d, m, b),
@loop 0.0 begin
    proof { assert(line(a as real - 2real * (threshold as real), m, b) < 0real); }
@loop 0.0 dec
    threshold + 134217728
@loop 0.1 inv
    -134217728 <= threshold <= 134217728, crossing(c, d, m, b), line(a as real - 2real * (threshold as real), m, b) >= 0real,
@loop 0.1 begin
    proof { assert(line(a as real - 2real * ((threshold + 1) as real), m, b) >= 0real); }
@loop 0.1 dec
    134217728 - threshold
@@fn mlir::TFL::GetSignsOfVectorAndBroadcast4D/1 as signs4d
@requires
    vector_attr@ is Dense, elem(vector_attr@->Dense_0) == TyV::Other(ec_f32()), is_ranked(vector_attr@->Dense_0), vector_attr@->Dense_0->Ranked_0.len() == 1,
    vector_attr@->Dense_2.len() == vector_attr@->Dense_0->Ranked_0[0], 0 < vector_attr@->Dense_0->Ranked_0[0] < 0x40000000,
@ensures
    r@ is Dense, r@->Dense_0 == TyV::Ranked(seq![vector_attr@->Dense_0->Ranked_0[0], 1i64, 1i64, 1i64], ec_f32(), 0), r@->Dense_2.len() == vector_attr@->Dense_2.len(),
    // one sign per channel
    forall|k: int| 0 <= k < r@->Dense_2.len() ==> (#[trigger] r@->Dense_2[k]) == (if real_of_f32(vector_attr@->Dense_2[k]) >= 0real { slit_F32(1065353216) } else { slit_F32(3212836864) }),
@start
    proof { ax_f32_values(); lemma_count4(vector_attr@->Dense_0->Ranked_0[0]); }
@loop 0 inv
    signs@.len() == vector_attr@->Dense_2.len(), 0 <= i <= signs@.len(),
    forall|k: int| 0 <= k < i ==> (#[trigger] signs@[k])@ == AttrV::Flt(if real_of_f32(vector_attr@->Dense_2[k]) >= 0real { real_of_f32(slit_F32(1065353216)) } else { real_of_f32(slit_F32(3212836864)) }),
@loop 0 dec
    signs@.len() - i
@@fn mlir::TFL::GetBitpackedOutputThresholds/5 as get_thresholds
@requires
    filter_attr@ is Dense, is_ranked(filter_attr@->Dense_0), filter_attr@->Dense_0->Ranked_0.len() == 4, fits_filter(filter_attr@->Dense_0->Ranked_0),
    post_activation_multiplier_attr@ is Dense, post_activation_bias_attr@ is Dense, elem(post_activation_multiplier_attr@->Dense_0) == TyV::Other(ec_f32()), elem(post_activation_bias_attr@->Dense_0) == TyV::Other(ec_f32()),
    post_activation_multiplier_attr@->Dense_2.len() == post_activation_bias_attr@->Dense_2.len(), post_activation_multiplier_attr@->Dense_2.len() < 0x40000000,
    fused_activation_function_attr@ is Str,
@ensures
    r@ is Dense, r@->Dense_0 == TyV::Ranked(seq![post_activation_multiplier_attr@->Dense_2.len() as i64], ec_i32(), 0), r@->Dense_1.len() == post_activation_multiplier_attr@->Dense_2.len(),
    // the accumulators above the threshold of a channel are those with a negative output
    forall|k: int| 0 <= k < r@->Dense_1.len() ==> thr_ok((#[trigger] r@->Dense_1[k]) as int, dims_prod(filter_attr@->Dense_0->Ranked_0), act_min(fused_activation_function_attr@->Str_0, dims_prod(filter_attr@->Dense_0->Ranked_0)) as real, act_max(fused_activation_function_attr@->Str_0, dims_prod(filter_attr@->Dense_0->Ranked_0)) as real,
        real_of_f32(post_activation_multiplier_attr@->Dense_2[k]), real_of_f32(post_activation_bias_attr@->Dense_2[k])),
@ghostarg compute_thresholds.ga = Ghost(dims_prod(filter_attr@->Dense_0->Ranked_0))
@start
    proof { lemma_count1(post_activation_multiplier_attr@->Dense_2.len() as i64); }
