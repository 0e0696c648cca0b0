@@include mlirattr.vs
@@prelude
// a padding constant: [4, 2] int32, sensible amounts
pub open spec fn pad_const(a: AttrV) -> bool { a is Dense && a->Dense_0 is Ranked && a->Dense_0->Ranked_0 =~= seq![4i64, 2i64] && a->Dense_0->Ranked_1 == ec_i32() }
pub open spec fn pad(a: AttrV, d: int, side: int) -> int { a->Dense_1[d * 2 + side] as int }
// the amounts a valid padding operation can have
pub open spec fn pads_ok(a: AttrV) -> bool { pad_const(a) ==> forall|d: int, s: int| 0 <= d < 4 && 0 <= s < 2 ==> 0 <= #[trigger] pad(a, d, s) < 0x4000_0000 }
pub open spec fn dyn_dim(v: int) -> bool { v == i64::MIN }
pub open spec fn dim_ok(v: i64) -> bool { v == i64::MIN || 0 <= v < 0x4000_0000 }
pub open spec fn dims_ok(t: TyV) -> bool { t is Ranked ==> forall|k: int| 0 <= k < t->Ranked_0.len() ==> dim_ok(#[trigger] t->Ranked_0[k]) }
pub open spec fn shape4(t: TyV) -> bool { t is Ranked && t->Ranked_0.len() == 4 }
pub open spec fn dimv(t: TyV, d: int) -> int { t->Ranked_0[d] as int }
pub open spec fn ceil_div(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn max0(a: int) -> int { if a > 0 { a } else { 0 } }
// what a convolution's own padding does: total and start (TensorFlow's 'SAME')
pub open spec fn same_total(i: int, o: int, s: int, eff: int) -> int { max0((o - 1) * s + eff - i) }
pub open spec fn same_before(i: int, o: int, s: int, eff: int) -> int { same_total(i, o, s, eff) / 2 }
// output extent of a 'VALID' convolution of n values with a filter reaching over eff values
pub open spec fn valid_out(n: int, eff: int, s: int, o: int) -> bool { 1 <= eff <= n && o == (n - eff) / s + 1 }
pub open spec fn balanced(b: int, a: int) -> bool { b == (b + a) / 2 && a == (b + a + 1) / 2 }
pub open spec fn same1d(p: AttrV, d: int, i: int, o: int, s: int) -> bool { !dyn_dim(i) && !dyn_dim(o) && o == ceil_div(i, s) && balanced(pad(p, d, 0), pad(p, d, 1)) }
// one value of a padded row, and of a row read with the convolution's own padding
pub open spec fn padded_at(x: Seq<int>, before: int, after: int, j: int) -> int { if before <= j < before + x.len() { x[j - before] } else { 0 } }
pub open spec fn same_at(x: Seq<int>, before: int, o: int, s: int, k: int, dil: int) -> int { if 0 <= o * s + k * dil - before < x.len() { x[o * s + k * dil - before] } else { 0 } }
// the two convolutions read the same values exactly when padding starts at the same place
pub proof fn lemma_same_reads(x: Seq<int>, before: int, after: int, o: int, s: int, k: int, dil: int)
    requires before >= 0, after >= 0
    ensures padded_at(x, before, after, o * s + k * dil) == same_at(x, before, o, s, k, dil)
{}
pub proof fn lemma_stride1(i: int, o: int, b: int, a: int, eff: int)
    requires i >= 0, b >= 0, a >= 0, o == ceil_div(i, 1), balanced(b, a), valid_out(b + i + a, eff, 1, o)
    ensures b == same_before(i, o, 1, eff), b + a == eff - 1
{
    assert((i + 1 - 1) / 1 == i) by (nonlinear_arith);
    assert((b + i + a - eff) / 1 == b + i + a - eff) by (nonlinear_arith);
    assert((o - 1) * 1 == o - 1) by (nonlinear_arith);
}
pub proof fn lemma_pad_ix(d: u64, s: u64)
    ensures flat(seq![4i64, 2i64], seq![d, s]) == d * 2 + s
{
    let sh = seq![4i64, 2i64]; let ix = seq![d, s];
    assert(sh.drop_last() =~= seq![4i64]); assert(ix.drop_last() =~= seq![d]);
    assert(seq![4i64].drop_last() =~= Seq::<i64>::empty()); assert(seq![d].drop_last() =~= Seq::<u64>::empty());
    assert(seq![d].last() == d); assert(seq![4i64].last() == 4); assert(ix.last() == s && sh.last() == 2);
    assert(flat(Seq::<i64>::empty(), Seq::<u64>::empty()) == 0);
    assert(flat(seq![4i64], seq![d]) == flat(seq![4i64].drop_last(), seq![d].drop_last()) * 4 + d);
    assert(flat(seq![4i64], seq![d]) == d);
    assert(flat(sh, ix) == flat(sh.drop_last(), ix.drop_last()) * 2 + s);
}
@@fn compute_engine::core::CeilDiv<long,int>/2 as ceil_div_x
@requires
    0 <= a < 0x4000_0000, b >= 1,
@ensures
    r == ceil_div(a as int, b as int),
@@fn mlir::TFL::GetValidPadAttr/1 as get_pads
@requires
    paddings_attr@ != AttrV::Null,
@ensures
    r@ != AttrV::Null ==> r@ == paddings_attr@ && pad_const(r@),
@@fn mlir::TFL::GetShape4D/1 as shape_4d
@ensures
    r@.len() > 0 ==> shape4(gty(tensor)) && r@ == gty(tensor)->Ranked_0,
@@fn mlir::TFL::IsNoPadding/2 as no_pad
@requires
    pad_const(paddings@), dimension < 4,
@ensures
    r ==> pad(paddings@, dimension as int, 0) == 0 && pad(paddings@, dimension as int, 1) == 0,
@start
    proof { lemma_pad_ix(dimension, 0); lemma_pad_ix(dimension, 1); }
@@fn mlir::TFL::IsSamePadding1D/5 as same_pad
@requires
    pad_const(paddings@), pads_ok(paddings@), dimension < 4, stride >= 1, dim_ok(input_size), dim_ok(output_size),
@ensures
    r ==> same1d(paddings@, dimension as int, input_size as int, output_size as int, stride as int),
@start
    proof { lemma_pad_ix(dimension, 0); lemma_pad_ix(dimension, 1); assert(0 <= pad(paddings@, dimension as int, 0) < 0x4000_0000); assert(0 <= pad(paddings@, dimension as int, 1) < 0x4000_0000); }
