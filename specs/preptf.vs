@@include padding.vs
@@prelude
pub open spec fn stride_of(a: AttrV, d: int) -> AttrV { a->List_0[d]@ }
// whatever the reach of the filter: own padding starts where the explicit one does, known finding aside
// (a stride above 1 and more padding than the convolution's own)
pub open spec fn same_place(i: int, o: int, s: int, b: int, a: int) -> bool { forall|eff: int| #[trigger] valid_out(b + i + a, eff, s, o) && (s == 1 || b + a == same_total(i, o, s, eff)) ==> b == same_before(i, o, s, eff) }
pub open spec fn fusable(p: AttrV, tin: TyV, tout: TyV, sa: AttrV, d: int) -> bool {
    same1d(p, d, dimv(tin, d), dimv(tout, d), stride_of(sa, d)->Int_0 as int) && same_place(dimv(tin, d), dimv(tout, d), stride_of(sa, d)->Int_0 as int, pad(p, d, 0), pad(p, d, 1))
}
pub proof fn lemma_fusable(p: AttrV, tin: TyV, tout: TyV, sa: AttrV, d: int)
    requires same1d(p, d, dimv(tin, d), dimv(tout, d), stride_of(sa, d)->Int_0 as int), dimv(tin, d) >= 0, pad(p, d, 0) >= 0, pad(p, d, 1) >= 0
    ensures fusable(p, tin, tout, sa, d)
{
    let i = dimv(tin, d); let o = dimv(tout, d); let s = stride_of(sa, d)->Int_0 as int; let b = pad(p, d, 0); let a = pad(p, d, 1);
    assert forall|eff: int| #[trigger] valid_out(b + i + a, eff, s, o) && (s == 1 || b + a == same_total(i, o, s, eff)) implies b == same_before(i, o, s, eff) by {
        if s == 1 { lemma_stride1(i, o, b, a, eff); }
    }
}
@@fn mlir::TFL::IsSamePadding/4 as same_both
@requires
    paddings_attr@ != AttrV::Null, pads_ok(paddings_attr@), dims_ok(gty(input)), dims_ok(gty(output)),
    strides_attr@ is List, strides_attr@->List_0.len() == 4, forall|d: int| 0 <= d < 4 ==> #[trigger] stride_of(strides_attr@, d) is Int && 1 <= stride_of(strides_attr@, d)->Int_0 < 0x4000_0000,
@ensures
    r ==> pad_const(paddings_attr@) && shape4(gty(input)) && shape4(gty(output)) && pad(paddings_attr@, 0, 0) == 0 && pad(paddings_attr@, 0, 1) == 0 && pad(paddings_attr@, 3, 0) == 0 && pad(paddings_attr@, 3, 1) == 0,
    r ==> fusable(paddings_attr@, gty(input), gty(output), strides_attr@, 1) && fusable(paddings_attr@, gty(input), gty(output), strides_attr@, 2),
@start
    proof { lemma_pad_ix(1, 0); lemma_pad_ix(1, 1); lemma_pad_ix(2, 0); lemma_pad_ix(2, 1);
        assert(stride_of(strides_attr@, 1) is Int); assert(stride_of(strides_attr@, 2) is Int);
        if pad_const(paddings_attr@) && shape4(gty(input)) {
            assert(0 <= pad(paddings_attr@, 1, 0)); assert(0 <= pad(paddings_attr@, 1, 1)); assert(0 <= pad(paddings_attr@, 2, 0)); assert(0 <= pad(paddings_attr@, 2, 1));
            if same1d(paddings_attr@, 1, dimv(gty(input), 1), dimv(gty(output), 1), stride_of(strides_attr@, 1)->Int_0 as int) { lemma_fusable(paddings_attr@, gty(input), gty(output), strides_attr@, 1); }
            if same1d(paddings_attr@, 2, dimv(gty(input), 2), dimv(gty(output), 2), stride_of(strides_attr@, 2)->Int_0 as int) { lemma_fusable(paddings_attr@, gty(input), gty(output), strides_attr@, 2); }
        }
    }
