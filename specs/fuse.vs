@@include padding.vs
@@prelude
// the convolution that defines `out`: reach of its filter along d (1 height, 2 width), as far as it is known
pub open spec fn conv_dil(out: MArg, d: int) -> AttrV { if d == 1 { gattr(gdef(out), 3742857119u64 /* dilation_h_factor */) } else { gattr(gdef(out), 2056016920u64 /* dilation_w_factor */) } }
pub open spec fn reach_is(out: MArg, d: int, eff: int) -> bool {
    let f = gty(gops(gdef(out))[1]); let dil = conv_dil(out, d);
    (shape4(f) && !dyn_dim(dimv(f, d)) && dil is Int) ==> eff == (dimv(f, d) - 1) * dil->Int_0 + 1
}
pub open spec fn conv_ok(out: MArg) -> bool {
    gops(gdef(out)).len() >= 2 && dims_ok(gty(gops(gdef(out))[1]))
    && (conv_dil(out, 1) is Int ==> 1 <= conv_dil(out, 1)->Int_0 < 0x4000_0000) && (conv_dil(out, 2) is Int ==> 1 <= conv_dil(out, 2)->Int_0 < 0x4000_0000)
}
@@fn mlir::TFL::NoBatchAndChannelPadding/1 as no_bc_pad
@requires
    paddings_attr@ != AttrV::Null,
@ensures
    r ==> pad_const(paddings_attr@) && forall|d: int, s: int| (d == 0 || d == 3) && 0 <= s < 2 ==> #[trigger] pad(paddings_attr@, d, s) == 0,
@@fn mlir::TFL::IsSamePaddingPartial/5 as same_partial
@requires
    paddings_attr@ != AttrV::Null, strides_attr@ != AttrV::Null, pads_ok(paddings_attr@), dims_ok(gty(input)), dims_ok(gty(output)), conv_ok(output),
    dimension == 1 || dimension == 2, strides_attr@ is Int ==> 1 <= strides_attr@->Int_0 < 0x4000_0000,
@ensures
    r ==> pad_const(paddings_attr@) && strides_attr@ is Int && shape4(gty(input)) && shape4(gty(output)),
    r ==> ({ let i = dimv(gty(input), dimension as int); let o = dimv(gty(output), dimension as int); let s = strides_attr@->Int_0 as int; let b = pad(paddings_attr@, dimension as int, 0); let a = pad(paddings_attr@, dimension as int, 1);
        same1d(paddings_attr@, dimension as int, i, o, s)
        // whatever the reach of the filter, if that is what the unfused convolution had: own padding starts where the explicit one does
        && forall|eff: int| reach_is(output, dimension as int, eff) && #[trigger] valid_out(b + i + a, eff, s, o) ==> b == same_before(i, o, s, eff) }),
@start
    proof { lemma_pad_ix(dimension, 0); lemma_pad_ix(dimension, 1);
        let i = dimv(gty(input), dimension as int); let o = dimv(gty(output), dimension as int); let b = pad(paddings_attr@, dimension as int, 0); let a = pad(paddings_attr@, dimension as int, 1);
        assert forall|eff: int| i >= 0 && b >= 0 && a >= 0 && o == ceil_div(i, 1) && balanced(b, a) && #[trigger] valid_out(b + i + a, eff, 1, o) implies b == same_before(i, o, 1, eff) by { lemma_stride1(i, o, b, a, eff); }
        let fd = dimv(gty(gops(gdef(output))[1]), dimension as int); let dl = conv_dil(output, dimension as int)->Int_0 as int; let st = strides_attr@->Int_0 as int;
        if 0 <= fd < 0x4000_0000 && 1 <= dl < 0x4000_0000 { assert(-0x4000_0000 <= (fd - 1) * dl < 0x1000_0000_0000_0000) by (nonlinear_arith) requires 0 <= fd < 0x4000_0000, 1 <= dl < 0x4000_0000; }
        if 0 <= o < 0x4000_0000 && 1 <= st < 0x4000_0000 { assert(-0x4000_0000 <= (o - 1) * st < 0x1000_0000_0000_0000) by (nonlinear_arith) requires 0 <= o < 0x4000_0000, 1 <= st < 0x4000_0000; }
    }
