@@assume the padding and convolution of TensorFlow Lite: a PadV2 with the single value 0 is a Pad; a VALID convolution of an image padded by what its SAME padding adds (spatially only) is the SAME convolution of the image; what IsSamePaddingPartial and NoBatchAndChannelPadding answer is proved in fuse.vs
@@assume llvm-tblgen 18 elaborates the patterns as mlir-tblgen does; argument lists of the TensorFlow operations are stand-ins (stubs_td)
@@pick <TFL_PadOp
@@pick <TFL_PadV2Op
@@prelude
#[verifier::external_body] pub broadcast proof fn ax_pad_zero(x: V, p: V, v: V)
    requires (p_one_element(v) && p_first_value_is(v, k_num_0_0())) || p_IsConstantValue(v, k_num_0_0())
    ensures #[trigger] TFL_PadV2Op(x, p, Arith_ConstantOp(v)) == TFL_PadOp(x, p) { }
#[verifier::external_body] pub broadcast proof fn ax_conv(x: V, p: V, f: V, b: V, h: V, w: V, a: V, sh: V, sw: V)
    requires p_NoBatchAndChannelPadding(p),
        p_IsSamePaddingPartial(p, x, TFL_Conv2DOp(TFL_PadOp(x, Arith_ConstantOp(p)), f, b, h, w, a, k_TFL_PaddingAttr_VALID(), sh, sw), sh, k_num_1_0()),
        p_IsSamePaddingPartial(p, x, TFL_Conv2DOp(TFL_PadOp(x, Arith_ConstantOp(p)), f, b, h, w, a, k_TFL_PaddingAttr_VALID(), sh, sw), sw, k_num_2_0()),
    ensures #[trigger] TFL_Conv2DOp(TFL_PadOp(x, Arith_ConstantOp(p)), f, b, h, w, a, k_TFL_PaddingAttr_VALID(), sh, sw)
        == TFL_Conv2DOp(x, f, b, h, w, a, k_TFL_PaddingAttr_SAME(), sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_depthwise(x: V, p: V, f: V, b: V, h: V, w: V, a: V, sh: V, sw: V, m: V)
    requires p_NoBatchAndChannelPadding(p),
        p_IsSamePaddingPartial(p, x, TFL_DepthwiseConv2DOp(TFL_PadOp(x, Arith_ConstantOp(p)), f, b, h, w, a, k_TFL_PaddingAttr_VALID(), sh, sw, m), sh, k_num_1_0()),
        p_IsSamePaddingPartial(p, x, TFL_DepthwiseConv2DOp(TFL_PadOp(x, Arith_ConstantOp(p)), f, b, h, w, a, k_TFL_PaddingAttr_VALID(), sh, sw, m), sw, k_num_2_0()),
    ensures #[trigger] TFL_DepthwiseConv2DOp(TFL_PadOp(x, Arith_ConstantOp(p)), f, b, h, w, a, k_TFL_PaddingAttr_VALID(), sh, sw, m)
        == TFL_DepthwiseConv2DOp(x, f, b, h, w, a, k_TFL_PaddingAttr_SAME(), sh, sw, m) { }
