@@assume the convolution of TensorFlow: with a binary filter (scale times +1/-1, laid out height, width, input, output) it is the binary convolution of the packed image with the transposed filter over its scale, the scales as multipliers and zero biases; VALID convolution of an image padded with ones as SAME padding would is the SAME binary convolution that pads with ones; what IsSamePadding, IsBinaryFilter and HasValidFilterShape answer is proved in preptf.vs and binfilter.vs
@@assume llvm-tblgen 18 elaborates the patterns as mlir-tblgen does; argument lists of the TensorFlow operations are stand-ins (stubs_td)
@@pick <TF_PadOp
@@pick <TF_PadV2Op
@@prelude
// the binary convolution of lce_ops.td that computes what the convolution of the
// unpacked image with the filter f computes, if f is binary (binfilter.vs)
pub open spec fn bconv(x: V, f: V, s: V, dl: V, pv: V, pad: V) -> V {
    LQ_Bconv2dOp(x, TF_TransposeOp(TF_DivOp(Arith_ConstantOp(f), Arith_ConstantOp(n_GetScaleVector(f))), Arith_ConstantOp(k_I32VectorElementsAttr_3_0_1_2())),
        Arith_ConstantOp(n_GetScaleVector(f)), Arith_ConstantOp(n_GetConstantVector(f, k_num_0_0())), n_None(), n_GetNumChannels(LQ_DequantizeOp(x)),
        n_IntAt(dl, k_num_1_0()), n_IntAt(dl, k_num_2_0()), k_TFL_AFAttr_NONE(), pv, pad, n_IntAt(s, k_num_1_0()), n_IntAt(s, k_num_2_0()))
}
pub open spec fn fits(x: V, f: V, s: V, dl: V) -> bool {
    p_IsBinaryFilter(f) && p_HasValidFilterShape(LQ_DequantizeOp(x), Arith_ConstantOp(f)) && p_TFIntListIs1XY1(s) && p_TFIntListIs1XY1(dl)
}
#[verifier::external_body] pub broadcast proof fn ax_bconv(x: V, f: V, s: V, c: V, pad: V, e: V, dl: V)
    requires fits(x, f, s, dl), pad == k_TFL_PaddingAttr_VALID() || pad == k_TFL_PaddingAttr_SAME()
    ensures #[trigger] TF_Conv2DOp(LQ_DequantizeOp(x), Arith_ConstantOp(f), s, c, pad, e, k_TF_ConvnetDataFormatAttr_NHWC(), dl)
        == bconv(x, f, s, dl, k_I32Attr_num_0_0(), pad) { }
#[verifier::external_body] pub broadcast proof fn ax_bconv_valid(x: V, f: V, s: V, c: V, e: V, dl: V)
    requires fits(x, f, s, dl)
    ensures #[trigger] TF_Conv2DOp(LQ_DequantizeOp(x), Arith_ConstantOp(f), s, c, k_TFL_PaddingAttr_VALID(), e, k_TF_ConvnetDataFormatAttr_NHWC(), dl)
        == bconv(x, f, s, dl, k_I32Attr_num_1_0(), k_TFL_PaddingAttr_VALID()) { }
#[verifier::external_body] pub broadcast proof fn ax_padded(x: V, i: V, p: V, v: V, f: V, s: V, c: V, e: V, dl: V)
    requires fits(x, f, s, dl), (p_one_element(v) && p_first_value_is(v, k_num_1_0())) || p_IsConstantValue(v, k_num_1_0()), i == x || i == LQ_DequantizeOp(x),
        #[trigger] p_IsSamePadding(p, i, TF_Conv2DOp(TF_PadV2Op(LQ_DequantizeOp(x), Arith_ConstantOp(p), Arith_ConstantOp(v)), Arith_ConstantOp(f), s, c, k_TFL_PaddingAttr_VALID(), e, k_TF_ConvnetDataFormatAttr_NHWC(), dl), s)
    ensures TF_Conv2DOp(TF_PadV2Op(LQ_DequantizeOp(x), Arith_ConstantOp(p), Arith_ConstantOp(v)), Arith_ConstantOp(f), s, c, k_TFL_PaddingAttr_VALID(), e, k_TF_ConvnetDataFormatAttr_NHWC(), dl)
        == bconv(x, f, s, dl, k_I32Attr_num_1_0(), k_TFL_PaddingAttr_SAME()) { }
