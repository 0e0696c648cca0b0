@@assume packing the output of a float binary convolution without padding, or padding with ones, is the convolution with the filter multiplied by the signs of the multipliers and the thresholds GetBitpackedOutputThresholds computes (thresh.vs)
@@assume llvm-tblgen 18 elaborates the patterns as mlir-tblgen does; argument lists of the TensorFlow operations are stand-ins (stubs_td)
@@pick >GetBitpackedOutputThresholds
@@pick >GetSignsOfVectorAndBroadcast4D
@@pick <LQ_QuantizeOp <LQ_Bconv2dOp
@@prelude
#[verifier::external_body] pub broadcast proof fn ax_thresholds(x: V, f: V, m: V, b: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V)
    requires p_float32(f), p_float32(m), p_float32(b), pad == k_TFL_PaddingAttr_VALID() || (pad == k_TFL_PaddingAttr_SAME() && pv == k_I32Attr_num_1_0())
    ensures #[trigger] LQ_QuantizeOp(LQ_Bconv2dOp(x, Arith_ConstantOp(f), Arith_ConstantOp(m), Arith_ConstantOp(b), n_None(), ch, dh, dw, act, pv, pad, sh, sw))
        == LQ_Bconv2dOp(x, TFL_MulOp(Arith_ConstantOp(f), Arith_ConstantOp(n_GetSignsOfVectorAndBroadcast4D(m)), k_TFL_AFAttr_NONE()), n_None(), n_None(),
            Arith_ConstantOp(n_GetBitpackedOutputThresholds(f, m, b, act)), ch, dh, dw, act, pv, pad, sh, sw) { }
