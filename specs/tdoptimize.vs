@@include tdrewrite.inc
@@pick LQ_Bconv2dOp
@@pick LQ_QuantizeOp
@@pick !TF_PadOp
@@prelude
#[verifier::external_body] pub broadcast proof fn ax_add(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, v: V)
    requires p_float32(b), p_float32(v)
    ensures #[trigger] TFL_AddOp(LQ_Bconv2dOp(x, f, m, Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw), Arith_ConstantOp(v), k_TFL_AFAttr_NONE())
        == LQ_Bconv2dOp(x, f, m, TFL_AddOp(Arith_ConstantOp(b), Arith_ConstantOp(v), k_TFL_AFAttr_NONE()), t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_sub(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, v: V)
    requires p_float32(b), p_float32(v)
    ensures #[trigger] TFL_SubOp(LQ_Bconv2dOp(x, f, m, Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw), Arith_ConstantOp(v), k_TFL_AFAttr_NONE())
        == LQ_Bconv2dOp(x, f, m, TFL_SubOp(Arith_ConstantOp(b), Arith_ConstantOp(v), k_TFL_AFAttr_NONE()), t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_mul(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, v: V)
    requires p_float32(m), p_float32(b), p_float32(v)
    ensures #[trigger] TFL_MulOp(LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw), Arith_ConstantOp(v), k_TFL_AFAttr_NONE())
        == LQ_Bconv2dOp(x, f, TFL_MulOp(Arith_ConstantOp(m), Arith_ConstantOp(v), k_TFL_AFAttr_NONE()), TFL_MulOp(Arith_ConstantOp(b), Arith_ConstantOp(v), k_TFL_AFAttr_NONE()), t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_div(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, v: V)
    requires p_float32(m), p_float32(b), p_float32(v)
    ensures #[trigger] TFL_DivOp(LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw), Arith_ConstantOp(v), k_TFL_AFAttr_NONE())
        == LQ_Bconv2dOp(x, f, TFL_DivOp(Arith_ConstantOp(m), Arith_ConstantOp(v), k_TFL_AFAttr_NONE()), TFL_DivOp(Arith_ConstantOp(b), Arith_ConstantOp(v), k_TFL_AFAttr_NONE()), t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_relu(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V)
    requires p_IsConstantValue(m, k_num_1_0()), p_IsConstantValue(b, k_num_0_0()), act == k_TFL_AFAttr_NONE(), pad == k_TFL_PaddingAttr_VALID() || (pad == k_TFL_PaddingAttr_SAME() && pv == k_I32Attr_num_1_0())
    ensures #[trigger] TFL_ReluOp(LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw))
        == LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, k_TFL_AFAttr_RELU(), pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_relu1(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V)
    requires p_IsConstantValue(m, k_num_1_0()), p_IsConstantValue(b, k_num_0_0()), act == k_TFL_AFAttr_NONE(), pad == k_TFL_PaddingAttr_VALID() || (pad == k_TFL_PaddingAttr_SAME() && pv == k_I32Attr_num_1_0())
    ensures #[trigger] TFL_Relu1Op(LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw))
        == LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, k_TFL_AFAttr_RELU_N1_TO_1(), pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_relu6(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V)
    requires p_IsConstantValue(m, k_num_1_0()), p_IsConstantValue(b, k_num_0_0()), act == k_TFL_AFAttr_NONE(), pad == k_TFL_PaddingAttr_VALID() || (pad == k_TFL_PaddingAttr_SAME() && pv == k_I32Attr_num_1_0())
    ensures #[trigger] TFL_Relu6Op(LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, act, pv, pad, sh, sw))
        == LQ_Bconv2dOp(x, f, Arith_ConstantOp(m), Arith_ConstantOp(b), t, ch, dh, dw, k_TFL_AFAttr_RELU6(), pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_ge(x: V, t: V)
    ensures #[trigger] LQ_QuantizeOp(TFL_GreaterEqualOp(x, t))
        == LQ_QuantizeOp(TFL_SubOp(x, t, k_TFL_AFAttr_NONE())) { }
#[verifier::external_body] pub broadcast proof fn ax_ge0(x: V, c: V)
    requires p_IsConstantValue(c, k_num_0_0())
    ensures #[trigger] LQ_QuantizeOp(TFL_GreaterEqualOp(x, Arith_ConstantOp(c)))
        == LQ_QuantizeOp(x) { }
#[verifier::external_body] pub broadcast proof fn ax_le(l: V, r: V)
    ensures #[trigger] TFL_LessEqualOp(l, r)
        == TFL_GreaterEqualOp(r, l) { }
#[verifier::external_body] pub broadcast proof fn ax_pool(x: V, p: V, sw: V, sh: V, fw: V, fh: V)
    ensures #[trigger] LQ_QuantizeOp(TFL_MaxPool2DOp(x, p, sw, sh, fw, fh, k_TFL_AFAttr_NONE()))
        == LQ_BMaxPool2dOp(LQ_QuantizeOp(x), p, sw, sh, fw, fh) { }
