@@include tdrewrite.inc
@@pick !TF_PadOp
@@prelude
#[verifier::external_body] pub broadcast proof fn ax_q_multiplier(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, q: V)
    ensures #[trigger] LQ_Bconv2dOp(x, f, TFL_DequantizeOp(TFL_QuantizeOp(m, q)), b, t, ch, dh, dw, act, pv, pad, sh, sw)
        == LQ_Bconv2dOp(x, f, m, b, t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_q_bias(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, q: V)
    ensures #[trigger] LQ_Bconv2dOp(x, f, m, TFL_DequantizeOp(TFL_QuantizeOp(b, q)), t, ch, dh, dw, act, pv, pad, sh, sw)
        == LQ_Bconv2dOp(x, f, m, b, t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_q_output(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V, q: V)
    ensures #[trigger] TFL_QuantizeOp(LQ_Bconv2dOp(x, f, m, b, t, ch, dh, dw, act, pv, pad, sh, sw), q)
        == LQ_Bconv2dOp(x, f, m, b, t, ch, dh, dw, act, pv, pad, sh, sw) { }
#[verifier::external_body] pub broadcast proof fn ax_q_unpack(x: V, q: V)
    ensures #[trigger] TFL_QuantizeOp(LQ_DequantizeOp(x), q)
        == LQ_DequantizeOp(x) { }
#[verifier::external_body] pub broadcast proof fn ax_q_pack(x: V)
    ensures #[trigger] LQ_QuantizeOp(TFL_DequantizeOp(x))
        == LQ_QuantizeOp(x) { }
