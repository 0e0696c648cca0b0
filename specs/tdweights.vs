@@assume a binary convolution reads a float filter as the bits Bitpack gives for it (fold.vs)
@@assume llvm-tblgen 18 elaborates the patterns as mlir-tblgen does; argument lists of the TensorFlow operations are stand-ins (stubs_td)
@@pick <LQ_Bconv2dOp
@@prelude
#[verifier::external_body] pub broadcast proof fn ax_packed(x: V, f: V, m: V, b: V, t: V, ch: V, dh: V, dw: V, act: V, pv: V, pad: V, sh: V, sw: V)
    requires p_IsConv2DFilter(f)
    ensures #[trigger] LQ_Bconv2dOp(x, Arith_ConstantOp(f), m, b, t, ch, dh, dw, act, pv, pad, sh, sw)
        == LQ_Bconv2dOp(x, Arith_ConstantOp(n_Bitpack(f)), m, b, t, ch, dh, dw, act, pv, pad, sh, sw) { }
