@@include evalsel_core.vs
@@foreach S C N in f:float:1 i:signed_char:9 b:int:2
@@fn compute_engine::tflite::bconv2d::EvalOptBGEMM<short,$C>/3 as eval_bg16_$S
@assumed kernels of 64-bit ARM
@ghost tr: &mut Tr
@requires
    // counted in 16 bits
    conv_bits(old(op_data)) <= 0xffff,
@ensures
    final(tr).r@ == (Ran::Yes { kind: 1, bits: 16, ty: $N }), *final(context) == *old(context), *final(node) == *old(node),
@@end
@@include evalsel_top.vs
