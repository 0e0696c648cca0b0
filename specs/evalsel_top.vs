@@foreach S C N E K in f:float:1:kReference:0 i:signed_char:9:kReference:0 b:int:2:kReference:0 f:float:1:kOptimizedBGEMM:1 i:signed_char:9:kOptimizedBGEMM:1 b:int:2:kOptimizedBGEMM:1 f:float:1:kOptimizedIndirectBGEMM:2 i:signed_char:9:kOptimizedIndirectBGEMM:2 b:int:2:kOptimizedIndirectBGEMM:2
@@fn compute_engine::tflite::bconv2d::EvalChooseKernelType<compute_engine::tflite::bconv2d::KernelType::$E,$C>/3 as choose_$K_$S
@ghost tr: &mut Tr
@requires
    sane(old(op_data)),
@ensures
    r == 0, ran(final(tr), $K, $N), *final(context) == *old(context), *final(node) == *old(node),
@start
    proof { let p = &op_data.params; assert(p.filter_height * p.filter_width * p.channels_in == p.channels_in * (p.filter_height * p.filter_width)) by (nonlinear_arith); }
@@end
@@foreach E K in kReference:0 kOptimizedBGEMM:1 kOptimizedIndirectBGEMM:2
@@fn compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::$E>/2 as conv_eval_$K
@userdata compute_engine::tflite::bconv2d::OpData as ud
@ghost ud: &mut OpData
@ghost tr: &mut Tr
@requires
    node_ok(*old(context), *old(node)), sane(old(ud)), old(node).outputs.size >= 1,
@ensures
    ({ let ty = out_t(*old(context), *old(node), 0).type_v;
        &&& (ty == 1 || ty == 9 || ty == 2 ==> r == 0 && ran(final(tr), $K, ty as int))
        &&& (!(ty == 1 || ty == 9 || ty == 2) ==> r != 0 && *final(tr) == *old(tr)) }),
    *final(context) == *old(context), *final(node) == *old(node),
@@end
