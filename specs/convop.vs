@@include tflop.vs
@@include flex.vs
@@include tfpad.vs
@@include convop_data.vs
@@record compute_engine::core::indirect_bgemm::Kernel => Kern
@@prelude
pub struct Kern { pub g: Ghost<int> }
@@include optmap.vs
@@fn compute_engine::tflite::bconv2d::Init/3 as conv_init
@retrec compute_engine::tflite::bconv2d::OpData
@ensures
    ({ let m = attrs(buffer, length); let p = r.params;
        &&& r.successfully_initialized == opts_ok(m)
        &&& (opts_ok(m) ==> conv_reads(m, p.stride_height, p.stride_width, p.dilation_height_factor, p.dilation_width_factor, p.pad_value, p.channels_in, r.fused_activation_function as int, p.padding_type))
        &&& !r.one_time_setup_complete &&& !r.indirect_bgemm_kernel__set &&& r.im2col_id == -1 &&& r.im2col_index == -1 }),
@@foreach K N in kReference:0 kOptimizedBGEMM:1 kOptimizedIndirectBGEMM:2
@@fn compute_engine::tflite::bconv2d::Prepare<compute_engine::tflite::bconv2d::KernelType::$K>/2 as conv_prepare_$N
@userdata compute_engine::tflite::bconv2d::OpData as ud
@rlimit 60
@ghost ud: &mut OpData
@requires
    node_ok(*old(context), *old(node)), data_ok(old(ud), *old(context), *old(node)), old(node).outputs.size >= 1,
    old(node).inputs.size == 5 ==> small_conv(&old(ud).params, tdims(in_t(*old(context), *old(node), 1))),
@ensures
    r <= 1, final(node).inputs == old(node).inputs, final(node).outputs == old(node).outputs,
    !conv_conds($N, old(ud), *old(context), *old(node)) ==> r != 0,
    conv_conds($N, old(ud), *old(context), *old(node)) && can_resize(out_t(*old(context), *old(node), 0).id@, conv_dims(&old(ud).params, in_t(*old(context), *old(node), 0), in_t(*old(context), *old(node), 1), out_t(*old(context), *old(node), 0))) && !wants_im2col($N, &old(ud).params, tdims(in_t(*old(context), *old(node), 1))) ==> r == 0,
    r == 0 ==> conv_shaped($N, final(ud), *final(context), *final(node)) && !final(ud).one_time_setup_complete && !final(ud).indirect_bgemm_kernel__set && data_ok(final(ud), *final(context), *final(node)),
    r == 0 ==> forall|k: int| 0 <= k < 5 ==> #[trigger] in_t(*final(context), *old(node), k) == in_t(*old(context), *old(node), k),
    final(ud).successfully_initialized == old(ud).successfully_initialized, final(ud).fused_activation_function == old(ud).fused_activation_function,
@start
    proof {
      assert forall|k: int| 0 <= k < node.inputs.size implies #[trigger] node.inputs.data@[k] < context.n@ by { assert(tensor_ok(context.t@[node.inputs.data@[k] as int])); }
      assert forall|k: int| 0 <= k < node.outputs.size implies #[trigger] node.outputs.data@[k] < context.n@ by { assert(tensor_ok(context.t@[node.outputs.data@[k] as int])); }
      if node.inputs.size == 5 { assert(tensor_ok(in_t(*context, *node, 0))); assert(tensor_ok(in_t(*context, *node, 1))); assert(tensor_ok(in_t(*context, *node, 2))); assert(tensor_ok(in_t(*context, *node, 3))); assert(tensor_ok(in_t(*context, *node, 4)));
        let p = ud.params; let fd = tdims(in_t(*context, *node, 1));
        if fd.len() == 4 && fd[1] > 0 && fd[2] > 0 && p.channels_in > 0 { lemma_depth(cdiv32(p.channels_in as int), fd[1] as int, fd[2] as int); }
        if fd.len() == 4 && fd[3] > 0 && p.channels_in > 0 && cdiv32(p.channels_in as int) % (fd[3] as int) == 0 { lemma_groups(cdiv32(p.channels_in as int), fd[3] as int); }
    } }
@return
    proof {
        let c0 = *old(context); let n0 = *old(node); let p0 = &old(ud).params;
        if conv_conds($N, old(ud), c0, n0) {
            let o = out_t(c0, n0, 0); let i = in_t(c0, n0, 0); let f = in_t(c0, n0, 1);
            assert(context.req@[o.id@] =~= conv_dims(p0, i, f, o));
            let x = context.req@[ud.im2col_id as int]; let y = im2col_dims(p0, conv_dims(p0, i, f, o), tdims(f));
            assert(x.len() == 4 && x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] ==> x =~= y);
        }
    }
@@end
