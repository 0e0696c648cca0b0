@@include tflop.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs contracts of zpad.vs
@@include zpad_link.vs contracts of zpad.vs
@@include flex.vs
@@include tfpad.vs
@@include convop_data.vs
@@include convsetup_core.vs contracts of convsetup.vs
@@include refconv.vs contracts of refconv.vs
@@include conveval_data.vs
@@record compute_engine::core::indirect_bgemm::Kernel => Kern
@@prelude
pub struct Kern { pub g: Ghost<int> }
// what holds of the operator between calls after a successful preparation
pub open spec fn op_ok(kind: int, ud: &OpData, c: Ctx, n: Node) -> bool { runnable(kind, ud, c, n) && (ud.one_time_setup_complete ==> setup_ok(ud, c, n)) }
@@foreach S C T in f:float:F32 i:signed_char:i8 b:int:i32
@@fn compute_engine::tflite::bconv2d::EvalRef<$C>/3 as eval_ref_$S
@outmem output $T=out_w
@ghost out_w: &mut Mem<$T>
@ghostarg one_time_setup.kind = Ghost(0int)
@requires
    op_ok(0, old(op_data), *old(context), *old(node)), is_$S(out_t(*old(context), *old(node), 0).type_v), old(out_w)@.len() == tcount(out_t(*old(context), *old(node), 0)),
@ensures
    *final(context) == *old(context), *final(node) == *old(node), op_ok(0, final(op_data), *old(context), *old(node)), same_op(final(op_data), old(op_data)), final(op_data).one_time_setup_complete,
    all_$S(0, final(out_w)@, final(op_data), *old(context), *old(node)),
@start
    proof { lemma_runnable(0, op_data, *context, *node); }
@end
    proof { let p = &op_data.params; let c = *context; let n = *node;
        assert(mkcv(p, contents::<i32>(in_t(c, n, 0).mem@), 0, tdims(in_t(c, n, 0)), contents::<i32>(in_t(c, n, 1).mem@), 0, tdims(in_t(c, n, 1))) == cv_of(op_data, c, n, zero_pad(p)));
        assert forall|q: int| 0 <= q < tcount(out_t(c, n, 0)) implies el_$S(0, #[trigger] out_w@[q], op_data, c, n, q) by {}
    }
@@end
@@prelude
// new contents of the input leave everything an evaluation relies on in place
pub proof fn lemma_input_changed(kind: int, ud: &OpData, c: Ctx, c2: Ctx, n: Node)
    requires op_ok(kind, ud, c, n), only_input_changed(c, c2, n), node_ok(c2, n), apart(n)
    ensures op_ok(kind, ud, c2, n)
{
    let k0 = n.inputs.data@[0] as int;
    assert(n.inputs.size == 5);
    assert forall|k: int| 1 <= k < 5 implies #[trigger] in_t(c2, n, k) == in_t(c, n, k) by { assert(n.inputs.data@[k] != n.inputs.data@[0]); }
    assert(out_t(c2, n, 0) == out_t(c, n, 0)) by { assert(n.outputs.data@[0] != n.inputs.data@[0]); }
    assert(tdims(in_t(c2, n, 0)) == tdims(in_t(c, n, 0)) && in_t(c2, n, 0).type_v == in_t(c, n, 0).type_v && in_t(c2, n, 0).dims == in_t(c, n, 0).dims && in_t(c2, n, 0).allocation_type == in_t(c, n, 0).allocation_type);
    let u = ud.im2col_id as int;
    if wants_im2col(kind, &ud.params, tdims(in_t(c, n, 1))) { assert(n.inputs.data@[0] != ud.im2col_id); assert(c2.t@[u] == c.t@[u]); }
    assert(conv_shaped(kind, ud, c2, n)); assert(evaluable(ud, c2, n)); assert(setup_ok(ud, c, n) == setup_ok(ud, c2, n));
}
// a successful preparation (its contract in convop.vs) puts the operator into that state again, whatever it did before
pub proof fn lemma_prepared(kind: int, ud: &OpData, c: Ctx, n: Node)
    requires runnable(kind, ud, c, n), !ud.one_time_setup_complete
    ensures op_ok(kind, ud, c, n)
{ }
@@fn compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::kReference>/2 as conv_eval_ref
@userdata compute_engine::tflite::bconv2d::OpData as ud
@ghost ud: &mut OpData
@ghost out_f: &mut Mem<F32>
@ghost out_i: &mut Mem<i8>
@ghost out_b: &mut Mem<i32>
@ghostarg eval_ref_f.out_w = out_f
@ghostarg eval_ref_i.out_w = out_i
@ghostarg eval_ref_b.out_w = out_b
@requires
    op_ok(0, old(ud), *old(context), *old(node)),
    ({ let o = out_t(*old(context), *old(node), 0); &&& is_f(o.type_v) ==> old(out_f)@.len() == tcount(o) &&& is_i(o.type_v) ==> old(out_i)@.len() == tcount(o) &&& is_b(o.type_v) ==> old(out_b)@.len() == tcount(o) }),
@ensures
    *final(context) == *old(context), *final(node) == *old(node), op_ok(0, final(ud), *old(context), *old(node)), same_op(final(ud), old(ud)), final(ud).one_time_setup_complete, r == 0,
    ({ let o = out_t(*old(context), *old(node), 0);
        &&& is_f(o.type_v) ==> all_f(0, final(out_f)@, final(ud), *old(context), *old(node))
        &&& is_i(o.type_v) ==> all_i(0, final(out_i)@, final(ud), *old(context), *old(node))
        &&& is_b(o.type_v) ==> all_b(0, final(out_b)@, final(ud), *old(context), *old(node)) }),
