@@include tflop.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs contracts of zpad.vs
@@include zpad_link.vs contracts of zpad.vs
@@include flex.vs
@@include tfpad.vs
@@include convop_data.vs
@@include convsetup_core.vs contracts of convsetup.vs
@@include indirect_pack.vs contracts of indirect.vs
@@include indirect_fill.vs contracts of indirect.vs
@@include indirect_run.vs contracts of indirect.vs
@@include indirect_bits.vs contracts of indirect.vs
@@include indirect_conv.vs contracts of indirect.vs
@@include indirect_top.vs contracts of indirect.vs
@@include conveval_data.vs
@@prelude
// sizes the packed weights and the indirection buffer can have
pub open spec fn ind_pk(p: &BConv2DParams, id: Seq<i32>) -> Pk {
    let oc = tdiv(p.channels_out as int, p.groups as int); let d = tdiv(id[3] as int, p.groups as int);
    Pk { g: p.groups as int, oc, bo: 4, bd: 1, nb: tdiv(oc + 4 - 1, 4), fs: p.filter_height * p.filter_width, d, nc: tdiv(d, 1) }
}
pub open spec fn ind_fits(ud: &OpData, c: Ctx, n: Node) -> bool {
    let p = &ud.params; let id = tdims(in_t(c, n, 0)); let od = tdims(out_t(c, n, 0)); let k = ind_pk(p, id); let np = id[0] * od[1] * od[2];
    pk_len(k) <= 0x7fff_ffff && k.fs * id[3] <= 0x7fff_ffff && np + 2 <= 0x7fff_ffff && tdiv(np + 2 - 1, 2) * 2 * k.fs + 2 <= 0x7fff_ffff
}
pub open spec fn k_dy(k: Kernel, ud: &OpData, c: Ctx, n: Node) -> bool {
    let t = out_t(c, n, 0).type_v;
    (is_f(t) ==> k.dy@ == DynOT::F(ot_f(ud))) && (is_i(t) ==> k.dy@ == DynOT::I(ot_i(ud))) && (is_b(t) ==> k.dy@ == DynOT::B(ot_b(ud, c, n)))
}
pub open spec fn flt_ptr(c: Ctx, n: Node) -> CPtr<i32> { CPtr { s: Ghost(contents::<i32>(in_t(c, n, 1).mem@)), o: Ghost(0int) } }
pub open spec fn ind_ci(ud: &OpData, c: Ctx, n: Node) -> Cv { cv_in(&ud.params, contents::<i32>(in_t(c, n, 0).mem@), 0, tdims(in_t(c, n, 0))) }
// the cached kernel is the one for the current shapes and the current output stage
pub open spec fn kern_ok(k: Kernel, ud: &OpData, c: Ctx, n: Node) -> bool {
    let od = tdims(out_t(c, n, 0));
    k_geo(k, cv_of(ud, c, n, false), od) && filled_ok(&k, ind_ci(ud, c, n), od) && packed_ok(&k, flt_ptr(c, n)) && run_lim(k) && k_dy(k, ud, c, n)
}
pub open spec fn ind_heap(k: Kernel, c: Ctx, n: Node) -> Heap { map![OBJ_IN() => contents::<i32>(in_t(c, n, 0).mem@), OBJ_ZERO() => k.zero_buffer@] }
pub open spec fn op_ok(kind: int, ud: &OpData, c: Ctx, n: Node) -> bool {
    runnable(kind, ud, c, n) && ind_fits(ud, c, n) && (ud.one_time_setup_complete ==> setup_ok(ud, c, n)) && (ud.indirect_bgemm_kernel__set ==> ud.one_time_setup_complete && kern_ok(ud.indirect_bgemm_kernel, ud, c, n))
}
// a freshly constructed kernel has room for everything
pub proof fn lemma_fresh(k: Kernel, ud: &OpData, c: Ctx, n: Node, i: Shape, o: Shape)
    requires runnable(2, ud, c, n), ind_fits(ud, c, n), k_new(k, 4, 2, 1, &ud.params, i, o), i@ == tdims(in_t(c, n, 0)), o@ == tdims(out_t(c, n, 0))
    ensures k_geo(k, cv_of(ud, c, n, false), o@), fill_ok(&k, &ud.params, i, o), run_lim(k), pkdims(&k).g * pkdims(&k).oc * (pkdims(&k).fs * pkdims(&k).d) == contents::<i32>(in_t(c, n, 1).mem@).len()
{
    lemma_runnable(2, ud, c, n);
    let p = &ud.params; let q = pkdims(&k); let id = i@; let od = o@; let fd = tdims(in_t(c, n, 1));
    assert(q == ind_pk(p, id));
    let g = q.g; let fs = q.fs; let d = q.d; let oc = q.oc; let np = k.num_output_pixels as int;
    assert(fs > 0) by (nonlinear_arith) requires fs == p.filter_height * p.filter_width, p.filter_height > 0, p.filter_width > 0;
    assert(d == fd[3] && d * g == id[3]) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(fd[3] as int, g); }
    assert(q.nc == d && q.nc * q.bd == d) by { assert(d / 1 == d) by (nonlinear_arith); assert(d * 1 == d); }
    assert(oc * g == k.output_channels);
    assert(oc > 0) by (nonlinear_arith) requires oc * g == k.output_channels, k.output_channels > 0, g > 0;
    assert(oc <= k.output_channels) by (nonlinear_arith) requires oc * g == k.output_channels, g > 0, oc > 0;
    let a = g * (q.nb * q.bo);
    assert(a > 0) by (nonlinear_arith) requires a == g * (q.nb * q.bo), q.nb > 0, q.bo == 4, g > 0;
    assert(0 < a && a <= a * fs && a * fs <= a * fs * d) by (nonlinear_arith) requires a > 0, fs > 0, d > 0;
    assert(q.bo * q.bd == 4) by (nonlinear_arith) requires q.bo == 4, q.bd == 1;
    assert(fs * (32 * d) == fd[1] * (fd[2] * (32 * d))) by (nonlinear_arith) requires fs == fd[1] * fd[2];
    assert(fs <= fs * id[3]) by (nonlinear_arith) requires fs > 0, id[3] > 0;
    assert(2 * fs <= fs * (32 * d)) by (nonlinear_arith) requires fs > 0, d > 0;
    assert(np > 0) by (nonlinear_arith) requires np == id[0] * od[1] * od[2], id[0] > 0, od[1] > 0, od[2] > 0;
    let nt = ntiles(&k);
    assert(nt * 2 <= np + 1 && nt * 2 <= nt * 2 * fs) by (nonlinear_arith) requires nt == (np + 2 - 1) / 2, np > 0, fs > 0;
    assert(np * k.output_channels == od[0] * od[1] * od[2] * p.channels_out);
    assert(g * oc * (fs * d) == fd[0] * fd[1] * fd[2] * fd[3]) by (nonlinear_arith) requires oc * g == fd[0], fs == fd[1] * fd[2], d == fd[3];
}
pub proof fn lemma_filled(k: &Kernel, a: Cv, b: Cv, od: Seq<i32>)
    requires filled_ok(k, a, od), b == (Cv { s: b.s, ..a })
    ensures filled_ok(k, b, od)
{
    let bp = k.block_size_pixels as int; let fs = k.filter_size as int;
    assert forall|q: int| 0 <= q < ntiles(k) * bp * fs implies entry_ok(b, od, bp, fs, k.num_output_pixels as int, q, #[trigger] k.indirection_buffer@[q]) by { assert(entry_ok(a, od, bp, fs, k.num_output_pixels as int, q, k.indirection_buffer@[q])); }
}
// new contents of the input leave everything an evaluation relies on in place
pub proof fn lemma_input_changed(ud: &OpData, c: Ctx, c2: Ctx, n: Node)
    requires op_ok(2, ud, c, n), only_input_changed(c, c2, n), node_ok(c2, n), apart(n)
    ensures op_ok(2, ud, c2, n)
{
    assert(n.inputs.size == 5);
    assert forall|k: int| 1 <= k < 5 implies #[trigger] in_t(c2, n, k) == in_t(c, n, k) by { assert(n.inputs.data@[k] != n.inputs.data@[0]); }
    assert(out_t(c2, n, 0) == out_t(c, n, 0)) by { assert(n.outputs.data@[0] != n.inputs.data@[0]); }
    assert(tdims(in_t(c2, n, 0)) == tdims(in_t(c, n, 0)) && in_t(c2, n, 0).type_v == in_t(c, n, 0).type_v && in_t(c2, n, 0).dims == in_t(c, n, 0).dims && in_t(c2, n, 0).allocation_type == in_t(c, n, 0).allocation_type);
    assert(conv_shaped(2, ud, c2, n)); assert(evaluable(ud, c2, n)); assert(setup_ok(ud, c, n) == setup_ok(ud, c2, n));
    if ud.indirect_bgemm_kernel__set {
        let k = ud.indirect_bgemm_kernel; let od = tdims(out_t(c, n, 0));
        lemma_filled(&k, ind_ci(ud, c, n), ind_ci(ud, c2, n), od);
        assert(flt_ptr(c2, n) == flt_ptr(c, n)); assert(k_dy(k, ud, c2, n));
        assert(k_geo(k, cv_of(ud, c2, n, false), od));
    }
}
// a successful preparation (its contract in convop.vs) puts the operator into that state again, whatever it did before
pub proof fn lemma_prepared(ud: &OpData, c: Ctx, n: Node)
    requires runnable(2, ud, c, n), ind_fits(ud, c, n), !ud.one_time_setup_complete, !ud.indirect_bgemm_kernel__set
    ensures op_ok(2, ud, c, n)
{ }
@@foreach S C T V in f:float:F32:F i:signed_char:i8:I b:int:i32:B
@@fn compute_engine::tflite::bconv2d::EvalOptIndirectBGEMM<$C>/3 as eval_ind_$S
@rlimit 60
@outmem output $T=out_w
@ghost out_w: &mut Mem<$T>
@ghostarg one_time_setup.kind = Ghost(2int)
@ghostarg conv_indirect_$S.heap = Ghost(ind_heap(op_data.indirect_bgemm_kernel, *context, *node))
@ghostarg conv_indirect_$S.c = Ghost(cv_of(op_data, *context, *node, false))
@ghostarg conv_indirect_$S.ci = Ghost(ind_ci(op_data, *context, *node))
@ghostarg conv_indirect_$S.zf = Ghost(conv_zf(op_data, in_t(*context, *node, 1)))
@ghostarg conv_indirect_$S.zm = Ghost(mult_ptr(in_t(*context, *node, 2)))
@requires
    op_ok(2, old(op_data), *old(context), *old(node)), is_$S(out_t(*old(context), *old(node), 0).type_v), old(out_w)@.len() == tcount(out_t(*old(context), *old(node), 0)),
@ensures
    *final(context) == *old(context), *final(node) == *old(node), op_ok(2, final(op_data), *old(context), *old(node)), final(op_data).params == old(op_data).params, final(op_data).one_time_setup_complete,
    all_$S(2, final(out_w)@, final(op_data), *old(context), *old(node)),
@start
    let ghost c0 = *context; let ghost n0 = *node;
    proof { lemma_runnable(2, op_data, *context, *node); }
@call pack_weights
    proof { lemma_fresh(op_data.indirect_bgemm_kernel, op_data, c0, n0, Shape { d: Ghost(tdims(in_t(c0, n0, 0))) }, Shape { d: Ghost(tdims(out_t(c0, n0, 0))) }); }
@call conv_indirect_$S
    proof { assert(kern_ok(op_data.indirect_bgemm_kernel, op_data, c0, n0)); }
@end
    proof {
        assert forall|q: int| 0 <= q < tcount(out_t(c0, n0, 0)) implies el_$S(2, #[trigger] out_w@[q], op_data, c0, n0, q) by {}
    }
@@end
@@fn compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::kOptimizedIndirectBGEMM>/2 as conv_eval_ind
@userdata compute_engine::tflite::bconv2d::OpData as ud
@ghost ud: &mut OpData
@ghost out_f: &mut Mem<F32>
@ghost out_i: &mut Mem<i8>
@ghost out_b: &mut Mem<i32>
@ghostarg eval_ind_f.out_w = out_f
@ghostarg eval_ind_i.out_w = out_i
@ghostarg eval_ind_b.out_w = out_b
@requires
    op_ok(2, old(ud), *old(context), *old(node)),
    ({ let o = out_t(*old(context), *old(node), 0); &&& is_f(o.type_v) ==> old(out_f)@.len() == tcount(o) &&& is_i(o.type_v) ==> old(out_i)@.len() == tcount(o) &&& is_b(o.type_v) ==> old(out_b)@.len() == tcount(o) }),
@ensures
    *final(context) == *old(context), *final(node) == *old(node), op_ok(2, final(ud), *old(context), *old(node)), final(ud).params == old(ud).params, final(ud).one_time_setup_complete, r == 0,
    ({ let o = out_t(*old(context), *old(node), 0);
        &&& is_f(o.type_v) ==> all_f(2, final(out_f)@, final(ud), *old(context), *old(node))
        &&& is_i(o.type_v) ==> all_i(2, final(out_i)@, final(ud), *old(context), *old(node))
        &&& is_b(o.type_v) ==> all_b(2, final(out_b)@, final(ud), *old(context), *old(node)) }),
