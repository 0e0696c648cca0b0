@@include tflop.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs contracts of zpad.vs
@@include zpad_link.vs contracts of zpad.vs
@@include flex.vs
@@include tfpad.vs
@@include convop_data.vs
@@include convsetup_core.vs contracts of convsetup.vs
@@include bgemm_conv.vs contracts of bgemm.vs
@@include conveval_data.vs
@@record compute_engine::core::indirect_bgemm::Kernel => Kern
@@extern tflite::CpuBackendContext::GetFromContext/1 => cpu_ctx
@@prelude
pub struct Kern { pub g: Ghost<int> }
#[verifier::external_body] pub fn cpu_ctx(c: &Ctx) -> (r: CpuCtx) { unimplemented!() }
// the parameters handed to TensorFlow Lite are 16 bits wide, one filter row has to fit into ruy's
pub open spec fn bg_fits(ud: &OpData, c: Ctx, n: Node) -> bool {
    let p = &ud.params; let fd = tdims(in_t(c, n, 1)); let od = tdims(out_t(c, n, 0));
    p.stride_height < 0x8000 && p.stride_width < 0x8000 && p.dilation_height_factor < 0x8000 && p.dilation_width_factor < 0x8000 && 0 <= p.padding_values.height < 0x8000 && 0 <= p.padding_values.width < 0x8000
    && fd[1] * fd[2] * fd[3] <= 0xff_ffff && (wants_im2col(1, p, fd) ==> tensor_ok(c.t@[ud.im2col_id as int]))
}
// what holds of the operator between calls after a successful preparation
pub open spec fn op_ok(kind: int, ud: &OpData, c: Ctx, n: Node) -> bool { runnable(kind, ud, c, n) && bg_fits(ud, c, n) && (ud.one_time_setup_complete ==> setup_ok(ud, c, n)) }
pub proof fn lemma_unit(kind: u32, n: int)
    requires kind == 1 || kind == 2, n >= 0
    ensures out_extent(kind, n, 1, 1, 1) == n, pad_total(n, 1, 1, 1, n) == 0
{ assert((n + 1 - 1) / 1 == n && n / 1 == n) by (nonlinear_arith); assert(eff(1, 1) == 1) by (nonlinear_arith); }
pub proof fn lemma_words_le(a: int, d: int)
    requires a >= 0, d >= 0
    ensures a * cdiv32(d) <= a * d
{ assert(cdiv32(d) <= d); assert(a * cdiv32(d) <= a * d) by (nonlinear_arith) requires a >= 0, cdiv32(d) <= d; }
pub proof fn lemma_bg(ud: &OpData, c: Ctx, n: Node)
    requires runnable(1, ud, c, n), bg_fits(ud, c, n)
    ensures ({ let p = &ud.params; let f = in_t(c, n, 1); let fd = tdims(f); let id = tdims(in_t(c, n, 0)); let od = tdims(out_t(c, n, 0)); let col = c.t@[ud.im2col_id as int];
        &&& p.groups == 1 &&& fd[3] == id[3] &&& size4(fd) == fd[0] * (fd[1] * fd[2] * fd[3])
        &&& (wants_im2col(1, p, fd) ==> ia_ok(col.dims) && tdims(col).len() == 4 && tcount(col) == size4(tdims(col)) && tdims(col) == im2col_dims(p, od, fd) && tdims(col) =~= colsd(od, tdims(col)[3]) && tdims(col)[3] == fd[1] * fd[2] * id[3])
        &&& (!wants_im2col(1, p, fd) ==> p.padding_values.height == 0 && p.padding_values.width == 0 && od[1] == id[1] && od[2] == id[2]) })
{
    lemma_runnable(1, ud, c, n);
    let p = &ud.params; let f = in_t(c, n, 1); let fd = tdims(f); let id = tdims(in_t(c, n, 0)); let od = tdims(out_t(c, n, 0)); let col = c.t@[ud.im2col_id as int];
    assert(p.groups == 1 && fd[3] == id[3]);
    assert(size4(fd) == fd[0] * (fd[1] * fd[2] * fd[3])) by (nonlinear_arith) requires size4(fd) == fd[0] * fd[1] * fd[2] * fd[3];
    if wants_im2col(1, p, fd) {
        reveal_with_fuel(prod, 6);
        assert(cdiv32(p.channels_in as int) * fd[1] * fd[2] == fd[1] * fd[2] * id[3]) by (nonlinear_arith) requires cdiv32(p.channels_in as int) == id[3];
        assert(cdiv32(p.channels_in as int) * fd[1] * fd[2] < BIG);
        assert(fd[1] * fd[2] * id[3] > 0) by (nonlinear_arith) requires fd[1] > 0, fd[2] > 0, id[3] > 0;
    } else {
        lemma_unit(p.padding_type, id[1] as int); lemma_unit(p.padding_type, id[2] as int);
        assert(conv_oh(p, id, fd) == id[1] && conv_ow(p, id, fd) == id[2]);
        assert(tdims(out_t(c, n, 0)) == conv_dims(p, in_t(c, n, 0), f, out_t(c, n, 0)));
        assert(p.padding_values == conv_pads(p, id, fd));
    }
}
// without padding by halves, that half does not matter
pub proof fn lemma_hz_ch(a: Cv, h: int, b: int, y: int, x: int, oc: int, fy: int, fx: int, n: int)
    ensures ch_acc(Cv { hz: h, ..a }, b, y, x, oc, fy, fx, n) == ch_acc(a, b, y, x, oc, fy, fx, n)
    decreases n
{ if n > 0 { lemma_hz_ch(a, h, b, y, x, oc, fy, fx, n - 1); } }
pub proof fn lemma_hz_row(a: Cv, h: int, b: int, y: int, x: int, oc: int, fy: int, n: int)
    requires !a.zp
    ensures row_acc(Cv { hz: h, ..a }, b, y, x, oc, fy, n) == row_acc(a, b, y, x, oc, fy, n)
    decreases n
{ if n > 0 { lemma_hz_row(a, h, b, y, x, oc, fy, n - 1); lemma_hz_ch(a, h, b, y, x, oc, fy, n - 1, a.fd[3] as int); } }
pub proof fn lemma_hz_win(a: Cv, h: int, b: int, y: int, x: int, oc: int, n: int)
    requires !a.zp
    ensures win_acc(Cv { hz: h, ..a }, b, y, x, oc, n) == win_acc(a, b, y, x, oc, n)
    decreases n
{ if n > 0 { lemma_hz_win(a, h, b, y, x, oc, n - 1); lemma_hz_row(a, h, b, y, x, oc, n - 1, a.fd[2] as int); } }
pub proof fn lemma_hz(a: Cv, h: int)
    requires !a.zp
    ensures forall|b: int, y: int, x: int, oc: int| #[trigger] conv(Cv { hz: h, ..a }, b, y, x, oc) == conv(a, b, y, x, oc)
{ assert forall|b: int, y: int, x: int, oc: int| #[trigger] conv(Cv { hz: h, ..a }, b, y, x, oc) == conv(a, b, y, x, oc) by { lemma_hz_win(a, h, b, y, x, oc, a.fd[1] as int); } }
@@foreach S C T in f:float:F32 i:signed_char:i8 b:int:i32
@@fn compute_engine::tflite::bconv2d::EvalOptBGEMM<int,$C>/3 as eval_bg_$S
@outmem output $T=out_w
@outmem im2col i32=col_w
@ghost out_w: &mut Mem<$T>
@ghost col_w: &mut Mem<i32>
@ghostarg one_time_setup.kind = Ghost(1int)
@ghostarg conv_bgemm_$S.zf = Ghost(conv_zf(op_data, in_t(*context, *node, 1)))
@ghostarg conv_bgemm_$S.zm = Ghost(mult_ptr(in_t(*context, *node, 2)))
@requires
    op_ok(1, old(op_data), *old(context), *old(node)), is_$S(out_t(*old(context), *old(node), 0).type_v), old(out_w)@.len() == tcount(out_t(*old(context), *old(node), 0)),
    wants_im2col(1, &old(op_data).params, tdims(in_t(*old(context), *old(node), 1))) ==> old(col_w)@.len() == tcount(old(context).t@[old(op_data).im2col_id as int]),
@ensures
    *final(context) == *old(context), *final(node) == *old(node), op_ok(1, final(op_data), *old(context), *old(node)), same_op(final(op_data), old(op_data)), final(op_data).one_time_setup_complete,
    all_$S(1, final(out_w)@, final(op_data), *old(context), *old(node)),
@start
    let ghost c0 = *context; let ghost n0 = *node;
    proof { let o = tdims(out_t(c0, n0, 0)); let ot = out_t(c0, n0, 0); let ft = in_t(c0, n0, 1); lemma_runnable(1, op_data, *context, *node); lemma_bg(op_data, c0, n0);
        if want_cache(op_data, ot) { assert(o == zod(conv_zf(op_data, ft), conv_zg(op_data, in_t(c0, n0, 0), ot))); }
        assert(ot.type_v != 2 ==> o.update(3, op_data.params.channels_out) =~= o);
        let a = o[0] * o[1] * o[2]; assert(a >= 0) by (nonlinear_arith) requires a == o[0] * o[1] * o[2], o[0] >= 0, o[1] >= 0, o[2] >= 0;
        lemma_words_le(a, o[3] as int); assert(tcount(out_t(c0, n0, 0)) == a * o[3]) by (nonlinear_arith) requires tcount(out_t(c0, n0, 0)) == size4(o), size4(o) == o[0] * o[1] * o[2] * o[3], a == o[0] * o[1] * o[2]; lemma_hz(cv_of(op_data, c0, n0, false), 0); }
@end
    proof {
        assert forall|q: int| 0 <= q < tcount(out_t(c0, n0, 0)) implies el_$S(1, #[trigger] out_w@[q], op_data, c0, n0, q) by {}
    }
@@end
@@prelude
// new contents of the input leave everything an evaluation relies on in place
pub proof fn lemma_input_changed(ud: &OpData, c: Ctx, c2: Ctx, n: Node)
    requires op_ok(1, ud, c, n), only_input_changed(c, c2, n), node_ok(c2, n), apart(n)
    ensures op_ok(1, ud, c2, n)
{
    let k0 = n.inputs.data@[0] as int;
    assert(n.inputs.size == 5);
    assert forall|k: int| 1 <= k < 5 implies #[trigger] in_t(c2, n, k) == in_t(c, n, k) by { assert(n.inputs.data@[k] != n.inputs.data@[0]); }
    assert(out_t(c2, n, 0) == out_t(c, n, 0)) by { assert(n.outputs.data@[0] != n.inputs.data@[0]); }
    assert(tdims(in_t(c2, n, 0)) == tdims(in_t(c, n, 0)) && in_t(c2, n, 0).type_v == in_t(c, n, 0).type_v && in_t(c2, n, 0).dims == in_t(c, n, 0).dims && in_t(c2, n, 0).allocation_type == in_t(c, n, 0).allocation_type);
    let u = ud.im2col_id as int;
    if wants_im2col(1, &ud.params, tdims(in_t(c, n, 1))) { assert(n.inputs.data@[0] != ud.im2col_id); assert(c2.t@[u] == c.t@[u]); }
    assert(conv_shaped(1, ud, c2, n)); assert(evaluable(ud, c2, n)); assert(setup_ok(ud, c, n) == setup_ok(ud, c2, n));
}
// a successful preparation (its contract in convop.vs) puts the operator into that state again, whatever it did before
pub proof fn lemma_prepared(ud: &OpData, c: Ctx, n: Node)
    requires runnable(1, ud, c, n), bg_fits(ud, c, n), !ud.one_time_setup_complete
    ensures op_ok(1, ud, c, n)
{ }
@@fn compute_engine::tflite::bconv2d::Eval<compute_engine::tflite::bconv2d::KernelType::kOptimizedBGEMM>/2 as conv_eval_bg
@userdata compute_engine::tflite::bconv2d::OpData as ud
@ghost ud: &mut OpData
@ghost out_f: &mut Mem<F32>
@ghost out_i: &mut Mem<i8>
@ghost out_b: &mut Mem<i32>
@ghost col_w: &mut Mem<i32>
@ghostarg eval_bg_f.out_w = out_f
@ghostarg eval_bg_f.col_w = col_w
@ghostarg eval_bg_i.col_w = col_w
@ghostarg eval_bg_b.col_w = col_w
@ghostarg eval_bg_i.out_w = out_i
@ghostarg eval_bg_b.out_w = out_b
@requires
    op_ok(1, old(ud), *old(context), *old(node)),
    wants_im2col(1, &old(ud).params, tdims(in_t(*old(context), *old(node), 1))) ==> old(col_w)@.len() == tcount(old(context).t@[old(ud).im2col_id as int]),
    ({ let o = out_t(*old(context), *old(node), 0); &&& is_f(o.type_v) ==> old(out_f)@.len() == tcount(o) &&& is_i(o.type_v) ==> old(out_i)@.len() == tcount(o) &&& is_b(o.type_v) ==> old(out_b)@.len() == tcount(o) }),
@ensures
    *final(context) == *old(context), *final(node) == *old(node), op_ok(1, final(ud), *old(context), *old(node)), same_op(final(ud), old(ud)), final(ud).one_time_setup_complete, r == 0,
    ({ let o = out_t(*old(context), *old(node), 0);
        &&& is_f(o.type_v) ==> all_f(1, final(out_f)@, final(ud), *old(context), *old(node))
        &&& is_i(o.type_v) ==> all_i(1, final(out_i)@, final(ud), *old(context), *old(node))
        &&& is_b(o.type_v) ==> all_b(1, final(out_b)@, final(ud), *old(context), *old(node)) }),
