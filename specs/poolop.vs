@@include tflop.vs
@@include flex.vs
@@include tfpad.vs
@@include bmaxpool.vs contracts of bmaxpool.vs
@@prelude
pub open spec fn pool_dims(p: &BMaxPoolParams, i: Seq<i32>) -> Seq<i32> {
    seq![i[0], out_extent(p.padding_type, i[1] as int, p.filter_height as int, p.stride_height as int, 1) as i32, out_extent(p.padding_type, i[2] as int, p.filter_width as int, p.stride_width as int, 1) as i32, i[3]]
}
pub open spec fn pool_pads(p: &BMaxPoolParams, i: Seq<i32>) -> TfLitePaddingValues {
    pad_values(p.stride_height as int, p.stride_width as int, 1, 1, i[1] as int, i[2] as int, p.filter_height as int, p.filter_width as int, p.padding_type)
}
pub open spec fn small_opts(p: &BMaxPoolParams) -> bool {
    0 <= p.filter_height < BIG && 0 <= p.filter_width < BIG && 0 <= p.stride_height < BIG && 0 <= p.stride_width < BIG && p.padding_type <= 2
}
pub open spec fn pool_conds(p: &BMaxPoolParams, c: Ctx, n: Node) -> bool {
    n.inputs.size == 1 && n.outputs.size == 1 && in_t(c, n, 0).dims.size == 4 && in_t(c, n, 0).type_v == 2 && out_t(c, n, 0).type_v == 2
    && p.stride_height != 0 && p.stride_width != 0 && p.filter_height != 0 && p.filter_width != 0
}
// what preparation establishes for evaluation
pub open spec fn pool_ready(p: &BMaxPoolParams, c: Ctx, n: Node) -> bool {
    pool_conds(p, c, n) && small_opts(p) && tdims(out_t(c, n, 0)) == pool_dims(p, tdims(in_t(c, n, 0))) && p.padding == pool_pads(p, tdims(in_t(c, n, 0)))
}
pub open spec fn nonempty(t: Tensor) -> bool { forall|k: int| 0 <= k < tdims(t).len() ==> #[trigger] tdims(t)[k] > 0 }
pub proof fn lemma_small4(t: Tensor)
    requires tensor_ok(t), nonempty(t), t.dims.size == 4
    ensures tcount(t) == size4(tdims(t)), size4(tdims(t)) < BIG, tdims(t)[0] * tdims(t)[1] * tdims(t)[2] < BIG, tdims(t)[0] * tdims(t)[1] < BIG, tdims(t)[1] * tdims(t)[2] < BIG, tdims(t)[2] * tdims(t)[3] < BIG, size4(tdims(t)) >= 0
{
    let d = tdims(t); let a = d[0] as int; let b = d[1] as int; let c = d[2] as int; let e = d[3] as int;
    assert(a >= 1 && b >= 1 && c >= 1 && e >= 1);
    reveal_with_fuel(prod, 5);
    assert(prod(d, 4) == a * b * c * e && prod(d, 3) == a * b * c && prod(d, 2) == a * b);
    assert(prod(d, 4) < BIG && prod(d, 3) < BIG && prod(d, 2) < BIG);
    assert(b * c <= a * b * c) by (nonlinear_arith) requires a >= 1, b >= 1, c >= 1;
    assert(c * e <= a * b * c * e) by (nonlinear_arith) requires a >= 1, b >= 1, c >= 1, e >= 1;
}
@@need not i32
@@fn compute_engine::tflite::bmaxpool::Init/3 as pool_init
@retrec compute_engine::core::BMaxPoolParams
@ensures
    ({ let m = attrs(buffer, length);
        &&& r.filter_height == attr(m, 3630611313) &&& r.filter_width == attr(m, 2779494096) &&& r.stride_height == attr(m, 2888600398) &&& r.stride_width == attr(m, 1581847379)
        &&& (attr(m, 99885070) == 0 ==> r.padding_type == 1) &&& (attr(m, 99885070) == 1 ==> r.padding_type == 2) }),
@@fn compute_engine::tflite::bmaxpool::Prepare/2 as pool_prepare
@userdata compute_engine::core::BMaxPoolParams as ud
@ghost ud: &mut BMaxPoolParams
@requires
    node_ok(*old(context), *old(node)), small_opts(old(ud)),
@ensures
    *final(node) == *old(node), r <= 1,
    !pool_conds(old(ud), *old(context), *old(node)) ==> r != 0,
    pool_conds(old(ud), *old(context), *old(node)) ==> (r == 0) == can_resize(out_t(*old(context), *old(node), 0).id@, pool_dims(old(ud), tdims(in_t(*old(context), *old(node), 0)))),
    r == 0 ==> pool_ready(final(ud), *final(context), *final(node)) && in_t(*final(context), *old(node), 0) == in_t(*old(context), *old(node), 0),
    *final(ud) == (BMaxPoolParams { padding: final(ud).padding, ..*old(ud) }),
@start
    proof { let t = in_t(*context, *node, 0); if node.inputs.size == 1 { assert(tensor_ok(t)); } }
@return
    proof { let i = in_t(*context, *node, 0); if pool_conds(ud, *context, *node) { assert(context.req@[out_t(*context, *node, 0).id@] =~= pool_dims(ud, tdims(i))); } }
@@fn compute_engine::tflite::bmaxpool::Eval/2 as pool_eval
@userdata compute_engine::core::BMaxPoolParams as ud
@ghost ud: &mut BMaxPoolParams
@outmem output i32=out_w
@ghost out_w: &mut Mem<i32>
@requires
    node_ok(*old(context), *old(node)), pool_ready(old(ud), *old(context), *old(node)), old(out_w)@.len() == tcount(out_t(*old(context), *old(node), 0)),
    nonempty(in_t(*old(context), *old(node), 0)), nonempty(out_t(*old(context), *old(node), 0)),
@ensures
    r == 0, *final(context) == *old(context), *final(node) == *old(node), *final(ud) == *old(ud),
    ({ let i = in_t(*old(context), *old(node), 0); let o = out_t(*old(context), *old(node), 0);
        final(out_w)@.len() == tcount(o) && forall|q: int| 0 <= q < tcount(o) ==> #[trigger] final(out_w)@[q] == pool_val(contents::<i32>(i.mem@), 0, tdims(i), tdims(o), old(ud), q) }),
@start
    proof {
        let t = in_t(*context, *node, 0); let o = out_t(*context, *node, 0);
        ax_stored(); ax_contents(t); assert(tensor_ok(t)); assert(tensor_ok(o));
        lemma_small4(t); lemma_small4(o);
        lemma_extent(ud.padding_type, tdims(t)[1] as int, ud.filter_height as int, ud.stride_height as int, 1);
        lemma_extent(ud.padding_type, tdims(t)[2] as int, ud.filter_width as int, ud.stride_width as int, 1);
    }
