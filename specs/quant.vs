@@include tflop.vs
@@include bitpack.vs contracts of bitpack.vs
@@include unpack.vs contracts of unpack.vs
@@need div F32
@@need round F32 F32 1
@@need cv F32 i32
@@need lit F32
@@extern tflite::TfLiteRound/1 => round_F32
@@assume the dequantize operator's int8 output scale is positive and not so small that 1/scale exceeds 2^30 (the conversion of a larger value to int is undefined)
@@prelude
pub open spec fn packed_dims(a: Seq<i32>, b: Seq<i32>) -> bool {
    b.len() == a.len() && a.len() >= 1 && (forall|k: int| 0 <= k < a.len() - 1 ==> b[k] == a[k]) && b[a.len() - 1] == cdiv32(a[a.len() - 1] as int)
}
pub open spec fn one_to_one(n: Node) -> bool { n.inputs.size == 1 && n.outputs.size == 1 }
// every condition under which quantization is defined
pub open spec fn q_conds(i: Tensor, o: Tensor) -> bool {
    (i.type_v == 1 || i.type_v == 9 || i.type_v == 6) && o.type_v == 2 && i.dims.size >= 1 && o.dims.size == i.dims.size
}
pub open spec fn q_ready(c: Ctx, n: Node) -> bool {
    one_to_one(n) && (in_t(c, n, 0).type_v == 1 || in_t(c, n, 0).type_v == 9 || in_t(c, n, 0).type_v == 6) && out_t(c, n, 0).type_v == 2 && packed_dims(tdims(in_t(c, n, 0)), tdims(out_t(c, n, 0)))
}
pub open spec fn dq_conds(i: Tensor, o: Tensor) -> bool {
    i.type_v == 2 && (o.type_v == 1 || o.type_v == 9 || o.type_v == 6) && packed_dims(tdims(o), tdims(i))
}
pub open spec fn dq_ready(c: Ctx, n: Node) -> bool { one_to_one(n) && dq_conds(in_t(c, n, 0), out_t(c, n, 0)) }
pub open spec fn qrows(t: Tensor) -> int { prod(tdims(t), tdims(t).len() - 1) }
pub open spec fn qcols(t: Tensor) -> int { tdims(t)[tdims(t).len() - 1] as int }
pub open spec fn inv_scale(s: F32) -> int { scv_F32_i32(sround_F32(sdiv_F32(slit_F32(1065353216), s))) as int }
// element p of the dequantized output: its row, column, word and bit
pub open spec fn qbit(w: Seq<i32>, cols: int, p: int) -> bool { bit(w[(p / cols) * cdiv32(cols) + (p % cols) / 32], (p % cols) % 32) }
pub proof fn lemma_qlast(d: Seq<i32>)
    requires d.len() >= 1
    ensures prod(d, d.len() as int) == prod(d, d.len() - 1) * d[d.len() - 1]
{ }
pub proof fn lemma_words(rows: int, cols: int)
    requires 0 <= rows, 0 <= cols
    ensures 0 <= rows * cdiv32(cols), rows * cdiv32(cols) <= rows * cols, rows * cols >= 0
{
    assert(cdiv32(cols) <= cols && cdiv32(cols) >= 0);
    assert(rows * cdiv32(cols) <= rows * cols) by (nonlinear_arith) requires 0 <= rows, cdiv32(cols) <= cols;
    assert(0 <= rows * cdiv32(cols)) by (nonlinear_arith) requires 0 <= rows, cdiv32(cols) >= 0;
    assert(rows * cols >= 0) by (nonlinear_arith) requires 0 <= rows, 0 <= cols;
}
@@foreach T in F32 i8 bool
@@prelude
pub proof fn lemma_flat_$T(out: Seq<$T>, w: Seq<i32>, rows: int, cols: int, zv: $T, ov: $T)
    requires rows >= 0, cols >= 0, forall|r: int| 0 <= r < rows ==> #[trigger] urow(out, 0, w, 0, cols, zv, ov, r)
    ensures forall|p: int| 0 <= p < rows * cols ==> #[trigger] out[p] == (if qbit(w, cols, p) { ov } else { zv })
{
    assert forall|p: int| 0 <= p < rows * cols implies #[trigger] out[p] == (if qbit(w, cols, p) { ov } else { zv }) by {
        assert(cols > 0) by (nonlinear_arith) requires 0 <= p < rows * cols, cols >= 0;
        let r = p / cols;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, cols);
        assert(r * cols == cols * r) by (nonlinear_arith);
        assert(0 <= r < rows) by (nonlinear_arith) requires 0 <= p < rows * cols, p == cols * r + p % cols, 0 <= p % cols < cols;
        assert(urow(out, 0, w, 0, cols, zv, ov, r));
        assert(p - r * cols == p % cols);
    }
}
@@end
@@fn compute_engine::tflite::QuantizePrepare/2 as q_prepare
@requires
    node_ok(*old(context), *old(node)),
@ensures
    *final(node) == *old(node), r <= 1,
    r == 0 ==> q_ready(*final(context), *final(node)) && in_t(*final(context), *old(node), 0) == in_t(*old(context), *old(node), 0),
    !(one_to_one(*old(node)) && q_conds(in_t(*old(context), *old(node), 0), out_t(*old(context), *old(node), 0))) ==> r != 0,
    (one_to_one(*old(node)) && q_conds(in_t(*old(context), *old(node), 0), out_t(*old(context), *old(node), 0))) ==> (exists|d: Seq<i32>| packed_dims(tdims(in_t(*old(context), *old(node), 0)), d) && (r == 0) == #[trigger] can_resize(out_t(*old(context), *old(node), 0).id@, d)),
@@fn compute_engine::tflite::DequantizePrepare/2 as dq_prepare
@requires
    node_ok(*old(context), *old(node)),
@ensures
    *final(node) == *old(node), *final(context) == *old(context), r <= 1,
    (r == 0) == dq_ready(*final(context), *final(node)),
@loop 0 inv
    0 <= i <= num_dims - 1, num_dims == input.dims.size, num_dims == output.dims.size, num_dims >= 1,
    forall|k: int| 0 <= k < i ==> tdims(output)[k] == tdims(*input)[k],
@loop 0 dec
    num_dims - i
@@fn compute_engine::tflite::QuantizeEval/2 as q_eval
@outmem output i32=out_w
@ghost out_w: &mut Mem<i32>
@requires
    node_ok(*old(context), *old(node)), q_ready(*old(context), *old(node)), old(out_w)@.len() == tcount(out_t(*old(context), *old(node), 0)),
@ensures
    r == 0, *final(context) == *old(context), *final(node) == *old(node), final(out_w)@.len() == old(out_w)@.len(),
    ({ let t = in_t(*old(context), *old(node), 0); &&& final(out_w)@.len() == qrows(t) * cdiv32(qcols(t))
        &&& (t.type_v == 1 ==> forall|r: int| 0 <= r < qrows(t) ==> #[trigger] row_F32(final(out_w)@, 0, contents::<F32>(t.mem@), 0, qcols(t), 0, r))
        &&& (t.type_v == 9 ==> forall|r: int| 0 <= r < qrows(t) ==> #[trigger] row_i8(final(out_w)@, 0, contents::<i8>(t.mem@), 0, qcols(t), t.params.zero_point as int, r))
        // a byte is below 1 exactly when the bool is false
        &&& (t.type_v == 6 ==> forall|r: int| 0 <= r < qrows(t) ==> #[trigger] row_u8(final(out_w)@, 0, contents::<u8>(t.mem@), 0, qcols(t), 1, r)) }),
@start
    proof {
        let t = in_t(*context, *node, 0); let o = out_t(*context, *node, 0);
        ax_stored(); ax_contents(t); lemma_qlast(tdims(t)); lemma_qlast(tdims(o)); lemma_prod_prefix(tdims(t), tdims(o), tdims(t).len() - 1);
        assert(tensor_ok(t)); assert(tensor_ok(o));
        assert(prod(tdims(t), tdims(t).len() as int) < BIG && prod(tdims(o), tdims(o).len() as int) < BIG && prod(tdims(t), tdims(t).len() - 1) < BIG);
        lemma_words(qrows(t), qcols(t));
    }
@@fn compute_engine::tflite::DequantizeEval/2 as dq_eval
@outmem output F32=out_f i8=out_b bool=out_t1
@ghost out_f: &mut Mem<F32>
@ghost out_b: &mut Mem<i8>
@ghost out_t1: &mut Mem<bool>
@requires
    node_ok(*old(context), *old(node)), dq_ready(*old(context), *old(node)),
    ({ let o = out_t(*old(context), *old(node), 0);
        &&& (o.type_v == 1 ==> old(out_f)@.len() == tcount(o)) &&& (o.type_v == 9 ==> old(out_b)@.len() == tcount(o)) &&& (o.type_v == 6 ==> old(out_t1)@.len() == tcount(o))
        &&& (o.type_v == 9 ==> -128 <= o.params.zero_point <= 127 && 0 <= inv_scale(o.params.scale) < 0x4000_0000) }),
@ensures
    r == 0, *final(context) == *old(context), *final(node) == *old(node),
    ({ let o = out_t(*old(context), *old(node), 0); let w = contents::<i32>(in_t(*old(context), *old(node), 0).mem@); let z = o.params.zero_point as int; let q = inv_scale(o.params.scale);
        &&& (o.type_v == 1 ==> final(out_f)@.len() == tcount(o) && forall|p: int| 0 <= p < tcount(o) ==> #[trigger] final(out_f)@[p] == (if qbit(w, qcols(o), p) { scv_i32_F32(-1i32) } else { scv_i32_F32(1i32) }))
        &&& (o.type_v == 9 ==> final(out_b)@.len() == tcount(o) && forall|p: int| 0 <= p < tcount(o) ==> #[trigger] final(out_b)@[p] == (if qbit(w, qcols(o), p) { imax(-128, z - q) } else { imin(127, z + q) }))
        &&& (o.type_v == 6 ==> final(out_t1)@.len() == tcount(o) && forall|p: int| 0 <= p < tcount(o) ==> #[trigger] final(out_t1)@[p] == !qbit(w, qcols(o), p))
        &&& (o.type_v != 1 ==> final(out_f)@ == old(out_f)@) &&& (o.type_v != 9 ==> final(out_b)@ == old(out_b)@) &&& (o.type_v != 6 ==> final(out_t1)@ == old(out_t1)@) }),
@start
    proof {
        let t = in_t(*context, *node, 0); let o = out_t(*context, *node, 0);
        ax_stored(); ax_contents(t); lemma_qlast(tdims(t)); lemma_qlast(tdims(o)); lemma_prod_prefix(tdims(t), tdims(o), tdims(t).len() - 1);
        assert(tensor_ok(t)); assert(tensor_ok(o));
        assert(prod(tdims(t), tdims(t).len() as int) < BIG && prod(tdims(o), tdims(o).len() as int) < BIG && prod(tdims(t), tdims(t).len() - 1) < BIG);
        lemma_words(qrows(o), qcols(o));
    }
@return
    proof {
        let o = out_t(*context, *node, 0); let w = contents::<i32>(in_t(*context, *node, 0).mem@); let z = o.params.zero_point as int; let q = inv_scale(o.params.scale);
        lemma_qlast(tdims(o));
        if o.type_v == 1 { lemma_flat_F32(out_f@, w, qrows(o), qcols(o), scv_i32_F32(1i32), scv_i32_F32(-1i32)); }
        if o.type_v == 9 { lemma_flat_i8(out_b@, w, qrows(o), qcols(o), imin(127, z + q) as i8, imax(-128, z - q) as i8); }
        if o.type_v == 6 { lemma_flat_bool(out_t1@, w, qrows(o), qcols(o), true, false); }
    }
