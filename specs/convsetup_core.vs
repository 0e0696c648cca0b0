@@extern tflite::CalculateActivationRange/3 => tf_act_range
@@assume CalculateActivationRange (TensorFlow Lite) yields the full int32 range for no activation, [0, max] for RELU, [-1, 1] for RELU_N1_TO_1 and [0, 6] for RELU6
@@assume double arithmetic is treated as mathematical (rounding ignored); the conversions between float and double are left uninterpreted
@@prelude
pub open spec fn act_lo(a: u32) -> int { if a == 1 || a == 3 { 0 } else if a == 2 { -1 } else { -0x8000_0000 } }
pub open spec fn act_hi(a: u32) -> int { if a == 3 { 6 } else if a == 2 { 1 } else { 0x7fff_ffff } }
#[verifier::external_body] pub fn tf_act_range(a: u32, lo: &mut i32, hi: &mut i32) ensures *final(lo) == act_lo(a), *final(hi) == act_hi(a) { unimplemented!() }
// number of +1/-1 products summed up for one output
pub open spec fn kdot(p: &BConv2DParams) -> int { p.filter_height * p.filter_width * tdiv(p.channels_in as int, p.groups as int) }
pub open spec fn out_scale(o: Tensor) -> real { if o.type_v == 9 { real_of_f32(o.params.scale) } else { 1real } }
pub open spec fn out_zero(o: Tensor) -> real { if o.type_v == 9 { (o.params.zero_point as int) as real } else { 0real } }
pub open spec fn fold_mult(m: real, s: real) -> real { (0real - m) / s }
pub open spec fn fold_bias(k: int, m: real, b: real, s: real, z: real) -> real { (b + (k as real) * m) / s + z }
pub proof fn lemma_fold_forms()
    ensures forall|m: real, s: real| s != 0real ==> #[trigger] fold_mult(m, s) == (((-1int) as real) * m) / s, forall|m: real, s: real| s != 0real ==> #[trigger] fold_mult(m, s) == 0real - m / s,
        forall|m: real, s: real| s != 0real ==> #[trigger] fold_mult(m, s) == ((-1int) as real) * (m / s)
{
    assert forall|m: real, s: real| s != 0real implies #[trigger] fold_mult(m, s) == (((-1int) as real) * m) / s && fold_mult(m, s) == 0real - m / s && fold_mult(m, s) == ((-1int) as real) * (m / s) by {
        let n = (-1int) as real; assert(n == 0real - 1real);
        assert((0real - m) / s == (n * m) / s && (0real - m) / s == 0real - m / s && (0real - m) / s == n * (m / s)) by (nonlinear_arith) requires n == 0real - 1real, s != 0real;
    }
}
// the stored output transform is the one that turns twice a bit count into the operator's output
pub open spec fn folded(ud: &OpData, m: Seq<F32>, b: Seq<F32>, o: Tensor) -> bool {
    let p = &ud.params; let k = kdot(p); let s = out_scale(o); let z = out_zero(o);
    ud.output_transform_clamp_min == k - imin(act_hi(ud.fused_activation_function), k) && ud.output_transform_clamp_max == k - imax(act_lo(ud.fused_activation_function), 0 - k)
    && ud.output_transform_multiplier@.len() >= p.channels_out && ud.output_transform_bias@.len() >= p.channels_out
    && (forall|i: int| 0 <= i < p.channels_out ==> #[trigger] ud.output_transform_multiplier@[i] == f32_of_real(fold_mult(real_of_f32(m[i]), s)))
    && (forall|i: int| 0 <= i < p.channels_out ==> #[trigger] ud.output_transform_bias@[i] == f32_of_real(fold_bias(k, real_of_f32(m[i]), real_of_f32(b[i]), s, z)))
}
// The clamp bounds say: clamp the dot product k - 2a to the activation range.  For every bit count 0 <= a <= k
// (m, b: post-activation multiplier and bias; s, z: output scale and zero point)
pub proof fn lemma_fold(k: int, a: int, act: u32, m: real, b: real, s: real, z: real)
    requires 0 <= a <= k, s != 0real, k < 0x4000_0000
    ensures ({ let lo = act_lo(act); let hi = act_hi(act); let x = clampi(2 * a, k - imin(hi, k), k - imax(lo, 0 - k)); let t = clampi(k - 2 * a, lo, hi);
        x == k - t && fold_mult(m, s) * (x as real) + fold_bias(k, m, b, s, z) == ((t as real) * m + b) / s + z })
{
    let lo = act_lo(act); let hi = act_hi(act); let x = clampi(2 * a, k - imin(hi, k), k - imax(lo, 0 - k)); let t = clampi(k - 2 * a, lo, hi);
    let xr = x as real; let kr = k as real; let tr = t as real;
    assert(xr == kr - tr);
    assert(((0real - m) / s) * xr + ((b + kr * m) / s + z) == (tr * m + b) / s + z) by (nonlinear_arith) requires s != 0real, xr == kr - tr;
}
// grouped filters cover the input channels exactly
pub proof fn lemma_cin_groups(cin: int, g: int, d: int)
    requires cin > 0, g > 0, d > 0, cdiv32(cin) == g * d, (cin / g) % 32 == 0
    ensures cin == g * (32 * d), cin / g == 32 * d, cdiv32(cin / g) == d
{
    let q = cin / g; let k = q / 32; let r = cin - q * g;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(cin, g);
    assert(q * g == g * q) by (nonlinear_arith);
    assert(0 <= r < g);
    assert(q == 32 * k);
    assert(q >= 0) by (nonlinear_arith) requires q * g + r == cin, r < g, cin > 0, g > 0;
    assert(q * g == 32 * (k * g)) by (nonlinear_arith) requires q == 32 * k;
    assert(k * g == g * k) by (nonlinear_arith);
    let u = cdiv32(r);
    assert(cdiv32(cin) == k * g + u && 0 <= u && (r > 0 ==> u >= 1) && u <= r);
    assert(g * d - g * k == g * (d - k)) by (nonlinear_arith);
    assert(d - k == 0) by (nonlinear_arith) requires g * (d - k) == u, 0 <= u < g;
}
pub open spec fn conv_geom_ok(p: &BConv2DParams, fd: Seq<i32>) -> bool {
    fd[0] > 0 && bits_ok(fd) && eff_h(p, fd) < BIG && eff_w(p, fd) < BIG
}
// the padding correction needs exact single-precision sums and an indexable cache
pub open spec fn zcache_fits(p: &BConv2DParams, fd: Seq<i32>) -> bool {
    fd[2] * (64 * fd[3]) <= 0x100_0000 && fd[1] * (fd[2] * (64 * fd[3])) <= 0x100_0000 && 4 * (eff_h(p, fd) * (eff_w(p, fd) * fd[0])) <= 0x7fff_ffff
}
pub open spec fn want_cache(ud: &OpData, o: Tensor) -> bool { o.type_v == 1 && zero_pad(&ud.params) }
pub open spec fn conv_zf(ud: &OpData, f: Tensor) -> Zf {
    let p = &ud.params;
    Zf { f: contents::<i32>(f.mem@), fo: 0, fd: seq![p.channels_out, p.filter_height, p.filter_width, cdiv32(tdiv(p.channels_in as int, p.groups as int)) as i32], ch: tdiv(p.channels_in as int, p.groups as int), dh: p.dilation_height_factor as int, dw: p.dilation_width_factor as int }
}
pub open spec fn mult_ptr(m: Tensor) -> CPtr<F32> { CPtr { s: Ghost(contents::<F32>(m.mem@)), o: Ghost(0int) } }
pub open spec fn setup_ok(ud: &OpData, c: Ctx, n: Node) -> bool {
    let o = out_t(c, n, 0);
    (o.type_v == 1 || o.type_v == 9 ==> folded(ud, contents::<F32>(in_t(c, n, 2).mem@), contents::<F32>(in_t(c, n, 3).mem@), o))
    && (want_cache(ud, o) ==> cache_ok(conv_zf(ud, in_t(c, n, 1)), mult_ptr(in_t(c, n, 2)), ud.padding_buffer@, 0))
}
// everything but the results of the one-time setup
pub open spec fn same_op(a: &OpData, b: &OpData) -> bool {
    a.params == b.params && a.fused_activation_function == b.fused_activation_function && a.indirect_bgemm_kernel == b.indirect_bgemm_kernel && a.indirect_bgemm_kernel__set == b.indirect_bgemm_kernel__set
    && a.im2col_id == b.im2col_id && a.im2col_index == b.im2col_index && a.successfully_initialized == b.successfully_initialized
}
// a model the arithmetic of an evaluation can handle
pub open spec fn evaluable(ud: &OpData, c: Ctx, n: Node) -> bool {
    let fd = tdims(in_t(c, n, 1)); let o = out_t(c, n, 0);
    small_conv(&ud.params, fd) && conv_geom_ok(&ud.params, fd) && (want_cache(ud, o) ==> zcache_fits(&ud.params, fd)) && (o.type_v == 9 ==> real_of_f32(o.params.scale) != 0real)
}
pub proof fn lemma_shaped(kind: int, ud: &OpData, c: Ctx, n: Node)
    requires node_ok(c, n), conv_shaped(kind, ud, c, n), evaluable(ud, c, n), n.outputs.size >= 1
    ensures ({ let p = &ud.params; let fd = tdims(in_t(c, n, 1)); let ch = tdiv(p.channels_in as int, p.groups as int);
        &&& p.groups > 0 &&& fd[3] * p.groups == cdiv32(p.channels_in as int) &&& cdiv32(ch) == fd[3] &&& 0 < ch <= 32 * fd[3] &&& ch <= p.channels_in &&& 0 < p.filter_height * p.filter_width < 0x2000_0000 &&& 0 < kdot(p) < 0x2000_0000
        &&& contents::<i32>(in_t(c, n, 1).mem@).len() == size4(fd) &&& fd.len() == 4 &&& size4(fd) < BIG &&& kdot(p) == fd[1] * (fd[2] * ch)
        &&& (out_t(c, n, 0).type_v != 2 ==> contents::<F32>(in_t(c, n, 2).mem@).len() == p.channels_out && contents::<F32>(in_t(c, n, 3).mem@).len() == p.channels_out)
        &&& (out_t(c, n, 0).type_v == 2 ==> contents::<i32>(in_t(c, n, 4).mem@).len() == p.channels_out)
        &&& (want_cache(ud, out_t(c, n, 0)) ==> zf_ok(conv_zf(ud, in_t(c, n, 1))) && conv_zf(ud, in_t(c, n, 1)).fd =~= fd) })
{
    let p = &ud.params; let f = in_t(c, n, 1); let fd = tdims(f); let g = p.groups as int; let cin = p.channels_in as int; let d = fd[3] as int; let w = cdiv32(cin); let o = out_t(c, n, 0);
    ax_stored();
    ax_contents(f); ax_contents(in_t(c, n, 2)); ax_contents(in_t(c, n, 3)); ax_contents(in_t(c, n, 4));
    assert(tensor_ok(f)); assert(tensor_ok(in_t(c, n, 2))); assert(tensor_ok(in_t(c, n, 3))); assert(tensor_ok(in_t(c, n, 4)));
    reveal_with_fuel(prod, 6);
    assert(prod(fd, 4) == size4(fd));
    let ch = tdiv(cin, g);
    if d == w { assert(g == 1); assert(cin / 1 == cin) by (nonlinear_arith); }
    else { assert(w % d == 0); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(w, d); assert(d * (w / d) == (w / d) * d) by (nonlinear_arith); assert(g == w / d);
        assert(g > 0) by (nonlinear_arith) requires g * d == w, w > 0, d > 0; lemma_cin_groups(cin, g, d); assert(ch == 32 * d); assert(ch <= cin) by (nonlinear_arith) requires cin == g * ch, g >= 1, ch >= 0; }
    assert(d * g == g * d) by (nonlinear_arith);
    let h = fd[1] as int; let v = fd[2] as int;
    assert(h * (v * (32 * d)) < 0x2000_0000);
    assert(0 < h * v && h * v <= h * (v * (32 * d))) by (nonlinear_arith) requires h > 0, v > 0, d > 0;
    assert(h * v * ch <= h * (v * (32 * d)) && 0 < h * v * ch && h * v * ch == h * (v * ch)) by (nonlinear_arith) requires h > 0, v > 0, 0 < ch <= 32 * d;
    if want_cache(ud, o) {
        let z = conv_zf(ud, f);
        assert(z.fd =~= fd);
        assert(eh(z) == eff_h(p, fd) && ew(z) == eff_w(p, fd));
    }
}
@@fn compute_engine::tflite::bconv2d::OneTimeSetup/3 as one_time_setup
@rlimit 60
@ghost kind: Ghost<int>
@requires
    node_ok(*old(context), *old(node)), conv_shaped(kind@, old(op_data), *old(context), *old(node)), evaluable(old(op_data), *old(context), *old(node)), old(node).outputs.size >= 1,
@ensures
    *final(context) == *old(context), *final(node) == *old(node), setup_ok(final(op_data), *old(context), *old(node)), final(op_data).one_time_setup_complete,
    same_op(final(op_data), old(op_data)),
@start
    let ghost c0 = *context; let ghost n0 = *node; let ghost u0 = *op_data; let ghost o = out_t(c0, n0, 0);
    proof { lemma_fold_forms(); lemma_shaped(kind@, op_data, c0, n0); let p = &op_data.params;
        lemma_depth(p.filter_height as int, p.filter_width as int, tdiv(p.channels_in as int, p.groups as int)); }
@loop 0 before
    let ghost pb1 = op_data.padding_buffer;
@loop 0 inv
    0 <= i <= u0.params.channels_out, same_op(op_data, &u0), op_data.padding_buffer == pb1,
    op_data.output_transform_multiplier@.len() >= u0.params.channels_out, op_data.output_transform_bias@.len() >= u0.params.channels_out,
    forall|j: int| 0 <= j < i ==> #[trigger] op_data.output_transform_multiplier@[j] == f32_of_real(fold_mult(real_of_f32(contents::<F32>(in_t(c0, n0, 2).mem@)[j]), out_scale(o))),
    forall|j: int| 0 <= j < i ==> #[trigger] op_data.output_transform_bias@[j] == f32_of_real(fold_bias(kdot(&u0.params), real_of_f32(contents::<F32>(in_t(c0, n0, 2).mem@)[j]), real_of_f32(contents::<F32>(in_t(c0, n0, 3).mem@)[j]), out_scale(o), out_zero(o))),
@loop 0 dec
    u0.params.channels_out - i
