@@assume between the preparation and the evaluations that follow it the filter, multiplier, bias and thresholds (constants of the model) keep their contents and the runtime moves no tensor; only the contents of the input change
@@prelude
pub open spec fn ox_h(p: &BConv2DParams, id: Seq<i32>, fd: Seq<i32>) -> bool { conv_oh(p, id, fd) * p.stride_height < BIG && fd[1] * p.dilation_height_factor < BIG && conv_oh(p, id, fd) >= 0 }
pub open spec fn ox_w(p: &BConv2DParams, id: Seq<i32>, fd: Seq<i32>) -> bool { conv_ow(p, id, fd) * p.stride_width < BIG && fd[2] * p.dilation_width_factor < BIG && conv_ow(p, id, fd) >= 0 }
pub open spec fn nonempty(t: Tensor) -> bool { tcount(t) > 0 }
// assumed of a prepared operator: nothing is empty and the sizes are within the range of the arithmetic
pub open spec fn runnable(kind: int, ud: &OpData, c: Ctx, n: Node) -> bool {
    let i = in_t(c, n, 0); let f = in_t(c, n, 1); let o = out_t(c, n, 0); let p = &ud.params;
    node_ok(c, n) && n.outputs.size >= 1 && conv_shaped(kind, ud, c, n) && evaluable(ud, c, n) && nonempty(i) && nonempty(o) && ox_h(p, tdims(i), tdims(f)) && ox_w(p, tdims(i), tdims(f))
    && tdims(o)[0] * tdims(o)[1] * tdims(o)[2] * p.channels_out <= 0x7fff_ffff && p.channels_out < BIG
}
// the convolution the node's tensors describe
pub open spec fn cv_of(ud: &OpData, c: Ctx, n: Node, zp: bool) -> Cv {
    let i = in_t(c, n, 0); let f = in_t(c, n, 1); let p = &ud.params;
    Cv { s: contents::<i32>(i.mem@), o: 0, id: tdims(i), f: contents::<i32>(f.mem@), fo: 0, fd: tdims(f), sh: p.stride_height as int, sw: p.stride_width as int, dh: p.dilation_height_factor as int, dw: p.dilation_width_factor as int,
        ph: p.padding_values.height as int, pw: p.padding_values.width as int, g: p.groups as int, zp, hz: tdiv(tdiv(p.channels_in as int, p.groups as int), 2) }
}
pub open spec fn vec_ptr(s: Seq<F32>) -> CPtr<F32> { CPtr { s: Ghost(s), o: Ghost(0int) } }
pub open spec fn ot_f(ud: &OpData) -> OTF { OTF { clamp_min: ud.output_transform_clamp_min, clamp_max: ud.output_transform_clamp_max, multiplier: vec_ptr(ud.output_transform_multiplier@), bias: vec_ptr(ud.output_transform_bias@) } }
pub open spec fn ot_i(ud: &OpData) -> OTI { OTI { clamp_min: ud.output_transform_clamp_min, clamp_max: ud.output_transform_clamp_max, multiplier: vec_ptr(ud.output_transform_multiplier@), bias: vec_ptr(ud.output_transform_bias@) } }
pub open spec fn ot_b(ud: &OpData, c: Ctx, n: Node) -> OTB { OTB { thresholds: CPtr { s: Ghost(contents::<i32>(in_t(c, n, 4).mem@)), o: Ghost(0int) } } }
pub open spec fn is_f(t: u32) -> bool { t == 1 }
pub open spec fn is_i(t: u32) -> bool { t == 9 }
pub open spec fn is_b(t: u32) -> bool { t == 2 }
// the image is padded with zeroes after the fact (optimized kernels)
pub open spec fn corrected(kind: int, ud: &OpData, o: Tensor) -> bool { kind != 0 && o.type_v == 1 && zero_pad(&ud.params) }
pub open spec fn conv_zg(ud: &OpData, i: Tensor, o: Tensor) -> Zg { Zg { nb: tdims(i)[0] as int, ih: tdims(i)[1] as int, iw: tdims(i)[2] as int, oh: tdims(o)[1] as int, ow: tdims(o)[2] as int, sr: ud.params.stride_height as int, sc: ud.params.stride_width as int } }
// an output element is what the definition says for the current contents of the node's tensors
pub open spec fn el_f(kind: int, v: F32, ud: &OpData, c: Ctx, n: Node, q: int) -> bool {
    let od = tdims(out_t(c, n, 0));
    if corrected(kind, ud, out_t(c, n, 0)) { okz_f(v, cv_of(ud, c, n, false), &ot_f(ud), mult_ptr(in_t(c, n, 2)), conv_zf(ud, in_t(c, n, 1)), conv_zg(ud, in_t(c, n, 0), out_t(c, n, 0)), od, q) }
    else { okv_f(v, cv_of(ud, c, n, zero_pad(&ud.params)), &ot_f(ud), od, q) }
}
pub open spec fn el_i(kind: int, v: i8, ud: &OpData, c: Ctx, n: Node, q: int) -> bool { okv_i(v, cv_of(ud, c, n, zero_pad(&ud.params)), &ot_i(ud), tdims(out_t(c, n, 0)), q) }
pub open spec fn el_b(kind: int, v: i32, ud: &OpData, c: Ctx, n: Node, q: int) -> bool { okv_b(v, cv_of(ud, c, n, zero_pad(&ud.params)), &ot_b(ud, c, n), tdims(out_t(c, n, 0)), q) }
pub open spec fn all_f(kind: int, s: Seq<F32>, ud: &OpData, c: Ctx, n: Node) -> bool { s.len() == tcount(out_t(c, n, 0)) && forall|q: int| 0 <= q < tcount(out_t(c, n, 0)) ==> el_f(kind, #[trigger] s[q], ud, c, n, q) }
pub open spec fn all_i(kind: int, s: Seq<i8>, ud: &OpData, c: Ctx, n: Node) -> bool { s.len() == tcount(out_t(c, n, 0)) && forall|q: int| 0 <= q < tcount(out_t(c, n, 0)) ==> el_i(kind, #[trigger] s[q], ud, c, n, q) }
pub open spec fn all_b(kind: int, s: Seq<i32>, ud: &OpData, c: Ctx, n: Node) -> bool { s.len() == tcount(out_t(c, n, 0)) && forall|q: int| 0 <= q < tcount(out_t(c, n, 0)) ==> el_b(kind, #[trigger] s[q], ud, c, n, q) }
pub proof fn lemma_dims4(t: Tensor)
    requires tensor_ok(t), tdims(t).len() == 4, nonempty(t)
    ensures tcount(t) == size4(tdims(t)), 0 < size4(tdims(t)) < BIG, forall|k: int| 0 <= k < 4 ==> #[trigger] tdims(t)[k] > 0,
        ({ let d = tdims(t); d[0] * d[1] * d[2] <= 0x7fff_ffff && d[0] * d[1] <= 0x7fff_ffff && d[1] * d[2] <= 0x7fff_ffff && d[2] * d[3] <= 0x7fff_ffff })
{
    let d = tdims(t); let a = d[0] as int; let b = d[1] as int; let c = d[2] as int; let e = d[3] as int;
    reveal_with_fuel(prod, 6);
    assert(prod(d, 4) == a * b * c * e && prod(d, 3) == a * b * c && prod(d, 2) == a * b);
    assert(a > 0 && b > 0 && c > 0 && e > 0) by (nonlinear_arith) requires a >= 0, b >= 0, c >= 0, e >= 0, a * b * c * e > 0;
    assert(prod(d, 4) < BIG && prod(d, 3) < BIG && prod(d, 2) < BIG);
    assert(b * c <= a * b * c) by (nonlinear_arith) requires a >= 1, b >= 1, c >= 1;
    assert(c * e <= a * b * c * e) by (nonlinear_arith) requires a >= 1, b >= 1, c >= 1, e >= 1;
}
// facts every path needs
pub proof fn lemma_runnable(kind: int, ud: &OpData, c: Ctx, n: Node)
    requires runnable(kind, ud, c, n)
    ensures ({ let i = in_t(c, n, 0); let f = in_t(c, n, 1); let o = out_t(c, n, 0); let p = &ud.params; let id = tdims(i); let fd = tdims(f); let od = tdims(o); let ch = tdiv(p.channels_in as int, p.groups as int);
        &&& id.len() == 4 &&& fd.len() == 4 &&& od.len() == 4 &&& od == conv_dims(p, i, f, o) &&& contents::<i32>(i.mem@).len() == size4(id) &&& size4(id) < BIG &&& contents::<i32>(f.mem@).len() == size4(fd) &&& size4(fd) < BIG &&& tcount(o) == size4(od) &&& size4(od) < BIG
        &&& id[0] > 0 && id[1] > 0 && id[2] > 0 && id[3] > 0 && od[0] > 0 && od[1] > 0 && od[2] > 0 && od[3] > 0 && fd[0] > 0 && fd[1] > 0 && fd[2] > 0 && fd[3] > 0
        &&& p.channels_out == fd[0] &&& p.filter_height == fd[1] &&& p.filter_width == fd[2] &&& p.groups > 0 &&& fd[3] * p.groups == id[3] &&& tdiv(fd[0] as int, p.groups as int) * p.groups == fd[0] &&& od[0] == id[0]
        &&& id[0] * id[1] * id[2] <= 0x7fff_ffff && id[0] * id[1] <= 0x7fff_ffff && id[1] * id[2] <= 0x7fff_ffff && id[2] * id[3] <= 0x7fff_ffff
        &&& od[0] * od[1] * od[2] <= 0x7fff_ffff && od[0] * od[1] <= 0x7fff_ffff && od[1] * od[2] <= 0x7fff_ffff && od[2] * od[3] <= 0x7fff_ffff
        &&& fd[0] * fd[1] * fd[2] <= 0x7fff_ffff && fd[0] * fd[1] <= 0x7fff_ffff && fd[1] * fd[2] <= 0x7fff_ffff && fd[2] * fd[3] <= 0x7fff_ffff
        &&& axis_ok(od[1] as int, p.stride_height as int, fd[1] as int, p.dilation_height_factor as int, p.padding_values.height as int, id[1] as int)
        &&& axis_ok(od[2] as int, p.stride_width as int, fd[2] as int, p.dilation_width_factor as int, p.padding_values.width as int, id[2] as int)
        &&& 0 < ch <= 32 * fd[3] &&& bits_ok(fd)
        &&& (o.type_v != 2 ==> contents::<F32>(in_t(c, n, 2).mem@).len() == p.channels_out && od[3] == fd[0]) &&& (o.type_v == 2 ==> contents::<i32>(in_t(c, n, 4).mem@).len() == p.channels_out && od[3] == cdiv32(fd[0] as int))
        &&& (want_cache(ud, o) ==> zlinked(conv_zf(ud, f), conv_zg(ud, i, o), cv_of(ud, c, n, false)) && od =~= zod(conv_zf(ud, f), conv_zg(ud, i, o))) })
{
    let i = in_t(c, n, 0); let f = in_t(c, n, 1); let o = out_t(c, n, 0); let p = &ud.params; let id = tdims(i); let fd = tdims(f); let od = tdims(o); let g = p.groups as int;
    lemma_shaped(kind, ud, c, n);
    ax_stored(); ax_contents(i); ax_contents(o);
    assert(tensor_ok(i)); assert(tensor_ok(f)); assert(tensor_ok(o));
    assert(od.len() == 4);
    lemma_dims4(i); lemma_dims4(o);
    assert(g * fd[3] == fd[3] * g) by (nonlinear_arith);
    assert(fd[3] > 0) by (nonlinear_arith) requires fd[3] * g == id[3], id[3] > 0, g > 0, fd[3] >= 0;
    assert(tcount(f) > 0) by { reveal_with_fuel(prod, 6); let a = fd[0] as int; let b = fd[1] as int; let x = fd[2] as int; let e = fd[3] as int; assert(tcount(f) == a * b * x * e); assert(a * b * x * e > 0) by (nonlinear_arith) requires a > 0, b > 0, x > 0, e > 0; }
    lemma_dims4(f);
    lemma_extent(p.padding_type, id[1] as int, fd[1] as int, p.stride_height as int, p.dilation_height_factor as int);
    lemma_extent(p.padding_type, id[2] as int, fd[2] as int, p.stride_width as int, p.dilation_width_factor as int);
    assert(od[1] * p.stride_height >= 0 && od[2] * p.stride_width >= 0 && fd[1] * p.dilation_height_factor >= 0 && fd[2] * p.dilation_width_factor >= 0) by (nonlinear_arith) requires od[1] > 0, od[2] > 0, p.stride_height > 0, p.stride_width > 0, fd[1] > 0, fd[2] > 0, p.dilation_height_factor > 0, p.dilation_width_factor > 0;
    if g != 1 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(fd[0] as int, g);
        assert(g * (fd[0] as int / g) == (fd[0] as int / g) * g) by (nonlinear_arith);
    } else { let q = fd[0] as int / 1; assert(q == fd[0] as int) by (nonlinear_arith) requires q == fd[0] as int / 1; assert(q * 1 == q) by (nonlinear_arith); assert(tdiv(fd[0] as int, p.groups as int) == q); assert(tdiv(fd[0] as int, p.groups as int) * p.groups == q * 1); }
    if want_cache(ud, o) {
        let z = conv_zf(ud, f); let zg = conv_zg(ud, i, o);
        assert(eh(z) == eff_h(p, fd) && ew(z) == eff_w(p, fd));
    }
}
// changing what the input holds keeps all that evaluation relies on
pub open spec fn only_input_changed(a: Ctx, b: Ctx, n: Node) -> bool {
    b.n@ == a.n@ && b.t@.dom() == a.t@.dom() && (forall|k: int| k != n.inputs.data@[0] ==> #[trigger] b.t@[k] == a.t@[k]) && b.t@[n.inputs.data@[0] as int] == (Tensor { mem: b.t@[n.inputs.data@[0] as int].mem, ..a.t@[n.inputs.data@[0] as int] })
}
pub open spec fn apart(n: Node) -> bool {
    n.inputs.size == 5 && n.outputs.size >= 1 && (forall|k: int| 1 <= k < 5 ==> #[trigger] n.inputs.data@[k] != n.inputs.data@[0]) && (forall|k: int| 0 <= k < n.outputs.size ==> #[trigger] n.outputs.data@[k] != n.inputs.data@[0])
}
@@foreach S C in f:float i:signed_char
@@fn compute_engine::tflite::bconv2d::GetOutputTransform<$C>/4 as get_ot_$S
@ensures
    *final(output_transform) == ot_$S(old(op_data)), *final(context) == *old(context), *final(node) == *old(node), *final(op_data) == *old(op_data),
@@end
@@fn compute_engine::tflite::bconv2d::GetOutputTransform/4 as get_ot_b
@requires
    old(node).inputs.size == 5,
@ensures
    *final(output_transform) == ot_b(old(op_data), *old(context), *old(node)), *final(context) == *old(context), *final(node) == *old(node), *final(op_data) == *old(op_data),
