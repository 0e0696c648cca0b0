@@nullable compute_engine::tflite::bconv2d::OpData.indirect_bgemm_kernel
@@prelude
// kinds of evaluation: 0 reference, 1 ruy BGEMM, 2 indirect BGEMM
pub open spec fn conv_groups(p: &BConv2DParams, fd: Seq<i32>) -> int { if fd[3] == cdiv32(p.channels_in as int) { 1 } else { cdiv32(p.channels_in as int) / (fd[3] as int) } }
pub open spec fn zero_pad(p: &BConv2DParams) -> bool { p.padding_type == 1 && p.pad_value == 0 }
pub open spec fn eff_h(p: &BConv2DParams, fd: Seq<i32>) -> int { eff(fd[1] as int, p.dilation_height_factor as int) }
pub open spec fn eff_w(p: &BConv2DParams, fd: Seq<i32>) -> int { eff(fd[2] as int, p.dilation_width_factor as int) }
// options a convolution can be evaluated with
pub open spec fn good_opts(p: &BConv2DParams) -> bool {
    p.stride_height > 0 && p.stride_width > 0 && p.dilation_height_factor > 0 && p.dilation_width_factor > 0 && p.padding_type != 0 && p.channels_in > 0
}
// how many channels there are in and out, and how they are grouped
pub open spec fn good_channels(kind: int, p: &BConv2DParams, id: Seq<i32>, fd: Seq<i32>) -> bool {
    id[3] == cdiv32(p.channels_in as int) && fd[1] > 0 && fd[2] > 0
    && (fd[3] == cdiv32(p.channels_in as int) || (kind != 1 && fd[3] > 0 && cdiv32(p.channels_in as int) % (fd[3] as int) == 0
        && (p.channels_in as int / (cdiv32(p.channels_in as int) / (fd[3] as int))) % 32 == 0 && fd[0] as int % (cdiv32(p.channels_in as int) / (fd[3] as int)) == 0))
}
pub open spec fn per_channel(t: Tensor, ty: u32, co: i32) -> bool { t.type_v == ty && t.dims.size == 1 && tdims(t)[0] == co }
pub open spec fn good_output(i: Tensor, f: Tensor, m: Tensor, b: Tensor, t: Tensor, o: Tensor) -> bool {
    (o.type_v == 1 || o.type_v == 9 || o.type_v == 2)
    && (o.type_v == 2 ==> per_channel(t, 2, tdims(f)[0])) && (o.type_v != 2 ==> per_channel(m, 1, tdims(f)[0]) && per_channel(b, 1, tdims(f)[0]))
    && (o.type_v == 9 ==> o.quantization.type_v == 1)
}
pub open spec fn good_zero_pad(kind: int, p: &BConv2DParams, act: u32, o: Tensor) -> bool {
    zero_pad(p) ==> if kind == 0 { p.channels_in % 2 == 0 } else { o.type_v == 1 && act == 0 }
}
// everything preparation has to check
pub open spec fn conv_conds(kind: int, ud: &OpData, c: Ctx, n: Node) -> bool {
    ud.successfully_initialized && n.inputs.size == 5 && ({
        let i = in_t(c, n, 0); let f = in_t(c, n, 1); let o = out_t(c, n, 0);
        &&& i.dims.size == 4 &&& f.dims.size == 4 &&& i.type_v == 2 &&& f.type_v == 2
        &&& good_opts(&ud.params) &&& good_channels(kind, &ud.params, tdims(i), tdims(f))
        &&& good_output(i, f, in_t(c, n, 2), in_t(c, n, 3), in_t(c, n, 4), o)
        &&& good_zero_pad(kind, &ud.params, ud.fused_activation_function, o)
        &&& (kind == 2 ==> i.allocation_type != 4) })
}
pub open spec fn conv_oh(p: &BConv2DParams, id: Seq<i32>, fd: Seq<i32>) -> int { out_extent(p.padding_type, id[1] as int, fd[1] as int, p.stride_height as int, p.dilation_height_factor as int) }
pub open spec fn conv_ow(p: &BConv2DParams, id: Seq<i32>, fd: Seq<i32>) -> int { out_extent(p.padding_type, id[2] as int, fd[2] as int, p.stride_width as int, p.dilation_width_factor as int) }
pub open spec fn conv_dims(p: &BConv2DParams, i: Tensor, f: Tensor, o: Tensor) -> Seq<i32> {
    seq![tdims(i)[0], conv_oh(p, tdims(i), tdims(f)) as i32, conv_ow(p, tdims(i), tdims(f)) as i32, if o.type_v == 2 { cdiv32(tdims(f)[0] as int) as i32 } else { tdims(f)[0] }]
}
pub open spec fn conv_pads(p: &BConv2DParams, id: Seq<i32>, fd: Seq<i32>) -> TfLitePaddingValues {
    pad_values(p.stride_height as int, p.stride_width as int, p.dilation_height_factor as int, p.dilation_width_factor as int, id[1] as int, id[2] as int, fd[1] as int, fd[2] as int, p.padding_type)
}
// the BGEMM path needs scratch space for the image-to-column transformation
pub open spec fn wants_im2col(kind: int, p: &BConv2DParams, fd: Seq<i32>) -> bool {
    kind == 1 && (p.stride_width != 1 || p.stride_height != 1 || p.dilation_width_factor != 1 || p.dilation_height_factor != 1 || fd[2] != 1 || fd[1] != 1)
}
pub open spec fn im2col_dims(p: &BConv2DParams, od: Seq<i32>, fd: Seq<i32>) -> Seq<i32> { seq![od[0], od[1], od[2], (cdiv32(p.channels_in as int) * fd[1] * fd[2]) as i32] }
// parameters and shapes as evaluation assumes them
pub open spec fn conv_shaped(kind: int, ud: &OpData, c: Ctx, n: Node) -> bool {
    let i = in_t(c, n, 0); let f = in_t(c, n, 1); let o = out_t(c, n, 0); let p = &ud.params;
    conv_conds(kind, ud, c, n) && tdims(o) == conv_dims(p, i, f, o) && p.padding_values == conv_pads(p, tdims(i), tdims(f))
    && p.channels_out == tdims(f)[0] && p.filter_height == tdims(f)[1] && p.filter_width == tdims(f)[2] && p.groups == conv_groups(p, tdims(f))
    && (if wants_im2col(kind, p, tdims(f)) { ud.im2col_index == 0 && n.temporaries.size >= 1 && n.temporaries.data@[0] == ud.im2col_id && im2col_apart(ud, n)
            && c.t@[ud.im2col_id as int].type_v == 2 && tdims(c.t@[ud.im2col_id as int]) == im2col_dims(p, tdims(o), tdims(f)) } else { ud.im2col_index == -1 })
}
pub open spec fn im2col_apart(ud: &OpData, n: Node) -> bool {
    ud.im2col_id >= 0 && (forall|k: int| 0 <= k < n.inputs.size ==> #[trigger] n.inputs.data@[k] != ud.im2col_id) && (forall|k: int| 0 <= k < n.outputs.size ==> #[trigger] n.outputs.data@[k] != ud.im2col_id)
}
// what holds of the operator's own data between calls
pub open spec fn data_ok(ud: &OpData, c: Ctx, n: Node) -> bool { ud.im2col_id == -1 || (ud.im2col_id < c.n@ && im2col_apart(ud, n) && c.t@[ud.im2col_id as int].id@ == ud.im2col_id) }
// assumed of a model's options and filter: sizes the arithmetic can handle
pub open spec fn small_conv(p: &BConv2DParams, fd: Seq<i32>) -> bool {
    p.stride_height < BIG && p.stride_width < BIG && p.dilation_height_factor < BIG && p.dilation_width_factor < BIG && p.channels_in < BIG && p.padding_type <= 2
    && (good_opts(p) && fd.len() == 4 && fd[1] > 0 && fd[2] > 0 ==> eff_h(p, fd) < BIG && eff_w(p, fd) < BIG && cdiv32(p.channels_in as int) * fd[1] * fd[2] < BIG)
}
pub proof fn lemma_depth(a: int, b: int, c: int) requires a > 0, b > 0, c > 0 ensures 0 < a * b <= a * b * c
{ assert(0 < a * b <= a * b * c) by (nonlinear_arith) requires a > 0, b > 0, c > 0; }
pub proof fn lemma_groups(a: int, b: int) requires a > 0, b > 0, a % b == 0 ensures a / b >= 1, a / b <= a
{ assert(a / b >= 1) by (nonlinear_arith) requires a > 0, b > 0, a % b == 0; assert(a / b <= a) by (nonlinear_arith) requires a > 0, b > 0; }
