@@include common.vs
@@include shape.vs
@@include otrans.vs
@@include conv.vs
@@prelude
pub open spec fn mkcv(p: &BConv2DParams, s: Seq<i32>, o: int, id: Seq<i32>, f: Seq<i32>, fo: int, fd: Seq<i32>) -> Cv {
    Cv { s, o, id, f, fo, fd, sh: p.stride_height as int, sw: p.stride_width as int, dh: p.dilation_height_factor as int, dw: p.dilation_width_factor as int,
         ph: p.padding_values.height as int, pw: p.padding_values.width as int, g: p.groups as int, zp: p.padding_type == 1 && p.pad_value == 0, hz: tdiv(tdiv(p.channels_in as int, p.groups as int), 2) }
}
pub open spec fn conv_ok(p: &BConv2DParams, i: Shape, f: Shape, o: Shape) -> bool {
    let id = i@; let fd = f@; let od = o@;
    shape4(i) && shape4(f) && shape4(o) && small4(i) && small4(f) && small4(o) && id[0] == od[0] && p.groups > 0 && fd[3] * p.groups == id[3]
    && tdiv(fd[0] as int, p.groups as int) * p.groups == fd[0] && bits_ok(fd) && fd[0] < 0x1000_0000
    && axis_ok(od[1] as int, p.stride_height as int, fd[1] as int, p.dilation_height_factor as int, p.padding_values.height as int, id[1] as int)
    && axis_ok(od[2] as int, p.stride_width as int, fd[2] as int, p.dilation_width_factor as int, p.padding_values.width as int, id[2] as int)
    && p.channels_in >= 0 && tdiv(p.channels_in as int, p.groups as int) <= 32 * fd[3]
}
// output words of one pixel already written after n channels
pub open spec fn nwr_f(n: int, oc: int) -> int { n }
pub open spec fn nwr_i(n: int, oc: int) -> int { n }
pub open spec fn nwr_b(n: int, oc: int) -> int { if n == oc { cdiv32(n) } else { n / 32 } }
pub open spec fn col_ok_f(w: i32, c: Cv, t: &OTF, b: int, y: int, x: int, n: int) -> bool { true }
pub open spec fn col_ok_i(w: i32, c: Cv, t: &OTI, b: int, y: int, x: int, n: int) -> bool { true }
// partially assembled output word after n channels
pub open spec fn col_ok_b(w: i32, c: Cv, t: &OTB, b: int, y: int, x: int, n: int) -> bool {
    n < c.fd[0] ==> forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w, k) == (k < n % 32 && out_bit(t, conv(c, b, y, x, 32 * (n / 32) + k), 32 * (n / 32) + k))
}
pub proof fn lemma_col0(c: Cv, t: &OTB, b: int, y: int, x: int)
    ensures col_ok_b(0i32, c, t, b, y, x, 0)
{ assert forall|k: int| 0 <= k < 32 implies !#[trigger] bit(0i32, k) by { lemma_bit_zero(k); } }
// one more channel: the column gains its bit; a complete column is an output word
pub proof fn lemma_col_step(w: i32, w2: i32, c: Cv, t: &OTB, b: int, y: int, x: int, n: int)
    requires col_ok_b(w, c, t, b, y, x, n), 0 <= n < c.fd[0],
        w2 == (if out_bit(t, conv(c, b, y, x, n), n) { w | sshl_i32(1, n % 32) } else { w })
    ensures (n + 1) % 32 == 0 || n + 1 == c.fd[0] ==> bits_word(w2, c, t, b, y, x, n / 32, c.fd[0] as int),
        (n + 1) % 32 != 0 ==> col_ok_b(w2, c, t, b, y, x, n + 1),
        (n + 1) % 32 == 0 || n + 1 == c.fd[0] ==> col_ok_b(0i32, c, t, b, y, x, n + 1)
{
    lemma_or_bit(w, n % 32);
    assert(n == 32 * (n / 32) + n % 32);
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w2, k) == (k <= n % 32 && out_bit(t, conv(c, b, y, x, 32 * (n / 32) + k), 32 * (n / 32) + k)) by {
        if k == n % 32 {} else {}
    }
    if (n + 1) % 32 == 0 || n + 1 == c.fd[0] {
        assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w2, k) == (32 * (n / 32) + k < c.fd[0] && out_bit(t, conv(c, b, y, x, 32 * (n / 32) + k), 32 * (n / 32) + k)) by { }
        assert forall|k: int| 0 <= k < 32 implies !#[trigger] bit(0i32, k) by { lemma_bit_zero(k); }
    }
    if (n + 1) % 32 != 0 { assert((n + 1) / 32 == n / 32 && (n + 1) % 32 == n % 32 + 1); }
}
@@foreach S C in f:float i:signed_char
@@fn compute_engine::core::bconv2d::BConv2DReference<int,$C,compute_engine::core::bconv2d::OutputTransformDetails::Default>/8 as bconv_ref_$S
@requires
    conv_ok(bconv2d_params, *packed_input_shape, *packed_filter_shape, *output_shape), ochan_$S(packed_filter_shape@, output_shape@),
    packed_input_data.ok(size4(packed_input_shape@)), packed_filter_data.ok(size4(packed_filter_shape@)), ot_ok_$S(output_transform, packed_filter_shape@[0] as int),
    0 <= output_data_o@, output_data_o@ + size4(output_shape@) <= old(output_data)@.len(),
@ensures
    final(output_data)@.len() == old(output_data)@.len(),
    forall|q: int| output_data_o@ <= q < output_data_o@ + size4(output_shape@) ==> okv_$S(#[trigger] final(output_data)@[q], mkcv(bconv2d_params, packed_input_data.s@, packed_input_data.o@, packed_input_shape@, packed_filter_data.s@, packed_filter_data.o@, packed_filter_shape@), output_transform, output_shape@, q - output_data_o@),
    forall|q: int| 0 <= q < final(output_data)@.len() && !(output_data_o@ <= q < output_data_o@ + size4(output_shape@)) ==> final(output_data)@[q] == old(output_data)@[q],
@start
    let ghost id = packed_input_shape@; let ghost fd = packed_filter_shape@; let ghost od = output_shape@; let ghost o0 = output_data_o@;
    let ghost cv = mkcv(bconv2d_params, packed_input_data.s@, packed_input_data.o@, id, packed_filter_data.s@, packed_filter_data.o@, fd);
    let ghost oldv = output_data@;
    proof { lemma_off4_carry(od, 0, 0, 0, 0); }
@loop 0 inv
    0 <= batch <= batches, output_data@.len() == oldv.len(),
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, 0, 0, 0) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
@loop 0 dec
    batches - batch
@loop 0 end
    proof { lemma_off4_carry(od, batch as int, od[1] as int, 0, 0); }
@loop 0.0 inv
    0 <= out_y <= output_height, output_data@.len() == oldv.len(), 0 <= batch < batches,
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, out_y as int, 0, 0) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
@loop 0.0 dec
    output_height - out_y
@loop 0.0 end
    proof { lemma_off4_carry(od, batch as int, out_y as int, od[2] as int, 0); }
@loop 0.0.0 inv
    0 <= out_x <= output_width, output_data@.len() == oldv.len(), 0 <= batch < batches, 0 <= out_y < output_height,
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, out_y as int, out_x as int, 0) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
@loop 0.0.0 dec
    output_width - out_x
@loop 0.0.0 begin
    let ghost wr = o0 + off4(od, batch as int, out_y as int, out_x as int, 0);
    proof {
        lemma_mono(out_y as int, od[1] as int, cv.sh); lemma_mono(out_x as int, od[2] as int, cv.sw);
        assert((od[1] - 1) * cv.sh <= od[1] * cv.sh && (od[2] - 1) * cv.sw <= od[2] * cv.sw) by (nonlinear_arith) requires cv.sh > 0, cv.sw > 0;
        assert forall|k: int| 0 <= k < 32 implies !#[trigger] bit(0i32, k) by { lemma_bit_zero(k); }
    }
@loop 0.0.0 end
    proof { lemma_off4_carry(od, batch as int, out_y as int, out_x as int, od[3] as int); }
@loop 0.0.0.0 inv
    0 <= out_channel <= output_depth, output_data@.len() == oldv.len(), 0 <= batch < batches, 0 <= out_y < output_height, 0 <= out_x < output_width,
    forall|q: int| o0 <= q < wr + nwr_$S(out_channel as int, output_depth as int) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
    col_ok_$S(bitpacked_column, cv, output_transform, batch as int, out_y as int, out_x as int, out_channel as int),
@loop 0.0.0.0 dec
    output_depth - out_channel
@loop 0.0.0.0 begin
    let ghost oc = out_channel as int; let ghost col0 = bitpacked_column; let ghost prev = output_data@;
    proof {
        lemma_group(fd[0] as int, cv.g, oc, output_depth_per_group as int);
        lemma_conv_bound(cv, batch as int, out_y as int, out_x as int, oc);
        lemma_win_bound(cv, batch as int, out_y as int, out_x as int, oc, fd[1] as int);
    }
@loop 0.0.0.0 end
    proof {
        assert(accum == conv(cv, batch as int, out_y as int, out_x as int, oc));
        lemma_coords(od, batch as int, out_y as int, out_x as int, oc);
        assert(off4(od, batch as int, out_y as int, out_x as int, oc) == off4(od, batch as int, out_y as int, out_x as int, 0) + oc);
    }
@loop 0.0.0.0.0 inv
    0 <= filter_y <= filter_height, accum == win_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int),
@loop 0.0.0.0.0 dec
    filter_height - filter_y
@loop 0.0.0.0.0 begin
    proof {
        lemma_win_bound(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int);
        lemma_mono(filter_y as int, fd[1] as int, cv.dh);
        assert((fd[1] - 1) * cv.dh <= fd[1] * cv.dh && cv.dh * filter_y == filter_y * cv.dh) by (nonlinear_arith) requires cv.dh > 0;
        assert(filter_y * (fd[2] * (32 * fd[3])) + fd[2] * (32 * fd[3]) <= fd[1] * (fd[2] * (32 * fd[3]))) by (nonlinear_arith) requires filter_y + 1 <= fd[1], 0 <= fd[2] * (32 * fd[3]);
        assert(0 <= fd[2] * (32 * fd[3])) by (nonlinear_arith) requires fd[2] >= 0, fd[3] >= 0;
    }
    let ghost a0 = accum as int;
@loop 0.0.0.0.0.0 inv
    0 <= filter_x <= filter_width, accum == a0 + row_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int),
@loop 0.0.0.0.0.0 dec
    filter_width - filter_x
@loop 0.0.0.0.0.0 begin
    proof {
        lemma_row_bound(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int);
        lemma_mono(filter_x as int, fd[2] as int, cv.dw);
        assert((fd[2] - 1) * cv.dw <= fd[2] * cv.dw && cv.dw * filter_x == filter_x * cv.dw) by (nonlinear_arith) requires cv.dw > 0;
        assert(filter_x * (32 * fd[3]) + 32 * fd[3] <= fd[2] * (32 * fd[3])) by (nonlinear_arith) requires filter_x + 1 <= fd[2], 0 <= 32 * fd[3];
        assert(row_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x + 1) == row_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int) + tap_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int));
    }
    let ghost a1 = accum as int;
@loop 0.0.0.0.0.0.0 inv
    0 <= in_channel <= input_depth_per_group, accum == a1 + ch_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int, in_channel as int),
@loop 0.0.0.0.0.0.0 dec
    input_depth_per_group - in_channel
@loop 0.0.0.0.0.0.0 begin
    proof {
        lemma_ch_bound(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int, in_channel as int);
        lemma_chan(tdiv(oc, output_depth_per_group as int), cv.g, fd[3] as int, id[3] as int, in_channel as int);
        if 0 <= in_y < id[1] && 0 <= in_x < id[2] { lemma_off4_bound(id, batch as int, in_y as int, in_x as int, group * fd[3] + in_channel); }
        lemma_off4_bound(fd, oc, filter_y as int, filter_x as int, in_channel as int);
    }
@@end
@@foreach S C in b:int
@@fn compute_engine::core::bconv2d::BConv2DReference<int,$C,compute_engine::core::bconv2d::OutputTransformDetails::Default>/8 as bconv_ref_$S
@requires
    conv_ok(bconv2d_params, *packed_input_shape, *packed_filter_shape, *output_shape), ochan_$S(packed_filter_shape@, output_shape@),
    packed_input_data.ok(size4(packed_input_shape@)), packed_filter_data.ok(size4(packed_filter_shape@)), ot_ok_$S(output_transform, packed_filter_shape@[0] as int),
    0 <= output_data_o@, output_data_o@ + size4(output_shape@) <= old(output_data)@.len(),
@ensures
    final(output_data)@.len() == old(output_data)@.len(),
    forall|q: int| output_data_o@ <= q < output_data_o@ + size4(output_shape@) ==> okv_$S(#[trigger] final(output_data)@[q], mkcv(bconv2d_params, packed_input_data.s@, packed_input_data.o@, packed_input_shape@, packed_filter_data.s@, packed_filter_data.o@, packed_filter_shape@), output_transform, output_shape@, q - output_data_o@),
    forall|q: int| 0 <= q < final(output_data)@.len() && !(output_data_o@ <= q < output_data_o@ + size4(output_shape@)) ==> final(output_data)@[q] == old(output_data)@[q],
@start
    let ghost id = packed_input_shape@; let ghost fd = packed_filter_shape@; let ghost od = output_shape@; let ghost o0 = output_data_o@;
    let ghost cv = mkcv(bconv2d_params, packed_input_data.s@, packed_input_data.o@, id, packed_filter_data.s@, packed_filter_data.o@, fd);
    let ghost oldv = output_data@;
    proof { lemma_off4_carry(od, 0, 0, 0, 0); }
@loop 0 inv
    0 <= batch <= batches, output_data@.len() == oldv.len(),
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, 0, 0, 0) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
@loop 0 dec
    batches - batch
@loop 0 end
    proof { lemma_off4_carry(od, batch as int, od[1] as int, 0, 0); }
@loop 0.0 inv
    0 <= out_y <= output_height, output_data@.len() == oldv.len(), 0 <= batch < batches,
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, out_y as int, 0, 0) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
@loop 0.0 dec
    output_height - out_y
@loop 0.0 end
    proof { lemma_off4_carry(od, batch as int, out_y as int, od[2] as int, 0); }
@loop 0.0.0 inv
    0 <= out_x <= output_width, output_data@.len() == oldv.len(), 0 <= batch < batches, 0 <= out_y < output_height,
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, out_y as int, out_x as int, 0) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
@loop 0.0.0 dec
    output_width - out_x
@loop 0.0.0 begin
    let ghost wr = o0 + off4(od, batch as int, out_y as int, out_x as int, 0);
    proof {
        lemma_mono(out_y as int, od[1] as int, cv.sh); lemma_mono(out_x as int, od[2] as int, cv.sw);
        assert((od[1] - 1) * cv.sh <= od[1] * cv.sh && (od[2] - 1) * cv.sw <= od[2] * cv.sw) by (nonlinear_arith) requires cv.sh > 0, cv.sw > 0;
        assert forall|k: int| 0 <= k < 32 implies !#[trigger] bit(0i32, k) by { lemma_bit_zero(k); }
    }
@loop 0.0.0 end
    proof { lemma_off4_carry(od, batch as int, out_y as int, out_x as int, od[3] as int); }
@loop 0.0.0.0 inv
    0 <= out_channel <= output_depth, output_data@.len() == oldv.len(), 0 <= batch < batches, 0 <= out_y < output_height, 0 <= out_x < output_width,
    forall|q: int| o0 <= q < wr + nwr_$S(out_channel as int, output_depth as int) ==> okv_$S(#[trigger] output_data@[q], cv, output_transform, od, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == oldv[q],
    col_ok_$S(bitpacked_column, cv, output_transform, batch as int, out_y as int, out_x as int, out_channel as int),
@loop 0.0.0.0 dec
    output_depth - out_channel
@loop 0.0.0.0 begin
    let ghost oc = out_channel as int; let ghost col0 = bitpacked_column; let ghost prev = output_data@;
    proof {
        lemma_group(fd[0] as int, cv.g, oc, output_depth_per_group as int);
        lemma_conv_bound(cv, batch as int, out_y as int, out_x as int, oc);
        lemma_win_bound(cv, batch as int, out_y as int, out_x as int, oc, fd[1] as int);
    }
@loop 0.0.0.0 end
    proof {
        assert(accum == conv(cv, batch as int, out_y as int, out_x as int, oc));
        lemma_col_step(col0, if out_bit(output_transform, accum as int, oc) { col0 | sshl_i32(1, oc % 32) } else { col0 }, cv, output_transform, batch as int, out_y as int, out_x as int, oc);
        lemma_coords(od, batch as int, out_y as int, out_x as int, oc / 32);
        assert(off4(od, batch as int, out_y as int, out_x as int, oc / 32) == off4(od, batch as int, out_y as int, out_x as int, 0) + oc / 32);
    }
@loop 0.0.0.0.0 inv
    0 <= filter_y <= filter_height, accum == win_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int),
@loop 0.0.0.0.0 dec
    filter_height - filter_y
@loop 0.0.0.0.0 begin
    proof {
        lemma_win_bound(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int);
        lemma_mono(filter_y as int, fd[1] as int, cv.dh);
        assert((fd[1] - 1) * cv.dh <= fd[1] * cv.dh && cv.dh * filter_y == filter_y * cv.dh) by (nonlinear_arith) requires cv.dh > 0;
        assert(filter_y * (fd[2] * (32 * fd[3])) + fd[2] * (32 * fd[3]) <= fd[1] * (fd[2] * (32 * fd[3]))) by (nonlinear_arith) requires filter_y + 1 <= fd[1], 0 <= fd[2] * (32 * fd[3]);
        assert(0 <= fd[2] * (32 * fd[3])) by (nonlinear_arith) requires fd[2] >= 0, fd[3] >= 0;
    }
    let ghost a0 = accum as int;
@loop 0.0.0.0.0.0 inv
    0 <= filter_x <= filter_width, accum == a0 + row_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int),
@loop 0.0.0.0.0.0 dec
    filter_width - filter_x
@loop 0.0.0.0.0.0 begin
    proof {
        lemma_row_bound(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int);
        lemma_mono(filter_x as int, fd[2] as int, cv.dw);
        assert((fd[2] - 1) * cv.dw <= fd[2] * cv.dw && cv.dw * filter_x == filter_x * cv.dw) by (nonlinear_arith) requires cv.dw > 0;
        assert(filter_x * (32 * fd[3]) + 32 * fd[3] <= fd[2] * (32 * fd[3])) by (nonlinear_arith) requires filter_x + 1 <= fd[2], 0 <= 32 * fd[3];
        assert(row_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x + 1) == row_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int) + tap_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int));
    }
    let ghost a1 = accum as int;
@loop 0.0.0.0.0.0.0 inv
    0 <= in_channel <= input_depth_per_group, accum == a1 + ch_acc(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int, in_channel as int),
@loop 0.0.0.0.0.0.0 dec
    input_depth_per_group - in_channel
@loop 0.0.0.0.0.0.0 begin
    proof {
        lemma_ch_bound(cv, batch as int, out_y as int, out_x as int, oc, filter_y as int, filter_x as int, in_channel as int);
        lemma_chan(tdiv(oc, output_depth_per_group as int), cv.g, fd[3] as int, id[3] as int, in_channel as int);
        if 0 <= in_y < id[1] && 0 <= in_x < id[2] { lemma_off4_bound(id, batch as int, in_y as int, in_x as int, group * fd[3] + in_channel); }
        lemma_off4_bound(fd, oc, filter_y as int, filter_x as int, in_channel as int);
    }
@@end
