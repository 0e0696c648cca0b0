@@include common.vs
@@include shape.vs
@@prelude
pub open spec fn tap(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y: int, x: int, c: int) -> i32 {
    if 0 <= y < d[1] && 0 <= x < d[2] { s[o + off4(d, b, y, x, c)] } else { -1i32 }
}
// AND of the first nx taps of window row y
pub open spec fn row_and(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y: int, x0: int, c: int, nx: int) -> i32 decreases nx {
    if nx <= 0 { -1i32 } else { row_and(s, o, d, b, y, x0, c, nx - 1) & tap(s, o, d, b, y, x0 + nx - 1, c) }
}
// AND of the first ny rows (of width nx) of the window whose corner is (y0, x0);
// taps outside the image contribute nothing
pub open spec fn win_and(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y0: int, x0: int, c: int, ny: int, nx: int) -> i32 decreases ny {
    if ny <= 0 { -1i32 } else { win_and(s, o, d, b, y0, x0, c, ny - 1, nx) & row_and(s, o, d, b, y0 + ny - 1, x0, c, nx) }
}
pub proof fn lemma_and_ones(a: i32) ensures a & -1i32 == a, -1i32 & a == a, !0i32 == -1i32
{ assert(a & -1i32 == a) by (bit_vector); assert(-1i32 & a == a) by (bit_vector); assert(!0i32 == -1i32) by (bit_vector); }
pub proof fn lemma_and_assoc(a: i32, b: i32, c: i32) ensures (a & b) & c == a & (b & c)
{ assert((a & b) & c == a & (b & c)) by (bit_vector); }
// taps beyond the image edge do not change a row
pub proof fn lemma_row_and_out(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y: int, x0: int, c: int, m: int, n: int)
    requires 0 <= m <= n, forall|j: int| m <= j < n ==> !(0 <= y < d[1] && 0 <= #[trigger] (x0 + j) < d[2])
    ensures row_and(s, o, d, b, y, x0, c, n) == row_and(s, o, d, b, y, x0, c, m)
    decreases n - m
{
    if m < n {
        assert(!(0 <= y < d[1] && 0 <= (x0 + (n - 1)) < d[2]));
        lemma_row_and_out(s, o, d, b, y, x0, c, m, n - 1);
        lemma_and_ones(row_and(s, o, d, b, y, x0, c, n - 1));
    }
}
pub proof fn lemma_win_and_out(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y0: int, x0: int, c: int, m: int, n: int, nx: int)
    requires 0 <= m <= n, 0 <= nx, forall|j: int| m <= j < n ==> !(0 <= #[trigger] (y0 + j) < d[1])
    ensures win_and(s, o, d, b, y0, x0, c, n, nx) == win_and(s, o, d, b, y0, x0, c, m, nx)
    decreases n - m
{
    if m < n {
        assert(!(0 <= (y0 + (n - 1)) < d[1]));
        lemma_win_and_out(s, o, d, b, y0, x0, c, m, n - 1, nx);
        lemma_row_and_out(s, o, d, b, y0 + n - 1, x0, c, 0, nx);
        lemma_and_ones(win_and(s, o, d, b, y0, x0, c, n - 1, nx));
    }
}
// the bit-level reading: bit k of the window AND is 0 exactly when some tap
// inside the image has bit k equal to 0
pub proof fn lemma_and_bit(a: i32, b: i32, k: int) requires 0 <= k < 32 ensures bit(a & b, k) == (bit(a, k) && bit(b, k)), bit(-1i32, k)
{
    let k2 = k as u32; let ua = a as u32; let ub = b as u32;
    assert(((a & b) as u32) == (ua & ub)) by (bit_vector) requires ua == a as u32, ub == b as u32;
    assert((((ua & ub) >> k2) & 1u32 == 1u32) == (((ua >> k2) & 1u32 == 1u32) && ((ub >> k2) & 1u32 == 1u32))) by (bit_vector);
    assert((-1i32) as u32 == 0xffffffffu32) by (bit_vector);
    assert((0xffffffffu32 >> k2) & 1u32 == 1u32) by (bit_vector) requires k2 < 32;
}
pub proof fn lemma_row_meaning(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y: int, x0: int, c: int, nx: int, k: int)
    requires 0 <= k < 32
    ensures bit(row_and(s, o, d, b, y, x0, c, nx), k) <==> (forall|j: int| 0 <= j < nx ==> bit(#[trigger] tap(s, o, d, b, y, x0 + j, c), k))
    decreases nx
{
    if nx <= 0 { lemma_and_bit(0, 0, k); }
    else { lemma_row_meaning(s, o, d, b, y, x0, c, nx - 1, k); lemma_and_bit(row_and(s, o, d, b, y, x0, c, nx - 1), tap(s, o, d, b, y, x0 + nx - 1, c), k);
        if bit(row_and(s, o, d, b, y, x0, c, nx), k) { assert forall|j: int| 0 <= j < nx implies bit(#[trigger] tap(s, o, d, b, y, x0 + j, c), k) by { if j == nx - 1 {} else {} } }
        else if forall|j: int| 0 <= j < nx ==> bit(#[trigger] tap(s, o, d, b, y, x0 + j, c), k) { assert(bit(tap(s, o, d, b, y, x0 + (nx - 1), c), k)); assert(false); }
    }
}
pub proof fn lemma_win_meaning(s: Seq<i32>, o: int, d: Seq<i32>, b: int, y0: int, x0: int, c: int, ny: int, nx: int, k: int)
    requires 0 <= k < 32
    ensures !bit(win_and(s, o, d, b, y0, x0, c, ny, nx), k) <==> (exists|i: int, j: int| 0 <= i < ny && 0 <= j < nx && 0 <= y0 + i < d[1] && 0 <= x0 + j < d[2] && !bit(#[trigger] tap(s, o, d, b, y0 + i, x0 + j, c), k))
    decreases ny
{
    lemma_and_bit(0, 0, k);
    if ny > 0 {
        lemma_win_meaning(s, o, d, b, y0, x0, c, ny - 1, nx, k);
        lemma_row_meaning(s, o, d, b, y0 + ny - 1, x0, c, nx, k);
        lemma_and_bit(win_and(s, o, d, b, y0, x0, c, ny - 1, nx), row_and(s, o, d, b, y0 + ny - 1, x0, c, nx), k);
        if !bit(win_and(s, o, d, b, y0, x0, c, ny, nx), k) {
            if !bit(win_and(s, o, d, b, y0, x0, c, ny - 1, nx), k) {
                let (i, j) = choose|i: int, j: int| 0 <= i < ny - 1 && 0 <= j < nx && 0 <= y0 + i < d[1] && 0 <= x0 + j < d[2] && !bit(#[trigger] tap(s, o, d, b, y0 + i, x0 + j, c), k);
                assert(0 <= i < ny && !bit(tap(s, o, d, b, y0 + i, x0 + j, c), k));
            } else {
                let j = choose|j: int| 0 <= j < nx && !bit(#[trigger] tap(s, o, d, b, y0 + ny - 1, x0 + j, c), k);
                let i = ny - 1;
                assert(y0 + i == y0 + ny - 1);
                assert(!bit(tap(s, o, d, b, y0 + i, x0 + j, c), k));
            }
        } else {
            assert forall|i: int, j: int| 0 <= i < ny && 0 <= j < nx && 0 <= y0 + i < d[1] && 0 <= x0 + j < d[2] implies bit(#[trigger] tap(s, o, d, b, y0 + i, x0 + j, c), k) by {
                if i == ny - 1 { assert(y0 + i == y0 + ny - 1); } else { }
            }
        }
    }
}
pub open spec fn pool_val(s: Seq<i32>, o: int, id: Seq<i32>, od: Seq<i32>, p: &BMaxPoolParams, q: int) -> i32 {
    win_and(s, o, id, i0(od, q), i1(od, q) * p.stride_height - p.padding.height, i2(od, q) * p.stride_width - p.padding.width, i3(od, q), p.filter_height as int, p.filter_width as int)
}
// what Prepare establishes: positive sizes, and every window meets the image
pub open spec fn pool_ok(p: &BMaxPoolParams, id: Seq<i32>, od: Seq<i32>) -> bool {
    p.filter_height > 0 && p.filter_width > 0 && p.stride_height > 0 && p.stride_width > 0
    && 0 <= p.padding.height < p.filter_height && 0 <= p.padding.width < p.filter_width
    && (od[1] - 1) * p.stride_height - p.padding.height < id[1] && (od[2] - 1) * p.stride_width - p.padding.width < id[2]
    && p.filter_height < 0x10000000 && p.filter_width < 0x10000000 && p.stride_height < 0x10000000 && p.stride_width < 0x10000000
    && id[1] < 0x10000000 && id[2] < 0x10000000 && id[0] == od[0] && id[3] == od[3] && id[3] > 0 && (od[1] > 0 ==> id[1] > 0) && (od[2] > 0 ==> id[2] > 0)
}
pub proof fn lemma_mono(x: int, n: int, s: int) requires 0 <= x < n, s > 0 ensures 0 <= x * s <= (n - 1) * s, x <= x * s
{ assert(0 <= x * s <= (n - 1) * s && x <= x * s) by (nonlinear_arith) requires 0 <= x < n, s > 0; }
@@need not i32
@@fn compute_engine::core::BMaxPool/5 as bmaxpool
@requires
    shape4(*input_shape), shape4(*output_shape), small4(*input_shape), small4(*output_shape),
    pool_ok(params, input_shape@, output_shape@),
    input_data.ok(size4(input_shape@)), 0 <= output_data_o@, output_data_o@ + size4(output_shape@) <= old(output_data)@.len(),
@ensures
    final(output_data)@.len() == old(output_data)@.len(),
    forall|q: int| output_data_o@ <= q < output_data_o@ + size4(output_shape@) ==> #[trigger] final(output_data)@[q] == pool_val(input_data.s@, input_data.o@, input_shape@, output_shape@, params, q - output_data_o@),
    forall|q: int| 0 <= q < final(output_data)@.len() && !(output_data_o@ <= q < output_data_o@ + size4(output_shape@)) ==> final(output_data)@[q] == old(output_data)@[q],
@start
    let ghost id = input_shape@; let ghost od = output_shape@; let ghost o0 = output_data_o@; let ghost si = input_data.s@; let ghost so = input_data.o@;
    proof { lemma_off4_carry(od, 0, 0, 0, 0); }
@loop 0 inv
    0 <= batch <= batches, output_data@.len() == old(output_data)@.len(),
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, 0, 0, 0) ==> #[trigger] output_data@[q] == pool_val(si, so, id, od, params, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == old(output_data)@[q],
@loop 0 dec
    batches - batch
@loop 0 end
    proof { lemma_off4_carry(od, batch as int, od[1] as int, 0, 0); }
@loop 0.0 inv
    0 <= out_y <= output_height, output_data@.len() == old(output_data)@.len(), 0 <= batch < batches,
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, out_y as int, 0, 0) ==> #[trigger] output_data@[q] == pool_val(si, so, id, od, params, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == old(output_data)@[q],
@loop 0.0 dec
    output_height - out_y
@loop 0.0 end
    proof { lemma_off4_carry(od, batch as int, out_y as int, od[2] as int, 0); }
@loop 0.0.0 inv
    0 <= out_x <= output_width, output_data@.len() == old(output_data)@.len(), 0 <= out_y < output_height,
    forall|q: int| o0 <= q < o0 + off4(od, batch as int, out_y as int, out_x as int, 0) ==> #[trigger] output_data@[q] == pool_val(si, so, id, od, params, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == old(output_data)@[q],
@loop 0.0.0 dec
    output_width - out_x
@loop 0.0.0 begin
    proof { lemma_mono(out_y as int, od[1] as int, params.stride_height as int); lemma_mono(out_x as int, od[2] as int, params.stride_width as int); }
    let ghost y0 = out_y * params.stride_height - params.padding.height;
    let ghost x0 = out_x * params.stride_width - params.padding.width;
    let ghost wr = o0 + off4(od, batch as int, out_y as int, out_x as int, 0);
    let ghost xs = if x0 < 0 { -x0 } else { 0 };
    let ghost xc = imin(params.filter_width - xs, id[2] - (x0 + xs));
    proof { assert(0 <= channels * (id[2] - xc) <= id[2] * id[3]) by (nonlinear_arith) requires 0 <= xc <= id[2], channels == id[3], id[3] >= 0; }
@loop 0.0.0 end
    proof { lemma_off4_carry(od, batch as int, out_y as int, out_x as int, od[3] as int); }
@loop 0.0.0.0 inv
    0 <= channel <= channels, output_data@.len() == old(output_data)@.len(), out_ptr_o@ == wr + channel, wr + channels <= o0 + size4(od), 
    forall|q: int| o0 <= q < wr + channel ==> #[trigger] output_data@[q] == pool_val(si, so, id, od, params, q - o0),
    forall|q: int| 0 <= q < output_data@.len() && !(o0 <= q < o0 + size4(od)) ==> output_data@[q] == old(output_data)@[q],
@loop 0.0.0.0 dec
    channels - channel
@loop 0.0.0.0 before
    proof { if channels > 0 { lemma_off4_bound(od, batch as int, out_y as int, out_x as int, 0); } else { lemma_size0(od); lemma_off4_c0(od, batch as int, out_y as int, out_x as int); } }
@loop 0.0.0.0 begin
    let ghost cc = channel as int;
    proof {
        lemma_win_and_out(si, so, id, batch as int, y0, x0, cc, 0, filter_y_start as int, params.filter_width as int);
        lemma_and_ones(0);
    }
@loop 0.0.0.0.0 inv
    0 <= y <= filter_y_count, 0 <= filter_y_count,
    in_ptr.s@ == si, in_ptr.o@ == so + off4(id, batch as int, in_y as int, in_x as int, cc) + y * (channels * input_width),
    max == win_and(si, so, id, batch as int, y0, x0, cc, filter_y_start + y, params.filter_width as int),
@loop 0.0.0.0.0 dec
    filter_y_count - y
@loop 0.0.0.0.0 begin
    let ghost m0 = max;
    proof { lemma_row_and_out(si, so, id, batch as int, y0 + filter_y_start + y, x0, cc, 0, filter_x_start as int); lemma_and_ones(max); }
@loop 0.0.0.0.0.0 inv
    0 <= x <= filter_x_count, 0 <= filter_x_count,
    in_ptr.s@ == si, in_ptr.o@ == so + off4(id, batch as int, in_y as int, in_x as int, cc) + y * (channels * input_width) + x * channels,
    max == m0 & row_and(si, so, id, batch as int, y0 + filter_y_start + y, x0, cc, filter_x_start + x),
@loop 0.0.0.0.0.0 dec
    filter_x_count - x
@loop 0.0.0.0.0.0 begin
    proof {
        lemma_off4_bound(id, batch as int, in_y + y, in_x + x, cc);
        assert(off4(id, batch as int, in_y as int, in_x as int, cc) + y * (channels * input_width) + x * channels == off4(id, batch as int, in_y + y, in_x + x, cc)) by (nonlinear_arith)
            requires channels == id[3], input_width == id[2];
        lemma_and_assoc(m0, row_and(si, so, id, batch as int, y0 + filter_y_start + y, x0, cc, filter_x_start + x), tap(si, so, id, batch as int, in_y + y, in_x + x, cc));
        assert(x * channels + channels == (x + 1) * channels) by (nonlinear_arith);
    }
@loop 0.0.0.0.0 end
    proof {
        lemma_row_and_out(si, so, id, batch as int, y0 + filter_y_start + y, x0, cc, filter_x_start + filter_x_count, params.filter_width as int);
        assert(y * (channels * input_width) + filter_x_count * channels + channels * (input_width - filter_x_count) == (y + 1) * (channels * input_width)) by (nonlinear_arith);
    }
@loop 0.0.0.0 end
    proof {
        lemma_coords(od, batch as int, out_y as int, out_x as int, cc);
        lemma_win_and_out(si, so, id, batch as int, y0, x0, cc, filter_y_start + filter_y_count, params.filter_height as int, params.filter_width as int);
        assert(off4(od, batch as int, out_y as int, out_x as int, cc) == off4(od, batch as int, out_y as int, out_x as int, 0) + cc);
    }
