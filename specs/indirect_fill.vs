@@need div i32
@@prelude
// a stored pointer: the object it points into and the element offset in it
pub struct PtrVal { pub obj: Ghost<int>, pub off: Ghost<int> }
impl Clone for PtrVal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for PtrVal {}
pub open spec fn OBJ_IN() -> int { 1 }
pub open spec fn OBJ_ZERO() -> int { 2 }
pub fn obj_input_ptr() -> (r: Ghost<int>) ensures r@ == OBJ_IN() { Ghost(OBJ_IN()) }
pub fn obj_zero_buffer() -> (r: Ghost<int>) ensures r@ == OBJ_ZERO() { Ghost(OBJ_ZERO()) }
pub fn mk_ptr(o: Ghost<int>, off: Off) -> (r: PtrVal) ensures r.obj@ == o@, r.off@ == off@ { PtrVal { obj: o, off: off.g } }
pub fn mk_ptrc<T>(o: Ghost<int>, p: CPtr<T>) -> (r: PtrVal) ensures r.obj@ == o@, r.off@ == p.o@ { PtrVal { obj: o, off: p.o } }
#[verifier::external_body] pub fn deref_ptrval(pv: PtrVal, heap: Ghost<Map<int, Seq<i32>>>) -> (r: CPtr<i32>)
    requires heap@.dom().contains(pv.obj@) ensures r.s@ == heap@[pv.obj@], r.o@ == pv.off@ { unimplemented!() }
// pixel p of the output in (batch, row, column) form
pub proof fn lemma_pix(od: Seq<i32>, nb: int, p: int)
    requires od.len() == 4, od[1] > 0, od[2] > 0, 0 <= p < nb * od[1] * od[2]
    ensures p / (od[1] * od[2]) == pxb(od, p), (p % (od[1] * od[2])) / (od[2] as int) == pxy(od, p), 0 <= pxb(od, p) < nb, 0 <= pxy(od, p) < od[1], 0 <= pxx(od, p) < od[2],
        (pxb(od, p) * od[1] + pxy(od, p)) * od[2] + pxx(od, p) == p, od[1] * od[2] > 0,
{
    let oh = od[1] as int; let ow = od[2] as int; let a = p / ow; let x = p % ow; let c = a / oh; let b = a % oh;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, ow); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, oh);
    assert(0 <= a < nb * oh) by (nonlinear_arith) requires p == ow * a + x, 0 <= x < ow, 0 <= p < nb * oh * ow;
    assert(0 <= c < nb) by (nonlinear_arith) requires a == oh * c + b, 0 <= b < oh, 0 <= a < nb * oh;
    let r = b * ow + x; let m = oh * ow;
    assert(0 <= r < m) by (nonlinear_arith) requires 0 <= b < oh, 0 <= x < ow, r == b * ow + x, m == oh * ow;
    assert(p == c * m + r) by (nonlinear_arith) requires p == ow * a + x, a == oh * c + b, r == b * ow + x, m == oh * ow;
    lemma_dm(c, m, r); lemma_dm(b, ow, x);
    assert((c * oh + b) * ow + x == p) by (nonlinear_arith) requires p == ow * a + x, a == oh * c + b;
}
// one entry of the indirection buffer: tap fi of pixel p
pub open spec fn ptr_ok(c: Cv, od: Seq<i32>, p: int, fi: int, v: PtrVal) -> bool {
    let y = iny(c, pxy(od, p), fi / (c.fd[2] as int)); let x = inx(c, pxx(od, p), fi % (c.fd[2] as int));
    if inside(c, y, x) { v.obj@ == OBJ_IN() && v.off@ == c.o + off4(c.id, pxb(od, p), y, x, 0) } else { v.obj@ == OBJ_ZERO() && v.off@ == 0 }
}
// decoding an index of the buffer: tile of bp pixels, tap, pixel inside the tile
pub open spec fn e_t(bp: int, fs: int, q: int) -> int { q / (fs * bp) }
pub open spec fn e_f(bp: int, fs: int, q: int) -> int { (q % (fs * bp)) / bp }
pub open spec fn e_o(bp: int, fs: int, q: int) -> int { (q % (fs * bp)) % bp }
pub open spec fn e_p(bp: int, fs: int, n: int, q: int) -> int { imin(e_t(bp, fs, q) * bp + e_o(bp, fs, q), n - 1) }
pub open spec fn e_pos(bp: int, fs: int, t: int, f: int, o: int) -> int { (t * bp) * fs + f * bp + o }
pub open spec fn entry_ok(c: Cv, od: Seq<i32>, bp: int, fs: int, n: int, q: int, v: PtrVal) -> bool { ptr_ok(c, od, e_p(bp, fs, n, q), e_f(bp, fs, q), v) }
// (tile, pixel, tap) of q comes before (t, o, f)
pub open spec fn e_before(bp: int, fs: int, q: int, t: int, o: int, f: int) -> bool {
    e_t(bp, fs, q) < t || (e_t(bp, fs, q) == t && (e_o(bp, fs, q) < o || (e_o(bp, fs, q) == o && e_f(bp, fs, q) < f)))
}
pub proof fn lemma_epos(bp: int, fs: int, t: int, f: int, o: int, nt: int)
    requires 0 <= t < nt, 0 <= f < fs, 0 <= o < bp
    ensures ({ let q = e_pos(bp, fs, t, f, o); e_t(bp, fs, q) == t && e_f(bp, fs, q) == f && e_o(bp, fs, q) == o && 0 <= q < nt * bp * fs && 0 <= (t * bp) * fs <= q && 0 <= f * bp }), 0 <= t * bp, (t + 1) * bp <= nt * bp, fs * bp > 0
{
    let m = fs * bp; let r = f * bp + o;
    assert(0 <= r < m && 0 <= f * bp) by (nonlinear_arith) requires 0 <= f < fs, 0 <= o < bp, r == f * bp + o, m == fs * bp;
    assert((t * bp) * fs == t * m) by (nonlinear_arith) requires m == fs * bp;
    assert(0 <= t * m && t * m + m <= nt * m && nt * m == nt * bp * fs && 0 <= t * bp && (t + 1) * bp <= nt * bp) by (nonlinear_arith) requires 0 <= t, t + 1 <= nt, 0 < m, m == fs * bp, bp > 0;
    lemma_dm(t, m, r); lemma_dm(f, bp, o);
}
pub proof fn lemma_edec(bp: int, fs: int, q: int, nt: int)
    requires 0 <= q < nt * bp * fs, bp > 0, fs > 0
    ensures 0 <= e_t(bp, fs, q) < nt, 0 <= e_f(bp, fs, q) < fs, 0 <= e_o(bp, fs, q) < bp, e_pos(bp, fs, e_t(bp, fs, q), e_f(bp, fs, q), e_o(bp, fs, q)) == q
{
    let m = fs * bp; let t = q / m; let r = q % m;
    assert(m > 0) by (nonlinear_arith) requires m == fs * bp, bp > 0, fs > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, m); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, bp);
    let f = r / bp; let o = r % bp;
    assert(0 <= f < fs) by (nonlinear_arith) requires r == bp * f + o, 0 <= o < bp, 0 <= r < fs * bp;
    assert(0 <= t < nt) by (nonlinear_arith) requires q == m * t + r, 0 <= r < m, 0 <= q < nt * bp * fs, m == fs * bp;
    assert((t * bp) * fs + f * bp + o == q) by (nonlinear_arith) requires q == m * t + r, m == fs * bp, r == bp * f + o;
}
pub open spec fn ntiles(k: &Kernel) -> int { tdiv(k.num_output_pixels + k.block_size_pixels - 1, k.block_size_pixels as int) }
pub open spec fn cv_in(p: &BConv2DParams, s: Seq<i32>, o: int, id: Seq<i32>) -> Cv {
    Cv { s, o, id, f: seq![], fo: 0, fd: seq![0i32, p.filter_height, p.filter_width, 0i32], sh: p.stride_height as int, sw: p.stride_width as int, dh: p.dilation_height_factor as int, dw: p.dilation_width_factor as int,
         ph: p.padding_values.height as int, pw: p.padding_values.width as int, g: p.groups as int, zp: false, hz: 0 }
}
pub open spec fn fill_ok(k: &Kernel, p: &BConv2DParams, i: Shape, o: Shape) -> bool {
    let id = i@; let od = o@;
    shape4(i) && shape4(o) && small4(i) && small4(o) && k.block_size_pixels > 0 && k.filter_size > 0 && k.filter_size == p.filter_height * p.filter_width && p.filter_height > 0 && p.filter_width > 0
    && k.num_output_pixels == id[0] * od[1] * od[2] && od[1] > 0 && od[2] > 0 && id[0] > 0 && k.num_output_pixels + k.block_size_pixels <= 0x7fff_ffff && k.input_depth == id[3]
    && ntiles(k) * k.block_size_pixels * k.filter_size + k.block_size_pixels <= 0x7fff_ffff && ntiles(k) * k.block_size_pixels <= 0x7fff_ffff && k.filter_size * k.input_depth <= 0x7fff_ffff
    && axis_ok(od[1] as int, p.stride_height as int, p.filter_height as int, p.dilation_height_factor as int, p.padding_values.height as int, id[1] as int)
    && axis_ok(od[2] as int, p.stride_width as int, p.filter_width as int, p.dilation_width_factor as int, p.padding_values.width as int, id[2] as int)
}
// the buffer points every (pixel, tap) at its input words, or at zeroes outside the image
pub open spec fn filled_ok(k: &Kernel, c: Cv, od: Seq<i32>) -> bool {
    let bp = k.block_size_pixels as int; let fs = k.filter_size as int;
    k.indirection_buffer@.len() == ntiles(k) * bp * fs + bp
    && (forall|q: int| 0 <= q < ntiles(k) * bp * fs ==> entry_ok(c, od, bp, fs, k.num_output_pixels as int, q, #[trigger] k.indirection_buffer@[q]))
    && k.zero_buffer@.len() == fs * k.input_depth && (forall|q: int| 0 <= q < fs * k.input_depth ==> #[trigger] k.zero_buffer@[q] == 0)
}
pub open spec fn k_frame_ib(a: &Kernel, b: &Kernel) -> bool {
    a.block_size_output_channels == b.block_size_output_channels && a.block_size_pixels == b.block_size_pixels && a.block_size_depth == b.block_size_depth && a.input_depth == b.input_depth && a.output_channels == b.output_channels
    && a.filter_size == b.filter_size && a.groups == b.groups && a.num_output_pixels == b.num_output_pixels && a.packed_weights == b.packed_weights && a.dy == b.dy
}
@@fn compute_engine::core::FastBoundsCheck/2 as fast_bounds_check
@requires
    limit >= 0,
@ensures
    r == (0 <= index < limit)
@start
    proof { assert((index as u32) < (limit as u32) <==> (0 <= index < limit)) by (bit_vector) requires limit >= 0; }
@@fn compute_engine::core::indirect_bgemm::Kernel::FillIndirectionBuffer/4 as fill_indirection
@requires
    fill_ok(old(this), bconv2d_params, *bitpacked_input_shape, *output_shape), input_ptr.o@ >= 0,
@ensures
    filled_ok(final(this), cv_in(bconv2d_params, input_ptr.s@, input_ptr.o@, bitpacked_input_shape@), output_shape@), k_frame_ib(old(this), final(this)),
@start
    let ghost k0 = *this; let ghost id = bitpacked_input_shape@; let ghost od = output_shape@; let ghost c = cv_in(bconv2d_params, input_ptr.s@, input_ptr.o@, id);
    let ghost bp = this.block_size_pixels as int; let ghost fs = this.filter_size as int; let ghost nt = ntiles(this); let ghost n = this.num_output_pixels as int;
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + bp - 1, bp);
        assert(n <= nt * bp && 0 <= nt) by (nonlinear_arith) requires n + bp - 1 == bp * nt + (n + bp - 1) % bp, 0 <= (n + bp - 1) % bp < bp, n >= 0, bp > 0;
        assert(0 <= nt * bp && 0 <= nt * bp * fs) by (nonlinear_arith) requires nt >= 0, bp > 0, fs > 0;
        assert(0 <= fs * k0.input_depth) by (nonlinear_arith) requires fs > 0, k0.input_depth >= 0;
        assert(0 <= n && 0 < id[0] * od[1] * od[2] && od[1] * od[2] > 0) by (nonlinear_arith) requires n == id[0] * od[1] * od[2], id[0] > 0, od[1] > 0, od[2] > 0;
    }
@loop 0 before
    let ghost mut t = 0int;
    proof { assert(0 * bp == 0) by (nonlinear_arith);
        assert forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, 0, 0, 0) implies entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]) by { lemma_edec(bp, fs, q, nt); } }
@loop 0 inv
    0 <= t <= nt, output_tile_start == t * bp, output_tile_start >= 0, k_frame_ib(&k0, this), this.indirection_buffer@.len() == nt * bp * fs + bp, this.zero_buffer@.len() == fs * k0.input_depth, forall|q: int| 0 <= q < fs * k0.input_depth ==> #[trigger] this.zero_buffer@[q] == 0,
    forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t, 0, 0) ==> entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]),
@loop 0 dec
    nt - t
@loop 0 begin
    proof { assert(t < nt && (t + 1) * bp == t * bp + bp && (t + 1) * bp <= nt * bp) by (nonlinear_arith) requires t * bp < nt * bp, bp > 0; }
@loop 0 end
    proof {
        assert forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t + 1, 0, 0) implies entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]) by { lemma_edec(bp, fs, q, nt); }
        t = t + 1;
    }
@loop 0 after
    proof { assert(t >= nt) by (nonlinear_arith) requires t * bp >= nt * bp, bp > 0;
        assert forall|q: int| 0 <= q < nt * bp * fs implies entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]) by { lemma_edec(bp, fs, q, nt); } }
@loop 0.0 inv
    0 <= output_tile_offset <= bp, k_frame_ib(&k0, this), this.indirection_buffer@.len() == nt * bp * fs + bp, this.zero_buffer@.len() == fs * k0.input_depth, forall|q: int| 0 <= q < fs * k0.input_depth ==> #[trigger] this.zero_buffer@[q] == 0,
    forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t, output_tile_offset as int, 0) ==> entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]),
@loop 0.0 dec
    bp - output_tile_offset
@loop 0.0 begin
    let ghost o = output_tile_offset as int;
@loop 0.0 end
    proof {
        assert(fs == c.fd[1] * c.fd[2]);
        assert forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t, o + 1, 0) implies entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]) by { lemma_edec(bp, fs, q, nt); }
    }
@loop 0.0.0 inv
    0 <= f_y <= filter_height, output_index == imin(t * bp + o, n - 1), 0 <= output_index < n, output_x == pxx(od, output_index as int), output_y == pxy(od, output_index as int), batch_index == pxb(od, output_index as int),
    0 <= output_x < od[2], 0 <= output_y < od[1], 0 <= batch_index < id[0],
    k_frame_ib(&k0, this), this.indirection_buffer@.len() == nt * bp * fs + bp, this.zero_buffer@.len() == fs * k0.input_depth, forall|q: int| 0 <= q < fs * k0.input_depth ==> #[trigger] this.zero_buffer@[q] == 0,
    forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t, o, f_y * filter_width) ==> entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]),
@loop 0.0.0 before
    proof { lemma_pix(od, id[0] as int, output_index as int); assert(0 * filter_width == 0) by (nonlinear_arith); }
@loop 0.0.0 dec
    filter_height - f_y
@loop 0.0.0 begin
    proof {
        lemma_mono(output_y as int, od[1] as int, c.sh); lemma_mono(output_x as int, od[2] as int, c.sw); lemma_mono(f_y as int, c.fd[1] as int, c.dh);
        assert((od[1] - 1) * c.sh <= od[1] * c.sh && (od[2] - 1) * c.sw <= od[2] * c.sw && (c.fd[1] - 1) * c.dh <= c.fd[1] * c.dh && c.dh * f_y == f_y * c.dh) by (nonlinear_arith) requires c.sh > 0, c.sw > 0, c.dh > 0;
        assert((f_y + 1) * filter_width == f_y * filter_width + filter_width && (f_y + 1) * filter_width <= c.fd[1] * c.fd[2] && 0 <= f_y * filter_width) by (nonlinear_arith) requires 0 <= f_y, f_y + 1 <= c.fd[1], filter_width == c.fd[2], filter_width > 0;
    }
@@foreach L in 0.0.0.0 0.0.0.1
@loop $L inv
    0 <= f_x <= filter_width, k_frame_ib(&k0, this), this.indirection_buffer@.len() == nt * bp * fs + bp, this.zero_buffer@.len() == fs * k0.input_depth, forall|q: int| 0 <= q < fs * k0.input_depth ==> #[trigger] this.zero_buffer@[q] == 0,
    forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t, o, f_y * filter_width + f_x) ==> entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]),
@loop $L dec
    filter_width - f_x
@loop $L begin
    let ghost ib0 = this.indirection_buffer@; let ghost fi = f_y * filter_width + f_x;
    proof {
        lemma_mono(f_x as int, c.fd[2] as int, c.dw);
        assert((c.fd[2] - 1) * c.dw <= c.fd[2] * c.dw && c.dw * f_x == f_x * c.dw) by (nonlinear_arith) requires c.dw > 0;
        lemma_dm(f_y as int, filter_width as int, f_x as int);
        lemma_epos(bp, fs, t, fi, o, nt);
        if 0 <= inx(c, output_x as int, f_x as int) < id[2] && 0 <= input_y < id[1] {
            lemma_inoff(id, batch_index as int, input_y as int, inx(c, output_x as int, f_x as int));
        }
    }
@loop $L end
    proof {
        let e = e_pos(bp, fs, t, fi, o);
        assert(entry_ok(c, od, bp, fs, n, e, this.indirection_buffer@[e]));
        assert forall|q: int| 0 <= q < nt * bp * fs && e_before(bp, fs, q, t, o, fi + 1) implies entry_ok(c, od, bp, fs, n, q, #[trigger] this.indirection_buffer@[q]) by {
            lemma_edec(bp, fs, q, nt);
            if q != e { assert(this.indirection_buffer@[q] == ib0[q]); }
        }
    }
@@end
@@prelude
pub proof fn lemma_inoff(id: Seq<i32>, b: int, y: int, x: int)
    requires id.len() == 4, 0 <= b < id[0], 0 <= y < id[1], 0 <= x < id[2], id[3] >= 0, id[0] * id[1] <= 0x7fff_ffff, id[0] * id[1] * id[2] <= 0x7fff_ffff, size4(id) <= 0x7fff_ffff
    ensures b * id[1] * id[2] + y * id[2] + x == (b * id[1] + y) * id[2] + x, 0 <= b * id[1] <= id[0] * id[1], 0 <= b * id[1] * id[2] <= id[0] * id[1] * id[2], 0 <= y * id[2], (b * id[1] + y) * id[2] + x < id[0] * id[1] * id[2],
        0 <= ((b * id[1] + y) * id[2] + x) * id[3] <= size4(id), off4(id, b, y, x, 0) == ((b * id[1] + y) * id[2] + x) * id[3]
{
    let u = b * id[1] + y; let v = u * id[2] + x;
    assert(b * id[1] * id[2] + y * id[2] == u * id[2]) by (nonlinear_arith) requires u == b * id[1] + y;
    assert(0 <= b * id[1] && b * id[1] + id[1] <= id[0] * id[1]) by (nonlinear_arith) requires 0 <= b < id[0], id[1] > 0;
    assert(0 <= y * id[2] && 0 <= b * id[1] * id[2] && u * id[2] + id[2] <= id[0] * id[1] * id[2] && b * id[1] * id[2] <= id[0] * id[1] * id[2]) by (nonlinear_arith) requires 0 <= y, 0 <= b * id[1], u == b * id[1] + y, u + 1 <= id[0] * id[1], id[2] > 0, b * id[1] <= id[0] * id[1];
    assert(0 <= v * id[3] && v * id[3] <= size4(id)) by (nonlinear_arith) requires 0 <= v, v + 1 <= id[0] * id[1] * id[2], id[3] >= 0, size4(id) == id[0] * id[1] * id[2] * id[3];
}
