@@name tflite::PaddingValues => PaddingValues
@@name tflite::ConvParams => ConvParams
@@record tflite::cpu_backend_gemm::MatrixParams<int> => MatParams
@@record tflite::cpu_backend_gemm::MatrixParams<float> => MatParams
@@record tflite::cpu_backend_gemm::MatrixParams<signed char> => MatParams
@@record tflite::CpuBackendContext => CpuCtx
@@extern tflite::optimized_ops::Im2col/8 => tfl_im2col
@@extern tflite::optimized_ops::DilatedIm2col/7 => tfl_dilated_im2col
@@extern tflite::RuntimeShape::ReplaceWith/2 => shape_replace
@@extern tflite::RuntimeShape::DimsData/0 => shape_data
@@extern compute_engine::core::bgemm::BGemm/8 => bgemm
@@assume TFLite's Im2col and DilatedIm2col write, for every output pixel, the taps of its window in (filter_y, filter_x, channel) order, out-of-image taps as the given byte
@@assume bgemm::BGemm: ruy packs both operands with the given pack functions and runs the kernel on a partition of the destination (type-erased function pointers; the kernel and the packing themselves are proved)
@@prelude
pub struct MatParams { pub order: i32, pub rows: i32, pub cols: i32, pub cache_policy: i32 }
pub struct CpuCtx { pub x: Ghost<int> }
pub open spec fn bcv(p: &ConvParams, dh: int, dw: int, s: CPtr<i32>, id: Seq<i32>, f: CPtr<i32>, fd: Seq<i32>) -> Cv {
    Cv { s: s.s@, o: s.o@, id, f: f.s@, fo: f.o@, fd, sh: p.stride_height as int, sw: p.stride_width as int, dh, dw, ph: p.padding_values.height as int, pw: p.padding_values.width as int, g: 1, zp: false, hz: 0 }
}
// element i of the row of taps of an output pixel
pub open spec fn col_el(c: Cv, kw: int, b: int, y: int, x: int, i: int) -> i32 { let t = i / (c.id[3] as int); tap_in(c, b, iny(c, y, t / kw), inx(c, x, t % kw), i % (c.id[3] as int)) }
pub open spec fn is_cols(s: Seq<i32>, o: int, cd: Seq<i32>, c: Cv, kw: int) -> bool { forall|q: int| o <= q < o + size4(cd) ==> #[trigger] s[q] == col_el(c, kw, i0(cd, q - o), i1(cd, q - o), i2(cd, q - o), i3(cd, q - o)) }
#[verifier::external_body] pub fn tfl_im2col(p: &ConvParams, kh: i32, kw: i32, zb: u8, ishape: &Shape, inp: CPtr<i32>, cshape: &Shape, out: &mut Mem<i32>, o: Off)
    requires shape4(*ishape), shape4(*cshape), zb == 0, kh > 0, kw > 0, cshape@[3] == kh * kw * ishape@[3], inp.ok(size4(ishape@)), 0 <= o@, o@ + size4(cshape@) <= old(out)@.len(), cshape@[0] == ishape@[0]
    ensures final(out)@.len() == old(out)@.len(), is_cols(final(out)@, o@, cshape@, bcv(p, 1, 1, inp, ishape@, inp, ishape@), kw as int) { unimplemented!() }
#[verifier::external_body] pub fn tfl_dilated_im2col(p: &ConvParams, zb: u8, ishape: &Shape, inp: CPtr<i32>, fshape: &Shape, oshape: &Shape, out: &mut Mem<i32>, o: Off)
    requires shape4(*ishape), shape4(*fshape), shape4(*oshape), zb == 0, fshape@[1] > 0, fshape@[2] > 0, inp.ok(size4(ishape@)), 0 <= o@, oshape@[0] == ishape@[0],
        forall|d3: i32| d3 == fshape@[1] * fshape@[2] * ishape@[3] ==> o@ + size4(#[trigger] colsd(oshape@, d3)) <= old(out)@.len()
    ensures final(out)@.len() == old(out)@.len(), forall|d3: i32| d3 == fshape@[1] * fshape@[2] * ishape@[3] ==> is_cols(final(out)@, o@, #[trigger] colsd(oshape@, d3), bcv(p, p.dilation_height_factor as int, p.dilation_width_factor as int, inp, ishape@, inp, ishape@), fshape@[2] as int) { unimplemented!() }
pub open spec fn colsd(od: Seq<i32>, d3: i32) -> Seq<i32> { seq![od[0], od[1], od[2], d3] }
#[verifier::external_body] pub fn shape_data(s: &Shape) -> (r: CPtr<i32>) ensures r.s@ == s@, r.o@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn shape_replace(s: &mut Shape, n: i32, d: CPtr<i32>) requires n >= 0, d.ok(n as int) ensures final(s)@ == d.s@.subrange(d.o@, d.o@ + n) { unimplemented!() }
// differing bits of n words of two rows
pub open spec fn sdot(a: Seq<i32>, ao: int, b: Seq<i32>, bo: int, n: int) -> int decreases n { if n <= 0 { 0 } else { sdot(a, ao, b, bo, n - 1) + xpop(a[ao + (n - 1)], b[bo + (n - 1)]) } }
pub open spec fn gdot(a: CPtr<i32>, b: CPtr<i32>, k: int, i: int, j: int) -> int { sdot(a.s@, a.o@ + i * k, b.s@, b.o@ + j * k, k) }
pub trait MmT: Sized {
    type OT;
    spec fn words(n: int) -> int;
    spec fn ot_len(t: &Self::OT, n: int) -> bool;
    // destination element q of an n x m product
    spec fn val(v: Self, t: &Self::OT, a: CPtr<i32>, b: CPtr<i32>, k: int, n: int, q: int) -> bool;
}
impl MmT for F32 { type OT = OTF; open spec fn words(n: int) -> int { n } open spec fn ot_len(t: &OTF, n: int) -> bool { ot_ok_f(t, n) }
    open spec fn val(v: F32, t: &OTF, a: CPtr<i32>, b: CPtr<i32>, k: int, n: int, q: int) -> bool { v == out_float(t, gdot(a, b, k, q % n, q / n), q % n) } }
impl MmT for i8 { type OT = OTI; open spec fn words(n: int) -> int { n } open spec fn ot_len(t: &OTI, n: int) -> bool { ot_ok_i(t, n) }
    open spec fn val(v: i8, t: &OTI, a: CPtr<i32>, b: CPtr<i32>, k: int, n: int, q: int) -> bool { v == out_int8(t, gdot(a, b, k, q % n, q / n), q % n) } }
impl MmT for i32 { type OT = OTB; open spec fn words(n: int) -> int { cdiv32(n) } open spec fn ot_len(t: &OTB, n: int) -> bool { ot_ok_b(t, n) }
    open spec fn val(v: i32, t: &OTB, a: CPtr<i32>, b: CPtr<i32>, k: int, n: int, q: int) -> bool {
        let w = cdiv32(n); forall|z: int| 0 <= z < 32 ==> #[trigger] bit(v, z) == (32 * (q % w) + z < n && out_bit(t, gdot(a, b, k, 32 * (q % w) + z, q / w), 32 * (q % w) + z)) } }
#[verifier::external_body] pub fn bgemm<T: MmT>(lp: &MatParams, l: CPtr<i32>, rp: &MatParams, r: CPtr<i32>, dp: &MatParams, d: &mut Mem<T>, o: Off, t: &T::OT, ctx: &mut CpuCtx)
    requires lp.order == 1, rp.order == 0, dp.order == 0, lp.cols == rp.rows, dp.rows == lp.rows, dp.cols == rp.cols, lp.rows >= 0, lp.cols >= 0, rp.cols >= 0, lp.cols < 0x100_0000,
        l.ok(lp.rows * lp.cols), r.ok(rp.cols * rp.rows), T::ot_len(t, lp.rows as int), 0 <= o@, o@ + dp.cols * T::words(dp.rows as int) <= old(d)@.len()
    ensures final(d)@.len() == old(d)@.len(), forall|q: int| o@ <= q < o@ + dp.cols * T::words(dp.rows as int) ==> T::val(#[trigger] final(d)@[q], t, l, r, lp.cols as int, dp.rows as int, q - o@),
        forall|q: int| 0 <= q < final(d)@.len() && !(o@ <= q < o@ + dp.cols * T::words(dp.rows as int)) ==> #[trigger] final(d)@[q] == old(d)@[q] { unimplemented!() }
@@fn compute_engine::core::bconv2d::im2col/9 as im2col_
@outptr result_data
@requires
    cols_pre(params, *input_shape, input_data, *filter_shape, *output_shape, *im2col_shape, old(im2col_data)@.len() as int, im2col_data_o@),
@ensures
    final(result_shape)@ == cols_dims(params, input_shape@, filter_shape@, im2col_shape@), final(result_shape)@.len() == 4, rows_of(*final(result_shape)) == output_shape@[0] * output_shape@[1] * output_shape@[2], final(result_shape)@[3] == filter_shape@[1] * filter_shape@[2] * filter_shape@[3],
    final(result_shape)@ =~= colsd(output_shape@, (filter_shape@[1] * filter_shape@[2] * filter_shape@[3]) as i32), final(result_data).ok(size4(final(result_shape)@)),
    is_cols(final(result_data).s@, final(result_data).o@, final(result_shape)@, bcv(params, params.dilation_height_factor as int, params.dilation_width_factor as int, input_data, input_shape@, input_data, input_shape@), filter_shape@[2] as int),
@end
    proof {
        let c = bcv(params, params.dilation_height_factor as int, params.dilation_width_factor as int, input_data, input_shape@, input_data, input_shape@);
        assert(result_shape@ =~= cols_dims(params, input_shape@, filter_shape@, im2col_shape@));
        lemma_rows_of(*result_shape);
        if !needs_cols(params, filter_shape@) { lemma_cols_id(c); assert(filter_shape@[1] * filter_shape@[2] * filter_shape@[3] == filter_shape@[3]) by (nonlinear_arith) requires filter_shape@[1] == 1, filter_shape@[2] == 1; }
        else { assert(colsd(output_shape@, im2col_shape@[3]) =~= im2col_shape@); }
    }
@@prelude
pub open spec fn needs_cols(p: &ConvParams, fd: Seq<i32>) -> bool { p.dilation_width_factor != 1 || p.dilation_height_factor != 1 || p.stride_width != 1 || p.stride_height != 1 || fd[1] != 1 || fd[2] != 1 }
pub open spec fn cols_dims(p: &ConvParams, id: Seq<i32>, fd: Seq<i32>, cd: Seq<i32>) -> Seq<i32> { if needs_cols(p, fd) { cd } else { id } }
pub open spec fn cols_pre(p: &ConvParams, i: Shape, inp: CPtr<i32>, f: Shape, o: Shape, c: Shape, clen: int, co: int) -> bool {
    shape4(i) && shape4(f) && shape4(o) && f@[1] > 0 && f@[2] > 0 && f@[3] == i@[3] && o@[0] == i@[0] && inp.ok(size4(i@)) && (if needs_cols(p, f@) { shape4(c) && c@ =~= colsd(o@, c@[3]) && c@[3] == f@[1] * f@[2] * i@[3] && 0 <= co && co + size4(c@) <= clen }
        else { p.padding_values.height == 0 && p.padding_values.width == 0 && o@[1] == i@[1] && o@[2] == i@[2] })
}
// a 1x1 window is the input itself
pub proof fn lemma_cols_id(c: Cv)
    requires c.id.len() == 4, c.id[0] >= 0, c.id[1] >= 0, c.id[2] >= 0, c.id[3] >= 0, c.sh == 1, c.sw == 1, c.dh == 1, c.dw == 1, c.ph == 0, c.pw == 0
    ensures is_cols(c.s, c.o, c.id, c, 1)
{
    assert forall|q: int| c.o <= q < c.o + size4(c.id) implies #[trigger] c.s[q] == col_el(c, 1, i0(c.id, q - c.o), i1(c.id, q - c.o), i2(c.id, q - c.o), i3(c.id, q - c.o)) by {
        lemma_recompose(c.id, q - c.o);
        let i = i3(c.id, q - c.o);
        assert(i / (c.id[3] as int) == 0 && i % (c.id[3] as int) == i) by (nonlinear_arith) requires 0 <= i < c.id[3];
    }
}
@@prelude
pub open spec fn in_arr(s: Seq<i32>, o: int, n: int) -> bool { 0 <= o && o + n <= s.len() }
// the row of taps of pixel p and the filter row of channel oc, word by word
pub ghost struct Gm { pub c: Cv, pub l: CPtr<i32>, pub r: CPtr<i32>, pub od: Seq<i32>, pub k: int }
pub open spec fn gm_ok(g: Gm) -> bool {
    g.c.g == 1 && !g.c.zp && g.c.fd.len() == 4 && g.c.id.len() == 4 && g.c.fd[0] >= 0 && g.c.fd[1] > 0 && g.c.fd[2] > 0 && g.c.fd[3] == g.c.id[3] && g.c.fd[3] >= 0 && g.l.s@ == g.c.f && g.l.o@ == g.c.fo && g.od.len() == 4 && g.od[0] >= 0 && g.od[1] >= 0 && g.od[2] >= 0
    && g.k == g.c.fd[1] * g.c.fd[2] * g.c.fd[3] && g.k <= 0x7fff_ffff && is_cols(g.r.s@, g.r.o@, colsd(g.od, g.k as i32), g.c, g.c.fd[2] as int)
}
pub open spec fn gm_dot(g: Gm, oc: int, p: int, n: int) -> int { sdot(g.l.s@, g.l.o@ + oc * g.k, g.r.s@, g.r.o@ + p * g.k, n) }
pub proof fn lemma_gm_word(g: Gm, oc: int, p: int, fy: int, fx: int, ch: int)
    requires gm_ok(g), 0 <= oc < g.c.fd[0], 0 <= p < g.od[0] * g.od[1] * g.od[2], 0 <= fy < g.c.fd[1], 0 <= fx < g.c.fd[2], 0 <= ch < g.c.fd[3]
    ensures ({ let i = (fy * g.c.fd[2] + fx) * g.c.fd[3] + ch; 0 <= i < g.k && g.l.s@[g.l.o@ + oc * g.k + i] == flt(g.c, oc, fy, fx, ch)
        && g.r.s@[g.r.o@ + p * g.k + i] == tap_in(g.c, pxb(g.od, p), iny(g.c, pxy(g.od, p), fy), inx(g.c, pxx(g.od, p), fx), ch) })
{
    let c = g.c; let kh = c.fd[1] as int; let kw = c.fd[2] as int; let d = c.fd[3] as int; let t = fy * kw + fx; let i = t * d + ch; let k = g.k;
    assert(0 <= t && t + 1 <= kh * kw) by (nonlinear_arith) requires 0 <= fy < kh, 0 <= fx < kw, t == fy * kw + fx;
    assert(0 <= i < k) by (nonlinear_arith) requires 0 <= t, t + 1 <= kh * kw, 0 <= ch < d, i == t * d + ch, k == kh * kw * d;
    lemma_dm(t, d, ch); lemma_dm(fy, kw, fx);
    assert(off4(c.fd, oc, fy, fx, ch) == oc * k + i) by (nonlinear_arith) requires off4(c.fd, oc, fy, fx, ch) == ((oc * kh + fy) * kw + fx) * d + ch, i == (fy * kw + fx) * d + ch, k == kh * kw * d;
    let q = p * k + i; let cd = colsd(g.od, k as i32); let m = g.od[0] * g.od[1] * g.od[2];
    assert(0 <= q < m * k) by (nonlinear_arith) requires 0 <= p < m, 0 <= i < k, q == p * k + i;
    assert(size4(cd) == m * k);
    lemma_dm(p, k, i);
    assert(g.r.s@[g.r.o@ + q] == col_el(c, kw, i0(cd, q), i1(cd, q), i2(cd, q), i3(cd, q)));
}
pub proof fn lemma_gm_ch(g: Gm, oc: int, p: int, fy: int, fx: int, n: int)
    requires gm_ok(g), 0 <= oc < g.c.fd[0], 0 <= p < g.od[0] * g.od[1] * g.od[2], 0 <= fy < g.c.fd[1], 0 <= fx < g.c.fd[2], 0 <= n <= g.c.fd[3]
    ensures ({ let s = (fy * g.c.fd[2] + fx) * g.c.fd[3]; s >= 0 && gm_dot(g, oc, p, s + n) == gm_dot(g, oc, p, s) + ch_acc(g.c, pxb(g.od, p), pxy(g.od, p), pxx(g.od, p), oc, fy, fx, n) })
    decreases n
{
    let c = g.c; let s = (fy * c.fd[2] + fx) * c.fd[3];
    assert(s >= 0) by (nonlinear_arith) requires s == (fy * c.fd[2] + fx) * c.fd[3], fy >= 0, fx >= 0, c.fd[2] > 0, c.fd[3] >= 0;
    if n > 0 {
        lemma_gm_ch(g, oc, p, fy, fx, n - 1);
        lemma_gm_word(g, oc, p, fy, fx, n - 1);
        lemma_xpop_comm(flt(c, oc, fy, fx, n - 1), tap_in(c, pxb(g.od, p), iny(c, pxy(g.od, p), fy), inx(c, pxx(g.od, p), fx), n - 1));
        lemma_group(c.fd[0] as int, 1, oc, cpg(c));
        assert(chbase(c, oc) == 0) by (nonlinear_arith) requires chbase(c, oc) == tdiv(oc, cpg(c)) * c.fd[3], tdiv(oc, cpg(c)) == 0;
    }
}
pub proof fn lemma_gm(g: Gm, oc: int, p: int, fy: int, fx: int)
    requires gm_ok(g), 0 <= oc < g.c.fd[0], 0 <= p < g.od[0] * g.od[1] * g.od[2], 0 <= fy, 0 <= fx <= g.c.fd[2], fy < g.c.fd[1] || (fy == g.c.fd[1] && fx == 0)
    ensures ({ let b = pxb(g.od, p); let y = pxy(g.od, p); let x = pxx(g.od, p); gm_dot(g, oc, p, (fy * g.c.fd[2] + fx) * g.c.fd[3]) == win_acc(g.c, b, y, x, oc, fy) + row_acc(g.c, b, y, x, oc, fy, fx) })
    decreases fy, fx
{
    let fw = g.c.fd[2] as int; let d = g.c.fd[3] as int;
    if fx > 0 {
        lemma_gm(g, oc, p, fy, fx - 1);
        lemma_gm_ch(g, oc, p, fy, fx - 1, d);
        assert((fy * fw + (fx - 1)) * d + d == (fy * fw + fx) * d) by (nonlinear_arith);
    } else if fy > 0 {
        lemma_gm(g, oc, p, fy - 1, fw);
        assert((fy - 1) * fw + fw == fy * fw) by (nonlinear_arith);
    } else { assert((0 * fw + 0) * d == 0) by (nonlinear_arith); }
}
// a matrix product entry is the convolution value
pub proof fn lemma_gm_conv(g: Gm, oc: int, p: int)
    requires gm_ok(g), 0 <= oc < g.c.fd[0], 0 <= p < g.od[0] * g.od[1] * g.od[2]
    ensures gdot(g.l, g.r, g.k, oc, p) == conv(g.c, pxb(g.od, p), pxy(g.od, p), pxx(g.od, p), oc)
{ lemma_gm(g, oc, p, g.c.fd[1] as int, 0); }
pub open spec fn od_words(od: Seq<i32>, w: int) -> Seq<i32> { seq![od[0], od[1], od[2], w as i32] }
pub proof fn lemma_pxq(od: Seq<i32>, w: int, q: int)
    requires od[0] >= 0, od[1] >= 0, od[2] >= 0, 0 <= w <= 0x7fff_ffff, 0 <= q < od[0] * od[1] * od[2] * w
    ensures ({ let d = od_words(od, w); w > 0 && 0 <= q / w < od[0] * od[1] * od[2] && 0 <= q % w < w && i3(d, q) == q % w && i2(d, q) == pxx(od, q / w) && i1(d, q) == pxy(od, q / w) && i0(d, q) == pxb(od, q / w) })
{
    let m = od[0] * od[1] * od[2];
    assert(w > 0) by (nonlinear_arith) requires 0 <= q < m * w, w >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, w);
    assert(0 <= q / w < m) by (nonlinear_arith) requires 0 <= q < m * w, q == w * (q / w) + q % w, 0 <= q % w < w;
}
pub open spec fn cgemm_pre(p: &ConvParams, i: Shape, inp: CPtr<i32>, f: Shape, fp: CPtr<i32>, o: Shape, cs: Shape, cl: int, co: int) -> bool {
    cols_pre(p, i, inp, f, o, cs, cl, co) && o@[3] == f@[0] && f@[1] * f@[2] * f@[3] <= 0xff_ffff && o@[0] * o@[1] * o@[2] <= 0x7fff_ffff && fp.ok(f@[0] * (f@[1] * f@[2] * f@[3]))
}
pub open spec fn wants_corr_c(p: &ConvParams, pv: i32) -> bool { p.padding_type == 1 && pv == 0 }
pub open spec fn CORC_f(p: &ConvParams, pv: i32) -> bool { wants_corr_c(p, pv) }
pub open spec fn CORC_i(p: &ConvParams, pv: i32) -> bool { false }
pub open spec fn CORC_b(p: &ConvParams, pv: i32) -> bool { false }
pub open spec fn wordsn_f(n: int) -> int { n }
pub open spec fn wordsn_i(n: int) -> int { n }
pub open spec fn wordsn_b(n: int) -> int { cdiv32(n) }
pub proof fn lemma_val_f(v: F32, t: &OTF, g: Gm, q: int)
    requires gm_ok(g), 0 <= q < g.od[0] * g.od[1] * g.od[2] * g.c.fd[0], <F32 as MmT>::val(v, t, g.l, g.r, g.k, g.c.fd[0] as int, q)
    ensures okv_f(v, g.c, t, od_words(g.od, g.c.fd[0] as int), q)
{ lemma_pxq(g.od, g.c.fd[0] as int, q); lemma_gm_conv(g, q % (g.c.fd[0] as int), q / (g.c.fd[0] as int)); }
pub proof fn lemma_val_i(v: i8, t: &OTI, g: Gm, q: int)
    requires gm_ok(g), 0 <= q < g.od[0] * g.od[1] * g.od[2] * g.c.fd[0], <i8 as MmT>::val(v, t, g.l, g.r, g.k, g.c.fd[0] as int, q)
    ensures okv_i(v, g.c, t, od_words(g.od, g.c.fd[0] as int), q)
{ lemma_pxq(g.od, g.c.fd[0] as int, q); lemma_gm_conv(g, q % (g.c.fd[0] as int), q / (g.c.fd[0] as int)); }
pub proof fn lemma_val_b(v: i32, t: &OTB, g: Gm, q: int)
    requires gm_ok(g), 0 <= q < g.od[0] * g.od[1] * g.od[2] * cdiv32(g.c.fd[0] as int), <i32 as MmT>::val(v, t, g.l, g.r, g.k, g.c.fd[0] as int, q)
    ensures okv_b(v, g.c, t, od_words(g.od, cdiv32(g.c.fd[0] as int)), q)
{
    let n = g.c.fd[0] as int; let w = cdiv32(n);
    lemma_pxq(g.od, w, q);
    assert forall|z: int| 0 <= z < 32 implies #[trigger] bit(v, z) == (32 * (q % w) + z < n && out_bit(t, conv(g.c, pxb(g.od, q / w), pxy(g.od, q / w), pxx(g.od, q / w), 32 * (q % w) + z), 32 * (q % w) + z)) by {
        if 32 * (q % w) + z < n { lemma_gm_conv(g, 32 * (q % w) + z, q / w); }
    }
}
@@prelude
pub open spec fn bzg(p: &ConvParams, id: Seq<i32>, od: Seq<i32>) -> Zg { Zg { nb: id[0] as int, ih: id[1] as int, iw: id[2] as int, oh: od[1] as int, ow: od[2] as int, sr: p.stride_height as int, sc: p.stride_width as int } }
pub open spec fn bzready(z: Zf, m: CPtr<F32>, p: &ConvParams, buf: CPtr<F32>, c: Cv, id: Seq<i32>, od: Seq<i32>) -> bool {
    zlinked(z, bzg(p, id, od), c) && cache_ok(z, m, buf.s@, buf.o@) && od == zod(z, bzg(p, id, od))
}
pub open spec fn okz_i(v: i8, c: Cv, t: &OTI, m: CPtr<F32>, z: Zf, g: Zg, od: Seq<i32>, q: int) -> bool { true }
pub open spec fn okz_b(v: i32, c: Cv, t: &OTB, m: CPtr<F32>, z: Zf, g: Zg, od: Seq<i32>, q: int) -> bool { true }
@@foreach S C V in f:float:F32 i:signed_char:i8 b:int:i32
@@fn compute_engine::core::bconv2d::BConv2DOptimizedBGEMM<int,$C>/13 as conv_bgemm_$S
@ghost zf: Ghost<Zf>
@ghost zm: Ghost<CPtr<F32>>
@requires
    CORC_$S(params, pad_value) ==> bzready(zf@, zm@, params, padding_buffer, bcf(params, params.dilation_height_factor as int, params.dilation_width_factor as int, input_data, input_shape@, packed_filter_data, filter_shape@), input_shape@, output_shape@),
    cgemm_pre(params, *input_shape, input_data, *filter_shape, packed_filter_data, *output_shape, *im2col_shape, old(im2col_data)@.len() as int, im2col_data_o@),
    ot_ok_$S(output_transform, filter_shape@[0] as int), 0 <= output_data_o@, output_data_o@ + output_shape@[0] * output_shape@[1] * output_shape@[2] * wordsn_$S(filter_shape@[0] as int) <= old(output_data)@.len(), output_shape@[0] * output_shape@[1] * output_shape@[2] * cdiv32(output_shape@[3] as int) <= 0x7fff_ffff,
@ensures
    final(output_data)@.len() == old(output_data)@.len(),
    !CORC_$S(params, pad_value) ==> forall|q: int| output_data_o@ <= q < output_data_o@ + output_shape@[0] * output_shape@[1] * output_shape@[2] * wordsn_$S(filter_shape@[0] as int) ==>
        okv_$S(#[trigger] final(output_data)@[q], bcf(params, params.dilation_height_factor as int, params.dilation_width_factor as int, input_data, input_shape@, packed_filter_data, filter_shape@), output_transform, od_words(output_shape@, wordsn_$S(filter_shape@[0] as int)), q - output_data_o@),
    CORC_$S(params, pad_value) ==> forall|q: int| output_data_o@ <= q < output_data_o@ + size4(output_shape@) ==> okz_$S(#[trigger] final(output_data)@[q], bcf(params, params.dilation_height_factor as int, params.dilation_width_factor as int, input_data, input_shape@, packed_filter_data, filter_shape@), output_transform, zm@, zf@, bzg(params, input_shape@, output_shape@), output_shape@, q - output_data_o@),
    forall|q: int| 0 <= q < final(output_data)@.len() && !(output_data_o@ <= q < output_data_o@ + output_shape@[0] * output_shape@[1] * output_shape@[2] * wordsn_$S(filter_shape@[0] as int)) ==> #[trigger] final(output_data)@[q] == old(output_data)@[q],
@start
    let ghost fd = filter_shape@; let ghost od = output_shape@; let ghost o0 = output_data_o@; let ghost old0 = output_data@; let ghost mut mid = output_data@;
    let ghost c = bcf(params, params.dilation_height_factor as int, params.dilation_width_factor as int, input_data, input_shape@, packed_filter_data, fd);
    let ghost kk = fd[1] * fd[2] * fd[3]; let ghost mm = od[0] * od[1] * od[2]; let ghost nw = wordsn_$S(fd[0] as int);
    proof {
        assert(0 <= mm) by (nonlinear_arith) requires mm == od[0] * od[1] * od[2], od[0] >= 0, od[1] >= 0, od[2] >= 0;
        assert(0 <= kk) by (nonlinear_arith) requires kk == fd[1] * fd[2] * fd[3], fd[1] >= 0, fd[2] >= 0, fd[3] >= 0;
        lemma_rows_of(*output_shape);
    }
@call zp_apply
    proof { mid = output_data@; }
@end
    proof {
        if !CORC_$S(params, pad_value) { mid = output_data@; }
        let g = Gm { c, l: packed_filter_data, r: rhs_data, od, k: kk };
        assert forall|q: int| o0 <= q < o0 + mm * nw implies okv_$S(#[trigger] mid[q], c, output_transform, od_words(od, nw), q - o0) by {
            lemma_val_$S(mid[q], output_transform, g, q - o0);
        }
    }
@@end
@@prelude
pub open spec fn bcf(p: &ConvParams, dh: int, dw: int, s: CPtr<i32>, id: Seq<i32>, f: CPtr<i32>, fd: Seq<i32>) -> Cv {
    Cv { s: s.s@, o: s.o@, id, f: f.s@, fo: f.o@, fd, sh: p.stride_height as int, sw: p.stride_width as int, dh, dw, ph: p.padding_values.height as int, pw: p.padding_values.width as int, g: 1, zp: false, hz: 0 }
}
pub proof fn lemma_rows_of(s: Shape) requires s@.len() == 4 ensures rows_of(s) == s@[0] * s@[1] * s@[2]
{ reveal_with_fuel(prod, 4); }
