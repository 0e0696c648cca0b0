@@need cv i32 F32
@@need add F32
@@need sub F32
@@need mul F32
@@need lit F32
@@need fneg F32 F32 1
@@assume IEEE-754: adding two integers of absolute value at most 2^24 in single precision is exact when the sum is at most 2^24 too
@@prelude
#[verifier::external_body] pub proof fn ax_fadd_int(a: int, b: int)
    requires -0x100_0000 <= a <= 0x100_0000, -0x100_0000 <= b <= 0x100_0000, -0x100_0000 <= a + b <= 0x100_0000
    ensures sadd_F32(scv_i32_F32(a as i32), scv_i32_F32(b as i32)) == scv_i32_F32((a + b) as i32) {}
// the filter of a zero-padded convolution; ch: true number of channels of a tap
pub ghost struct Zf { pub f: Seq<i32>, pub fo: int, pub fd: Seq<i32>, pub ch: int, pub dh: int, pub dw: int }
pub open spec fn eh(z: Zf) -> int { (z.fd[1] - 1) * z.dh + 1 }
pub open spec fn ew(z: Zf) -> int { (z.fd[2] - 1) * z.dw + 1 }
pub open spec fn zw(z: Zf, oc: int, fy: int, fx: int, ic: int) -> i32 { z.f[z.fo + off4(z.fd, oc, fy, fx, ic)] }
// number of -1 weights among the first n packed channels of a tap
pub open spec fn tpop(z: Zf, oc: int, fy: int, fx: int, n: int) -> int decreases n { if n <= 0 { 0 } else { tpop(z, oc, fy, fx, n - 1) + xpop(zw(z, oc, fy, fx, n - 1), 0i32) } }
// sum of the +1/-1 weights of a tap: what an outside tap adds when the image is padded with +1
pub open spec fn tv(z: Zf, oc: int, fy: int, fx: int) -> int { z.ch - 2 * tpop(z, oc, fy, fx, z.fd[3] as int) }
// how many pixels the filter sticks out at each side
pub ghost struct Ov { pub t: int, pub b: int, pub l: int, pub r: int }
pub open spec fn sel(z: Zf, v: Ov, fy: int, fx: int) -> bool { z.dh * fy < v.t || eh(z) - z.dh * fy <= v.b || z.dw * fx < v.l || ew(z) - z.dw * fx <= v.r }
pub open spec fn zrow(z: Zf, v: Ov, oc: int, fy: int, nx: int) -> int decreases nx { if nx <= 0 { 0 } else { zrow(z, v, oc, fy, nx - 1) + (if sel(z, v, fy, nx - 1) { tv(z, oc, fy, nx - 1) } else { 0 }) } }
pub open spec fn zwin(z: Zf, v: Ov, oc: int, ny: int) -> int decreases ny { if ny <= 0 { 0 } else { zwin(z, v, oc, ny - 1) + zrow(z, v, oc, ny - 1, z.fd[2] as int) } }
// sum over all taps that stick out
pub open spec fn zsum(z: Zf, v: Ov, oc: int) -> int { zwin(z, v, oc, z.fd[1] as int) }
pub open spec fn zf_ok(z: Zf) -> bool { z.fd.len() == 4 && z.fd[0] > 0 && z.fd[1] > 0 && z.fd[2] > 0 && z.fd[3] >= 0 && z.dh > 0 && z.dw > 0 && 0 <= z.ch <= 32 * z.fd[3]
    && z.fd[2] * (64 * z.fd[3]) <= 0x100_0000 && z.fd[1] * (z.fd[2] * (64 * z.fd[3])) <= 0x100_0000 && eh(z) < 0x1000_0000 && ew(z) < 0x1000_0000 && 4 * (eh(z) * (ew(z) * z.fd[0])) <= 0x7fff_ffff }
pub proof fn lemma_tpop(z: Zf, oc: int, fy: int, fx: int, n: int) requires 0 <= n ensures 0 <= tpop(z, oc, fy, fx, n) <= 32 * n decreases n
{ if n > 0 { lemma_tpop(z, oc, fy, fx, n - 1); lemma_xpop(zw(z, oc, fy, fx, n - 1), 0i32); } }
pub proof fn lemma_tv(z: Zf, oc: int, fy: int, fx: int) requires z.fd[3] >= 0, 0 <= z.ch <= 32 * z.fd[3] ensures -(64 * z.fd[3]) <= tv(z, oc, fy, fx) <= 64 * z.fd[3]
{ lemma_tpop(z, oc, fy, fx, z.fd[3] as int); }
pub proof fn lemma_zrow(z: Zf, v: Ov, oc: int, fy: int, nx: int) requires 0 <= nx, z.fd[3] >= 0, 0 <= z.ch <= 32 * z.fd[3] ensures -(nx * (64 * z.fd[3])) <= zrow(z, v, oc, fy, nx) <= nx * (64 * z.fd[3]) decreases nx
{ if nx > 0 { lemma_zrow(z, v, oc, fy, nx - 1); lemma_tv(z, oc, fy, nx - 1); assert((nx - 1) * (64 * z.fd[3]) + 64 * z.fd[3] == nx * (64 * z.fd[3])) by (nonlinear_arith); } else { assert(nx * (64 * z.fd[3]) == 0) by (nonlinear_arith) requires nx == 0; } }
pub proof fn lemma_zwin(z: Zf, v: Ov, oc: int, ny: int) requires 0 <= ny, z.fd[2] >= 0, z.fd[3] >= 0, 0 <= z.ch <= 32 * z.fd[3] ensures ({ let k = z.fd[2] * (64 * z.fd[3]); -(ny * k) <= zwin(z, v, oc, ny) <= ny * k }) decreases ny
{ let k = z.fd[2] * (64 * z.fd[3]);
  if ny > 0 { lemma_zwin(z, v, oc, ny - 1); lemma_zrow(z, v, oc, ny - 1, z.fd[2] as int); assert((ny - 1) * k + k == ny * k) by (nonlinear_arith); } else { assert(ny * k == 0) by (nonlinear_arith) requires ny == 0; } }
// partial sums stay small
pub proof fn lemma_zpart(z: Zf, v: Ov, oc: int, fy: int, fx: int)
    requires zf_ok(z), 0 <= fy <= z.fd[1], 0 <= fx <= z.fd[2], fy < z.fd[1] || fx == 0
    ensures -0x100_0000 <= zwin(z, v, oc, fy) + zrow(z, v, oc, fy, fx) <= 0x100_0000
{
    let d = 64 * z.fd[3]; let k = z.fd[2] * d;
    lemma_zwin(z, v, oc, fy); lemma_zrow(z, v, oc, fy, fx);
    assert(fx * d <= k) by (nonlinear_arith) requires 0 <= fx <= z.fd[2], k == z.fd[2] * d, d >= 0;
    if fy < z.fd[1] { assert(fy * k + k <= z.fd[1] * k) by (nonlinear_arith) requires fy + 1 <= z.fd[1], k >= 0; }
    else { assert(fx * d == 0) by (nonlinear_arith) requires fx == 0; }
}
// cached amounts: [case, y, x, channel]
pub open spec fn zdims(z: Zf) -> Seq<i32> { seq![4i32, eh(z) as i32, ew(z) as i32, z.fd[0]] }
pub open spec fn dov(d: int, y: int, x: int) -> Ov { if d == 0 { Ov { t: y, b: 0, l: x, r: 0 } } else if d == 1 { Ov { t: y, b: 0, l: 0, r: x } } else if d == 2 { Ov { t: 0, b: y, l: x, r: 0 } } else { Ov { t: 0, b: y, l: 0, r: x } } }
pub open spec fn zamt(m: CPtr<F32>, oc: int, n: int) -> F32 { smul_F32(smul_F32(sfneg_F32(slit_F32(1065353216u32)), m.ix(oc)), scv_i32_F32(n as i32)) }
pub open spec fn cval(z: Zf, m: CPtr<F32>, d: int, y: int, x: int, oc: int) -> F32 { zamt(m, oc, zsum(z, dov(d, y, x), oc)) }
pub open spec fn cells(z: Zf) -> int { 4 * (eh(z) * (ew(z) * z.fd[0])) }
pub open spec fn cvalq(z: Zf, m: CPtr<F32>, q: int) -> F32 { let cd = zdims(z); cval(z, m, i0(cd, q), i1(cd, q), i2(cd, q), i3(cd, q)) }
pub open spec fn cache_ok(z: Zf, m: CPtr<F32>, c: Seq<F32>, o: int) -> bool { 0 <= o && o + cells(z) <= c.len() && forall|q: int| o <= q < o + cells(z) ==> #[trigger] c[q] == cvalq(z, m, q - o) }
pub proof fn lemma_sel(z: Zf, fy: int, fx: int) requires z.dh > 0, z.dw > 0, 0 <= fy < z.fd[1], 0 <= fx < z.fd[2] ensures 0 <= z.dh * fy < eh(z), 0 <= z.dw * fx < ew(z)
{ assert(0 <= z.dh * fy <= (z.fd[1] - 1) * z.dh) by (nonlinear_arith) requires 0 <= fy <= z.fd[1] - 1, z.dh > 0; assert(0 <= z.dw * fx <= (z.fd[2] - 1) * z.dw) by (nonlinear_arith) requires 0 <= fx <= z.fd[2] - 1, z.dw > 0; }
pub proof fn lemma_cell(z: Zf, d: int, y: int, x: int, oc: int)
    requires zf_ok(z), 0 <= d < 4, 0 <= y < eh(z), 0 <= x < ew(z), 0 <= oc < z.fd[0]
    ensures ({ let cd = zdims(z); let q = off4(cd, d, y, x, oc); let cs = eh(z) * ew(z) * z.fd[0]; let ys = ew(z) * z.fd[0]; size4(cd) == cells(z) && 0 <= q < cells(z) && i0(cd, q) == d && i1(cd, q) == y && i2(cd, q) == x && i3(cd, q) == oc
        && q == d * cs + y * ys + x * z.fd[0] + oc && 0 <= d * cs && 0 <= y * ys && 0 <= x * z.fd[0] && cells(z) == 4 * cs && x * z.fd[0] + oc < ys && y * ys + ys <= cs && d * cs + cs <= cells(z) && 0 < ys <= cs && 0 < eh(z) * ew(z) <= cs })
{
    let cd = zdims(z); let h = eh(z); let w = ew(z); let n = z.fd[0] as int; let ys = w * n; let cs = h * w * n;
    assert(cs == h * ys) by (nonlinear_arith) requires cs == h * w * n, ys == w * n;
    lemma_coords(cd, d, y, x, oc);
    assert(size4(cd) == 4 * h * w * n);
    assert(4 * h * w * n == 4 * cs) by (nonlinear_arith) requires cs == h * w * n;
    assert(((d * h + y) * w + x) * n + oc == d * cs + y * ys + x * n + oc) by (nonlinear_arith) requires cs == h * w * n, ys == w * n;
    assert(x * n + oc < ys && x * n >= 0) by (nonlinear_arith) requires 0 <= x < w, 0 <= oc < n, ys == w * n;
    assert(y * ys + ys <= cs && y * ys >= 0 && ys > 0) by (nonlinear_arith) requires 0 <= y < h, ys == w * n, w > 0, n > 0, cs == h * ys;
    assert(h * w > 0 && h * w <= cs) by (nonlinear_arith) requires h > 0, w > 0, n > 0, cs == h * w * n;
    assert(d * cs + cs <= 4 * cs && d * cs >= 0) by (nonlinear_arith) requires 0 <= d < 4, cs > 0;
}
// cells written before (y, x, oc) in loop order
pub open spec fn zbefore(cd: Seq<i32>, q: int, y: int, x: int, oc: int) -> bool { i1(cd, q) < y || (i1(cd, q) == y && (i2(cd, q) < x || (i2(cd, q) == x && i3(cd, q) < oc))) }
pub open spec fn zdone(cd: Seq<i32>, q: int, y: int, x: int, oc: int, d: int) -> bool { zbefore(cd, q, y, x, oc) || (i1(cd, q) == y && i2(cd, q) == x && i3(cd, q) == oc && i0(cd, q) < d) }
pub open spec fn zinv(z: Zf, m: CPtr<F32>, c: Seq<F32>, c0: Seq<F32>, o: int, y: int, x: int, oc: int, d: int) -> bool {
    c.len() == c0.len() && (forall|q: int| o <= q < o + cells(z) && zdone(zdims(z), q - o, y, x, oc, d) ==> #[trigger] c[q] == cvalq(z, m, q - o)) && (forall|q: int| 0 <= q < c.len() && !(o <= q < o + cells(z)) ==> #[trigger] c[q] == c0[q])
}
@@fn compute_engine::core::bconv2d::zero_padding_correction::GetCacheSize/5 as zp_cache_size
@requires
    filter_height > 0, filter_width > 0, filter_count > 0, dilation_rows > 0, dilation_cols > 0, (filter_height - 1) * dilation_rows < 0xfff_ffff, (filter_width - 1) * dilation_cols < 0xfff_ffff,
    4 * (((filter_height - 1) * dilation_rows + 1) * (((filter_width - 1) * dilation_cols + 1) * filter_count)) <= 0x7fff_ffff,
@ensures
    r == 4 * (((filter_height - 1) * dilation_rows + 1) * (((filter_width - 1) * dilation_cols + 1) * filter_count)),
@start
    proof {
        let h = (filter_height - 1) * dilation_rows + 1; let w = (filter_width - 1) * dilation_cols + 1; let n = filter_count as int;
        assert(h >= 1 && w >= 1) by (nonlinear_arith) requires h == (filter_height - 1) * dilation_rows + 1, w == (filter_width - 1) * dilation_cols + 1, filter_height > 0, filter_width > 0, dilation_rows > 0, dilation_cols > 0;
        assert(4 * h * w * n == 4 * (h * (w * n)) && 0 <= 4 * h * w <= 4 * h * w * n && 4 * h <= 4 * h * w) by (nonlinear_arith) requires h >= 1, w >= 1, n >= 1;
    }
@@prelude
pub open spec fn zfc(f: CPtr<i32>, fh: i32, fw: i32, fc: i32, ch: i32, dr: i32, dc: i32) -> Zf { Zf { f: f.s@, fo: f.o@, fd: seq![fc, fh, fw, cdiv32(ch as int) as i32], ch: ch as int, dh: dr as int, dw: dc as int } }
pub open spec fn zc(z: Zf, d: int, y: int, x: int, oc: int, fy: int, fx: int) -> int { zwin(z, dov(d, y, x), oc, fy) + zrow(z, dov(d, y, x), oc, fy, fx) }
pub open spec fn zcor(z: Zf, c: Seq<F32>, y: int, x: int, oc: int, fy: int, fx: int) -> bool {
    c.len() == 4 && c[0] == scv_i32_F32(zc(z, 0, y, x, oc, fy, fx) as i32) && c[1] == scv_i32_F32(zc(z, 1, y, x, oc, fy, fx) as i32) && c[2] == scv_i32_F32(zc(z, 2, y, x, oc, fy, fx) as i32) && c[3] == scv_i32_F32(zc(z, 3, y, x, oc, fy, fx) as i32)
}
// exactness of the four additions for one tap
pub proof fn lemma_zstep(z: Zf, y: int, x: int, oc: int, fy: int, fx: int)
    requires zf_ok(z), 0 <= fy < z.fd[1], 0 <= fx < z.fd[2]
    ensures forall|d: int| 0 <= d < 4 ==> ({ let n = zc(z, d, y, x, oc, fy, fx); let n2 = zc(z, d, y, x, oc, fy, fx + 1); if sel(z, #[trigger] dov(d, y, x), fy, fx) { n2 == n + tv(z, oc, fy, fx) && scv_i32_F32(n2 as i32) == sadd_F32(scv_i32_F32(n as i32), scv_i32_F32(tv(z, oc, fy, fx) as i32)) } else { n2 == n } })
{
    lemma_tv(z, oc, fy, fx);
    assert(64 * z.fd[3] <= 0x100_0000) by (nonlinear_arith) requires z.fd[2] * (64 * z.fd[3]) <= 0x100_0000, z.fd[2] >= 1, z.fd[3] >= 0;
    assert forall|d: int| 0 <= d < 4 implies ({ let n = zc(z, d, y, x, oc, fy, fx); let n2 = zc(z, d, y, x, oc, fy, fx + 1); if sel(z, #[trigger] dov(d, y, x), fy, fx) { n2 == n + tv(z, oc, fy, fx) && scv_i32_F32(n2 as i32) == sadd_F32(scv_i32_F32(n as i32), scv_i32_F32(tv(z, oc, fy, fx) as i32)) } else { n2 == n } }) by {
        let v = dov(d, y, x);
        lemma_zpart(z, v, oc, fy, fx);
        if fx + 1 < z.fd[2] { lemma_zpart(z, v, oc, fy, fx + 1); } else { lemma_zpart(z, v, oc, fy, fx + 1); }
        if sel(z, v, fy, fx) { ax_fadd_int(zc(z, d, y, x, oc, fy, fx), tv(z, oc, fy, fx)); }
    }
}
pub proof fn lemma_zcoord(z: Zf, q: int) requires zf_ok(z), 0 <= q < cells(z)
    ensures ({ let cd = zdims(z); 0 <= i0(cd, q) < 4 && 0 <= i1(cd, q) < eh(z) && 0 <= i2(cd, q) < ew(z) && 0 <= i3(cd, q) < z.fd[0] && off4(cd, i0(cd, q), i1(cd, q), i2(cd, q), i3(cd, q)) == q })
{
    assert(eh(z) >= 1 && ew(z) >= 1) by (nonlinear_arith) requires eh(z) == (z.fd[1] - 1) * z.dh + 1, ew(z) == (z.fd[2] - 1) * z.dw + 1, z.fd[1] > 0, z.fd[2] > 0, z.dh > 0, z.dw > 0;
    lemma_cell(z, 0, 0, 0, 0); lemma_recompose(zdims(z), q);
}
pub proof fn lemma_zcarry(z: Zf, m: CPtr<F32>, c: Seq<F32>, c0: Seq<F32>, o: int, y: int, x: int)
    requires zf_ok(z), 0 <= o
    ensures zinv(z, m, c, c0, o, y, x, z.fd[0] as int, 0) ==> zinv(z, m, c, c0, o, y, x + 1, 0, 0), zinv(z, m, c, c0, o, y, ew(z), 0, 0) ==> zinv(z, m, c, c0, o, y + 1, 0, 0, 0), zinv(z, m, c, c0, o, eh(z), 0, 0, 0) && o + cells(z) <= c.len() ==> cache_ok(z, m, c, o),
        forall|oc: int| #[trigger] zinv(z, m, c, c0, o, y, x, oc, 4) ==> zinv(z, m, c, c0, o, y, x, oc + 1, 0), c == c0 ==> zinv(z, m, c, c0, o, 0, 0, 0, 0)
{
    assert forall|q: int| o <= q < o + cells(z) implies (0 <= i0(zdims(z), q - o) < 4 && 0 <= i1(zdims(z), q - o) < eh(z) && 0 <= i2(zdims(z), q - o) < ew(z) && 0 <= #[trigger] i3(zdims(z), q - o) < z.fd[0]) by { lemma_zcoord(z, q - o); }
}
// one more cell
pub proof fn lemma_zwrite(z: Zf, m: CPtr<F32>, c: Seq<F32>, c0: Seq<F32>, o: int, y: int, x: int, oc: int, d: int)
    requires zf_ok(z), 0 <= o, o + cells(z) <= c.len(), 0 <= y < eh(z), 0 <= x < ew(z), 0 <= oc < z.fd[0], 0 <= d < 4, zinv(z, m, c, c0, o, y, x, oc, d)
    ensures ({ let q = d * (eh(z) * ew(z) * z.fd[0]) + y * (ew(z) * z.fd[0]) + x * z.fd[0] + oc; 0 <= q < cells(z) && zinv(z, m, c.update(o + q, cval(z, m, d, y, x, oc)), c0, o, y, x, oc, d + 1) })
{
    lemma_cell(z, d, y, x, oc);
    let cd = zdims(z); let q = off4(cd, d, y, x, oc); let c2 = c.update(o + q, cval(z, m, d, y, x, oc));
    assert forall|p: int| o <= p < o + cells(z) && zdone(cd, p - o, y, x, oc, d + 1) implies #[trigger] c2[p] == cvalq(z, m, p - o) by {
        lemma_zcoord(z, p - o);
        if p != o + q { assert(zdone(cd, p - o, y, x, oc, d)); assert(c[p] == cvalq(z, m, p - o)); }
    }
    assert forall|p: int| 0 <= p < c2.len() && !(o <= p < o + cells(z)) implies #[trigger] c2[p] == c0[p] by { assert(c[p] == c0[p]); }
}
pub open spec fn cc_pre(z: Zf, f: CPtr<i32>, m: CPtr<F32>) -> bool { zf_ok(z) && f.ok(size4(z.fd)) && size4(z.fd) <= 0x7fff_ffff && m.ok(z.fd[0] as int) }
pub proof fn lemma_fidx(z: Zf, oc: int, fy: int, fx: int, ic: int)
    requires zf_ok(z), 0 <= oc < z.fd[0], 0 <= fy < z.fd[1], 0 <= fx < z.fd[2], 0 <= ic < z.fd[3], size4(z.fd) <= 0x7fff_ffff
    ensures ({ let pc = z.fd[3] as int; let fw = z.fd[2] as int; let a = fw * pc; let fh = z.fd[1] as int; let b = fh * fw * pc; 0 <= fh * fw <= b && 0 <= a <= b <= 0x7fff_ffff && 0 <= oc * b && 0 <= fy * a && 0 <= fx * pc && oc * b + fy * a + fx * pc + ic == off4(z.fd, oc, fy, fx, ic) && off4(z.fd, oc, fy, fx, ic) < size4(z.fd) })
{
    let pc = z.fd[3] as int; let fw = z.fd[2] as int; let a = fw * pc; let fh = z.fd[1] as int; let b = fh * fw * pc; let n = z.fd[0] as int;
    lemma_off4_bound(z.fd, oc, fy, fx, ic);
    assert(a >= 1 && b == fh * a && b >= a && fh * fw >= 1 && fh * fw <= b) by (nonlinear_arith) requires a == fw * pc, b == fh * fw * pc, pc >= 1, fw >= 1, fh >= 1;
    assert(size4(z.fd) == n * b) by (nonlinear_arith) requires size4(z.fd) == n * fh * fw * pc, b == fh * fw * pc;
    assert(b <= n * b && oc * b >= 0) by (nonlinear_arith) requires n >= 1, b >= 0, oc >= 0;
    assert(fy * a >= 0 && fx * pc >= 0) by (nonlinear_arith) requires fy >= 0, a >= 0, fx >= 0, pc >= 0;
    assert(((oc * fh + fy) * fw + fx) * pc + ic == oc * b + fy * a + fx * pc + ic) by (nonlinear_arith) requires a == fw * pc, b == fh * fw * pc;
}
@@fn compute_engine::core::bconv2d::zero_padding_correction::CacheCorrectionValues/9 as zp_cache
@rlimit 100
@requires
    cc_pre(zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), filter_data, post_activation_multiplier_data), input_channels >= 0, input_channels < 0x1000_0000,
    0 <= output_cache_o@, output_cache_o@ + cells(zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols)) <= old(output_cache)@.len(),
@ensures
    final(output_cache)@.len() == old(output_cache)@.len(), cache_ok(zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), post_activation_multiplier_data, final(output_cache)@, output_cache_o@),
    forall|q: int| 0 <= q < final(output_cache)@.len() && !(output_cache_o@ <= q < output_cache_o@ + cells(zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols))) ==> #[trigger] final(output_cache)@[q] == old(output_cache)@[q],
@start
    let ghost z = zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols); let ghost m = post_activation_multiplier_data; let ghost c0 = output_cache@; let ghost o0 = output_cache_o@; let ghost H = eh(z); let ghost W = ew(z);
    proof {
        assert(H >= 1 && W >= 1 && (z.fd[1] - 1) * z.dh >= 0 && (z.fd[2] - 1) * z.dw >= 0) by (nonlinear_arith) requires H == (z.fd[1] - 1) * z.dh + 1, W == (z.fd[2] - 1) * z.dw + 1, z.fd[1] > 0, z.fd[2] > 0, z.dh > 0, z.dw > 0;
        lemma_zcarry(z, m, c0, c0, o0, 0, 0);
    }
@loop 0 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), m == post_activation_multiplier_data, H == eh(z), W == ew(z), H >= 1, W >= 1, cc_pre(z, filter_data, m), effective_filter_height == H, effective_filter_width == W, o0 == output_cache_o@, 0 <= o0, o0 + cells(z) <= c0.len(), 0 <= input_channels < 0x1000_0000,
    0 <= y <= H, zinv(z, m, output_cache@, c0, o0, y as int, 0, 0, 0),
@loop 0 dec
    H - y
@loop 0 end
    proof { lemma_zcarry(z, m, output_cache@, c0, o0, y as int, 0); }
@loop 0.0 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), m == post_activation_multiplier_data, H == eh(z), W == ew(z), H >= 1, W >= 1, cc_pre(z, filter_data, m), effective_filter_height == H, effective_filter_width == W, o0 == output_cache_o@, 0 <= o0, o0 + cells(z) <= c0.len(), 0 <= input_channels < 0x1000_0000,
    0 <= y < H, 0 <= x <= W, zinv(z, m, output_cache@, c0, o0, y as int, x as int, 0, 0),
@loop 0.0 dec
    W - x
@loop 0.0 end
    proof { lemma_zcarry(z, m, output_cache@, c0, o0, y as int, x as int); }
@loop 0.0.0 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), m == post_activation_multiplier_data, H == eh(z), W == ew(z), H >= 1, W >= 1, cc_pre(z, filter_data, m), effective_filter_height == H, effective_filter_width == W, o0 == output_cache_o@, 0 <= o0, o0 + cells(z) <= c0.len(), 0 <= input_channels < 0x1000_0000,
    0 <= y < H, 0 <= x < W, 0 <= out_c <= filter_count, zinv(z, m, output_cache@, c0, o0, y as int, x as int, out_c as int, 0),
@loop 0.0.0 dec
    filter_count - out_c
@loop 0.0.0 end
    proof { lemma_zcarry(z, m, output_cache@, c0, o0, y as int, x as int); }
@loop 0.0.0.0 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), cc_pre(z, filter_data, m), H == eh(z), W == ew(z), effective_filter_height == H, effective_filter_width == W, 0 <= input_channels < 0x1000_0000,
    0 <= y < H, 0 <= x < W, 0 <= out_c < filter_count, 0 <= filter_y <= filter_height, zcor(z, corrections@, y as int, x as int, out_c as int, filter_y as int, 0),
@loop 0.0.0.0 dec
    filter_height - filter_y
@loop 0.0.0.0.0 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), cc_pre(z, filter_data, m), H == eh(z), W == ew(z), effective_filter_height == H, effective_filter_width == W, 0 <= input_channels < 0x1000_0000,
    0 <= y < H, 0 <= x < W, 0 <= out_c < filter_count, 0 <= filter_y < filter_height, 0 <= filter_x <= filter_width, zcor(z, corrections@, y as int, x as int, out_c as int, filter_y as int, filter_x as int),
@loop 0.0.0.0.0 dec
    filter_width - filter_x
@loop 0.0.0.0.0 begin
    proof {
        lemma_zstep(z, y as int, x as int, out_c as int, filter_y as int, filter_x as int); lemma_sel(z, filter_y as int, filter_x as int); lemma_tpop(z, out_c as int, filter_y as int, filter_x as int, z.fd[3] as int);
        assert(64 * z.fd[3] <= 0x100_0000) by (nonlinear_arith) requires z.fd[2] * (64 * z.fd[3]) <= 0x100_0000, z.fd[2] >= 1, z.fd[3] >= 0;
        let v0 = dov(0, y as int, x as int); let v1 = dov(1, y as int, x as int); let v2 = dov(2, y as int, x as int); let v3 = dov(3, y as int, x as int);
    }
@loop 0.0.0.0.0.0 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), cc_pre(z, filter_data, m), packed_channels == z.fd[3],
    0 <= out_c < filter_count, 0 <= filter_y < filter_height, 0 <= filter_x < filter_width, 0 <= in_c <= packed_channels, popcount == tpop(z, out_c as int, filter_y as int, filter_x as int, in_c as int), 0 <= popcount <= 32 * in_c, 64 * packed_channels <= 0x100_0000,
@loop 0.0.0.0.0.0 dec
    packed_channels - in_c
@loop 0.0.0.0.0.0 begin
    proof { lemma_fidx(z, out_c as int, filter_y as int, filter_x as int, in_c as int); }
@loop 0.0.0.1 inv
    z == zfc(filter_data, filter_height, filter_width, filter_count, input_channels, dilation_rows, dilation_cols), m == post_activation_multiplier_data, H == eh(z), W == ew(z), cc_pre(z, filter_data, m), effective_filter_height == H, effective_filter_width == W, o0 == output_cache_o@, 0 <= o0, o0 + cells(z) <= c0.len(),
    0 <= y < H, 0 <= x < W, 0 <= out_c < filter_count, 0 <= direction <= 4, zcor(z, corrections@, y as int, x as int, out_c as int, filter_height as int, 0), zinv(z, m, output_cache@, c0, o0, y as int, x as int, out_c as int, direction as int),
@loop 0.0.0.1 dec
    4 - direction
@loop 0.0.0.1 begin
    proof { lemma_cell(z, direction as int, y as int, x as int, out_c as int); lemma_zwrite(z, m, output_cache@, c0, o0, y as int, x as int, out_c as int, direction as int); }
@end
    proof { lemma_zcarry(z, m, output_cache@, c0, o0, 0, 0); }
@@prelude
// output geometry of the zero-padded convolution
pub ghost struct Zg { pub nb: int, pub ih: int, pub iw: int, pub oh: int, pub ow: int, pub sr: int, pub sc: int }
pub open spec fn zoff(o: int, st: int, eff: int, inp: int) -> int { tdiv((o - 1) * st + eff - inp, 2) }
// how far the filter sticks out at the low / high end of one axis
pub open spec fn zlo(o: int, st: int, eff: int, inp: int, x: int) -> int { zoff(o, st, eff, inp) - x * st }
pub open spec fn zhi(o: int, st: int, eff: int, inp: int, x: int) -> int { -zlo(o, st, eff, inp, x) - inp + eff }
pub open spec fn ovv(z: Zf, g: Zg, y: int, x: int) -> Ov { Ov { t: zlo(g.oh, g.sr, eh(z), g.ih, y), b: zhi(g.oh, g.sr, eh(z), g.ih, y), l: zlo(g.ow, g.sc, ew(z), g.iw, x), r: zhi(g.ow, g.sc, ew(z), g.iw, x) } }
pub open spec fn sticks(v: Ov) -> bool { v.t > 0 || v.b > 0 || v.l > 0 || v.r > 0 }
pub open spec fn axis_same(o: int, st: int, eff: int, inp: int) -> bool { 0 < inp < 0x1000_0000 && 0 < st < 0x1000_0000 && 0 <= o < 0x1000_0000 && 0 < eff < 0x1000_0000 && (o - 1) * st < inp }
pub open spec fn zg_ok(z: Zf, g: Zg) -> bool { axis_same(g.oh, g.sr, eh(z), g.ih) && axis_same(g.ow, g.sc, ew(z), g.iw) && g.nb >= 0 && g.nb * g.oh * g.ow * z.fd[0] <= 0x7fff_ffff && g.nb < 0x1000_0000 }
pub open spec fn zod(z: Zf, g: Zg) -> Seq<i32> { seq![g.nb as i32, g.oh as i32, g.ow as i32, z.fd[0]] }
// a correction that is computed from the sums over corners and sides
pub open spec fn split8(p: Seq<int>, n: int) -> bool { p.len() == 8 && p[0] + p[1] + p[2] + p[3] - (p[4] + p[5] + p[6] + p[7]) == n }
pub open spec fn amt8(m: CPtr<F32>, oc: int, p: Seq<int>) -> F32 {
    ssub_F32(sadd_F32(sadd_F32(sadd_F32(zamt(m, oc, p[0]), zamt(m, oc, p[1])), zamt(m, oc, p[2])), zamt(m, oc, p[3])), sadd_F32(sadd_F32(sadd_F32(zamt(m, oc, p[4]), zamt(m, oc, p[5])), zamt(m, oc, p[6])), zamt(m, oc, p[7])))
}
// new = old - multiplier * n
pub open spec fn moved(new: F32, old: F32, m: CPtr<F32>, oc: int, n: int) -> bool { new == sadd_F32(old, zamt(m, oc, n)) || exists|p: Seq<int>| #[trigger] split8(p, n) && new == sadd_F32(old, amt8(m, oc, p)) }
pub open spec fn zok(new: F32, old: F32, m: CPtr<F32>, z: Zf, g: Zg, q: int) -> bool {
    let v = ovv(z, g, i1(zod(z, g), q), i2(zod(z, g), q)); let oc = i3(zod(z, g), q);
    if sticks(v) { moved(new, old, m, oc, zsum(z, v, oc)) } else { new == old }
}
pub open spec fn same(z: Zf, v: Ov, w: Ov) -> bool { forall|oc: int| zsum(z, v, oc) == #[trigger] zsum(z, w, oc) }
pub open spec fn p0(x: int) -> int { if x > 0 { x } else { 0 } }
pub open spec fn covers(v: Ov, w: Ov) -> bool { p0(v.t) == p0(w.t) && p0(v.b) == p0(w.b) && p0(v.l) == p0(w.l) && p0(v.r) == p0(w.r) }
pub proof fn lemma_congr_row(z: Zf, v: Ov, w: Ov, oc: int, fy: int, nx: int) requires zf_ok(z), covers(v, w), 0 <= fy < z.fd[1], 0 <= nx <= z.fd[2] ensures zrow(z, v, oc, fy, nx) == zrow(z, w, oc, fy, nx) decreases nx
{ if nx > 0 { lemma_congr_row(z, v, w, oc, fy, nx - 1); lemma_sel(z, fy, nx - 1); } }
pub proof fn lemma_congr_win(z: Zf, v: Ov, w: Ov, oc: int, ny: int) requires zf_ok(z), covers(v, w), 0 <= ny <= z.fd[1] ensures zwin(z, v, oc, ny) == zwin(z, w, oc, ny) decreases ny
{ if ny > 0 { lemma_congr_win(z, v, w, oc, ny - 1); lemma_congr_row(z, v, w, oc, ny - 1, z.fd[2] as int); } }
pub proof fn lemma_congr(z: Zf, v: Ov) requires zf_ok(z) ensures forall|d: int, y: int, x: int| covers(v, #[trigger] dov(d, y, x)) ==> same(z, v, dov(d, y, x))
{
    assert forall|d: int, y: int, x: int| covers(v, #[trigger] dov(d, y, x)) implies same(z, v, dov(d, y, x)) by {
        assert forall|oc: int| zsum(z, v, oc) == #[trigger] zsum(z, dov(d, y, x), oc) by { lemma_congr_win(z, v, dov(d, y, x), oc, z.fd[1] as int); }
    }
}
// union over the four sides from sums over corners and sides
pub open spec fn opp(z: Zf, v: Ov) -> bool { (v.t <= 0 || v.b <= 0 || v.t + v.b < eh(z)) && (v.l <= 0 || v.r <= 0 || v.l + v.r < ew(z)) }
pub open spec fn c0(v: Ov) -> Ov { dov(0, p0(v.t), p0(v.l)) }
pub open spec fn c1(v: Ov) -> Ov { dov(1, p0(v.t), p0(v.r)) }
pub open spec fn c2(v: Ov) -> Ov { dov(2, p0(v.b), p0(v.l)) }
pub open spec fn c3(v: Ov) -> Ov { dov(3, p0(v.b), p0(v.r)) }
pub open spec fn s0(v: Ov) -> Ov { dov(0, p0(v.t), 0) }
pub open spec fn s1(v: Ov) -> Ov { dov(0, 0, p0(v.l)) }
pub open spec fn s2(v: Ov) -> Ov { dov(3, p0(v.b), 0) }
pub open spec fn s3(v: Ov) -> Ov { dov(3, 0, p0(v.r)) }
pub proof fn lemma_ie_row(z: Zf, v: Ov, oc: int, fy: int, nx: int) requires zf_ok(z), opp(z, v), 0 <= fy < z.fd[1], 0 <= nx <= z.fd[2]
    ensures zrow(z, v, oc, fy, nx) == zrow(z, c0(v), oc, fy, nx) + zrow(z, c1(v), oc, fy, nx) + zrow(z, c2(v), oc, fy, nx) + zrow(z, c3(v), oc, fy, nx) - (zrow(z, s0(v), oc, fy, nx) + zrow(z, s1(v), oc, fy, nx) + zrow(z, s2(v), oc, fy, nx) + zrow(z, s3(v), oc, fy, nx)) decreases nx
{ if nx > 0 { lemma_ie_row(z, v, oc, fy, nx - 1); lemma_sel(z, fy, nx - 1); } }
pub proof fn lemma_ie(z: Zf, v: Ov, oc: int, ny: int) requires zf_ok(z), opp(z, v), 0 <= ny <= z.fd[1]
    ensures zwin(z, v, oc, ny) == zwin(z, c0(v), oc, ny) + zwin(z, c1(v), oc, ny) + zwin(z, c2(v), oc, ny) + zwin(z, c3(v), oc, ny) - (zwin(z, s0(v), oc, ny) + zwin(z, s1(v), oc, ny) + zwin(z, s2(v), oc, ny) + zwin(z, s3(v), oc, ny)) decreases ny
{ if ny > 0 { lemma_ie(z, v, oc, ny - 1); lemma_ie_row(z, v, oc, ny - 1, z.fd[2] as int); } }
// SAME padding: neither side sticks out by the whole filter, and the two sides together by less
pub proof fn lemma_axis(o: int, st: int, eff: int, inp: int, x: int)
    requires axis_same(o, st, eff, inp), 0 <= x < o
    ensures ({ let lo = zlo(o, st, eff, inp, x); let hi = zhi(o, st, eff, inp, x); lo < eff && hi < eff && lo + hi == eff - inp && -0x1000_0000 < lo && hi > -0x2000_0000 && 0 <= x * st <= (o - 1) * st && -0x1000_0000 < (o - 1) * st + eff - inp < 0x1000_0000 && -0x800_0000 <= zoff(o, st, eff, inp) < 0x800_0000 })
{
    assert(0 <= x * st <= (o - 1) * st) by (nonlinear_arith) requires 0 <= x <= o - 1, st > 0;
}
// from a pixel where nothing sticks out up to where the right side does
pub open spec fn zskip(o: int, st: int, eff: int, inp: int) -> int { tdiv(inp + zoff(o, st, eff, inp) - eff + st - 1, st) }
pub proof fn lemma_skip(o: int, st: int, eff: int, inp: int, x: int)
    requires axis_same(o, st, eff, inp), 0 <= x < o, zlo(o, st, eff, inp, x) <= 0, zhi(o, st, eff, inp, x) <= 0
    ensures -0x4000_0000 < zskip(o, st, eff, inp) < 0x4000_0000, 0 <= inp + zoff(o, st, eff, inp) - eff + st - 1 < 0x4000_0000, forall|w: int| x <= w < o && (w < zskip(o, st, eff, inp) || w == x) ==> #[trigger] zlo(o, st, eff, inp, w) <= 0 && zhi(o, st, eff, inp, w) <= 0
{
    lemma_axis(o, st, eff, inp, x);
    let a = inp + zoff(o, st, eff, inp) - eff; let n = a + st - 1; let k = zskip(o, st, eff, inp);
    assert(x * st <= a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, st);
    assert(k == n / st);
    assert(0 <= k <= n) by (nonlinear_arith) requires n == st * k + n % st, 0 <= n % st < st, n >= 0, st > 0;
    assert forall|w: int| x <= w < o && (w < k || w == x) implies #[trigger] zlo(o, st, eff, inp, w) <= 0 && zhi(o, st, eff, inp, w) <= 0 by {
        assert(x * st <= w * st) by (nonlinear_arith) requires x <= w, st > 0;
        if w < k { assert(w * st < a) by (nonlinear_arith) requires w + 1 <= k, st * k <= n, n == a + st - 1, st > 0; }
    }
}
// everything before position n is right, everything else untouched
pub open spec fn zapp(z: Zf, g: Zg, m: CPtr<F32>, c: Seq<F32>, old: Seq<F32>, o: int, n: int) -> bool {
    c.len() == old.len() && (forall|q: int| o <= q < o + n ==> zok(#[trigger] c[q], old[q], m, z, g, q - o)) && (forall|q: int| 0 <= q < c.len() && !(o <= q < o + n) ==> #[trigger] c[q] == old[q])
}
pub proof fn lemma_zpx(z: Zf, g: Zg, b: int, y: int, x: int)
    requires zf_ok(z), zg_ok(z, g), 0 <= b < g.nb, 0 <= y < g.oh, 0 <= x < g.ow
    ensures ({ let od = zod(z, g); let p = off4(od, b, y, x, 0); let fc = z.fd[0] as int; 0 <= p && p + fc <= size4(od) && size4(od) == g.nb * g.oh * g.ow * fc && p + fc == off4(od, b, y, x + 1, 0) && (forall|oc: int| 0 <= oc < fc ==> #[trigger] i3(od, p + oc) == oc && i2(od, p + oc) == x && i1(od, p + oc) == y)
        && p == ((b * g.oh + y) * g.ow + x) * fc && 0 <= b * g.oh && b * g.oh + y <= (b * g.oh + y) * g.ow + x && 0 <= (b * g.oh + y) * g.ow <= (b * g.oh + y) * g.ow + x && (b * g.oh + y) * g.ow + x <= p + fc
        && p == b * g.oh * g.ow * fc + y * g.ow * fc + x * fc && 0 <= b * g.oh <= b * g.oh * g.ow && b * g.oh * g.ow <= b * g.oh * g.ow * fc && 0 <= y * g.ow <= y * g.ow * fc && 0 <= x * fc && b * g.oh * g.ow * fc <= p && y * g.ow * fc <= p })
{
    let od = zod(z, g); let p = off4(od, b, y, x, 0); let fc = z.fd[0] as int; let u = (b * g.oh + y) * g.ow + x;
    lemma_off4_bound(od, b, y, x, 0); lemma_off4_carry(od, b, y, x, fc);
    assert(off4(od, b, y, x, fc) == p + fc);
    assert forall|oc: int| 0 <= oc < fc implies #[trigger] i3(od, p + oc) == oc && i2(od, p + oc) == x && i1(od, p + oc) == y by { lemma_coords(od, b, y, x, oc); }
    assert(0 <= b * g.oh && 0 <= (b * g.oh + y) * g.ow && b * g.oh + y <= (b * g.oh + y) * g.ow) by (nonlinear_arith) requires 0 <= b, 0 <= y, g.oh >= 1, g.ow >= 1;
    assert(u * fc >= u) by (nonlinear_arith) requires u >= 0, fc >= 1;
    assert(u * fc == b * g.oh * g.ow * fc + y * g.ow * fc + x * fc) by (nonlinear_arith) requires u == (b * g.oh + y) * g.ow + x;
    assert(b * g.oh <= b * g.oh * g.ow && b * g.oh * g.ow <= b * g.oh * g.ow * fc) by (nonlinear_arith) requires b * g.oh >= 0, g.ow >= 1, fc >= 1;
    assert(0 <= y * g.ow <= y * g.ow * fc) by (nonlinear_arith) requires y >= 0, g.ow >= 1, fc >= 1;
    assert(0 <= x * fc) by (nonlinear_arith) requires x >= 0, fc >= 1;
}
pub proof fn lemma_zend(z: Zf, g: Zg, b: int, y: int)
    ensures ({ let od = zod(z, g); off4(od, b, y, g.ow, 0) == off4(od, b, y + 1, 0, 0) && off4(od, b, g.oh, 0, 0) == off4(od, b + 1, 0, 0, 0) && off4(od, g.nb, 0, 0, 0) == size4(od) && off4(od, 0, 0, 0, 0) == 0 }) || !(0 <= g.oh < 0x1000_0000 && 0 <= g.ow < 0x1000_0000 && 0 <= g.nb < 0x1000_0000)
{ let od = zod(z, g); lemma_off4_carry(od, b, y, od[2] as int, 0); lemma_off4_carry(od, b, od[1] as int, 0, 0); }
// nothing sticks out: advance without touching anything
pub proof fn lemma_zadv(z: Zf, g: Zg, m: CPtr<F32>, c: Seq<F32>, old: Seq<F32>, o: int, b: int, y: int, x: int, e: int)
    requires zf_ok(z), zg_ok(z, g), 0 <= b < g.nb, 0 <= y < g.oh, 0 <= x <= e <= g.ow, 0 <= o, o + size4(zod(z, g)) <= c.len(), zapp(z, g, m, c, old, o, off4(zod(z, g), b, y, x, 0)), forall|w: int| x <= w < e ==> !sticks(#[trigger] ovv(z, g, y, w))
    ensures zapp(z, g, m, c, old, o, off4(zod(z, g), b, y, e, 0)) decreases e - x
{
    if x < e {
        lemma_zpx(z, g, b, y, x);
        let od = zod(z, g); let p = off4(od, b, y, x, 0); let fc = z.fd[0] as int;
        assert(!sticks(ovv(z, g, y, x)));
        assert forall|q: int| o <= q < o + p + fc implies zok(#[trigger] c[q], old[q], m, z, g, q - o) by {
            if q >= o + p { let oc = q - o - p; lemma_coords(od, b, y, x, oc); assert(q - o == off4(od, b, y, x, oc)); assert(c[q] == old[q]); }
        }
        assert(zapp(z, g, m, c, old, o, p + fc));
        lemma_zadv(z, g, m, c, old, o, b, y, x + 1, e);
    }
}
pub proof fn lemma_zone(z: Zf, g: Zg, m: CPtr<F32>, c: Seq<F32>, old: Seq<F32>, o: int, b: int, y: int, x: int, oc: int, val: F32)
    requires zf_ok(z), zg_ok(z, g), 0 <= b < g.nb, 0 <= y < g.oh, 0 <= x < g.ow, 0 <= o, o + size4(zod(z, g)) <= c.len(), 0 <= oc < z.fd[0], zapp(z, g, m, c, old, o, off4(zod(z, g), b, y, x, 0) + oc), sticks(ovv(z, g, y, x)),
    ensures ({ let q = o + off4(zod(z, g), b, y, x, 0) + oc; 0 <= q < c.len() && c[q] == old[q] && (moved(val, c[q], m, oc, zsum(z, ovv(z, g, y, x), oc)) ==> zapp(z, g, m, c.update(q, val), old, o, off4(zod(z, g), b, y, x, 0) + oc + 1)) })
{
    lemma_zpx(z, g, b, y, x);
    let od = zod(z, g); let p = off4(od, b, y, x, 0); let q0 = o + p + oc; let cc = c.update(q0, val);
    lemma_coords(od, b, y, x, oc); assert(p + oc == off4(od, b, y, x, oc));
    if moved(val, c[q0], m, oc, zsum(z, ovv(z, g, y, x), oc)) {
        assert forall|q: int| o <= q < o + p + oc + 1 implies zok(#[trigger] cc[q], old[q], m, z, g, q - o) by { if q != q0 { assert(zok(c[q], old[q], m, z, g, q - o)); } else { assert(q - o == p + oc); } }
        assert forall|q: int| 0 <= q < cc.len() && !(o <= q < o + p + oc + 1) implies #[trigger] cc[q] == old[q] by { assert(c[q] == old[q]); }
    }
}
// a cached value
pub proof fn lemma_cread(z: Zf, m: CPtr<F32>, c: Seq<F32>, o: int, d: int, y: int, x: int, oc: int)
    requires zf_ok(z), cache_ok(z, m, c, o), 0 <= d < 4, 0 <= y < eh(z), 0 <= x < ew(z), 0 <= oc < z.fd[0]
    ensures ({ let ys = ew(z) * z.fd[0]; let cs = eh(z) * ys; let q = d * cs + y * ys + x * z.fd[0] + oc; 0 <= q < cells(z) && 0 <= d * cs <= cells(z) && 0 <= y * ys <= q && 0 <= x * z.fd[0] <= q && 0 < ys && ys <= cs && cells(z) == 4 * cs && cs == eh(z) * ew(z) * z.fd[0] && 0 < eh(z) * ew(z) <= cs && d * cs + y * ys <= q && y * ys <= cs && x * z.fd[0] <= ys && c[o + q] == zamt(m, oc, zsum(z, dov(d, y, x), oc)) })
{
    lemma_cell(z, d, y, x, oc);
    let q = off4(zdims(z), d, y, x, oc); let h = eh(z); let w = ew(z); let n = z.fd[0] as int;
    assert(h * w * n == h * (w * n)) by (nonlinear_arith);
    assert(c[o + q] == cvalq(z, m, o + q - o));
}
pub proof fn lemma_four(z: Zf, m: CPtr<F32>, c: Seq<F32>, o: int, v: Ov, oc: int)
    requires zf_ok(z), cache_ok(z, m, c, o), opp(z, v), 0 <= oc < z.fd[0], v.t < eh(z), v.b < eh(z), v.l < ew(z), v.r < ew(z)
    ensures ({ let n = z.fd[0] as int; let ys = ew(z) * n; let cs = eh(z) * ys; let t = p0(v.t); let b = p0(v.b); let l = p0(v.l); let r = p0(v.r); let e = o + oc;
        let p = seq![zsum(z, c0(v), oc), zsum(z, c1(v), oc), zsum(z, c2(v), oc), zsum(z, c3(v), oc), zsum(z, s0(v), oc), zsum(z, s1(v), oc), zsum(z, s2(v), oc), zsum(z, s3(v), oc)];
        split8(p, zsum(z, v, oc)) && 0 < ys <= cs && 4 * cs == cells(z) && 0 <= t * ys <= cs && 0 <= b * ys <= cs && 0 <= l * n <= ys && 0 <= r * n <= ys && t * ys + l * n + oc < cs && t * ys + r * n + oc < cs && b * ys + l * n + oc < cs && b * ys + r * n + oc < cs && o + cells(z) <= c.len() && o >= 0
        && c[e + (t * ys + l * n)] == zamt(m, oc, p[0]) && c[e + (cs + t * ys + r * n)] == zamt(m, oc, p[1]) && c[e + (2 * cs + b * ys + l * n)] == zamt(m, oc, p[2]) && c[e + (3 * cs + b * ys + r * n)] == zamt(m, oc, p[3])
        && c[e + t * ys] == zamt(m, oc, p[4]) && c[e + l * n] == zamt(m, oc, p[5]) && c[e + (3 * cs + b * ys)] == zamt(m, oc, p[6]) && c[e + (3 * cs + r * n)] == zamt(m, oc, p[7]) })
{
    let t = p0(v.t); let b = p0(v.b); let l = p0(v.l); let r = p0(v.r);
    assert(eh(z) >= 1 && ew(z) >= 1) by (nonlinear_arith) requires eh(z) == (z.fd[1] - 1) * z.dh + 1, ew(z) == (z.fd[2] - 1) * z.dw + 1, z.fd[1] > 0, z.fd[2] > 0, z.dh > 0, z.dw > 0;
    lemma_cread(z, m, c, o, 0, t, l, oc); lemma_cread(z, m, c, o, 1, t, r, oc); lemma_cread(z, m, c, o, 2, b, l, oc); lemma_cread(z, m, c, o, 3, b, r, oc);
    lemma_cread(z, m, c, o, 0, t, 0, oc); lemma_cread(z, m, c, o, 0, 0, l, oc); lemma_cread(z, m, c, o, 3, b, 0, oc); lemma_cread(z, m, c, o, 3, 0, r, oc);
    lemma_cell(z, 0, t, l, oc); lemma_cell(z, 0, t, r, oc); lemma_cell(z, 0, b, l, oc); lemma_cell(z, 0, b, r, oc);
    lemma_ie(z, v, oc, z.fd[1] as int);
}
pub open spec fn zp_same(z: Zf, g: Zg, b: i32, ih: i32, iw: i32, fh: i32, fw: i32, fc: i32, sr: i32, sc: i32, dr: i32, dc: i32, oh: i32, ow: i32) -> bool {
    z.fd.len() == 4 && z.fd[0] == fc && z.fd[1] == fh && z.fd[2] == fw && z.dh == dr && z.dw == dc && g == (Zg { nb: b as int, ih: ih as int, iw: iw as int, oh: oh as int, ow: ow as int, sr: sr as int, sc: sc as int })
}
@@fn compute_engine::core::bconv2d::zero_padding_correction::ApplyCorrection/15 as zp_apply
@rlimit 100
@ghost zf: Ghost<Zf>
@ghost zm: Ghost<CPtr<F32>>
@requires
    zf_ok(zf@), cache_ok(zf@, zm@, padding_cache.s@, padding_cache.o@), zg_ok(zf@, Zg { nb: input_batches as int, ih: input_height as int, iw: input_width as int, oh: output_height as int, ow: output_width as int, sr: stride_rows as int, sc: stride_cols as int }), zp_same(zf@, Zg { nb: input_batches as int, ih: input_height as int, iw: input_width as int, oh: output_height as int, ow: output_width as int, sr: stride_rows as int, sc: stride_cols as int }, input_batches, input_height, input_width, filter_height, filter_width, filter_count, stride_rows, stride_cols, dilation_rows, dilation_cols, output_height, output_width),
    0 <= output_data_o@, output_data_o@ + size4(zod(zf@, Zg { nb: input_batches as int, ih: input_height as int, iw: input_width as int, oh: output_height as int, ow: output_width as int, sr: stride_rows as int, sc: stride_cols as int })) <= old(output_data)@.len(),
@ensures
    zapp(zf@, Zg { nb: input_batches as int, ih: input_height as int, iw: input_width as int, oh: output_height as int, ow: output_width as int, sr: stride_rows as int, sc: stride_cols as int }, zm@, final(output_data)@, old(output_data)@, output_data_o@, size4(zod(zf@, Zg { nb: input_batches as int, ih: input_height as int, iw: input_width as int, oh: output_height as int, ow: output_width as int, sr: stride_rows as int, sc: stride_cols as int }))),
@start
    let ghost z = zf@; let ghost m = zm@; let ghost g = Zg { nb: input_batches as int, ih: input_height as int, iw: input_width as int, oh: output_height as int, ow: output_width as int, sr: stride_rows as int, sc: stride_cols as int }; let ghost c0_ = output_data@; let ghost o0 = output_data_o@; let ghost od = zod(z, g); let ghost fc = z.fd[0] as int; let ghost H = eh(z); let ghost W = ew(z);
    proof {
        assert(H >= 1 && W >= 1 && (z.fd[1] - 1) * z.dh >= 0 && (z.fd[2] - 1) * z.dw >= 0) by (nonlinear_arith) requires H == (z.fd[1] - 1) * z.dh + 1, W == (z.fd[2] - 1) * z.dw + 1, z.fd[1] > 0, z.fd[2] > 0, z.dh > 0, z.dw > 0;
        lemma_zend(z, g, 0, 0);
        assert(-0x1000_0000 <= (g.oh - 1) * g.sr) by (nonlinear_arith) requires g.oh >= 0, 0 < g.sr < 0x1000_0000;
        assert(-0x1000_0000 <= (g.ow - 1) * g.sc) by (nonlinear_arith) requires g.ow >= 0, 0 < g.sc < 0x1000_0000;
    }
@loop 0 inv
    zf_ok(z), zg_ok(z, g), zp_same(z, g, input_batches, input_height, input_width, filter_height, filter_width, filter_count, stride_rows, stride_cols, dilation_rows, dilation_cols, output_height, output_width), cache_ok(z, m, padding_cache.s@, padding_cache.o@), H == eh(z), W == ew(z), H >= 1, W >= 1, fc == z.fd[0], od == zod(z, g), effective_filter_height == H, effective_filter_width == W, filter_top_offset == zoff(g.oh, g.sr, H, g.ih), filter_left_offset == zoff(g.ow, g.sc, W, g.iw), o0 == output_data_o@, 0 <= o0, o0 + size4(od) <= c0_.len(), output_data@.len() == c0_.len(), 0 <= batch <= input_batches || input_batches <= batch == 0, zapp(z, g, m, output_data@, c0_, o0, off4(od, batch as int, 0, 0, 0)),
@loop 0 dec
    input_batches - batch
@loop 0 begin
    proof { lemma_zend(z, g, batch as int, 0); }
@loop 0.0 inv
    zf_ok(z), zg_ok(z, g), zp_same(z, g, input_batches, input_height, input_width, filter_height, filter_width, filter_count, stride_rows, stride_cols, dilation_rows, dilation_cols, output_height, output_width), cache_ok(z, m, padding_cache.s@, padding_cache.o@), H == eh(z), W == ew(z), H >= 1, W >= 1, fc == z.fd[0], od == zod(z, g), effective_filter_height == H, effective_filter_width == W, filter_top_offset == zoff(g.oh, g.sr, H, g.ih), filter_left_offset == zoff(g.ow, g.sc, W, g.iw), o0 == output_data_o@, 0 <= o0, o0 + size4(od) <= c0_.len(), output_data@.len() == c0_.len(), 0 <= batch < input_batches, 0 <= out_y <= output_height, zapp(z, g, m, output_data@, c0_, o0, off4(od, batch as int, out_y as int, 0, 0)),
@loop 0.0 dec
    output_height - out_y
@loop 0.0 begin
    proof { lemma_zend(z, g, batch as int, out_y as int); lemma_axis(g.oh, g.sr, H, g.ih, out_y as int); }
@loop 0.0.0 inv
    zf_ok(z), zg_ok(z, g), zp_same(z, g, input_batches, input_height, input_width, filter_height, filter_width, filter_count, stride_rows, stride_cols, dilation_rows, dilation_cols, output_height, output_width), cache_ok(z, m, padding_cache.s@, padding_cache.o@), H == eh(z), W == ew(z), H >= 1, W >= 1, fc == z.fd[0], od == zod(z, g), effective_filter_height == H, effective_filter_width == W, filter_top_offset == zoff(g.oh, g.sr, H, g.ih), filter_left_offset == zoff(g.ow, g.sc, W, g.iw), o0 == output_data_o@, 0 <= o0, o0 + size4(od) <= c0_.len(), output_data@.len() == c0_.len(), 0 <= batch < input_batches, 0 <= out_y < output_height, 0 <= out_x < 0x4000_0000, zapp(z, g, m, output_data@, c0_, o0, off4(od, batch as int, out_y as int, imin(out_x as int, output_width as int), 0)),
    overflow_top == zlo(g.oh, g.sr, H, g.ih, out_y as int), overflow_bot == zhi(g.oh, g.sr, H, g.ih, out_y as int),
@loop 0.0.0 dec
    0x4000_0000 - out_x
@loop 0.0.0 begin
    let ghost v = ovv(z, g, out_y as int, out_x as int); let ghost p = off4(od, batch as int, out_y as int, out_x as int, 0);
    proof {
        lemma_axis(g.ow, g.sc, W, g.iw, out_x as int); lemma_axis(g.oh, g.sr, H, g.ih, out_y as int); lemma_zpx(z, g, batch as int, out_y as int, out_x as int);
        if !sticks(v) {
            let k = zskip(g.ow, g.sc, W, g.iw); let y = out_y as int; let x = out_x as int;
            lemma_skip(g.ow, g.sc, W, g.iw, x);
            assert forall|w: int| x <= w < g.ow && (w < k || w == x) implies !sticks(#[trigger] ovv(z, g, y, w)) by { assert(zlo(g.ow, g.sc, W, g.iw, w) <= 0); }
            lemma_zadv(z, g, m, output_data@, c0_, o0, batch as int, y, x, x + 1);
            if k > x + 1 { lemma_zadv(z, g, m, output_data@, c0_, o0, batch as int, y, x, imin(k, g.ow)); }
        }
        lemma_congr(z, v);
    }
@decl y_size before
    proof { lemma_four(z, m, padding_cache.s@, padding_cache.o@, v, 0); }
@decl cache_idx before
    proof { lemma_cread(z, m, padding_cache.s@, padding_cache.o@, case_num as int, cache_Y as int, cache_X as int, 0); assert(covers(v, dov(case_num as int, cache_Y as int, cache_X as int))); }
@loop 0.0.0.0 inv
    zf_ok(z), zg_ok(z, g), zp_same(z, g, input_batches, input_height, input_width, filter_height, filter_width, filter_count, stride_rows, stride_cols, dilation_rows, dilation_cols, output_height, output_width), cache_ok(z, m, padding_cache.s@, padding_cache.o@), H == eh(z), W == ew(z), H >= 1, W >= 1, fc == z.fd[0], od == zod(z, g), effective_filter_height == H, effective_filter_width == W, filter_top_offset == zoff(g.oh, g.sr, H, g.ih), filter_left_offset == zoff(g.ow, g.sc, W, g.iw), o0 == output_data_o@, 0 <= o0, o0 + size4(od) <= c0_.len(), output_data@.len() == c0_.len(), 0 <= batch < input_batches, 0 <= out_y < output_height, 0 <= out_x < output_width, v == ovv(z, g, out_y as int, out_x as int), sticks(v), p == off4(od, batch as int, out_y as int, out_x as int, 0), idx == p, 0 <= out_c <= filter_count, zapp(z, g, m, output_data@, c0_, o0, p + out_c),
    top == p0(v.t), bot == p0(v.b), left == p0(v.l), right == p0(v.r), y_size == W * fc, case_size == H * (W * fc), opp(z, v), v.t < H, v.b < H, v.l < W, v.r < W,
@loop 0.0.0.0 dec
    filter_count - out_c
@loop 0.0.0.0 begin
    proof {
        lemma_four(z, m, padding_cache.s@, padding_cache.o@, v, out_c as int); lemma_zpx(z, g, batch as int, out_y as int, out_x as int);
        let oc = out_c as int;
        let sp = seq![zsum(z, c0(v), oc), zsum(z, c1(v), oc), zsum(z, c2(v), oc), zsum(z, c3(v), oc), zsum(z, s0(v), oc), zsum(z, s1(v), oc), zsum(z, s2(v), oc), zsum(z, s3(v), oc)];
        let val = sadd_F32(output_data@[o0 + p + oc], amt8(m, oc, sp));
        assert(split8(sp, zsum(z, v, oc)));
        lemma_zone(z, g, m, output_data@, c0_, o0, batch as int, out_y as int, out_x as int, oc, val);
    }
@loop 0.0.0.0 after
    proof { lemma_zpx(z, g, batch as int, out_y as int, out_x as int); }
@loop 0.0.0.1 inv
    zf_ok(z), zg_ok(z, g), zp_same(z, g, input_batches, input_height, input_width, filter_height, filter_width, filter_count, stride_rows, stride_cols, dilation_rows, dilation_cols, output_height, output_width), cache_ok(z, m, padding_cache.s@, padding_cache.o@), H == eh(z), W == ew(z), H >= 1, W >= 1, fc == z.fd[0], od == zod(z, g), effective_filter_height == H, effective_filter_width == W, filter_top_offset == zoff(g.oh, g.sr, H, g.ih), filter_left_offset == zoff(g.ow, g.sc, W, g.iw), o0 == output_data_o@, 0 <= o0, o0 + size4(od) <= c0_.len(), output_data@.len() == c0_.len(), 0 <= batch < input_batches, 0 <= out_y < output_height, 0 <= out_x < output_width, v == ovv(z, g, out_y as int, out_x as int), sticks(v), p == off4(od, batch as int, out_y as int, out_x as int, 0), 0 <= out_c <= filter_count, zapp(z, g, m, output_data@, c0_, o0, p + out_c),
    0 <= case_num < 4, 0 <= cache_Y < H, 0 <= cache_X < W, same(z, v, dov(case_num as int, cache_Y as int, cache_X as int)),
    cache_ptr.s@ == padding_cache.s@, cache_ptr.o@ == padding_cache.o@ + case_num * (H * W * fc) + cache_Y * (W * fc) + cache_X * fc + out_c, output_ptr_o@ == o0 + p + out_c,
@loop 0.0.0.1 dec
    filter_count - out_c
@loop 0.0.0.1 begin
    proof {
        let oc = out_c as int; let n = zsum(z, dov(case_num as int, cache_Y as int, cache_X as int), oc);
        lemma_cread(z, m, padding_cache.s@, padding_cache.o@, case_num as int, cache_Y as int, cache_X as int, oc);
        assert(zsum(z, v, oc) == n);
        lemma_zone(z, g, m, output_data@, c0_, o0, batch as int, out_y as int, out_x as int, oc, sadd_F32(output_data@[o0 + p + oc], zamt(m, oc, n)));
    }
@loop 0.0.0.1 after
    proof { lemma_zpx(z, g, batch as int, out_y as int, out_x as int); }
@end
    proof { lemma_zend(z, g, 0, 0); }
