@@include popc.vs
@@prelude
// a convolution problem: input, filter and geometry
pub ghost struct Cv { pub s: Seq<i32>, pub o: int, pub id: Seq<i32>, pub f: Seq<i32>, pub fo: int, pub fd: Seq<i32>,
    pub sh: int, pub sw: int, pub dh: int, pub dw: int, pub ph: int, pub pw: int, pub g: int, pub zp: bool, pub hz: int }
pub open spec fn inside(c: Cv, y: int, x: int) -> bool { 0 <= y < c.id[1] && 0 <= x < c.id[2] }
// packed input word of a tap; taps outside the image read as 0 (all +1)
pub open spec fn tap_in(c: Cv, b: int, y: int, x: int, ch: int) -> i32 { if inside(c, y, x) { c.s[c.o + off4(c.id, b, y, x, ch)] } else { 0i32 } }
pub open spec fn flt(c: Cv, oc: int, fy: int, fx: int, ch: int) -> i32 { c.f[c.fo + off4(c.fd, oc, fy, fx, ch)] }
pub open spec fn cpg(c: Cv) -> int { tdiv(c.fd[0] as int, c.g) }
pub open spec fn chbase(c: Cv, oc: int) -> int { tdiv(oc, cpg(c)) * c.fd[3] }
pub open spec fn iny(c: Cv, y: int, fy: int) -> int { y * c.sh - c.ph + c.dh * fy }
pub open spec fn inx(c: Cv, x: int, fx: int) -> int { x * c.sw - c.pw + c.dw * fx }
// differing bits over the first n packed channels of one tap
pub open spec fn ch_acc(c: Cv, b: int, y: int, x: int, oc: int, fy: int, fx: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { ch_acc(c, b, y, x, oc, fy, fx, n - 1) + xpop(tap_in(c, b, iny(c, y, fy), inx(c, x, fx), chbase(c, oc) + (n - 1)), flt(c, oc, fy, fx, n - 1)) }
}
// one tap: with same-zero padding an outside tap counts as half the channels (value 0)
pub open spec fn tap_acc(c: Cv, b: int, y: int, x: int, oc: int, fy: int, fx: int) -> int {
    if c.zp && !inside(c, iny(c, y, fy), inx(c, x, fx)) { c.hz } else { ch_acc(c, b, y, x, oc, fy, fx, c.fd[3] as int) }
}
pub open spec fn row_acc(c: Cv, b: int, y: int, x: int, oc: int, fy: int, nx: int) -> int decreases nx {
    if nx <= 0 { 0 } else { row_acc(c, b, y, x, oc, fy, nx - 1) + tap_acc(c, b, y, x, oc, fy, nx - 1) }
}
pub open spec fn win_acc(c: Cv, b: int, y: int, x: int, oc: int, ny: int) -> int decreases ny {
    if ny <= 0 { 0 } else { win_acc(c, b, y, x, oc, ny - 1) + row_acc(c, b, y, x, oc, ny - 1, c.fd[2] as int) }
}
// the convolution definition: differing bits of output (b, y, x, oc)
pub open spec fn conv(c: Cv, b: int, y: int, x: int, oc: int) -> int { win_acc(c, b, y, x, oc, c.fd[1] as int) }

pub proof fn lemma_ch_bound(c: Cv, b: int, y: int, x: int, oc: int, fy: int, fx: int, n: int)
    requires 0 <= n ensures 0 <= ch_acc(c, b, y, x, oc, fy, fx, n) <= 32 * n decreases n
{ if n > 0 { lemma_ch_bound(c, b, y, x, oc, fy, fx, n - 1); lemma_xpop(tap_in(c, b, iny(c, y, fy), inx(c, x, fx), chbase(c, oc) + (n - 1)), flt(c, oc, fy, fx, n - 1)); } }
pub proof fn lemma_row_bound(c: Cv, b: int, y: int, x: int, oc: int, fy: int, nx: int)
    requires 0 <= nx, 0 <= c.fd[3], 0 <= c.hz <= 32 * c.fd[3] ensures 0 <= row_acc(c, b, y, x, oc, fy, nx) <= nx * (32 * c.fd[3]) decreases nx
{ if nx > 0 { lemma_row_bound(c, b, y, x, oc, fy, nx - 1); lemma_ch_bound(c, b, y, x, oc, fy, nx - 1, c.fd[3] as int);
    assert((nx - 1) * (32 * c.fd[3]) + 32 * c.fd[3] == nx * (32 * c.fd[3])) by (nonlinear_arith); } else { assert(nx * (32 * c.fd[3]) == 0) by (nonlinear_arith) requires nx == 0; } }
pub proof fn lemma_win_bound(c: Cv, b: int, y: int, x: int, oc: int, ny: int)
    requires 0 <= ny, 0 <= c.fd[2], 0 <= c.fd[3], 0 <= c.hz <= 32 * c.fd[3] ensures 0 <= win_acc(c, b, y, x, oc, ny) <= ny * (c.fd[2] * (32 * c.fd[3])) decreases ny
{ let k = c.fd[2] * (32 * c.fd[3]);
  if ny > 0 { lemma_win_bound(c, b, y, x, oc, ny - 1); lemma_row_bound(c, b, y, x, oc, ny - 1, c.fd[2] as int);
    assert((ny - 1) * k + k == ny * k) by (nonlinear_arith); } else { assert(ny * k == 0) by (nonlinear_arith) requires ny == 0; } }
// number of differing bits fits comfortably
pub open spec fn bits_ok(fd: Seq<i32>) -> bool { fd[1] * (fd[2] * (32 * fd[3])) < 0x2000_0000 && fd[2] * (32 * fd[3]) < 0x2000_0000 && 32 * fd[3] < 0x2000_0000 }
pub proof fn lemma_conv_bound(c: Cv, b: int, y: int, x: int, oc: int)
    requires 0 <= c.fd[1], 0 <= c.fd[2], 0 <= c.fd[3], 0 <= c.hz <= 32 * c.fd[3], bits_ok(c.fd)
    ensures accum_ok(conv(c, b, y, x, oc))
{ lemma_win_bound(c, b, y, x, oc, c.fd[1] as int); }
pub proof fn lemma_mono(x: int, n: int, s: int) requires 0 <= x < n, s > 0 ensures 0 <= x * s <= (n - 1) * s, x <= x * s
{ assert(0 <= x * s <= (n - 1) * s && x <= x * s) by (nonlinear_arith) requires 0 <= x < n, s > 0; }
pub open spec fn axis_ok(out: int, st: int, flt: int, dil: int, pad: int, inp: int) -> bool {
    st > 0 && dil > 0 && 0 <= out * st < 0x1000_0000 && 0 <= flt * dil < 0x1000_0000 && 0 <= pad < 0x1000_0000 && inp < 0x1000_0000
}
// channel group arithmetic
pub proof fn lemma_group(fd0: int, g: int, oc: int, q: int)
    requires g > 0, q == tdiv(fd0, g), q * g == fd0, 0 <= oc < fd0
    ensures q > 0, 0 <= tdiv(oc, q) < g, tdiv(oc, q) * q <= oc < tdiv(oc, q) * q + q
{
    assert(q > 0) by (nonlinear_arith) requires q * g == fd0, fd0 > 0, g > 0;
    let r = oc / q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(oc, q);
    assert(r * q <= oc < r * q + q) by (nonlinear_arith) requires oc == q * r + oc % q, 0 <= oc % q < q;
    assert(0 <= r) by (nonlinear_arith) requires r * q + q > 0, q > 0;
    assert(r < g) by (nonlinear_arith) requires r * q <= oc, oc < q * g, q > 0;
}
pub proof fn lemma_chan(gr: int, g: int, d: int, tot: int, ic: int)
    requires 0 <= gr < g, 0 <= ic < d, d * g == tot
    ensures 0 <= gr * d + ic < tot
{ assert(0 <= gr * d + ic < tot) by (nonlinear_arith) requires 0 <= gr < g, 0 <= ic < d, d * g == tot; }
// a bit-packed output word: bit k of word w belongs to channel 32*w+k
pub open spec fn bits_word(w: i32, c: Cv, t: &OTB, b: int, y: int, x: int, cw: int, n: int) -> bool {
    forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w, k) == (32 * cw + k < n && out_bit(t, conv(c, b, y, x, 32 * cw + k), 32 * cw + k))
}
pub open spec fn okv_f(v: F32, c: Cv, t: &OTF, od: Seq<i32>, q: int) -> bool { v == out_float(t, conv(c, i0(od, q), i1(od, q), i2(od, q), i3(od, q)), i3(od, q)) }
pub open spec fn okv_i(v: i8, c: Cv, t: &OTI, od: Seq<i32>, q: int) -> bool { v == out_int8(t, conv(c, i0(od, q), i1(od, q), i2(od, q), i3(od, q)), i3(od, q)) }
pub open spec fn okv_b(v: i32, c: Cv, t: &OTB, od: Seq<i32>, q: int) -> bool { bits_word(v, c, t, i0(od, q), i1(od, q), i2(od, q), i3(od, q), c.fd[0] as int) }
pub open spec fn ochan_f(fd: Seq<i32>, od: Seq<i32>) -> bool { od[3] == fd[0] }
pub open spec fn ochan_i(fd: Seq<i32>, od: Seq<i32>) -> bool { od[3] == fd[0] }
pub open spec fn ochan_b(fd: Seq<i32>, od: Seq<i32>) -> bool { od[3] == cdiv32(fd[0] as int) }
pub open spec fn ot_ok_f(t: &OTF, n: int) -> bool { t.multiplier.ok(n) && t.bias.ok(n) }
pub open spec fn ot_ok_i(t: &OTI, n: int) -> bool { t.multiplier.ok(n) && t.bias.ok(n) }
pub open spec fn ot_ok_b(t: &OTB, n: int) -> bool { t.thresholds.ok(n) }
// coordinates of output pixel p
pub open spec fn pxb(od: Seq<i32>, p: int) -> int { (p / (od[2] as int)) / (od[1] as int) }
pub open spec fn pxy(od: Seq<i32>, p: int) -> int { (p / (od[2] as int)) % (od[1] as int) }
pub open spec fn pxx(od: Seq<i32>, p: int) -> int { p % (od[2] as int) }
pub proof fn lemma_xpop_comm(a: i32, b: i32) ensures xpop(a, b) == xpop(b, a)
{ assert(a ^ b == b ^ a) by (bit_vector); }
pub proof fn lemma_bit_zero(k: int) requires 0 <= k < 32 ensures !bit(0i32, k)
{ let k2 = k as u32; assert(((0i32 as u32) >> k2) & 1u32 == 0u32) by (bit_vector); }
pub proof fn lemma_or_bit(w: i32, j: int)
    requires 0 <= j < 32
    ensures forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w | sshl_i32(1, j), k) == (k == j || bit(w, k))
{
    let j2 = j as u32; let m = sshl_i32(1, j);
    assert(m == (((1i32 as u32) << j2) as i32));
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w | m, k) == (k == j || bit(w, k)) by {
        let k2 = k as u32;
        assert((((w | ((((1i32 as u32) << j2) as i32))) as u32) >> k2) & 1u32 == (if k2 == j2 { 1u32 } else { ((w as u32) >> k2) & 1u32 })) by (bit_vector) requires j2 < 32, k2 < 32;
    }
}
@@need int << i32
@@need int | i32
