@@prelude
// the true same-zero convolution sum: taps outside the image contribute nothing (ch: channels per group)
pub open spec fn vrow(c: Cv, ch: int, b: int, y: int, x: int, oc: int, fy: int, nx: int) -> int decreases nx { if nx <= 0 { 0 } else { vrow(c, ch, b, y, x, oc, fy, nx - 1) + (if inside(c, iny(c, y, fy), inx(c, x, nx - 1)) { ch - 2 * ch_acc(c, b, y, x, oc, fy, nx - 1, c.fd[3] as int) } else { 0 }) } }
pub open spec fn vwin(c: Cv, ch: int, b: int, y: int, x: int, oc: int, ny: int) -> int decreases ny { if ny <= 0 { 0 } else { vwin(c, ch, b, y, x, oc, ny - 1) + vrow(c, ch, b, y, x, oc, ny - 1, c.fd[2] as int) } }
pub open spec fn zconv(c: Cv, ch: int, b: int, y: int, x: int, oc: int) -> int { vwin(c, ch, b, y, x, oc, c.fd[1] as int) }
// filter and geometry of c are those of the correction
pub open spec fn zlinked(z: Zf, g: Zg, c: Cv) -> bool {
    zf_ok(z) && zg_ok(z, g) && c.f == z.f && c.fo == z.fo && c.fd == z.fd && c.dh == z.dh && c.dw == z.dw && c.sh == g.sr && c.sw == g.sc && c.id.len() == 4 && c.id[1] == g.ih && c.id[2] == g.iw && c.ph == p0(zoff(g.oh, g.sr, eh(z), g.ih)) && c.pw == p0(zoff(g.ow, g.sc, ew(z), g.iw))
}
pub proof fn lemma_out_axis(o: int, st: int, eff: int, inp: int, x: int, p: int, e: int)
    requires axis_same(o, st, eff, inp), 0 <= x < o, p == p0(zoff(o, st, eff, inp)), 0 <= e < eff
    ensures (e < zlo(o, st, eff, inp, x) || eff - e <= zhi(o, st, eff, inp, x)) == !(0 <= x * st - p + e < inp)
{ lemma_axis(o, st, eff, inp, x); }
// a tap is left out of the sum exactly when it reads outside the image
pub proof fn lemma_sel_outside(z: Zf, g: Zg, c: Cv, y: int, x: int, fy: int, fx: int)
    requires zlinked(z, g, c), 0 <= y < g.oh, 0 <= x < g.ow, 0 <= fy < z.fd[1], 0 <= fx < z.fd[2]
    ensures sel(z, ovv(z, g, y, x), fy, fx) == !inside(c, iny(c, y, fy), inx(c, x, fx))
{
    lemma_sel(z, fy, fx);
    lemma_out_axis(g.oh, g.sr, eh(z), g.ih, y, c.ph, z.dh * fy); lemma_out_axis(g.ow, g.sc, ew(z), g.iw, x, c.pw, z.dw * fx);
}
pub proof fn lemma_out_ch(z: Zf, g: Zg, c: Cv, b: int, y: int, x: int, oc: int, fy: int, fx: int, n: int)
    requires zlinked(z, g, c), 0 <= n, !inside(c, iny(c, y, fy), inx(c, x, fx)) ensures ch_acc(c, b, y, x, oc, fy, fx, n) == tpop(z, oc, fy, fx, n) decreases n
{ if n > 0 { lemma_out_ch(z, g, c, b, y, x, oc, fy, fx, n - 1); lemma_xpop_comm(0i32, zw(z, oc, fy, fx, n - 1)); } }
pub proof fn lemma_link_row(z: Zf, g: Zg, c: Cv, b: int, y: int, x: int, oc: int, fy: int, nx: int)
    requires zlinked(z, g, c), !c.zp, 0 <= y < g.oh, 0 <= x < g.ow, 0 <= fy < z.fd[1], 0 <= nx <= z.fd[2]
    ensures zrow(z, ovv(z, g, y, x), oc, fy, nx) + vrow(c, z.ch, b, y, x, oc, fy, nx) + 2 * row_acc(c, b, y, x, oc, fy, nx) == nx * z.ch decreases nx
{
    if nx > 0 {
        lemma_link_row(z, g, c, b, y, x, oc, fy, nx - 1); lemma_sel_outside(z, g, c, y, x, fy, nx - 1);
        if !inside(c, iny(c, y, fy), inx(c, x, nx - 1)) { lemma_out_ch(z, g, c, b, y, x, oc, fy, nx - 1, z.fd[3] as int); }
        assert((nx - 1) * z.ch + z.ch == nx * z.ch) by (nonlinear_arith);
    } else { assert(nx * z.ch == 0) by (nonlinear_arith) requires nx == 0; }
}
pub proof fn lemma_link_win(z: Zf, g: Zg, c: Cv, b: int, y: int, x: int, oc: int, ny: int)
    requires zlinked(z, g, c), !c.zp, 0 <= y < g.oh, 0 <= x < g.ow, 0 <= ny <= z.fd[1]
    ensures zwin(z, ovv(z, g, y, x), oc, ny) + vwin(c, z.ch, b, y, x, oc, ny) + 2 * win_acc(c, b, y, x, oc, ny) == ny * (z.fd[2] * z.ch) decreases ny
{
    let k = z.fd[2] * z.ch;
    if ny > 0 { lemma_link_win(z, g, c, b, y, x, oc, ny - 1); lemma_link_row(z, g, c, b, y, x, oc, ny - 1, z.fd[2] as int); assert((ny - 1) * k + k == ny * k) by (nonlinear_arith); }
    else { assert(ny * k == 0) by (nonlinear_arith) requires ny == 0; }
}
// with +1 padding the dot product is K - 2*conv; subtracting the correction's sum leaves the same-zero value
pub proof fn lemma_zero_padded(z: Zf, g: Zg, c: Cv, b: int, y: int, x: int, oc: int)
    requires zlinked(z, g, c), !c.zp, 0 <= y < g.oh, 0 <= x < g.ow
    ensures z.fd[1] * (z.fd[2] * z.ch) - 2 * conv(c, b, y, x, oc) - zsum(z, ovv(z, g, y, x), oc) == zconv(c, z.ch, b, y, x, oc),
        !sticks(ovv(z, g, y, x)) ==> zsum(z, ovv(z, g, y, x), oc) == 0
{
    lemma_link_win(z, g, c, b, y, x, oc, z.fd[1] as int);
    if !sticks(ovv(z, g, y, x)) { lemma_zs0_win(z, ovv(z, g, y, x), oc, z.fd[1] as int); }
}
pub proof fn lemma_zs0_row(z: Zf, v: Ov, oc: int, fy: int, nx: int) requires zf_ok(z), !sticks(v), 0 <= fy < z.fd[1], 0 <= nx <= z.fd[2] ensures zrow(z, v, oc, fy, nx) == 0 decreases nx
{ if nx > 0 { lemma_zs0_row(z, v, oc, fy, nx - 1); lemma_sel(z, fy, nx - 1); } }
pub proof fn lemma_zs0_win(z: Zf, v: Ov, oc: int, ny: int) requires zf_ok(z), !sticks(v), 0 <= ny <= z.fd[1] ensures zwin(z, v, oc, ny) == 0 decreases ny
{ if ny > 0 { lemma_zs0_win(z, v, oc, ny - 1); lemma_zs0_row(z, v, oc, ny - 1, z.fd[2] as int); } }
// the reference kernel counts an outside tap as half its channels: the same value when that number is even
pub proof fn lemma_ref_row(c: Cv, ch: int, b: int, y: int, x: int, oc: int, fy: int, nx: int) requires c.zp, 2 * c.hz == ch, 0 <= nx ensures vrow(c, ch, b, y, x, oc, fy, nx) + 2 * row_acc(c, b, y, x, oc, fy, nx) == nx * ch decreases nx
{ if nx > 0 { lemma_ref_row(c, ch, b, y, x, oc, fy, nx - 1); assert((nx - 1) * ch + ch == nx * ch) by (nonlinear_arith); } else { assert(nx * ch == 0) by (nonlinear_arith) requires nx == 0; } }
pub proof fn lemma_ref_zero(c: Cv, ch: int, b: int, y: int, x: int, oc: int, ny: int) requires c.zp, 2 * c.hz == ch, 0 <= ny, c.fd[2] >= 0 ensures vwin(c, ch, b, y, x, oc, ny) + 2 * win_acc(c, b, y, x, oc, ny) == ny * (c.fd[2] * ch) decreases ny
{ let k = c.fd[2] * ch; if ny > 0 { lemma_ref_zero(c, ch, b, y, x, oc, ny - 1); lemma_ref_row(c, ch, b, y, x, oc, ny - 1, c.fd[2] as int); assert((ny - 1) * k + k == ny * k) by (nonlinear_arith); } else { assert(ny * k == 0) by (nonlinear_arith) requires ny == 0; } }
// a corrected output element: the value of the +1-padded convolution, moved by -multiplier * (sum over the outside taps)
pub open spec fn okz_f(v: F32, c: Cv, t: &OTF, m: CPtr<F32>, z: Zf, g: Zg, od: Seq<i32>, q: int) -> bool { zok(v, out_float(t, conv(c, i0(od, q), i1(od, q), i2(od, q), i3(od, q)), i3(od, q)), m, z, g, q) }
