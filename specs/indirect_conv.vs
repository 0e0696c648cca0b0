@@prelude
// a prepared kernel for convolution c: weights packed, indirection buffer filled
pub open spec fn ci_like(c: Cv, ci: Cv) -> bool {
    ci.s == c.s && ci.o == c.o && ci.id == c.id && ci.fd.len() == 4 && ci.fd[1] == c.fd[1] && ci.fd[2] == c.fd[2] && ci.sh == c.sh && ci.sw == c.sw && ci.dh == c.dh && ci.dw == c.dw && ci.ph == c.ph && ci.pw == c.pw
}
pub open spec fn k_geo(k: Kernel, c: Cv, od: Seq<i32>) -> bool {
    pk_ok(&k) && k.block_size_output_channels == 4 && k.block_size_pixels == 2 && k.block_size_depth == 1
    && c.id.len() == 4 && c.fd.len() == 4 && od.len() == 4 && c.fd[0] == k.output_channels && c.fd[1] > 0 && c.fd[2] > 0 && c.fd[1] * c.fd[2] == k.filter_size && c.fd[3] == pkdims(&k).d && c.g == k.groups && c.id[3] == k.input_depth
    && c.id[0] > 0 && od[1] > 0 && od[2] > 0 && k.num_output_pixels == c.id[0] * od[1] * od[2]
}
pub open spec fn k_holds(k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>) -> bool {
    k_geo(k, c, od) && !c.zp && ci_like(c, ci) && filled_ok(&k, ci, od) && (exists|w: CPtr<i32>| w.s@ == c.f && w.o@ == c.fo && #[trigger] packed_ok(&k, w))
    && h.dom().contains(OBJ_IN()) && h.dom().contains(OBJ_ZERO()) && h[OBJ_IN()] == c.s && h[OBJ_ZERO()] == k.zero_buffer@
}
// one input word of one tap
pub proof fn lemma_kin(k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>, p: int, fy: int, fx: int, ch: int)
    requires k_holds(k, h, c, ci, od), 0 <= p < k.num_output_pixels, 0 <= fy < c.fd[1], 0 <= fx < c.fd[2], 0 <= ch < c.id[3]
    ensures k_in(k, h, (p / 2) * 2, p % 2, fy * c.fd[2] + fx, ch) == tap_in(c, pxb(od, p), iny(c, pxy(od, p), fy), inx(c, pxx(od, p), fx), ch)
{
    let n = k.num_output_pixels as int; let fs = k.filter_size as int; let nt = ntiles(&k); let t = p / 2; let o = p % 2; let fi = fy * c.fd[2] + fx;
    assert(0 <= fi < fs) by (nonlinear_arith) requires 0 <= fy < c.fd[1], 0 <= fx < c.fd[2], fi == fy * c.fd[2] + fx, fs == c.fd[1] * c.fd[2];
    assert(0 <= t < nt);
    lemma_epos(2, fs, t, fi, o, nt);
    let q = e_pos(2, fs, t, fi, o);
    assert(q == (p / 2) * 2 * fs + 2 * fi + o);
    assert(entry_ok(ci, od, 2, fs, n, q, k.indirection_buffer@[q]));
    assert(e_p(2, fs, n, q) == p);
    lemma_dm(fy, c.fd[2] as int, fx);
    assert(ch < fs * k.input_depth) by (nonlinear_arith) requires 0 <= ch < k.input_depth, fs > 0;
}
pub proof fn lemma_kwt(k: Kernel, c: Cv, g: int, blk: int, j: int, fy: int, fx: int, n: int, w: CPtr<i32>)
    requires pk_ok(&k), packed_ok(&k, w), w.s@ == c.f, w.o@ == c.fo, k.block_size_output_channels == 4, k.block_size_depth == 1, c.fd[1] * c.fd[2] == k.filter_size, c.fd[3] == pkdims(&k).d, 0 <= fy < c.fd[1], 0 <= fx < c.fd[2],
        0 <= g < k.groups, 0 <= blk < pkdims(&k).nb, 0 <= j < 4, blk * 4 + j < pkdims(&k).oc, 0 <= n < pkdims(&k).d
    ensures k_wt(k, g * pkdims(&k).nb + blk, fy * c.fd[2] + fx, n, j) == flt(c, g * pkdims(&k).oc + blk * 4 + j, fy, fx, n)
{
    let p = pkdims(&k); let fi = fy * c.fd[2] + fx; let fs = k.filter_size as int;
    lemma_pk(&k);
    assert(p.nc == p.d) by (nonlinear_arith) requires p.nc * p.bd == p.d, p.bd == 1;
    assert(0 <= fi < fs) by (nonlinear_arith) requires 0 <= fy < c.fd[1], 0 <= fx < c.fd[2], fi == fy * c.fd[2] + fx, fs == c.fd[1] * c.fd[2];
    lemma_pos(p, g, blk, fi, n, j, 0);
    let q = pos(p, g, blk, fi, n, j, 0);
    assert(p.bo * p.bd == 4) by (nonlinear_arith) requires p.bo == 4, p.bd == 1;
    assert(p.nc * (p.bo * p.bd) == 4 * p.d) by (nonlinear_arith) requires p.bo * p.bd == 4, p.nc == p.d;
    assert(q == ((g * p.nb + blk) * fs + fi) * (4 * p.d) + 4 * n + j);
    assert(pw_ok(p, w, q, k.packed_weights@[q]));
    let oc = g * p.oc + blk * 4 + j; let d = p.d; let fh = c.fd[1] as int; let fw = c.fd[2] as int;
    assert(oc * ((fh * fw) * d) + fi * d + n == ((oc * fh + fy) * fw + fx) * d + n) by (nonlinear_arith) requires fi == fy * fw + fx;
    assert(widx(p, g, blk * 4 + j, fi, n) == off4(c.fd, oc, fy, fx, n));
    assert(n * p.bd + 0 == n);
}
pub open spec fn chan_of(k: Kernel, g: int, blk: int, j: int) -> int { g * pkdims(&k).oc + blk * 4 + j }
pub open spec fn blk_ok(k: Kernel, g: int, blk: int, j: int) -> bool { 0 <= g < k.groups && 0 <= blk < pkdims(&k).nb && 0 <= j < 4 && blk * 4 + j < pkdims(&k).oc }
pub proof fn lemma_chb(k: Kernel, c: Cv, g: int, blk: int, j: int)
    requires pk_ok(&k), c.fd[0] == k.output_channels, c.g == k.groups, c.fd[3] == pkdims(&k).d, blk_ok(k, g, blk, j)
    ensures chbase(c, chan_of(k, g, blk, j)) == g * pkdims(&k).d, 0 <= chan_of(k, g, blk, j)
{
    let p = pkdims(&k); lemma_pk(&k);
    lemma_dm(g, p.oc, blk * 4 + j);
    assert(0 <= g * p.oc) by (nonlinear_arith) requires g >= 0, p.oc > 0;
}
pub proof fn lemma_kd_eq(k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>, p: int, g: int, blk: int, j: int, fy: int, fx: int, n: int)
    requires k_holds(k, h, c, ci, od), 0 <= p < k.num_output_pixels, 0 <= fy < c.fd[1], 0 <= fx < c.fd[2], blk_ok(k, g, blk, j), 0 <= n <= pkdims(&k).d
    ensures kd(k, h, (p / 2) * 2, p % 2, g * pkdims(&k).nb + blk, j, g, fy * c.fd[2] + fx, n) == ch_acc(c, pxb(od, p), pxy(od, p), pxx(od, p), chan_of(k, g, blk, j), fy, fx, n)
    decreases n
{
    reveal(kd);
    if n > 0 {
        let d = pkdims(&k); lemma_pk(&k);
        lemma_kd_eq(k, h, c, ci, od, p, g, blk, j, fy, fx, n - 1);
        let w = choose|w: CPtr<i32>| w.s@ == c.f && w.o@ == c.fo && #[trigger] packed_ok(&k, w);
        lemma_kwt(k, c, g, blk, j, fy, fx, n - 1, w);
        lemma_chb(k, c, g, blk, j);
        assert(0 <= g * d.d + (n - 1) < k.input_depth) by (nonlinear_arith) requires 0 <= g < d.g, 0 < n <= d.d, d.d * d.g == k.input_depth;
        lemma_kin(k, h, c, ci, od, p, fy, fx, g * d.d + (n - 1));
        lemma_xpop_comm(k_wt(k, g * d.nb + blk, fy * c.fd[2] + fx, n - 1, j), k_in(k, h, (p / 2) * 2, p % 2, fy * c.fd[2] + fx, g * d.d + (n - 1)));
    }
}
pub proof fn lemma_kf_eq(k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>, p: int, g: int, blk: int, j: int, fy: int, fx: int)
    requires k_holds(k, h, c, ci, od), 0 <= p < k.num_output_pixels, 0 <= fy, 0 <= fx <= c.fd[2], fy < c.fd[1] || (fy == c.fd[1] && fx == 0), blk_ok(k, g, blk, j)
    ensures ({ let b = pxb(od, p); let y = pxy(od, p); let x = pxx(od, p); let oc = chan_of(k, g, blk, j);
        kf(k, h, (p / 2) * 2, p % 2, g * pkdims(&k).nb + blk, j, g, fy * c.fd[2] + fx) == win_acc(c, b, y, x, oc, fy) + row_acc(c, b, y, x, oc, fy, fx) })
    decreases fy, fx
{
    reveal(kf);
    let fw = c.fd[2] as int;
    if fx > 0 {
        assert(fy * fw >= 0) by (nonlinear_arith) requires fy >= 0, fw > 0;
        lemma_kf_eq(k, h, c, ci, od, p, g, blk, j, fy, fx - 1);
        lemma_kd_eq(k, h, c, ci, od, p, g, blk, j, fy, fx - 1, pkdims(&k).d);
    } else if fy > 0 {
        lemma_kf_eq(k, h, c, ci, od, p, g, blk, j, fy - 1, fw);
        assert(fy * fw == (fy - 1) * fw + fw) by (nonlinear_arith);
    } else { assert(0 * fw == 0) by (nonlinear_arith); }
}
// the kernel's accumulator is the convolution
pub proof fn lemma_kval(k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>, p: int, oc: int)
    requires k_holds(k, h, c, ci, od), 0 <= p < k.num_output_pixels, 0 <= oc < k.output_channels
    ensures kval(k, h, p, oc) == conv(c, pxb(od, p), pxy(od, p), pxx(od, p), oc)
{
    let d = pkdims(&k); lemma_pk(&k);
    let g = oc / d.oc; let r = oc % d.oc;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(oc, d.oc);
    assert(0 <= g < d.g) by (nonlinear_arith) requires oc == d.oc * g + r, 0 <= r < d.oc, 0 <= oc < d.oc * d.g;
    assert(g * d.oc + r == oc) by (nonlinear_arith) requires oc == d.oc * g + r;
    let blk = r / 4; let j = r % 4;
    assert(blk < d.nb);
    lemma_kf_eq(k, h, c, ci, od, p, g, blk, j, c.fd[1] as int, 0);
    assert(c.fd[1] * c.fd[2] + 0 == k.filter_size);
    assert(chan_of(k, g, blk, j) == oc);
}
