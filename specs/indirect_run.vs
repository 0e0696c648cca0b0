@@name compute_engine::core::indirect_bgemm::Kernel4x2Portable<float> => K4f
@@name compute_engine::core::indirect_bgemm::Kernel4x2Portable<signed char> => K4i
@@name compute_engine::core::indirect_bgemm::Kernel4x2Portable<TBitpacked> => K4b
@@prelude
@@foreach S V in f:F i:I
pub open spec fn kb_$S(k: &K4$S) -> Kernel {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(DynOT::$V(k.output_transform)) }
}
@@end
pub type Heap = Map<int, Seq<i32>>;
pub open spec fn k_wt(k: Kernel, gb: int, fi: int, ci: int, j: int) -> i32 { k.packed_weights@[(gb * k.filter_size + fi) * (4 * pkdims(&k).d) + 4 * ci + j] }
pub open spec fn k_ptr(k: Kernel, pi: int, fi: int, o: int) -> PtrVal { k.indirection_buffer@[pi * k.filter_size + 2 * fi + o] }
pub open spec fn k_in(k: Kernel, h: Heap, pi: int, o: int, fi: int, ch: int) -> i32 { h[k_ptr(k, pi, fi, o).obj@][k_ptr(k, pi, fi, o).off@ + ch] }
#[verifier::opaque] pub open spec fn kd(k: Kernel, h: Heap, pi: int, o: int, gb: int, j: int, g: int, fi: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { kd(k, h, pi, o, gb, j, g, fi, n - 1) + xpop(k_wt(k, gb, fi, n - 1, j), k_in(k, h, pi, o, fi, g * pkdims(&k).d + (n - 1))) }
}
#[verifier::opaque] pub open spec fn kf(k: Kernel, h: Heap, pi: int, o: int, gb: int, j: int, g: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { kf(k, h, pi, o, gb, j, g, n - 1) + kd(k, h, pi, o, gb, j, g, n - 1, pkdims(&k).d) }
}
pub proof fn lemma_kd(k: Kernel, h: Heap, pi: int, o: int, gb: int, j: int, g: int, fi: int, n: int)
    requires 0 <= n ensures 0 <= kd(k, h, pi, o, gb, j, g, fi, n) <= 32 * n decreases n
{reveal(kd); if n > 0 { lemma_kd(k, h, pi, o, gb, j, g, fi, n - 1); lemma_xpop(k_wt(k, gb, fi, n - 1, j), k_in(k, h, pi, o, fi, g * pkdims(&k).d + (n - 1))); } }
pub proof fn lemma_kf(k: Kernel, h: Heap, pi: int, o: int, gb: int, j: int, g: int, n: int)
    requires 0 <= n, 0 <= pkdims(&k).d ensures 0 <= kf(k, h, pi, o, gb, j, g, n) <= n * (32 * pkdims(&k).d) decreases n
{reveal(kf); let m = 32 * pkdims(&k).d; if n > 0 { lemma_kf(k, h, pi, o, gb, j, g, n - 1); lemma_kd(k, h, pi, o, gb, j, g, n - 1, pkdims(&k).d); assert((n - 1) * m + m == n * m) by (nonlinear_arith); } else { assert(n * m == 0) by (nonlinear_arith) requires n == 0; } }
// accumulator of pixel p, output channel c
pub open spec fn kval(k: Kernel, h: Heap, p: int, c: int) -> int {
    let d = pkdims(&k); let g = c / d.oc; let r = c % d.oc;
    kf(k, h, (p / 2) * 2, p % 2, g * d.nb + r / 4, r % 4, g, k.filter_size as int)
}
pub open spec fn ptr_valid(h: Heap, v: PtrVal, n: int) -> bool { h.dom().contains(v.obj@) && 0 <= v.off@ && v.off@ + n <= h[v.obj@].len() }
// what Run needs: packed weights and indirection entries present and readable
pub open spec fn run_ready(k: Kernel, h: Heap) -> bool {
    pk_ok(&k) && k.block_size_output_channels == 4 && k.block_size_pixels == 2 && k.block_size_depth == 1 && k.packed_weights@.len() == pk_len(pkdims(&k))
    && k.num_output_pixels >= 0 && k.num_output_pixels + 2 <= 0x7fff_ffff && k.num_output_pixels * k.output_channels <= 0x7fff_ffff && k.filter_size * (32 * pkdims(&k).d) < 0x2000_0000 && 2 * k.filter_size <= 0x7fff_ffff && k.output_channels + 4 <= 0x7fff_ffff && 2 * k.output_channels <= 0x7fff_ffff
    && ntiles(&k) * 2 * k.filter_size + 2 <= 0x7fff_ffff && k.indirection_buffer@.len() == ntiles(&k) * 2 * k.filter_size + 2
    && forall|q: int| 0 <= q < ntiles(&k) * 2 * k.filter_size ==> ptr_valid(h, #[trigger] k.indirection_buffer@[q], k.input_depth as int)
}
pub open spec fn oc_of(k: Kernel, q: int) -> int { q % (k.output_channels as int) }
pub open spec fn px_of(k: Kernel, q: int) -> int { q / (k.output_channels as int) }
pub open spec fn okk_f(v: F32, t: &OTF, k: Kernel, h: Heap, q: int) -> bool { v == out_float(t, kval(k, h, px_of(k, q), oc_of(k, q)), oc_of(k, q)) }
pub open spec fn okk_i(v: i8, t: &OTI, k: Kernel, h: Heap, q: int) -> bool { v == out_int8(t, kval(k, h, px_of(k, q), oc_of(k, q)), oc_of(k, q)) }
pub proof fn lemma_kq(k: Kernel, h: Heap, pi: int, o: int, g: int, blk: int, j: int)
    requires pk_ok(&k), k.block_size_output_channels == 4, 0 <= pi, pi % 2 == 0, 0 <= o < 2, 0 <= g < k.groups, 0 <= blk, 0 <= j < 4, blk * 4 + j < pkdims(&k).oc
    ensures ({ let c = g * pkdims(&k).oc + blk * 4 + j; let q = (pi + o) * k.output_channels + c; px_of(k, q) == pi + o && oc_of(k, q) == c && 0 <= c < k.output_channels && kval(k, h, pi + o, c) == kf(k, h, pi, o, g * pkdims(&k).nb + blk, j, g, k.filter_size as int) })
{
    let d = pkdims(&k); let c = g * d.oc + blk * 4 + j;
    assert(0 <= c < d.oc * d.g) by (nonlinear_arith) requires 0 <= g < d.g, 0 <= blk * 4 + j < d.oc, c == g * d.oc + (blk * 4 + j);
    lemma_dm(pi + o, k.output_channels as int, c);
    lemma_dm(g, d.oc, blk * 4 + j);
}
// the reads of one step are in range
pub proof fn lemma_krange(k: Kernel, h: Heap, pi: int, g: int, blk: int, fi: int, ci: int)
    requires run_ready(k, h), 0 <= pi < k.num_output_pixels, pi % 2 == 0, 0 <= g < k.groups, 0 <= blk < pkdims(&k).nb, 0 <= fi < k.filter_size, 0 <= ci < pkdims(&k).d
    ensures ({ let d = pkdims(&k); let gb = g * d.nb + blk; let e = pi * k.filter_size + 2 * fi; let w = (gb * k.filter_size + fi) * (4 * d.d) + 4 * ci;
        0 <= w && w + 3 < k.packed_weights@.len() && 0 <= pi * k.filter_size && 0 <= e && e + 1 < ntiles(&k) * 2 * k.filter_size && ptr_valid(h, k.indirection_buffer@[e], k.input_depth as int) && ptr_valid(h, k.indirection_buffer@[e + 1], k.input_depth as int)
        && 0 <= g * d.d + ci && g * d.d + d.d <= k.input_depth && 0 <= g * d.d })
{
    let d = pkdims(&k); let gb = g * d.nb + blk; let fs = k.filter_size as int;
    lemma_pk(&k);
    let ti = gb * fs + fi;
    assert(0 <= gb && gb + 1 <= d.g * d.nb) by (nonlinear_arith) requires 0 <= g < d.g, 0 <= blk < d.nb, gb == g * d.nb + blk;
    assert(0 <= ti && ti + 1 <= d.g * d.nb * fs) by (nonlinear_arith) requires 0 <= gb, gb + 1 <= d.g * d.nb, 0 <= fi < fs, ti == gb * fs + fi;
    let m = 4 * d.d;
    assert(d.nc == d.d) by (nonlinear_arith) requires d.nc * d.bd == d.d, d.bd == 1;
    assert(d.nc * (d.bo * d.bd) == m) by (nonlinear_arith) requires d.nc == d.d, d.bo == 4, d.bd == 1, m == 4 * d.d;
    assert(0 <= ti * m && ti * m + m <= d.g * d.nb * fs * m) by (nonlinear_arith) requires 0 <= ti, ti + 1 <= d.g * d.nb * fs, m > 0;
    assert(0 <= g * d.d && g * d.d + d.d <= d.d * d.g) by (nonlinear_arith) requires 0 <= g < d.g, d.d > 0;
    let nt = ntiles(&k); let t = pi / 2;
    assert(t < nt && 2 * t == pi);
    assert(0 <= pi * fs && pi * fs + 2 * fs <= nt * 2 * fs) by (nonlinear_arith) requires pi == 2 * t, 0 <= t, t + 1 <= nt, fs > 0;
}
// weights of the next tap / block follow directly
pub proof fn lemma_kw(gb: int, fs: int, fi: int, d: int)
    ensures (gb * fs + fi) * (4 * d) + 4 * d == (gb * fs + (fi + 1)) * (4 * d), (gb * fs + fs) * (4 * d) == ((gb + 1) * fs + 0) * (4 * d), (0 * fs + 0) * (4 * d) == 0
{
    assert((gb * fs + (fi + 1)) * (4 * d) == (gb * fs + fi) * (4 * d) + 4 * d) by (nonlinear_arith);
    assert(gb * fs + fs == (gb + 1) * fs) by (nonlinear_arith);
    assert((0 * fs + 0) * (4 * d) == 0) by (nonlinear_arith);
}
@@foreach S T N in f:F32:float i:i8:signed_char
@@fn compute_engine::core::indirect_bgemm::Kernel4x2Portable<$N>::Run/3 as k4_run_$S
@rlimit 60
@voidptr output_ptr $T
@ghost heap: Ghost<Map<int, Seq<i32>>>
@requires
    run_ready(kb_$S(this), heap@), 0 <= pixel_start <= pixel_end <= this.num_output_pixels, pixel_start % 2 == 0, ot_ok_$S(&this.output_transform, this.output_channels as int),
    0 <= output_ptr_o@, output_ptr_o@ + pixel_end * this.output_channels <= old(output_ptr)@.len(),
@ensures
    final(output_ptr)@.len() == old(output_ptr)@.len(),
    forall|q: int| output_ptr_o@ + pixel_start * this.output_channels <= q < output_ptr_o@ + pixel_end * this.output_channels ==> okk_$S(#[trigger] final(output_ptr)@[q], &this.output_transform, kb_$S(this), heap@, q - output_ptr_o@),
    forall|q: int| 0 <= q < final(output_ptr)@.len() && !(output_ptr_o@ + pixel_start * this.output_channels <= q < output_ptr_o@ + pixel_end * this.output_channels) ==> final(output_ptr)@[q] == old(output_ptr)@[q],
@start
    let ghost k = kb_$S(this); let ghost h = heap@; let ghost d = pkdims(&k); let ghost fs = k.filter_size as int; let ghost OC = k.output_channels as int; let ghost o0 = output_ptr_o@; let ghost oldv = output_ptr@;
    let ghost lo = o0 + pixel_start * OC; let ghost hi = o0 + pixel_end * OC; let ghost t = &this.output_transform;
    proof {
        lemma_pk(&k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k.input_depth as int, d.g); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(OC, d.g);
        assert(k.input_depth % k.groups == 0 && k.output_channels % k.groups == 0) by {
            assert(k.input_depth as int % d.g == 0) by (nonlinear_arith) requires k.input_depth == d.g * d.d + k.input_depth as int % d.g, d.d * d.g == k.input_depth;
            assert(OC % d.g == 0) by (nonlinear_arith) requires OC == d.g * d.oc + OC % d.g, d.oc * d.g == OC;
        }
        assert(pixel_end * OC <= k.num_output_pixels * OC && 0 <= pixel_start * OC <= pixel_end * OC) by (nonlinear_arith) requires 0 <= pixel_start <= pixel_end <= k.num_output_pixels, OC > 0;
    }
@loop 0 inv
    pixel_start <= p_index, p_index < pixel_end + 2, p_index % 2 == 0, output_ptr@.len() == oldv.len(),
    forall|q: int| lo <= q < o0 + imin(p_index as int, pixel_end as int) * OC ==> okk_$S(#[trigger] output_ptr@[q], t, k, h, q - o0),
    forall|q: int| 0 <= q < oldv.len() && !(lo <= q < hi) ==> output_ptr@[q] == oldv[q],
@loop 0 dec
    pixel_end + 2 - p_index
@loop 0 begin
    let ghost pi = p_index as int; let ghost two = pixel_end - p_index >= 2; let ghost mut g = 0int; let ghost mut blk = 0int;
    proof {
        assert(0 <= pi * OC && pi * OC + OC <= pixel_end * OC && (pi + 1) * OC == pi * OC + OC && (pi + 2) * OC == pi * OC + 2 * OC && pixel_start * OC <= pi * OC) by (nonlinear_arith) requires 0 <= pixel_start <= pi, pi + 1 <= pixel_end, OC > 0;
        if two { assert(pi * OC + 2 * OC <= pixel_end * OC) by (nonlinear_arith) requires pi + 2 <= pixel_end, OC > 0; }
        lemma_krange(k, h, pi, 0, 0, 0, 0);
        lemma_kw(0, fs, 0, d.d);
        assert(0 * d.oc == 0 && 0 * d.nb == 0 && 0 * d.d == 0 && d.oc <= OC) by (nonlinear_arith) requires d.oc * d.g == OC, d.g > 0, d.oc > 0;
    }
@loop 0 end
    proof { if pi + 2 <= pixel_end { } else { assert(imin(pi + 2, pixel_end as int) == pi + 1); } }
@loop 0.0 inv
    0 <= g <= d.g, 0 <= blk, g < d.g ==> blk < d.nb && blk * 4 < d.oc, g == d.g ==> blk == 0, c_out_index == g * d.oc + blk * 4, 0 <= c_out_index <= OC, go_0_0 == (c_out_index < OC), go_0_0 == (g < d.g),
    group_end_output_channel == g * d.oc + d.oc, g * d.oc + d.oc <= OC + d.oc, input_depth_offset == g * d.d,
    weights_ptr.s@ == k.packed_weights@, weights_ptr.o@ == ((g * d.nb + blk) * fs + 0) * (4 * d.d), indirection_ptr.s@ == k.indirection_buffer@, indirection_ptr.o@ == pi * fs,
    output_ptr_0_o@ == o0 + pi * OC + c_out_index, output_ptr_1_o@ == (if two { o0 + (pi + 1) * OC + c_out_index } else { o0 + pi * OC + c_out_index }),
    output_ptr@.len() == oldv.len(),
    forall|q: int| lo <= q < o0 + pi * OC + c_out_index ==> okk_$S(#[trigger] output_ptr@[q], t, k, h, q - o0),
    two ==> forall|q: int| o0 + (pi + 1) * OC <= q < o0 + (pi + 1) * OC + c_out_index ==> okk_$S(#[trigger] output_ptr@[q], t, k, h, q - o0),
    forall|q: int| 0 <= q < oldv.len() && !(lo <= q < hi) ==> output_ptr@[q] == oldv[q],
@loop 0.0 dec
    OC - c_out_index, (if go_0_0 { 1int } else { 0int })
@loop 0.0 begin
    let ghost gb = g * d.nb + blk; let ghost c0 = c_out_index as int; let ghost out0 = output_ptr@;
    proof {
        assert(g * d.oc + d.oc <= OC && g * d.d + d.d <= k.input_depth) by (nonlinear_arith) requires g + 1 <= d.g, d.oc * d.g == OC, d.d * d.g == k.input_depth, d.oc > 0, d.d > 0;
        lemma_krange(k, h, pi, g, blk, 0, 0); lemma_kstep(k, h, pi, gb, g, 0, 0);
        lemma_kw(gb, fs, 0, d.d);
    }
@loop 0.0.0 inv
    0 <= f_size_index <= fs, go_0_0_0 == (f_size_index > 0),
    weights_ptr.s@ == k.packed_weights@, weights_ptr.o@ == (gb * fs + (fs - f_size_index)) * (4 * d.d), indirection_ptr.s@ == k.indirection_buffer@, indirection_ptr.o@ == pi * fs + 2 * (fs - f_size_index),
    acc_00 == kf(k, h, pi, 0, gb, 0, g, fs - f_size_index), acc_10 == kf(k, h, pi, 0, gb, 1, g, fs - f_size_index), acc_20 == kf(k, h, pi, 0, gb, 2, g, fs - f_size_index), acc_30 == kf(k, h, pi, 0, gb, 3, g, fs - f_size_index),
    acc_01 == kf(k, h, pi, 1, gb, 0, g, fs - f_size_index), acc_11 == kf(k, h, pi, 1, gb, 1, g, fs - f_size_index), acc_21 == kf(k, h, pi, 1, gb, 2, g, fs - f_size_index), acc_31 == kf(k, h, pi, 1, gb, 3, g, fs - f_size_index),
@loop 0.0.0 dec
    f_size_index
@loop 0.0.0 begin
    let ghost fi = fs - f_size_index;
    proof { lemma_krange(k, h, pi, g, blk, fi, 0); lemma_kstep(k, h, pi, gb, g, fi, 0); lemma_kw(gb, fs, fi, d.d); }
@loop 0.0.0 after
    proof { lemma_kbound(k, h, pi, gb, g); assert(f_size_index == 0); }
@loop 0.0.0.0 inv
    0 <= depth_index <= d.d, go_0_0_0_0 == (depth_index > 0),
    weights_ptr.s@ == k.packed_weights@, weights_ptr.o@ == (gb * fs + fi) * (4 * d.d) + 4 * (d.d - depth_index),
    activations_ptr_0.s@ == h[k_ptr(k, pi, fi, 0).obj@], activations_ptr_0.o@ == k_ptr(k, pi, fi, 0).off@ + g * d.d + (d.d - depth_index),
    activations_ptr_1.s@ == h[k_ptr(k, pi, fi, 1).obj@], activations_ptr_1.o@ == k_ptr(k, pi, fi, 1).off@ + g * d.d + (d.d - depth_index),
    acc_00 == kf(k, h, pi, 0, gb, 0, g, fi) + kd(k, h, pi, 0, gb, 0, g, fi, d.d - depth_index), acc_10 == kf(k, h, pi, 0, gb, 1, g, fi) + kd(k, h, pi, 0, gb, 1, g, fi, d.d - depth_index), acc_20 == kf(k, h, pi, 0, gb, 2, g, fi) + kd(k, h, pi, 0, gb, 2, g, fi, d.d - depth_index), acc_30 == kf(k, h, pi, 0, gb, 3, g, fi) + kd(k, h, pi, 0, gb, 3, g, fi, d.d - depth_index),
    acc_01 == kf(k, h, pi, 1, gb, 0, g, fi) + kd(k, h, pi, 1, gb, 0, g, fi, d.d - depth_index), acc_11 == kf(k, h, pi, 1, gb, 1, g, fi) + kd(k, h, pi, 1, gb, 1, g, fi, d.d - depth_index), acc_21 == kf(k, h, pi, 1, gb, 2, g, fi) + kd(k, h, pi, 1, gb, 2, g, fi, d.d - depth_index), acc_31 == kf(k, h, pi, 1, gb, 3, g, fi) + kd(k, h, pi, 1, gb, 3, g, fi, d.d - depth_index),
@loop 0.0.0.0 dec
    depth_index
@loop 0.0.0.0 begin
    let ghost ci = d.d - depth_index;
    proof {
        lemma_krange(k, h, pi, g, blk, fi, ci);
        lemma_kstep(k, h, pi, gb, g, fi, ci);
    }
@loop 0.0 end
    proof {
        assert(indirection_ptr.o@ == pi * fs);
        let cn = if c0 + 4 <= g * d.oc + d.oc { c0 + 4 } else { g * d.oc + d.oc };
        assert(c_out_index == cn);
        lemma_kbound(k, h, pi, gb, g);
        assert forall|q: int| lo <= q < o0 + pi * OC + cn implies okk_$S(#[trigger] output_ptr@[q], t, k, h, q - o0) by {
            if q >= o0 + pi * OC + c0 { lemma_kq(k, h, pi, 0, g, blk, q - (o0 + pi * OC + c0)); }
        }
        if two {
            assert forall|q: int| o0 + (pi + 1) * OC <= q < o0 + (pi + 1) * OC + cn implies okk_$S(#[trigger] output_ptr@[q], t, k, h, q - o0) by {
                if q >= o0 + (pi + 1) * OC + c0 { lemma_kq(k, h, pi, 1, g, blk, q - (o0 + (pi + 1) * OC + c0)); }
            }
        }
        lemma_kw(gb, fs, 0, d.d);
        if cn == g * d.oc + d.oc {
            assert((g + 1) * d.oc == g * d.oc + d.oc && (g + 1) * d.d == g * d.d + d.d && (g + 1) * d.nb == g * d.nb + d.nb) by (nonlinear_arith);
            g = g + 1; blk = 0;
            assert(g == d.g ==> g * d.oc == OC && g < d.g ==> g * d.oc < OC && g * d.oc <= OC) by (nonlinear_arith) requires g <= d.g, d.oc * d.g == OC, d.oc > 0;
            assert(g < d.g ==> g * d.oc < OC) by (nonlinear_arith) requires g <= d.g, d.oc * d.g == OC, d.oc > 0;
            if g == d.g { assert(g * d.oc == OC) by (nonlinear_arith) requires g == d.g, d.oc * d.g == OC; }
        } else { blk = blk + 1; }
    }
@@end
@@prelude
pub proof fn lemma_kstep(k: Kernel, h: Heap, pi: int, gb: int, g: int, fi: int, ci: int)
    requires 0 <= ci < pkdims(&k).d, 0 <= fi < k.filter_size, k.filter_size * (32 * pkdims(&k).d) < 0x2000_0000
    ensures forall|o: int, j: int| 0 <= (#[trigger] kf(k, h, pi, o, gb, j, g, fi)) + kd(k, h, pi, o, gb, j, g, fi, ci) < 0x2000_0000 - 32,
        forall|o: int, j: int| #[trigger] kd(k, h, pi, o, gb, j, g, fi, 0) == 0, forall|o: int, j: int| #[trigger] kf(k, h, pi, o, gb, j, g, 0) == 0,
        forall|o: int, j: int| kf(k, h, pi, o, gb, j, g, fi + 1) == #[trigger] kf(k, h, pi, o, gb, j, g, fi) + kd(k, h, pi, o, gb, j, g, fi, pkdims(&k).d),
        forall|o: int, j: int| kd(k, h, pi, o, gb, j, g, fi, ci + 1) == #[trigger] kd(k, h, pi, o, gb, j, g, fi, ci) + xpop(k_wt(k, gb, fi, ci, j), k_in(k, h, pi, o, fi, g * pkdims(&k).d + ci)),
{
    reveal(kd); reveal(kf);
    let m = 32 * pkdims(&k).d;
    assert(fi * m + m <= k.filter_size * m) by (nonlinear_arith) requires fi + 1 <= k.filter_size, m > 0;
    assert forall|o: int, j: int| 0 <= (#[trigger] kf(k, h, pi, o, gb, j, g, fi)) + kd(k, h, pi, o, gb, j, g, fi, ci) < 0x2000_0000 - 32 by { lemma_kf(k, h, pi, o, gb, j, g, fi); lemma_kd(k, h, pi, o, gb, j, g, fi, ci); }
}
pub proof fn lemma_kbound(k: Kernel, h: Heap, pi: int, gb: int, g: int)
    requires 0 <= pkdims(&k).d, 0 <= k.filter_size, k.filter_size * (32 * pkdims(&k).d) < 0x2000_0000
    ensures forall|o: int, j: int| accum_ok(#[trigger] kf(k, h, pi, o, gb, j, g, k.filter_size as int))
{ assert forall|o: int, j: int| accum_ok(#[trigger] kf(k, h, pi, o, gb, j, g, k.filter_size as int)) by { lemma_kf(k, h, pi, o, gb, j, g, k.filter_size as int); } }
