@@name compute_engine::core::indirect_bgemm::Kernel4x2Portable<TBitpacked> => K4b
@@need int & i32
@@need int >> i32
@@need cv i32 i16
@@prelude
pub open spec fn kb_b(k: &K4b) -> Kernel {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(DynOT::B(k.output_transform)) }
}
pub open spec fn hbit(v: i16, k: int) -> bool { ((v as u16) >> (k as u16)) & 1u16 == 1u16 }
pub open spec fn obit(t: &OTB, k: Kernel, h: Heap, p: int, c: int) -> bool { out_bit(t, kval(k, h, p, c), c) }
// half-word hh of the output of pixel p
#[verifier::opaque] pub open spec fn half_ok(v: i16, t: &OTB, k: Kernel, h: Heap, p: int, hh: int) -> bool {
    forall|b: int| 0 <= b < 16 ==> #[trigger] hbit(v, b) == (16 * hh + b < k.output_channels && obit(t, k, h, p, 16 * hh + b))
}
pub open spec fn nhw(k: Kernel) -> int { 2 * cdiv32(k.output_channels as int) }
// half-words holding channels are set, the rest of the pixel's words keep their value
#[verifier::opaque] pub open spec fn okh(v: i16, old: i16, t: &OTB, k: Kernel, h: Heap, q: int) -> bool {
    let hh = q % nhw(k);
    if 16 * hh < k.output_channels { half_ok(v, t, k, h, q / nhw(k), hh) } else { v == old }
}
// partially filled column after c channels
#[verifier::opaque] pub open spec fn bstate(w: i32, t: &OTB, k: Kernel, h: Heap, p: int, c: int) -> bool {
    forall|b: int| 0 <= b < 32 ==> #[trigger] bit(w, b) == (b < c % 16 && obit(t, k, h, p, (c / 16) * 16 + b))
}
pub open spec fn b2i(b: bool) -> i32 { if b { 1i32 } else { 0i32 } }
#[verifier::opaque] pub open spec fn or4(w: i32, s: int, b0: bool, b1: bool, b2: bool, b3: bool) -> i32 {
    (((w | sshl_i32(b2i(b0), s)) | sshl_i32(b2i(b1), s + 1)) | sshl_i32(b2i(b2), s + 2)) | sshl_i32(b2i(b3), s + 3)
}
pub proof fn lemma_orb(w: i32, b: bool, s: int)
    requires 0 <= s < 31
    ensures forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w | sshl_i32(b2i(b), s), k) == ((k == s && b) || bit(w, k))
{
    if b { lemma_or_bit(w, s); } else {
        let s2 = s as u32;
        assert(((0i32 as u32) << s2) as i32 == 0i32) by (bit_vector) requires s2 < 32;
        assert(w | 0i32 == w) by (bit_vector);
    }
}
pub proof fn lemma_or4(w: i32, s: int, b0: bool, b1: bool, b2: bool, b3: bool)
    requires 0 <= s < 16
    ensures forall|k: int| 0 <= k < 32 ==> #[trigger] bit(or4(w, s, b0, b1, b2, b3), k) == (bit(w, k) || (k == s && b0) || (k == s + 1 && b1) || (k == s + 2 && b2) || (k == s + 3 && b3))
{reveal(or4);
    let w1 = w | sshl_i32(b2i(b0), s); let w2 = w1 | sshl_i32(b2i(b1), s + 1); let w3 = w2 | sshl_i32(b2i(b2), s + 2);
    lemma_orb(w, b0, s); lemma_orb(w1, b1, s + 1); lemma_orb(w2, b2, s + 2); lemma_orb(w3, b3, s + 3);
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(or4(w, s, b0, b1, b2, b3), k) == (bit(w, k) || (k == s && b0) || (k == s + 1 && b1) || (k == s + 2 && b2) || (k == s + 3 && b3)) by {
        assert(bit(w1, k) == ((k == s && b0) || bit(w, k)));
        assert(bit(w2, k) == ((k == s + 1 && b1) || bit(w1, k)));
        assert(bit(w3, k) == ((k == s + 2 && b2) || bit(w2, k)));
    }
}
pub proof fn lemma_shl_pos(m: int) requires 0 <= m < 31 ensures sshl_i32(1, m) >= 1
{ let m2 = m as u32; assert((((1i32 as u32) << m2) as i32) >= 1) by (bit_vector) requires m2 < 31; }
pub proof fn lemma_mask(w: i32, m: int)
    requires 0 <= m < 31
    ensures forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w & ((sshl_i32(1, m) - 1) as i32), k) == (k < m && bit(w, k))
{
    lemma_shl_pos(m);
    let m2 = m as u32; let p = ((1i32 as u32) << m2) as i32; let q = (p - 1) as i32;
    assert(q as u32 == sub(1u32 << m2, 1u32)) by (bit_vector) requires m2 < 31, p == ((1i32 as u32) << m2) as i32, q == sub(p, 1i32);
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w & q, k) == (k < m && bit(w, k)) by {
        let k2 = k as u32;
        assert((((w & q) as u32) >> k2) & 1u32 == (if k2 < m2 { ((w as u32) >> k2) & 1u32 } else { 0u32 })) by (bit_vector) requires m2 < 31, k2 < 32, q as u32 == sub(1u32 << m2, 1u32);
    }
}
pub proof fn lemma_half(w: i32)
    requires !bit(w, 31)
    ensures forall|k: int| 0 <= k < 16 ==> #[trigger] hbit(w as i16, k) == bit(w, k), forall|k: int| 0 <= k < 32 ==> #[trigger] bit(sshr_i32(w, 16), k) == (k < 16 && bit(w, k + 16))
{
    assert(w >= 0) by (bit_vector) requires !(((w as u32) >> 31u32) & 1u32 == 1u32);
    assert forall|k: int| 0 <= k < 16 implies #[trigger] hbit(w as i16, k) == bit(w, k) by {
        let k2 = k as u16; let k3 = k as u32;
        assert(((((w as i16) as u16) >> k2) & 1u16 == 1u16) == (((w as u32) >> k3) & 1u32 == 1u32)) by (bit_vector) requires k2 < 16, k3 == k2 as u32;
    }
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(sshr_i32(w, 16), k) == (k < 16 && bit(w, k + 16)) by {
        let k2 = k as u32; let k3 = (k + 16) as u32;
        if k < 16 { assert((((w >> 16i32) as u32) >> k2) & 1u32 == ((w as u32) >> k3) & 1u32) by (bit_vector) requires k2 < 16, k3 == add(k2, 16u32), w >= 0; }
        else { assert((((w >> 16i32) as u32) >> k2) & 1u32 == 0) by (bit_vector) requires 16 <= k2 < 32, w >= 0; }
    }
}
// one block of n valid channels starting at channel c
pub proof fn lemma_bstep(w: i32, w2: i32, t: &OTB, k: Kernel, h: Heap, p: int, c: int, n: int, b0: bool, b1: bool, b2: bool, b3: bool)
    requires bstate(w, t, k, h, p, c), 0 <= c, 1 <= n <= 4, c + n <= k.output_channels,
        b0 == obit(t, k, h, p, c), n > 1 ==> b1 == obit(t, k, h, p, c + 1), n > 2 ==> b2 == obit(t, k, h, p, c + 2), n > 3 ==> b3 == obit(t, k, h, p, c + 3),
        w2 == (if n < 4 { or4(w, c % 16, b0, b1, b2, b3) & ((sshl_i32(1, c % 16 + n) - 1) as i32) } else { or4(w, c % 16, b0, b1, b2, b3) }),
    ensures (c + n) % 16 < c % 16 ==> half_ok(w2 as i16, t, k, h, p, c / 16) && bstate(sshr_i32(w2, 16), t, k, h, p, c + n) && (c + n) / 16 == c / 16 + 1,
        (c + n) % 16 >= c % 16 ==> bstate(w2, t, k, h, p, c + n) && (c + n) / 16 == c / 16,
{reveal(bstate); reveal(half_ok);
    let s = c % 16; let o = or4(w, s, b0, b1, b2, b3); let c16 = (c / 16) * 16;
    lemma_or4(w, s, b0, b1, b2, b3);
    if n < 4 { lemma_mask(o, s + n); }
    assert forall|b: int| 0 <= b < 32 implies #[trigger] bit(w2, b) == (b < s + n && obit(t, k, h, p, c16 + b)) by {
        assert(bit(o, b) == (bit(w, b) || (b == s && b0) || (b == s + 1 && b1) || (b == s + 2 && b2) || (b == s + 3 && b3)));
        assert(c16 + s == c);
    }
    assert(!bit(w2, 31));
    lemma_half(w2);
    if s + n >= 16 {
        assert((c + n) / 16 == c / 16 + 1 && (c + n) % 16 == s + n - 16);
        assert forall|b: int| 0 <= b < 32 implies #[trigger] bit(sshr_i32(w2, 16), b) == (b < (c + n) % 16 && obit(t, k, h, p, ((c + n) / 16) * 16 + b)) by { if b < 16 { assert(bit(w2, b + 16) == (b + 16 < s + n && obit(t, k, h, p, c16 + (b + 16)))); } }
    } else { assert((c + n) / 16 == c / 16 && (c + n) % 16 == s + n); }
}
// the last, partial column
pub proof fn lemma_blast(w: i32, t: &OTB, k: Kernel, h: Heap, p: int)
    requires bstate(w, t, k, h, p, k.output_channels as int), k.output_channels >= 0
    ensures half_ok(w as i16, t, k, h, p, k.output_channels as int / 16)
{reveal(bstate); reveal(half_ok); let c = k.output_channels as int; assert(!bit(w, 31)); lemma_half(w);
  assert forall|b: int| 0 <= b < 16 implies #[trigger] hbit(w as i16, b) == (16 * (c / 16) + b < c && obit(t, k, h, p, 16 * (c / 16) + b)) by { assert(bit(w, b) == (b < c % 16 && obit(t, k, h, p, (c / 16) * 16 + b))); } }
pub proof fn lemma_bst0(t: &OTB, k: Kernel, h: Heap, p: int) ensures bstate(0i32, t, k, h, p, 0)
{reveal(bstate); assert forall|b: int| 0 <= b < 32 implies !#[trigger] bit(0i32, b) by { lemma_bit_zero(b); } }
pub proof fn lemma_hq(k: Kernel, p: int, hh: int) requires 0 <= hh < nhw(k) ensures (p * nhw(k) + hh) / nhw(k) == p, (p * nhw(k) + hh) % nhw(k) == hh { lemma_dm(p, nhw(k), hh); }
pub proof fn lemma_okh(v: i16, old: i16, t: &OTB, k: Kernel, h: Heap, p: int, hh: int)
    requires 0 <= hh < nhw(k), 16 * hh < k.output_channels ==> half_ok(v, t, k, h, p, hh), 16 * hh >= k.output_channels ==> v == old
    ensures okh(v, old, t, k, h, p * nhw(k) + hh)
{ reveal(okh); lemma_dm(p, nhw(k), hh); }
#[verifier::opaque] pub open spec fn hinv(out: Seq<i16>, oldv: Seq<i16>, t: &OTB, k: Kernel, h: Heap, o0: int, pi: int, two: bool, lo: int, c: int) -> bool {
    let b0 = o0 + pi * nhw(k); let b1 = o0 + (pi + 1) * nhw(k);
    out.len() == oldv.len()
    && (forall|q: int| lo <= q < b0 + c / 16 ==> okh(#[trigger] out[q], oldv[q], t, k, h, q - o0))
    && (two ==> forall|q: int| b1 <= q < b1 + c / 16 ==> okh(#[trigger] out[q], oldv[q], t, k, h, q - o0))
    && (forall|q: int| 0 <= q < oldv.len() && !(lo <= q < b0 + c / 16) && !(two && b1 <= q < b1 + c / 16) ==> #[trigger] out[q] == oldv[q])
}
pub proof fn lemma_hstep(out0: Seq<i16>, out1: Seq<i16>, oldv: Seq<i16>, t: &OTB, k: Kernel, h: Heap, o0: int, pi: int, two: bool, lo: int, c0: int, cn: int, v0: i16, v1: i16)
    requires hinv(out0, oldv, t, k, h, o0, pi, two, lo, c0), 0 <= lo <= o0 + pi * nhw(k), 0 <= c0 < cn <= k.output_channels, cn <= c0 + 4, o0 + (pi + 1) * nhw(k) <= oldv.len(), two ==> o0 + (pi + 2) * nhw(k) <= oldv.len(),
        !((cn % 16) < c0 % 16) ==> out1 == out0,
        (cn % 16) < c0 % 16 ==> out1 == out0.update(if two { o0 + (pi + 1) * nhw(k) + c0 / 16 } else { o0 + pi * nhw(k) + c0 / 16 }, v1).update(o0 + pi * nhw(k) + c0 / 16, v0) && half_ok(v0, t, k, h, pi, c0 / 16) && (two ==> half_ok(v1, t, k, h, pi + 1, c0 / 16)),
    ensures hinv(out1, oldv, t, k, h, o0, pi, two, lo, cn)
{reveal(hinv);
    let b0 = o0 + pi * nhw(k); let b1 = o0 + (pi + 1) * nhw(k);
    assert((pi + 1) * nhw(k) == pi * nhw(k) + nhw(k) && (pi + 2) * nhw(k) == pi * nhw(k) + 2 * nhw(k)) by (nonlinear_arith);
    if (cn % 16) < c0 % 16 {
        assert(cn / 16 == c0 / 16 + 1 && c0 / 16 < nhw(k));
        lemma_okh(v0, oldv[b0 + c0 / 16], t, k, h, pi, c0 / 16);
        if two { lemma_okh(v1, oldv[b1 + c0 / 16], t, k, h, pi + 1, c0 / 16); }
    } else { assert(cn / 16 == c0 / 16); }
}
#[verifier::opaque] pub open spec fn vmask(w: i32, c0: int, n: int, b0: bool, b1: bool, b2: bool, b3: bool) -> i32 { let r = or4(w, c0 % 16, b0, b1, b2, b3); if n < 4 { r & ((sshl_i32(1, c0 % 16 + n) - 1) as i32) } else { r } }
pub open spec fn blkbits(k: Kernel, h: Heap, t: &OTB, pi: int, o: int, g: int, blk: int, c0: int, n: int, b0: bool, b1: bool, b2: bool, b3: bool) -> bool {
    let gb = g * pkdims(&k).nb + blk; let fs = k.filter_size as int;
    b0 == out_bit(t, kf(k, h, pi, o, gb, 0, g, fs), c0) && (n > 1 ==> b1 == out_bit(t, kf(k, h, pi, o, gb, 1, g, fs), c0 + 1)) && (n > 2 ==> b2 == out_bit(t, kf(k, h, pi, o, gb, 2, g, fs), c0 + 2)) && (n > 3 ==> b3 == out_bit(t, kf(k, h, pi, o, gb, 3, g, fs), c0 + 3))
}
pub proof fn lemma_bend(k: Kernel, h: Heap, t: &OTB, pi: int, two: bool, g: int, blk: int, c0: int, n: int, w0: i32, w1: i32, v0: i32, v1: i32, a0: bool, a1: bool, a2: bool, a3: bool, e0: bool, e1: bool, e2: bool, e3: bool, out0: Seq<i16>, out1: Seq<i16>, oldv: Seq<i16>, o0: int, lo: int)
    requires pk_ok(&k), k.block_size_output_channels == 4, 0 <= pi, pi % 2 == 0, 0 <= g < k.groups, 0 <= blk, c0 == g * pkdims(&k).oc + blk * 4, 1 <= n <= 4, blk * 4 + n <= pkdims(&k).oc, c0 + n <= k.output_channels,
        bstate(w0, t, k, h, pi, c0), two ==> bstate(w1, t, k, h, pi + 1, c0), hinv(out0, oldv, t, k, h, o0, pi, two, lo, c0), 0 <= lo <= o0 + pi * nhw(k), o0 + (pi + 1) * nhw(k) <= oldv.len(), two ==> o0 + (pi + 2) * nhw(k) <= oldv.len(),
        blkbits(k, h, t, pi, 0, g, blk, c0, n, a0, a1, a2, a3), two ==> blkbits(k, h, t, pi, 1, g, blk, c0, n, e0, e1, e2, e3),
        v0 == vmask(w0, c0, n, a0, a1, a2, a3), v1 == vmask(w1, c0, n, e0, e1, e2, e3),
        !((c0 + n) % 16 < c0 % 16) ==> out1 == out0,
        (c0 + n) % 16 < c0 % 16 ==> out1 == out0.update(if two { o0 + (pi + 1) * nhw(k) + c0 / 16 } else { o0 + pi * nhw(k) + c0 / 16 }, v1 as i16).update(o0 + pi * nhw(k) + c0 / 16, v0 as i16),
    ensures hinv(out1, oldv, t, k, h, o0, pi, two, lo, c0 + n),
        bstate(if (c0 + n) % 16 < c0 % 16 { sshr_i32(v0, 16) } else { v0 }, t, k, h, pi, c0 + n), two ==> bstate(if (c0 + n) % 16 < c0 % 16 { sshr_i32(v1, 16) } else { v1 }, t, k, h, pi + 1, c0 + n),
{
    reveal(vmask);
    assert(0 <= g * pkdims(&k).oc) by (nonlinear_arith) requires 0 <= g, pkdims(&k).oc >= blk * 4 + n, blk >= 0, n > 0;
    lemma_kq(k, h, pi, 0, g, blk, 0); lemma_kq(k, h, pi, 1, g, blk, 0);
    if n > 1 { lemma_kq(k, h, pi, 0, g, blk, 1); lemma_kq(k, h, pi, 1, g, blk, 1); }
    if n > 2 { lemma_kq(k, h, pi, 0, g, blk, 2); lemma_kq(k, h, pi, 1, g, blk, 2); }
    if n > 3 { lemma_kq(k, h, pi, 0, g, blk, 3); lemma_kq(k, h, pi, 1, g, blk, 3); }
    lemma_bstep(w0, v0, t, k, h, pi, c0, n, a0, a1, a2, a3);
    if two { lemma_bstep(w1, v1, t, k, h, pi + 1, c0, n, e0, e1, e2, e3); }
    lemma_hstep(out0, out1, oldv, t, k, h, o0, pi, two, lo, c0, c0 + n, v0 as i16, v1 as i16);
}
@@fn compute_engine::core::bitpacking::GetBitpackedSize/1 as get_bitpacked_size
@requires
    0 <= unpacked_elements,
@ensures
    r == cdiv32(unpacked_elements as int)
@@fn compute_engine::core::indirect_bgemm::Kernel4x2Portable<TBitpacked>::Run/3 as k4_run_b
@rlimit 300
@voidptr output_ptr i16
@ghost heap: Ghost<Map<int, Seq<i32>>>
@requires
    run_ready(kb_b(this), heap@), 0 <= pixel_start <= pixel_end <= this.num_output_pixels, pixel_start % 2 == 0, ot_ok_b(&this.output_transform, this.output_channels as int),
    0 <= output_ptr_o@, output_ptr_o@ + pixel_end * nhw(kb_b(this)) <= old(output_ptr)@.len(),
@ensures
    final(output_ptr)@.len() == old(output_ptr)@.len(),
    forall|q: int| output_ptr_o@ + pixel_start * nhw(kb_b(this)) <= q < output_ptr_o@ + pixel_end * nhw(kb_b(this)) ==> okh(#[trigger] final(output_ptr)@[q], old(output_ptr)@[q], &this.output_transform, kb_b(this), heap@, q - output_ptr_o@),
    forall|q: int| 0 <= q < final(output_ptr)@.len() && !(output_ptr_o@ + pixel_start * nhw(kb_b(this)) <= q < output_ptr_o@ + pixel_end * nhw(kb_b(this))) ==> final(output_ptr)@[q] == old(output_ptr)@[q],
@start
    let ghost k = kb_b(this); let ghost h = heap@; let ghost d = pkdims(&k); let ghost fs = k.filter_size as int; let ghost OC = k.output_channels as int; let ghost NH = nhw(k); let ghost o0 = output_ptr_o@; let ghost oldv = output_ptr@;
    let ghost lo = o0 + pixel_start * NH; let ghost hi = o0 + pixel_end * NH; let ghost t = &this.output_transform;
    proof {
        lemma_pk(&k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k.input_depth as int, d.g); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(OC, d.g);
        assert(k.input_depth % k.groups == 0 && k.output_channels % k.groups == 0) by {
            assert(k.input_depth as int % d.g == 0) by (nonlinear_arith) requires k.input_depth == d.g * d.d + k.input_depth as int % d.g, d.d * d.g == k.input_depth;
            assert(OC % d.g == 0) by (nonlinear_arith) requires OC == d.g * d.oc + OC % d.g, d.oc * d.g == OC;
        }
        assert(0 < NH <= 2 * OC);
        assert(0 <= pixel_start * NH <= pixel_end * NH) by (nonlinear_arith) requires 0 <= pixel_start <= pixel_end, NH > 0;
        assert forall|m: int| 0 <= m < 31 implies #[trigger] sshl_i32(1, m) >= 1 by { lemma_shl_pos(m); }
    }
@loop 0 inv
    pixel_start <= p_index, p_index < pixel_end + 2, p_index % 2 == 0, output_ptr@.len() == oldv.len(),
    forall|q: int| lo <= q < o0 + imin(p_index as int, pixel_end as int) * NH ==> okh(#[trigger] output_ptr@[q], oldv[q], t, k, h, q - o0),
    forall|q: int| 0 <= q < oldv.len() && !(lo <= q < o0 + imin(p_index as int, pixel_end as int) * NH) ==> output_ptr@[q] == oldv[q],
@loop 0 dec
    pixel_end + 2 - p_index
@loop 0 begin
    let ghost pi = p_index as int; let ghost two = pixel_end - p_index >= 2; let ghost mut g = 0int; let ghost mut blk = 0int; let ghost b0 = o0 + pi * NH; let ghost b1 = o0 + (pi + 1) * NH;
    proof {
        assert(0 <= pi * NH && pi * NH + NH <= pixel_end * NH && (pi + 1) * NH == pi * NH + NH && (pi + 2) * NH == pi * NH + 2 * NH && pixel_start * NH <= pi * NH) by (nonlinear_arith) requires 0 <= pixel_start <= pi, pi + 1 <= pixel_end, NH > 0;
        if two { assert(pi * NH + 2 * NH <= pixel_end * NH) by (nonlinear_arith) requires pi + 2 <= pixel_end, NH > 0; }
        assert(0 <= pi * cdiv32(OC) <= pi * OC <= k.num_output_pixels * OC && pi * NH == 2 * (pi * cdiv32(OC))) by (nonlinear_arith) requires 0 <= pi <= k.num_output_pixels, 0 < cdiv32(OC) <= OC, NH == 2 * cdiv32(OC);
        lemma_krange(k, h, pi, 0, 0, 0, 0);
        lemma_kw(0, fs, 0, d.d);
        assert(0 * d.oc == 0 && 0 * d.nb == 0 && 0 * d.d == 0 && d.oc <= OC) by (nonlinear_arith) requires d.oc * d.g == OC, d.g > 0, d.oc > 0;
        lemma_bst0(t, k, h, pi); lemma_bst0(t, k, h, pi + 1); reveal(hinv);
    }
@loop 0 end
    proof {
        let e = if two { o0 + (pi + 2) * NH } else { b1 };
        assert(e == o0 + imin(pi + 2, pixel_end as int) * NH);
        reveal(hinv);
        if OC % 16 > 0 { lemma_blast(output_col_0, t, k, h, pi); if two { lemma_blast(output_col_1, t, k, h, pi + 1); } }
        assert forall|q: int| lo <= q < e implies okh(#[trigger] output_ptr@[q], oldv[q], t, k, h, q - o0) by {
            if b0 + OC / 16 <= q < b1 { lemma_okh(output_ptr@[q], oldv[q], t, k, h, pi, q - b0); } else if q >= b1 + OC / 16 { lemma_okh(output_ptr@[q], oldv[q], t, k, h, pi + 1, q - b1); }
        }
    }
@loop 0.0 inv
    0 <= g <= d.g, 0 <= blk, g < d.g ==> blk < d.nb && blk * 4 < d.oc, g == d.g ==> blk == 0, c_out_index == g * d.oc + blk * 4, 0 <= c_out_index <= OC, go_0_0 == (c_out_index < OC), go_0_0 == (g < d.g),
    group_end_output_channel == g * d.oc + d.oc, g * d.oc + d.oc <= OC + d.oc, input_depth_offset == g * d.d,
    weights_ptr.s@ == k.packed_weights@, weights_ptr.o@ == ((g * d.nb + blk) * fs + 0) * (4 * d.d), indirection_ptr.s@ == k.indirection_buffer@, indirection_ptr.o@ == pi * fs,
    output_ptr_0_o@ == b0 + c_out_index as int / 16, output_ptr_1_o@ == (if two { b1 + c_out_index as int / 16 } else { b0 + c_out_index as int / 16 }),
    output_ptr@.len() == oldv.len(),
    bstate(output_col_0, t, k, h, pi, c_out_index as int), two ==> bstate(output_col_1, t, k, h, pi + 1, c_out_index as int),
    output_ptr@.len() == oldv.len(), hinv(output_ptr@, oldv, t, k, h, o0, pi, two, lo, c_out_index as int),
@loop 0.0 dec
    OC - c_out_index, (if go_0_0 { 1int } else { 0int })
@loop 0.0 begin
    let ghost gb = g * d.nb + blk; let ghost c0 = c_out_index as int; let ghost out0 = output_ptr@; let ghost w0 = output_col_0; let ghost w1 = output_col_1;
    proof {
        assert(g * d.oc + d.oc <= OC && g * d.d + d.d <= k.input_depth) by (nonlinear_arith) requires g + 1 <= d.g, d.oc * d.g == OC, d.d * d.g == k.input_depth, d.oc > 0, d.d > 0;
        lemma_krange(k, h, pi, g, blk, 0, 0); lemma_kstep(k, h, pi, gb, g, 0, 0);
        lemma_kw(gb, fs, 0, d.d);
    }
@loop 0.0.0 inv
    0 <= f_size_index <= fs, go_0_0_0 == (f_size_index > 0),
    weights_ptr.s@ == k.packed_weights@, weights_ptr.o@ == (gb * fs + (fs - f_size_index)) * (4 * d.d), indirection_ptr.s@ == k.indirection_buffer@, indirection_ptr.o@ == pi * fs + 2 * (fs - f_size_index),
    acc_00 == kf(k, h, pi, 0, gb, 0, g, fs - f_size_index), acc_10 == kf(k, h, pi, 0, gb, 1, g, fs - f_size_index), acc_20 == kf(k, h, pi, 0, gb, 2, g, fs - f_size_index), acc_30 == kf(k, h, pi, 0, gb, 3, g, fs - f_size_index),
    acc_01 == kf(k, h, pi, 1, gb, 0, g, fs - f_size_index), acc_11 == kf(k, h, pi, 1, gb, 1, g, fs - f_size_index), acc_21 == kf(k, h, pi, 1, gb, 2, g, fs - f_size_index), acc_31 == kf(k, h, pi, 1, gb, 3, g, fs - f_size_index),
@loop 0.0.0 dec
    f_size_index
@loop 0.0.0 begin
    let ghost fi = fs - f_size_index;
    proof { lemma_krange(k, h, pi, g, blk, fi, 0); lemma_kstep(k, h, pi, gb, g, fi, 0); lemma_kw(gb, fs, fi, d.d); }
@loop 0.0.0 after
    proof { lemma_kbound(k, h, pi, gb, g); assert(f_size_index == 0); }
@loop 0.0.0.0 inv
    0 <= depth_index <= d.d, go_0_0_0_0 == (depth_index > 0),
    weights_ptr.s@ == k.packed_weights@, weights_ptr.o@ == (gb * fs + fi) * (4 * d.d) + 4 * (d.d - depth_index),
    activations_ptr_0.s@ == h[k_ptr(k, pi, fi, 0).obj@], activations_ptr_0.o@ == k_ptr(k, pi, fi, 0).off@ + g * d.d + (d.d - depth_index),
    activations_ptr_1.s@ == h[k_ptr(k, pi, fi, 1).obj@], activations_ptr_1.o@ == k_ptr(k, pi, fi, 1).off@ + g * d.d + (d.d - depth_index),
    acc_00 == kf(k, h, pi, 0, gb, 0, g, fi) + kd(k, h, pi, 0, gb, 0, g, fi, d.d - depth_index), acc_10 == kf(k, h, pi, 0, gb, 1, g, fi) + kd(k, h, pi, 0, gb, 1, g, fi, d.d - depth_index), acc_20 == kf(k, h, pi, 0, gb, 2, g, fi) + kd(k, h, pi, 0, gb, 2, g, fi, d.d - depth_index), acc_30 == kf(k, h, pi, 0, gb, 3, g, fi) + kd(k, h, pi, 0, gb, 3, g, fi, d.d - depth_index),
    acc_01 == kf(k, h, pi, 1, gb, 0, g, fi) + kd(k, h, pi, 1, gb, 0, g, fi, d.d - depth_index), acc_11 == kf(k, h, pi, 1, gb, 1, g, fi) + kd(k, h, pi, 1, gb, 1, g, fi, d.d - depth_index), acc_21 == kf(k, h, pi, 1, gb, 2, g, fi) + kd(k, h, pi, 1, gb, 2, g, fi, d.d - depth_index), acc_31 == kf(k, h, pi, 1, gb, 3, g, fi) + kd(k, h, pi, 1, gb, 3, g, fi, d.d - depth_index),
@loop 0.0.0.0 dec
    depth_index
@loop 0.0.0.0 begin
    let ghost ci = d.d - depth_index;
    proof { lemma_krange(k, h, pi, g, blk, fi, ci); lemma_kstep(k, h, pi, gb, g, fi, ci); }
@loop 0.0 end
    proof {
        let n = if c0 + 4 <= g * d.oc + d.oc { 4int } else { g * d.oc + d.oc - c0 };
        let cn = c0 + n;
        assert(c_out_index == cn);
        let m = (sshl_i32(1, c0 % 16 + n) - 1) as i32;
        let r0 = or4(w0, c0 % 16, out_bit(t, acc_00 as int, c0), out_bit(t, acc_10 as int, c_out_1 as int), out_bit(t, acc_20 as int, c_out_2 as int), out_bit(t, acc_30 as int, c_out_3 as int));
        let r1 = or4(w1, c0 % 16, out_bit(t, acc_01 as int, c0), out_bit(t, acc_11 as int, c_out_1 as int), out_bit(t, acc_21 as int, c_out_2 as int), out_bit(t, acc_31 as int, c_out_3 as int));
        let v0 = if n < 4 { r0 & m } else { r0 }; let v1 = if n < 4 { r1 & m } else { r1 };
        reveal(or4); reveal(vmask);
        assert(!((cn % 16) < c0 % 16) ==> output_col_0 == v0 && output_col_1 == v1 && output_ptr@ == out0);
        assert((cn % 16) < c0 % 16 ==> output_col_0 == sshr_i32(v0, 16) && output_col_1 == sshr_i32(v1, 16));
        let x1 = if two { b1 + c0 / 16 } else { b0 + c0 / 16 };
        assert((cn % 16) < c0 % 16 ==> output_ptr@ == out0.update(x1, v1 as i16).update(b0 + c0 / 16, v0 as i16));
        lemma_bend(k, h, t, pi, two, g, blk, c0, n, w0, w1, v0, v1, out_bit(t, acc_00 as int, c0), out_bit(t, acc_10 as int, c_out_1 as int), out_bit(t, acc_20 as int, c_out_2 as int), out_bit(t, acc_30 as int, c_out_3 as int),
            out_bit(t, acc_01 as int, c0), out_bit(t, acc_11 as int, c_out_1 as int), out_bit(t, acc_21 as int, c_out_2 as int), out_bit(t, acc_31 as int, c_out_3 as int), out0, output_ptr@, oldv, o0, lo);
        lemma_kw(gb, fs, 0, d.d);
        if cn == g * d.oc + d.oc {
            assert((g + 1) * d.oc == g * d.oc + d.oc && (g + 1) * d.d == g * d.d + d.d && (g + 1) * d.nb == g * d.nb + d.nb) by (nonlinear_arith);
            g = g + 1; blk = 0;
            assert(g < d.g ==> g * d.oc < OC) by (nonlinear_arith) requires g <= d.g, d.oc * d.g == OC, d.oc > 0;
            if g == d.g { assert(g * d.oc == OC) by (nonlinear_arith) requires g == d.g, d.oc * d.g == OC; }
        } else { blk = blk + 1; }
    }
