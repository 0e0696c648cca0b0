@@prelude
// ---- what Kernel::Run does for each dynamic type --------------------------
pub trait DstT: Sized {
    spec fn run_pre(k: Kernel, h: Heap, ps: int, pe: int, out: Seq<Self>, o: int) -> bool;
    spec fn run_post(k: Kernel, h: Heap, ps: int, pe: int, old: Seq<Self>, new: Seq<Self>, o: int) -> bool;
}
pub open spec fn run_rng(k: Kernel, h: Heap, ps: int, pe: int) -> bool { run_ready(k, h) && 0 <= ps <= pe <= k.num_output_pixels && ps % 2 == 0 }
@@foreach S T V in f:F32:F i:i8:I
impl DstT for $T {
    open spec fn run_pre(k: Kernel, h: Heap, ps: int, pe: int, out: Seq<$T>, o: int) -> bool {
        run_rng(k, h, ps, pe) && k.dy@ is $V && ot_ok_$S(&k.dy@->$V_0, k.output_channels as int) && 0 <= o && o + pe * k.output_channels <= out.len()
    }
    open spec fn run_post(k: Kernel, h: Heap, ps: int, pe: int, old: Seq<$T>, new: Seq<$T>, o: int) -> bool {
        new.len() == old.len()
        && (forall|q: int| o + ps * k.output_channels <= q < o + pe * k.output_channels ==> okk_$S(#[trigger] new[q], &k.dy@->$V_0, k, h, q - o))
        && (forall|q: int| 0 <= q < new.len() && !(o + ps * k.output_channels <= q < o + pe * k.output_channels) ==> new[q] == old[q])
    }
}
// the proved kernel implements the interface
pub fn refine_run_$S(this: &K4$S, ps: i32, pe: i32, out: &mut Mem<$T>, o: Off, heap: Ghost<Heap>)
    requires $T::run_pre(kb_$S(this), heap@, ps as int, pe as int, old(out)@, o@)
    ensures $T::run_post(kb_$S(this), heap@, ps as int, pe as int, old(out)@, final(out)@, o@)
{ k4_run_$S(this, ps, pe, out, o, heap); }
@@end
// the two half-words of a 32-bit word, least significant first
pub open spec fn lo16(w: i32) -> i16 { w as i16 }
pub open spec fn hi16(w: i32) -> i16 { (w >> 16) as i16 }
pub open spec fn halves(s: Seq<i32>) -> Seq<i16> { Seq::new(2 * s.len(), |i: int| if i % 2 == 0 { lo16(s[i / 2]) } else { hi16(s[i / 2]) }) }
pub open spec fn run_b_post(k: Kernel, t: &OTB, h: Heap, ps: int, pe: int, old: Seq<i16>, new: Seq<i16>, o: int) -> bool {
    new.len() == old.len()
    && (forall|q: int| o + ps * nhw(k) <= q < o + pe * nhw(k) ==> okh(#[trigger] new[q], old[q], t, k, h, q - o))
    && (forall|q: int| 0 <= q < new.len() && !(o + ps * nhw(k) <= q < o + pe * nhw(k)) ==> new[q] == old[q])
}
impl DstT for i32 {
    open spec fn run_pre(k: Kernel, h: Heap, ps: int, pe: int, out: Seq<i32>, o: int) -> bool {
        run_rng(k, h, ps, pe) && k.dy@ is B && ot_ok_b(&k.dy@->B_0, k.output_channels as int) && 0 <= o && 2 * o + pe * nhw(k) <= 2 * out.len()
    }
    open spec fn run_post(k: Kernel, h: Heap, ps: int, pe: int, old: Seq<i32>, new: Seq<i32>, o: int) -> bool {
        run_b_post(k, &k.dy@->B_0, h, ps, pe, halves(old), halves(new), 2 * o)
    }
}
pub fn refine_run_b(this: &K4b, ps: i32, pe: i32, out: &mut Mem<i16>, o: Off, heap: Ghost<Heap>)
    requires run_rng(kb_b(this), heap@, ps as int, pe as int), ot_ok_b(&this.output_transform, this.output_channels as int), 0 <= o@, o@ + pe * nhw(kb_b(this)) <= old(out)@.len()
    ensures run_b_post(kb_b(this), &this.output_transform, heap@, ps as int, pe as int, old(out)@, final(out)@, o@)
{ k4_run_b(this, ps, pe, out, o, heap); }
// a virtual call reaches the override of the dynamic type
#[verifier::external_body] pub fn kernel_run_dyn<T: DstT>(this: &Kernel, ps: i32, pe: i32, out: &mut Mem<T>, o: Off, heap: Ghost<Heap>)
    requires T::run_pre(*this, heap@, ps as int, pe as int, old(out)@, o@)
    ensures T::run_post(*this, heap@, ps as int, pe as int, old(out)@, final(out)@, o@) { unimplemented!() }
// converting a unique_ptr to the base class keeps the object
@@foreach S in f i b
pub fn up_K4$S_Kernel(k: K4$S) -> (r: Kernel) ensures r == kb_$S(&k) {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(kb_$S(&k).dy@) }
}
@@end
@@extern compute_engine::core::indirect_bgemm::Kernel::Run/3 => kernel_run_dyn+heap
@@assume a virtual call of Kernel::Run runs the override of the object's dynamic type (the portable kernels are the only ones in this build), and a 32-bit output word written through 16-bit halves is their little-endian combination
@@prelude
// ---- construction ----------------------------------------------------------
pub open spec fn kdims_ok(p: &BConv2DParams, i: Shape, o: Shape) -> bool {
    i@.len() == 4 && o@.len() == 4 && 0 <= p.filter_height && 0 <= p.filter_width && p.filter_height * p.filter_width <= 0x7fff_ffff
    && i@[0] >= 0 && o@[1] >= 0 && o@[2] >= 0 && i@[0] * o@[1] <= 0x7fff_ffff && i@[0] * o@[1] * o@[2] <= 0x7fff_ffff
}
pub open spec fn k_new(k: Kernel, bo: int, bp: int, bd: int, p: &BConv2DParams, i: Shape, o: Shape) -> bool {
    k.block_size_output_channels == bo && k.block_size_pixels == bp && k.block_size_depth == bd && k.input_depth == i@[3] && k.output_channels == p.channels_out
    && k.filter_size == p.filter_height * p.filter_width && k.groups == p.groups && k.num_output_pixels == i@[0] * o@[1] * o@[2]
    && k.packed_weights@.len() == 0 && k.indirection_buffer@.len() == 0 && k.zero_buffer@.len() == 0
}
@@fn compute_engine::core::indirect_bgemm::Kernel::Kernel/6 as kernel_ctor
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
@ensures
    k_new(r, block_size_output_channels as int, block_size_pixels as int, block_size_depth as int, bconv2d_params, *bitpacked_input_shape, *output_shape)
@start
    proof { assert(0 <= bitpacked_input_shape@[0] * output_shape@[1] && 0 <= bitpacked_input_shape@[0] * output_shape@[1] * output_shape@[2] && 0 <= bconv2d_params.filter_height * bconv2d_params.filter_width) by (nonlinear_arith) requires bitpacked_input_shape@[0] >= 0, output_shape@[1] >= 0, output_shape@[2] >= 0, 0 <= bconv2d_params.filter_height, 0 <= bconv2d_params.filter_width; }
@@foreach S V N C in f:F:float:float i:I:signed_char:signed_char b:B:TBitpacked:int
@@fn compute_engine::core::indirect_bgemm::Kernel4x2Portable<$N>::Kernel4x2Portable/4 as k4_ctor_$S
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
@ensures
    k_new(kb_$S(&r), 4, 2, 1, bconv2d_params, *bitpacked_input_shape, *output_shape), r.output_transform == *output_transform
@@fn compute_engine::core::indirect_bgemm::SelectRuntimeKernel<$C>/4 as select_kernel_$S
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
@ensures
    k_new(r, 4, 2, 1, bconv2d_params, *bitpacked_input_shape, *output_shape), r.dy@ == DynOT::$V(*output_transform)
@@end
@@fn compute_engine::core::indirect_bgemm::Kernel::Dispatch/1 as k_dispatch
@generic T: DstT
@voidptr output_ptr T
@ghost heap: Ghost<Map<int, Seq<i32>>>
@requires
    T::run_pre(*this, heap@, 0, this.num_output_pixels as int, old(output_ptr)@, output_ptr_o@),
@ensures
    T::run_post(*this, heap@, 0, this.num_output_pixels as int, old(output_ptr)@, final(output_ptr)@, output_ptr_o@),
@@prelude
// ---- the whole indirect convolution ----------------------------------------
pub open spec fn run_lim(k: Kernel) -> bool {
    k.num_output_pixels + 2 <= 0x7fff_ffff && k.num_output_pixels * k.output_channels <= 0x7fff_ffff && k.filter_size * (32 * pkdims(&k).d) < 0x2000_0000 && 2 * k.filter_size <= 0x7fff_ffff && k.output_channels + 4 <= 0x7fff_ffff && 2 * k.output_channels <= 0x7fff_ffff
    && ntiles(&k) * 2 * k.filter_size + 2 <= 0x7fff_ffff
}
pub open spec fn in_mem(c: Cv) -> bool { c.id.len() == 4 && c.id[0] >= 0 && c.id[1] >= 0 && c.id[2] >= 0 && c.id[3] >= 0 && 0 <= c.o && c.o + size4(c.id) <= c.s.len() }
pub proof fn lemma_inrange(id: Seq<i32>, b: int, y: int, x: int)
    requires id.len() == 4, 0 <= b < id[0], 0 <= y < id[1], 0 <= x < id[2], id[3] >= 0
    ensures 0 <= off4(id, b, y, x, 0), off4(id, b, y, x, 0) + id[3] <= size4(id)
{
    let u = b * id[1] + y; let v = u * id[2] + x;
    assert(0 <= u && u + 1 <= id[0] * id[1]) by (nonlinear_arith) requires 0 <= b < id[0], 0 <= y < id[1], u == b * id[1] + y;
    assert(0 <= v && v + 1 <= id[0] * id[1] * id[2]) by (nonlinear_arith) requires 0 <= u, u + 1 <= id[0] * id[1], 0 <= x < id[2], v == u * id[2] + x;
    assert(0 <= v * id[3] && v * id[3] + id[3] <= size4(id)) by (nonlinear_arith) requires 0 <= v, v + 1 <= id[0] * id[1] * id[2], id[3] >= 0, size4(id) == id[0] * id[1] * id[2] * id[3];
}
pub proof fn lemma_ready(k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>)
    requires k_holds(k, h, c, ci, od), run_lim(k), in_mem(c)
    ensures run_ready(k, h)
{
    let fs = k.filter_size as int; let nt = ntiles(&k); let n = k.num_output_pixels as int;
    lemma_pk(&k);
    assert(n > 0) by (nonlinear_arith) requires n == c.id[0] * od[1] * od[2], c.id[0] > 0, od[1] > 0, od[2] > 0;
    assert(k.packed_weights@.len() == pk_len(pkdims(&k))) by { let w = choose|w: CPtr<i32>| w.s@ == c.f && w.o@ == c.fo && #[trigger] packed_ok(&k, w); }
    assert(k.input_depth <= fs * k.input_depth) by (nonlinear_arith) requires fs > 0, k.input_depth > 0;
    assert forall|q: int| 0 <= q < nt * 2 * fs implies ptr_valid(h, #[trigger] k.indirection_buffer@[q], k.input_depth as int) by {
        assert(entry_ok(ci, od, 2, fs, n, q, k.indirection_buffer@[q]));
        lemma_edec(2, fs, q, nt);
        let p = e_p(2, fs, n, q); let fi = e_f(2, fs, q);
        lemma_pix(od, c.id[0] as int, p);
        let y = iny(ci, pxy(od, p), fi / (ci.fd[2] as int)); let x = inx(ci, pxx(od, p), fi % (ci.fd[2] as int));
        if inside(ci, y, x) { lemma_inrange(c.id, pxb(od, p), y, x); }
    }
}
// kernel outputs are the definition's outputs
@@foreach S T V in f:F32:F i:i8:I
pub proof fn lemma_okv_$S(v: $T, t: &OT$V, k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>, q: int)
    requires k_holds(k, h, c, ci, od), okk_$S(v, t, k, h, q), od[3] == k.output_channels, 0 <= q < k.num_output_pixels * k.output_channels
    ensures okv_$S(v, c, t, od, q)
{
    let OC = k.output_channels as int;
    assert(0 <= q / OC < k.num_output_pixels) by (nonlinear_arith) requires 0 <= q < k.num_output_pixels * OC, OC > 0;
    lemma_kval(k, h, c, ci, od, px_of(k, q), oc_of(k, q));
}
@@end
pub proof fn lemma_halfbits(w: i32)
    ensures forall|j: int| 0 <= j < 16 ==> #[trigger] bit(w, j) == hbit(lo16(w), j), forall|j: int| 16 <= j < 32 ==> #[trigger] bit(w, j) == hbit(hi16(w), j - 16)
{
    assert forall|j: int| 0 <= j < 16 implies #[trigger] bit(w, j) == hbit(lo16(w), j) by {
        let a = j as u32; let b = j as u16;
        assert((((w as u32) >> a) & 1u32 == 1u32) == (((((w as i16) as u16) >> b) & 1u16) == 1u16)) by (bit_vector) requires a < 16, a == b as u32;
    }
    assert forall|j: int| 16 <= j < 32 implies #[trigger] bit(w, j) == hbit(hi16(w), j - 16) by {
        let a = j as u32; let b = (j - 16) as u16;
        assert((((w as u32) >> a) & 1u32 == 1u32) == ((((((w >> 16i32) as i16) as u16) >> b) & 1u16) == 1u16)) by (bit_vector) requires 16 <= a < 32, a == add(16u32, b as u32);
    }
}
// word cw of pixel p from its two halves; halves beyond the channels were zero before
pub proof fn lemma_okv_b(w: i32, w0: i32, t: &OTB, k: Kernel, h: Heap, c: Cv, ci: Cv, od: Seq<i32>, p: int, cw: int)
    requires k_holds(k, h, c, ci, od), od[3] == cdiv32(k.output_channels as int), 0 <= p < k.num_output_pixels, 0 <= cw < od[3],
        okh(lo16(w), lo16(w0), t, k, h, p * nhw(k) + 2 * cw), okh(hi16(w), hi16(w0), t, k, h, p * nhw(k) + (2 * cw + 1)),
        32 * cw + 32 > k.output_channels ==> w0 == 0
    ensures okv_b(w, c, t, od, p * od[3] + cw)
{
    reveal(okh); reveal(half_ok);
    let oc = k.output_channels as int;
    lemma_hq(k, p, 2 * cw); lemma_hq(k, p, 2 * cw + 1); lemma_dm(p, od[3] as int, cw);
    lemma_halfbits(w);
    assert(lo16(0i32) == 0i16 && hi16(0i32) == 0i16) by (bit_vector);
    assert forall|b: int| 0 <= b < 32 implies #[trigger] bit(w, b) == (32 * cw + b < oc && out_bit(t, conv(c, pxb(od, p), pxy(od, p), pxx(od, p), 32 * cw + b), 32 * cw + b)) by {
        let hh = if b < 16 { 2 * cw } else { 2 * cw + 1 }; let hb = if b < 16 { b } else { b - 16 };
        if 16 * hh < oc {
            if b < 16 { assert(bit(w, b) == hbit(lo16(w), b)); } else { assert(bit(w, b) == hbit(hi16(w), b - 16)); }
            assert(16 * hh + hb == 32 * cw + b);
            if 32 * cw + b < oc { lemma_kval(k, h, c, ci, od, p, 32 * cw + b); }
        } else {
            let u = hb as u16;
            assert((0u16 >> u) & 1u16 == 0u16) by (bit_vector);
            assert(!hbit(0i16, hb));
        }
    }
}
pub open spec fn opt_pre(k: Kernel, h: Heap, p: &BConv2DParams, i: Shape, o: Shape, c: Cv, ci: Cv) -> bool {
    k_holds(k, h, c, ci, o@) && run_lim(k) && in_mem(c) && c.id == i@ && o@.len() == 4 && o@[0] == i@[0] && o@[3] > 0 && 0 < p.groups && k.groups == p.groups
}
pub open spec fn wants_corr(p: &BConv2DParams, pv: i32) -> bool { p.padding_type == 1 && pv == 0 }
pub open spec fn izg(p: &BConv2DParams, id: Seq<i32>, od: Seq<i32>) -> Zg { Zg { nb: id[0] as int, ih: id[1] as int, iw: id[2] as int, oh: od[1] as int, ow: od[2] as int, sr: p.stride_height as int, sc: p.stride_width as int } }
// the padding cache belongs to this convolution
pub open spec fn izready(z: Zf, m: CPtr<F32>, p: &BConv2DParams, buf: CPtr<F32>, c: Cv, id: Seq<i32>, od: Seq<i32>) -> bool {
    zlinked(z, izg(p, id, od), c) && cache_ok(z, m, buf.s@, buf.o@) && od == zod(z, izg(p, id, od)) && z.fd[1] == p.filter_height && z.fd[2] == p.filter_width && z.dh == p.dilation_height_factor && z.dw == p.dilation_width_factor
        && p.groups > 0 && 0 <= p.channels_in
}
@@foreach S T V C in f:F32:F:float i:i8:I:signed_char
@@fn compute_engine::core::bconv2d::BConv2DOptimizedIndirectBGEMM<$C,$C>/7 as conv_indirect_$S
@rlimit 60
@ghost heap: Ghost<Map<int, Seq<i32>>>
@ghost c: Ghost<Cv>
@ghost ci: Ghost<Cv>
@ghost zf: Ghost<Zf>
@ghost zm: Ghost<CPtr<F32>>
@requires
    COR_$S(bconv2d_params, pad_value) ==> izready(zf@, zm@, bconv2d_params, padding_buffer, c@, bitpacked_input_shape@, output_shape@),
    opt_pre(*kernel, heap@, bconv2d_params, *bitpacked_input_shape, *output_shape, c@, ci@), kernel.dy@ is $V, ot_ok_$S(&kernel.dy@->$V_0, kernel.output_channels as int), output_shape@[3] == kernel.output_channels,
    0 <= output_ptr_o@, output_ptr_o@ + size4(output_shape@) <= old(output_ptr)@.len(),
@ensures
    final(output_ptr)@.len() == old(output_ptr)@.len(),
    !COR_$S(bconv2d_params, pad_value) ==> forall|q: int| output_ptr_o@ <= q < output_ptr_o@ + size4(output_shape@) ==> okv_$S(#[trigger] final(output_ptr)@[q], c@, &kernel.dy@->$V_0, output_shape@, q - output_ptr_o@),
    COR_$S(bconv2d_params, pad_value) ==> forall|q: int| output_ptr_o@ <= q < output_ptr_o@ + size4(output_shape@) ==> okz_$S(#[trigger] final(output_ptr)@[q], c@, &kernel.dy@->$V_0, zm@, zf@, izg(bconv2d_params, bitpacked_input_shape@, output_shape@), output_shape@, q - output_ptr_o@),
    forall|q: int| 0 <= q < final(output_ptr)@.len() && !(output_ptr_o@ <= q < output_ptr_o@ + size4(output_shape@)) ==> final(output_ptr)@[q] == old(output_ptr)@[q],
@start
    let ghost od = output_shape@; let ghost k = *kernel; let ghost n = k.num_output_pixels * k.output_channels; let ghost o0 = output_ptr_o@; let ghost mut mid = output_ptr@; let ghost old0 = output_ptr@;
    proof {
        lemma_ready(k, heap@, c@, ci@, od);
        assert(n == size4(od)) by (nonlinear_arith) requires k.num_output_pixels == od[0] * od[1] * od[2], k.output_channels == od[3], n == k.num_output_pixels * k.output_channels, size4(od) == od[0] * od[1] * od[2] * od[3];
    }
@call zp_apply
    proof { mid = output_ptr@; }
@end
    proof {
        if !COR_$S(bconv2d_params, pad_value) { mid = output_ptr@; }
        assert forall|q: int| o0 <= q < o0 + size4(od) implies okv_$S(#[trigger] mid[q], c@, &k.dy@->$V_0, od, q - o0) by {
            assert(okk_$S(mid[q], &k.dy@->$V_0, k, heap@, q - o0));
            lemma_okv_$S(mid[q], &k.dy@->$V_0, k, heap@, c@, ci@, od, q - o0);
        }
    }
@@end
@@prelude
pub open spec fn COR_f(p: &BConv2DParams, pv: i32) -> bool { wants_corr(p, pv) }
pub open spec fn COR_i(p: &BConv2DParams, pv: i32) -> bool { false }
pub open spec fn okz_i(v: i8, c: Cv, t: &OTI, m: CPtr<F32>, z: Zf, g: Zg, od: Seq<i32>, q: int) -> bool { true }
@@fn compute_engine::core::bconv2d::BConv2DOptimizedIndirectBGEMM<int,int>/7 as conv_indirect_b
@rlimit 60
@ghost heap: Ghost<Map<int, Seq<i32>>>
@ghost c: Ghost<Cv>
@ghost ci: Ghost<Cv>
@requires
    opt_pre(*kernel, heap@, bconv2d_params, *bitpacked_input_shape, *output_shape, c@, ci@), kernel.dy@ is B, ot_ok_b(&kernel.dy@->B_0, kernel.output_channels as int), output_shape@[3] == cdiv32(kernel.output_channels as int),
    0 <= output_ptr_o@, output_ptr_o@ + size4(output_shape@) <= old(output_ptr)@.len(), size4(output_shape@) <= 0x7fff_ffff,
@ensures
    final(output_ptr)@.len() == old(output_ptr)@.len(),
    forall|q: int| output_ptr_o@ <= q < output_ptr_o@ + size4(output_shape@) ==> okv_b(#[trigger] final(output_ptr)@[q], c@, &kernel.dy@->B_0, output_shape@, q - output_ptr_o@),
    forall|q: int| 0 <= q < final(output_ptr)@.len() && !(output_ptr_o@ <= q < output_ptr_o@ + size4(output_shape@)) ==> final(output_ptr)@[q] == old(output_ptr)@[q],
@start
    let ghost od = output_shape@; let ghost k = *kernel; let ghost nw = cdiv32(k.output_channels as int); let ghost n = k.num_output_pixels * nw; let ghost o0 = output_ptr_o@; let ghost old0 = output_ptr@; let ghost t = &k.dy@->B_0;
    proof {
        lemma_ready(k, heap@, c@, ci@, od); lemma_pk(&k);
        assert(n == size4(od)) by (nonlinear_arith) requires k.num_output_pixels == od[0] * od[1] * od[2], nw == od[3], n == k.num_output_pixels * nw, size4(od) == od[0] * od[1] * od[2] * od[3];
        assert(k.num_output_pixels * nhw(k) == 2 * n) by (nonlinear_arith) requires n == k.num_output_pixels * nw, nhw(k) == 2 * nw;
        assert(n >= 0) by (nonlinear_arith) requires n == k.num_output_pixels * nw, k.num_output_pixels >= 0, nw >= 0;
    }
@end
    proof {
        let mid0 = if k.output_channels % 32 != 0 { sfill(old0, o0, o0 + n, 0i32) } else { old0 }; let out = output_ptr@; let ho = halves(mid0); let hn = halves(out); let NP = k.num_output_pixels as int;
        assert forall|z: int| o0 <= z < o0 + size4(od) implies okv_b(#[trigger] out[z], c@, t, od, z - o0) by {
            let q = z - o0;
            let p = q / nw; let cw = q % nw;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, nw);
            assert(0 <= p < NP) by (nonlinear_arith) requires q == nw * p + cw, 0 <= cw < nw, 0 <= q < NP * nw;
            assert(p * nw + cw == q) by (nonlinear_arith) requires q == nw * p + cw;
            assert(p * nhw(k) == 2 * (p * nw)) by (nonlinear_arith) requires nhw(k) == 2 * nw;
            let a = 2 * o0 + 2 * q; let b = 2 * o0 + 2 * q + 1;
            assert(okh(hn[a], ho[a], t, k, heap@, a - 2 * o0)); assert(okh(hn[b], ho[b], t, k, heap@, b - 2 * o0));
            assert(hn[a] == lo16(out[o0 + q]) && ho[a] == lo16(mid0[o0 + q]) && hn[b] == hi16(out[o0 + q]) && ho[b] == hi16(mid0[o0 + q]));
            if 32 * cw + 32 > k.output_channels { assert(k.output_channels % 32 != 0); assert(mid0[o0 + q] == 0); }
            lemma_okv_b(out[o0 + q], mid0[o0 + q], t, k, heap@, c@, ci@, od, p, cw);
        }
        assert forall|q: int| 0 <= q < out.len() && !(o0 <= q < o0 + size4(od)) implies out[q] == old0[q] by {
            let a = 2 * q; let b = 2 * q + 1;
            assert(hn[a] == ho[a] && hn[b] == ho[b]);
            lemma_w2(out[q], mid0[q]);
        }
    }
@@prelude
pub proof fn lemma_w2(a: i32, b: i32) requires lo16(a) == lo16(b), hi16(a) == hi16(b) ensures a == b
{ assert(a == b) by (bit_vector) requires a as i16 == b as i16, (a >> 16i32) as i16 == (b >> 16i32) as i16; }
