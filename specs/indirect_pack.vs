@@name compute_engine::core::indirect_bgemm::Kernel => Kernel
@@field compute_engine::core::indirect_bgemm::Kernel + dy: Ghost<DynOT>
@@prelude
// dynamic type of a kernel object and its output stage
pub enum DynOT { F(OTF), I(OTI), B(OTB), N }
@@prelude
// geometry of the packed weights: groups, output channels per group, blocks of
// bo channels, depth blocks of bd words, nb channel blocks per group, fs taps,
// d words per tap
pub ghost struct Pk { pub g: int, pub oc: int, pub bo: int, pub bd: int, pub nb: int, pub fs: int, pub d: int, pub nc: int }
pub open spec fn pkdims(k: &Kernel) -> Pk {
    let oc = tdiv(k.output_channels as int, k.groups as int); let d = tdiv(k.input_depth as int, k.groups as int);
    Pk { g: k.groups as int, oc, bo: k.block_size_output_channels as int, bd: k.block_size_depth as int, nb: tdiv(oc + k.block_size_output_channels - 1, k.block_size_output_channels as int), fs: k.filter_size as int, d, nc: tdiv(d, k.block_size_depth as int) }
}
pub open spec fn pk_len(p: Pk) -> int { p.g * (p.nb * p.bo) * p.fs * p.d + p.bo * p.bd }
pub open spec fn pk_ok(k: &Kernel) -> bool {
    let p = pkdims(k);
    k.groups > 0 && k.output_channels > 0 && k.input_depth > 0 && k.filter_size > 0 && k.block_size_output_channels > 0 && k.block_size_depth > 0
    && p.oc * p.g == k.output_channels && p.d * p.g == k.input_depth && p.nc * p.bd == p.d && p.oc + p.bo <= 0x7fff_ffff
    && p.g * (p.nb * p.bo) <= 0x7fff_ffff && p.g * (p.nb * p.bo) * p.fs <= 0x7fff_ffff && pk_len(p) <= 0x7fff_ffff && p.bo * p.bd <= 0x7fff_ffff
}
pub open spec fn tile(p: Pk, g: int, blk: int, fi: int) -> int { (g * p.nb + blk) * p.fs + fi }
pub open spec fn pos(p: Pk, g: int, blk: int, fi: int, cb: int, j: int, co: int) -> int { tile(p, g, blk, fi) * (p.nc * (p.bo * p.bd)) + cb * (p.bo * p.bd) + j * p.bd + co }
// decoding a position of the packed array
pub open spec fn q_tile(p: Pk, q: int) -> int { q / (p.nc * (p.bo * p.bd)) }
pub open spec fn q_rem(p: Pk, q: int) -> int { q % (p.nc * (p.bo * p.bd)) }
pub open spec fn q_cb(p: Pk, q: int) -> int { q_rem(p, q) / (p.bo * p.bd) }
pub open spec fn q_v(p: Pk, q: int) -> int { q_rem(p, q) % (p.bo * p.bd) }
pub open spec fn q_j(p: Pk, q: int) -> int { q_v(p, q) / p.bd }
pub open spec fn q_co(p: Pk, q: int) -> int { q_v(p, q) % p.bd }
pub open spec fn q_fi(p: Pk, q: int) -> int { q_tile(p, q) % p.fs }
pub open spec fn q_gb(p: Pk, q: int) -> int { q_tile(p, q) / p.fs }
pub open spec fn q_blk(p: Pk, q: int) -> int { q_gb(p, q) % p.nb }
pub open spec fn q_g(p: Pk, q: int) -> int { q_gb(p, q) / p.nb }
pub open spec fn widx(p: Pk, g: int, ch: int, fi: int, ci: int) -> int { (g * p.oc + ch) * (p.fs * p.d) + fi * p.d + ci }
pub open spec fn pw_ok(p: Pk, w: CPtr<i32>, q: int, v: i32) -> bool {
    q_blk(p, q) * p.bo + q_j(p, q) < p.oc ==> v == w.ix(widx(p, q_g(p, q), q_blk(p, q) * p.bo + q_j(p, q), q_fi(p, q), q_cb(p, q) * p.bd + q_co(p, q)))
}
pub proof fn lemma_pos(p: Pk, g: int, blk: int, fi: int, cb: int, j: int, co: int)
    requires 0 <= g < p.g, 0 <= blk < p.nb, 0 <= fi < p.fs, 0 <= cb < p.nc, 0 <= j < p.bo, 0 <= co < p.bd
    ensures ({ let q = pos(p, g, blk, fi, cb, j, co); q_g(p, q) == g && q_blk(p, q) == blk && q_fi(p, q) == fi && q_cb(p, q) == cb && q_j(p, q) == j && q_co(p, q) == co && 0 <= q < p.g * p.nb * p.fs * (p.nc * (p.bo * p.bd)) }),
        0 <= tile(p, g, blk, fi) < p.g * p.nb * p.fs
{
    let bb = p.bo * p.bd; let t = p.nc * bb; let v = j * p.bd + co; let u = cb * bb + v;
    assert(0 <= v < bb) by (nonlinear_arith) requires 0 <= j < p.bo, 0 <= co < p.bd, bb == p.bo * p.bd, v == j * p.bd + co;
    assert(0 <= u < t) by (nonlinear_arith) requires 0 <= cb < p.nc, 0 <= v < bb, t == p.nc * bb, u == cb * bb + v;
    lemma_dm(tile(p, g, blk, fi), t, u); lemma_dm(cb, bb, v); lemma_dm(j, p.bd, co); lemma_dm(g * p.nb + blk, p.fs, fi); lemma_dm(g, p.nb, blk);
    let gb = g * p.nb + blk;
    assert(0 <= gb && gb + 1 <= p.g * p.nb) by (nonlinear_arith) requires 0 <= g < p.g, 0 <= blk < p.nb, gb == g * p.nb + blk;
    let ti = gb * p.fs + fi;
    assert(0 <= ti && ti + 1 <= p.g * p.nb * p.fs) by (nonlinear_arith) requires 0 <= gb, gb + 1 <= p.g * p.nb, 0 <= fi < p.fs, ti == gb * p.fs + fi;
    assert(0 <= ti * t + u < p.g * p.nb * p.fs * t) by (nonlinear_arith) requires 0 <= ti, ti + 1 <= p.g * p.nb * p.fs, 0 <= u < t;
}
pub proof fn lemma_pos_carry(p: Pk, g: int, blk: int, fi: int, cb: int, j: int)
    ensures pos(p, g, blk, fi, cb, j, p.bd) == pos(p, g, blk, fi, cb, j + 1, 0), pos(p, g, blk, fi, cb, p.bo, 0) == pos(p, g, blk, fi, cb + 1, 0, 0),
        pos(p, g, blk, fi, p.nc, 0, 0) == pos(p, g, blk, fi + 1, 0, 0, 0), pos(p, g, blk, p.fs, 0, 0, 0) == pos(p, g, blk + 1, 0, 0, 0, 0), pos(p, g, p.nb, 0, 0, 0, 0) == pos(p, g + 1, 0, 0, 0, 0, 0), pos(p, 0, 0, 0, 0, 0, 0) == 0,
        pos(p, p.g, 0, 0, 0, 0, 0) == p.g * p.nb * p.fs * (p.nc * (p.bo * p.bd)),
{
    let bb = p.bo * p.bd; let t = p.nc * bb;
    assert((j + 1) * p.bd == j * p.bd + p.bd) by (nonlinear_arith);
    assert((cb + 1) * bb == cb * bb + bb) by (nonlinear_arith);
    assert((tile(p, g, blk, fi) + 1) * t == tile(p, g, blk, fi) * t + t) by (nonlinear_arith);
    assert((g * p.nb + blk + 1) * p.fs == (g * p.nb + blk) * p.fs + p.fs) by (nonlinear_arith);
    assert((g + 1) * p.nb == g * p.nb + p.nb) by (nonlinear_arith);
    assert(0 * t == 0 && 0 * bb == 0 && 0 * p.bd == 0 && 0 * p.nb == 0 && 0 * p.fs == 0) by (nonlinear_arith);
}
// bounds of the source index
pub proof fn lemma_widx(p: Pk, g: int, ch: int, fi: int, ci: int)
    requires 0 <= g < p.g, 0 <= ch < p.oc, 0 <= fi < p.fs, 0 <= ci < p.d
    ensures 0 <= widx(p, g, ch, fi, ci) < p.g * p.oc * (p.fs * p.d), 0 <= g * p.oc * p.fs * p.d + ch * p.fs * p.d, widx(p, g, ch, fi, ci) == g * p.oc * p.fs * p.d + ch * p.fs * p.d + fi * p.d + ci,
        0 <= g * p.oc * p.fs * p.d, 0 <= ch * p.fs * p.d, 0 <= fi * p.d, g * p.oc <= p.g * p.oc, 0 <= g * p.oc, g * p.oc * p.fs <= p.g * p.oc * p.fs, 0 <= g * p.oc * p.fs, 0 <= ch * p.fs <= p.oc * p.fs
{
    let x = g * p.oc + ch; let y = p.fs * p.d; let z = fi * p.d + ci;
    assert(0 <= x && x + 1 <= p.g * p.oc && 0 <= g * p.oc <= p.g * p.oc) by (nonlinear_arith) requires 0 <= g < p.g, 0 <= ch < p.oc, x == g * p.oc + ch;
    assert(0 <= z < y && 0 <= fi * p.d) by (nonlinear_arith) requires 0 <= fi < p.fs, 0 <= ci < p.d, z == fi * p.d + ci, y == p.fs * p.d;
    assert(0 <= x * y + z < p.g * p.oc * y) by (nonlinear_arith) requires 0 <= x, x + 1 <= p.g * p.oc, 0 <= z < y;
    assert(x * y == g * p.oc * p.fs * p.d + ch * p.fs * p.d) by (nonlinear_arith) requires x == g * p.oc + ch, y == p.fs * p.d;
    assert(0 <= g * p.oc * p.fs * p.d && 0 <= ch * p.fs * p.d && 0 <= ch * p.fs <= p.oc * p.fs && 0 <= g * p.oc * p.fs <= p.g * p.oc * p.fs) by (nonlinear_arith) requires 0 <= g < p.g, 0 <= ch < p.oc, p.fs > 0, p.d > 0;
}
pub proof fn lemma_pk(k: &Kernel)
    requires pk_ok(k)
    ensures ({ let p = pkdims(k); p.oc > 0 && p.d > 0 && p.nb > 0 && p.nc > 0 && (p.nb - 1) * p.bo < p.oc <= p.nb * p.bo && p.g * p.oc * (p.fs * p.d) <= pk_len(p) && p.g * p.oc * p.fs <= 0x7fff_ffff && p.oc * p.fs <= 0x7fff_ffff && p.g * p.oc <= 0x7fff_ffff && p.oc <= 0x7fff_ffff
        && p.fs * p.d <= 0x7fff_ffff && p.g * (p.nb * p.bo) * p.fs * p.d == p.g * p.nb * p.fs * (p.nc * (p.bo * p.bd)) && p.nb * p.bo <= 0x7fff_ffff && p.g * p.oc * p.fs * p.d <= pk_len(p) && p.oc * p.fs * p.d <= pk_len(p) && p.bo <= 0x7fff_ffff && p.bd <= 0x7fff_ffff && p.d <= 0x7fff_ffff })
{
    let p = pkdims(k); let r = p.nb * p.bo;
    assert(p.oc > 0) by (nonlinear_arith) requires p.oc * p.g > 0, p.g > 0;
    assert(p.d > 0) by (nonlinear_arith) requires p.d * p.g > 0, p.g > 0;
    assert(p.nc > 0) by (nonlinear_arith) requires p.nc * p.bd == p.d, p.d > 0, p.bd > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p.oc + p.bo - 1, p.bo);
    assert(p.oc <= r && r < p.oc + p.bo) by (nonlinear_arith) requires p.oc + p.bo - 1 == p.bo * p.nb + (p.oc + p.bo - 1) % p.bo, 0 <= (p.oc + p.bo - 1) % p.bo < p.bo, r == p.nb * p.bo;
    assert(p.nb > 0) by (nonlinear_arith) requires 0 < p.oc <= p.nb * p.bo, p.bo > 0;
    assert((p.nb - 1) * p.bo == r - p.bo) by (nonlinear_arith) requires r == p.nb * p.bo;
    assert(0 < p.bo * p.bd && p.bo <= p.bo * p.bd && p.bd <= p.bo * p.bd) by (nonlinear_arith) requires p.bo > 0, p.bd > 0;
    let a = p.g * p.oc; let b = p.g * r; let y = p.fs * p.d;
    assert(a <= b && r <= b && p.oc <= a && 0 < a) by (nonlinear_arith) requires 0 < p.oc <= r, p.g > 0, a == p.g * p.oc, b == p.g * r;
    assert(a * y <= b * y && b * y == b * p.fs * p.d && a * y == a * p.fs * p.d && y <= a * y && a * p.fs <= b * p.fs && p.oc * p.fs <= a * p.fs && p.d <= y && p.oc * p.fs * p.d == p.oc * y && p.oc * y <= a * y) by (nonlinear_arith) requires 0 < p.oc <= a, a <= b, 0 < a, p.fs > 0, p.d > 0, y == p.fs * p.d;
    assert(p.g * r * p.fs * p.d == p.g * p.nb * p.fs * (p.nc * (p.bo * p.bd))) by (nonlinear_arith) requires r == p.nb * p.bo, p.d == p.nc * p.bd;
}
// the packed weights hold filter w
pub open spec fn packed_ok(k: &Kernel, w: CPtr<i32>) -> bool {
    let p = pkdims(k);
    k.packed_weights@.len() == pk_len(p)
    && forall|q: int| 0 <= q < p.g * p.nb * p.fs * (p.nc * (p.bo * p.bd)) ==> pw_ok(p, w, q, #[trigger] k.packed_weights@[q])
}
// everything but the packed weights is unchanged
pub open spec fn k_frame_pw(a: &Kernel, b: &Kernel) -> bool {
    a.block_size_output_channels == b.block_size_output_channels && a.block_size_pixels == b.block_size_pixels && a.block_size_depth == b.block_size_depth && a.input_depth == b.input_depth && a.output_channels == b.output_channels
    && a.filter_size == b.filter_size && a.groups == b.groups && a.num_output_pixels == b.num_output_pixels && a.indirection_buffer == b.indirection_buffer && a.zero_buffer == b.zero_buffer && a.dy == b.dy
}
@@fn compute_engine::core::indirect_bgemm::Kernel::PackWeights/1 as pack_weights
@requires
    pk_ok(old(this)), weights_ptr.ok(pkdims(old(this)).g * pkdims(old(this)).oc * (pkdims(old(this)).fs * pkdims(old(this)).d)),
@ensures
    packed_ok(final(this), weights_ptr), k_frame_pw(old(this), final(this)),
@start
    let ghost p = pkdims(this); let ghost k0 = *this; let ghost w = weights_ptr;
    proof { lemma_pk(this); lemma_pos_carry(p, 0, 0, 0, 0, 0); }
    let ghost len = p.g * p.nb * p.fs * (p.nc * (p.bo * p.bd));
@loop 0 inv
    0 <= group_id <= p.g, k_frame_pw(&k0, this), this.packed_weights@.len() == pk_len(p), packed_weights_index == pos(p, group_id as int, 0, 0, 0, 0, 0), 0 <= packed_weights_index <= len,
    forall|q: int| 0 <= q < packed_weights_index ==> pw_ok(p, w, q, #[trigger] this.packed_weights@[q]),
@loop 0 dec
    this.groups - group_id
@loop 0 begin
    let ghost g = group_id as int; let ghost mut blk = 0int;
    proof { assert(0 * p.bo == 0) by (nonlinear_arith); }
@loop 0 end
    proof { assert(blk == p.nb) by (nonlinear_arith) requires blk <= p.nb, blk * p.bo >= p.oc, (p.nb - 1) * p.bo < p.oc, p.bo > 0; lemma_pos_carry(p, g, 0, 0, 0, 0); }
@loop 0.0 inv
    0 <= blk <= p.nb, block_start == blk * p.bo, 0 <= block_start, k_frame_pw(&k0, this), this.packed_weights@.len() == pk_len(p), packed_weights_index == pos(p, g, blk, 0, 0, 0, 0), 0 <= packed_weights_index <= len,
    forall|q: int| 0 <= q < packed_weights_index ==> pw_ok(p, w, q, #[trigger] this.packed_weights@[q]),
@loop 0.0 dec
    p.nb - blk
@loop 0.0 begin
    proof { assert(blk < p.nb) by (nonlinear_arith) requires blk * p.bo < p.oc, p.oc <= p.nb * p.bo, p.bo > 0; }
@loop 0.0 end
    proof { lemma_pos_carry(p, g, blk, p.fs, 0, 0); assert((blk + 1) * p.bo == blk * p.bo + p.bo) by (nonlinear_arith); blk = blk + 1; assert(blk * p.bo <= p.nb * p.bo) by (nonlinear_arith) requires blk <= p.nb, p.bo > 0; }
@loop 0.0.0 inv
    0 <= fi <= p.fs, k_frame_pw(&k0, this), this.packed_weights@.len() == pk_len(p), packed_weights_index == pos(p, g, blk, fi as int, 0, 0, 0), 0 <= packed_weights_index <= len,
    forall|q: int| 0 <= q < packed_weights_index ==> pw_ok(p, w, q, #[trigger] this.packed_weights@[q]),
@loop 0.0.0 dec
    p.fs - fi
@loop 0.0.0 begin
    let ghost mut cb = 0int;
    proof { assert(0 * p.bd == 0) by (nonlinear_arith); }
@loop 0.0.0 end
    proof { assert(cb == p.nc) by (nonlinear_arith) requires cb <= p.nc, cb * p.bd >= p.d, p.nc * p.bd == p.d, p.bd > 0; lemma_pos_carry(p, g, blk, fi as int, 0, 0); }
@loop 0.0.0.0 inv
    0 <= cb <= p.nc, ci == cb * p.bd, 0 <= ci, k_frame_pw(&k0, this), this.packed_weights@.len() == pk_len(p), packed_weights_index == pos(p, g, blk, fi as int, cb, 0, 0), 0 <= packed_weights_index <= len,
    forall|q: int| 0 <= q < packed_weights_index ==> pw_ok(p, w, q, #[trigger] this.packed_weights@[q]),
@loop 0.0.0.0 dec
    p.nc - cb
@loop 0.0.0.0 begin
    proof { assert(cb < p.nc && cb * p.bd + p.bd <= p.d) by (nonlinear_arith) requires cb * p.bd < p.d, p.nc * p.bd == p.d, p.bd > 0;
        lemma_pos(p, g, blk, fi as int, cb, p.bo - 1, p.bd - 1); lemma_pos_carry(p, g, blk, fi as int, cb, p.bo - 1); lemma_pos_carry(p, g, blk, fi as int, cb, 0);
        assert(0 <= (p.bo - block_size) * p.bd <= p.bo * p.bd && 0 * p.bd == 0) by (nonlinear_arith) requires 0 <= block_size <= p.bo, p.bd > 0; }
    let ghost base = packed_weights_index as int;
@loop 0.0.0.0 end
    proof { assert(block_size * p.bd + (p.bo - block_size) * p.bd == p.bo * p.bd) by (nonlinear_arith);
        assert forall|q: int| base + block_size * p.bd <= q < packed_weights_index implies pw_ok(p, w, q, #[trigger] this.packed_weights@[q]) by {
            let v = q - base; let j = v / p.bd; let co = v % p.bd;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, p.bd);
            assert(block_size <= j < p.bo) by (nonlinear_arith) requires v == p.bd * j + co, 0 <= co < p.bd, block_size * p.bd <= v < p.bo * p.bd;
            assert(j * p.bd + co == v) by (nonlinear_arith) requires v == p.bd * j + co;
            lemma_pos(p, g, blk, fi as int, cb, j, co);
            assert(q == pos(p, g, blk, fi as int, cb, j, co));
        }
        assert((cb + 1) * p.bd == cb * p.bd + p.bd) by (nonlinear_arith); cb = cb + 1; }
@loop 0.0.0.0.0 inv
    0 <= block_offset <= block_size, k_frame_pw(&k0, this), this.packed_weights@.len() == pk_len(p), packed_weights_index == pos(p, g, blk, fi as int, cb, block_offset as int, 0), packed_weights_index == base + block_offset * p.bd, 0 <= packed_weights_index <= len,
    forall|q: int| 0 <= q < packed_weights_index ==> pw_ok(p, w, q, #[trigger] this.packed_weights@[q]),
@loop 0.0.0.0.0 dec
    block_size - block_offset
@loop 0.0.0.0.0 end
    proof { lemma_pos_carry(p, g, blk, fi as int, cb, block_offset as int); assert((block_offset + 1) * p.bd == block_offset * p.bd + p.bd) by (nonlinear_arith); }
@loop 0.0.0.0.0.0 inv
    0 <= ci_offset <= p.bd, k_frame_pw(&k0, this), this.packed_weights@.len() == pk_len(p), packed_weights_index == pos(p, g, blk, fi as int, cb, block_offset as int, ci_offset as int), 0 <= packed_weights_index <= len,
    forall|q: int| 0 <= q < packed_weights_index ==> pw_ok(p, w, q, #[trigger] this.packed_weights@[q]),
@loop 0.0.0.0.0.0 dec
    p.bd - ci_offset
@loop 0.0.0.0.0.0 begin
    proof { lemma_pos(p, g, blk, fi as int, cb, block_offset as int, ci_offset as int); lemma_widx(p, g, blk * p.bo + block_offset, fi as int, ci + ci_offset); }
