@@record ruy::MatLayout => MatLayout
@@record ruy::KernelLayout => KernelLayout
@@record ruy::PMatLayout => PMatLayout
@@record ruy::Mat<int> => Mat_i32
@@record ruy::Mat<float> => Mat_F32
@@record ruy::Mat<signed char> => Mat_i8
@@record ruy::PMat<int> => PMat
@@own ruy::PMat<int>.data
@@ptrfn ruy::ElementPtr/3 => data mat_off(&$0.layout, $1, $2)
@@extern ruy::IsColMajor/1 => is_col_major
@@extern ruy::Element/3 => pmat_element
@@assume ruy::Element / ElementPtr / Offset address a (packed) matrix element as documented in ruy: row + col*stride for column-major, blocks of the kernel layout for packed matrices
@@prelude
pub struct MatLayout { pub rows: i32, pub cols: i32, pub stride: i32, pub order: u8 }
pub struct KernelLayout { pub order: u8, pub rows: u8, pub cols: u8 }
pub struct PMatLayout { pub rows: i32, pub cols: i32, pub stride: i32, pub order: u8, pub kernel: KernelLayout }
pub struct Mat_i32 { pub data: Mem<i32>, pub layout: MatLayout, pub zero_point: i32 }
pub struct Mat_F32 { pub data: Mem<F32>, pub layout: MatLayout, pub zero_point: F32 }
pub struct Mat_i8 { pub data: Mem<i8>, pub layout: MatLayout, pub zero_point: i8 }
pub struct PMat { pub data: Mem<i32>, pub layout: PMatLayout, pub zero_point: i32 }
pub trait HasOrder { spec fn ord(&self) -> u8; }
impl HasOrder for MatLayout { open spec fn ord(&self) -> u8 { self.order } }
impl HasOrder for PMatLayout { open spec fn ord(&self) -> u8 { self.order } }
#[verifier::external_body] pub fn is_col_major<T: HasOrder>(l: &T) -> (r: bool) ensures r == (l.ord() == 0) { unimplemented!() }
pub open spec fn m_off(l: MatLayout, r: int, c: int) -> int { if l.order == 0 { r + c * l.stride } else { r * l.stride + c } }
// packed matrices are column-major, cut into kernel-layout blocks
pub open spec fn pm_off(l: PMatLayout, r: int, c: int) -> int {
    let kr = l.kernel.rows as int; let kc = l.kernel.cols as int;
    (r - r % kr) * kc + (c - c % kc) * l.stride + (if l.kernel.order == 0 { (r % kr) + (c % kc) * kr } else { (r % kr) * kc + (c % kc) })
}
pub open spec fn pel(p: &PMat, r: int, c: int) -> i32 { p.data@[pm_off(p.layout, r, c)] }
pub open spec fn pm_in(p: &PMat, r: int, c: int) -> bool { 0 <= pm_off(p.layout, r, c) < p.data@.len() }
pub open spec fn pm_ok(p: &PMat) -> bool { p.layout.order == 0 && forall|r: int, c: int| 0 <= r < p.layout.rows && 0 <= c < p.layout.cols ==> #[trigger] pm_in(p, r, c) }
#[verifier::external_body] pub fn mat_off(l: &MatLayout, r: i32, c: i32) -> (o: Off)
    requires 0 <= r < l.rows, 0 <= c < l.cols ensures o@ == m_off(*l, r as int, c as int) { unimplemented!() }
#[verifier::external_body] pub fn pmat_element(p: &PMat, r: i32, c: i32) -> (v: i32)
    requires 0 <= r < p.layout.rows, 0 <= c < p.layout.cols, p.layout.order == 0, pm_in(p, r as int, c as int) ensures v == pel(p, r as int, c as int) { unimplemented!() }
// number of differing bits between column i of lhs and column j of rhs, first n words
pub open spec fn bsum(l: &PMat, r: &PMat, i: int, j: int, n: int) -> int decreases n { if n <= 0 { 0 } else { bsum(l, r, i, j, n - 1) + xpop(pel(l, n - 1, i), pel(r, n - 1, j)) } }
pub proof fn lemma_bsum(l: &PMat, r: &PMat, i: int, j: int, n: int) requires 0 <= n ensures 0 <= bsum(l, r, i, j, n) <= 32 * n decreases n
{ if n > 0 { lemma_bsum(l, r, i, j, n - 1); lemma_xpop(pel(l, n - 1, i), pel(r, n - 1, j)); } }
pub open spec fn dot(l: &PMat, r: &PMat, i: int, j: int) -> int { bsum(l, r, i, j, l.layout.rows as int) }
// column-major destination with room for every element
pub open spec fn dst_ok(l: MatLayout, len: int) -> bool {
    l.order == 0 && 0 <= l.rows <= l.stride && 0 <= l.cols && l.cols * l.stride < 0x4000_0000 && l.stride < 0x1000_0000 && len >= l.cols * l.stride
}
pub open spec fn kern_pre(l: &PMat, r: &PMat, d: MatLayout, r0: int, c0: int, r1: int, c1: int) -> bool {
    pm_ok(l) && pm_ok(r) && l.layout.rows == r.layout.rows && 0 <= l.layout.rows < 0x100_0000 && d.rows <= l.layout.cols && d.cols <= r.layout.cols
    && 0 <= r0 && 0 <= c0 && r0 <= imin(r1, d.rows as int) && c0 <= imin(c1, d.cols as int) && r1 < 0x4000_0000 && c1 < 0x4000_0000 && d.cols < 0x4000_0000 && d.rows < 0x4000_0000
}
pub open spec fn mm_out_f(t: &OTF, a: int, c: int) -> F32 { out_float(t, a, c) }
pub open spec fn mm_out_i(t: &OTI, a: int, c: int) -> i8 { out_int8(t, a, c) }
pub proof fn lemma_doff(l: MatLayout, r: int, c: int, len: int)
    requires dst_ok(l, len), 0 <= r < l.rows, 0 <= c < l.cols
    ensures 0 <= m_off(l, r, c) < len, m_off(l, r, c) / (l.stride as int) == c, m_off(l, r, c) % (l.stride as int) == r
{
    let s = l.stride as int;
    assert(0 <= c * s && c * s + s <= l.cols * s) by (nonlinear_arith) requires 0 <= c < l.cols, s > 0;
    lemma_dm(c, s, r);
}
// element q of the destination belongs to the block [r0,r1) x [c0,c1)
pub open spec fn in_blk(l: MatLayout, q: int, r0: int, r1: int, c0: int, c1: int) -> bool {
    let s = l.stride as int; s > 0 && r0 <= q % s < imin(r1, l.rows as int) && c0 <= q / s < imin(c1, l.cols as int)
}
pub proof fn lemma_mm_part(l: MatLayout, len: int, r0: int, c0: int, c1: int, i: int, j: int)
    requires dst_ok(l, len), r0 <= i < l.rows, c0 <= j < imin(c1, l.cols as int), 0 <= r0, 0 <= c0
    ensures forall|q: int| 0 <= q < len ==> #[trigger] in_part(l, q, r0, c0, c1, i, j + 1) == (in_part(l, q, r0, c0, c1, i, j) || q == m_off(l, i, j))
{
    let s = l.stride as int;
    lemma_doff(l, i, j, len);
    assert forall|q: int| 0 <= q < len implies #[trigger] in_part(l, q, r0, c0, c1, i, j + 1) == (in_part(l, q, r0, c0, c1, i, j) || q == m_off(l, i, j)) by {
        assert(q == (q / s) * s + q % s) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, s); assert(s * (q / s) == (q / s) * s) by (nonlinear_arith); }
        if q / s == j && q % s == i { assert(q == j * s + i); }
    }
}
// ... and is row-major-before row i, column j of it
pub open spec fn in_part(l: MatLayout, q: int, r0: int, c0: int, c1: int, i: int, j: int) -> bool {
    let s = l.stride as int; s > 0 && r0 <= q % s && c0 <= q / s < imin(c1, l.cols as int) && (q % s < i || (q % s == i && q / s < j))
}
@@fn compute_engine::core::bgemm::BGemmKernel<ruy::Path::kStandardCpp, float, BinaryMulParams<std::int32_t, float>>::Run/8 as bk_run_f
@nothis
@requires
    kern_pre(lhs, rhs, old(dst).layout, start_row as int, start_col as int, end_row as int, end_col as int), dst_ok(old(dst).layout, old(dst).data@.len() as int),
    ot_ok_f(&mul_params.output_transform, lhs.layout.cols as int),
    end_row - imin(end_row as int, old(dst).layout.rows as int) <= 1, end_col - imin(end_col as int, old(dst).layout.cols as int) <= 1,
@ensures
    final(dst).layout == old(dst).layout, final(dst).data@.len() == old(dst).data@.len(),
    forall|q: int| 0 <= q < final(dst).data@.len() ==> #[trigger] final(dst).data@[q] == (if in_blk(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) {
        mm_out_f(&mul_params.output_transform, dot(lhs, rhs, q % (old(dst).layout.stride as int), q / (old(dst).layout.stride as int)), q % (old(dst).layout.stride as int)) } else { old(dst).data@[q] }),
@start
    let ghost l = dst.layout; let ghost od = dst.data@; let ghost t = mul_params.output_transform;
@loop 0 inv
    start_row <= i <= imax(start_row as int, clamped_end_row as int), dst.layout == l, dst.data@.len() == od.len(),
    forall|q: int| 0 <= q < dst.data@.len() ==> #[trigger] dst.data@[q] == (if in_part(l, q, start_row as int, start_col as int, end_col as int, i as int, 0) { mm_out_f(&t, dot(lhs, rhs, q % (l.stride as int), q / (l.stride as int)), q % (l.stride as int)) } else { od[q] }),
@loop 0 dec
    clamped_end_row - i
@loop 0.0 inv
    start_row <= i < clamped_end_row, start_col <= j <= imax(start_col as int, clamped_end_col as int), dst.layout == l, dst.data@.len() == od.len(),
    forall|q: int| 0 <= q < dst.data@.len() ==> #[trigger] dst.data@[q] == (if in_part(l, q, start_row as int, start_col as int, end_col as int, i as int, j as int) { mm_out_f(&t, dot(lhs, rhs, q % (l.stride as int), q / (l.stride as int)), q % (l.stride as int)) } else { od[q] }),
@loop 0.0 dec
    clamped_end_col - j
@loop 0.0 begin
    let ghost prev = dst.data@;
    proof { lemma_doff(l, i as int, j as int, od.len() as int); }
@loop 0.0 end
    proof {
        lemma_bsum(lhs, rhs, i as int, j as int, depth as int);
        lemma_mm_part(l, od.len() as int, start_row as int, start_col as int, end_col as int, i as int, j as int);
    }
@loop 0.0.0 inv
    0 <= k <= depth, accum == bsum(lhs, rhs, i as int, j as int, k as int), 0 <= accum <= 32 * k,
@loop 0.0.0 dec
    depth - k
@loop 0.0.0 begin
    proof { lemma_bsum(lhs, rhs, i as int, j as int, k as int); assert(pm_in(lhs, k as int, i as int) && pm_in(rhs, k as int, j as int)); }
@@fn compute_engine::core::bgemm::BGemmKernel<ruy::Path::kStandardCpp, std::int8_t, BinaryMulParams<std::int32_t, std::int8_t>>::Run/8 as bk_run_i
@nothis
@requires
    kern_pre(lhs, rhs, old(dst).layout, start_row as int, start_col as int, end_row as int, end_col as int), dst_ok(old(dst).layout, old(dst).data@.len() as int),
    ot_ok_i(&mul_params.output_transform, lhs.layout.cols as int),
    end_row - imin(end_row as int, old(dst).layout.rows as int) <= 1, end_col - imin(end_col as int, old(dst).layout.cols as int) <= 1,
@ensures
    final(dst).layout == old(dst).layout, final(dst).data@.len() == old(dst).data@.len(),
    forall|q: int| 0 <= q < final(dst).data@.len() ==> #[trigger] final(dst).data@[q] == (if in_blk(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) {
        mm_out_i(&mul_params.output_transform, dot(lhs, rhs, q % (old(dst).layout.stride as int), q / (old(dst).layout.stride as int)), q % (old(dst).layout.stride as int)) } else { old(dst).data@[q] }),
@start
    let ghost l = dst.layout; let ghost od = dst.data@; let ghost t = mul_params.output_transform;
@loop 0 inv
    start_row <= i <= imax(start_row as int, clamped_end_row as int), dst.layout == l, dst.data@.len() == od.len(),
    forall|q: int| 0 <= q < dst.data@.len() ==> #[trigger] dst.data@[q] == (if in_part(l, q, start_row as int, start_col as int, end_col as int, i as int, 0) { mm_out_i(&t, dot(lhs, rhs, q % (l.stride as int), q / (l.stride as int)), q % (l.stride as int)) } else { od[q] }),
@loop 0 dec
    clamped_end_row - i
@loop 0.0 inv
    start_row <= i < clamped_end_row, start_col <= j <= imax(start_col as int, clamped_end_col as int), dst.layout == l, dst.data@.len() == od.len(),
    forall|q: int| 0 <= q < dst.data@.len() ==> #[trigger] dst.data@[q] == (if in_part(l, q, start_row as int, start_col as int, end_col as int, i as int, j as int) { mm_out_i(&t, dot(lhs, rhs, q % (l.stride as int), q / (l.stride as int)), q % (l.stride as int)) } else { od[q] }),
@loop 0.0 dec
    clamped_end_col - j
@loop 0.0 begin
    let ghost prev = dst.data@;
    proof { lemma_doff(l, i as int, j as int, od.len() as int); }
@loop 0.0 end
    proof {
        lemma_bsum(lhs, rhs, i as int, j as int, depth as int);
        lemma_mm_part(l, od.len() as int, start_row as int, start_col as int, end_col as int, i as int, j as int);
    }
@loop 0.0.0 inv
    0 <= k <= depth, accum == bsum(lhs, rhs, i as int, j as int, k as int), 0 <= accum <= 32 * k,
@loop 0.0.0 dec
    depth - k
@loop 0.0.0 begin
    proof { lemma_bsum(lhs, rhs, i as int, j as int, k as int); assert(pm_in(lhs, k as int, i as int) && pm_in(rhs, k as int, j as int)); }
@@prelude
pub open spec fn nwords(n: int, e: int) -> int { if n == e { cdiv32(n) } else { n / 32 } }
// output word wi of column j: bit k is the thresholded output of row 32*wi + k
pub open spec fn mm_word(w: i32, l: &PMat, r: &PMat, t: &OTB, wi: int, j: int, e: int) -> bool {
    forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w, k) == (32 * wi + k < e && out_bit(t, dot(l, r, 32 * wi + k, j), 32 * wi + k))
}
// the word being assembled after the first n rows
pub open spec fn mm_colw(w: i32, l: &PMat, r: &PMat, t: &OTB, n: int, j: int, e: int) -> bool {
    n < e ==> forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w, k) == (k < n % 32 && out_bit(t, dot(l, r, 32 * (n / 32) + k, j), 32 * (n / 32) + k))
}
pub proof fn lemma_colw0(l: &PMat, r: &PMat, t: &OTB, n: int, j: int, e: int) requires n % 32 == 0 ensures mm_colw(0i32, l, r, t, n, j, e)
{ assert forall|k: int| 0 <= k < 32 implies !#[trigger] bit(0i32, k) by { lemma_bit_zero(k); } }
pub proof fn lemma_colw_step(w: i32, w2: i32, l: &PMat, r: &PMat, t: &OTB, n: int, j: int, e: int)
    requires mm_colw(w, l, r, t, n, j, e), 0 <= n < e, w2 == (if out_bit(t, dot(l, r, n, j), n) { w | sshl_i32(1, n % 32) } else { w })
    ensures (n + 1) % 32 == 0 || n + 1 == e ==> mm_word(w2, l, r, t, n / 32, j, e), mm_colw(if (n + 1) % 32 == 0 || n + 1 == e { 0i32 } else { w2 }, l, r, t, n + 1, j, e),
{
    lemma_or_bit(w, n % 32);
    assert(n == 32 * (n / 32) + n % 32);
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w2, k) == (k <= n % 32 && out_bit(t, dot(l, r, 32 * (n / 32) + k, j), 32 * (n / 32) + k)) by { if k == n % 32 {} else {} }
    if (n + 1) % 32 == 0 || n + 1 == e {
        assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w2, k) == (32 * (n / 32) + k < e && out_bit(t, dot(l, r, 32 * (n / 32) + k, j), 32 * (n / 32) + k)) by { }
        assert forall|k: int| 0 <= k < 32 implies !#[trigger] bit(0i32, k) by { lemma_bit_zero(k); }
    }
    if (n + 1) % 32 != 0 { assert((n + 1) / 32 == n / 32 && (n + 1) % 32 == n % 32 + 1); }
}
pub open spec fn bstride(l: MatLayout) -> int { cdiv32(l.stride as int) }
pub open spec fn dstb_ok(l: MatLayout, len: int) -> bool {
    l.order == 0 && 0 <= l.rows <= l.stride && 0 <= l.cols && l.cols * bstride(l) < 0x4000_0000 && l.stride < 0x1000_0000 && len >= l.cols * bstride(l)
}
pub open spec fn rows_al(l: MatLayout, r0: int, r1: int) -> bool { r0 % 32 == 0 && (r1 >= l.rows || r1 % 32 == 0) }
pub open spec fn in_blkb(l: MatLayout, q: int, r0: int, r1: int, c0: int, c1: int) -> bool {
    let s = bstride(l); s > 0 && r0 / 32 <= q % s < cdiv32(imin(r1, l.rows as int)) && c0 <= q / s < imin(c1, l.cols as int)
}
pub open spec fn in_partb(l: MatLayout, q: int, r0: int, r1: int, c0: int, i: int, j: int) -> bool {
    let s = bstride(l); s > 0 && r0 / 32 <= q % s < cdiv32(imin(r1, l.rows as int)) && c0 <= q / s && (q / s < j || (q / s == j && q % s < nwords(i, imin(r1, l.rows as int))))
}
// word q after the block has been computed
pub open spec fn mm_q(w: i32, l: &PMat, r: &PMat, t: &OTB, ly: MatLayout, q: int, r1: int) -> bool { mm_word(w, l, r, t, q % bstride(ly), q / bstride(ly), imin(r1, ly.rows as int)) }
pub proof fn lemma_partb(l: MatLayout, len: int, r0: int, r1: int, c0: int, c1: int, i: int, j: int)
    requires dstb_ok(l, len), rows_al(l, r0, r1), r0 <= i < imin(r1, l.rows as int), c0 <= j < imin(c1, l.cols as int), 0 <= r0, 0 <= c0
    ensures 0 <= i / 32 + j * bstride(l) < len, (i / 32 + j * bstride(l)) / bstride(l) == j, (i / 32 + j * bstride(l)) % bstride(l) == i / 32, 0 <= j * bstride(l) < 0x4000_0000, 0 < bstride(l),
      forall|q: int| 0 <= q < len ==> #[trigger] in_partb(l, q, r0, r1, c0, i + 1, j) == (in_partb(l, q, r0, r1, c0, i, j) || (q == i / 32 + j * bstride(l) && ((i + 1 - r0) % 32 == 0 || i + 1 == imin(r1, l.rows as int))))
{
    let s = bstride(l); let e = imin(r1, l.rows as int);
    assert(0 <= j * s && j * s + s <= l.cols * s) by (nonlinear_arith) requires 0 <= j < l.cols, s > 0;
    assert(i / 32 < s);
    lemma_dm(j, s, i / 32);
    assert forall|q: int| 0 <= q < len implies #[trigger] in_partb(l, q, r0, r1, c0, i + 1, j) == (in_partb(l, q, r0, r1, c0, i, j) || (q == i / 32 + j * s && ((i + 1 - r0) % 32 == 0 || i + 1 == e))) by {
        assert(q == (q / s) * s + q % s) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, s); assert(s * (q / s) == (q / s) * s) by (nonlinear_arith); }
        if q / s == j && q % s == i / 32 { assert(q == j * s + i / 32); }
    }
}
@@fn compute_engine::core::bgemm::BGemmKernel<ruy::Path::kStandardCpp, TBitpacked, BinaryMulParams<std::int32_t, TBitpacked>>::Run/8 as bk_run_b
@nothis
@requires
    kern_pre(lhs, rhs, old(dst).layout, start_row as int, start_col as int, end_row as int, end_col as int), dstb_ok(old(dst).layout, old(dst).data@.len() as int),
    ot_ok_b(&mul_params.output_transform, lhs.layout.cols as int), rows_al(old(dst).layout, start_row as int, end_row as int),
    end_col - imin(end_col as int, old(dst).layout.cols as int) <= 1,
@ensures
    final(dst).layout == old(dst).layout, final(dst).data@.len() == old(dst).data@.len(),
    forall|q: int| 0 <= q < final(dst).data@.len() && in_blkb(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) ==> mm_q(#[trigger] final(dst).data@[q], lhs, rhs, &mul_params.output_transform, old(dst).layout, q, end_row as int),
    forall|q: int| 0 <= q < final(dst).data@.len() && !in_blkb(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) ==> #[trigger] final(dst).data@[q] == old(dst).data@[q],
@start
    let ghost l = dst.layout; let ghost od = dst.data@; let ghost t = mul_params.output_transform; let ghost r0 = start_row as int; let ghost r1 = end_row as int; let ghost c0 = start_col as int; let ghost e = imin(r1, l.rows as int);
    let ghost sb = bstride(l);
@loop 0 inv
    c0 <= j <= clamped_end_col, dst.layout == l, dst.data@.len() == od.len(),
    forall|q: int| 0 <= q < dst.data@.len() && in_partb(l, q, r0, r1, c0, r0, j as int) ==> mm_q(#[trigger] dst.data@[q], lhs, rhs, &t, l, q, r1),
    forall|q: int| 0 <= q < dst.data@.len() && !in_partb(l, q, r0, r1, c0, r0, j as int) ==> #[trigger] dst.data@[q] == od[q],
@loop 0 dec
    clamped_end_col - j
@loop 0 begin
    proof { lemma_colw0(lhs, rhs, &t, r0, j as int, e); }
@loop 0.0 inv
    start_row <= i <= clamped_end_row, start_col <= j < clamped_end_col, dst.layout == l, dst.data@.len() == od.len(), mm_colw(bitpacked_column, lhs, rhs, &t, i as int, j as int, e),
    forall|q: int| 0 <= q < dst.data@.len() && in_partb(l, q, r0, r1, c0, i as int, j as int) ==> mm_q(#[trigger] dst.data@[q], lhs, rhs, &t, l, q, r1),
    forall|q: int| 0 <= q < dst.data@.len() && !in_partb(l, q, r0, r1, c0, i as int, j as int) ==> #[trigger] dst.data@[q] == od[q],
@loop 0.0 dec
    clamped_end_row - i
@loop 0.0 begin
    let ghost prev = dst.data@; let ghost col = bitpacked_column;
    proof { lemma_partb(l, od.len() as int, r0, r1, c0, end_col as int, i as int, j as int); }
@loop 0.0 end
    proof {
        lemma_bsum(lhs, rhs, i as int, j as int, depth as int);
        lemma_colw_step(col, if out_bit(&t, dot(lhs, rhs, i as int, j as int), i as int) { col | sshl_i32(1, i as int % 32) } else { col }, lhs, rhs, &t, i as int, j as int, e);
    }
@loop 0.0.0 inv
    0 <= k <= depth, accum == bsum(lhs, rhs, i as int, j as int, k as int), 0 <= accum <= 32 * k,
@loop 0.0.0 dec
    depth - k
@loop 0.0.0 begin
    proof { lemma_bsum(lhs, rhs, i as int, j as int, k as int); assert(pm_in(lhs, k as int, i as int) && pm_in(rhs, k as int, j as int)); }
@@fn compute_engine::core::bgemm::RunBGemmKernelTyped<ruy::Path::kStandardCpp,float,compute_engine::core::bgemm::BinaryMulParams<int, float>>/9 as run_typed_f
@requires
    kern_pre(lhs, rhs, old(dst).layout, start_row as int, start_col as int, end_row as int, end_col as int), dst_ok(old(dst).layout, old(dst).data@.len() as int),
    ot_ok_f(&mul_params.output_transform, lhs.layout.cols as int), start_row <= end_row < old(dst).layout.rows + 1, start_col <= end_col < old(dst).layout.cols + 1, (end_row - start_row) % 1 == 0
@ensures
    final(dst).layout == old(dst).layout, final(dst).data@.len() == old(dst).data@.len(),
    forall|q: int| 0 <= q < final(dst).data@.len() ==> #[trigger] final(dst).data@[q] == (if in_blk(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) {
        mm_out_f(&mul_params.output_transform, dot(lhs, rhs, q % (old(dst).layout.stride as int), q / (old(dst).layout.stride as int)), q % (old(dst).layout.stride as int)) } else { old(dst).data@[q] }),
@@fn compute_engine::core::bgemm::RunBGemmKernelTyped<ruy::Path::kStandardCpp,signed char,compute_engine::core::bgemm::BinaryMulParams<int, signed char>>/9 as run_typed_i
@requires
    kern_pre(lhs, rhs, old(dst).layout, start_row as int, start_col as int, end_row as int, end_col as int), dst_ok(old(dst).layout, old(dst).data@.len() as int),
    ot_ok_i(&mul_params.output_transform, lhs.layout.cols as int), start_row <= end_row < old(dst).layout.rows + 1, start_col <= end_col < old(dst).layout.cols + 1, (end_row - start_row) % 1 == 0
@ensures
    final(dst).layout == old(dst).layout, final(dst).data@.len() == old(dst).data@.len(),
    forall|q: int| 0 <= q < final(dst).data@.len() ==> #[trigger] final(dst).data@[q] == (if in_blk(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) {
        mm_out_i(&mul_params.output_transform, dot(lhs, rhs, q % (old(dst).layout.stride as int), q / (old(dst).layout.stride as int)), q % (old(dst).layout.stride as int)) } else { old(dst).data@[q] }),
@@fn compute_engine::core::bgemm::RunBGemmKernelTyped<ruy::Path::kStandardCpp,int,compute_engine::core::bgemm::BinaryMulParams<int, int>>/9 as run_typed_b
@requires
    kern_pre(lhs, rhs, old(dst).layout, start_row as int, start_col as int, end_row as int, end_col as int), dstb_ok(old(dst).layout, old(dst).data@.len() as int),
    ot_ok_b(&mul_params.output_transform, lhs.layout.cols as int), start_row <= end_row < old(dst).layout.rows + 32, start_col <= end_col < old(dst).layout.cols + 1, (end_row - start_row) % 32 == 0, start_row % 32 == 0, end_row >= old(dst).layout.rows || end_row % 32 == 0,
@ensures
    final(dst).layout == old(dst).layout, final(dst).data@.len() == old(dst).data@.len(),
    forall|q: int| 0 <= q < final(dst).data@.len() && in_blkb(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) ==> mm_q(#[trigger] final(dst).data@[q], lhs, rhs, &mul_params.output_transform, old(dst).layout, q, end_row as int),
    forall|q: int| 0 <= q < final(dst).data@.len() && !in_blkb(old(dst).layout, q, start_row as int, end_row as int, start_col as int, end_col as int) ==> #[trigger] final(dst).data@[q] == old(dst).data@[q],
@@prelude
// ---- packing into 4x4 column-major blocks ----------------------------------
pub open spec fn pk44(l: PMatLayout) -> bool { l.order == 0 && l.kernel.order == 0 && l.kernel.rows == 4 && l.kernel.cols == 4 }
#[verifier::opaque] pub open spec fn src_el(s: &Mat_i32, r: int, c: int) -> i32 { if r < s.layout.rows && c < s.layout.cols { s.data@[m_off(s.layout, r, c)] } else { 0i32 } }
pub open spec fn pack_pre(s: &Mat_i32, p: &PMat, c0: int, c1: int) -> bool {
    let sl = s.layout; let pl = p.layout;
    sl.order == 0 && 0 <= sl.rows <= sl.stride && 0 <= sl.cols && sl.rows < 0x1000_0000 && sl.stride < 0x1000_0000 && sl.cols < 0x1000_0000 && sl.cols * sl.stride <= s.data@.len() && (sl.cols + 8) * sl.stride < 0x4000_0000
    && pk44(pl) && pl.stride % 4 == 0 && sl.rows <= pl.stride && 0 <= c0 <= c1 && c1 <= sl.cols + 3 && c0 % 4 == 0 && c1 % 4 == 0 && c1 * pl.stride <= p.data@.len() && c1 * pl.stride < 0x4000_0000 && s.zero_point == 0 && pl.rows >= 0
}
// row and column of word q of a 4x4-packed matrix
pub open spec fn q_row(st: int, q: int) -> int { ((q % (4 * st)) / 16) * 4 + q % 4 }
pub open spec fn q_col(st: int, q: int) -> int { (q / (4 * st)) * 4 + (q % 16) / 4 }
// the first n words of the block column starting at column bc
#[verifier::opaque] pub open spec fn packed_to(s: &Mat_i32, d: Seq<i32>, o: Seq<i32>, st: int, c0: int, top: int) -> bool {
    &&& forall|q: int| c0 * st <= q < top ==> #[trigger] d[q] == (if q_row(st, q) < ru4(s.layout.rows as int) { src_el(s, q_row(st, q), q_col(st, q)) } else { o[q] })
    &&& forall|q: int| 0 <= q < d.len() && !(c0 * st <= q < top) ==> #[trigger] d[q] == o[q]
}
pub open spec fn ru4(n: int) -> int { ((n + 3) / 4) * 4 }
// source pointer of column c, row r: into the matrix, or at the block of zeros
pub open spec fn srcp(p: CPtr<i32>, inc: i32, s: &Mat_i32, zb: Seq<i32>, c: int, r: int) -> bool {
    if c < s.layout.cols { p.s@ == s.data@ && p.o@ == c * s.layout.stride + r && inc == 4 } else { p.s@ == zb && p.o@ == 0 && inc == 0 }
}
pub open spec fn zeros4(zb: Seq<i32>) -> bool { zb.len() == 4 && forall|k: int| 0 <= k < 4 ==> #[trigger] zb[k] == 0i32 }
pub proof fn lemma_srcp(p: CPtr<i32>, inc: i32, s: &Mat_i32, zb: Seq<i32>, c: int, r: int)
    requires srcp(p, inc, s, zb, c, r), zeros4(zb), 0 <= c, 0 <= r < s.layout.rows, s.layout.order == 0, s.layout.rows <= s.layout.stride, s.layout.cols * s.layout.stride <= s.data@.len()
    ensures p.ok(imin(4, s.layout.rows - r)), forall|x: int| p.o@ <= x < p.o@ + imin(4, s.layout.rows - r) ==> #[trigger] p.s@[x] == src_el(s, r + x - p.o@, c)
{
    reveal(src_el);
    if c < s.layout.cols {
        assert(0 <= c * s.layout.stride && c * s.layout.stride + s.layout.stride <= s.layout.cols * s.layout.stride) by (nonlinear_arith) requires 0 <= c < s.layout.cols, s.layout.stride > 0;
    }
}
pub open spec fn blkpos(st: int, bc: int, br: int) -> int { bc * st + 4 * br }
pub proof fn lemma_blkpos(st: int, bc: int, br: int)
    requires st % 4 == 0, bc % 4 == 0, br % 4 == 0, 0 <= br < st, 0 <= bc
    ensures forall|q: int| blkpos(st, bc, br) <= q < blkpos(st, bc, br) + 16 ==> #[trigger] q_row(st, q) == br + (q - blkpos(st, bc, br)) % 4 && q_col(st, q) == bc + (q - blkpos(st, bc, br)) / 4, 0 <= blkpos(st, bc, br), blkpos(st, bc, br) + 16 <= (bc + 4) * st
{
    let P = blkpos(st, bc, br); let m = st / 4; let a = bc / 4; let b = br / 4;
    assert(bc * st == a * (16 * m)) by (nonlinear_arith) requires bc == 4 * a, st == 4 * m;
    assert((bc + 4) * st == a * (16 * m) + 16 * m) by (nonlinear_arith) requires bc == 4 * a, st == 4 * m;
    assert(0 <= a * (16 * m)) by (nonlinear_arith) requires a >= 0, m >= 0;
    assert forall|q: int| P <= q < P + 16 implies #[trigger] q_row(st, q) == br + (q - P) % 4 && q_col(st, q) == bc + (q - P) / 4 by {
        let x = q - P; let am = a * m;
        assert(a * (16 * m) == 16 * am) by (nonlinear_arith) requires am == a * m;
        lemma_dm(a, 16 * m, 16 * b + x);
        assert(4 * st == 16 * m);
        assert(q == 16 * (am + b) + x);
        assert(q % 16 == x && (16 * b + x) / 16 == b && q % 4 == x % 4);
    }
}
// block columns end where the next one starts; rows beyond the rounded-up row count are not written
pub proof fn lemma_gap(st: int, bc: int, rr: int)
    requires st % 4 == 0, bc % 4 == 0, rr % 4 == 0, 0 <= rr <= st, 0 <= bc
    ensures forall|q: int| blkpos(st, bc, rr) <= q < (bc + 4) * st ==> #[trigger] q_row(st, q) >= rr
{
    let m = st / 4; let a = bc / 4; let b = rr / 4;
    assert(bc * st == a * (16 * m)) by (nonlinear_arith) requires bc == 4 * a, st == 4 * m;
    assert((bc + 4) * st == a * (16 * m) + 16 * m) by (nonlinear_arith) requires bc == 4 * a, st == 4 * m;
    assert forall|q: int| blkpos(st, bc, rr) <= q < (bc + 4) * st implies #[trigger] q_row(st, q) >= rr by {
        let y = q - bc * st;
        lemma_dm(a, 16 * m, y);
        assert(4 * st == 16 * m);
        assert(y / 16 >= b);
    }
}
pub open spec fn col_done(s: &Mat_i32, d: Seq<i32>, P: int, c: int, br: int) -> bool { forall|q: int| P <= q < P + 4 ==> #[trigger] d[q] == src_el(s, br + (q - P), c) }
pub open spec fn blk_done(s: &Mat_i32, d: Seq<i32>, P: int, bc: int, br: int) -> bool { col_done(s, d, P, bc, br) && col_done(s, d, P + 4, bc + 1, br) && col_done(s, d, P + 8, bc + 2, br) && col_done(s, d, P + 12, bc + 3, br) }
pub proof fn lemma_src0(s: &Mat_i32)
    ensures forall|r: int, c: int| r >= s.layout.rows ==> #[trigger] src_el(s, r, c) == 0i32
{ reveal(src_el); }
pub proof fn lemma_pack_step(s: &Mat_i32, d0: Seq<i32>, d1: Seq<i32>, o: Seq<i32>, st: int, c0: int, bc: int, br: int)
    requires packed_to(s, d0, o, st, c0, blkpos(st, bc, br)), st % 4 == 0, bc % 4 == 0, br % 4 == 0, 0 <= br < ru4(s.layout.rows as int) <= st, 0 <= c0 <= bc, (bc + 4) * st <= d1.len(), d0.len() == o.len(), d1.len() == o.len(),
        blk_done(s, d1, blkpos(st, bc, br), bc, br), forall|q: int| 0 <= q < d1.len() && !(blkpos(st, bc, br) <= q < blkpos(st, bc, br) + 16) ==> #[trigger] d1[q] == d0[q],
    ensures packed_to(s, d1, o, st, c0, blkpos(st, bc, br + 4))
{
    reveal(packed_to);
    lemma_blkpos(st, bc, br);
    assert(blkpos(st, bc, br + 4) == blkpos(st, bc, br) + 16);
    assert(0 <= c0 * st <= bc * st) by (nonlinear_arith) requires 0 <= c0 <= bc, st >= 0;
    assert forall|q: int| c0 * st <= q < blkpos(st, bc, br + 4) implies #[trigger] d1[q] == (if q_row(st, q) < ru4(s.layout.rows as int) { src_el(s, q_row(st, q), q_col(st, q)) } else { o[q] }) by {
        if q >= blkpos(st, bc, br) { let x = q_row(st, q); } else { assert(d1[q] == d0[q]); }
    }
}
pub proof fn lemma_pack_next(s: &Mat_i32, d: Seq<i32>, o: Seq<i32>, st: int, c0: int, bc: int)
    requires packed_to(s, d, o, st, c0, blkpos(st, bc, ru4(s.layout.rows as int))), st % 4 == 0, bc % 4 == 0, 0 <= s.layout.rows, ru4(s.layout.rows as int) <= st, 0 <= c0 <= bc, (bc + 4) * st <= d.len()
    ensures packed_to(s, d, o, st, c0, (bc + 4) * st)
{
    reveal(packed_to);
    lemma_gap(st, bc, ru4(s.layout.rows as int));
    assert(0 <= c0 * st <= bc * st && bc * st + 4 * ru4(s.layout.rows as int) <= (bc + 4) * st) by (nonlinear_arith) requires 0 <= c0 <= bc, 0 <= ru4(s.layout.rows as int) <= st;
    let top = blkpos(st, bc, ru4(s.layout.rows as int));
    assert forall|q: int| c0 * st <= q < (bc + 4) * st implies #[trigger] d[q] == (if q_row(st, q) < ru4(s.layout.rows as int) { src_el(s, q_row(st, q), q_col(st, q)) } else { o[q] }) by { if q >= top { let x = q_row(st, q); } }
}
@@fn compute_engine::core::bgemm::LceRuyPackImpl<ruy::Path::kNeon, FixedKernelLayout<Order::kColMajor, 4, 4>, Order::kColMajor>::Run/5 as pack44
@rlimit 100
@requires
    pack_pre(src_matrix, old(packed_matrix), start_col as int, end_col as int),
@ensures
    final(packed_matrix).layout == old(packed_matrix).layout, final(packed_matrix).data@.len() == old(packed_matrix).data@.len(),
    packed_to(src_matrix, final(packed_matrix).data@, old(packed_matrix).data@, old(packed_matrix).layout.stride as int, start_col as int, end_col * old(packed_matrix).layout.stride),
@start
    let ghost pl = packed_matrix.layout; let ghost od = packed_matrix.data@; let ghost st = packed_matrix.layout.stride as int; let ghost s = src_matrix; let ghost rows = src_matrix.layout.rows as int; let ghost cols = src_matrix.layout.cols as int;
    let ghost rf = rows - rows % 4;
    proof {
        assert(packed_to(s, od, od, st, start_col as int, start_col * st)) by { reveal(packed_to); }
        assert(0 <= start_col * st <= end_col * st) by (nonlinear_arith) requires 0 <= start_col <= end_col, st >= 0;
        assert(0 <= cols * s.layout.stride) by (nonlinear_arith) requires cols >= 0, s.layout.stride >= 0;
        assert(rows == 4 * (rows / 4) + rows % 4);
    }
@loop 0 inv
    start_col <= block_col <= end_col, block_col % 4 == 0, packed_matrix.layout == pl, packed_matrix.data@.len() == od.len(), zeros4(zerobuf@), src_stride == s.layout.stride,
    packed_to(s, packed_matrix.data@, od, st, start_col as int, block_col * st),
@loop 0 dec
    end_col - block_col
@loop 0 begin
    let ghost bc = block_col as int; let ghost mut d1 = packed_matrix.data@;
    proof {
        assert(0 <= bc * st && (bc + 4) * st <= end_col * st && st * bc == bc * st && (bc + 4) * st == bc * st + 4 * st) by (nonlinear_arith) requires 0 <= bc, bc + 4 <= end_col, st >= 0;
        assert(src_stride * bc == bc * src_stride && (bc + 1) * src_stride == bc * src_stride + src_stride && (bc + 2) * src_stride == bc * src_stride + 2 * src_stride && (bc + 3) * src_stride == bc * src_stride + 3 * src_stride) by (nonlinear_arith);
        assert(0 <= bc * src_stride <= (cols + 8) * src_stride) by (nonlinear_arith) requires 0 <= bc <= cols + 8, src_stride >= 0;
        assert(blkpos(st, bc, 0) == bc * st);
    }
@loop 0 end
    proof {
        if rows % 4 != 0 {
            lemma_src0(s);
            assert(blk_done(s, packed_matrix.data@, blkpos(st, bc, rf), bc, rf));
            lemma_pack_step(s, d1, packed_matrix.data@, od, st, start_col as int, bc, rf);
        }
        lemma_pack_next(s, packed_matrix.data@, od, st, start_col as int, bc);
    }
@loop 0.0 inv
    0 <= block_row <= rf, block_row % 4 == 0, packed_matrix.layout == pl, packed_matrix.data@.len() == od.len(), zeros4(zerobuf@),
    packed_ptr_o@ == blkpos(st, bc, block_row as int), packed_to(s, packed_matrix.data@, od, st, start_col as int, blkpos(st, bc, block_row as int)),
    srcp(src_ptr0, src_inc0, s, zerobuf@, bc, block_row as int), srcp(src_ptr1, src_inc1, s, zerobuf@, bc + 1, block_row as int), srcp(src_ptr2, src_inc2, s, zerobuf@, bc + 2, block_row as int), srcp(src_ptr3, src_inc3, s, zerobuf@, bc + 3, block_row as int),
@loop 0.0 dec
    rows - block_row
@loop 0.0 begin
    let ghost br = block_row as int; let ghost d0 = packed_matrix.data@;
    proof {
        lemma_srcp(src_ptr0, src_inc0, s, zerobuf@, bc, br); lemma_srcp(src_ptr1, src_inc1, s, zerobuf@, bc + 1, br); lemma_srcp(src_ptr2, src_inc2, s, zerobuf@, bc + 2, br); lemma_srcp(src_ptr3, src_inc3, s, zerobuf@, bc + 3, br);
        lemma_blkpos(st, bc, br);
    }
@loop 0.0 end
    proof {
        assert(blk_done(s, packed_matrix.data@, blkpos(st, bc, br), bc, br));
        lemma_pack_step(s, d0, packed_matrix.data@, od, st, start_col as int, bc, br);
    }
@loop 0.0 after
    proof {
        d1 = packed_matrix.data@;
        if rows % 4 != 0 {
            lemma_srcp(src_ptr0, src_inc0, s, zerobuf@, bc, rf); lemma_srcp(src_ptr1, src_inc1, s, zerobuf@, bc + 1, rf); lemma_srcp(src_ptr2, src_inc2, s, zerobuf@, bc + 2, rf); lemma_srcp(src_ptr3, src_inc3, s, zerobuf@, bc + 3, rf);
            lemma_blkpos(st, bc, rf);
        }
    }
