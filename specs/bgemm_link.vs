@@prelude
// packed columns that hold the rows of both operands give that sum: the link between the kernel and this contract
pub proof fn lemma_dot_packed(l: &PMat, r: &PMat, a: CPtr<i32>, b: CPtr<i32>, k: int, i: int, j: int, n: int)
    requires forall|x: int| 0 <= x < k ==> #[trigger] pel(l, x, i) == a.ix(i * k + x), forall|x: int| 0 <= x < k ==> #[trigger] pel(r, x, j) == b.ix(j * k + x), 0 <= n <= k
    ensures bsum(l, r, i, j, n) == sdot(a.s@, a.o@ + i * k, b.s@, b.o@ + j * k, n) decreases n
{ if n > 0 { lemma_dot_packed(l, r, a, b, k, i, j, n - 1); assert(pel(l, n - 1, i) == a.ix(i * k + (n - 1)) && pel(r, n - 1, j) == b.ix(j * k + (n - 1))); } }
// words packed into 4x4 blocks are read back
pub proof fn lemma_pack44_el(s: &Mat_i32, p: &PMat, o: Seq<i32>, c0: int, c1: int, r: int, c: int)
    requires pk44(p.layout), p.layout.stride % 4 == 0, ru4(s.layout.rows as int) <= p.layout.stride, packed_to(s, p.data@, o, p.layout.stride as int, c0, c1 * p.layout.stride), c0 % 4 == 0, c1 % 4 == 0, 0 <= c0 <= c < c1, 0 <= r < ru4(s.layout.rows as int)
    ensures pel(p, r, c) == src_el(s, r, c)
{
    reveal(packed_to);
    let st = p.layout.stride as int; let bc = c - c % 4; let br = r - r % 4; let P = blkpos(st, bc, br);
    lemma_blkpos(st, bc, br);
    let q = pm_off(p.layout, r, c);
    assert(q == P + (r % 4 + 4 * (c % 4)));
    assert(c0 * st <= bc * st && (bc + 4) * st <= c1 * st) by (nonlinear_arith) requires c0 <= bc, bc + 4 <= c1, st >= 0;
    assert(q_row(st, q) == br + (q - P) % 4);
}
