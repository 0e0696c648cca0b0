@@record tflite::RuntimeShape => Shape
@@extern tflite::RuntimeShape::Dims/1 => shape_dims
@@extern tflite::RuntimeShape::SetDim/2 => shape_set_dim &mut
@@extern tflite::RuntimeShape::DimensionsCount/0 => shape_count
@@extern tflite::FlatSizeSkipDim/2 => flat_size_skip_dim
@@extern tflite::MatchingDim/4 => matching_dim
@@extern tflite::Offset/5 => shape_offset
@@assume TFLite dependency contracts: RuntimeShape::Dims/DimensionsCount, FlatSizeSkipDim (product of the other dimensions), MatchingDim (both dimensions equal), Offset (row-major index, each coordinate inside its dimension) behave as documented
@@prelude
pub struct Shape { pub d: Ghost<Seq<i32>> }
impl View for Shape { type V = Seq<i32>; open spec fn view(&self) -> Seq<i32> { self.d@ } }
#[verifier::external_body] pub fn shape_count(s: &Shape) -> (r: i32) requires s@.len() <= 0x7fff_ffff ensures r == s@.len() { unimplemented!() }
#[verifier::external_body] pub fn shape_set_dim(s: &mut Shape, i: i32, v: i32) requires 0 <= i < old(s)@.len() ensures final(s)@ == old(s)@.update(i as int, v) { unimplemented!() }
#[verifier::external_body] pub fn shape_dims(s: &Shape, i: i32) -> (r: i32) requires 0 <= i < s@.len() ensures r == s@[i as int] { unimplemented!() }
pub open spec fn prod(d: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 1 } else { prod(d, n - 1) * d[n - 1] } }
// product of all dimensions but the last
pub open spec fn rows_of(s: Shape) -> int { prod(s@, s@.len() - 1) }
#[verifier::external_body] pub fn flat_size_skip_dim(s: &Shape, k: i32) -> (r: i32)
    requires k == s@.len() - 1, 0 <= rows_of(*s) <= 0x7fff_ffff ensures r == rows_of(*s) { unimplemented!() }
#[verifier::external_body] pub fn matching_dim(a: &Shape, i: i32, b: &Shape, j: i32) -> (r: i32)
    requires 0 <= i < a@.len(), 0 <= j < b@.len(), a@[i as int] == b@[j as int] ensures r == a@[i as int] { unimplemented!() }
pub open spec fn off4(s: Seq<i32>, a: int, b: int, c: int, d: int) -> int { ((a * s[1] + b) * s[2] + c) * s[3] + d }
pub open spec fn size4(s: Seq<i32>) -> int { s[0] * s[1] * s[2] * s[3] }
pub open spec fn shape4(s: Shape) -> bool { s@.len() == 4 && s@[0] >= 0 && s@[1] >= 0 && s@[2] >= 0 && s@[3] >= 0 }
// intermediate products fit a 32-bit int
pub open spec fn small4(s: Shape) -> bool { size4(s@) <= 0x7fff_ffff && s@[0] * s@[1] * s@[2] <= 0x7fff_ffff && s@[0] * s@[1] <= 0x7fff_ffff && s@[1] * s@[2] <= 0x7fff_ffff && s@[2] * s@[3] <= 0x7fff_ffff }
#[verifier::external_body] pub fn shape_offset(s: &Shape, a: i32, b: i32, c: i32, d: i32) -> (r: i32)
    requires shape4(*s), small4(*s), 0 <= a < s@[0], 0 <= b < s@[1], 0 <= c < s@[2], 0 <= d < s@[3]
    ensures r == off4(s@, a as int, b as int, c as int, d as int), 0 <= r < size4(s@) { unimplemented!() }
// coordinates of flat index p in a row-major 4-D array of shape s
pub open spec fn i3(s: Seq<i32>, p: int) -> int { p % (s[3] as int) }
pub open spec fn i2(s: Seq<i32>, p: int) -> int { (p / (s[3] as int)) % (s[2] as int) }
pub open spec fn i1(s: Seq<i32>, p: int) -> int { ((p / (s[3] as int)) / (s[2] as int)) % (s[1] as int) }
pub open spec fn i0(s: Seq<i32>, p: int) -> int { ((p / (s[3] as int)) / (s[2] as int)) / (s[1] as int) }
pub proof fn lemma_dm(q: int, d: int, r: int)
    requires 0 <= r < d
    ensures (q * d + r) / d == q, (q * d + r) % d == r
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q * d + r, d, q, r); }
pub proof fn lemma_coords(s: Seq<i32>, a: int, b: int, c: int, d: int)
    requires s.len() == 4, 0 <= a < s[0], 0 <= b < s[1], 0 <= c < s[2], 0 <= d < s[3]
    ensures ({ let p = off4(s, a, b, c, d); i0(s, p) == a && i1(s, p) == b && i2(s, p) == c && i3(s, p) == d && 0 <= p < size4(s) })
{
    lemma_dm((a * s[1] + b) * s[2] + c, s[3] as int, d);
    lemma_dm(a * s[1] + b, s[2] as int, c);
    lemma_dm(a, s[1] as int, b);
    lemma_off4_bound(s, a, b, c, d);
}
pub proof fn lemma_off4_bound(s: Seq<i32>, a: int, b: int, c: int, d: int)
    requires s.len() == 4, 0 <= a < s[0], 0 <= b < s[1], 0 <= c < s[2], 0 <= d < s[3]
    ensures 0 <= off4(s, a, b, c, d) < size4(s), off4(s, a, b, c, 0) + s[3] <= size4(s)
{
    let u = a * s[1] + b; let v = u * s[2] + c;
    assert(0 <= u && u + 1 <= s[0] * s[1]) by (nonlinear_arith) requires 0 <= a < s[0], 0 <= b < s[1], u == a * s[1] + b;
    assert(0 <= v && v + 1 <= s[0] * s[1] * s[2]) by (nonlinear_arith) requires 0 <= u, u + 1 <= s[0] * s[1], 0 <= c < s[2], v == u * s[2] + c;
    assert(0 <= v * s[3] + d && v * s[3] + s[3] <= s[0] * s[1] * s[2] * s[3]) by (nonlinear_arith) requires 0 <= v, v + 1 <= s[0] * s[1] * s[2], 0 <= d < s[3];
}
// the four coordinates recompose
pub proof fn lemma_recompose(s: Seq<i32>, p: int)
    requires s.len() == 4, s[0] >= 0, s[1] >= 0, s[2] >= 0, s[3] >= 0, 0 <= p < size4(s)
    ensures 0 <= i0(s, p) < s[0], 0 <= i1(s, p) < s[1], 0 <= i2(s, p) < s[2], 0 <= i3(s, p) < s[3], off4(s, i0(s, p), i1(s, p), i2(s, p), i3(s, p)) == p
{
    let n01 = s[0] * s[1]; let n = n01 * s[2];
    assert(s[3] > 0 && s[2] > 0 && s[1] > 0 && s[0] > 0) by (nonlinear_arith) requires s[0] >= 0, s[1] >= 0, s[2] >= 0, s[3] >= 0, 0 < s[0] * s[1] * s[2] * s[3];
    let v = p / (s[3] as int); let u = v / (s[2] as int); let a = u / (s[1] as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, s[3] as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, s[2] as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, s[1] as int);
    assert(0 <= v < n) by (nonlinear_arith) requires 0 <= p < n * s[3], p == s[3] * v + p % (s[3] as int), 0 <= p % (s[3] as int) < s[3];
    assert(0 <= u < n01) by (nonlinear_arith) requires 0 <= v < n01 * s[2], v == s[2] * u + v % (s[2] as int), 0 <= v % (s[2] as int) < s[2];
    assert(0 <= a < s[0]) by (nonlinear_arith) requires 0 <= u < s[0] * s[1], u == s[1] * a + u % (s[1] as int), 0 <= u % (s[1] as int) < s[1];
    assert(off4(s, a, u % (s[1] as int), v % (s[2] as int), p % (s[3] as int)) == p) by {
        assert(a * s[1] + u % (s[1] as int) == u) by (nonlinear_arith) requires u == s[1] * a + u % (s[1] as int);
        assert(u * s[2] + v % (s[2] as int) == v) by (nonlinear_arith) requires v == s[2] * u + v % (s[2] as int);
        assert(v * s[3] + p % (s[3] as int) == p) by (nonlinear_arith) requires p == s[3] * v + p % (s[3] as int);
    }
}
// carrying: (.., d == s3) is (.., c+1, 0) and so on
pub proof fn lemma_off4_carry(s: Seq<i32>, a: int, b: int, c: int, d: int)
    requires s.len() == 4
    ensures d == s[3] ==> off4(s, a, b, c, d) == off4(s, a, b, c + 1, 0), c == s[2] && d == 0 ==> off4(s, a, b, c, d) == off4(s, a, b + 1, 0, 0), b == s[1] && c == 0 && d == 0 ==> off4(s, a, b, c, d) == off4(s, a + 1, 0, 0, 0), off4(s, 0, 0, 0, 0) == 0, off4(s, s[0] as int, 0, 0, 0) == size4(s)
{
    assert(off4(s, a, b, c, s[3] as int) == off4(s, a, b, c + 1, 0)) by (nonlinear_arith);
    assert(off4(s, a, b, s[2] as int, 0) == off4(s, a, b + 1, 0, 0)) by (nonlinear_arith);
    assert(off4(s, a, s[1] as int, 0, 0) == off4(s, a + 1, 0, 0, 0)) by (nonlinear_arith);
    assert(off4(s, s[0] as int, 0, 0, 0) == size4(s)) by (nonlinear_arith);
    assert(off4(s, 0, 0, 0, 0) == 0) by (nonlinear_arith);
}
pub proof fn lemma_size0(s: Seq<i32>) requires s.len() == 4, s[3] == 0 ensures size4(s) == 0
{ assert(s[0] * s[1] * s[2] * s[3] == 0) by (nonlinear_arith) requires s[3] == 0; }
pub proof fn lemma_off4_c0(s: Seq<i32>, a: int, b: int, c: int) requires s.len() == 4, s[3] == 0 ensures off4(s, a, b, c, 0) == 0
{ assert(off4(s, a, b, c, 0) == 0) by (nonlinear_arith) requires s[3] == 0; }
