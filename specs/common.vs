@@prelude
pub open spec fn bit(w: i32, k: int) -> bool { ((w as u32) >> (k as u32)) & 1u32 == 1u32 }
pub open spec fn ubit(w: u32, k: int) -> bool { (w >> (k as u32)) & 1u32 == 1u32 }
pub open spec fn cdiv32(n: int) -> int { (n + 31) / 32 }
pub fn bf_set(w: u32, k: u32, v: u32) -> (r: u32)
    requires k < 32, v <= 1
    ensures forall|j: int| 0 <= j < 32 ==> #[trigger] ubit(r, j) == (if j == k { v == 1 } else { ubit(w, j) })
{
    let r = (w & !(1u32 << k)) | (v << k);
    assert forall|j: int| 0 <= j < 32 implies #[trigger] ubit(r, j) == (if j == k { v == 1 } else { ubit(w, j) }) by {
        let j2 = j as u32;
        assert(((w & !(1u32 << k)) | (v << k)) >> j2 & 1u32 == (if j2 == k { v } else { (w >> j2) & 1u32 })) by (bit_vector) requires k < 32, v <= 1, j2 < 32;
    }
    r
}
pub proof fn lemma_wraps_u32(w: u32, r: i32)
    requires r == wraps(w as int, 4294967296)
    ensures r as u32 == w
{
    if (w as int) < 2147483648 { assert(r == w); } else { assert(r == w - 4294967296); assert((r as u32) == w) by (bit_vector) requires r == (w as int) - 4294967296, w >= 2147483648u32; }
}
pub fn bf_setb(w: u32, k: u32, v: bool) -> (r: u32)
    requires k < 32
    ensures forall|j: int| 0 <= j < 32 ==> #[trigger] ubit(r, j) == (if j == k { v } else { ubit(w, j) })
{ bf_set(w, k, if v { 1 } else { 0 }) }
// reading the bit-field union through its integer member
pub fn bf_i32(w: u32) -> (r: i32)
    ensures r == wraps(w as int, 4294967296), forall|k: int| 0 <= k < 32 ==> #[trigger] bit(r, k) == ubit(w, k)
{
    let r = #[verifier::truncate] (w as i32);
    proof {
        assert((w as i32) as u32 == w) by (bit_vector);
        assert(w < 0x80000000u32 ==> (w as i32) == w) by (bit_vector);
        assert(w >= 0x80000000u32 ==> (w as i32) == w - 0x100000000) by (bit_vector);
    }
    r
}
@@extern lcv_abort/0 => lcv_abort
@@prelude
// a failed TF_LITE_ASSERT_EQ aborts: no admissible call may get there
#[verifier::external_body] pub fn lcv_abort() requires false { unimplemented!() }
