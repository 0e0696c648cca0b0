@@prelude
// number of set bits among the first n bits of w
pub open spec fn pcn(w: u32, n: int) -> int decreases n { if n <= 0 { 0 } else { pcn(w, n - 1) + if ubit(w, n - 1) { 1int } else { 0int } } }
pub open spec fn popc(w: i32) -> int { pcn(w as u32, 32) }
pub proof fn lemma_pcn_bound(w: u32, n: int) requires 0 <= n ensures 0 <= pcn(w, n) <= n decreases n { if n > 0 { lemma_pcn_bound(w, n - 1); } }
#[verifier::external_body] pub fn bitset_count32(w: u64) -> (r: u64) ensures r == pcn(w as u32, 32), r <= 32 { unimplemented!() }
pub open spec fn xpop(a: i32, b: i32) -> int { popc(a ^ b) }
pub proof fn lemma_xpop(a: i32, b: i32) ensures 0 <= xpop(a, b) <= 32, xpop(a, b) == xpop(b, a)
{ lemma_pcn_bound((a ^ b) as u32, 32); assert(a ^ b == b ^ a) by (bit_vector); }
@@assume std::bitset<32>(x).count() is the number of set bits among the low 32 bits of x
@@fn compute_engine::core::xor_popcount/2 as xor_popcount
@ensures
    r == xpop(a, b), 0 <= r <= 32, r == xpop(b, a)
@start
    proof { lemma_xpop(a, b); assert(((a ^ b) as u64) as u32 == (a ^ b) as u32) by (bit_vector); }
