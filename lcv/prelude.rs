// ---------------------------------------------------------------------------
// Fixed prelude: the C++ memory and arithmetic model.  Everything marked
// external_body is trusted (it is the meaning given to a C++ primitive).
// ---------------------------------------------------------------------------
global size_of usize == 8;

// floats: opaque values; operations are uninterpreted functions of the operands
#[derive(Clone, Copy)] pub struct F32 { pub bits: u32 }
// doubles: mathematical reals (rounding ignored); conversions from and to float are uninterpreted
pub struct F64 { pub v: Ghost<real> }
impl Clone for F64 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for F64 {}
pub uninterp spec fn real_of_f32(x: F32) -> real;
pub uninterp spec fn f32_of_real(x: real) -> F32;

// memory objects: a finite sequence of elements
pub struct Mem<T> { pub g: Ghost<Seq<T>> }
impl<T> View for Mem<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }
// const pointer: the object's contents and an offset
pub struct CPtr<T> { pub s: Ghost<Seq<T>>, pub o: Ghost<int> }
impl<T> Clone for CPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for CPtr<T> {}
impl<T> CPtr<T> {
    // element k of the pointed-to region
    pub open spec fn ix(self, k: int) -> T { self.s@[self.o@ + k] }
    // [p, p+n) is readable
    pub open spec fn ok(self, n: int) -> bool { 0 <= self.o@ && self.o@ + n <= self.s@.len() }
    pub open spec fn off(self) -> int { self.o@ }
}
pub struct Off { pub g: Ghost<int> }
impl Clone for Off { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Off {}
impl View for Off { type V = int; open spec fn view(&self) -> int { self.g@ } }

#[verifier::external_body] pub fn rd<T: Copy>(p: CPtr<T>, i: i64) -> (r: T)
    requires 0 <= p.o@ + i < p.s@.len(), ensures r == p.s@[p.o@ + i] { unimplemented!() }
#[verifier::external_body] pub fn cadd<T>(p: CPtr<T>, i: i64) -> (r: CPtr<T>)
    ensures r.s == p.s, r.o@ == p.o@ + i { unimplemented!() }
#[verifier::external_body] pub fn mrd<T: Copy>(m: &Mem<T>, o: Off, i: i64) -> (r: T)
    requires 0 <= o@ + i < m@.len(), ensures r == m@[o@ + i] { unimplemented!() }
#[verifier::external_body] pub fn mwr<T>(m: &mut Mem<T>, o: Off, i: i64, v: T)
    requires 0 <= o@ + i < old(m)@.len(), ensures final(m)@ == old(m)@.update(o@ + i, v) { unimplemented!() }
#[verifier::external_body] pub fn oadd(o: Off, i: i64) -> (r: Off) ensures r@ == o@ + i { unimplemented!() }
#[verifier::external_body] pub fn off0() -> (r: Off) ensures r@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn cptr_of<T>(m: &Mem<T>, o: Off) -> (r: CPtr<T>) ensures r.s@ == m@, r.o@ == o@ { unimplemented!() }
pub open spec fn sfill<T>(s: Seq<T>, a: int, b: int, v: T) -> Seq<T> { Seq::new(s.len(), |k: int| if a <= k < b { v } else { s[k] }) }
// std::fill(first, last, v) / memset-like / memcpy on one element type
#[verifier::external_body] pub fn std_fill<T>(m: &mut Mem<T>, a: Off, b: Off, v: T)
    requires 0 <= a@ <= b@ <= old(m)@.len(),
    ensures final(m)@.len() == old(m)@.len(), final(m)@ == sfill(old(m)@, a@, b@, v),
        forall|k: int| 0 <= k < final(m)@.len() ==> #[trigger] final(m)@[k] == (if a@ <= k < b@ { v } else { old(m)@[k] }) { unimplemented!() }
#[verifier::external_body] pub fn memcpy_n<T>(m: &mut Mem<T>, o: Off, p: CPtr<T>, n: u64)
    requires n > 0 ==> (0 <= o@ && o@ + n <= old(m)@.len() && p.ok(n as int)),
    ensures final(m)@.len() == old(m)@.len(),
        forall|k: int| 0 <= k < final(m)@.len() ==> #[trigger] final(m)@[k] == (if o@ <= k < o@ + n { p.s@[p.o@ + k - o@] } else { old(m)@[k] }) { unimplemented!() }
#[verifier::external_body] pub fn new_arr<T>(n: u64, v: T) -> (r: Mem<T>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == v { unimplemented!() }
#[verifier::external_body] pub fn havoc<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body] pub fn mem_resize<T>(m: &mut Mem<T>, n: u64, v: T)
    ensures final(m)@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(m)@[k] == (if k < old(m)@.len() { old(m)@[k] } else { v }) { unimplemented!() }
#[verifier::external_body] pub fn mem_push<T>(m: &mut Mem<T>, v: T) ensures final(m)@ == old(m)@.push(v) { unimplemented!() }
#[verifier::external_body] pub fn mem_empty<T>() -> (r: Mem<T>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn clone_rec<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn mem_len<T>(m: &Mem<T>) -> (r: i64) ensures r == m@.len() { unimplemented!() }
#[verifier::external_body] pub fn ghost_any<T>() -> (r: Ghost<T>) { unimplemented!() }
#[verifier::external_body] pub fn mem_assign<T>(m: &mut Mem<T>, n: u64, v: T)
    ensures final(m)@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(m)@[k] == v { unimplemented!() }

// ---- machine integers -----------------------------------------------------
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) } else if a >= 0 { -(a / (-b)) } else { (-a) / (-b) } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn wrapu(x: int, m: int) -> int { x % m }
pub open spec fn wraps(x: int, m: int) -> int { let r = x % m; if r >= m / 2 { r - m } else { r } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn as_u8(s: Seq<i8>) -> Seq<u8> { Seq::new(s.len(), |k: int| s[k] as u8) }
// a null owning pointer must not be dereferenced
pub fn up_check(b: bool) requires b { }
