@@record flexbuffers::Root => FbRoot
@@record flexbuffers::Map => FbMap
@@record flexbuffers::Reference => FbRef
@@extern flexbuffers::GetRoot/2 => fb_root
@@extern flexbuffers::Root::AsMap/0 => fb_map
@@extern flexbuffers::Map::operator[]/2 => fb_get
@@extern flexbuffers::Reference::AsInt32/0 => fb_i32
@@extern flexbuffers::Reference::IsNull/0 => fb_null
@@assume FlexBuffers model: a custom-options buffer decodes to a map from attribute name to integer, and reading an absent attribute gives 0; attribute names are told apart by their crc32
@@prelude
pub struct FbRoot { pub m: Ghost<Map<u64, i32>> }
pub struct FbMap { pub m: Ghost<Map<u64, i32>> }
pub struct FbRef { pub v: Ghost<Option<i32>> }
// the attributes encoded in a buffer
pub uninterp spec fn fb_decode(s: Seq<u8>, o: int, n: int) -> Map<u64, i32>;
pub open spec fn attrs(b: CPtr<i8>, n: u64) -> Map<u64, i32> { fb_decode(as_u8(b.s@), b.o@, n as int) }
pub open spec fn attr(m: Map<u64, i32>, k: u64) -> i32 { if m.dom().contains(k) { m[k] } else { 0 } }
#[verifier::external_body] pub fn fb_root(b: CPtr<u8>, n: u64) -> (r: FbRoot) ensures r.m@ == fb_decode(b.s@, b.o@, n as int) { unimplemented!() }
#[verifier::external_body] pub fn fb_map(x: &FbRoot) -> (r: FbMap) ensures r.m@ == x.m@ { unimplemented!() }
#[verifier::external_body] pub fn fb_get(x: &FbMap, k: u64) -> (r: FbRef) ensures r.v@ == (if x.m@.dom().contains(k) { Some(x.m@[k]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn fb_i32(x: &FbRef) -> (r: i32) ensures r == (match x.v@ { Some(v) => v, None => 0i32 }) { unimplemented!() }
#[verifier::external_body] pub fn fb_null(x: &FbRef) -> (r: bool) ensures r == x.v@.is_none() { unimplemented!() }
