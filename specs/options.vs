@@include mlirattr.vs
@@include optmap.vs
@@value flexbuffers::Builder => FbB
@@ctor flexbuffers::Builder/0 => fbb_new()
@@ctor std::vector<unsigned char>/0 => vec_none()
@@extern flexbuffers::Builder::Map/1 => fbb_start fbb_end lambda
@@extern flexbuffers::Builder::Int/2 => fbb_int &mut
@@extern flexbuffers::Builder::Finish/0 => fbb_finish &mut
@@extern flexbuffers::Builder::GetBuffer/0 => fbb_buffer
@@value llvm::StringSwitch<tflite::Padding> => SSw<i8>
@@value llvm::StringSwitch<tflite::ActivationFunctionType> => SSw<i8>
@@value llvm::StringLiteral => u64
@@ctor llvm::StringLiteral/1:arr => %s
@@ctor llvm::StringRef/1:llvm::StringRef => %s
@@ctor llvm::StringSwitch<tflite::Padding>/1:llvm::StringRef => ssw_new(%s)
@@ctor llvm::StringSwitch<tflite::ActivationFunctionType>/1:llvm::StringRef => ssw_new(%s)
@@extern llvm::StringSwitch<tflite::Padding>::Case/2 => ssw_case
@@extern llvm::StringSwitch<tflite::ActivationFunctionType>::Case/2 => ssw_case
@@extern llvm::StringSwitch<tflite::Padding>::Default/1 => ssw_default
@@extern llvm::StringSwitch<tflite::ActivationFunctionType>::Default/1 => ssw_default
@@extern llvm::StringSwitch<tflite::Padding>::operator tflite::Padding/0 => ssw_get
@@extern llvm::StringSwitch<tflite::ActivationFunctionType>::operator tflite::ActivationFunctionType/0 => ssw_get
@@foreach N K in getChannelsIn:836103020 getDilationHeightFactor:747320286 getDilationWidthFactor:1818037642 getPadValues:1417847379 getStrideHeight:2888600398 getStrideWidth:1581847379
@@extern mlir::lq::Bconv2dOp::$N/0 => opt_$K -this
@@end
@@foreach N K in getFusedActivationFunction:3519453420 getPadding:99885070
@@extern mlir::lq::Bconv2dOp::$N/0 => opts_$K -this
@@end
@@foreach N K in getFilterHeight:3630611313 getFilterWidth:2779494096 getStrideHeight:2888600398 getStrideWidth:1581847379
@@extern mlir::lq::BMaxPool2dOp::$N/0 => opt_$K -this
@@end
@@extern mlir::lq::BMaxPool2dOp::getPadding/0 => opts_99885070 -this
@@assume FlexBuffers model (writing): a finished buffer decodes to the integers put into its one map, each truncated to 32 bits; attribute names are told apart by their crc32
@@assume an operation's generated getter returns the attribute of that name: 32-bit integers, and strings the operation definition allows
@@prelude
// the attributes of the operation being written
pub uninterp spec fn op_int(k: u64) -> i32;
pub uninterp spec fn op_string(k: u64) -> u64;
@@foreach K in 836103020 747320286 1818037642 1417847379 2888600398 1581847379 3630611313 2779494096
#[verifier::external_body] pub fn opt_$K() -> (r: u32) ensures r == op_int($Ku64) as u32 { unimplemented!() }
@@end
#[verifier::external_body] pub fn opts_3519453420() -> (r: u64) ensures r == op_string(3519453420) { unimplemented!() }
#[verifier::external_body] pub fn opts_99885070() -> (r: u64) ensures r == op_string(99885070) { unimplemented!() }
// a 32-bit attribute survives being read as unsigned, widened, and cut to 32 bits
pub proof fn lemma_cut() ensures forall|v: i32| ((#[trigger] (v as u32)) as i64) as i32 == v { assert forall|v: i32| ((#[trigger] (v as u32)) as i64) as i32 == v by { assert(((v as u32) as i64) as i32 == v) by (bit_vector); } }
#[verifier::external_body] pub fn vec_none() -> (r: Mem<u8>) ensures r@.len() == 0 { unimplemented!() }
pub struct FbB { pub m: Ghost<Map<u64, i32>>, pub stage: Ghost<int> }
impl Clone for FbB { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for FbB {}
pub uninterp spec fn fb_decode(s: Seq<u8>, o: int, n: int) -> Map<u64, i32>;
#[verifier::external_body] pub fn fbb_new() -> (r: FbB) ensures r.m@ == Map::<u64, i32>::empty(), r.stage@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn fbb_start(b: &mut FbB) requires old(b).stage@ == 0 ensures final(b).m == old(b).m, final(b).stage@ == 1 { unimplemented!() }
#[verifier::external_body] pub fn fbb_end(b: &mut FbB) requires old(b).stage@ == 1 ensures final(b).m == old(b).m, final(b).stage@ == 2 { unimplemented!() }
#[verifier::external_body] pub fn fbb_int(b: &mut FbB, k: u64, v: i64) requires old(b).stage@ == 1, !old(b).m@.dom().contains(k) ensures final(b).m@ == old(b).m@.insert(k, v as i32), final(b).stage == old(b).stage { unimplemented!() }
#[verifier::external_body] pub fn fbb_finish(b: &mut FbB) requires old(b).stage@ == 2 ensures final(b).m == old(b).m, final(b).stage@ == 3 { unimplemented!() }
#[verifier::external_body] pub fn fbb_buffer(b: FbB) -> (r: Mem<u8>) requires b.stage@ == 3 ensures fb_decode(r@, 0, r@.len() as int) == b.m@ { unimplemented!() }
pub struct SSw<T> { pub key: u64, pub found: bool, pub val: T }
impl<T: Copy> Clone for SSw<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Copy> Copy for SSw<T> {}
#[verifier::external_body] pub fn ssw_new<T>(k: u64) -> (r: SSw<T>) ensures r.key == k, !r.found { unimplemented!() }
#[verifier::external_body] pub fn ssw_case<T>(s: SSw<T>, k: u64, v: T) -> (r: SSw<T>) ensures r == (if !s.found && s.key == k { SSw { key: s.key, found: true, val: v } } else { s }) { unimplemented!() }
#[verifier::external_body] pub fn ssw_default<T>(s: SSw<T>, v: T) -> (r: T) ensures r == (if s.found { s.val } else { v }) { unimplemented!() }
#[verifier::external_body] pub fn ssw_get<T>(s: SSw<T>) -> (r: T) requires s.found ensures r == s.val { unimplemented!() }
// crc32 of the attribute values: "SAME", "VALID"; "NONE", "RELU", "RELU_N1_TO_1", "RELU6"
pub open spec fn pad_code(s: u64) -> int { if s == 3401915632 { 0 } else if s == 2069100367 { 1 } else { -1 } }
pub open spec fn act_code(s: u64) -> int { if s == 1225125243 { 0 } else if s == 1910305388 { 1 } else if s == 248128691 { 2 } else if s == 1506642837 { 3 } else { -1 } }
// what the runtime reads back: for a convolution with legal attributes, every one of them
pub open spec fn conv_written(m: Map<u64, i32>) -> bool {
    (op_int(1417847379) == 0 || op_int(1417847379) == 1) ==> opts_ok(m) && conv_reads(m, op_int(2888600398), op_int(1581847379), op_int(747320286), op_int(1818037642), op_int(1417847379), op_int(836103020), act_code(op_string(3519453420)), (pad_code(op_string(99885070)) + 1) as u32)
}
pub open spec fn attr(m: Map<u64, i32>, k: u64) -> i32 { if m.dom().contains(k) { m[k] } else { 0 } }
pub open spec fn pool_written(m: Map<u64, i32>) -> bool {
    attr(m, 3630611313) == op_int(3630611313) && attr(m, 2779494096) == op_int(2779494096) && attr(m, 2888600398) == op_int(2888600398) && attr(m, 1581847379) == op_int(1581847379) && attr(m, 99885070) == pad_code(op_string(99885070))
}
@@fn mlir::lq::Bconv2dOp::buildCustomOptions/0 as conv_options
@nothis
@requires
    0 <= act_code(op_string(3519453420)), 0 <= pad_code(op_string(99885070)),
@ensures
    conv_written(fb_decode(r@, 0, r@.len() as int)),
@start
    proof { lemma_cut(); }
@@fn mlir::lq::BMaxPool2dOp::buildCustomOptions/0 as pool_options
@nothis
@requires
    0 <= pad_code(op_string(99885070)),
@ensures
    pool_written(fb_decode(r@, 0, r@.len() as int)),
@start
    proof { lemma_cut(); }
@@foreach O in Quantize Dequantize
@@fn mlir::lq::$OOp::buildCustomOptions/0 as options_$O
@nothis
@ensures
    r@.len() == 0,
@@end
