@@include mlirattr.vs
@@value llvm::StringRef => BStr
@@value llvm::StringLiteral => BStr
@@value std::basic_string<char> => BStr
@@value mlir::PatternRewriter => RwV
@@value mlir::ValueTypeRange<mlir::ResultRange> => ResTys
@@value mlir::OperandRange => Opnds
@@value mlir::TFL::ConstBytesAttr => BStr
@@value mlir::IntegerType => MTy
@@value std::initializer_list<long> => Sl<i64>
@@foreach O in Quantize Dequantize Bconv2d BMaxPool2d
@@value mlir::lq::$OOp => MOp
@@extern mlir::lq::$OOp::buildCustomOptions/0 => options_of_$O
@@extern mlir::lq::$OOp::getOperationName/0 => name_$O -this
@@end
@@ctor llvm::ArrayRef<long>/1:std::initializer_list<long> => %s
@@ctor mlir::Type/1:mlir::Type => %s
@@ctor mlir::Attribute/0: => at_null()
@@ctor llvm::StringRef/1:std::basic_string<char> => %s
@@ctor std::basic_string<char>/2:llvm::StringRef,std::allocator<char> => bs_copy(%s, %s)
@@ctor std::basic_string<char>/3:__gnu_cxx::__normal_iterator<unsigned char *, std::vector<unsigned char>>,__gnu_cxx::__normal_iterator<unsigned char *, std::vector<unsigned char>>,std::allocator<char> => bs_range(%s, %s, %s)
@@extern mlir::OpState::getOperation/0 => op_self
@@extern mlir::Operation::getContext/0 => op_ctx
@@extern mlir::Operation::getOperands/0 => op_operands
@@extern mlir::Operation::getResultTypes/0 => op_results
@@extern llvm::StringRef::drop_front/1 => bs_drop
@@extern std::operator+<char,std::char_traits<char>,std::allocator<char>>/2 => bs_cat
@@extern mlir::TFL::ConstBytesAttr::get/2 => bs_attr
@@extern mlir::TensorType::operator ShapedType/0 => ty_same
@@extern mlir::Builder::getIntegerType/1 => int_type -this
@@extern mlir::RankedTensorType::get/3 => ranked_type
@@extern mlir::RewriterBase::replaceOpWithNewOp<mlir::TFL::CustomOp,<mlir::ValueTypeRange<mlir::ResultRange>, mlir::OperandRange, std::basic_string<char>, mlir::TFL::ConstBytesAttr &>>/5 => rw_custom byval &mut
@@value __gnu_cxx::__normal_iterator<unsigned char *, std::vector<unsigned char>> => VIt
@@extern std::vector<unsigned char>::begin/0 => vec_begin
@@extern std::vector<unsigned char>::end/0 => vec_end
@@value mlir::LogicalResult => bool
@@extern mlir::success/1 => res_ok
@@assume MLIR rewriting: replaceOpWithNewOp<CustomOp>(op, types, operands, code, bytes) replaces op by a custom operation with exactly these
@@assume an operation's registered name is "lq." and its mnemonic, as in lce_ops.td
@@prelude
pub struct BStr { pub g: Ghost<Seq<u8>> }
impl Clone for BStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BStr {}
impl View for BStr { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.g@ } }
pub struct ResTys { pub g: Ghost<int> }
pub struct Opnds { pub g: Ghost<int> }
impl Clone for ResTys { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ResTys {}
impl Clone for Opnds { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Opnds {}
// the rewriter: what it put in place of which operation (result types of, operands of, custom code, custom options)
pub struct Repl { pub of: int, pub types_of: int, pub operands_of: int, pub code: Seq<u8>, pub options: Seq<u8> }
pub struct RwV { pub g: Ghost<Seq<Repl>> }
// the bytes buildCustomOptions returns (its contract is in options.vs)
pub uninterp spec fn options_bytes_of(o: int) -> Seq<u8>;
@@foreach O in Quantize Dequantize Bconv2d BMaxPool2d
#[verifier::external_body] pub fn options_of_$O(o: MOp) -> (r: Mem<u8>) ensures r@ == options_bytes_of(o.g@) { unimplemented!() }
@@end
// the characters of the string literals, by crc32
pub uninterp spec fn lit_bytes(k: u64) -> Seq<u8>;
pub axiom fn ax_literals() ensures
    lit_bytes(4123590661) == seq![76u8, 99u8, 101u8] /* Lce */;
pub open spec fn opname_Quantize() -> Seq<u8> { seq![108u8, 113u8, 46u8, 81u8, 117u8, 97u8, 110u8, 116u8, 105u8, 122u8, 101u8] /* lq.Quantize */ }
#[verifier::external_body] pub fn name_Quantize() -> (r: BStr) ensures r@ == opname_Quantize() { unimplemented!() }
pub open spec fn code_Quantize() -> Seq<u8> { seq![76u8, 99u8, 101u8, 81u8, 117u8, 97u8, 110u8, 116u8, 105u8, 122u8, 101u8] /* LceQuantize */ }
pub open spec fn opname_Dequantize() -> Seq<u8> { seq![108u8, 113u8, 46u8, 68u8, 101u8, 113u8, 117u8, 97u8, 110u8, 116u8, 105u8, 122u8, 101u8] /* lq.Dequantize */ }
#[verifier::external_body] pub fn name_Dequantize() -> (r: BStr) ensures r@ == opname_Dequantize() { unimplemented!() }
pub open spec fn code_Dequantize() -> Seq<u8> { seq![76u8, 99u8, 101u8, 68u8, 101u8, 113u8, 117u8, 97u8, 110u8, 116u8, 105u8, 122u8, 101u8] /* LceDequantize */ }
pub open spec fn opname_Bconv2d() -> Seq<u8> { seq![108u8, 113u8, 46u8, 66u8, 99u8, 111u8, 110u8, 118u8, 50u8, 100u8] /* lq.Bconv2d */ }
#[verifier::external_body] pub fn name_Bconv2d() -> (r: BStr) ensures r@ == opname_Bconv2d() { unimplemented!() }
pub open spec fn code_Bconv2d() -> Seq<u8> { seq![76u8, 99u8, 101u8, 66u8, 99u8, 111u8, 110u8, 118u8, 50u8, 100u8] /* LceBconv2d */ }
pub open spec fn opname_BMaxPool2d() -> Seq<u8> { seq![108u8, 113u8, 46u8, 66u8, 77u8, 97u8, 120u8, 80u8, 111u8, 111u8, 108u8, 50u8, 100u8] /* lq.BMaxPool2d */ }
#[verifier::external_body] pub fn name_BMaxPool2d() -> (r: BStr) ensures r@ == opname_BMaxPool2d() { unimplemented!() }
pub open spec fn code_BMaxPool2d() -> Seq<u8> { seq![76u8, 99u8, 101u8, 66u8, 77u8, 97u8, 120u8, 80u8, 111u8, 111u8, 108u8, 50u8, 100u8] /* LceBMaxPool2d */ }
#[verifier::external_body] pub fn bs_drop(s: BStr, n: u64) -> (r: BStr) requires n <= s@.len() ensures r@ == s@.subrange(n as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn bs_cat(k: u64, s: BStr) -> (r: BStr) ensures r@ == lit_bytes(k) + s@ { unimplemented!() }
#[verifier::external_body] pub fn bs_copy(s: BStr, a: &u8) -> (r: BStr) ensures r == s { unimplemented!() }
#[verifier::external_body] pub fn bs_attr(c: MCtx, s: BStr) -> (r: BStr) ensures r == s { unimplemented!() }
#[verifier::external_body] pub fn op_self(o: MOp) -> (r: MOp) ensures r == o { unimplemented!() }
#[verifier::external_body] pub fn op_ctx(o: MOp) -> (r: MCtx) { unimplemented!() }
#[verifier::external_body] pub fn op_operands(o: MOp) -> (r: Opnds) ensures r.g@ == o.g@ { unimplemented!() }
#[verifier::external_body] pub fn op_results(o: MOp) -> (r: ResTys) ensures r.g@ == o.g@ { unimplemented!() }
#[verifier::external_body] pub fn rw_custom(w: &mut RwV, o: MOp, t: ResTys, a: Opnds, code: BStr, opt: BStr) ensures final(w).g@ == old(w).g@.push(Repl { of: o.g@, types_of: t.g@, operands_of: a.g@, code: code@, options: opt@ }) { unimplemented!() }
// "Lce" and the mnemonic
@@foreach O in Quantize Dequantize Bconv2d BMaxPool2d
pub proof fn lemma_code_$O(b: Seq<u8>) ensures lit_bytes(4123590661) + opname_$O().subrange(3, opname_$O().len() as int) == code_$O(), b.subrange(0, b.len() as int) == b { ax_literals(); assert(lit_bytes(4123590661) + opname_$O().subrange(3, opname_$O().len() as int) =~= code_$O()); assert(b.subrange(0, b.len() as int) =~= b); }
@@end
@@foreach O in Quantize Dequantize Bconv2d BMaxPool2d
@@fn mlir::TFL::LegalizeToCustomOp<mlir::lq::$OOp>::matchAndRewrite/2 as legalize_$O
@nothis
@ensures
    r, final(rewriter).g@ =~= old(rewriter).g@.push(Repl { of: larq_op.g@, types_of: larq_op.g@, operands_of: larq_op.g@, code: code_$O(), options: options_bytes_of(larq_op.g@) }),
@start
    proof { lemma_code_$O(options_bytes_of(larq_op.g@)); }
@@end
@@prelude
#[verifier::external_body] pub fn ty_same(t: MTy) -> (r: MTy) ensures r == t { unimplemented!() }
#[verifier::external_body] pub fn int_type(n: u32) -> (r: MTy) { unimplemented!() }
#[verifier::external_body] pub fn ranked_type(s: Sl<i64>, t: MTy, a: MAttr) -> (r: MTy) { unimplemented!() }
#[verifier::external_body] pub fn res_ok(b: bool) -> (r: bool) ensures r == b { unimplemented!() }
pub struct VIt { pub s: Ghost<Seq<u8>>, pub p: Ghost<int> }
#[verifier::external_body] pub fn vec_begin(v: &Mem<u8>) -> (r: VIt) ensures r.s@ == v@, r.p@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn vec_end(v: &Mem<u8>) -> (r: VIt) ensures r.s@ == v@, r.p@ == v@.len() { unimplemented!() }
#[verifier::external_body] pub fn bs_range(a: VIt, b: VIt, c: &u8) -> (r: BStr) requires a.s@ == b.s@, 0 <= a.p@ <= b.p@ <= a.s@.len() ensures r@ == a.s@.subrange(a.p@, b.p@) { unimplemented!() }
