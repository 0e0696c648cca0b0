@@include mlirattr.vs
@@include flex.vs
@@include optmap.vs
@@value mlir::PatternRewriter => RwV
@@value mlir::ValueTypeRange<mlir::ResultRange> => ResTys
@@value mlir::OperandRange => Opnds
@@value mlir::TFL::ConstBytesAttr => MOp
@@value mlir::TFL::CustomOp => MOp
@@value mlir::LogicalResult => bool
@@extern mlir::success/1 => res_ok
@@extern mlir::TFL::CustomOp::getCustomCode/0 => op_code_of
@@extern mlir::TFL::CustomOp::getCustomOption/0 => op_same
@@extern mlir::TFL::ConstBytesAttr::getValue/0 => op_bytes
@@extern llvm::StringRef::data/0 => sr_data
@@extern llvm::StringRef::size/0 => sr_size
@@extern llvm::operator==/2 => sr_eq
@@extern mlir::OpState::operator->/1 => op_same
@@extern mlir::OpState::operator mlir::Operation */0 => op_same
@@extern mlir::Operation::getOperands/0 => op_operands
@@extern mlir::Operation::getResultTypes/0 => op_results
@@extern mlir::RewriterBase::replaceOpWithNewOp<mlir::lq::QuantizeOp,<mlir::ValueTypeRange<mlir::ResultRange>, mlir::OperandRange>>/3 => rw_quantize byval &mut
@@extern mlir::RewriterBase::replaceOpWithNewOp<mlir::lq::DequantizeOp,<mlir::ValueTypeRange<mlir::ResultRange>, mlir::OperandRange>>/3 => rw_dequantize byval &mut
@@extern mlir::RewriterBase::replaceOpWithNewOp<mlir::lq::BMaxPool2dOp,<mlir::ValueTypeRange<mlir::ResultRange>, mlir::Value, llvm::StringRef, int, int, int, int>>/8 => rw_pool byval &mut
@@extern mlir::RewriterBase::replaceOpWithNewOp<mlir::lq::Bconv2dOp,<mlir::ValueTypeRange<mlir::ResultRange>, mlir::Value, mlir::Value, mlir::Value, mlir::Value, mlir::Value, int, int, int, llvm::StringRef, int, llvm::StringRef, int, int>>/15 => rw_conv byval &mut
@@assume MLIR rewriting: replaceOpWithNewOp replaces the operation by one with the given result types, operands and attributes; the generated builders take the attributes in the order of lce_ops.td
@@prelude
pub struct ResTys { pub g: Ghost<int> }
pub struct Opnds { pub g: Ghost<int> }
pub enum Made { Quantize { types_of: int, operands_of: int }, Dequantize { types_of: int, operands_of: int },
    Pool { types_of: int, x: MArg, padding: u64, stride_w: i32, stride_h: i32, filter_w: i32, filter_h: i32 },
    Conv { types_of: int, x: Seq<MArg>, channels_in: i32, dilation_h: i32, dilation_w: i32, act: u64, pad_values: i32, padding: u64, stride_h: i32, stride_w: i32 } }
pub struct RwV { pub g: Ghost<Seq<(int, Made)>> }
pub uninterp spec fn code_of(o: int) -> u64;
pub uninterp spec fn option_of(o: int) -> u64;
pub uninterp spec fn sr_chars(k: u64) -> Seq<i8>;
#[verifier::external_body] pub fn op_same(o: MOp) -> (r: MOp) ensures r == o { unimplemented!() }
#[verifier::external_body] pub fn op_code_of(o: MOp) -> (r: u64) ensures r == code_of(o.g@) { unimplemented!() }
#[verifier::external_body] pub fn op_bytes(o: MOp) -> (r: u64) ensures r == option_of(o.g@) { unimplemented!() }
#[verifier::external_body] pub fn sr_data(k: u64) -> (r: CPtr<i8>) ensures r.s@ == sr_chars(k), r.o@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn sr_size(k: u64) -> (r: u64) ensures r == sr_chars(k).len() { unimplemented!() }
#[verifier::external_body] pub fn sr_eq(a: u64, b: u64) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body] pub fn res_ok(b: bool) -> (r: bool) ensures r == b { unimplemented!() }
#[verifier::external_body] pub fn op_operands(o: MOp) -> (r: Opnds) ensures r.g@ == o.g@ { unimplemented!() }
#[verifier::external_body] pub fn op_results(o: MOp) -> (r: ResTys) ensures r.g@ == o.g@ { unimplemented!() }
#[verifier::external_body] pub fn rw_quantize(w: &mut RwV, o: MOp, t: ResTys, a: Opnds) ensures final(w).g@ == old(w).g@.push((o.g@, Made::Quantize { types_of: t.g@, operands_of: a.g@ })) { unimplemented!() }
#[verifier::external_body] pub fn rw_dequantize(w: &mut RwV, o: MOp, t: ResTys, a: Opnds) ensures final(w).g@ == old(w).g@.push((o.g@, Made::Dequantize { types_of: t.g@, operands_of: a.g@ })) { unimplemented!() }
#[verifier::external_body] pub fn rw_pool(w: &mut RwV, o: MOp, t: ResTys, x: MArg, padding: u64, stride_w: i32, stride_h: i32, filter_w: i32, filter_h: i32)
    ensures final(w).g@ == old(w).g@.push((o.g@, Made::Pool { types_of: t.g@, x, padding, stride_w, stride_h, filter_w, filter_h })) { unimplemented!() }
#[verifier::external_body] pub fn rw_conv(w: &mut RwV, o: MOp, t: ResTys, x0: MArg, x1: MArg, x2: MArg, x3: MArg, x4: MArg, channels_in: i32, dilation_h: i32, dilation_w: i32, act: u64, pad_values: i32, padding: u64, stride_h: i32, stride_w: i32)
    ensures final(w).g@ == old(w).g@.push((o.g@, Made::Conv { types_of: t.g@, x: seq![x0, x1, x2, x3, x4], channels_in, dilation_h, dilation_w, act, pad_values, padding, stride_h, stride_w })) { unimplemented!() }
// crc32 of the attribute values
pub open spec fn pad_name(c: int) -> u64 { if c == 0 { 3401915632u64 } else { 2069100367u64 } }
pub open spec fn act_name(c: int) -> u64 { if c == 0 { 1225125243u64 } else if c == 1 { 1910305388u64 } else if c == 2 { 248128691u64 } else { 1506642837u64 } }
pub open spec fn opts(o: int) -> Map<u64, i32> { fb_decode(as_u8(sr_chars(option_of(o))), 0, sr_chars(option_of(o)).len() as int) }
pub open spec fn is_conv(o: int) -> bool { code_of(o) == 4032102460 /* LceBconv2d */ }
pub open spec fn is_pool(o: int) -> bool { code_of(o) == 2995989438 /* LceBMaxPool2d */ }
pub open spec fn translated(o: int) -> Made {
    if code_of(o) == 315923348 /* LceQuantize */ { Made::Quantize { types_of: o, operands_of: o } }
    else if code_of(o) == 2818191871 /* LceDequantize */ { Made::Dequantize { types_of: o, operands_of: o } }
    else if is_pool(o) { Made::Pool { types_of: o, x: gops(MOp { g: Ghost(o) })[0], padding: pad_name(attr(opts(o), 99885070) as int), stride_w: attr(opts(o), 1581847379), stride_h: attr(opts(o), 2888600398), filter_w: attr(opts(o), 2779494096), filter_h: attr(opts(o), 3630611313) } }
    else { Made::Conv { types_of: o, x: seq![gops(MOp { g: Ghost(o) })[0], gops(MOp { g: Ghost(o) })[1], gops(MOp { g: Ghost(o) })[2], gops(MOp { g: Ghost(o) })[3], gops(MOp { g: Ghost(o) })[4]], channels_in: attr(opts(o), 836103020), dilation_h: attr(opts(o), 747320286), dilation_w: attr(opts(o), 1818037642), act: act_name(attr(opts(o), 3519453420) as int), pad_values: attr(opts(o), 1417847379), padding: pad_name(attr(opts(o), 99885070) as int), stride_h: attr(opts(o), 2888600398), stride_w: attr(opts(o), 1581847379) } }
}
// options the converter writes
pub open spec fn padding_ok(o: int) -> bool { attr(opts(o), 99885070) == 0 || attr(opts(o), 99885070) == 1 }
@@fn mlir::TFL::TranslateToLCEPattern::matchAndRewrite/2 as translate
@nothis
@requires
    gops(custom_op).len() == (if is_conv(custom_op.g@) { 5int } else { 1int }),
    is_conv(custom_op.g@) ==> padding_ok(custom_op.g@) && 0 <= attr(opts(custom_op.g@), 3519453420) <= 3,
    is_pool(custom_op.g@) ==> padding_ok(custom_op.g@),
    code_of(custom_op.g@) == 315923348 || code_of(custom_op.g@) == 2818191871 || is_conv(custom_op.g@) || is_pool(custom_op.g@),
@ensures
    r, final(rewriter).g@ =~= old(rewriter).g@.push((custom_op.g@, translated(custom_op.g@))),
