@@include mlirty.vs
@@value mlir::DenseElementsAttr => MAttr
@@value mlir::TypedAttr => MAttr
@@value mlir::IntegerAttr => MAttr
@@value mlir::ArrayAttr => MAttr
@@value mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<int>> => VInts
@@value mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>> => VFlts
@@value llvm::ArrayRef<unsigned long> => Sl<u64>
@@value std::initializer_list<unsigned long> => Sl<u64>
@@value llvm::ArrayRef<mlir::Attribute> => Sl<MAttr>
@@value llvm::StringRef => u64
@@value mlir::Operation * => MOp
@@ctor mlir::DenseElementsAttr/1:ptr => at_null()
@@ctor mlir::DenseElementsAttr/1:null => at_null()
@@ctor llvm::ArrayRef<unsigned long>/1:std::initializer_list<unsigned long> => %s
@@ctor llvm::ArrayRef<long>/0 => sl_none()
@@ctor llvm::StringRef/1:ptr => %s
@@extern mlir::Attribute::operator bool/0 => at_set
@@extern mlir::Attribute::operator!/1 => at_unset
@@extern mlir::Type::operator!/1 => ty_unset
@@extern mlir::Attribute::isa<<mlir::DenseElementsAttr>>/0 => at_is_dense
@@extern mlir::Attribute::cast<mlir::DenseElementsAttr>/0 => at_dense
@@extern mlir::Attribute::isa<<mlir::IntegerAttr>>/0 => at_is_int
@@extern mlir::Attribute::cast<mlir::IntegerAttr>/0 => at_int
@@extern mlir::IntegerAttr::getInt/0 => at_getint
@@extern mlir::ArrayAttr::getValue/0 => at_list
@@extern mlir::DenseElementsAttr::getType/0 => at_type
@@extern mlir::DenseElementsAttr::getValues<int>/0 => at_ints
@@extern mlir::DenseElementsAttr::getValues<float>/0 => at_flts
@@extern mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<int>>::operator[]/2 => ints_at
@@extern mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>>::operator[]/2 => flts_at
@@extern mlir::ShapedType::getRank/0 => ty_rank
@@extern mlir::detail::ShapedTypeTrait<mlir::RankedTensorType>::getRank/0 => ty_rank
@@extern mlir::ShapedType::getShape/0 => ty_shape
@@extern mlir::ShapedType::getElementType/0 => ty_elem
@@extern mlir::RankedTensorType::getRank/0 => ty_rank
@@extern mlir::Type::isInteger/1 => ty_is_int
@@extern mlir::Type::isF32/0 => ty_is_f32
@@extern llvm::ArrayRef<mlir::Attribute>::operator[]/2 => sl_at
@@extern mlir::Value::getType/0 => val_type
@@extern mlir::Value::getDefiningOp/0 => val_def
@@extern mlir::Operation::getOperand/1 => op_operand
@@extern mlir::Operation::getAttrOfType<mlir::IntegerAttr>/1 => op_int_attr
@@assume MLIR attributes and, while a pattern is matched, values and operations are immutable: an attribute is null, an integer, a list, or a dense constant (ranked type and elements in row-major order); a value has a type and a defining operation; an operation has operands and named attributes
@@prelude
pub enum AttrV { Null, Int(i64), List(Seq<MAttr>), Dense(TyV, Seq<i32>, Seq<F32>), Flt(real), Str(u64), Other(int) }
pub struct MAttr { pub g: Ghost<AttrV> }
impl Clone for MAttr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MAttr {}
impl View for MAttr { type V = AttrV; open spec fn view(&self) -> AttrV { self.g@ } }
pub struct VInts { pub g: Ghost<AttrV> }
impl Clone for VInts { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for VInts {}
pub struct VFlts { pub g: Ghost<AttrV> }
impl Clone for VFlts { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for VFlts {}
pub struct MOp { pub g: Ghost<int> }
impl Clone for MOp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MOp {}
// element types
pub open spec fn ec_f32() -> int { 1 }
pub open spec fn ec_i32() -> int { 2 }
#[verifier::external_body] pub fn ty_rank(t: MTy) -> (r: i64) requires is_ranked(t@) ensures r == t@->Ranked_0.len() { unimplemented!() }
#[verifier::external_body] pub fn ty_elem(t: MTy) -> (r: MTy) requires is_tensor(t@) ensures is_ranked(t@) ==> r@ == TyV::Other(t@->Ranked_1) { unimplemented!() }
#[verifier::external_body] pub fn ty_is_int(t: MTy, w: u32) -> (r: bool) requires t@ != TyV::Null ensures w == 32 ==> r == (t@ == TyV::Other(ec_i32())), r ==> t@ != TyV::Other(ec_f32()) { unimplemented!() }
#[verifier::external_body] pub fn ty_is_f32(t: MTy) -> (r: bool) requires t@ != TyV::Null ensures r == (t@ == TyV::Other(ec_f32())) { unimplemented!() }
#[verifier::external_body] pub fn at_null() -> (r: MAttr) ensures r@ == AttrV::Null { unimplemented!() }
#[verifier::external_body] pub fn at_set(a: MAttr) -> (r: bool) ensures r == (a@ != AttrV::Null) { unimplemented!() }
#[verifier::external_body] pub fn at_unset(a: MAttr) -> (r: bool) ensures r == (a@ == AttrV::Null) { unimplemented!() }
#[verifier::external_body] pub fn ty_unset(t: MTy) -> (r: bool) ensures r == (t@ == TyV::Null) { unimplemented!() }
#[verifier::external_body] pub fn at_is_dense(a: MAttr) -> (r: bool) requires a@ != AttrV::Null ensures r == (a@ is Dense), r ==> is_ranked(a@->Dense_0) { unimplemented!() }
#[verifier::external_body] pub fn at_dense(a: MAttr) -> (r: MAttr) requires a@ is Dense ensures r == a, is_ranked(a@->Dense_0) { unimplemented!() }
#[verifier::external_body] pub fn at_is_int(a: MAttr) -> (r: bool) requires a@ != AttrV::Null ensures r == (a@ is Int) { unimplemented!() }
#[verifier::external_body] pub fn at_int(a: MAttr) -> (r: MAttr) requires a@ is Int ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn at_getint(a: MAttr) -> (r: i64) requires a@ is Int ensures r == a@->Int_0 { unimplemented!() }
#[verifier::external_body] pub fn at_list(a: MAttr) -> (r: Sl<MAttr>) requires a@ is List ensures r@ == a@->List_0 { unimplemented!() }
#[verifier::external_body] pub fn at_type(a: MAttr) -> (r: MTy) requires a@ is Dense ensures r@ == a@->Dense_0, is_ranked(r@) { unimplemented!() }
// reading the elements as a C++ type other than the element type yields garbage
#[verifier::external_body] pub fn at_ints(a: MAttr) -> (r: VInts) requires a@ is Dense, a@->Dense_0->Ranked_1 == ec_i32() ensures r.g@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn at_flts(a: MAttr) -> (r: VFlts) requires a@ is Dense, a@->Dense_0->Ranked_1 == ec_f32() ensures r.g@ == a@ { unimplemented!() }
pub open spec fn flat(sh: Seq<i64>, ix: Seq<u64>) -> int decreases ix.len() { if ix.len() == 0 { 0 } else { flat(sh.drop_last(), ix.drop_last()) * sh.last() + ix.last() } }
pub open spec fn index_in(sh: Seq<i64>, ix: Seq<u64>) -> bool { sh.len() == ix.len() && forall|k: int| 0 <= k < ix.len() ==> 0 <= #[trigger] ix[k] < sh[k] }
#[verifier::external_body] pub fn ints_at(v: VInts, ix: Sl<u64>) -> (r: i32) requires index_in(v.g@->Dense_0->Ranked_0, ix@) ensures r == v.g@->Dense_1[flat(v.g@->Dense_0->Ranked_0, ix@)] { unimplemented!() }
#[verifier::external_body] pub fn flts_at(v: VFlts, ix: Sl<u64>) -> (r: F32) requires index_in(v.g@->Dense_0->Ranked_0, ix@) ensures r == v.g@->Dense_2[flat(v.g@->Dense_0->Ranked_0, ix@)] { unimplemented!() }
#[verifier::external_body] pub fn sl_none() -> (r: Sl<i64>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn sl_lit1<T>(a: T) -> (r: Sl<T>) ensures r@ == seq![a] { unimplemented!() }
#[verifier::external_body] pub fn sl_lit2<T>(a: T, b: T) -> (r: Sl<T>) ensures r@ == seq![a, b] { unimplemented!() }
#[verifier::external_body] pub fn sl_lit4<T>(a: T, b: T, c: T, d: T) -> (r: Sl<T>) ensures r@ == seq![a, b, c, d] { unimplemented!() }
// the graph around the matched operation
pub uninterp spec fn gty(v: MArg) -> TyV;
pub uninterp spec fn gdef(v: MArg) -> MOp;
pub uninterp spec fn gops(o: MOp) -> Seq<MArg>;
pub uninterp spec fn gattr(o: MOp, name: u64) -> AttrV;
#[verifier::external_body] pub fn val_type(v: MArg) -> (r: MTy) ensures r@ == gty(v), r@ != TyV::Null { unimplemented!() }
#[verifier::external_body] pub fn val_def(v: MArg) -> (r: MOp) ensures r == gdef(v) { unimplemented!() }
#[verifier::external_body] pub fn op_operand(o: MOp, i: u32) -> (r: MArg) requires i < gops(o).len() ensures r == gops(o)[i as int] { unimplemented!() }
#[verifier::external_body] pub fn op_int_attr(o: MOp, name: u64) -> (r: MAttr) ensures r@ == (if gattr(o, name) is Int { gattr(o, name) } else { AttrV::Null }) { unimplemented!() }
