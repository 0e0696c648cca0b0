@@include mlirattr.vs
@@value mlir::IntegerType => MTy
@@value mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<int>> => Sl<i32>
@@value mlir::detail::ElementsAttrRange<mlir::DenseElementsAttr::ElementIterator<float>> => Sl<F32>
@@value mlir::Builder => MCtx
@@value mlir::OpBuilder => MCtx
@@value mlir::Builder * => MCtx
@@value std::initializer_list<long> => Sl<i64>
@@ctor mlir::Attribute/0 => at_null()
@@ctor llvm::ArrayRef<long>/1:std::initializer_list<long> => %s
@@extern mlir::Attribute::cast<mlir::TypedAttr>/0 => at_typed
@@extern mlir::TypedAttr::getType/0 => at_ty
@@extern mlir::Type::cast<mlir::ShapedType>/0 => ty_shaped
@@extern mlir::TensorType::operator ShapedType/0 => ty_same
@@extern mlir::ShapedType::hasStaticShape/0 => ty_static
@@extern mlir::Builder::getIntegerType/1 => ty_int
@@extern mlir::RankedTensorType::get/3 => ty_tensor_of
@@extern mlir::DenseElementsAttr::getValues<int>/0 => at_intseq
@@extern mlir::DenseElementsAttr::getValues<float>/0 => at_fltseq
@@prelude
pub open spec fn elem(t: TyV) -> TyV { TyV::Other(t->Ranked_1) }
#[verifier::external_body] pub fn at_typed(a: MAttr) -> (r: MAttr) requires a@ is Dense ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn at_ty(a: MAttr) -> (r: MTy) requires a@ is Dense ensures r@ == a@->Dense_0, r@ != TyV::Null { unimplemented!() }
#[verifier::external_body] pub fn ty_shaped(t: MTy) -> (r: MTy) requires is_tensor(t@) ensures r == t { unimplemented!() }
#[verifier::external_body] pub fn ty_same(t: MTy) -> (r: MTy) ensures r == t { unimplemented!() }
pub open spec fn static_shape(s: Seq<i64>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] >= 0 }
#[verifier::external_body] pub fn ty_static(t: MTy) -> (r: bool) requires is_tensor(t@) ensures r == (is_ranked(t@) && static_shape(t@->Ranked_0)) { unimplemented!() }
#[verifier::external_body] pub fn ty_int(b: MCtx, w: u32) -> (r: MTy) ensures w == 32 ==> r@ == TyV::Other(ec_i32()), w != 32 ==> r@ is Other && r@ != TyV::Other(ec_i32()) { unimplemented!() }
#[verifier::external_body] pub fn ty_tensor_of(s: Sl<i64>, e: MTy, enc: MAttr) -> (r: MTy) requires e@ is Other ensures r@ == TyV::Ranked(s@, e@->Other_0, 0) { unimplemented!() }
#[verifier::external_body] pub fn at_intseq(a: MAttr) -> (r: Sl<i32>) requires a@ is Dense, elem(a@->Dense_0) == TyV::Other(ec_i32()) ensures r@ == a@->Dense_1 { unimplemented!() }
#[verifier::external_body] pub fn at_fltseq(a: MAttr) -> (r: Sl<F32>) requires a@ is Dense, elem(a@->Dense_0) == TyV::Other(ec_f32()) ensures r@ == a@->Dense_2 { unimplemented!() }
