@@value mlir::Type => MTy
@@value mlir::TensorType => MTy
@@value mlir::RankedTensorType => MTy
@@value mlir::ShapedType => MTy
@@value mlir::FunctionType => MTy
@@value mlir::MLIRContext => MCtx
@@value mlir::TypeAttr => MTy
@@value mlir::Attribute => MAttr
@@value mlir::func::FuncOp => MFunc
@@value mlir::BlockArgument => MArg
@@value mlir::Value => MArg
@@value llvm::ArrayRef<long> => Sl<i64>
@@value llvm::ArrayRef<mlir::Type> => Sl<MTy>
@@value mlir::TypeRange => Sl<MTy>
@@value llvm::MutableArrayRef<mlir::BlockArgument> => Sl<MArg>
@@vector llvm::SmallVector<long, 4> => i64
@@vector llvm::SmallVector<long> => i64
@@vector llvm::SmallVector<long, 6> => i64
@@vector llvm::SmallVector<mlir::Type> => MTy
@@vector llvm::SmallVector<mlir::Type, 4> => MTy
@@ctor mlir::Type/1:ptr => ty_null()
@@ctor mlir::Type/0 => ty_null()
@@ctor mlir::TensorType/0 => ty_null()
@@ctor mlir::TensorType/1:ptr => ty_null()
@@ctor llvm::SmallVector<long, 4>/2:ptr,ptr => vec_range(%s, %s)
@@ctor llvm::SmallVector<long, 6>/2:ptr,ptr => vec_range(%s, %s)
@@ctor llvm::SmallVector<long>/2:ptr,ptr => vec_range(%s, %s)
@@ctor llvm::ArrayRef<long>/1:llvm::SmallVectorTemplateCommon<long> => sl_vec(%s)
@@ctor mlir::TypeRange/1:std::vector<mlir::Type> => sl_vec(%s)
@@ctor mlir::TypeRange/1:llvm::SmallVector<mlir::Type> => sl_vec(%s)
@@ctor mlir::TypeRange/1:llvm::SmallVector<mlir::Type, 4> => sl_vec(%s)
@@ctor mlir::TypeRange/1:Sl<MTy> => %s
@@ctor mlir::TypeRange/1:llvm::ArrayRef<mlir::Type> => %s
@@extern mlir::Type::operator bool/0 => ty_set
@@extern mlir::Type::dyn_cast<mlir::TensorType>/0 => ty_tensor
@@extern mlir::Type::dyn_cast<mlir::RankedTensorType>/0 => ty_ranked
@@extern mlir::Type::cast<mlir::TensorType>/0 => ty_cast_tensor
@@extern mlir::Type::isa<mlir::TensorType>/0 => ty_is_tensor
@@extern mlir::Type::isa<mlir::RankedTensorType>/0 => ty_is_ranked
@@extern llvm::dyn_cast<mlir::TensorType,mlir::Type>/1 => ty_tensor
@@extern llvm::dyn_cast<mlir::RankedTensorType,mlir::Type>/1 => ty_ranked
@@extern llvm::isa<mlir::TensorType,mlir::Type>/1 => ty_is_tensor
@@extern mlir::TensorType::hasRank/0 => ty_has_rank
@@extern mlir::TensorType::getShape/0 => ty_shape
@@extern mlir::RankedTensorType::getShape/0 => ty_shape
@@extern mlir::TensorType::getElementType/0 => ty_elem
@@extern mlir::TensorType::clone/1 => ty_clone
@@extern mlir::RankedTensorType::clone/1 => ty_clone
@@extern mlir::TensorType::cloneWith/2 => ty_clone_with
@@extern mlir::ShapedType::isDynamic/1 => dim_dynamic
@@extern llvm::ArrayRef<long>::size/0 => sl_len
@@extern llvm::ArrayRef<long>::empty/0 => sl_empty
@@extern llvm::ArrayRef<long>::begin/0 => sl_begin
@@extern llvm::ArrayRef<long>::end/0 => sl_end
@@extern llvm::ArrayRef<long>::operator[]/2 => sl_at
@@extern llvm::ArrayRef<long>::front/0 => sl_front
@@extern llvm::ArrayRef<mlir::Type>::size/0 => sl_len
@@extern llvm::ArrayRef<mlir::Type>::operator[]/2 => sl_at
@@extern llvm::ArrayRef<mlir::Type>::operator vector/0 => vec_sl
@@extern mlir::OperationPass<mlir::func::FuncOp>::getOperation/0 => the_func -this
@@extern mlir::func::FuncOp::getFunctionType/0 => func_type+ir
@@extern mlir::func::FuncOp::setFunctionTypeAttr/1 => func_set_type+ir
@@extern mlir::func::FuncOp::setType/1 => func_set_type+ir
@@extern mlir::detail::FunctionOpInterfaceTrait<mlir::func::FuncOp>::setType/1 => func_set_type+ir
@@extern mlir::detail::FunctionOpInterfaceTrait<mlir::func::FuncOp>::getArguments/0 => func_args+ir
@@extern mlir::FunctionType::getInputs/0 => fn_inputs
@@extern mlir::FunctionType::getResults/0 => fn_results
@@extern mlir::FunctionType::get/3 => fn_get
@@extern mlir::TypeAttr::get/1 => attr_of
@@extern mlir::Type::getContext/0 => ty_ctx
@@extern mlir::Value::getType/0 => arg_type+ir
@@extern mlir::Value::setType/1 => arg_set_type+ir
@@assume MLIR types are immutable values: shape, element type and encoding of a ranked tensor type; function types are their inputs and results; handles (func, block argument) name the operation being processed and its entry block arguments
@@assume TensorType::clone(shape) keeps element type and encoding; FuncOp::setFunctionTypeAttr and Value::setType replace exactly the function type and one argument's type
@@prelude
pub enum TyV { Null, Ranked(Seq<i64>, int, int), Unranked(int), Fun(Seq<TyV>, Seq<TyV>), Other(int) }
pub struct MTy { pub g: Ghost<TyV> }
impl Clone for MTy { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MTy {}
impl View for MTy { type V = TyV; open spec fn view(&self) -> TyV { self.g@ } }
pub struct MCtx { pub g: Ghost<int> }
impl Clone for MCtx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MCtx {}
pub struct MFunc { pub g: Ghost<int> }
impl Clone for MFunc { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MFunc {}
pub struct MArg { pub g: Ghost<int> }
impl Clone for MArg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for MArg {}
// immutable sequences (ArrayRef, TypeRange)
pub struct Sl<T> { pub g: Ghost<Seq<T>> }
impl<T> Clone for Sl<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Sl<T> {}
impl<T> View for Sl<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }
#[verifier::external_body] pub fn sl_len<T>(s: Sl<T>) -> (r: u64) ensures r == s@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body] pub fn sl_empty<T>(s: Sl<T>) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn sl_at<T: Copy>(s: Sl<T>, i: u64) -> (r: T) requires i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn sl_front<T: Copy>(s: Sl<T>) -> (r: T) requires s@.len() > 0 ensures r == s@[0] { unimplemented!() }
#[verifier::external_body] pub fn sl_begin<T>(s: Sl<T>) -> (r: CPtr<T>) ensures r.s@ == s@, r.o@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn sl_end<T>(s: Sl<T>) -> (r: CPtr<T>) ensures r.s@ == s@, r.o@ == s@.len() { unimplemented!() }
#[verifier::external_body] pub fn sl_vec<T>(m: &Mem<T>) -> (r: Sl<T>) ensures r@ == m@ { unimplemented!() }
#[verifier::external_body] pub fn vec_sl<T>(s: Sl<T>) -> (r: Mem<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vec_range<T>(a: CPtr<T>, b: CPtr<T>) -> (r: Mem<T>) requires a.s == b.s, 0 <= a.o@ <= b.o@ <= a.s@.len() ensures r@ == a.s@.subrange(a.o@, b.o@), a.o@ == 0 && b.o@ == a.s@.len() ==> r@ == a.s@ { unimplemented!() }
#[verifier::external_body] pub fn ty_null() -> (r: MTy) ensures r@ == TyV::Null { unimplemented!() }
#[verifier::external_body] pub fn ty_set(t: MTy) -> (r: bool) ensures r == (t@ != TyV::Null) { unimplemented!() }
pub open spec fn is_ranked(t: TyV) -> bool { t is Ranked }
pub open spec fn is_tensor(t: TyV) -> bool { t is Ranked || t is Unranked }
#[verifier::external_body] pub fn ty_tensor(t: MTy) -> (r: MTy) requires t@ != TyV::Null ensures r@ == (if is_tensor(t@) { t@ } else { TyV::Null }) { unimplemented!() }
#[verifier::external_body] pub fn ty_ranked(t: MTy) -> (r: MTy) requires t@ != TyV::Null ensures r@ == (if is_ranked(t@) { t@ } else { TyV::Null }) { unimplemented!() }
#[verifier::external_body] pub fn ty_cast_tensor(t: MTy) -> (r: MTy) requires is_tensor(t@) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn ty_is_tensor(t: MTy) -> (r: bool) requires t@ != TyV::Null ensures r == is_tensor(t@) { unimplemented!() }
#[verifier::external_body] pub fn ty_is_ranked(t: MTy) -> (r: bool) requires t@ != TyV::Null ensures r == is_ranked(t@) { unimplemented!() }
#[verifier::external_body] pub fn ty_has_rank(t: MTy) -> (r: bool) requires is_tensor(t@) ensures r == is_ranked(t@) { unimplemented!() }
#[verifier::external_body] pub fn ty_shape(t: MTy) -> (r: Sl<i64>) requires is_ranked(t@) ensures r@ == t@->Ranked_0 { unimplemented!() }
#[verifier::external_body] pub fn ty_clone(t: MTy, s: Sl<i64>) -> (r: MTy) requires is_tensor(t@) ensures r@ == (if is_ranked(t@) { TyV::Ranked(s@, t@->Ranked_1, t@->Ranked_2) } else { TyV::Ranked(s@, t@->Unranked_0, 0) }) { unimplemented!() }
#[verifier::external_body] pub fn dim_dynamic(d: i64) -> (r: bool) ensures r == (d == i64::MIN) { unimplemented!() }
#[verifier::external_body] pub fn ty_ctx(t: MTy) -> (r: MCtx) requires t@ != TyV::Null { unimplemented!() }
pub open spec fn tys(s: Seq<MTy>) -> Seq<TyV> { Seq::new(s.len(), |k: int| s[k]@) }
#[verifier::external_body] pub fn fn_inputs(t: MTy) -> (r: Sl<MTy>) requires t@ is Fun ensures tys(r@) == t@->Fun_0 { unimplemented!() }
#[verifier::external_body] pub fn fn_results(t: MTy) -> (r: Sl<MTy>) requires t@ is Fun ensures tys(r@) == t@->Fun_1 { unimplemented!() }
#[verifier::external_body] pub fn fn_get(c: MCtx, i: Sl<MTy>, o: Sl<MTy>) -> (r: MTy) ensures r@ == TyV::Fun(tys(i@), tys(o@)) { unimplemented!() }
#[verifier::external_body] pub fn attr_of(t: MTy) -> (r: MTy) requires t@ != TyV::Null ensures r@ == t@ { unimplemented!() }
// the function the pass runs on: its type, the types of its entry block arguments, and all the rest (name, attributes, body)
pub struct Ir { pub ty: Ghost<TyV>, pub args: Ghost<Seq<TyV>>, pub rest: Ghost<int> }
#[verifier::external_body] pub fn the_func() -> (r: MFunc) { unimplemented!() }
#[verifier::external_body] pub fn func_type(f: MFunc, ir: &Ir) -> (r: MTy) ensures r@ == ir.ty@ { unimplemented!() }
#[verifier::external_body] pub fn func_set_type(f: MFunc, t: MTy, ir: &mut Ir) requires t@ is Fun ensures final(ir).ty@ == t@, final(ir).args == old(ir).args, final(ir).rest == old(ir).rest { unimplemented!() }
#[verifier::external_body] pub fn func_args(f: MFunc, ir: &Ir) -> (r: Sl<MArg>) ensures r@.len() == ir.args@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).g@ == k { unimplemented!() }
#[verifier::external_body] pub fn arg_type(a: MArg, ir: &Ir) -> (r: MTy) requires 0 <= a.g@ < ir.args@.len() ensures r@ == ir.args@[a.g@] { unimplemented!() }
#[verifier::external_body] pub fn arg_set_type(a: MArg, t: MTy, ir: &mut Ir) requires 0 <= a.g@ < old(ir).args@.len(), t@ != TyV::Null ensures final(ir).args@ == old(ir).args@.update(a.g@, t@), final(ir).ty == old(ir).ty, final(ir).rest == old(ir).rest { unimplemented!() }
