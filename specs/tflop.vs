@@include common.vs
@@include shape.vs
@@record TfLiteContext => Ctx
@@record TfLiteNode => Node
@@record TfLiteTensor => Tensor
@@record TfLiteIntArray => IntArr
@@extern tflite::NumInputs/1 => tf_num_inputs
@@extern tflite::NumOutputs/1 => tf_num_outputs
@@extern tflite::GetInput/3 => tf_get_input
@@extern tflite::GetOutput/3 => tf_get_output
@@extern tflite::NumDimensions/1 => tf_num_dims
@@extern tflite::SizeOfDimension/2 => tf_size_of_dim
@@extern TfLiteIntArrayCopy/1 => tf_intarray_copy
@@extern TfLiteIntArrayCreate/1 => tf_intarray_create
@@extern tflite::GetTemporary/3 => tf_get_temporary
@@extern TfLiteIntArrayFree/1 => tf_intarray_free
@@extern TfLiteContext::AddTensors/3 => tf_add_tensors -0
@@extern TfLiteContext::ResizeTensor/3 => tf_resize_tensor -0
@@extern tflite::GetTensorShape/1 => tf_tensor_shape
@@extern tflite::GetTensorData/1 => tf_get_data<>
@@assume TFLite runtime model: GetInput/GetOutput return the tensor the node lists (a node's tensors are distinct objects); ResizeTensor either fails or gives the tensor the requested dimensions; dimensions are non-negative and element counts below 2^28; a tensor's buffer holds exactly its elements in the representation of its type; a bool is stored as the byte 0 or 1; between preparation and evaluation the runtime changes no type, shape or parameter
@@prelude
pub struct IntArr { pub size: i32, pub data: Mem<i32> }
pub struct QParams { pub scale: F32, pub zero_point: i32 }
pub struct TQuant { pub type_v: u32 }
// id: which tensor of the context; mem: names the contents of its buffer
pub struct Tensor { pub id: Ghost<int>, pub mem: Ghost<int>, pub type_v: u32, pub dims: IntArr, pub params: QParams, pub allocation_type: u32, pub quantization: TQuant }
// req: the dimensions last asked for in a resize of each tensor; n: number of tensors (an absent optional tensor is number -1, with no elements)
pub struct Ctx { pub t: Ghost<Map<int, Tensor>>, pub req: Ghost<Map<int, Seq<i32>>>, pub n: Ghost<int> }
pub struct Node { pub inputs: IntArr, pub outputs: IntArr, pub temporaries: IntArr }
pub open spec fn ia_ok(a: IntArr) -> bool { a.size >= 0 && a.data@.len() == a.size }
pub open spec fn tdims(t: Tensor) -> Seq<i32> { t.dims.data@ }
pub spec const BIG: int = 0x10000000;
// what the runtime guarantees of every tensor
pub open spec fn tensor_ok(t: Tensor) -> bool {
    ia_ok(t.dims) && t.dims.size <= 8 && (forall|k: int| 0 <= k < tdims(t).len() ==> 0 <= #[trigger] tdims(t)[k] < BIG) && (forall|k: int| 0 <= k <= tdims(t).len() ==> 0 <= #[trigger] prod(tdims(t), k) < BIG)
}
pub open spec fn io_ok(c: Ctx, a: IntArr) -> bool { ia_ok(a) && forall|k: int| 0 <= k < a.size ==> tensor_ok(#[trigger] c.t@[a.data@[k] as int]) && c.t@[a.data@[k] as int].id@ == a.data@[k] && -1 <= a.data@[k] < c.n@ }
pub open spec fn node_ok(c: Ctx, n: Node) -> bool { io_ok(c, n.inputs) && io_ok(c, n.outputs) && ia_ok(n.temporaries) && forall|i: int, j: int| 0 <= i < n.inputs.size && 0 <= j < n.outputs.size ==> #[trigger] n.inputs.data@[i] != #[trigger] n.outputs.data@[j] }
pub open spec fn in_t(c: Ctx, n: Node, i: int) -> Tensor { c.t@[n.inputs.data@[i] as int] }
pub open spec fn out_t(c: Ctx, n: Node, i: int) -> Tensor { c.t@[n.outputs.data@[i] as int] }
#[verifier::external_body] pub fn tf_num_inputs(n: &Node) -> (r: i32) ensures r == n.inputs.size { unimplemented!() }
#[verifier::external_body] pub fn tf_num_outputs(n: &Node) -> (r: i32) ensures r == n.outputs.size { unimplemented!() }
#[verifier::external_body] pub fn tf_get_input(c: &Ctx, n: &Node, i: i32) -> (r: Tensor) requires 0 <= i < n.inputs.size ensures r == in_t(*c, *n, i as int) { unimplemented!() }
#[verifier::external_body] pub fn tf_get_output(c: &Ctx, n: &Node, i: i32) -> (r: Tensor) requires 0 <= i < n.outputs.size ensures r == out_t(*c, *n, i as int) { unimplemented!() }
// a null tensor pointer: TensorFlow Lite's accessors give it an empty shape and null data
#[verifier::external_body] pub fn null_tensor() -> (r: Tensor) ensures ia_ok(r.dims), tdims(r).len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn tf_num_dims(t: &Tensor) -> (r: i32) ensures r == t.dims.size { unimplemented!() }
#[verifier::external_body] pub fn tf_size_of_dim(t: &Tensor, i: i32) -> (r: i32) requires 0 <= i < t.dims.size ensures r == tdims(*t)[i as int] { unimplemented!() }
#[verifier::external_body] pub fn tf_intarray_copy(a: &IntArr) -> (r: IntArr) ensures r.size == a.size, r.data@ == a.data@ { unimplemented!() }
#[verifier::external_body] pub fn tf_intarray_create(n: i32) -> (r: IntArr) requires n >= 0 ensures r.size == n, r.data@.len() == n { unimplemented!() }
#[verifier::external_body] pub fn tf_intarray_free(a: &mut IntArr) { unimplemented!() }
#[verifier::external_body] pub fn tf_get_temporary(c: &Ctx, n: &Node, i: i32) -> (r: Tensor) requires 0 <= i < n.temporaries.size ensures r == c.t@[n.temporaries.data@[i as int] as int] { unimplemented!() }
// new tensors get new numbers
#[verifier::external_body] pub fn tf_add_tensors(c: &mut Ctx, k: i32, first: &mut i32) -> (r: u32) requires k == 1
    ensures r == 0, *final(first) == old(c).n@, final(c).n@ == old(c).n@ + 1, 0 <= old(c).n@ < 0x7fff_ffff, final(c).req@ == old(c).req@,
        exists|t: Tensor| t.id@ == old(c).n@ && tensor_ok(t) && final(c).t@ == #[trigger] old(c).t@.insert(old(c).n@, t) { unimplemented!() }
// whether the runtime can give a tensor these dimensions (it may run out of memory)
pub uninterp spec fn can_resize(id: int, d: Seq<i32>) -> bool;
pub uninterp spec fn fresh_mem(c: Ctx, id: int) -> int;
pub open spec fn resized(t: Tensor, d: IntArr, m: int) -> Tensor { Tensor { dims: d, mem: Ghost(m), ..t } }
#[verifier::external_body] pub fn tf_resize_tensor(c: &mut Ctx, t: &mut Tensor, d: &mut IntArr) -> (r: u32)
    requires ia_ok(*old(d)),
    ensures r <= 1, (r == 0) == can_resize(old(t).id@, old(d).data@), final(c).req@ == old(c).req@.insert(old(t).id@, old(d).data@), final(c).n@ == old(c).n@,
        r == 0 ==> final(c).t@ == old(c).t@.insert(old(t).id@, resized(*old(t), *old(d), fresh_mem(*old(c), old(t).id@))) && *final(t) == resized(*old(t), *old(d), fresh_mem(*old(c), old(t).id@)),
        r != 0 ==> final(c).t@ == old(c).t@ && *final(t) == *old(t), *final(d) == *old(d) { unimplemented!() }
#[verifier::external_body] pub fn tf_tensor_shape(t: &Tensor) -> (r: Shape) requires ia_ok(t.dims) ensures r@ == tdims(*t) { unimplemented!() }
// the contents of a buffer read as elements of type T, and which tensor types have elements stored as T
pub uninterp spec fn contents<T>(mem: int) -> Seq<T>;
pub uninterp spec fn stored_as<T>(ty: u32) -> bool;
pub axiom fn ax_stored() ensures stored_as::<F32>(1), stored_as::<i32>(2), stored_as::<i8>(9), stored_as::<bool>(6), stored_as::<u8>(6);
pub axiom fn ax_contents(t: Tensor)
    ensures stored_as::<F32>(t.type_v) ==> contents::<F32>(t.mem@).len() == prod(tdims(t), tdims(t).len() as int), stored_as::<i32>(t.type_v) ==> contents::<i32>(t.mem@).len() == prod(tdims(t), tdims(t).len() as int),
        stored_as::<i8>(t.type_v) ==> contents::<i8>(t.mem@).len() == prod(tdims(t), tdims(t).len() as int), stored_as::<bool>(t.type_v) ==> contents::<bool>(t.mem@).len() == prod(tdims(t), tdims(t).len() as int),
        t.type_v == 6 ==> contents::<u8>(t.mem@).len() == prod(tdims(t), tdims(t).len() as int) && forall|k: int| 0 <= k < contents::<u8>(t.mem@).len() ==> #[trigger] contents::<u8>(t.mem@)[k] == (if contents::<bool>(t.mem@)[k] { 1u8 } else { 0u8 });
#[verifier::external_body] pub fn tf_get_data<T>(t: &Tensor) -> (r: CPtr<T>) ensures r.s@ == contents::<T>(t.mem@), r.o@ == 0 { unimplemented!() }
pub open spec fn tcount(t: Tensor) -> int { prod(tdims(t), tdims(t).len() as int) }
pub proof fn lemma_prod_prefix(a: Seq<i32>, b: Seq<i32>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k]
    ensures prod(a, n) == prod(b, n)
    decreases n
{ if n > 0 { lemma_prod_prefix(a, b, n - 1); } }
