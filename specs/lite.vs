## the constructor of the interpreter wrapper (interpreter_wrapper_lite.cc)
@@value std::basic_string<char> => Str
@@value TfLiteRegistration * => Reg
@@include register.vs contracts of register
@@value pybind11::bytes => Str
@@value std::allocator<char> => Str
@@value std::unique_ptr<tflite::FlatBufferModel> => Mdl
@@value tflite::FlatBufferModel => Mdl
@@value std::unique_ptr<tflite::ops::builtin::BuiltinOpResolver> => Rsv
@@value std::unique_ptr<tflite::ops::builtin::BuiltinOpResolverWithoutDefaultDelegates> => Rsv
@@value tflite::ops::builtin::BuiltinOpResolver => Rsv
@@value tflite::ops::builtin::BuiltinOpResolver * => Rsv
@@value tflite::MutableOpResolver * => Rsv
@@value std::unique_ptr<tflite::Interpreter> => Itp
@@value tflite::Interpreter => Itp
@@value tflite::Interpreter * => Itp
@@value tflite::InterpreterBuilder => Bld
@@value std::basic_stringstream<char> => Str
@@value std::basic_ostream<char> => Str
@@ctor std::allocator<char>/0 => str_any()
@@ctor std::basic_stringstream<char>/0 => str_any()
@@ctor std::basic_string<char>/2 => str_of_bytes(%s, %s)
@@ctor tflite::InterpreterBuilder/2 => builder_new(%s, %s)
@@extern std::basic_string<char>::data/0 => str_data
@@extern std::basic_string<char>::size/0 => str_size
@@extern std::basic_ostream<char>::operator<</2 => log_text
@@extern std::operator<</2 => log_text
@@extern std::unique_ptr<tflite::FlatBufferModel>::operator bool/0 => model_set
@@extern std::unique_ptr<tflite::FlatBufferModel>::operator*/1 => model_get
@@extern tflite::FlatBufferModel::BuildFromBuffer/2 => build_from_buffer+aw
@@extern std::make_unique<tflite::ops::builtin::BuiltinOpResolver,<>>/0 => resolver_full
@@extern std::make_unique<tflite::ops::builtin::BuiltinOpResolverWithoutDefaultDelegates,<>>/0 => resolver_plain
@@extern std::unique_ptr<tflite::ops::builtin::BuiltinOpResolver>::get/0 => resolver_ptr
@@extern std::unique_ptr<tflite::ops::builtin::BuiltinOpResolver>::operator*/1 => resolver_get
@@extern compute_engine::tflite::RegisterLCECustomOps/3 => register_ops+ir
@@extern tflite::InterpreterBuilder::operator()/3 => build+ir,aw
@@extern std::operator!=<tflite::Interpreter,std::default_delete<tflite::Interpreter>>/2 => itp_set
@@extern std::unique_ptr<tflite::Interpreter>::operator->/1 => itp_get
@@extern tflite::Interpreter::AllocateTensors/0 => allocate+aw
@@assume pybind11 and TensorFlow Lite: a std::string made of a bytes object holds its bytes; BuildFromBuffer takes the buffer it is given; an interpreter is built from the model, the resolver as it stands and the number of threads, or not at all; AllocateTensors says whether it succeeded
@@assume an exception ends the constructor at once (the text of its message is dropped by the extraction)
@@prelude
pub struct Str { pub g: Ghost<Seq<i8>> }
impl Clone for Str { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Str {}
pub struct Mdl { pub g: Ghost<Option<Seq<i8>>> }
impl Clone for Mdl { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Mdl {}
// what an interpreter was built from: the model, whether default delegates are applied, what the custom operators stand for, the threads
pub struct ItpV { pub model: Seq<i8>, pub delegates: bool, pub ops: Map<u64, (K, i32)>, pub threads: i32 }
pub struct Itp { pub g: Ghost<Option<ItpV>> }
impl Clone for Itp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Itp {}
pub struct Bld { pub m: Ghost<Option<Seq<i8>>>, pub r: Ghost<int> }
impl Clone for Bld { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Bld {}
// failed: TensorFlow Lite has refused the model, or to build the interpreter, or to allocate its tensors; allocated: they are allocated
pub struct Aw { pub failed: Ghost<bool>, pub allocated: Ghost<bool> }
// the fields of the object
pub struct Lw { pub flatbuffer_: Str, pub model_: Mdl, pub resolver_: Rsv, pub interpreter_: Itp }
pub uninterp spec fn delegates(r: int) -> bool;
#[verifier::external_body] pub fn never() ensures false { unimplemented!() }
#[verifier::external_body] pub fn str_any() -> (r: Str) { unimplemented!() }
#[verifier::external_body] pub fn str_of_bytes(b: Str, a: Str) -> (r: Str) ensures r == b { unimplemented!() }
#[verifier::external_body] pub fn str_data(s: Str) -> (r: CPtr<i8>) ensures r.s@ == s.g@, r.o@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn str_size(s: Str) -> (r: u64) ensures r == s.g@.len() { unimplemented!() }
#[verifier::external_body] pub fn build_from_buffer(p: CPtr<i8>, n: u64, aw: &mut Aw) -> (r: Mdl) requires 0 <= p.o@, p.o@ + n <= p.s@.len()
    ensures r.g@ == Some(p.s@.subrange(p.o@, p.o@ + n)) && *final(aw) == *old(aw) || r.g@ is None && final(aw).failed@, p.o@ == 0 && n == p.s@.len() && r.g@ is Some ==> r.g@ == Some(p.s@) { unimplemented!() }
#[verifier::external_body] pub fn model_set(m: Mdl) -> (r: bool) ensures r == m.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn model_get(m: Mdl) -> (r: Mdl) requires m.g@ is Some ensures r == m { unimplemented!() }
#[verifier::external_body] pub fn resolver_full() -> (r: Rsv) ensures delegates(r.g@) { unimplemented!() }
#[verifier::external_body] pub fn resolver_plain() -> (r: Rsv) ensures !delegates(r.g@) { unimplemented!() }
#[verifier::external_body] pub fn resolver_ptr(s: Rsv) -> (r: Rsv) ensures r == s { unimplemented!() }
#[verifier::external_body] pub fn resolver_get(s: Rsv) -> (r: Rsv) ensures r == s { unimplemented!() }
#[verifier::external_body] pub fn builder_new(m: Mdl, s: Rsv) -> (r: Bld) requires m.g@ is Some ensures r.m@ == m.g@, r.r@ == s.g@ { unimplemented!() }
#[verifier::external_body] pub fn build(b: Bld, p: &mut Itp, threads: i32, ir: &Ir, aw: &mut Aw) -> (r: u32)
    ensures final(p).g@ is None && final(aw).failed@ || *final(aw) == *old(aw) && ({ let v = final(p).g@->0; final(p).g@ is Some && Some(v.model) == b.m@ && v.delegates == delegates(b.r@) && v.threads == threads
        && (forall|n: u64| #[trigger] v.ops.contains_key(n) <==> ir@.contains_key((b.r@, n))) && forall|n: u64| #[trigger] v.ops[n] == ir@[(b.r@, n)] }) { unimplemented!() }
#[verifier::external_body] pub fn itp_set(p: Itp, n: ()) -> (r: bool) ensures r == p.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn itp_get(p: Itp) -> (r: Itp) requires p.g@ is Some ensures r == p { unimplemented!() }
#[verifier::external_body] pub fn allocate(p: Itp, aw: &mut Aw) -> (r: u32) requires p.g@ is Some ensures r == 0 ==> final(aw).allocated@ && final(aw).failed@ == old(aw).failed@, r != 0 ==> final(aw).failed@ { unimplemented!() }
@@fn LiteInterpreterWrapper::LiteInterpreterWrapper/5 as lite_init
@nothis
@ghost this: &mut Lw
@ghost ir: &mut Ir
@ghost aw: &mut Aw
@throw aw.failed@
@requires
    !old(aw).failed@, !old(aw).allocated@,
@ensures
    !final(aw).failed@, final(aw).allocated@, final(this).interpreter_.g@ is Some,
    ({ let v = final(this).interpreter_.g@->0; v.model == flatbuffer.g@ && v.delegates == use_xnnpack && v.threads == num_threads
        && v.ops.contains_key(315923348u64) && v.ops[315923348u64].0 == K::Quantize && v.ops.contains_key(2818191871u64) && v.ops[2818191871u64].0 == K::Dequantize
        && v.ops.contains_key(2995989438u64) && v.ops[2995989438u64].0 == K::BMaxPool
        && v.ops.contains_key(4032102460u64) && v.ops[4032102460u64].0 == (if use_reference_bconv { K::BconvRef } else if use_indirect_bgemm { K::BconvIndirect } else { K::Bconv }) }),
