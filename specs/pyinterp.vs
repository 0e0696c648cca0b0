## the interpreter object (tflite/python/interpreter.py)
@@extern interpreter_wrapper_lite.LiteInterpreter => lite_interpreter
@@extern super.__init__ => base_init
@@prelude
// the wrapper in C++ with its five constructor arguments, in its order
#[verifier::external_body] pub fn lite_interpreter(h: &mut Heap, model: V, threads: V, reference: V, indirect: V, xnnpack: V) -> (r: V)
    requires !(model@ is Unset), !(threads@ is Unset), !(reference@ is Unset), !(indirect@ is Unset), !(xnnpack@ is Unset),
    ensures r@ == PV::Ref(Id::Obj(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, f: old(h)@.f.insert((rid(r@), Fld::model), model@).insert((rid(r@), Fld::threads), threads@).insert((rid(r@), Fld::reference), reference@).insert((rid(r@), Fld::indirect), indirect@).insert((rid(r@), Fld::xnnpack), xnnpack@), ..old(h)@ }) { unimplemented!() }
// InterpreterBase.__init__ (proved in pypredict.vs)
#[verifier::external_body] pub fn base_init(h: &mut Heap, s: V, interpreter: V) -> (r: V) requires is_obj(s@), !(interpreter@ is Unset)
    ensures final(h)@ == (Hs { f: old(h)@.f.insert((rid(s@), Fld::interpreter), interpreter@), ..old(h)@ }) { unimplemented!() }
@@fn Interpreter.__init__ as interpreter_init
@requires
    is_obj(r_self@), rid(r_self@) is Obj, rid(r_self@)->Obj_0 < old(h)@.next,
    !(flatbuffer_model@ is Unset), !(num_threads@ is Unset), !(use_reference_bconv@ is Unset), !(use_indirect_bgemm@ is Unset), !(use_xnnpack@ is Unset),
@ensures
    final(h)@.runs == old(h)@.runs, ({ let w = final(h)@.f[(rid(r_self@), Fld::interpreter)];
        is_obj(w) && final(h)@.f[(rid(w), Fld::model)] == flatbuffer_model@ && final(h)@.f[(rid(w), Fld::threads)] == num_threads@ && final(h)@.f[(rid(w), Fld::reference)] == use_reference_bconv@
        && final(h)@.f[(rid(w), Fld::indirect)] == use_indirect_bgemm@ && final(h)@.f[(rid(w), Fld::xnnpack)] == use_xnnpack@ }),
