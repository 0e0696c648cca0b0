## the conversion calls (mlir/python/converter.py)
@@const tf.float32 => PV::Str(-1)
@@const tf.int8 => PV::Str(-2)
@@const tf.saved_model.SERVING => PV::Str(-3)
@@const tf.saved_model.DEFAULT_SERVING_SIGNATURE_DEF_KEY => PV::Str(-4)
@@const tf.dtypes.resource => tf_resource()
@@extern tf.executing_eagerly => tf_eager
@@extern warnings.warn => py_warn
@@extern str => py_str
@@extern loader_impl.parse_saved_model_with_debug_info => parse_saved
@@extern convert_saved_model_to_tflite_flatbuffer => run_saved
@@extern convert_graphdef_to_tflite_flatbuffer => run_graph
@@extern modify_integer_quantized_model_io_type/1(inference_input_type,inference_output_type) => modify_io
@@extern isinstance:tf.keras.Model => is_keras
@@extern isinstance:def_function.Function => is_tffunction
@@extern hasattr:dtype_policy => has_policy
@@extern saving_utils.model_input_signature[keep_original_batch_size=True] => model_signature
@@extern saving_utils.trace_model_call => trace_call
@@extern .get_concrete_function/0 => concrete_of
@@extern convert_variables_to_constants_v2[lower_control_flow=False] => freeze
@@extern .as_graph_def/0 => graph_def_of
@@extern .SerializeToString/0 => serialize
@@extern .as_list/0 => shape_list_of
@@extern .set_shape/1 => tensor_set_shape
@@extern get_tensor_name => tensor_name
@@extern DataType.Name => dtype_name
@@extern with:tempfile.TemporaryDirectory => tempdir
@@extern .save/1[save_format='tf'] => model_save
@@prelude
// ---- TensorFlow and Keras, as values of what they are given
pub open spec fn tf_resource() -> PV { PV::Ref(Id::Obj(-5)) }
pub uninterp spec fn eager() -> bool;
pub uninterp spec fn text_of(v: PV) -> PV;
pub uninterp spec fn saved_pb(dir: PV) -> PV;
pub uninterp spec fn io_changed(b: PV, ti: PV, to: PV) -> PV;
pub uninterp spec fn keras(m: PV) -> bool;
pub uninterp spec fn tffunction(f: PV) -> bool;
pub uninterp spec fn policy(m: PV) -> bool;
pub uninterp spec fn signature(m: PV) -> PV;
pub uninterp spec fn traced(m: PV, s: PV) -> PV;
pub uninterp spec fn concrete(f: PV) -> PV;
pub uninterp spec fn frozen(f: PV) -> PV;
pub uninterp spec fn gdef(g: PV) -> PV;
pub uninterp spec fn bytes_of(g: PV) -> PV;
pub uninterp spec fn tname(t: PV) -> PV;
pub uninterp spec fn dname(e: PV) -> PV;
#[verifier::external_body] pub fn tf_eager(h: &Heap) -> (r: V) ensures r@ == PV::Bool(eager()) { unimplemented!() }
#[verifier::external_body] pub fn py_warn(h: &Heap, m: V) -> (r: V) { unimplemented!() }
#[verifier::external_body] pub fn py_str(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == text_of(v@), !(r@ is Unset) { unimplemented!() }
#[verifier::external_body] pub fn is_keras(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(keras(v@)) { unimplemented!() }
#[verifier::external_body] pub fn is_tffunction(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(tffunction(v@)) { unimplemented!() }
#[verifier::external_body] pub fn has_policy(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(policy(v@)) { unimplemented!() }
#[verifier::external_body] pub fn model_signature(h: &Heap, m: V) -> (r: V) requires is_obj(m@) ensures r@ == signature(m@), !(r@ is Unset) { unimplemented!() }
#[verifier::external_body] pub fn trace_call(h: &Heap, m: V, s: V) -> (r: V) requires is_obj(m@), !(s@ is Unset) ensures r@ == traced(m@, s@), is_obj(r@) { unimplemented!() }
#[verifier::external_body] pub fn concrete_of(h: &Heap, f: V) -> (r: V) requires is_obj(f@) ensures r@ == concrete(f@), is_obj(r@) { unimplemented!() }
#[verifier::external_body] pub fn freeze(h: &Heap, f: V) -> (r: V) requires is_obj(f@) ensures r@ == frozen(f@) { unimplemented!() }
#[verifier::external_body] pub fn graph_def_of(h: &Heap, g: V) -> (r: V) requires is_obj(g@) ensures r@ == gdef(g@) { unimplemented!() }
#[verifier::external_body] pub fn serialize(h: &Heap, g: V) -> (r: V) requires is_obj(g@) ensures r@ == bytes_of(g@), !(r@ is Unset) { unimplemented!() }
#[verifier::external_body] pub fn tensor_name(h: &Heap, t: V) -> (r: V) requires is_obj(t@) ensures r@ == tname(t@), !(r@ is Unset) { unimplemented!() }
#[verifier::external_body] pub fn dtype_name(h: &Heap, e: V) -> (r: V) requires !(e@ is Unset) ensures r@ == dname(e@), !(r@ is Unset) { unimplemented!() }
// the shape of a tensor: an object whose elements are its dimensions
pub open spec fn shape_of(h: Hs, t: PV) -> PV { h.f[(rid(t), Fld::shape)] }
pub open spec fn dims(h: Hs, t: PV) -> Seq<PV> { h.l[rid(shape_of(h, t))] }
pub open spec fn fits(a: Seq<PV>, b: Seq<PV>) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> a[j] is None || a[j] == #[trigger] b[j] }
pub open spec fn no_none(a: Seq<PV>) -> bool { forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]) is Int || a[j] is None }
#[verifier::external_body] pub fn shape_list_of(h: &mut Heap, s: V) -> (r: V) requires is_obj(s@)
    ensures r@ == PV::Ref(Id::L(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(Id::L(old(h)@.next), old(h)@.l[rid(s@)]), ..old(h)@ }) { unimplemented!() }
// set_shape keeps the dimensions known before: here every new one agrees with those, so the shape becomes the new one
#[verifier::external_body] pub fn tensor_set_shape(h: &mut Heap, t: V, s: V) -> (r: V) requires is_obj(t@), is_list(s@), fits(dims(old(h)@, t@), elts(old(h)@, s)), forall|j: int| 0 <= j < elts(old(h)@, s).len() ==> (#[trigger] elts(old(h)@, s)[j] is None ==> dims(old(h)@, t@)[j] is None)
    ensures final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(Id::Obj(old(h)@.next), elts(old(h)@, s)), f: old(h)@.f.insert((rid(t@), Fld::shape), PV::Ref(Id::Obj(old(h)@.next))), ..old(h)@ }) { unimplemented!() }
// the two conversions in C++ and what is asked of the outside: 0 saves a model, 1 converts a saved model, 2 converts a graph, 3 removes a directory
#[verifier::external_body] pub fn tempdir(h: &mut Heap) -> (r: V) ensures r@ == PV::Ref(Id::Obj(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn tempdir_exit(h: &mut Heap, d: V) ensures final(h)@ == (Hs { calls: old(h)@.calls.push(removed(d@)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn model_save(h: &mut Heap, m: V, d: V) -> (r: V) requires is_obj(m@), is_obj(d@) ensures final(h)@ == (Hs { calls: old(h)@.calls.push(saved(m@, d@)), ..old(h)@ }), !(r@ is Unset) { unimplemented!() }
pub open spec fn removed(d: PV) -> Call { Call { kind: 3, args: seq![d], lists: seq![], shapes: seq![], r: PV::None } }
pub open spec fn saved(m: PV, d: PV) -> Call { Call { kind: 0, args: seq![m, d], lists: seq![], shapes: seq![], r: PV::None } }
pub open spec fn is_range(h: Hs, r: PV) -> bool { r is None || is_l(h, r) }
pub open spec fn is_l(h: Hs, v: PV) -> bool { match v { PV::Ref(Id::L(n)) => n < h.next, _ => false } }
#[verifier::external_body] pub fn run_saved(h: &mut Heap, dir: V, tags: V, names: V, ver: V, target: V, range: V) -> (r: V)
    requires !(dir@ is Unset), is_list(tags@), is_list(names@), ver@ is Int, !(target@ is Unset), is_range(old(h)@, range@),
    ensures final(h)@ == (Hs { calls: old(h)@.calls.push(Call { kind: 1, args: seq![dir@, ver@, target@, range@], lists: seq![elts(old(h)@, tags), elts(old(h)@, names)], shapes: seq![], r: r@ }), ..old(h)@ }), r@ is Bytes { unimplemented!() }
#[verifier::external_body] pub fn run_graph(h: &mut Heap, g: V, ins: V, types: V, shapes: V, outs: V, quant: V, target: V, range: V) -> (r: V)
    requires !(g@ is Unset), is_list(ins@), is_list(types@), is_list(shapes@), is_list(outs@), forall|j: int| 0 <= j < elts(old(h)@, shapes).len() ==> is_list(#[trigger] elts(old(h)@, shapes)[j]), quant@ is Bool, !(target@ is Unset), is_range(old(h)@, range@),
    ensures final(h)@ == (Hs { calls: old(h)@.calls.push(Call { kind: 2, args: seq![g@, quant@, target@, range@], lists: seq![elts(old(h)@, ins), elts(old(h)@, types), elts(old(h)@, outs)], shapes: lists_of(old(h)@, elts(old(h)@, shapes)), r: r@ }), ..old(h)@ }), r@ is Bytes { unimplemented!() }
pub open spec fn lists_of(h: Hs, s: Seq<PV>) -> Seq<Seq<PV>> { Seq::new(s.len(), |j: int| els(h, s[j])) }
// modify_integer_quantized_model_io_type (proved in iotypes.vs): it works on bytes and gives bytes
#[verifier::external_body] pub fn modify_io(h: &mut Heap, b: V, ti: V, to: V) -> (r: V) requires b@ is Bytes, simple(ti@), simple(to@) ensures final(h)@ == old(h)@, r@ == io_changed(b@, ti@, to@), r@ is Bytes { unimplemented!() }
#[verifier::external_body] pub fn parse_saved(h: &mut Heap, dir: V) -> (r: V) requires !(dir@ is Unset)
    ensures r@ == PV::Ref(Id::L(old(h)@.next)), elts(final(h)@, r).len() == 2, elts(final(h)@, r)[0] == saved_pb(dir@), !(elts(final(h)@, r)[1] is Unset), final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(rid(r@), elts(final(h)@, r)), ..old(h)@ }) { unimplemented!() }

pub open spec fn same_but_new(h: Hs, g: Hs) -> bool {
    g.f == h.f && g.a == h.a && g.d == h.d && g.k == h.k && g.runs == h.runs && g.next >= h.next
    && (forall|x: Id| !(x is L && x->L_0 >= h.next) ==> #[trigger] g.l[x] == h.l[x]) && (forall|x: Id| !(x is S && x->S_0 >= h.next) ==> #[trigger] g.s[x] == h.s[x])
}
// ---- which requests are refused
pub open spec fn f32_() -> PV { PV::Str(-1) }
pub open spec fn i8_() -> PV { PV::Str(-2) }
pub open spec fn bad_request(ti: PV, to: PV, target: PV) -> bool { !(ti == f32_() || ti == i8_()) || !(to == f32_() || to == i8_()) || !(target == lit_arm_s() || target == lit_xcore_s()) || !eager() }
pub open spec fn request_ok(h: Hs, ti: PV, to: PV, target: PV, range: PV) -> bool { simple(ti) && simple(to) && simple(target) && is_range(h, range) }
pub open spec fn bad_version(v: PV) -> bool { v != PV::Int(1) && v != PV::Int(2) }
pub open spec fn version_of(h: Hs, dir: PV) -> PV { h.f[(rid(saved_pb(dir)), Fld::saved_model_schema_version)] }
pub open spec fn dir_ok(h: Hs, dir: PV) -> bool { is_obj(saved_pb(dir)) && version_of(h, dir) is Int }
// the model with its inputs and outputs of the types wanted
pub open spec fn finished(b: PV, ti: PV, to: PV) -> PV { if ti != f32_() || to != f32_() { io_changed(b, ti, to) } else { b } }
pub open spec fn saved_call(h: Hs, dir: PV, target: PV, range: PV, b: PV) -> Call { Call { kind: 1, args: seq![text_of(dir), version_of(h, text_of(dir)), target, range], lists: seq![seq![PV::Str(-3)], seq![PV::Str(-4)]], shapes: seq![], r: b } }
// ---- quantization in a graph
pub open spec fn training_op(op: PV) -> bool {
    op == lit_FakeQuantWithMinMaxVars_s() || op == lit_FakeQuantWithMinMaxVarsPerChannel_s() || op == lit_FakeQuantWithMinMaxArgs_s() || op == lit_FakeQuantWithMinMaxArgsPerChannel_s() || op == lit_QuantizeAndDequantizeV2_s() || op == lit_QuantizeAndDequantizeV3_s()
}
pub open spec fn nodes(h: Hs, l: PV) -> bool { is_l(h, l) && forall|j: int| 0 <= j < els(h, l).len() ==> is_obj(#[trigger] els(h, l)[j]) && simple(h.f[(rid(els(h, l)[j]), Fld::op)]) }
pub open spec fn quant_at(h: Hs, l: PV, j: int) -> bool { training_op(h.f[(rid(els(h, l)[j]), Fld::op)]) }
pub open spec fn quant_in(h: Hs, l: PV, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] quant_at(h, l, j) }
pub open spec fn quant_list(h: Hs, l: PV) -> bool { quant_in(h, l, els(h, l).len() as int) }
pub open spec fn g_nodes(h: Hs, g: PV) -> PV { h.f[(rid(g), Fld::node)] }
pub open spec fn g_funs(h: Hs, g: PV) -> PV { h.f[(rid(h.f[(rid(g), Fld::library)]), Fld::function)] }
pub open spec fn fun_nodes(h: Hs, g: PV, j: int) -> PV { h.f[(rid(els(h, g_funs(h, g))[j]), Fld::node_def)] }
pub open spec fn graph_ok(h: Hs, g: PV) -> bool {
    is_obj(g) && nodes(h, g_nodes(h, g)) && is_obj(h.f[(rid(g), Fld::library)]) && is_l(h, g_funs(h, g))
    && forall|j: int| 0 <= j < els(h, g_funs(h, g)).len() ==> is_obj(#[trigger] els(h, g_funs(h, g))[j]) && nodes(h, fun_nodes(h, g, j))
}
pub open spec fn quant_fun(h: Hs, g: PV, j: int) -> bool { quant_list(h, fun_nodes(h, g, j)) }
pub open spec fn quant_graph(h: Hs, g: PV) -> bool { quant_list(h, g_nodes(h, g)) || exists|j: int| 0 <= j < els(h, g_funs(h, g)).len() && #[trigger] quant_fun(h, g, j) }
pub proof fn lem_two() ensures forall|a: PV, b: PV, x: PV| #[trigger] Seq::<PV>::empty().push(a).push(b).contains(x) == (x == a || x == b) {
    assert forall|a: PV, b: PV, x: PV| #[trigger] Seq::<PV>::empty().push(a).push(b).contains(x) == (x == a || x == b) by { let s = Seq::<PV>::empty().push(a).push(b); assert(s[0] == a); assert(s[1] == b); }
}
@@fn concrete_function_from_keras_model as concrete_function
@requires
    is_obj(model@), !(old(h)@.f[(rid(model@), Fld::call)] is Unset),
@ensures
    final(h)@ == old(h)@, r@ == function_of(old(h)@, model@), is_obj(r@),
@@prelude
// the function of a model: traced with the signature its inputs declare (batch size included), or, if its call is a tf.function already, as it is
pub open spec fn function_of(h: Hs, m: PV) -> PV { concrete(traced(m, if tffunction(h.f[(rid(m), Fld::call)]) { PV::None } else { signature(m) })) }
@@fn _contains_training_quant_op as contains_quant
@requires
    graph_ok(old(h)@, graph_def@),
@ensures
    r@ == PV::Bool(quant_graph(old(h)@, graph_def@)), same_but_new(old(h)@, final(h)@), final(h)@.calls == old(h)@.calls, final(h)@.tries == old(h)@.tries,
@start
    let ghost h0 = h@;
@loop 1 inv
    same_but_new(h0, h@), h@.calls == h0.calls, h@.tries == h0.tries, k1 <= els(h0, g_nodes(h0, graph_def@)).len(), it1@ == g_nodes(h0, graph_def@),
    forall|j: int| 0 <= j < k1 ==> !#[trigger] quant_at(h0, g_nodes(h0, graph_def@), j), is_set(training_quant_ops@),
    forall|x: PV| #[trigger] h@.s[rid(training_quant_ops@)].contains(x) <==> training_op(x),
@loop 1 first
    proof { assert(is_obj(els(h0, g_nodes(h0, graph_def@))[k1 as int])); assert(quant_at(h0, g_nodes(h0, graph_def@), k1 as int) == training_op(h0.f[(rid(els(h0, g_nodes(h0, graph_def@))[k1 as int]), Fld::op)])); }
@loop 2 inv
    same_but_new(h0, h@), h@.calls == h0.calls, h@.tries == h0.tries, k2 <= els(h0, g_funs(h0, graph_def@)).len(), it2@ == g_funs(h0, graph_def@), !quant_list(h0, g_nodes(h0, graph_def@)),
    forall|j: int| 0 <= j < k2 ==> !#[trigger] quant_fun(h0, graph_def@, j), is_set(training_quant_ops@),
    forall|x: PV| #[trigger] h@.s[rid(training_quant_ops@)].contains(x) <==> training_op(x),
@loop 2 first
    proof { assert(is_obj(els(h0, g_funs(h0, graph_def@))[k2 as int])); }
@loop 2.1 inv
    same_but_new(h0, h@), h@.calls == h0.calls, h@.tries == h0.tries, k2_1 <= els(h0, fun_nodes(h0, graph_def@, k2 as int)).len(), it2_1@ == fun_nodes(h0, graph_def@, k2 as int), is_set(training_quant_ops@),
    forall|j: int| 0 <= j < k2_1 ==> !#[trigger] quant_at(h0, fun_nodes(h0, graph_def@, k2 as int), j),
    forall|x: PV| #[trigger] h@.s[rid(training_quant_ops@)].contains(x) <==> training_op(x),
@loop 2.1 first
    proof { let nd = els(h0, fun_nodes(h0, graph_def@, k2 as int))[k2_1 as int]; assert(is_obj(nd)); assert(quant_at(h0, fun_nodes(h0, graph_def@, k2 as int), k2_1 as int) == training_op(h0.f[(rid(nd), Fld::op)])); if training_op(h0.f[(rid(nd), Fld::op)]) { assert(quant_fun(h0, graph_def@, k2 as int)); } }
@@fn _validate_options as validate_options
@requires
    request_ok(old(h)@, inference_input_type@, inference_output_type@, target@, experimental_default_int8_range@),
@throw bad_request(inference_input_type@, inference_output_type@, target@)
@ensures
    !bad_request(inference_input_type@, inference_output_type@, target@), same_but_new(old(h)@, final(h)@), final(h)@.calls == old(h)@.calls, final(h)@.tries == old(h)@.tries,
@start
    let ghost h0 = h@;
    proof { lem_two(); }
@@fn convert_saved_model as convert_saved
@requires
    request_ok(old(h)@, inference_input_type@, inference_output_type@, target@, experimental_default_int8_range@), !(saved_model_dir@ is Unset), dir_ok(old(h)@, text_of(saved_model_dir@)),
@throw bad_request(inference_input_type@, inference_output_type@, target@) || bad_version(version_of(old(h)@, text_of(saved_model_dir@)))
@raise h@.calls == old(h)@.calls
@ensures
    !throw_convert_saved(old(h)@, saved_model_dir, inference_input_type, inference_output_type, target, experimental_default_int8_range),
    same_but_new(old(h)@, final(h)@), final(h)@.tries == old(h)@.tries,
    ({ let b = final(h)@.calls.last().r; final(h)@.calls == old(h)@.calls.push(saved_call(old(h)@, saved_model_dir@, target@, experimental_default_int8_range@, b)) && r@ == finished(b, inference_input_type@, inference_output_type@) }), r@ is Bytes,
@start
    let ghost h0 = h@;
    proof { lem_two(); }
@@prelude
// ---- the frozen function of a Keras model, as the graph conversion is given it
pub open spec fn is_o(h: Hs, v: PV) -> bool { match v { PV::Ref(Id::Obj(n)) => n < h.next, _ => false } }
pub open spec fn dtype_of(h: Hs, t: PV) -> PV { h.f[(rid(t), Fld::dtype)] }
pub open spec fn enum_of(h: Hs, t: PV) -> PV { h.f[(rid(dtype_of(h, t)), Fld::as_datatype_enum)] }
pub open spec fn tensor_ok(h: Hs, t: PV) -> bool { is_o(h, t) && is_o(h, dtype_of(h, t)) && !(enum_of(h, t) is Unset) && is_o(h, shape_of(h, t)) && no_none(dims(h, t)) }
pub open spec fn fins(h: Hs, z: PV) -> Seq<PV> { els(h, h.f[(rid(z), Fld::inputs)]) }
pub open spec fn fouts(h: Hs, z: PV) -> Seq<PV> { els(h, h.f[(rid(z), Fld::outputs)]) }
pub open spec fn fgraph(h: Hs, z: PV) -> PV { gdef(h.f[(rid(z), Fld::graph)]) }
pub open spec fn frozen_ok(h: Hs, z: PV) -> bool {
    is_o(h, z) && is_l(h, h.f[(rid(z), Fld::inputs)]) && is_l(h, h.f[(rid(z), Fld::outputs)]) && is_o(h, h.f[(rid(z), Fld::graph)])
    && (forall|j: int| 0 <= j < fins(h, z).len() ==> tensor_ok(h, #[trigger] fins(h, z)[j])) && (forall|j: int| 0 <= j < fouts(h, z).len() ==> is_o(h, #[trigger] fouts(h, z)[j]))
    && old_graph(h, fgraph(h, z))
}
// all of a graph was there before
pub open spec fn old_nodes(h: Hs, l: PV) -> bool { nodes(h, l) && forall|j: int| 0 <= j < els(h, l).len() ==> is_o(h, #[trigger] els(h, l)[j]) }
pub open spec fn old_graph(h: Hs, g: PV) -> bool {
    graph_ok(h, g) && is_o(h, g) && old_nodes(h, g_nodes(h, g)) && is_o(h, h.f[(rid(g), Fld::library)])
    && forall|j: int| 0 <= j < els(h, g_funs(h, g)).len() ==> is_o(h, #[trigger] els(h, g_funs(h, g))[j]) && old_nodes(h, fun_nodes(h, g, j))
}
// its inputs, but for resources, in their order
pub open spec fn data_inputs(h: Hs, s: Seq<PV>, n: int) -> Seq<PV> decreases n { if n <= 0 { Seq::empty() } else if dtype_of(h, s[n - 1]) != tf_resource() { data_inputs(h, s, n - 1).push(s[n - 1]) } else { data_inputs(h, s, n - 1) } }
pub open spec fn din(h: Hs, z: PV) -> Seq<PV> { data_inputs(h, fins(h, z), fins(h, z).len() as int) }
// a dimension other than the first is not known
pub open spec fn open_dim(h: Hs, t: PV) -> bool { exists|j: int| 1 <= j < dims(h, t).len() && (#[trigger] dims(h, t)[j]) is None }
pub open spec fn open_input(h: Hs, z: PV) -> bool { exists|j: int| 0 <= j < din(h, z).len() && open_dim(h, #[trigger] din(h, z)[j]) }
// a batch of unknown size is a batch of one
pub open spec fn closed(d: Seq<PV>) -> Seq<PV> { if d.len() > 0 && d[0] is None { d.update(0, PV::Int(1)) } else { d } }
pub open spec fn names_of(s: Seq<PV>) -> Seq<PV> { Seq::new(s.len(), |j: int| tname(s[j])) }
pub open spec fn types_of(h: Hs, s: Seq<PV>) -> Seq<PV> { Seq::new(s.len(), |j: int| dname(enum_of(h, s[j]))) }
pub open spec fn shapes_of(h: Hs, s: Seq<PV>) -> Seq<Seq<PV>> { Seq::new(s.len(), |j: int| closed(dims(h, s[j]))) }
pub open spec fn quantize(h: Hs, z: PV, range: PV) -> bool { quant_graph(h, fgraph(h, z)) || !(range is None) }
pub open spec fn graph_call(h: Hs, z: PV, target: PV, range: PV, b: PV) -> Call {
    Call { kind: 2, args: seq![bytes_of(fgraph(h, z)), PV::Bool(quantize(h, z, range)), target, range], lists: seq![names_of(din(h, z)), types_of(h, din(h, z)), names_of(fouts(h, z))], shapes: shapes_of(h, din(h, z)), r: b }
}
pub open spec fn zof(h: Hs, m: PV) -> PV { frozen(function_of(h, m)) }
pub open spec fn policy_name(h: Hs, m: PV) -> PV { h.f[(rid(h.f[(rid(m), Fld::dtype_policy)]), Fld::name)] }
pub open spec fn bad_model(h: Hs, m: PV) -> bool { !keras(m) || (policy(m) && policy_name(h, m) != lit_float32_s()) }
pub open spec fn dirs_ok(h: Hs) -> bool { forall|d: PV| is_obj(saved_pb(#[trigger] text_of(d))) && version_of(h, text_of(d)) is Int }
// what was there before is as it was, but for shapes of tensors
pub open spec fn keep(h: Hs, g: Hs) -> bool {
    g.next >= h.next && (forall|x: Id| !(x is L && x->L_0 >= h.next) && !(x is Obj && x->Obj_0 >= h.next) ==> #[trigger] g.l[x] == h.l[x])
    && (forall|x: (Id, Fld)| !(x.0 is Obj && x.0->Obj_0 >= h.next) && x.1 != Fld::shape ==> #[trigger] g.f[x] == h.f[x])
}
pub open spec fn keeps(h: Hs, g: Hs) -> bool { forall|x: Id| !(x is Obj && x->Obj_0 >= h.next) ==> #[trigger] g.f[(x, Fld::shape)] == h.f[(x, Fld::shape)] }
pub proof fn lem_data(h: Hs, s: Seq<PV>, n: int) requires 0 <= n <= s.len() ensures data_inputs(h, s, n).len() <= n, forall|j: int| 0 <= j < data_inputs(h, s, n).len() ==> s.contains(#[trigger] data_inputs(h, s, n)[j]) decreases n {
    if n > 0 { lem_data(h, s, n - 1); assert(s.contains(s[n - 1])); }
}
pub proof fn lem_graph(h: Hs, g: Hs, v: PV) requires old_graph(h, v), keep(h, g) ensures graph_ok(g, v), quant_graph(g, v) == quant_graph(h, v) {
    assert(g_nodes(g, v) == g_nodes(h, v)); assert(g_funs(g, v) == g_funs(h, v));
    lem_nodes(h, g, g_nodes(h, v));
    assert forall|j: int| 0 <= j < els(g, g_funs(g, v)).len() implies is_obj(#[trigger] els(g, g_funs(g, v))[j]) && nodes(g, fun_nodes(g, v, j)) by { assert(els(h, g_funs(h, v))[j] == els(g, g_funs(g, v))[j]); lem_nodes(h, g, fun_nodes(h, v, j)); }
    assert forall|j: int| 0 <= j < els(g, g_funs(g, v)).len() implies #[trigger] quant_fun(g, v, j) == quant_fun(h, v, j) by { assert(els(h, g_funs(h, v))[j] == els(g, g_funs(g, v))[j]); lem_nodes(h, g, fun_nodes(h, v, j)); }
    if quant_graph(h, v) && !quant_list(h, g_nodes(h, v)) { let j = choose|j: int| 0 <= j < els(h, g_funs(h, v)).len() && #[trigger] quant_fun(h, v, j); assert(quant_fun(g, v, j)); }
}
pub proof fn lem_nodes(h: Hs, g: Hs, l: PV) requires old_nodes(h, l), keep(h, g) ensures nodes(g, l), quant_list(g, l) == quant_list(h, l) {
    assert(els(g, l) == els(h, l));
    assert forall|j: int| 0 <= j < els(h, l).len() implies #[trigger] quant_at(g, l, j) == quant_at(h, l, j) by { assert(is_o(h, els(h, l)[j])); }
    assert forall|j: int| 0 <= j < els(g, l).len() implies is_obj(#[trigger] els(g, l)[j]) && simple(g.f[(rid(els(g, l)[j]), Fld::op)]) by { assert(is_o(h, els(h, l)[j])); }
    if quant_list(h, l) { let j = choose|j: int| 0 <= j < els(h, l).len() && #[trigger] quant_at(h, l, j); assert(quant_at(g, l, j)); }
    if quant_list(g, l) { let j = choose|j: int| 0 <= j < els(g, l).len() && #[trigger] quant_at(g, l, j); assert(quant_at(h, l, j)); }
}
// the shape of input t while unknown batch sizes are filled in
pub open spec fn filled(h: Hs, g: Hs, t: PV, done: bool) -> bool { is_o(g, shape_of(g, t)) && (dims(g, t) == closed(dims(h, t)) || (!done && dims(g, t) == dims(h, t))) }
// nothing but new lists
pub open spec fn keepn(h: Hs, g: Hs) -> bool { g.f == h.f && g.next >= h.next && forall|x: Id| !(x is L && x->L_0 >= h.next) ==> #[trigger] g.l[x] == h.l[x] }
pub open spec fn shape_made(h0: Hs, h: Hs, c: PV, s: Seq<PV>, j: int) -> bool { match els(h, c)[j] { PV::Ref(Id::L(m)) => rid(c)->L_0 < m < h.next && h.l[Id::L(m)] == closed(dims(h0, s[j])), _ => false } }
@@fn convert_keras_model as convert_keras
@requires
    is_obj(model@), !(old(h)@.f[(rid(model@), Fld::call)] is Unset), policy(model@) ==> is_obj(old(h)@.f[(rid(model@), Fld::dtype_policy)]) && simple(policy_name(old(h)@, model@)), is_o(old(h)@, model@),
    request_ok(old(h)@, inference_input_type@, inference_output_type@, target@, experimental_default_int8_range@), dirs_ok(old(h)@), frozen_ok(old(h)@, zof(old(h)@, model@)),
@throw bad_model(old(h)@, model@) || bad_request(inference_input_type@, inference_output_type@, target@) || open_input(old(h)@, zof(old(h)@, model@))
@raise (h@.calls == old(h)@.calls && (bad_model(old(h)@, model__0@) || bad_request(inference_input_type__0@, inference_output_type__0@, target__0@))) || (h@.tries == old(h)@.tries.push(false) && open_input(old(h)@, zof(old(h)@, model__0@)))
@ensures
    !bad_model(old(h)@, model@), !bad_request(inference_input_type@, inference_output_type@, target@),
    ({ let n = old(h)@.calls.len() as int; let d = final(h)@.calls[n].args[1]; let b = final(h)@.calls[n + 1].r;
       final(h)@.tries == old(h)@.tries.push(true) && final(h)@.calls == old(h)@.calls.push(saved(model@, d)).push(saved_call(old(h)@, d, target@, experimental_default_int8_range@, b)).push(removed(d)) && r@ == finished(b, inference_input_type@, inference_output_type@) })
    || ({ let z = zof(old(h)@, model@); let b = final(h)@.calls.last().r;
       final(h)@.tries == old(h)@.tries.push(false) && !open_input(old(h)@, z) && final(h)@.calls.len() > 0 && final(h)@.calls.last() == graph_call(old(h)@, z, target@, experimental_default_int8_range@, b)
       && r@ == (if quantize(old(h)@, z, experimental_default_int8_range@) { finished(b, inference_input_type@, inference_output_type@) } else { b }) }),
@start
    let ghost h0 = h@; let ghost z = zof(h0, model@); let ghost K = din(h0, z); let ghost n0 = h0.calls.len() as int;
    proof {
        lem_data(h0, fins(h0, z), fins(h0, z).len() as int);
        assert forall|j: int| 0 <= j < K.len() implies tensor_ok(h0, #[trigger] K[j]) by { let i = choose|i: int| 0 <= i < fins(h0, z).len() && fins(h0, z)[i] == K[j]; assert(tensor_ok(h0, fins(h0, z)[i])); }
    }
@call convert_saved before
    let ghost hs = h@;
@call contains_quant before
    proof { lem_graph(h0, h@, fgraph(h0, z)); }
@loop 1 inv
    keep(h0, h@), keeps(h0, h@), h@.tries == h0.tries.push(false), it1@ == h0.f[(rid(z), Fld::inputs)], frozen_ok(h0, z), k1 <= fins(h0, z).len(),
    c1@ is Ref, rid(c1@) is L, h0.next <= rid(c1@)->L_0 < h@.next, els(h@, c1@) == data_inputs(h0, fins(h0, z), k1 as int),
@loop 1 first
    proof { assert(tensor_ok(h0, fins(h0, z)[k1 as int])); }
@loop 2 inv
    keep(h0, h@), h@.tries == h0.tries.push(false), it2 == input_tensors, is_l(h@, it2@), rid(it2@)->L_0 >= h0.next, elts(h@, it2) == K, K == din(h0, z), k2 <= K.len(),
    forall|j: int| 0 <= j < K.len() ==> tensor_ok(h0, #[trigger] K[j]) && filled(h0, h@, K[j], j < k2),
    forall|j: int| 0 <= j < k2 ==> !open_dim(h0, #[trigger] K[j]),
@loop 2 begin
    let ghost g2 = h@; let ghost t2 = K[k2 as int]; let ghost d2 = dims(h0, t2);
    proof { assert(filled(h0, g2, t2, false)); assert(tensor_ok(h0, t2)); assert(dims(g2, t2).len() == d2.len());
        if open_dim(h0, t2) { let j = choose|j: int| 1 <= j < d2.len() && (#[trigger] d2[j]) is None; assert(dims(g2, t2)[j] is None); assert(dims(g2, t2).skip(1)[j - 1] == PV::None); assert(dims(g2, t2).skip(1).contains(PV::None)); } }
@loop 2 end
    proof {
        assert forall|j: int| 0 <= j < K.len() implies tensor_ok(h0, #[trigger] K[j]) && filled(h0, h@, K[j], j < k2 + 1) by { assert(filled(h0, g2, K[j], j < k2)); assert(tensor_ok(h0, K[j])); }
    }
@loop 2 after
    let ghost g3 = h@;
@loop 3 inv
    keep(h0, h@), h@.tries == g3.tries, keepn(g3, h@), it3 == input_tensors, k3 <= K.len(), is_l(h@, c3@), rid(c3@)->L_0 >= g3.next,
    els(h@, c3@).len() == k3, forall|j: int| 0 <= j < k3 ==> #[trigger] els(h@, c3@)[j] == tname(K[j]),
@loop 3 first
    proof { assert(tensor_ok(h0, K[k3 as int])); }
@loop 3 after
    let ghost g4 = h@;
    proof { assert(els(g4, c3@) =~= names_of(K)); }
@loop 4 inv
    keep(h0, h@), h@.tries == g3.tries, keepn(g4, h@), keepn(g3, h@), it4 == input_tensors, k4 <= K.len(), is_l(h@, c4@), rid(c4@)->L_0 >= g4.next,
    els(h@, c4@).len() == k4, forall|j: int| 0 <= j < k4 ==> #[trigger] els(h@, c4@)[j] == dname(enum_of(h0, K[j])),
@loop 4 first
    proof { assert(tensor_ok(h0, K[k4 as int])); }
@loop 4 after
    let ghost g5 = h@;
    proof { assert(els(g5, c4@) =~= types_of(h0, K)); }
@loop 5 inv
    keep(h0, h@), h@.tries == g3.tries, keepn(g5, h@), keepn(g4, h@), keepn(g3, h@), it5 == input_tensors, k5 <= K.len(), is_l(h@, c5@), rid(c5@)->L_0 >= g5.next,
    els(h@, c5@).len() == k5, forall|j: int| 0 <= j < k5 ==> #[trigger] shape_made(h0, h@, c5@, K, j),
@loop 5 begin
    let ghost gb = h@;
@loop 5 first
    proof { let t = K[k5 as int]; assert(tensor_ok(h0, t)); assert(filled(h0, g3, t, true)); assert(shape_of(h@, t) == shape_of(g3, t)); }
@loop 5 end
    proof { assert forall|j: int| 0 <= j < k5 + 1 implies #[trigger] shape_made(h0, h@, c5@, K, j) by { if j < k5 { assert(shape_made(h0, gb, c5@, K, j)); } } }
@loop 5 after
    let ghost g6 = h@;
@loop 6 inv
    keep(h0, h@), h@.tries == g3.tries, keepn(g6, h@), keepn(g5, h@), keepn(g4, h@), keepn(g3, h@), it6 == output_tensors, k6 <= fouts(h0, z).len(), is_l(h@, c6@), rid(c6@)->L_0 >= g6.next,
    els(h@, c6@).len() == k6, forall|j: int| 0 <= j < k6 ==> #[trigger] els(h@, c6@)[j] == tname(fouts(h0, z)[j]),
@loop 6 first
    proof { assert(is_o(h0, fouts(h0, z)[k6 as int])); }
@loop 6 after
    proof {
        assert(els(h@, c6@) =~= names_of(fouts(h0, z)));
        assert forall|j: int| 0 <= j < K.len() implies is_list(#[trigger] els(h@, c5@)[j]) && els(h@, els(h@, c5@)[j]) == closed(dims(h0, K[j])) by { assert(shape_made(h0, g6, c5@, K, j)); }
        assert(lists_of(h@, els(h@, c5@)) =~= shapes_of(h0, K));
    }
