## the Python interpreter wrapper: what goes into and comes out of a model
@@need eq F32 bool
@@value pybind11::dtype => Dt
@@value pybind11::object => Obj
@@value pybind11::handle => Obj
@@value pybind11::none => Obj
@@value pybind11::detail::object_api<pybind11::handle> => Dt
@@value pybind11::detail::accessor<pybind11::detail::accessor_policies::list_item> => Obj
@@value pybind11::list => Lst
@@value pybind11::tuple => Tup
@@value pybind11::array => Arr
@@value pybind11::detail::any_container<long> => Sl<i32>
@@value std::vector<int> => Sl<i32>
@@value TfLiteTensor * => Tz
@@value TfLiteAffineQuantization * => Aq
@@value std::_Rb_tree_iterator<std::pair<const int, TfLiteTensor *>> => It
@@ctor std::vector<int>/3 => sl_range(%s, %s)
@@ctor pybind11::detail::any_container<long>/1 => %s
@@ctor pybind11::handle/0 => py_null()
@@ctor pybind11::handle/1:ptr => py_none()
@@ctor pybind11::handle/1:pybind11::handle => %s
@@ctor pybind11::list/1:i64 => lst_new(%s)
@@ctor pybind11::list/1:pybind11::list => %s
@@ctor pybind11::tuple/1:i32 => tup_new(%s)
@@ctor pybind11::array/4 => arr_new(%s, %s, %s, %s, ir)
@@extern std::vector<int>::size/0 => sl_len
@@extern std::vector<int>::operator[]/2 => sl_at
@@extern pybind11::dtype::of<float>/0 => dt_f32
@@extern pybind11::dtype::of<unsigned char>/0 => dt_u8
@@extern pybind11::dtype::of<signed char>/0 => dt_i8
@@extern pybind11::dtype::of<short>/0 => dt_i16
@@extern pybind11::dtype::of<int>/0 => dt_i32
@@extern pybind11::dtype::of<long>/0 => dt_i64
@@extern pybind11::dtype::of<bool>/0 => dt_bool
@@extern pybind11::dtype::of<char *>/0 => dt_str
@@extern pybind11::detail::object_api<pybind11::handle>::is/1 => dt_is
@@extern pybind11::list::size/0 => lst_len
@@extern pybind11::list::operator[]/2 => lst_at
@@extern pybind11::detail::accessor<pybind11::detail::accessor_policies::list_item>::operator object/0 => obj_same
@@extern pybind11::list::append<pybind11::dtype>/1 => lst_push_type byval &mut
@@extern pybind11::list::append<pybind11::tuple &>/1 => lst_push_tuple byval &mut
@@extern pybind11::list::append<pybind11::object>/1 => lst_push byval &mut
@@extern pybind11::list::append<pybind11::none>/1 => lst_push byval &mut
@@extern pybind11::list::append<pybind11::array &>/1 => lst_push_array byval &mut
@@extern pybind11::cast<const int &,0>/3 => py_int
@@extern pybind11::cast<const float &,0>/3 => py_float
@@extern pybind11::cast<std::vector<float> &,0>/3 => py_floats
@@extern pybind11::cast<pybind11::none,0>/1 => obj_same
@@extern pybind11::tuple::operator[]= => tup_set
@@extern pybind11::array::ensure/2 => arr_ensure
@@extern pybind11::array::dtype/0 => arr_dtype
@@extern pybind11::array::ndim/0 => arr_ndim
@@extern pybind11::array::shape/1 => arr_shape
@@extern pybind11::array::nbytes/0 => arr_nbytes
@@extern pybind11::array::data<<>>/0 => arr_data
@@extern pybind11::handle::operator bool/0 => arr_set
@@extern memcpy/3 => raw_copy+ir
@@extern TfLiteTensor.type => tz_type+ir
@@extern TfLiteTensor.dims => tz_dims+ir
@@extern TfLiteTensor.bytes => tz_bytes+ir
@@extern TfLiteTensor.data => tz_data
@@extern TfLiteTensor.params => tz_data
@@extern TfLiteTensor.quantization => tz_data
@@extern TfLitePtrUnion.raw => tz_data
@@extern TfLiteQuantizationParams.zero_point => tz_zero_point+ir
@@extern TfLiteQuantizationParams.scale => tz_scale+ir
@@extern TfLiteQuantization.type => tz_quant+ir
@@extern TfLiteQuantization.params => tz_affine
@@extern TfLiteAffineQuantization *.bool => aq_set+ir
@@extern TfLiteAffineQuantization.zero_point => aq_zero_point+ir
@@extern TfLiteAffineQuantization.scale => aq_scale+ir
@@extern TfLiteIntArray *.bool => ia_set
@@extern TfLiteIntArray.size => ia_size
@@extern TfLiteIntArray.data => ia_data
@@extern TfLiteFloatArray *.bool => ia_set
@@extern TfLiteFloatArray.size => ia_size
@@extern TfLiteFloatArray.data => ia_data
@@extern std::map<int, TfLiteTensor *>::find/1 => map_find+ir -this
@@extern std::map<int, TfLiteTensor *>::end/0 => map_end -this
@@extern std::map<int, TfLiteTensor *>::operator[]= => map_set!+ir
@@extern std::operator!=/2 => it_ne
@@extern std::_Rb_tree_iterator<std::pair<const int, TfLiteTensor *>>::operator->/1 => it_same
@@extern std::pair<const int, TfLiteTensor *>.second => it_second
@@extern std::unique_ptr<Interp>::operator bool/0 => ip_set+ir -this
@@extern Interp::inputs/0 => ip_inputs+ir -this
@@extern Interp::outputs/0 => ip_outputs+ir -this
@@extern Interp::tensor/1 => ip_tensor+ir -this
@@extern Interp::Invoke/0 => ip_invoke+ir -this
@@assume pybind11 and NumPy: ensure(x, c_style) is null when x cannot be made an array and otherwise an array with x's element type, shape and elements, stored row by row; dtype objects of the eight types are distinct and compared by identity; an array built without a base owner copies the elements; lists and tuples hold what is put into them
@@assume TensorFlow Lite: the interpreter's input tensors are distinct; a tensor holds as many bytes as its shape and type say; Invoke reads the tensors and leaves the lists of inputs and outputs alone; tensor pointers stay valid
@@assume an exception ends the function at once (the text of its message is dropped by the extraction)
@@prelude
pub struct Sl<T> { pub g: Ghost<Seq<T>> }
impl<T> Clone for Sl<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Sl<T> {}
impl<T> View for Sl<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }
#[verifier::external_body] pub fn sl_len<T>(s: Sl<T>) -> (r: u64) ensures r == s@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body] pub fn sl_at<T: Copy>(s: Sl<T>, i: u64) -> (r: T) requires i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn sl_range<T>(a: CPtr<T>, b: CPtr<T>) -> (r: Sl<T>) requires a.s == b.s, 0 <= a.o@ <= b.o@ <= a.s@.len() ensures r@ == a.s@.subrange(a.o@, b.o@), a.o@ == 0 && b.o@ == a.s@.len() ==> r@ == a.s@ { unimplemented!() }
#[verifier::external_body] pub fn never() ensures false { unimplemented!() }
// element types: 0 is any other than the eight
pub struct Dt { pub g: Ghost<int> }
impl Clone for Dt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Dt {}
#[verifier::external_body] pub fn dt_f32() -> (r: Dt) ensures r.g@ == 1 { unimplemented!() }
#[verifier::external_body] pub fn dt_u8() -> (r: Dt) ensures r.g@ == 2 { unimplemented!() }
#[verifier::external_body] pub fn dt_i8() -> (r: Dt) ensures r.g@ == 3 { unimplemented!() }
#[verifier::external_body] pub fn dt_i16() -> (r: Dt) ensures r.g@ == 4 { unimplemented!() }
#[verifier::external_body] pub fn dt_i32() -> (r: Dt) ensures r.g@ == 5 { unimplemented!() }
#[verifier::external_body] pub fn dt_i64() -> (r: Dt) ensures r.g@ == 6 { unimplemented!() }
#[verifier::external_body] pub fn dt_bool() -> (r: Dt) ensures r.g@ == 7 { unimplemented!() }
#[verifier::external_body] pub fn dt_str() -> (r: Dt) ensures r.g@ == 8 { unimplemented!() }
#[verifier::external_body] pub fn dt_is(a: Dt, b: Dt) -> (r: bool) ensures r == (a.g@ == b.g@) { unimplemented!() }
// the model's name of an element type (TfLiteType); 0 is kTfLiteNoType
pub open spec fn tfl(d: int) -> u32 { if d == 1 { 1 } else if d == 2 { 3 } else if d == 3 { 9 } else if d == 4 { 7 } else if d == 5 { 2 } else if d == 6 { 4 } else if d == 7 { 6 } else if d == 8 { 5 } else { 0 } }
pub open spec fn known(t: u32) -> bool { exists|d: int| 1 <= d <= 8 && #[trigger] tfl(d) == t }
// Python values
pub struct ArrV { pub ty: int, pub dims: Seq<int>, pub el: Seq<u8> }
pub enum PyV { Null, None, Int(i32), Flt(F32), Flts(Seq<F32>), Type(int), Tuple(Seq<i32>), Array(ArrV), Other(int) }
pub uninterp spec fn as_arr(o: PyV) -> Option<ArrV>;
pub struct Obj { pub g: Ghost<PyV> }
impl Clone for Obj { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Obj {}
pub struct Lst { pub g: Ghost<Seq<PyV>> }
impl Clone for Lst { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Lst {}
impl View for Lst { type V = Seq<PyV>; open spec fn view(&self) -> Seq<PyV> { self.g@ } }
pub struct Tup { pub g: Ghost<Seq<i32>> }
impl Clone for Tup { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Tup {}
impl View for Tup { type V = Seq<i32>; open spec fn view(&self) -> Seq<i32> { self.g@ } }
// rows: stored row by row, without gaps
pub struct ArrS { pub set: bool, pub rows: bool, pub v: ArrV }
pub struct Arr { pub g: Ghost<ArrS> }
impl Clone for Arr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Arr {}
impl View for Arr { type V = ArrS; open spec fn view(&self) -> ArrS { self.g@ } }
pub struct Dp { pub g: Ghost<Seq<u8>> }
#[verifier::external_body] pub fn py_null() -> (r: Obj) ensures r.g@ == PyV::Null { unimplemented!() }
#[verifier::external_body] pub fn py_none() -> (r: Obj) ensures r.g@ == PyV::None { unimplemented!() }
#[verifier::external_body] pub fn obj_same(o: Obj) -> (r: Obj) ensures r == o { unimplemented!() }
#[verifier::external_body] pub fn py_int(v: i32, policy: u8, parent: Obj) -> (r: Obj) ensures r.g@ == PyV::Int(v) { unimplemented!() }
#[verifier::external_body] pub fn py_float(v: F32, policy: u8, parent: Obj) -> (r: Obj) ensures r.g@ == PyV::Flt(v) { unimplemented!() }
#[verifier::external_body] pub fn py_floats(v: &Mem<F32>, policy: u8, parent: Obj) -> (r: Obj) ensures r.g@ == PyV::Flts(v@) { unimplemented!() }
#[verifier::external_body] pub fn lst_new(n: i64) -> (r: Lst) requires n == 0 ensures r@ == Seq::<PyV>::empty() { unimplemented!() }
#[verifier::external_body] pub fn lst_len(l: Lst) -> (r: u64) ensures r == l@.len() { unimplemented!() }
#[verifier::external_body] pub fn lst_at(l: Lst, i: u64) -> (r: Obj) requires i < l@.len() ensures r.g@ == l@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn lst_push(l: &mut Lst, o: Obj) ensures final(l)@ == old(l)@.push(o.g@) { unimplemented!() }
#[verifier::external_body] pub fn lst_push_type(l: &mut Lst, o: Dt) ensures final(l)@ == old(l)@.push(PyV::Type(o.g@)) { unimplemented!() }
#[verifier::external_body] pub fn lst_push_tuple(l: &mut Lst, o: Tup) ensures final(l)@ == old(l)@.push(PyV::Tuple(o@)) { unimplemented!() }
#[verifier::external_body] pub fn lst_push_array(l: &mut Lst, o: Arr) requires o@.set ensures final(l)@ == old(l)@.push(PyV::Array(o@.v)) { unimplemented!() }
#[verifier::external_body] pub fn tup_new(n: i32) -> (r: Tup) requires n >= 0 ensures r@.len() == n { unimplemented!() }
#[verifier::external_body] pub fn tup_set(t: &mut Tup, i: u64, v: i32) requires i < old(t)@.len() ensures final(t)@ == old(t)@.update(i as int, v) { unimplemented!() }
#[verifier::external_body] pub fn arr_set(a: Arr) -> (r: bool) ensures r == a@.set { unimplemented!() }
#[verifier::external_body] pub fn arr_ensure(o: Obj, flags: i32) -> (r: Arr) ensures r@.set == (as_arr(o.g@) is Some), r@.set ==> r@.v == as_arr(o.g@)->Some_0 && r@.v.dims.len() <= 64, flags == 1 && r@.set ==> r@.rows { unimplemented!() }
#[verifier::external_body] pub fn arr_dtype(a: Arr) -> (r: Dt) requires a@.set ensures r.g@ == a@.v.ty { unimplemented!() }
#[verifier::external_body] pub fn arr_ndim(a: Arr) -> (r: i64) requires a@.set ensures r == a@.v.dims.len() { unimplemented!() }
#[verifier::external_body] pub fn arr_shape(a: Arr, i: i64) -> (r: i64) requires a@.set, 0 <= i < a@.v.dims.len() ensures r == a@.v.dims[i as int] { unimplemented!() }
#[verifier::external_body] pub fn arr_nbytes(a: Arr) -> (r: i64) requires a@.set ensures r == a@.v.el.len() { unimplemented!() }
#[verifier::external_body] pub fn arr_data(a: Arr) -> (r: Dp) requires a@.set, a@.rows ensures r.g@ == a@.v.el { unimplemented!() }
// the interpreter: its tensors by number, the order of its inputs and outputs, the pointers handed out, the states it was run in
pub struct TV { pub ty: u32, pub dims: Seq<i32>, pub bytes: Seq<u8>, pub quant: u32, pub zp: i32, pub scale: F32, pub affine: Option<(Option<Seq<i32>>, Option<Seq<F32>>)> }
pub struct World { pub ready: bool, pub ins: Seq<i32>, pub outs: Seq<i32>, pub t: Map<int, TV>, pub cache: Map<int, int>, pub runs: Seq<Map<int, TV>>, pub failed: bool }
pub struct Ir { pub g: Ghost<World> }
impl View for Ir { type V = World; open spec fn view(&self) -> World { self.g@ } }
pub uninterp spec fn after(t: Map<int, TV>) -> Map<int, TV>;
pub open spec fn count(s: Seq<i32>) -> int decreases s.len() { if s.len() == 0 { 1 } else { s[0] * count(s.drop_first()) } }
pub uninterp spec fn item(d: int) -> int;
pub open spec fn tv_ok(t: TV) -> bool { t.dims.len() <= 0x7fff_ffff && t.bytes.len() <= 0x7fff_ffff_ffff_ffff
    && (t.affine is Some && t.affine->Some_0.0 is Some ==> t.affine->Some_0.0->Some_0.len() <= 0x7fff_ffff) && (t.affine is Some && t.affine->Some_0.1 is Some ==> t.affine->Some_0.1->Some_0.len() <= 0x7fff_ffff)
    && forall|d: int| 1 <= d <= 8 && #[trigger] tfl(d) == t.ty ==> t.bytes.len() == item(d) * count(t.dims) }
pub open spec fn listed(s: Seq<i32>, t: Map<int, TV>) -> bool { forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] && t.contains_key(s[k] as int) && tv_ok(t[s[k] as int]) }
pub open spec fn cached(w: World) -> bool { forall|i: int| #[trigger] w.cache.contains_key(i) ==> w.cache[i] == i }
pub open spec fn wf(w: World) -> bool { cached(w) && listed(w.ins, w.t) && listed(w.outs, w.t) && w.ins.no_duplicates() && w.ins.len() < 0x1000_0000 }
pub struct Tz { pub g: Ghost<int> }
impl Clone for Tz { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Tz {}
pub struct Aq { pub g: Ghost<int> }
impl Clone for Aq { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Aq {}
pub struct It { pub g: Ghost<Option<int>> }
impl Clone for It { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for It {}
pub struct Ia<T> { pub g: Ghost<Option<Seq<T>>> }
#[verifier::external_body] pub fn ia_set<T>(a: Ia<T>) -> (r: bool) ensures r == (a.g@ is Some) { unimplemented!() }
#[verifier::external_body] pub fn ia_size<T>(a: Ia<T>) -> (r: i32) requires a.g@ is Some, a.g@->Some_0.len() <= 0x7fff_ffff ensures r == a.g@->Some_0.len() { unimplemented!() }
#[verifier::external_body] pub fn ia_data<T>(a: Ia<T>) -> (r: CPtr<T>) requires a.g@ is Some ensures r.s@ == a.g@->Some_0, r.o@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn tz_data(t: Tz) -> (r: Tz) ensures r == t { unimplemented!() }
#[verifier::external_body] pub fn tz_type(t: Tz, ir: &Ir) -> (r: u32) requires ir@.t.contains_key(t.g@) ensures r == ir@.t[t.g@].ty { unimplemented!() }
#[verifier::external_body] pub fn tz_bytes(t: Tz, ir: &Ir) -> (r: u64) requires ir@.t.contains_key(t.g@), tv_ok(ir@.t[t.g@]) ensures r == ir@.t[t.g@].bytes.len() { unimplemented!() }
#[verifier::external_body] pub fn tz_dims(t: Tz, ir: &Ir) -> (r: Ia<i32>) requires ir@.t.contains_key(t.g@) ensures r.g@ == Some(ir@.t[t.g@].dims) { unimplemented!() }
#[verifier::external_body] pub fn tz_zero_point(t: Tz, ir: &Ir) -> (r: i32) requires ir@.t.contains_key(t.g@) ensures r == ir@.t[t.g@].zp { unimplemented!() }
#[verifier::external_body] pub fn tz_scale(t: Tz, ir: &Ir) -> (r: F32) requires ir@.t.contains_key(t.g@) ensures r == ir@.t[t.g@].scale { unimplemented!() }
#[verifier::external_body] pub fn tz_quant(t: Tz, ir: &Ir) -> (r: u32) requires ir@.t.contains_key(t.g@) ensures r == ir@.t[t.g@].quant { unimplemented!() }
#[verifier::external_body] pub fn tz_affine(t: Tz) -> (r: Aq) ensures r.g@ == t.g@ { unimplemented!() }
#[verifier::external_body] pub fn aq_set(a: Aq, ir: &Ir) -> (r: bool) requires ir@.t.contains_key(a.g@), ir@.t[a.g@].quant == 1 ensures r == (ir@.t[a.g@].affine is Some) { unimplemented!() }
#[verifier::external_body] pub fn aq_zero_point(a: Aq, ir: &Ir) -> (r: Ia<i32>) requires ir@.t.contains_key(a.g@), ir@.t[a.g@].quant == 1, ir@.t[a.g@].affine is Some ensures r.g@ == ir@.t[a.g@].affine->Some_0.0 { unimplemented!() }
#[verifier::external_body] pub fn aq_scale(a: Aq, ir: &Ir) -> (r: Ia<F32>) requires ir@.t.contains_key(a.g@), ir@.t[a.g@].quant == 1, ir@.t[a.g@].affine is Some ensures r.g@ == ir@.t[a.g@].affine->Some_0.1 { unimplemented!() }
#[verifier::external_body] pub fn raw_copy(d: Tz, s: Dp, n: u64, ir: &mut Ir) requires old(ir)@.t.contains_key(d.g@), n <= s.g@.len(), n <= old(ir)@.t[d.g@].bytes.len()
    ensures final(ir)@ == (World { t: old(ir)@.t.insert(d.g@, TV { bytes: s.g@.subrange(0, n as int) + old(ir)@.t[d.g@].bytes.subrange(n as int, old(ir)@.t[d.g@].bytes.len() as int), ..old(ir)@.t[d.g@] }), ..old(ir)@ }),
        n == s.g@.len() && n == old(ir)@.t[d.g@].bytes.len() ==> final(ir)@ == (World { t: old(ir)@.t.insert(d.g@, TV { bytes: s.g@, ..old(ir)@.t[d.g@] }), ..old(ir)@ }) { unimplemented!() }
#[verifier::external_body] pub fn map_find(k: i32, ir: &Ir) -> (r: It) ensures r.g@ == (if ir@.cache.contains_key(k as int) { Some(ir@.cache[k as int]) } else { Option::<int>::None }) { unimplemented!() }
#[verifier::external_body] pub fn map_end() -> (r: It) ensures r.g@ == Option::<int>::None { unimplemented!() }
#[verifier::external_body] pub fn map_set(k: i32, t: Tz, ir: &mut Ir) ensures final(ir)@ == (World { cache: old(ir)@.cache.insert(k as int, t.g@), ..old(ir)@ }) { unimplemented!() }
#[verifier::external_body] pub fn it_ne(a: It, b: It) -> (r: bool) requires b.g@ is None ensures r == (a.g@ is Some) { unimplemented!() }
#[verifier::external_body] pub fn it_same(a: It) -> (r: It) ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn it_second(a: It) -> (r: Tz) requires a.g@ is Some ensures r.g@ == a.g@->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn ip_set(ir: &Ir) -> (r: bool) ensures r == ir@.ready { unimplemented!() }
#[verifier::external_body] pub fn ip_inputs(ir: &Ir) -> (r: Sl<i32>) requires ir@.ready ensures r@ == ir@.ins { unimplemented!() }
#[verifier::external_body] pub fn ip_outputs(ir: &Ir) -> (r: Sl<i32>) requires ir@.ready ensures r@ == ir@.outs { unimplemented!() }
#[verifier::external_body] pub fn ip_tensor(k: u64, ir: &Ir) -> (r: Tz) requires ir@.ready, ir@.t.contains_key(k as int) ensures r.g@ == k { unimplemented!() }
#[verifier::external_body] pub fn ip_invoke(ir: &mut Ir) -> (r: u32) requires old(ir)@.ready
    ensures final(ir)@ == (World { t: after(old(ir)@.t), runs: old(ir)@.runs.push(old(ir)@.t), failed: r != 0, ..old(ir)@ }), listed(old(ir)@.ins, final(ir)@.t), listed(old(ir)@.outs, final(ir)@.t) { unimplemented!() }
#[verifier::external_body] pub fn arr_new(d: Dt, shape: Sl<i32>, p: Tz, base: Obj, ir: &Ir) -> (r: Arr) requires ir@.t.contains_key(p.g@), 1 <= d.g@ <= 8, item(d.g@) * count(shape@) <= ir@.t[p.g@].bytes.len(), base.g@ is Null
    ensures r@.set, r@.rows, r@.v.ty == d.g@, r@.v.dims == to_ints(shape@), r@.v.el == ir@.t[p.g@].bytes.subrange(0, item(d.g@) * count(shape@)) { unimplemented!() }
pub open spec fn to_ints(s: Seq<i32>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] as int) }
// an array fits a tensor
pub open spec fn fits(a: ArrV, t: TV) -> bool { tfl(a.ty) == t.ty && a.dims.len() == t.dims.len() && (forall|k: int| 0 <= k < t.dims.len() ==> #[trigger] t.dims[k] == a.dims[k]) && a.el.len() == t.bytes.len() }
pub open spec fn accepted(o: PyV, t: TV) -> bool { as_arr(o) is Some && fits(as_arr(o)->Some_0, t) }
// the interpreter but for its cache of tensor pointers
pub open spec fn same(a: World, b: World) -> bool { a == (World { cache: a.cache, ..b }) }
pub open spec fn filled(t: Map<int, TV>, before: Map<int, TV>, i: i32, o: PyV) -> bool { t[i as int] == (TV { bytes: as_arr(o)->Some_0.el, ..before[i as int] }) }
pub open spec fn as_type(t: TV) -> PyV { PyV::Type(dt(t.ty)) }
pub open spec fn dt(t: u32) -> int { choose|d: int| 1 <= d <= 8 && #[trigger] tfl(d) == t }
pub proof fn lemma_dt(d: int) requires 1 <= d <= 8 ensures dt(tfl(d)) == d { let t = tfl(d); assert(1 <= d <= 8 && tfl(d) == t); assert(1 <= dt(t) <= 8 && tfl(dt(t)) == t); }
pub open spec fn output(t: TV) -> PyV { PyV::Array(ArrV { ty: dt(t.ty), dims: to_ints(t.dims), el: t.bytes }) }
pub open spec fn zero_points_ok(t: TV) -> bool { t.quant == 1 ==> t.affine is Some && t.affine->Some_0.0 is Some && forall|k: int| 0 <= k < t.affine->Some_0.0->Some_0.len() ==> #[trigger] t.affine->Some_0.0->Some_0[k] == t.zp }
pub open spec fn zero_point(t: TV) -> PyV { if t.quant == 1 { PyV::Int(t.zp) } else { PyV::None } }
pub open spec fn scales_ok(t: TV) -> bool { t.quant == 1 ==> t.affine is Some && t.affine->Some_0.1 is Some && (t.affine->Some_0.1->Some_0.len() == 1 ==> seq_F32(t.affine->Some_0.1->Some_0[0], t.scale)) }
pub open spec fn scale_value(t: TV) -> PyV { if t.quant != 1 { PyV::None } else if t.affine->Some_0.1->Some_0.len() == 1 { PyV::Flt(t.scale) } else { PyV::Flts(t.affine->Some_0.1->Some_0) } }
// which inputs the model takes; what it is then run on
pub open spec fn all_accepted(l: Seq<PyV>, w: World) -> bool { l.len() == w.ins.len() && forall|k: int| 0 <= k < w.ins.len() ==> accepted(l[k], w.t[#[trigger] w.ins[k] as int]) }
pub open spec fn is_input(w: World, i: int) -> bool { exists|k: int| 0 <= k < w.ins.len() && #[trigger] w.ins[k] == i }
pub open spec fn fed(t: Map<int, TV>, w: World, l: Seq<PyV>, n: int) -> bool {
    t.dom() == w.t.dom() && (forall|k: int| 0 <= k < n ==> filled(t, w.t, #[trigger] w.ins[k], l[k]))
    && (forall|i: int| #[trigger] t.contains_key(i) && !(exists|k: int| 0 <= k < n && #[trigger] w.ins[k] == i) ==> t[i] == w.t[i]) }
pub proof fn lemma_feed(t: Map<int, TV>, w: World, l: Seq<PyV>, n: int)
    requires wf(w), 0 <= n < w.ins.len(), fed(t, w, l, n), l.len() == w.ins.len(), accepted(l[n], w.t[w.ins[n] as int]),
    ensures t.contains_key(w.ins[n] as int), t[w.ins[n] as int] == w.t[w.ins[n] as int],
        fed(t.insert(w.ins[n] as int, TV { bytes: as_arr(l[n])->Some_0.el, ..t[w.ins[n] as int] }), w, l, n + 1)
{
    let i = w.ins[n] as int; let t2 = t.insert(i, TV { bytes: as_arr(l[n])->Some_0.el, ..t[i] });
    assert(t.contains_key(i));
    assert(!(exists|k: int| 0 <= k < n && #[trigger] w.ins[k] == i));
    assert(t2.dom() =~= w.t.dom());
    assert forall|k: int| 0 <= k < n + 1 implies filled(t2, w.t, #[trigger] w.ins[k], l[k]) by { if k < n { assert(w.ins[k] != w.ins[n]); assert(filled(t, w.t, w.ins[k], l[k])); } }
    assert forall|j: int| #[trigger] t2.contains_key(j) && !(exists|k: int| 0 <= k < n + 1 && #[trigger] w.ins[k] == j) implies t2[j] == w.t[j] by { assert(w.ins[n] == i); if j != i { assert(t.contains_key(j)); } }
}
pub proof fn lemma_fed_ok(t: Map<int, TV>, w: World, l: Seq<PyV>, n: int, s: Seq<i32>)
    requires wf(w), 0 <= n <= w.ins.len(), fed(t, w, l, n), l.len() == w.ins.len(), forall|k: int| 0 <= k < n ==> accepted(l[k], w.t[#[trigger] w.ins[k] as int]), listed(s, w.t),
    ensures listed(s, t),
{
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] && t.contains_key(s[k] as int) && tv_ok(t[s[k] as int]) by {
        let i = s[k] as int; assert(w.t.contains_key(i));
        if exists|q: int| 0 <= q < n && #[trigger] w.ins[q] == i { let q = choose|q: int| 0 <= q < n && #[trigger] w.ins[q] == i; assert(filled(t, w.t, w.ins[q], l[q])); assert(accepted(l[q], w.t[w.ins[q] as int])); }
        else { assert(t[i] == w.t[i]); }
    }
}
@@fn TfLiteTypeFromPyType/1 as type_of_py
@ensures
    r == tfl(py_type.g@),
@@fn PyTypeFromTfLiteType/1 as py_of_type
@throw
    !known(type_v)
@ensures
    1 <= r.g@ <= 8 && tfl(r.g@) == type_v && r.g@ == dt(type_v),
@start
    proof { lemma_dt(1); lemma_dt(2); lemma_dt(3); lemma_dt(4); lemma_dt(5); lemma_dt(6); lemma_dt(7); lemma_dt(8); }
@@fn SetTensorFromNumpy/2 as set_tensor
@ghost ir: &mut Ir
@throw
    !fits(nparray@.v, old(ir)@.t[tensor.g@]) && *ir == *old(ir)
@requires
    old(ir)@.t.contains_key(tensor.g@), tv_ok(old(ir)@.t[tensor.g@]), nparray@.set, nparray@.rows, nparray@.v.dims.len() <= 64,
@ensures
    r, fits(nparray@.v, old(ir)@.t[tensor.g@]),
    final(ir)@ == (World { t: old(ir)@.t.insert(tensor.g@, TV { bytes: nparray@.v.el, ..old(ir)@.t[tensor.g@] }), ..old(ir)@ }),
@loop 0 dec
    ndim - j
@loop 0 inv
    0 <= j <= ndim, *ir == *old(ir), ndim == nparray@.v.dims.len(), ndim == ir@.t[tensor.g@].dims.len(), tfl(nparray@.v.ty) == ir@.t[tensor.g@].ty,
    forall|k: int| 0 <= k < j ==> #[trigger] ir@.t[tensor.g@].dims[k] == nparray@.v.dims[k],
@@fn InterpreterWrapperBase<Interp>::get_tensor/1 as tensor_at
@nothis
@ghost ir: &mut Ir
@requires
    cached(old(ir)@), old(ir)@.ready, old(ir)@.t.contains_key(index as int), index < 0x8000_0000,
@ensures
    r.g@ == index, same(final(ir)@, old(ir)@), cached(final(ir)@),
@@fn InterpreterWrapperBase<Interp>::get_types<std::vector<int>>/1 as types_of
@nothis
@ghost ir: &mut Ir
@throw
    false
@requires
    wf(old(ir)@), old(ir)@.ready, listed(tensors@, old(ir)@.t), tensors@.len() <= 0x7fff_ffff,
@ensures
    same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == tensors@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == as_type(old(ir)@.t[tensors@[k] as int]),
    forall|k: int| 0 <= k < tensors@.len() ==> known(old(ir)@.t[#[trigger] tensors@[k] as int].ty),
@loop 0 inv
    same(ir@, old(ir)@), wf(ir@), rr_0@ == tensors@, result@.len() == ri_0, forall|k: int| 0 <= k < ri_0 ==> #[trigger] result@[k] == as_type(old(ir)@.t[tensors@[k] as int]),
    forall|k: int| 0 <= k < ri_0 ==> known(old(ir)@.t[#[trigger] tensors@[k] as int].ty),
@@fn InterpreterWrapperBase<Interp>::get_shapes<std::vector<int>>/1 as shapes_of
@nothis
@ghost ir: &mut Ir
@requires
    wf(old(ir)@), old(ir)@.ready, listed(tensors@, old(ir)@.t), tensors@.len() <= 0x7fff_ffff,
@ensures
    same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == tensors@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == PyV::Tuple(old(ir)@.t[tensors@[k] as int].dims),
@loop 0 inv
    same(ir@, old(ir)@), wf(ir@), rr_0@ == tensors@, result@.len() == ri_0, forall|k: int| 0 <= k < ri_0 ==> #[trigger] result@[k] == PyV::Tuple(old(ir)@.t[tensors@[k] as int].dims),
@loop 0.0 dec
    ir@.t[tensor.g@].dims.len() - j
@loop 0.0 inv
    same(ir@, old(ir)@), wf(ir@), rr_0@ == tensors@, tensor.g@ == tensors@[ri_0 as int], 0 <= j <= ir@.t[tensor.g@].dims.len(), shape@.len() == ir@.t[tensor.g@].dims.len(), result@.len() == ri_0,
    forall|k: int| 0 <= k < j ==> #[trigger] shape@[k] == ir@.t[tensor.g@].dims[k],
@loop 0.0 after
    assert(shape@ =~= ir@.t[tensor.g@].dims);
@@fn InterpreterWrapperBase<Interp>::get_zero_points<std::vector<int>>/1 as zero_points_of
@nothis
@ghost ir: &mut Ir
@throw
    exists|k: int| 0 <= k < tensors@.len() && !zero_points_ok(old(ir)@.t[#[trigger] tensors@[k] as int])
@requires
    wf(old(ir)@), old(ir)@.ready, listed(tensors@, old(ir)@.t), tensors@.len() <= 0x7fff_ffff,
@ensures
    same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == tensors@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == zero_point(old(ir)@.t[tensors@[k] as int]),
    forall|k: int| 0 <= k < tensors@.len() ==> zero_points_ok(old(ir)@.t[#[trigger] tensors@[k] as int]),
@loop 0 inv
    same(ir@, old(ir)@), wf(ir@), rr_0@ == tensors@, result@.len() == ri_0, forall|k: int| 0 <= k < ri_0 ==> #[trigger] result@[k] == zero_point(old(ir)@.t[tensors@[k] as int]),
    forall|k: int| 0 <= k < ri_0 ==> zero_points_ok(old(ir)@.t[#[trigger] tensors@[k] as int]),
@loop 0 begin
    assert(same(ir@, old(ir)@)); let ghost id0 = tensors@[ri_0 as int];
@loop 0.0 dec
    ir@.t[id0 as int].affine->Some_0.0->Some_0.len() - i
@loop 0.0 inv
    same(ir@, old(ir)@), ir@.t[id0 as int].quant == 1, affine_quantization.g@ == id0, legacy_zero_point == ir@.t[id0 as int].zp, ir@.t[id0 as int].affine is Some, ir@.t[id0 as int].affine->Some_0.0 is Some, 0 <= i <= ir@.t[id0 as int].affine->Some_0.0->Some_0.len(),
    forall|k: int| 0 <= k < i ==> #[trigger] ir@.t[id0 as int].affine->Some_0.0->Some_0[k] == ir@.t[id0 as int].zp,
@@fn InterpreterWrapperBase<Interp>::get_scales<std::vector<int>>/1 as scales_of
@nothis
@ghost ir: &mut Ir
@throw
    exists|k: int| 0 <= k < tensors@.len() && !scales_ok(old(ir)@.t[#[trigger] tensors@[k] as int])
@requires
    wf(old(ir)@), old(ir)@.ready, listed(tensors@, old(ir)@.t), tensors@.len() <= 0x7fff_ffff,
@ensures
    same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == tensors@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == scale_value(old(ir)@.t[tensors@[k] as int]),
    forall|k: int| 0 <= k < tensors@.len() ==> scales_ok(old(ir)@.t[#[trigger] tensors@[k] as int]),
@loop 0 inv
    same(ir@, old(ir)@), wf(ir@), rr_0@ == tensors@, result@.len() == ri_0, forall|k: int| 0 <= k < ri_0 ==> #[trigger] result@[k] == scale_value(old(ir)@.t[tensors@[k] as int]),
    forall|k: int| 0 <= k < ri_0 ==> scales_ok(old(ir)@.t[#[trigger] tensors@[k] as int]),
@loop 0 begin
    assert(same(ir@, old(ir)@)); let ghost id0 = tensors@[ri_0 as int];
@loop 0.0 dec
    ir@.t[id0 as int].affine->Some_0.1->Some_0.len() - i
@loop 0.0 inv
    same(ir@, old(ir)@), ir@.t[id0 as int].quant == 1, affine_quantization.g@ == id0, ir@.t[id0 as int].affine is Some, ir@.t[id0 as int].affine->Some_0.1 is Some, 0 <= i <= ir@.t[id0 as int].affine->Some_0.1->Some_0.len(), scales@.len() == i,
    forall|k: int| 0 <= k < i ==> #[trigger] scales@[k] == ir@.t[id0 as int].affine->Some_0.1->Some_0[k],
@loop 0.0 after
    assert(scales@ =~= ir@.t[id0 as int].affine->Some_0.1->Some_0);
@@fn InterpreterWrapperBase<Interp>::predict/1 as predict
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready || !all_accepted(input_list@, old(ir)@) || ir@.failed
@requires
    wf(old(ir)@), !old(ir)@.failed, old(ir)@.outs.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, all_accepted(input_list@, old(ir)@), !final(ir)@.failed,
    final(ir)@.runs.len() == old(ir)@.runs.len() + 1 && final(ir)@.runs.drop_last() == old(ir)@.runs && fed(final(ir)@.runs.last(), old(ir)@, input_list@, input_list@.len() as int),
    final(ir)@.t == after(final(ir)@.runs.last()), final(ir)@.ins == old(ir)@.ins, final(ir)@.outs == old(ir)@.outs, wf(final(ir)@),
    r@.len() == old(ir)@.outs.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == output(final(ir)@.t[old(ir)@.outs[k] as int]),
@loop 0 dec
    inputs_size - i
@loop 0 inv
    i <= inputs_size, inputs_size == input_list@.len(), input_list@.len() == old(ir)@.ins.len(), old(ir)@.ready,
    ir@ == (World { t: ir@.t, cache: ir@.cache, ..old(ir)@ }), cached(ir@), fed(ir@.t, old(ir)@, input_list@, i as int),
    forall|k: int| 0 <= k < i ==> accepted(input_list@[k], old(ir)@.t[#[trigger] old(ir)@.ins[k] as int]),
@loop 0 begin
    let ghost w0 = ir@; let ghost id = old(ir)@.ins[i as int];
    assert(old(ir)@.t.contains_key(id as int) && w0.t.contains_key(id as int));
    assert(!(exists|k: int| 0 <= k < i && #[trigger] old(ir)@.ins[k] == id));
@loop 0 end
    proof { lemma_feed(w0.t, old(ir)@, input_list@, i as int); }
@loop 0 after
    proof { lemma_fed_ok(ir@.t, old(ir)@, input_list@, input_list@.len() as int, old(ir)@.ins); lemma_fed_ok(ir@.t, old(ir)@, input_list@, input_list@.len() as int, old(ir)@.outs); }
    let ghost wf0 = ir@;
@loop 1 before
    let ghost w1 = ir@;
    assert(w1.runs.drop_last() =~= old(ir)@.runs);
@loop 1 inv
    same(ir@, w1), wf(ir@), rr_1@ == w1.outs, result@.len() == ri_1, forall|k: int| 0 <= k < ri_1 ==> #[trigger] result@[k] == output(w1.t[w1.outs[k] as int]),
@loop 1 begin
    let ghost tv = ir@.t[w1.outs[ri_1 as int] as int];
@loop 1 end
    assert(result@[ri_1 as int] == output(tv)) by { assert(tv.bytes.subrange(0, tv.bytes.len() as int) =~= tv.bytes); }
@@fn InterpreterWrapperBase<Interp>::get_input_types/0 as input_types
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.ins.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.ins.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == as_type(old(ir)@.t[old(ir)@.ins[k] as int]),
@@fn InterpreterWrapperBase<Interp>::get_input_shapes/0 as input_shapes
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.ins.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.ins.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == PyV::Tuple(old(ir)@.t[old(ir)@.ins[k] as int].dims),
@@fn InterpreterWrapperBase<Interp>::get_input_zero_points/0 as input_zero_points
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.ins.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.ins.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == zero_point(old(ir)@.t[old(ir)@.ins[k] as int]),
@@fn InterpreterWrapperBase<Interp>::get_input_scales/0 as input_scales
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.ins.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.ins.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == scale_value(old(ir)@.t[old(ir)@.ins[k] as int]),
@@fn InterpreterWrapperBase<Interp>::get_output_types/0 as output_types
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.outs.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.outs.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == as_type(old(ir)@.t[old(ir)@.outs[k] as int]),
@@fn InterpreterWrapperBase<Interp>::get_output_shapes/0 as output_shapes
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.outs.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.outs.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == PyV::Tuple(old(ir)@.t[old(ir)@.outs[k] as int].dims),
@@fn InterpreterWrapperBase<Interp>::get_output_zero_points/0 as output_zero_points
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.outs.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.outs.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == zero_point(old(ir)@.t[old(ir)@.outs[k] as int]),
@@fn InterpreterWrapperBase<Interp>::get_output_scales/0 as output_scales
@nothis
@ghost ir: &mut Ir
@throw
    !old(ir)@.ready
@requires
    wf(old(ir)@), old(ir)@.outs.len() <= 0x7fff_ffff,
@ensures
    old(ir)@.ready, same(final(ir)@, old(ir)@), wf(final(ir)@), r@.len() == old(ir)@.outs.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == scale_value(old(ir)@.t[old(ir)@.outs[k] as int]),
