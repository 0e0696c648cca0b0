## what is imported and how it is converted (python/graphdef_tfl_flatbuffer.cc, saved_model_tfl_flatbuffer.cc)
@@include passes.vs contracts of passes.vs
@@record tensorflow::GraphDef => GraphV
@@record tensorflow::GraphDebugInfo => RegV
@@record tensorflow::GraphImportConfig => CfgV
@@record absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> => StOwn
@@value std::vector<std::vector<int>> => Sl<ShpV>
@@value std::vector<int> => ShpV
@@value std::optional<std::vector<int>> => OptShp
@@vector std::vector<std::optional<std::vector<int>>> => OptShp
@@value std::vector<tensorflow::ArrayInfo> => InsV
@@ctor std::basic_string<char>/2:pybind11::bytes,std::allocator<char> => %s
@@ctor std::optional<std::vector<int>>/1:std::nullopt_t => shp_none()
@@ctor std::optional<std::vector<int>>/1:std::vector<int> => shp_some(%s)
@@ctor std::vector<int>/1:std::vector<int> => %s
@@ctor std::optional<tensorflow::Session *>/1:std::nullopt_t => ses_none()
@@ctor std::unordered_set<std::basic_string<char>>/0 => tags_none()
@@ctor llvm::StringRef/1:ptr => %s
@@ctor mlir::MLIRContext/1 => ctx_new()
@@ctor tensorflow::GraphImportConfig/0 => cfg_new()
@@extern std::vector<int>::size/0 => shp_rank
@@extern std::vector<std::basic_string<char>>::size/0 => strs_len
@@extern tensorflow::LoadProtoFromBuffer/2 => load_graph+w
@@extern tensorflow::ParseInputArrayInfo/4 => parse_in+w
@@extern tensorflow::ParseOutputArrayInfo/2 => parse_out+w
@@extern tensorflow::ConvertGraphdefToMlir/4 => import_graph+w
@@extern absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>>::ok/0 => so_ok
@@extern absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>>::value/0 => so_value
@@value llvm::iterator_range<mlir::detail::op_iterator<mlir::func::FuncOp, mlir::Region::OpIterator>> => Sl<ModV>
@@value mlir::func::FuncOp => ModV
@@value mlir::DictionaryAttr => DicV
@@value mlir::Attribute => DicV
@@value mlir::StringAttr => DicV
@@vector llvm::SmallVector<llvm::StringRef, 4> => u64
@@vector llvm::SmallVectorImpl<llvm::StringRef> => u64
@@value __gnu_cxx::__normal_iterator<const std::basic_string<char> *, std::vector<std::basic_string<char>>> => StrsV
@@value absl::Span<std::basic_string<char>> => StrsV
@@value absl::Span<const std::basic_string<char>> => StrsV
@@value std::unique_ptr<tensorflow::SavedModelBundle> => BunV
@@ctor tensorflow::Session */0 => ses_null()
@@ctor mlir::func::FuncOp/1:std::nullptr_t => fn_null()
@@extern mlir::OpTrait::OneRegion<mlir::ModuleOp>::getOps<mlir::func::FuncOp>/0 => mod_fns
@@extern mlir::Operation *.null => fn_none
@@extern mlir::OpState::operator->/1 => mod_self
@@extern mlir::Operation::getAttrOfType<mlir::DictionaryAttr>/1 => fn_entry
@@extern mlir::Attribute::operator bool/0 => di_set
@@extern mlir::Attribute::operator!/1 => di_unset
@@extern mlir::DictionaryAttr::get/1 => di_get
@@extern mlir::Attribute::cast<mlir::StringAttr>/0 => di_string
@@extern mlir::StringAttr::getValue/0 => di_text
@@extern llvm::StringRef::split/4 => str_split
@@extern llvm::SmallVectorBase<uint32_t>::size/0 => texts_len
@@extern tensorflow::errors::InvalidArgument/1 => st_bad
@@extern tensorflow::OkStatus/0 => st_ok
@@ctor absl::Status/0 => st_ok()
@@ctor absl::Span<const std::basic_string<char>>/0 => strs_any()
@@ctor absl::Span<const std::basic_string<char>>/1:absl::Span<const std::basic_string<char>> => %s
@@ctor absl::Span<std::basic_string<char>>/1:absl::Span<std::basic_string<char>> => %s
@@ctor absl::Span<std::basic_string<char>>/1:std::vector<std::basic_string<char>> => %s
@@ctor llvm::StringRef/1:std::basic_string<char> => %s
@@ctor std::optional<tensorflow::Session *>/1:SesV => ses_of(%s)
@@ctor std::unordered_set<std::basic_string<char>>/6 => tags_of(%s)
@@ctor std::vector<std::basic_string<char>>/3 => %s
@@extern tensorflow::internal::RegisterAllCustomOps/1 => register_ops+w
@@extern std::vector<std::basic_string<char>>::empty/0 => strs_empty
@@extern std::vector<std::basic_string<char>>::begin/0 => strs_self
@@extern std::vector<std::basic_string<char>>::end/0 => strs_self
@@extern tensorflow::ImportSavedModel/9 => import_saved+w
@@extern std::make_unique<tensorflow::SavedModelBundle,<>>/0 => bun_new
@@extern std::unique_ptr<tensorflow::SavedModelBundle>::operator bool/0 => bun_set
@@extern std::unique_ptr<tensorflow::SavedModelBundle>::operator->/1 => bun_self
@@value tensorflow::SavedModelBundle * => BunV
@@value tensorflow::SavedModelBundle => BunV
@@extern tensorflow::SavedModelBundle::GetSession/0 => bun_session
@@extern absl::Status::message/0 => st_text
@@assume a graph, its inputs and outputs and a saved model are imported by TensorFlow as named by the arguments it is given
@@prelude
pub struct Sl<T> { pub g: Ghost<Seq<T>> }
impl<T> Clone for Sl<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Sl<T> {}
impl<T> View for Sl<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.g@ } }
#[verifier::external_body] pub fn sl_len<T>(s: Sl<T>) -> (r: u64) ensures r == s@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body] pub fn sl_at<T: Copy>(s: Sl<T>, i: u64) -> (r: T) requires i < s@.len() ensures r == s@[i as int] { unimplemented!() }
pub const EMPTY: u64 = 0;
#[verifier::external_body] pub fn ctx_new() -> (r: CtxV) { unimplemented!() }
pub struct GraphV { pub text: Ghost<u64> }
pub struct InsView { pub names: Seq<u64>, pub types: Seq<u64>, pub shapes: Seq<Option<int>> }
pub struct InsV { pub g: Ghost<InsView> }
pub struct CfgV { pub inputs: InsV, pub outputs: StrsV, pub prune_unused_nodes: bool, pub convert_legacy_fed_inputs: bool, pub graph_as_function: bool, pub upgrade_legacy: bool }
pub struct StOwn { pub ok: Ghost<bool>, pub v: OwnV }
// a shape: its number of dimensions and its identity
pub struct ShpV { pub rank: Ghost<nat>, pub id: Ghost<int> }
impl Clone for ShpV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ShpV {}
pub struct OptShp { pub g: Ghost<Option<int>> }
pub uninterp spec fn graph_of(text: u64, ins: InsView, outs: Seq<u64>) -> int;
#[verifier::external_body] pub fn shp_none() -> (r: OptShp) ensures r.g@ is None { unimplemented!() }
#[verifier::external_body] pub fn shp_some(s: ShpV) -> (r: OptShp) ensures r.g@ == Some(s.id@) { unimplemented!() }
#[verifier::external_body] pub fn shp_rank(s: ShpV) -> (r: u64) ensures r == s.rank@ { unimplemented!() }
#[verifier::external_body] pub fn strs_len(s: StrsV) -> (r: u64) ensures r == s.names@.len() { unimplemented!() }
#[verifier::external_body] pub fn ses_none() -> (r: OptS) ensures r.g@ is None { unimplemented!() }
pub uninterp spec fn no_tags() -> u64;
#[verifier::external_body] pub fn tags_none() -> (r: u64) ensures r == no_tags() { unimplemented!() }
#[verifier::external_body] pub fn cfg_new() -> (r: CfgV) ensures !r.prune_unused_nodes, !r.convert_legacy_fed_inputs, !r.graph_as_function, !r.upgrade_legacy { unimplemented!() }
#[verifier::external_body] pub fn load_graph(s: u64, g: &mut GraphV, w: &mut W) -> (r: StV) ensures final(w)@ == (if r.ok@ { old(w)@ } else { WView { failed: true, ..old(w)@ } }), r.ok@ ==> final(g).text@ == s { unimplemented!() }
#[verifier::external_body] pub fn parse_in(n: StrsV, t: StrsV, s: &Mem<OptShp>, o: &mut InsV, w: &mut W) -> (r: StV) ensures final(w)@ == (if r.ok@ { old(w)@ } else { WView { failed: true, ..old(w)@ } }),
    r.ok@ ==> final(o).g@ == (InsView { names: n.names@, types: t.names@, shapes: Seq::new(s@.len(), |i: int| s@[i].g@) }) { unimplemented!() }
#[verifier::external_body] pub fn parse_out(n: StrsV, o: &mut StrsV, w: &mut W) -> (r: StV) ensures final(w)@ == (if r.ok@ { old(w)@ } else { WView { failed: true, ..old(w)@ } }), r.ok@ ==> final(o).names@ == n.names@ { unimplemented!() }
#[verifier::external_body] pub fn import_graph(g: &GraphV, d: &RegV, c: &CfgV, x: CtxV, w: &mut W) -> (r: StOwn)
    requires c.prune_unused_nodes, c.convert_legacy_fed_inputs, !c.graph_as_function, c.upgrade_legacy, !old(w)@.failed, old(w)@.module == -1, old(w)@.done.len() == 0, !old(w)@.reported
    ensures !r.ok@ ==> final(w)@ == (WView { failed: true, ..old(w)@ }), r.ok@ ==> final(w)@ == (WView { module: r.v.m.id@, ..old(w)@ }) && r.v.m.id@ == graph_of(g.text@, c.inputs.g@, c.outputs.names@) { unimplemented!() }
#[verifier::external_body] pub fn so_ok(s: &StOwn) -> (r: bool) ensures r == s.ok@ { unimplemented!() }
#[verifier::external_body] pub fn so_value(s: &StOwn) -> (r: OwnV) requires s.ok@ ensures r == s.v { unimplemented!() }
pub spec const NOFN: int = -2;
pub struct DicV { pub g: Ghost<Option<int>> }
impl Clone for DicV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for DicV {}
pub struct BunV { pub g: Ghost<Option<int>> }
impl Clone for BunV { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BunV {}
pub uninterp spec fn fns_of(module: int) -> Seq<ModV>;
pub uninterp spec fn attr_of(id: int, k: u64) -> Option<int>;
pub uninterp spec fn text_of(id: int) -> u64;
pub uninterp spec fn split_at(s: u64, sep: u64) -> Seq<u64>;
pub uninterp spec fn tags_in(s: Seq<u64>) -> u64;
pub uninterp spec fn saved_of(dir: u64, version: i32, tags: u64, names: Seq<u64>) -> int;
pub uninterp spec fn session_of(module: int) -> int;
pub const ENTRY: u64 = 2758235451u64; pub const INPUTS: u64 = 56729678u64; pub const COMMA: u64 = 3772416878u64;
pub open spec fn is_entry(f: ModV) -> bool { attr_of(f.id@, ENTRY) is Some }
pub open spec fn one_entry(s: Seq<ModV>, i: int) -> bool { 0 <= i < s.len() && is_entry(s[i]) && forall|j: int| 0 <= j < s.len() && j != i ==> !is_entry(#[trigger] s[j]) }
// the names a function lists as its inputs
pub open spec fn names_of(f: ModV) -> Option<nat> {
    let a = attr_of(attr_of(f.id@, ENTRY)->Some_0, INPUTS);
    if a is Some { Some(split_at(text_of(a->Some_0), COMMA).len()) } else { None }
}
pub open spec fn n_inputs(module: int) -> Option<nat> {
    let s = fns_of(module);
    if exists|i: int| one_entry(s, i) { names_of(s[choose|i: int| one_entry(s, i)]) } else { None }
}
#[verifier::external_body] pub fn fn_null() -> (r: ModV) ensures r.id@ == NOFN { unimplemented!() }
#[verifier::external_body] pub fn fn_none(f: ModV) -> (r: bool) ensures r == (f.id@ == NOFN) { unimplemented!() }
#[verifier::external_body] pub fn mod_fns(o: ModV) -> (r: Sl<ModV>) ensures r@ == fns_of(o.id@), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).id@ != NOFN { unimplemented!() }
#[verifier::external_body] pub fn fn_entry(f: ModV, k: u64) -> (r: DicV) requires f.id@ != NOFN ensures r.g@ == attr_of(f.id@, k) { unimplemented!() }
#[verifier::external_body] pub fn di_set(d: DicV) -> (r: bool) ensures r == d.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn di_unset(d: DicV) -> (r: bool) ensures r == d.g@ is None { unimplemented!() }
#[verifier::external_body] pub fn di_get(d: DicV, k: u64) -> (r: DicV) requires d.g@ is Some ensures r.g@ == attr_of(d.g@->Some_0, k) { unimplemented!() }
#[verifier::external_body] pub fn di_string(d: DicV) -> (r: DicV) requires d.g@ is Some ensures r == d { unimplemented!() }
#[verifier::external_body] pub fn di_text(d: DicV) -> (r: u64) requires d.g@ is Some ensures r == text_of(d.g@->Some_0) { unimplemented!() }
#[verifier::external_body] pub fn str_split(s: u64, v: &mut Mem<u64>, sep: u64, n: i32, e: bool) ensures old(v)@.len() == 0 && n == -1 && e ==> final(v)@ == split_at(s, sep) { unimplemented!() }
#[verifier::external_body] pub fn texts_len(v: &Mem<u64>) -> (r: u64) ensures r == v@.len() { unimplemented!() }
#[verifier::external_body] pub fn strs_empty(s: StrsV) -> (r: bool) ensures r == (s.names@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn strs_self(s: StrsV) -> (r: StrsV) ensures r == s { unimplemented!() }
#[verifier::external_body] pub fn ses_of(s: SesV) -> (r: OptS) ensures r.g@ == Some(s.g@) { unimplemented!() }
#[verifier::external_body] pub fn ses_null() -> (r: SesV) ensures r.g@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn tags_of(s: StrsV) -> (r: u64) ensures r == tags_in(s.names@) { unimplemented!() }
#[verifier::external_body] pub fn register_ops(t: &TocoV, w: &mut W) -> (r: StV) ensures final(w)@ == (if r.ok@ { WView { ops: true, ..old(w)@ } } else { WView { failed: true, ..old(w)@ } }) { unimplemented!() }
#[verifier::external_body] pub fn bun_new() -> (r: BunV) ensures r.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn bun_set(b: BunV) -> (r: bool) ensures r == b.g@ is Some { unimplemented!() }
#[verifier::external_body] pub fn bun_self(b: BunV) -> (r: BunV) ensures r == b { unimplemented!() }
#[verifier::external_body] pub fn bun_session(b: BunV) -> (r: SesV) requires b.g@ is Some ensures r.g@ == b.g@->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn st_text(s: &StV) -> (r: u64) { unimplemented!() }
#[verifier::external_body] pub fn import_saved(dir: u64, version: i32, tags: u64, extra: StrsV, names: StrsV, c: &CfgV, lift: bool, x: CtxV, b: &mut BunV, w: &mut W) -> (r: StOwn)
    requires c.upgrade_legacy, !c.graph_as_function, lift, !old(w)@.failed, old(w)@.module == -1, old(w)@.done.len() == 0, !old(w)@.reported, old(w)@.ops
    ensures !r.ok@ ==> final(w)@ == (WView { failed: true, ..old(w)@ }), r.ok@ ==> final(w)@ == (WView { module: r.v.m.id@, ..old(w)@ }) && r.v.m.id@ == saved_of(dir, version, tags, names.names@),
        r.ok@ ==> final(b).g@ is Some && final(b).g@->Some_0 == session_of(r.v.m.id@) { unimplemented!() }
// an empty shape stands for an unknown one
pub open spec fn shapes_of(s: Seq<ShpV>) -> Seq<Option<int>> { Seq::new(s.len(), |i: int| if s[i].rank@ > 0 { Some(s[i].id@) } else { None }) }
pub open spec fn target_of(t: u64) -> int { if t == ARM { 0 } else { 1 } }
@@fn tensorflow::ConvertGraphDefToTFLiteFlatBuffer/8 as convert_graph
@valaddr
@ghost w: &mut W
@throw
    w@.failed || w@.reported
@requires
    old(w)@ == (WView { module: -1, done: seq![], failed: false, reported: false, ops: false }), input_arrays.names@.len() <= 0x7fff_ffff,
@ensures
    target_str == ARM || target_str == XCORE,
    r == file_of(graph_of(graphdef_bytes, InsView { names: input_arrays.names@, types: input_dtypes.names@, shapes: shapes_of(input_shapes@) }, output_arrays.names@),
        all_passes(None, EMPTY, asked(should_quantize, default_ranges.g@, input_arrays.names@.len(), false), target_of(target_str)), true, false, no_tags()),
@loop 0 inv
    translated_input_shapes@.len() == ri_0, 0 <= ri_0 <= rn_0, rn_0 == input_shapes@.len(), rr_0@ == input_shapes@,
    forall|k: int| 0 <= k < ri_0 ==> (#[trigger] translated_input_shapes@[k]).g@ == shapes_of(input_shapes@)[k],
@loop 0 after
    assert(Seq::new(translated_input_shapes@.len(), |i: int| translated_input_shapes@[i].g@) =~= shapes_of(input_shapes@));
@loop 0 dec
    rn_0 - ri_0,
@@fn tensorflow::GetNumInputs/2 as num_inputs_of
@scalarptr num_inputs
@requires
    n_inputs(old(module).m.id@) is Some ==> n_inputs(old(module).m.id@)->Some_0 <= 0x7fff_ffff,
@ensures
    r.ok@ == n_inputs(old(module).m.id@) is Some, r.ok@ ==> *final(num_inputs) == n_inputs(old(module).m.id@)->Some_0, *final(module) == *old(module),
@loop 0 inv
    0 <= ri_0 <= rn_0, rn_0 == rr_0@.len(), rr_0@ == fns_of(old(module).m.id@), forall|k: int| 0 <= k < rr_0@.len() ==> (#[trigger] rr_0@[k]).id@ != NOFN, *module == *old(module),
    entry_function.id@ == NOFN ==> forall|k: int| 0 <= k < ri_0 ==> !is_entry(#[trigger] rr_0@[k]),
    entry_function.id@ != NOFN ==> exists|i: int| 0 <= i < ri_0 && rr_0@[i] == entry_function && is_entry(rr_0@[i]) && forall|j: int| 0 <= j < ri_0 && j != i ==> !is_entry(#[trigger] rr_0@[j]),
@loop 0 dec
    rn_0 - ri_0,
@loop 0 after
    proof { let s = fns_of(old(module).m.id@);
      if entry_function.id@ != NOFN {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == entry_function && is_entry(s[i]) && forall|j: int| 0 <= j < s.len() && j != i ==> !is_entry(#[trigger] s[j]);
        assert(one_entry(s, i));
        let c = choose|c: int| one_entry(s, c);
        assert(one_entry(s, c)); assert(c == i);
        assert(n_inputs(old(module).m.id@) == names_of(entry_function));
      } else { assert(forall|i: int| !one_entry(s, i)); } }
@@fn tensorflow::ConvertSavedModelToTFLiteFlatBuffer/6 as convert_saved
@ghost w: &mut W
@valaddr
@throw
    w@.failed || w@.reported || exported_names.names@.len() == 0 || n_inputs(w@.module) is None
@requires
    old(w)@ == (WView { module: -1, done: seq![], failed: false, reported: false, ops: false }),
    ({ let m = saved_of(saved_model_dir, saved_model_version, tags_in(saved_model_tags.names@), exported_names.names@); n_inputs(m) is Some ==> n_inputs(m)->Some_0 <= 0x7fff_ffff }),
@ensures
    target_str == ARM || target_str == XCORE,
    ({ let tags = tags_in(saved_model_tags.names@); let m = saved_of(saved_model_dir, saved_model_version, tags, exported_names.names@); n_inputs(m) is Some &&
        r == file_of(m, all_passes(Some(session_of(m)), saved_model_dir, asked(true, default_ranges.g@, n_inputs(m)->Some_0, true), target_of(target_str)), true, false, tags) }),
