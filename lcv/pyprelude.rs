// ---------------------------------------------------------------------------
// Python values and the heap.  Everything marked external_body is trusted (it
// is the meaning given to a Python operation); what an operation may raise is
// excluded by its precondition.
// ---------------------------------------------------------------------------
// object identities.  The objects of a model are named by their place in it when it was loaded (a loaded model is a tree);
// L, S, D, K are the lists, sets, dicts and masks made since
pub enum Id { Model, Codes, Code(int), Subs, Sub(int), Tensors(int), Tensor(int, int), Ins(int), Outs(int), Ops(int), Op(int, int), OpIn(int, int), OpOut(int, int), OpMid(int, int),
    Sigs, Sig(int), SigIn(int), SigOut(int), Tm(int, bool, int), L(int), S(int), D(int), K(int), It(int), Obj(int) }
pub enum PV { Unset, None, Bool(bool), Int(int), Str(int), Bytes(int), Nd(int), Ref(Id) }
pub struct Hs { pub next: int, pub f: Map<(Id, Fld), PV>, pub l: Map<Id, Seq<PV>>, pub a: Map<Id, Seq<PV>>, pub s: Map<Id, Set<PV>>, pub d: Map<Id, Map<PV, PV>>, pub k: Map<Id, Seq<bool>>, pub runs: Seq<(Seq<PV>, Seq<PV>)>, pub calls: Seq<Call>, pub tries: Seq<bool> }
// what was asked of the outside, in order: which function (kind), its plain arguments, its lists, its list of lists, its result
pub struct Call { pub kind: int, pub args: Seq<PV>, pub lists: Seq<Seq<PV>>, pub shapes: Seq<Seq<PV>>, pub r: PV }
pub struct Heap { pub g: Ghost<Hs> }
impl View for Heap { type V = Hs; open spec fn view(&self) -> Hs { self.g@ } }
pub struct V { pub g: Ghost<PV> }
impl Clone for V { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for V {}
impl View for V { type V = PV; open spec fn view(&self) -> PV { self.g@ } }
pub open spec fn is_ref(v: PV) -> bool { v is Ref }
pub open spec fn rid(v: PV) -> Id { match v { PV::Ref(i) => i, _ => Id::Model } }
pub open spec fn ival(v: PV) -> int { match v { PV::Int(n) => n, _ => 0 } }
pub open spec fn is_list(v: PV) -> bool { match v { PV::Ref(i) => match i { Id::Codes | Id::Subs | Id::Tensors(_) | Id::Ops(_) | Id::Sigs | Id::SigIn(_) | Id::SigOut(_) | Id::L(_) => true, _ => false }, _ => false } }
pub open spec fn is_arr(v: PV) -> bool { match v { PV::Ref(i) => match i { Id::Ins(_) | Id::Outs(_) | Id::OpIn(_, _) | Id::OpOut(_, _) | Id::OpMid(_, _) => true, _ => false }, _ => false } }
pub open spec fn is_set(v: PV) -> bool { match v { PV::Ref(Id::S(_)) => true, _ => false } }
pub open spec fn is_dict(v: PV) -> bool { match v { PV::Ref(Id::D(_)) => true, _ => false } }
pub open spec fn is_mask(v: PV) -> bool { match v { PV::Ref(Id::K(_)) => true, _ => false } }
pub open spec fn is_obj(v: PV) -> bool { match v { PV::Ref(i) => !is_list(v) && !is_arr(v) && !is_set(v) && !is_dict(v) && !is_mask(v) && !is_it(v), _ => false } }
// compared by value or by identity, never element by element
pub open spec fn simple(v: PV) -> bool { match v { PV::Unset => false, PV::Nd(_) => false, PV::Ref(i) => is_obj(v), _ => true } }
// whole arrays are values (never written here): Nd; nd_at is an element of the first axis.  An iterator It is the list of what it will give
pub uninterp spec fn nd_len(a: int) -> nat;
pub uninterp spec fn nd_at(a: int, k: int) -> int;
pub open spec fn is_nd(v: PV) -> bool { v is Nd }
pub open spec fn nid(v: PV) -> int { match v { PV::Nd(n) => n, _ => 0 } }
pub open spec fn is_it(v: PV) -> bool { match v { PV::Ref(Id::It(_)) => true, _ => false } }
pub open spec fn iterable(v: PV) -> bool { is_list(v) || is_arr(v) || is_nd(v) || is_it(v) }
pub open spec fn els(h: Hs, v: PV) -> Seq<PV> { if is_list(v) || is_it(v) { h.l[rid(v)] } else if is_nd(v) { Seq::new(nd_len(nid(v)), |k: int| PV::Nd(nd_at(nid(v), k))) } else { h.a[rid(v)] } }
pub open spec fn elts(h: Hs, v: V) -> Seq<PV> { els(h, v@) }
#[verifier::external_body] pub fn never() ensures false { unimplemented!() }
#[verifier::external_body] pub fn v_unset() -> (r: V) ensures r@ == PV::Unset { unimplemented!() }
#[verifier::external_body] pub fn v_use(v: V) -> (r: V) requires !(v@ is Unset) ensures r == v { unimplemented!() }
#[verifier::external_body] pub fn v_none() -> (r: V) ensures r@ == PV::None { unimplemented!() }
#[verifier::external_body] pub fn v_bool(b: bool) -> (r: V) ensures r@ == PV::Bool(b) { unimplemented!() }
#[verifier::external_body] pub fn v_int(n: i64) -> (r: V) ensures r@ == PV::Int(n as int) { unimplemented!() }
#[verifier::external_body] pub fn py_number(n: u64) -> (r: V) ensures r@ == PV::Int(n as int) { unimplemented!() }
pub open spec fn py_cnt(v: V) -> int { if ival(v@) < 0 { 0 } else { ival(v@) } }
#[verifier::external_body] pub fn py_count(v: V) -> (r: u64) requires v@ is Int ensures r == py_cnt(v) { unimplemented!() }
#[verifier::external_body] pub fn py_getattr(h: &Heap, o: V, f: Fld) -> (r: V) requires is_obj(o@) ensures r@ == h@.f[(rid(o@), f)] { unimplemented!() }
#[verifier::external_body] pub fn py_setattr(h: &mut Heap, o: V, f: Fld, v: V) requires is_obj(o@) ensures final(h)@ == (Hs { f: old(h)@.f.insert((rid(o@), f), v@), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_index(h: &Heap, o: V, i: V) -> (r: V)
    requires ((is_list(o@) || is_arr(o@)) && i@ is Int && 0 <= ival(i@) < elts(h@, o).len()) || (is_dict(o@) && h@.d[rid(o@)].dom().contains(i@)),
    ensures r@ == (if is_dict(o@) { h@.d[rid(o@)][i@] } else { elts(h@, o)[ival(i@)] }) { unimplemented!() }
pub open spec fn masked(s: Seq<PV>, m: Seq<bool>, v: PV) -> Seq<PV> { Seq::new(s.len(), |k: int| if m[k] { v } else { s[k] }) }
#[verifier::external_body] pub fn py_setindex(h: &mut Heap, o: V, i: V, v: V)
    requires is_dict(o@) || ((is_list(o@) || is_arr(o@)) && i@ is Int && 0 <= ival(i@) < elts(old(h)@, o).len() && (is_arr(o@) ==> v@ is Int)) || (is_arr(o@) && is_mask(i@) && v@ is Int && old(h)@.k[rid(i@)].len() == elts(old(h)@, o).len()),
    ensures
        is_dict(o@) ==> final(h)@ == (Hs { d: old(h)@.d.insert(rid(o@), old(h)@.d[rid(o@)].insert(i@, v@)), ..old(h)@ }),
        is_list(o@) ==> final(h)@ == (Hs { l: old(h)@.l.insert(rid(o@), old(h)@.l[rid(o@)].update(ival(i@), v@)), ..old(h)@ }),
        is_arr(o@) && i@ is Int ==> final(h)@ == (Hs { a: old(h)@.a.insert(rid(o@), old(h)@.a[rid(o@)].update(ival(i@), v@)), ..old(h)@ }),
        is_arr(o@) && is_mask(i@) ==> final(h)@ == (Hs { a: old(h)@.a.insert(rid(o@), masked(old(h)@.a[rid(o@)], old(h)@.k[rid(i@)], v@)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_unpack(h: &Heap, o: V, n: u64) requires is_list(o@), h@.l[rid(o@)].len() == n { unimplemented!() }
#[verifier::external_body] pub fn py_truth(h: &Heap, v: V) -> (b: bool)
    requires !(v@ is Unset), !is_arr(v@), !is_mask(v@), !is_nd(v@),
    ensures b == (match v@ { PV::None => false, PV::Bool(b) => b, PV::Int(n) => n != 0, PV::Ref(i) => (is_list(v@) ==> h@.l[i].len() > 0) && (is_set(v@) ==> h@.s[i] !== Set::empty()) && (is_dict(v@) ==> h@.d[i].dom() !== Set::empty()), _ => b }) { unimplemented!() }
// arrays compare element by element
#[verifier::external_body] pub fn py_eq(h: &mut Heap, a: V, b: V) -> (r: V)
    requires (simple(a@) && simple(b@)) || (is_arr(a@) && b@ is Int),
    ensures is_arr(a@) ==> r@ == PV::Ref(Id::K(old(h)@.next)) && final(h)@ == (Hs { next: old(h)@.next + 1, k: old(h)@.k.insert(Id::K(old(h)@.next), Seq::new(old(h)@.a[rid(a@)].len(), |j: int| old(h)@.a[rid(a@)][j] == b@)), ..old(h)@ }),
        !is_arr(a@) ==> r@ == PV::Bool(a@ == b@) && final(h)@ == old(h)@ { unimplemented!() }
#[verifier::external_body] pub fn py_ne(h: &Heap, a: V, b: V) -> (r: V) requires simple(a@), simple(b@) ensures r@ == PV::Bool(a@ != b@) { unimplemented!() }
#[verifier::external_body] pub fn py_is(h: &Heap, a: V, b: V) -> (r: V) requires !(a@ is Unset), !(b@ is Unset), is_ref(a@) || is_ref(b@) || a@ is None || b@ is None ensures r@ == PV::Bool(a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn py_isnot(h: &Heap, a: V, b: V) -> (r: V) requires !(a@ is Unset), !(b@ is Unset), is_ref(a@) || is_ref(b@) || a@ is None || b@ is None ensures r@ == PV::Bool(a@ != b@) { unimplemented!() }
pub open spec fn inside(h: Hs, x: PV, c: V) -> bool { if is_set(c@) { h.s[rid(c@)].contains(x) } else if is_dict(c@) { h.d[rid(c@)].dom().contains(x) } else { elts(h, c).contains(x) } }
#[verifier::external_body] pub fn py_in(h: &Heap, x: V, c: V) -> (r: V) requires simple(x@), is_set(c@) || is_dict(c@) || is_list(c@) || is_arr(c@) ensures r@ == PV::Bool(inside(h@, x@, c)) { unimplemented!() }
#[verifier::external_body] pub fn py_notin(h: &Heap, x: V, c: V) -> (r: V) requires simple(x@), is_set(c@) || is_dict(c@) || is_list(c@) || is_arr(c@) ensures r@ == PV::Bool(!inside(h@, x@, c)) { unimplemented!() }
#[verifier::external_body] pub fn py_lt(h: &Heap, a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Bool(ival(a@) < ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_le(h: &Heap, a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Bool(ival(a@) <= ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_gt(h: &Heap, a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Bool(ival(a@) > ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_ge(h: &Heap, a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Bool(ival(a@) >= ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_add(a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Int(ival(a@) + ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_sub(a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Int(ival(a@) - ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_mul(a: V, b: V) -> (r: V) requires a@ is Int, b@ is Int ensures r@ == PV::Int(ival(a@) * ival(b@)) { unimplemented!() }
#[verifier::external_body] pub fn py_neg(a: V) -> (r: V) requires a@ is Int ensures r@ == PV::Int(-ival(a@)) { unimplemented!() }
// lists, sets, dicts
#[verifier::external_body] pub fn py_list(h: &mut Heap) -> (r: V) ensures r@ == PV::Ref(Id::L(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(Id::L(old(h)@.next), Seq::empty()), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_set(h: &mut Heap) -> (r: V) ensures r@ == PV::Ref(Id::S(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, s: old(h)@.s.insert(Id::S(old(h)@.next), Set::empty()), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_dict(h: &mut Heap) -> (r: V) ensures r@ == PV::Ref(Id::D(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, d: old(h)@.d.insert(Id::D(old(h)@.next), Map::empty()), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_append(h: &mut Heap, o: V, v: V) requires is_list(o@), !(v@ is Unset) ensures final(h)@ == (Hs { l: old(h)@.l.insert(rid(o@), old(h)@.l[rid(o@)].push(v@)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_add_to(h: &mut Heap, o: V, v: V) requires is_set(o@), simple(v@) ensures final(h)@ == (Hs { s: old(h)@.s.insert(rid(o@), old(h)@.s[rid(o@)].insert(v@)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_discard(h: &mut Heap, o: V, v: V) requires is_set(o@), simple(v@) ensures final(h)@ == (Hs { s: old(h)@.s.insert(rid(o@), old(h)@.s[rid(o@)].remove(v@)), ..old(h)@ }) { unimplemented!() }
// list.remove takes out the first equal element
pub open spec fn first_at(s: Seq<PV>, v: PV, p: int) -> bool { 0 <= p < s.len() && s[p] == v && (forall|q: int| 0 <= q < p ==> s[q] != v) }
#[verifier::external_body] pub fn py_remove(h: &mut Heap, o: V, v: V) requires is_list(o@), simple(v@), old(h)@.l[rid(o@)].contains(v@)
    ensures exists|p: int| #[trigger] first_at(old(h)@.l[rid(o@)], v@, p) && final(h)@ == (Hs { l: old(h)@.l.insert(rid(o@), old(h)@.l[rid(o@)].remove(p)), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_pop(h: &mut Heap, o: V, i: V) -> (r: V) requires is_list(o@), i@ is Int, 0 <= ival(i@) < old(h)@.l[rid(o@)].len()
    ensures r@ == old(h)@.l[rid(o@)][ival(i@)], final(h)@ == (Hs { l: old(h)@.l.insert(rid(o@), old(h)@.l[rid(o@)].remove(ival(i@))), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_del_from(h: &mut Heap, o: V, i: V) requires is_list(o@), i@ is Int, 0 <= ival(i@) <= old(h)@.l[rid(o@)].len()
    ensures final(h)@ == (Hs { l: old(h)@.l.insert(rid(o@), old(h)@.l[rid(o@)].take(ival(i@))), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_get(h: &Heap, o: V, k: V, d: V) -> (r: V) requires is_dict(o@), simple(k@) ensures r@ == (if h@.d[rid(o@)].dom().contains(k@) { h@.d[rid(o@)][k@] } else { d@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_len(h: &Heap, o: V) -> (r: V) requires is_list(o@) || is_arr(o@) || is_nd(o@) || is_set(o@) ensures r@ == PV::Int(if is_set(o@) { h@.s[rid(o@)].len() as int } else { elts(h@, o).len() as int }) { unimplemented!() }
#[verifier::external_body] pub fn py_min(h: &Heap, o: V) -> (r: V) requires is_set(o@), h@.s[rid(o@)] !== Set::empty(), forall|x: PV| #[trigger] h@.s[rid(o@)].contains(x) ==> x is Int
    ensures r@ is Int, h@.s[rid(o@)].contains(r@), forall|x: PV| #[trigger] h@.s[rid(o@)].contains(x) ==> ival(r@) <= ival(x) { unimplemented!() }
#[verifier::external_body] pub fn py_sorted_down(h: &mut Heap, o: V) -> (r: V) requires is_set(o@), forall|x: PV| #[trigger] old(h)@.s[rid(o@)].contains(x) ==> x is Int
    ensures r@ == PV::Ref(Id::L(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(Id::L(old(h)@.next), final(h)@.l[Id::L(old(h)@.next)]), ..old(h)@ }),
        forall|x: PV| #[trigger] final(h)@.l[Id::L(old(h)@.next)].contains(x) <==> old(h)@.s[rid(o@)].contains(x),
        forall|i: int, j: int| 0 <= i < j < final(h)@.l[Id::L(old(h)@.next)].len() ==> ival(#[trigger] final(h)@.l[Id::L(old(h)@.next)][i]) > ival(#[trigger] final(h)@.l[Id::L(old(h)@.next)][j]) { unimplemented!() }
// a for statement goes through a list or an array by index, asking for its length anew each time
#[verifier::external_body] pub fn py_iterlen(h: &Heap, o: V) -> (r: u64) requires iterable(o@) ensures r == elts(h@, o).len() { unimplemented!() }
#[verifier::external_body] pub fn py_iterat(h: &Heap, o: V, k: u64) -> (r: V) requires iterable(o@), k < elts(h@, o).len() ensures r@ == elts(h@, o)[k as int] { unimplemented!() }
// zip(*o): as many tuples as the shortest of o has elements (none if o is empty)
pub open spec fn zipn(h: Hs, s: Seq<PV>) -> nat decreases s.len() { if s.len() == 0 { 0 } else if s.len() == 1 { els(h, s[0]).len() } else { let a = zipn(h, s.drop_last()); let b = els(h, s.last()).len(); if a < b { a } else { b } } }
#[verifier::external_body] pub fn py_zip(h: &mut Heap, o: V) -> (r: V) requires iterable(o@), forall|j: int| 0 <= j < elts(old(h)@, o).len() ==> iterable(#[trigger] elts(old(h)@, o)[j])
    ensures r@ == PV::Ref(Id::L(old(h)@.next)), final(h)@ == (Hs { next: final(h)@.next, l: final(h)@.l, ..old(h)@ }), final(h)@.next == old(h)@.next + 1 + zipn(old(h)@, elts(old(h)@, o)),
        forall|x: Id| !(x is L && x->L_0 >= old(h)@.next) ==> #[trigger] final(h)@.l[x] == old(h)@.l[x],
        final(h)@.l[rid(r@)].len() == zipn(old(h)@, elts(old(h)@, o)),
        forall|k: int| 0 <= k < zipn(old(h)@, elts(old(h)@, o)) ==> #[trigger] final(h)@.l[rid(r@)][k] == PV::Ref(Id::L(old(h)@.next + 1 + k)),
        forall|k: int| 0 <= k < zipn(old(h)@, elts(old(h)@, o)) ==> (#[trigger] final(h)@.l[Id::L(old(h)@.next + 1 + k)]) == Seq::new(elts(old(h)@, o).len(), |j: int| els(old(h)@, elts(old(h)@, o)[j])[k]) { unimplemented!() }
// x[i:]
#[verifier::external_body] pub fn py_slice_from(h: &mut Heap, o: V, i: V) -> (r: V) requires is_list(o@), i@ is Int, 0 <= ival(i@)
    ensures r@ == PV::Ref(Id::L(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(Id::L(old(h)@.next), { let s = elts(old(h)@, o); if ival(i@) <= s.len() { s.skip(ival(i@)) } else { Seq::empty() } }), ..old(h)@ }) { unimplemented!() }
// whether the attempt of a try statement runs to its end; tries keeps the answers
#[verifier::external_body] pub fn py_attempt(h: &mut Heap) -> (b: bool) ensures final(h)@ == (Hs { tries: old(h)@.tries.push(b), ..old(h)@ }) { unimplemented!() }
#[verifier::external_body] pub fn py_abandon(h: &mut Heap) ensures final(h)@ == (Hs { next: final(h)@.next, l: final(h)@.l, s: final(h)@.s, f: final(h)@.f, calls: final(h)@.calls, ..old(h)@ }), final(h)@.next >= old(h)@.next,
        forall|x: Id| !(x is L && x->L_0 >= old(h)@.next) ==> #[trigger] final(h)@.l[x] == old(h)@.l[x],
        forall|x: Id| !(x is S && x->S_0 >= old(h)@.next) ==> #[trigger] final(h)@.s[x] == old(h)@.s[x],
        forall|x: (Id, Fld)| !(x.0 is Obj && x.0->Obj_0 >= old(h)@.next) ==> #[trigger] final(h)@.f[x] == old(h)@.f[x] { unimplemented!() }
