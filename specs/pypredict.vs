## prediction over samples (tflite/python/interpreter_base.py)
@@extern np.expand_dims[axis=0] => np_expand0
@@extern np.concatenate => np_concat
@@extern isinstance:np.ndarray => is_ndarray
@@extern isinstance:list => is_pylist
@@extern hasattr:__next__ => has_next
@@extern hasattr:__iter__ => has_iter
@@extern tqdm => py_tqdm
@@extern .predict/1 => wr_predict
@@prelude
// NumPy: an array with an axis of length one put in front; arrays put behind each other
pub uninterp spec fn nd_expand(a: int) -> int;
pub uninterp spec fn nd_concat(s: Seq<PV>) -> int;
#[verifier::external_body] pub fn np_expand0(h: &Heap, a: V) -> (r: V) requires is_nd(a@) ensures r@ == PV::Nd(nd_expand(nid(a@))) { unimplemented!() }
#[verifier::external_body] pub fn np_concat(h: &Heap, o: V) -> (r: V) requires is_list(o@), elts(h@, o).len() > 0, forall|j: int| 0 <= j < elts(h@, o).len() ==> is_nd(#[trigger] elts(h@, o)[j]) ensures r@ == PV::Nd(nd_concat(elts(h@, o))) { unimplemented!() }
#[verifier::external_body] pub fn is_ndarray(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(is_nd(v@)) { unimplemented!() }
#[verifier::external_body] pub fn is_pylist(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(is_list(v@)) { unimplemented!() }
// an iterator is what has both; arrays and lists have only one of them
pub uninterp spec fn only_next(v: PV) -> bool;
pub uninterp spec fn only_iter(v: PV) -> bool;
#[verifier::external_body] pub fn has_next(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(is_it(v@) || only_next(v@)) { unimplemented!() }
#[verifier::external_body] pub fn has_iter(h: &Heap, v: V) -> (r: V) requires !(v@ is Unset) ensures r@ == PV::Bool(is_it(v@) || (!only_next(v@) && only_iter(v@))) { unimplemented!() }
#[verifier::external_body] pub fn py_tqdm(h: &Heap, v: V) -> (r: V) requires iterable(v@) ensures r == v { unimplemented!() }
// the wrapper in C++: one run on the list of arrays given; as many arrays back as the model has outputs (proved in pywrap.vs)
pub open spec fn n_out(h: Hs, w: PV) -> int { els(h, h.f[(rid(w), Fld::output_shapes)]).len() as int }
pub open spec fn nds(s: Seq<PV>) -> bool { forall|j: int| 0 <= j < s.len() ==> is_nd(#[trigger] s[j]) }
#[verifier::external_body] pub fn wr_predict(h: &mut Heap, w: V, x: V) -> (r: V) requires is_obj(w@), is_list(x@), nds(elts(old(h)@, x))
    ensures r@ == PV::Ref(Id::L(old(h)@.next)), final(h)@ == (Hs { next: old(h)@.next + 1, l: old(h)@.l.insert(Id::L(old(h)@.next), elts(final(h)@, r)), runs: old(h)@.runs.push((elts(old(h)@, x), elts(final(h)@, r))), ..old(h)@ }),
        nds(elts(final(h)@, r)), elts(final(h)@, r).len() == n_out(old(h)@, w@) { unimplemented!() }

// ---- what is to be done with samples x: an array (a sample per element of its first axis), a list of arrays (one per input), or an
// iterator that gives a sample at a time, as an array or as a list or tuple of arrays
pub open spec fn is_l(h: Hs, v: PV) -> bool { match v { PV::Ref(Id::L(n)) => n < h.next, _ => false } }
pub open spec fn samples_ok(h: Hs, x: PV) -> bool {
    !(x is Unset) && (is_list(x) ==> is_l(h, x) && nds(els(h, x)))
    && (is_it(x) ==> forall|j: int| 0 <= j < els(h, x).len() ==> is_nd(#[trigger] els(h, x)[j]) || (is_l(h, els(h, x)[j]) && nds(els(h, els(h, x)[j]))))
}
pub open spec fn len_at(h: Hs, x: PV, j: int) -> nat { els(h, els(h, x)[j]).len() }
pub open spec fn uneven(h: Hs, x: PV) -> bool { exists|i: int, j: int| 0 <= i < els(h, x).len() && 0 <= j < els(h, x).len() && #[trigger] len_at(h, x, i) != #[trigger] len_at(h, x, j) }
pub open spec fn n_samples(h: Hs, x: PV) -> nat { if is_list(x) { if els(h, x).len() == 0 { 0 } else { len_at(h, x, 0) } } else { els(h, x).len() } }
pub open spec fn expand(v: PV) -> PV { PV::Nd(nd_expand(nid(v))) }
// the inputs of the model for sample k: sample k of every input, each as a batch of one
pub open spec fn sample(h: Hs, x: PV, k: int) -> Seq<PV> {
    if is_nd(x) { seq![expand(els(h, x)[k])] }
    else if is_list(x) { Seq::new(els(h, x).len(), |j: int| expand(els(h, els(h, x)[j])[k])) }
    else if is_nd(els(h, x)[k]) { seq![expand(els(h, x)[k])] }
    else { Seq::new(els(h, els(h, x)[k]).len(), |j: int| expand(els(h, els(h, x)[k])[j])) }
}
pub open spec fn same_but_new(h: Hs, g: Hs) -> bool {
    g.f == h.f && g.a == h.a && g.d == h.d && g.k == h.k && g.next >= h.next
    && (forall|x: Id| !(x is L && x->L_0 >= h.next) ==> #[trigger] g.l[x] == h.l[x]) && (forall|x: Id| !(x is S && x->S_0 >= h.next) ==> #[trigger] g.s[x] == h.s[x])
}
pub open spec fn made(h: Hs, g: Hs, x: PV, b: PV, j: int) -> bool { match els(g, b)[j] { PV::Ref(Id::L(m)) => rid(b)->L_0 < m < g.next && g.l[Id::L(m)] == sample(h, x, j), _ => false } }
pub open spec fn batch(h: Hs, g: Hs, x: PV, b: PV, n: int) -> bool {
    b is Ref && rid(b) is L && h.next <= rid(b)->L_0 < g.next && els(g, b).len() == n && forall|j: int| 0 <= j < n ==> #[trigger] made(h, g, x, b, j)
}
pub proof fn lem_two(s: Set<PV>, a: PV, b: PV) requires s.contains(a), s.contains(b), a != b ensures s.len() > 1 { assert(s.remove(a).contains(b)); assert(s.remove(a).len() > 0); }
pub proof fn lem_one(s: Set<PV>) requires s.len() > 1 ensures exists|a: PV, b: PV| s.contains(a) && s.contains(b) && a != b {
    let a = s.choose(); assert(s.contains(a)); let t = s.remove(a); assert(t.len() > 0); let b = t.choose(); assert(t.contains(b)); assert(s.contains(b) && a != b);
}
pub proof fn lem_zip(h: Hs, s: Seq<PV>, n: nat) requires s.len() > 0, forall|j: int| 0 <= j < s.len() ==> els(h, #[trigger] s[j]).len() == n ensures zipn(h, s) == n decreases s.len() {
    if s.len() > 1 { assert(forall|j: int| 0 <= j < s.drop_last().len() ==> s.drop_last()[j] == s[j]); lem_zip(h, s.drop_last(), n); }
}
// the lists of g are still what they were (but for list b)
pub open spec fn keep(g: Hs, h: Hs, b: int) -> bool { h.next >= g.next && forall|n: int| n < g.next && n != b ==> #[trigger] h.l[Id::L(n)] == g.l[Id::L(n)] }
pub proof fn lem_push(h0: Hs, g: Hs, g2: Hs, x: PV, b: PV, n: int, m: int)
    requires batch(h0, g, x, b, n), keep(g, g2, rid(b)->L_0), g2.l[rid(b)] == g.l[rid(b)].push(PV::Ref(Id::L(m))), g.next <= m < g2.next, g2.l[Id::L(m)] =~= sample(h0, x, n),
    ensures batch(h0, g2, x, b, n + 1)
{
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] made(h0, g2, x, b, j) by { if j < n { assert(made(h0, g, x, b, j)); } }
}
@@fn data_generator as data_generator
@requires
    samples_ok(old(h)@, x@),
@throw (is_list(x@) && uneven(old(h)@, x@)) || !(is_nd(x@) || is_list(x@) || is_it(x@))
@ensures
    !throw_data_generator(old(h)@, x),
    same_but_new(old(h)@, final(h)@), final(h)@.runs == old(h)@.runs, batch(old(h)@, final(h)@, x@, r@, n_samples(old(h)@, x@) as int),
@start
    let ghost h0 = h@;
@loop 1 inv
    same_but_new(h0, h@), h@.runs == h0.runs, 0 <= k1 <= els(h0, x@).len(), gen_@ == PV::Ref(Id::L(h0.next)), batch(h0, h@, x@, gen_@, k1 as int),
@loop 1 begin
    let ghost gb = h@;
@loop 1 end
    proof { lem_push(h0, gb, h@, x@, gen_@, k1 as int, gb.next); }
@loop 2 inv
    same_but_new(h0, h@), h@.runs == h0.runs, 0 <= k2 <= els(h0, x@).len(), gen_@ == PV::Ref(Id::L(h0.next)), batch(h0, h@, x@, gen_@, 0),
    is_set(c2@), rid(c2@)->S_0 > h0.next,
    forall|j: int| 0 <= j < k2 ==> h@.s[rid(c2@)].contains(PV::Int(#[trigger] len_at(h0, x@, j) as int)),
    forall|v: PV| #[trigger] h@.s[rid(c2@)].contains(v) ==> exists|j: int| 0 <= j < k2 && v == PV::Int(#[trigger] len_at(h0, x@, j) as int),
@loop 2 begin
    let ghost gb = h@;
@loop 2 end
    proof {
        assert(h@.s[rid(c2@)] == gb.s[rid(c2@)].insert(PV::Int(len_at(h0, x@, k2 as int) as int)));
        assert forall|v: PV| #[trigger] h@.s[rid(c2@)].contains(v) implies exists|j: int| 0 <= j < k2 + 1 && v == PV::Int(#[trigger] len_at(h0, x@, j) as int) by {
            if !gb.s[rid(c2@)].contains(v) { assert(v == PV::Int(len_at(h0, x@, k2 as int) as int)); } else { let j = choose|j: int| 0 <= j < k2 && v == PV::Int(#[trigger] len_at(h0, x@, j) as int); assert(0 <= j < k2 + 1 && v == PV::Int(len_at(h0, x@, j) as int)); }
        }
    }
@loop 2 after
    proof {
        let s = h@.s[rid(c2@)];
        if s.len() > 1 {
            lem_one(s); let (a, b) = choose|a: PV, b: PV| s.contains(a) && s.contains(b) && a != b;
            assert(s.contains(a) && s.contains(b));
            let i = choose|i: int| 0 <= i < k2 && a == PV::Int(#[trigger] len_at(h0, x@, i) as int); let j = choose|j: int| 0 <= j < k2 && b == PV::Int(#[trigger] len_at(h0, x@, j) as int);
            assert(len_at(h0, x@, i) != len_at(h0, x@, j)); assert(uneven(h0, x@));
        } else {
            if uneven(h0, x@) {
                let (i, j) = choose|i: int, j: int| 0 <= i < els(h0, x@).len() && 0 <= j < els(h0, x@).len() && #[trigger] len_at(h0, x@, i) != #[trigger] len_at(h0, x@, j);
                lem_two(s, PV::Int(len_at(h0, x@, i) as int), PV::Int(len_at(h0, x@, j) as int));
            }
            assert(!uneven(h0, x@));
            assert forall|j: int| 0 <= j < els(h0, x@).len() implies els(h@, #[trigger] els(h0, x@)[j]).len() == n_samples(h0, x@) by { assert(len_at(h0, x@, j) == len_at(h0, x@, 0)); }
            if els(h0, x@).len() > 0 { lem_zip(h@, els(h0, x@), n_samples(h0, x@)); }
        }
    }
@loop 3 before
    let ghost g3 = h@;
    proof { assert(zipn(g3, els(g3, it3@)) >= 0); }
@loop 3 inv
    same_but_new(h0, h@), h@.runs == h0.runs, 0 <= k3 <= n_samples(h0, x@), gen_@ == PV::Ref(Id::L(h0.next)), batch(h0, h@, x@, gen_@, k3 as int), keep(g3, h@, h0.next),
@loop 3 begin
    let ghost gb = h@;
@loop 3 end
    proof { lem_push(h0, gb, h@, x@, gen_@, k3 as int, gb.next); }
@loop 3.1 before
    proof {
        assert(len_at(h0, x@, 0) == n_samples(h0, x@));
        assert forall|j: int| 0 <= j < els(h0, x@).len() implies is_nd(#[trigger] els(h0, els(h0, x@)[j])[k3 as int]) by { assert(len_at(h0, x@, j) == len_at(h0, x@, 0)); assert(is_nd(els(h0, x@)[j])); }
        assert(els(h@, it3_1@) =~= Seq::new(els(h0, x@).len(), |j: int| els(h0, els(h0, x@)[j])[k3 as int]));
    }
@loop 3.1 inv
    els(h@, it3_1@) == Seq::new(els(h0, x@).len(), |j: int| els(h0, els(h0, x@)[j])[k3 as int]),
    same_but_new(h0, h@), h@.runs == h0.runs, keep(gb, h@, gb.next), gb.l[gen_@->Ref_0] == h@.l[gen_@->Ref_0], c3_1@ == PV::Ref(Id::L(gb.next)), h@.next > gb.next,
    els(h@, c3_1@).len() == k3_1, k3_1 <= els(h0, x@).len(), forall|j: int| 0 <= j < k3_1 ==> #[trigger] els(h@, c3_1@)[j] == expand(els(h0, els(h0, x@)[j])[k3 as int]),
@loop 4 inv
    same_but_new(h0, h@), h@.runs == h0.runs, 0 <= k4 <= els(h0, x@).len(), gen_@ == PV::Ref(Id::L(h0.next)), batch(h0, h@, x@, gen_@, k4 as int),
@loop 4 begin
    let ghost gb = h@;
@loop 4 end
    proof { lem_push(h0, gb, h@, x@, gen_@, k4 as int, gb.next); }
@loop 4.1 inv
    same_but_new(h0, h@), h@.runs == h0.runs, keep(gb, h@, gb.next), gb.l[gen_@->Ref_0] == h@.l[gen_@->Ref_0], c4_1@ == PV::Ref(Id::L(gb.next)), h@.next > gb.next,
    els(h@, c4_1@).len() == k4_1, k4_1 <= els(h0, it4_1@).len(), forall|j: int| 0 <= j < k4_1 ==> #[trigger] els(h@, c4_1@)[j] == expand(els(h0, it4_1@)[j]),
@@foreach A in input_types: input_shapes: input_scales: input_zero_points: output_types: output_shapes: output_scales: output_zero_points:
@@fn InterpreterBase.$A as prop_$A
@requires
    is_obj(r_self@), is_obj(old(h)@.f[(rid(r_self@), Fld::interpreter)]),
@ensures
    final(h)@ == old(h)@, r@ == old(h)@.f[(rid(old(h)@.f[(rid(r_self@), Fld::interpreter)]), Fld::$A)],
@@end
@@fn InterpreterBase.__init__ as base_init
@requires
    is_obj(r_self@), !(interpreter@ is Unset),
@ensures
    final(h)@.f == old(h)@.f.insert((rid(r_self@), Fld::interpreter), interpreter@), final(h)@.runs == old(h)@.runs,
@@prelude
pub open spec fn wrapper(h: Hs, s: PV) -> PV { h.f[(rid(s), Fld::interpreter)] }
pub open spec fn shapes(h: Hs, s: PV) -> PV { h.f[(rid(wrapper(h, s)), Fld::output_shapes)] }
// run j of those made since h0 is on sample j, and gave an array per output
pub open spec fn ran(h0: Hs, rs: Seq<(Seq<PV>, Seq<PV>)>, x: PV, s: PV, j: int) -> bool {
    rs[h0.runs.len() + j].0 == sample(h0, x, j) && rs[h0.runs.len() + j].1.len() == n_out(h0, wrapper(h0, s)) && nds(rs[h0.runs.len() + j].1)
}
pub open spec fn runs_are(h0: Hs, rs: Seq<(Seq<PV>, Seq<PV>)>, x: PV, s: PV, n: int) -> bool {
    rs.len() == h0.runs.len() + n && (forall|j: int| 0 <= j < h0.runs.len() ==> #[trigger] rs[j] == h0.runs[j]) && (forall|j: int| 0 <= j < n ==> #[trigger] ran(h0, rs, x, s, j))
}
// output k of all the samples, in their order
pub open spec fn output(h0: Hs, rs: Seq<(Seq<PV>, Seq<PV>)>, n: int, k: int) -> PV { PV::Nd(nd_concat(Seq::new(n as nat, |j: int| rs[h0.runs.len() + j].1[k]))) }
pub open spec fn kept(h0: Hs, h: Hs, c: PV, n: int) -> bool { els(h, c).len() == n && forall|j: int| 0 <= j < n ==> #[trigger] kept1(h0, h, c, j) }
pub open spec fn kept1(h0: Hs, h: Hs, c: PV, j: int) -> bool { match els(h, c)[j] { PV::Ref(Id::L(m)) => rid(c)->L_0 < m < h.next && h.l[Id::L(m)] == h.runs[h0.runs.len() + j].1, _ => false } }
@@fn InterpreterBase.predict as base_predict
@requires
    samples_ok(old(h)@, x@), verbose@ is Int, is_obj(r_self@), is_obj(wrapper(old(h)@, r_self@)), is_l(old(h)@, shapes(old(h)@, r_self@)),
    n_out(old(h)@, wrapper(old(h)@, r_self@)) == 1 ==> n_samples(old(h)@, x@) > 0,
@throw (is_list(x@) && uneven(old(h)@, x@)) || !(is_nd(x@) || is_list(x@) || is_it(x@))
@ensures
    !throw_base_predict(old(h)@, r_self, x, verbose),
    same_but_new(old(h)@, final(h)@),
    runs_are(old(h)@, final(h)@.runs, x@, r_self@, n_samples(old(h)@, x@) as int),
    n_out(old(h)@, wrapper(old(h)@, r_self@)) == 1 ==> r@ == output(old(h)@, final(h)@.runs, n_samples(old(h)@, x@) as int, 0),
    n_out(old(h)@, wrapper(old(h)@, r_self@)) != 1 && n_samples(old(h)@, x@) > 0 ==> is_list(r@)
        && els(final(h)@, r@) =~= Seq::new(n_out(old(h)@, wrapper(old(h)@, r_self@)) as nat, |k: int| output(old(h)@, final(h)@.runs, n_samples(old(h)@, x@) as int, k)),
@start
    let ghost h0 = h@; let ghost n = n_samples(h0, x@) as int; let ghost s = r_self@; let ghost no = n_out(h0, wrapper(h0, s));
@call data_generator after
    let ghost gd = h@; let ghost dl = @RET@;
@loop 1 before
    proof { assert(rid(dl) == Id::L(rid(dl)->L_0)); assert(it1@ == dl); }
    let ghost g1 = h@; let ghost nc = rid(c1@)->L_0;
@loop 1 inv
    same_but_new(h0, h@), 0 <= k1 <= n, runs_are(h0, h@.runs, x@, s, k1 as int), keep(g1, h@, nc), kept(h0, h@, c1@, k1 as int),
@loop 1 begin
    let ghost gb = h@;
    proof { assert(made(h0, gd, x@, dl, k1 as int)); assert(rid(dl) == Id::L(rid(dl)->L_0)); assert(els(h@, it1@) == els(gd, dl)); }
@loop 1 end
    proof {
        assert forall|j: int| 0 <= j < k1 + 1 implies #[trigger] ran(h0, h@.runs, x@, s, j) by { if j < k1 { assert(ran(h0, gb.runs, x@, s, j)); } }
        assert forall|j: int| 0 <= j < k1 + 1 implies #[trigger] kept1(h0, h@, c1@, j) by { if j < k1 { assert(kept1(h0, gb, c1@, j)); } }
    }
@loop 1 after
    let ghost g4 = h@;
    proof {
        assert(rid(dl) == Id::L(rid(dl)->L_0)); assert(els(h@, it1@) == els(gd, dl)); assert(k1 == n);
        assert forall|j: int| 0 <= j < els(h@, c1@).len() implies iterable(#[trigger] els(h@, c1@)[j]) && els(h@, els(h@, c1@)[j]).len() == no && nds(els(h@, els(h@, c1@)[j])) by { assert(kept1(h0, h@, c1@, j)); assert(ran(h0, h@.runs, x@, s, j)); }
        if n > 0 { lem_zip(h@, els(h@, c1@), no as nat); }
    }
@loop 2 before
    let ghost g2 = h@; let ghost gz = n; let ghost nq = rid(c2@)->L_0;
@loop 2 inv
    same_but_new(h0, h@), runs_are(h0, h@.runs, x@, s, n), h@.runs == g2.runs, keep(g2, h@, nq), k2 <= els(g2, it2@).len(), els(h@, c2@).len() == k2, n == 0 ==> els(g2, it2@).len() == 0,
    forall|k: int| 0 <= k < k2 ==> #[trigger] els(h@, c2@)[k] == output(h0, h@.runs, n, k),
@loop 2 begin
    proof {
        assert(rid(it2@) == Id::L(rid(it2@)->L_0)); assert(els(h@, it2@) == els(g2, it2@)); let b = els(g2, it2@)[k2 as int]; assert(rid(b) == Id::L(g4.next + 1 + k2));
        assert(els(h@, b) == g2.l[Id::L(g4.next + 1 + k2)]); assert(g2.l[Id::L(g4.next + 1 + k2)] == Seq::new(els(g4, c1@).len(), |j: int| els(g4, els(g4, c1@)[j])[k2 as int]));
        assert(els(h@, b) =~= Seq::new(n as nat, |j: int| h@.runs[h0.runs.len() + j].1[k2 as int])) by { assert forall|j: int| 0 <= j < n implies #[trigger] els(h@, b)[j] == h@.runs[h0.runs.len() + j].1[k2 as int] by { assert(kept1(h0, g4, c1@, j)); } }
        assert forall|j: int| 0 <= j < n implies is_nd(#[trigger] els(h@, b)[j]) by { assert(ran(h0, h@.runs, x@, s, j)); assert(is_nd(h@.runs[h0.runs.len() + j].1[k2 as int])); }
    }
