## rewriting the inputs and outputs of a converted model (mlir/python/util.py)
@@const tflite_schema.BuiltinOperator.QUANTIZE => PV::Int(114)
@@const tflite_schema.BuiltinOperator.DEQUANTIZE => PV::Int(6)
@@const tflite_schema.TensorType.FLOAT32 => PV::Int(0)
@@const tflite_schema.TensorType.INT32 => PV::Int(2)
@@const tflite_schema.TensorType.INT8 => PV::Int(9)
@@const tf.float32 => PV::Str(-1)
@@const tf.int8 => PV::Str(-2)
@@extern _convert_model_from_bytearray_to_object => load_model
@@extern _convert_model_from_object_to_bytearray => store_model
@@prelude
pub open spec fn tns(h: Hs, i: int) -> Seq<PV> { h.l[Id::Tensors(i)] }
pub open spec fn ops(h: Hs, i: int) -> Seq<PV> { h.l[Id::Ops(i)] }
pub open spec fn idxs(s: Seq<PV>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) is Int && -1 <= ival(s[k]) < n }
pub open spec fn distinct(s: Seq<PV>) -> bool { forall|j: int, k: int| 0 <= j < k < s.len() ==> #[trigger] s[j] != #[trigger] s[k] }
pub open spec fn is_op(v: PV, i: int) -> bool { match v { PV::Ref(Id::Op(a, b)) => a == i, _ => false } }
pub open spec fn opn(v: PV) -> int { match v { PV::Ref(Id::Op(a, b)) => b, _ => 0 } }
pub open spec fn is_tensor(v: PV, i: int) -> bool { match v { PV::Ref(Id::Tensor(a, b)) => a == i, _ => false } }
pub open spec fn opin(h: Hs, i: int, v: PV) -> Seq<PV> { h.a[Id::OpIn(i, opn(v))] }
pub open spec fn opout(h: Hs, i: int, v: PV) -> Seq<PV> { h.a[Id::OpOut(i, opn(v))] }
pub open spec fn opmid(h: Hs, i: int, v: PV) -> Seq<PV> { h.a[Id::OpMid(i, opn(v))] }
pub open spec fn hasmid(h: Hs, v: PV) -> bool { !(h.f[(rid(v), Fld::intermediates)] is None) }
pub open spec fn wfop(h: Hs, i: int, v: PV) -> bool {
    is_op(v, i) && h.f[(rid(v), Fld::inputs)] == PV::Ref(Id::OpIn(i, opn(v))) && h.f[(rid(v), Fld::outputs)] == PV::Ref(Id::OpOut(i, opn(v)))
    && (hasmid(h, v) ==> h.f[(rid(v), Fld::intermediates)] == PV::Ref(Id::OpMid(i, opn(v))))
    && h.f[(rid(v), Fld::opcodeIndex)] is Int
    && idxs(opin(h, i, v), tns(h, i).len() as int) && idxs(opout(h, i, v), tns(h, i).len() as int) && (hasmid(h, v) ==> idxs(opmid(h, i, v), tns(h, i).len() as int))
}
pub open spec fn tmi(h: Hs, k: int, b: bool, j: int) -> PV { h.f[(Id::Tm(k, b, j), Fld::tensorIndex)] }
pub open spec fn sigsub(h: Hs, k: int) -> int { ival(h.f[(Id::Sig(k), Fld::subgraphIndex)]) }
pub open spec fn sigl(h: Hs, k: int, b: bool) -> Seq<PV> { h.l[if b { Id::SigOut(k) } else { Id::SigIn(k) }] }
pub open spec fn tmlist(s: Seq<PV>, k: int, b: bool) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == PV::Ref(Id::Tm(k, b, j)) }
pub open spec fn nsig(h: Hs) -> int { if h.f[(Id::Model, Fld::signatureDefs)] is None { 0 } else { h.l[Id::Sigs].len() as int } }
pub open spec fn wfsig(h: Hs, k: int) -> bool {
    h.l[Id::Sigs][k] == PV::Ref(Id::Sig(k)) && h.f[(Id::Sig(k), Fld::subgraphIndex)] is Int && 0 <= sigsub(h, k) < h.l[Id::Subs].len()
    && h.f[(Id::Sig(k), Fld::inputs)] == PV::Ref(Id::SigIn(k)) && h.f[(Id::Sig(k), Fld::outputs)] == PV::Ref(Id::SigOut(k))
    && tmlist(h.l[Id::SigIn(k)], k, false) && tmlist(h.l[Id::SigOut(k)], k, true)
    && (forall|b: bool, j: int| 0 <= j < sigl(h, k, b).len() ==> (#[trigger] tmi(h, k, b, j)) is Int)
}
// a signature names inputs and outputs of its subgraph
pub open spec fn sigin(h: Hs, i: int) -> bool { forall|k: int, b: bool, j: int| 0 <= k < nsig(h) && sigsub(h, k) == i && 0 <= j < sigl(h, k, b).len() ==> h.a[if b { Id::Outs(i) } else { Id::Ins(i) }].contains(#[trigger] tmi(h, k, b, j)) }
// what the functions rely on: subgraph i of the model refers to its own tensors only
pub open spec fn wf(h: Hs, i: int) -> bool {
    h.f[(Id::Sub(i), Fld::tensors)] == PV::Ref(Id::Tensors(i)) && h.f[(Id::Sub(i), Fld::operators)] == PV::Ref(Id::Ops(i))
    && h.f[(Id::Sub(i), Fld::inputs)] == PV::Ref(Id::Ins(i)) && h.f[(Id::Sub(i), Fld::outputs)] == PV::Ref(Id::Outs(i))
    && distinct(tns(h, i)) && (forall|k: int| 0 <= k < tns(h, i).len() ==> is_tensor(#[trigger] tns(h, i)[k], i))
    && idxs(h.a[Id::Ins(i)], tns(h, i).len() as int) && idxs(h.a[Id::Outs(i)], tns(h, i).len() as int)
    && distinct(ops(h, i)) && (forall|k: int| 0 <= k < ops(h, i).len() ==> wfop(h, i, #[trigger] ops(h, i)[k]))
    && wfs(h) && 0 <= i < h.l[Id::Subs].len()
}
pub open spec fn wfs(h: Hs) -> bool {
    (h.f[(Id::Model, Fld::signatureDefs)] is None || h.f[(Id::Model, Fld::signatureDefs)] == PV::Ref(Id::Sigs))
    && (forall|k: int| 0 <= k < nsig(h) ==> #[trigger] wfsig(h, k))
    && h.f[(Id::Model, Fld::subgraphs)] == PV::Ref(Id::Subs) && (forall|k: int| 0 <= k < h.l[Id::Subs].len() ==> #[trigger] h.l[Id::Subs][k] == PV::Ref(Id::Sub(k)))
}
// nothing but objects made in between
pub open spec fn newonly(h0: Hs, h1: Hs) -> bool {
    h1.f == h0.f && h1.a == h0.a && h1.d == h0.d && h1.s == h0.s && h1.k == h0.k && h1.next >= h0.next
    && (forall|x: Id| !(x is L && x->L_0 >= h0.next) ==> #[trigger] h1.l[x] == h0.l[x])
}
// what a list keeps of its first n elements
pub open spec fn ks(s: Seq<PV>, x: Set<PV>, n: int) -> Seq<PV> decreases n { if n <= 0 { Seq::empty() } else if x.contains(s[n - 1]) { ks(s, x, n - 1) } else { ks(s, x, n - 1).push(s[n - 1]) } }
pub proof fn lem_ks_prefix(s: Seq<PV>, x: Set<PV>, n: int, m: int)
    requires 0 <= n <= m <= s.len(),
    ensures ks(s, x, n).len() <= ks(s, x, m).len(), ks(s, x, m).len() <= m, forall|k: int| 0 <= k < ks(s, x, n).len() ==> #[trigger] ks(s, x, m)[k] == ks(s, x, n)[k],
    decreases m
{ if m == 0 { } else if n < m { lem_ks_prefix(s, x, n, m - 1); lem_ks_prefix(s, x, m - 1, m - 1); } else { lem_ks_prefix(s, x, n - 1, n - 1); } }
pub proof fn lem_ks_rank(s: Seq<PV>, x: Set<PV>, q: int, m: int)
    requires 0 <= q < m <= s.len(), !x.contains(s[q]),
    ensures ks(s, x, q).len() < ks(s, x, m).len(), ks(s, x, m)[ks(s, x, q).len() as int] == s[q]
{ lem_ks_prefix(s, x, q + 1, m); assert(ks(s, x, q + 1) == ks(s, x, q).push(s[q])); }
pub proof fn lem_ks_low(s: Seq<PV>, x: Set<PV>, n: int)
    requires 0 <= n <= s.len(), forall|q: int| 0 <= q < n ==> !x.contains(#[trigger] s[q]),
    ensures ks(s, x, n) =~= s.take(n),
    decreases n
{ if n > 0 { lem_ks_low(s, x, n - 1); } }
pub proof fn lem_ks_in(s: Seq<PV>, x: Set<PV>, n: int)
    requires 0 <= n <= s.len(),
    ensures forall|k: int| 0 <= k < ks(s, x, n).len() ==> !x.contains(#[trigger] ks(s, x, n)[k]) && (exists|q: int| 0 <= q < n && s[q] == ks(s, x, n)[k]),
        forall|q: int| 0 <= q < n && !x.contains(#[trigger] s[q]) ==> ks(s, x, n).contains(s[q]),
        distinct(s) ==> distinct(ks(s, x, n)),
    decreases n
{ if n > 0 {
    lem_ks_in(s, x, n - 1); let a = ks(s, x, n - 1); let b = ks(s, x, n);
    assert forall|k: int| 0 <= k < b.len() implies !x.contains(#[trigger] b[k]) && (exists|q: int| 0 <= q < n && s[q] == b[k]) by {
        if k < a.len() { assert(b[k] == a[k]); let q = choose|q: int| 0 <= q < n - 1 && s[q] == a[k]; assert(s[q] == b[k]); } else { assert(s[n - 1] == b[k]); }
    }
    assert forall|q: int| 0 <= q < n && !x.contains(#[trigger] s[q]) implies b.contains(s[q]) by {
        if q < n - 1 { assert(a.contains(s[q])); let k = choose|k: int| 0 <= k < a.len() && a[k] == s[q]; assert(b[k] == s[q]); } else { assert(b[b.len() - 1] == s[q]); }
    }
    if distinct(s) { assert forall|j: int, k: int| 0 <= j < k < b.len() implies #[trigger] b[j] != #[trigger] b[k] by {
        if k < a.len() { assert(b[j] == a[j] && b[k] == a[k]); } else { assert(b[j] == a[j]); let q = choose|q: int| 0 <= q < n - 1 && s[q] == a[j]; assert(b[k] == s[n - 1]); assert(s[q] != s[n - 1]); }
    } }
} }
// taking one more element out
pub proof fn lem_ks_remove(s: Seq<PV>, x: Set<PV>, n: int, p: int)
    requires 0 <= n <= s.len(), distinct(s), 0 <= p < ks(s, x, n).len(),
    ensures ks(s, x, n).remove(p) =~= ks(s, x.insert(ks(s, x, n)[p]), n),
    decreases n
{
    lem_ks_in(s, x, n);
    let v = ks(s, x, n)[p]; let a = ks(s, x, n - 1);
    lem_ks_in(s, x, n - 1);
    if x.contains(s[n - 1]) { lem_ks_remove(s, x, n - 1, p); assert(x.insert(v).contains(s[n - 1])); }
    else if p == a.len() {
        assert(v == s[n - 1]);
        lem_ks_same(s, x, x.insert(v), n - 1);
        assert(ks(s, x, n).remove(p) =~= a);
    } else {
        lem_ks_remove(s, x, n - 1, p);
        let q = choose|q: int| 0 <= q < n - 1 && s[q] == a[p];
        assert(s[q] != s[n - 1]);
        assert(ks(s, x, n).remove(p) =~= a.remove(p).push(s[n - 1]));
    }
}
pub proof fn lem_ks_same(s: Seq<PV>, x: Set<PV>, y: Set<PV>, n: int)
    requires 0 <= n <= s.len(), forall|q: int| 0 <= q < n ==> (x.contains(#[trigger] s[q]) <==> y.contains(s[q])),
    ensures ks(s, x, n) == ks(s, y, n),
    decreases n
{ if n > 0 { lem_ks_same(s, x, y, n - 1); } }
// the tensors of a set of indices
pub open spec fn att(s: Seq<PV>, r: Set<PV>, n: int) -> Set<PV> decreases n { if n <= 0 { Set::empty() } else if r.contains(PV::Int(n - 1)) { att(s, r, n - 1).insert(s[n - 1]) } else { att(s, r, n - 1) } }
pub open spec fn at(s: Seq<PV>, r: Set<PV>) -> Set<PV> { att(s, r, s.len() as int) }
pub proof fn lem_att(s: Seq<PV>, r: Set<PV>, n: int)
    requires 0 <= n <= s.len(), distinct(s),
    ensures forall|q: int| 0 <= q < s.len() ==> (att(s, r, n).contains(#[trigger] s[q]) <==> (q < n && r.contains(PV::Int(q)))),
    decreases n
{ if n > 0 { lem_att(s, r, n - 1); assert forall|q: int| 0 <= q < s.len() implies (att(s, r, n).contains(#[trigger] s[q]) <==> (q < n && r.contains(PV::Int(q)))) by { if q != n - 1 { assert(s[q] != s[n - 1]); } } } }
pub proof fn lem_at(s: Seq<PV>, r: Set<PV>)
    requires distinct(s),
    ensures forall|q: int| 0 <= q < s.len() ==> (at(s, r).contains(#[trigger] s[q]) <==> r.contains(PV::Int(q)))
{ lem_att(s, r, s.len() as int); }
pub open spec fn rng(a: int, b: int) -> Set<PV> decreases b - a { if a >= b { Set::empty() } else { rng(a, b - 1).insert(PV::Int(b - 1)) } }
pub proof fn lem_rng(a: int, b: int)
    requires a <= b,
    ensures rng(a, b).len() == b - a, forall|x: PV| #[trigger] rng(a, b).contains(x) <==> (x is Int && a <= ival(x) < b),
    decreases b - a
{ if a < b { lem_rng(a, b - 1); assert forall|x: PV| #[trigger] rng(a, b).contains(x) <==> (x is Int && a <= ival(x) < b) by { if x is Int && ival(x) == b - 1 { assert(x == PV::Int(b - 1)); } } } }
// the tensor an index refers to (none, for -1)
pub open spec fn den(t: Seq<PV>, v: PV) -> PV { if 0 <= ival(v) < t.len() { t[ival(v)] } else { PV::None } }
pub open spec fn same(t0: Seq<PV>, s0: Seq<PV>, t1: Seq<PV>, s1: Seq<PV>) -> bool { s0.len() == s1.len() && (forall|k: int| 0 <= k < s0.len() ==> den(t1, #[trigger] s1[k]) == den(t0, s0[k])) }
pub open spec fn unused(s: Seq<PV>, r: Set<PV>) -> bool { forall|k: int| 0 <= k < s.len() ==> !r.contains(#[trigger] s[k]) }
pub open spec fn mapd(s: Seq<PV>, d: Map<PV, PV>) -> Seq<PV> { Seq::new(s.len(), |k: int| getd(d, s[k])) }
pub open spec fn getd(d: Map<PV, PV>, x: PV) -> PV { if d.dom().contains(x) { d[x] } else { PV::Int(-1) } }
pub open spec fn getx(d: Map<PV, PV>, x: PV) -> PV { if d.dom().contains(x) { d[x] } else { x } }
// some list still refers to a tensor that is to go
pub open spec fn inuse(h: Hs, i: int, r: Set<PV>) -> bool {
    !unused(h.a[Id::Ins(i)], r) || !unused(h.a[Id::Outs(i)], r) || (exists|k: int| 0 <= k < ops(h, i).len() && !#[trigger] opfree(h, i, ops(h, i)[k], r))
}
pub open spec fn opfree(h: Hs, i: int, v: PV, r: Set<PV>) -> bool { unused(opin(h, i, v), r) && unused(opout(h, i, v), r) && (hasmid(h, v) ==> unused(opmid(h, i, v), r)) }
// the tensors r are gone; every list of the subgraph refers to the same tensors as before
pub open spec fn rem_post(h0: Hs, h1: Hs, i: int, r: Set<PV>) -> bool {
    let t0 = tns(h0, i); let t1 = tns(h1, i);
    t1 == ks(t0, at(t0, r), t0.len() as int)
    && same(t0, h0.a[Id::Ins(i)], t1, h1.a[Id::Ins(i)]) && same(t0, h0.a[Id::Outs(i)], t1, h1.a[Id::Outs(i)])
    && (forall|k: int| 0 <= k < ops(h0, i).len() ==> #[trigger] opsame(h0, h1, i, ops(h0, i)[k]))
    && (forall|k: int, b: bool, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() ==> den(t1, #[trigger] tmi(h1, k, b, j)) == den(t0, tmi(h0, k, b, j)))
    && rem_frame(h0, h1, i)
}
pub open spec fn opsame(h0: Hs, h1: Hs, i: int, v: PV) -> bool { same(tns(h0, i), opin(h0, i, v), tns(h1, i), opin(h1, i, v)) && same(tns(h0, i), opout(h0, i, v), tns(h1, i), opout(h1, i, v)) && (hasmid(h0, v) ==> same(tns(h0, i), opmid(h0, i, v), tns(h1, i), opmid(h1, i, v))) }
// nothing else of the model changes: no operator, no other subgraph, no signature of another subgraph
pub open spec fn sub_arr(x: Id, i: int) -> bool { x == Id::Ins(i) || x == Id::Outs(i) || (x is OpIn && x->OpIn_0 == i) || (x is OpOut && x->OpOut_0 == i) || (x is OpMid && x->OpMid_0 == i) }
pub open spec fn made(x: Id) -> bool { x is L || x is S || x is D || x is K }
pub open spec fn sub_tm(h: Hs, x: (Id, Fld), i: int) -> bool { x.1 == Fld::tensorIndex && x.0 is Tm && 0 <= x.0->Tm_0 < nsig(h) && sigsub(h, x.0->Tm_0) == i }
pub open spec fn rem_frame(h0: Hs, h1: Hs, i: int) -> bool {
    (forall|x: Id| !sub_arr(x, i) ==> #[trigger] h1.a[x] == h0.a[x])
    && (forall|x: Id| !made(x) && x != Id::Tensors(i) ==> #[trigger] h1.l[x] == h0.l[x])
    && (forall|x: (Id, Fld)| !sub_tm(h0, x, i) ==> #[trigger] h1.f[x] == h0.f[x])
}
pub open spec fn sigq(v: V) -> int { match rid(v@) { Id::SigIn(q) => q, Id::SigOut(q) => q, _ => 0 } }
pub open spec fn sigb(v: V) -> bool { rid(v@) is SigOut }
pub open spec fn tm_of(x: (Id, Fld), v: V, n: int) -> bool { x.1 == Fld::tensorIndex && x.0 is Tm && x.0->Tm_0 == sigq(v) && x.0->Tm_1 == sigb(v) && 0 <= x.0->Tm_2 < n }
pub proof fn lem_ks_high(s: Seq<PV>, x: Set<PV>, a: int, n: int)
    requires 0 <= a <= n <= s.len(), forall|q: int| a <= q < n ==> x.contains(#[trigger] s[q]),
    ensures ks(s, x, n) == ks(s, x, a),
    decreases n
{ if a < n { lem_ks_high(s, x, a, n - 1); } }
pub proof fn lem_sub(a: Set<PV>, b: Set<PV>)
    requires forall|x: PV| a.contains(x) ==> #[trigger] b.contains(x), a.len() == b.len(),
    ensures forall|x: PV| b.contains(x) ==> #[trigger] a.contains(x),
    decreases b.len()
{
    assert forall|x: PV| b.contains(x) implies #[trigger] a.contains(x) by { if !a.contains(x) { lem_sub_len(a, b.remove(x)); } }
}
pub proof fn lem_sub_len(a: Set<PV>, b: Set<PV>)
    requires forall|x: PV| a.contains(x) ==> #[trigger] b.contains(x),
    ensures a.len() <= b.len(),
    decreases a.len()
{ if a.len() > 0 { let x = a.choose(); assert(a.contains(x)); assert(b.contains(x)); lem_sub_len(a.remove(x), b.remove(x)); } }
// the new index of every tensor that stays
pub open spec fn renum(t: Seq<PV>, r: Set<PV>, d: Map<PV, PV>, n: int) -> bool {
    (forall|q: int| 0 <= q < n && !(#[trigger] r.contains(PV::Int(q))) ==> d.dom().contains(PV::Int(q)) && d[PV::Int(q)] == PV::Int(ks(t, at(t, r), q).len() as int))
    && (forall|x: PV| #[trigger] d.dom().contains(x) ==> x is Int && 0 <= ival(x) < n && !r.contains(x))
}
pub proof fn lem_renum(t: Seq<PV>, r: Set<PV>, d: Map<PV, PV>, v: PV)
    requires distinct(t), renum(t, r, d, t.len() as int), v is Int, -1 <= ival(v) < t.len(), !r.contains(v),
    ensures den(ks(t, at(t, r), t.len() as int), getd(d, v)) == den(t, v), getd(d, v) == getx(d, v), getd(d, v) is Int, -1 <= ival(getd(d, v)) < ks(t, at(t, r), t.len() as int).len(),
{
    if ival(v) >= 0 { let q = ival(v); assert(v == PV::Int(q)); lem_at(t, r); lem_ks_rank(t, at(t, r), q, t.len() as int); } else { assert(v == PV::Int(-1)); assert(!d.dom().contains(v)); }
}
pub proof fn lem_renums(t: Seq<PV>, r: Set<PV>, d: Map<PV, PV>, s: Seq<PV>)
    requires distinct(t), renum(t, r, d, t.len() as int), idxs(s, t.len() as int), unused(s, r),
    ensures same(t, s, ks(t, at(t, r), t.len() as int), mapd(s, d)), idxs(mapd(s, d), ks(t, at(t, r), t.len() as int).len() as int),
{
    let t1 = ks(t, at(t, r), t.len() as int);
    assert forall|k: int| 0 <= k < s.len() implies den(t1, #[trigger] mapd(s, d)[k]) == den(t, s[k]) by { lem_renum(t, r, d, s[k]); }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] mapd(s, d)[k]) is Int && -1 <= ival(mapd(s, d)[k]) < t1.len() by { lem_renum(t, r, d, s[k]); }
}
pub proof fn lem_renum_step(t: Seq<PV>, r: Set<PV>, d: Map<PV, PV>, n: int)
    requires distinct(t), 0 <= n < t.len(), renum(t, r, d, n),
    ensures r.contains(PV::Int(n)) ==> renum(t, r, d, n + 1) && ks(t, at(t, r), n + 1) == ks(t, at(t, r), n),
        !r.contains(PV::Int(n)) ==> renum(t, r, d.insert(PV::Int(n), PV::Int(ks(t, at(t, r), n).len() as int)), n + 1) && ks(t, at(t, r), n + 1).len() == ks(t, at(t, r), n).len() + 1,
{ lem_at(t, r); }
// the tensors of the first n elements of a list of indices
pub open spec fn pops(t: Seq<PV>, s: Seq<PV>, n: int) -> Set<PV> decreases n { if n <= 0 { Set::empty() } else { pops(t, s, n - 1).insert(t[ival(s[n - 1])]) } }
pub proof fn lem_pops(t: Seq<PV>, s: Seq<PV>, n: int)
    requires 0 <= n <= s.len(), distinct(t), forall|m: int| 0 <= m < s.len() ==> (#[trigger] s[m]) is Int && 0 <= ival(s[m]) < t.len(),
    ensures forall|q: int| 0 <= q < t.len() ==> (pops(t, s, n).contains(#[trigger] t[q]) <==> (exists|m: int| 0 <= m < n && s[m] == PV::Int(q))),
    decreases n
{
    if n > 0 {
        lem_pops(t, s, n - 1);
        assert forall|q: int| 0 <= q < t.len() implies (pops(t, s, n).contains(#[trigger] t[q]) <==> (exists|m: int| 0 <= m < n && s[m] == PV::Int(q))) by {
            let e = ival(s[n - 1]);
            assert(s[n - 1] == PV::Int(e));
            if q < e { assert(t[q] != t[e]); } else if e < q { assert(t[e] != t[q]); }
            if pops(t, s, n - 1).contains(t[q]) { let m = choose|m: int| 0 <= m < n - 1 && s[m] == PV::Int(q); assert(0 <= m < n && s[m] == PV::Int(q)); }
        }
    }
}
pub open spec fn down(s: Seq<PV>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> ival(#[trigger] s[a]) > ival(#[trigger] s[b]) }
pub proof fn lem_pop_step(t: Seq<PV>, s: Seq<PV>, n: int)
    requires 0 <= n < s.len(), distinct(t), down(s), forall|m: int| 0 <= m < s.len() ==> (#[trigger] s[m]) is Int && 0 <= ival(s[m]) < t.len(),
    ensures ival(s[n]) < ks(t, pops(t, s, n), t.len() as int).len(),
        ks(t, pops(t, s, n), t.len() as int).remove(ival(s[n])) == ks(t, pops(t, s, n + 1), t.len() as int),
{
    let x = pops(t, s, n); let e = ival(s[n]); let l = t.len() as int;
    lem_pops(t, s, n);
    assert forall|q: int| 0 <= q < e + 1 implies !x.contains(#[trigger] t[q]) by {
        if x.contains(t[q]) { let m = choose|m: int| 0 <= m < n && s[m] == PV::Int(q); assert(ival(s[m]) > ival(s[n])); }
    }
    lem_ks_low(t, x, e + 1); lem_ks_prefix(t, x, e + 1, l);
    assert(ks(t, x, l)[e] == ks(t, x, e + 1)[e]); assert(ks(t, x, l)[e] == t[e]);
    lem_ks_remove(t, x, l, e);
}
// signature k is among the first n of a list
pub open spec fn upto(s: Seq<PV>, n: int, k: int) -> bool { exists|m: int| 0 <= m < n && #[trigger] s[m] == PV::Ref(Id::Sig(k)) }
pub open spec fn tm_up(h: Hs, s: Seq<PV>, n: int, x: (Id, Fld)) -> bool { x.1 == Fld::tensorIndex && x.0 is Tm && upto(s, n, x.0->Tm_0) && 0 <= x.0->Tm_2 < sigl(h, x.0->Tm_0, x.0->Tm_1).len() }
#[verifier::opaque] pub open spec fn sig_up(h0: Hs, f: Map<(Id, Fld), PV>, s: Seq<PV>, n: int, d: Map<PV, PV>) -> bool { forall|x: (Id, Fld)| #[trigger] f[x] == (if tm_up(h0, s, n, x) { getx(d, h0.f[x]) } else { h0.f[x] }) }
pub open spec fn opmap(h0: Hs, h1: Hs, i: int, v: PV, d: Map<PV, PV>) -> bool { opin(h1, i, v) == mapd(opin(h0, i, v), d) && opout(h1, i, v) == mapd(opout(h0, i, v), d) && opmid(h1, i, v) == (if hasmid(h0, v) { mapd(opmid(h0, i, v), d) } else { opmid(h0, i, v) }) }
pub open spec fn opkeep(h0: Hs, h1: Hs, i: int, v: PV) -> bool { opin(h1, i, v) == opin(h0, i, v) && opout(h1, i, v) == opout(h0, i, v) && opmid(h1, i, v) == opmid(h0, i, v) }
// the tensors at the end go: nothing is renumbered
pub proof fn lem_tail(h0: Hs, h1: Hs, i: int, r: Set<PV>, c: int)
    requires wf(h0, i), sigin(h0, i), !inuse(h0, i, r), forall|x: PV| #[trigger] r.contains(x) ==> x is Int && c <= ival(x) < tns(h0, i).len(), 0 <= c, c == tns(h0, i).len() - r.len(),
        h1 == (Hs { l: h1.l, ..h0 }), h1.l == h0.l.insert(Id::Tensors(i), tns(h0, i).take(c)),
    ensures rem_post(h0, h1, i, r), wf(h1, i), sigin(h1, i),
{
    let t = tns(h0, i); let n = t.len() as int; let t1 = tns(h1, i);
    lem_rng(c, n); lem_sub(r, rng(c, n)); lem_at(t, r);
    assert forall|q: int| c <= q < n implies at(t, r).contains(#[trigger] t[q]) by { assert(rng(c, n).contains(PV::Int(q))); }
    assert forall|q: int| 0 <= q < c implies !at(t, r).contains(#[trigger] t[q]) by { }
    lem_ks_high(t, at(t, r), c, n); lem_ks_low(t, at(t, r), c);
    assert forall|v: PV| v is Int && -1 <= ival(v) < n && !r.contains(v) implies #[trigger] den(t1, v) == den(t, v) && ival(v) < c by { if ival(v) >= c { assert(rng(c, n).contains(v)); } }
    assert forall|k: int| 0 <= k < ops(h0, i).len() implies #[trigger] opsame(h0, h1, i, ops(h0, i)[k]) && wfop(h1, i, ops(h0, i)[k]) by { let v = ops(h0, i)[k]; assert(wfop(h0, i, v)); assert(opfree(h0, i, v, r)); lem_low(t, t1, opin(h0, i, v), r); lem_low(t, t1, opout(h0, i, v), r); if hasmid(h0, v) { lem_low(t, t1, opmid(h0, i, v), r); } }
    assert forall|k: int| 0 <= k < ops(h1, i).len() implies wfop(h1, i, #[trigger] ops(h1, i)[k]) by { assert(opsame(h0, h1, i, ops(h0, i)[k])); }
    assert forall|k: int| 0 <= k < t1.len() implies is_tensor(#[trigger] t1[k], i) by { assert(is_tensor(t[k], i)); }
    assert(distinct(t1)) by { assert forall|j: int, k: int| 0 <= j < k < t1.len() implies #[trigger] t1[j] != #[trigger] t1[k] by { assert(t[j] != t[k]); } }
    lem_low(t, t1, h0.a[Id::Ins(i)], r); lem_low(t, t1, h0.a[Id::Outs(i)], r);
    assert forall|k: int, b: bool, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() implies den(t1, #[trigger] tmi(h1, k, b, j)) == den(t, tmi(h0, k, b, j)) by {
        let s = h0.a[if b { Id::Outs(i) } else { Id::Ins(i) }]; assert(s.contains(tmi(h0, k, b, j))); let m = choose|m: int| 0 <= m < s.len() && s[m] == tmi(h0, k, b, j); assert(same(t, s, t1, s)); assert(den(t1, s[m]) == den(t, s[m]));
    }
    assert forall|k: int| 0 <= k < nsig(h1) implies #[trigger] wfsig(h1, k) by { assert(wfsig(h0, k)); assert forall|b: bool, j: int| 0 <= j < sigl(h1, k, b).len() implies (#[trigger] tmi(h1, k, b, j)) is Int by { assert(tmi(h0, k, b, j) is Int); } }
    assert forall|k: int, b: bool, j: int| 0 <= k < nsig(h1) && sigsub(h1, k) == i && 0 <= j < sigl(h1, k, b).len() implies h1.a[if b { Id::Outs(i) } else { Id::Ins(i) }].contains(#[trigger] tmi(h1, k, b, j)) by { assert(h0.a[if b { Id::Outs(i) } else { Id::Ins(i) }].contains(tmi(h0, k, b, j))); }
}
pub proof fn lem_low(t: Seq<PV>, t1: Seq<PV>, s: Seq<PV>, r: Set<PV>)
    requires idxs(s, t.len() as int), unused(s, r), t1.len() <= t.len(), forall|v: PV| v is Int && -1 <= ival(v) < t.len() && !r.contains(v) ==> #[trigger] den(t1, v) == den(t, v) && ival(v) < t1.len(),
    ensures same(t, s, t1, s), idxs(s, t1.len() as int),
{
    assert forall|k: int| 0 <= k < s.len() implies den(t1, #[trigger] s[k]) == den(t, s[k]) && s[k] is Int && -1 <= ival(s[k]) < t1.len() by { assert(den(t1, s[k]) == den(t, s[k])); }
}
// every list was renumbered
pub proof fn lem_removed(h0: Hs, h1: Hs, i: int, r: Set<PV>, d: Map<PV, PV>, s: Seq<PV>)
    requires wf(h0, i), sigin(h0, i), !inuse(h0, i, r), forall|x: PV| #[trigger] r.contains(x) ==> x is Int && 0 <= ival(x) < tns(h0, i).len(),
        renum(tns(h0, i), r, d, tns(h0, i).len() as int), tns(h1, i) == ks(tns(h0, i), at(tns(h0, i), r), tns(h0, i).len() as int),
        forall|x: Id| !made(x) && x != Id::Tensors(i) ==> #[trigger] h1.l[x] == h0.l[x],
        h1.a[Id::Ins(i)] == mapd(h0.a[Id::Ins(i)], d), h1.a[Id::Outs(i)] == mapd(h0.a[Id::Outs(i)], d), forall|x: Id| !sub_arr(x, i) ==> #[trigger] h1.a[x] == h0.a[x],
        ops_map(h0, h1, i, ops(h0, i).len() as int, d),
        sig_up(h0, h1.f, s, s.len() as int, d), forall|k: int| 0 <= k < nsig(h0) ==> (upto(s, s.len() as int, k) <==> #[trigger] sigsub(h0, k) == i),
        forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == PV::Ref(Id::Sig(rid(s[j])->Sig_0)) && 0 <= rid(s[j])->Sig_0 < nsig(h0),
    ensures rem_post(h0, h1, i, r), wf(h1, i), sigin(h1, i),
{
    reveal(sig_up); reveal(ops_map);
    let t = tns(h0, i); let n = t.len() as int; let t1 = tns(h1, i);
    lem_at(t, r); lem_ks_in(t, at(t, r), n);
    assert forall|k: int| 0 <= k < t1.len() implies is_tensor(#[trigger] t1[k], i) by { let q = choose|q: int| 0 <= q < n && t[q] == t1[k]; assert(is_tensor(t[q], i)); }
    lem_renums(t, r, d, h0.a[Id::Ins(i)]); lem_renums(t, r, d, h0.a[Id::Outs(i)]);
    assert forall|k: int| 0 <= k < ops(h0, i).len() implies #[trigger] opsame(h0, h1, i, ops(h0, i)[k]) && wfop(h1, i, ops(h0, i)[k]) by {
        let v = ops(h0, i)[k]; assert(wfop(h0, i, v)); assert(opfree(h0, i, v, r)); assert(opmap(h0, h1, i, v, d));
        lem_renums(t, r, d, opin(h0, i, v)); lem_renums(t, r, d, opout(h0, i, v)); if hasmid(h0, v) { lem_renums(t, r, d, opmid(h0, i, v)); }
    }
    assert forall|k: int| 0 <= k < ops(h1, i).len() implies wfop(h1, i, #[trigger] ops(h1, i)[k]) by { assert(opsame(h0, h1, i, ops(h0, i)[k])); }
    assert forall|k: int, b: bool, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() implies den(t1, #[trigger] tmi(h1, k, b, j)) == den(t, tmi(h0, k, b, j)) && tmi(h1, k, b, j) is Int && h1.a[if b { Id::Outs(i) } else { Id::Ins(i) }].contains(tmi(h1, k, b, j)) by {
        let x = if b { Id::Outs(i) } else { Id::Ins(i) }; let c = h0.a[x]; let v = tmi(h0, k, b, j);
        assert(c.contains(v)); let m = choose|m: int| 0 <= m < c.len() && c[m] == v;
        assert(wfsig(h0, k)); assert(!r.contains(c[m])); lem_renum(t, r, d, v);
        assert(upto(s, s.len() as int, k)); assert(tm_up(h0, s, s.len() as int, (Id::Tm(k, b, j), Fld::tensorIndex)));
        assert(tmi(h1, k, b, j) == getx(d, v)); assert(h1.a[x][m] == getd(d, c[m]));
    }
    assert forall|x: (Id, Fld)| !sub_tm(h0, x, i) implies #[trigger] h1.f[x] == h0.f[x] by { if tm_up(h0, s, s.len() as int, x) { let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m] == PV::Ref(Id::Sig(x.0->Tm_0)); assert(0 <= x.0->Tm_0 < nsig(h0)); assert(sigsub(h0, x.0->Tm_0) == i); } }
    assert forall|k: int| 0 <= k < nsig(h1) implies #[trigger] wfsig(h1, k) by {
        assert(wfsig(h0, k));
        assert forall|b: bool, j: int| 0 <= j < sigl(h1, k, b).len() implies (#[trigger] tmi(h1, k, b, j)) is Int by { assert(tmi(h0, k, b, j) is Int); if sigsub(h0, k) != i { assert(tmi(h1, k, b, j) == tmi(h0, k, b, j)); } else { assert(den(t1, tmi(h1, k, b, j)) == den(t, tmi(h0, k, b, j))); } }
    }
}
pub proof fn lem_wfs(h0: Hs, h1: Hs)
    requires wfs(h0), h1.f == h0.f, h1.l == h0.l,
    ensures wfs(h1), nsig(h1) == nsig(h0), forall|k: int| #[trigger] sigsub(h1, k) == sigsub(h0, k),
{ assert forall|k: int| 0 <= k < nsig(h1) implies #[trigger] wfsig(h1, k) by { assert(wfsig(h0, k)); assert forall|b: bool, j: int| 0 <= j < sigl(h1, k, b).len() implies (#[trigger] tmi(h1, k, b, j)) is Int by { assert(tmi(h0, k, b, j) is Int); } } }
pub proof fn lem_sigs(h: Hs, s: Seq<PV>, i: int)
    requires
        forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == PV::Ref(Id::Sig(rid(s[j])->Sig_0)) && 0 <= rid(s[j])->Sig_0 < nsig(h) && sigsub(h, rid(s[j])->Sig_0) == i,
        forall|k: int| 0 <= k < nsig(h) && #[trigger] sigsub(h, k) == i ==> s.contains(PV::Ref(Id::Sig(k))),
    ensures forall|k: int| 0 <= k < nsig(h) ==> (upto(s, s.len() as int, k) <==> #[trigger] sigsub(h, k) == i),
{
    assert forall|k: int| 0 <= k < nsig(h) implies (upto(s, s.len() as int, k) <==> #[trigger] sigsub(h, k) == i) by {
        if sigsub(h, k) == i { assert(s.contains(PV::Ref(Id::Sig(k)))); let m = choose|m: int| 0 <= m < s.len() && s[m] == PV::Ref(Id::Sig(k)); assert(upto(s, s.len() as int, k)); }
    }
}
// one more signature of the list
pub open spec fn tmx(x: (Id, Fld), q: int, b: bool, n: int) -> bool { x.1 == Fld::tensorIndex && x.0 is Tm && x.0->Tm_0 == q && x.0->Tm_1 == b && 0 <= x.0->Tm_2 < n }
pub proof fn lem_sig_none(h0: Hs, f: Map<(Id, Fld), PV>, s: Seq<PV>, d: Map<PV, PV>)
    requires f == h0.f,
    ensures sig_up(h0, f, s, 0, d)
{ reveal(sig_up); }
pub proof fn lem_sig_step(h0: Hs, f: Map<(Id, Fld), PV>, fb: Map<(Id, Fld), PV>, s: Seq<PV>, n: int, d: Map<PV, PV>, q: int)
    requires sig_up(h0, f, s, n, d), 0 <= n < s.len(), s[n] == PV::Ref(Id::Sig(q)), distinct(s),
        forall|x: (Id, Fld)| #[trigger] fb[x] == (if tmx(x, q, false, sigl(h0, q, false).len() as int) || tmx(x, q, true, sigl(h0, q, true).len() as int) { getx(d, f[x]) } else { f[x] }),
    ensures sig_up(h0, fb, s, n + 1, d)
{
    reveal(sig_up);
    assert forall|k: int| #[trigger] upto(s, n + 1, k) == (upto(s, n, k) || k == q) by {
        if upto(s, n + 1, k) { let m = choose|m: int| 0 <= m < n + 1 && #[trigger] s[m] == PV::Ref(Id::Sig(k)); if m < n { assert(upto(s, n, k)); } }
        if k == q { assert(s[n] == PV::Ref(Id::Sig(k))); }
    }
    assert(!upto(s, n, q)) by { if upto(s, n, q) { let m = choose|m: int| 0 <= m < n && #[trigger] s[m] == PV::Ref(Id::Sig(q)); assert(s[m] != s[n]); } }
    assert forall|x: (Id, Fld)| #[trigger] fb[x] == (if tm_up(h0, s, n + 1, x) { getx(d, h0.f[x]) } else { h0.f[x] }) by {
        assert(fb[x] == (if tmx(x, q, false, sigl(h0, q, false).len() as int) || tmx(x, q, true, sigl(h0, q, true).len() as int) { getx(d, f[x]) } else { f[x] }));
        assert(f[x] == (if tm_up(h0, s, n, x) { getx(d, h0.f[x]) } else { h0.f[x] }));
    }
}
// what a signature looks like while the list is gone through
pub proof fn lem_sig_at(h0: Hs, h: Hs, s: Seq<PV>, n: int, d: Map<PV, PV>, q: int)
    requires wfs(h0), h.l == h0.l, sig_up(h0, h.f, s, n, d), 0 <= n < s.len(), s[n] == PV::Ref(Id::Sig(q)), distinct(s), 0 <= q < nsig(h0),
    ensures h.f[(Id::Sig(q), Fld::inputs)] == PV::Ref(Id::SigIn(q)), h.f[(Id::Sig(q), Fld::outputs)] == PV::Ref(Id::SigOut(q)),
        forall|b: bool, j: int| 0 <= j < sigl(h0, q, b).len() ==> (#[trigger] h.f[(Id::Tm(q, b, j), Fld::tensorIndex)]) is Int,
        tmlist(h0.l[Id::SigIn(q)], q, false), tmlist(h0.l[Id::SigOut(q)], q, true),
{
    reveal(sig_up); assert(wfsig(h0, q));
    assert(!upto(s, n, q)) by { if upto(s, n, q) { let m = choose|m: int| 0 <= m < n && #[trigger] s[m] == PV::Ref(Id::Sig(q)); assert(s[m] != s[n]); } }
    assert forall|b: bool, j: int| 0 <= j < sigl(h0, q, b).len() implies (#[trigger] h.f[(Id::Tm(q, b, j), Fld::tensorIndex)]) is Int by { assert(tmi(h0, q, b, j) is Int); }
}
pub open spec fn dict_ints(d: Map<PV, PV>) -> bool { forall|x: PV| d.dom().contains(x) ==> (#[trigger] d[x]) is Int }
pub proof fn lem_renum_int(t: Seq<PV>, r: Set<PV>, d: Map<PV, PV>, n: int) requires renum(t, r, d, n) ensures dict_ints(d)
{ assert forall|x: PV| d.dom().contains(x) implies (#[trigger] d[x]) is Int by { assert(x == PV::Int(ival(x))); assert(!r.contains(PV::Int(ival(x)))); } }
pub open spec fn a_frame(h0: Hs, h1: Hs, i: int) -> bool { forall|x: Id| !sub_arr(x, i) ==> #[trigger] h1.a[x] == h0.a[x] }
// the lists of the first n operators were renumbered
#[verifier::opaque] pub open spec fn ops_map(h0: Hs, h1: Hs, i: int, n: int, d: Map<PV, PV>) -> bool {
    (forall|k: int| 0 <= k < n ==> opmap(h0, h1, i, #[trigger] ops(h0, i)[k], d)) && (forall|k: int| n <= k < ops(h0, i).len() ==> opkeep(h0, h1, i, #[trigger] ops(h0, i)[k]))
}
pub proof fn lem_ops_none(h0: Hs, h1: Hs, i: int, d: Map<PV, PV>)
    requires forall|x: Id| x != Id::Ins(i) && x != Id::Outs(i) ==> #[trigger] h1.a[x] == h0.a[x],
    ensures ops_map(h0, h1, i, 0, d)
{ reveal(ops_map); }
pub proof fn lem_ops_same(h0: Hs, h1: Hs, h2: Hs, i: int, n: int, d: Map<PV, PV>) requires ops_map(h0, h1, i, n, d), h1.a == h2.a ensures ops_map(h0, h2, i, n, d) { reveal(ops_map);
    assert forall|k: int| 0 <= k < n implies opmap(h0, h2, i, #[trigger] ops(h0, i)[k], d) by { assert(opmap(h0, h1, i, ops(h0, i)[k], d)); }
    assert forall|k: int| n <= k < ops(h0, i).len() implies opkeep(h0, h2, i, #[trigger] ops(h0, i)[k]) by { assert(opkeep(h0, h1, i, ops(h0, i)[k])); } }
pub proof fn lem_ops_at(h0: Hs, h1: Hs, i: int, n: int, d: Map<PV, PV>)
    requires wf(h0, i), ops_map(h0, h1, i, n, d), 0 <= n < ops(h0, i).len(),
    ensures wfop(h0, i, ops(h0, i)[n]), opkeep(h0, h1, i, ops(h0, i)[n])
{ reveal(ops_map); }
pub proof fn lem_ops_step(h0: Hs, ha: Hs, hb: Hs, i: int, n: int, d: Map<PV, PV>)
    requires wf(h0, i), ops_map(h0, ha, i, n, d), 0 <= n < ops(h0, i).len(), opmap(h0, hb, i, ops(h0, i)[n], d),
        forall|x: Id| x != Id::OpIn(i, opn(ops(h0, i)[n])) && x != Id::OpOut(i, opn(ops(h0, i)[n])) && x != Id::OpMid(i, opn(ops(h0, i)[n])) ==> #[trigger] hb.a[x] == ha.a[x],
    ensures ops_map(h0, hb, i, n + 1, d)
{
    reveal(ops_map); let o = ops(h0, i); let v = o[n];
    assert forall|k: int| 0 <= k < o.len() && k != n implies opin(hb, i, #[trigger] o[k]) == opin(ha, i, o[k]) && opout(hb, i, o[k]) == opout(ha, i, o[k]) && opmid(hb, i, o[k]) == opmid(ha, i, o[k]) by {
        assert(wfop(h0, i, o[k])); assert(wfop(h0, i, v)); if k < n { assert(o[k] != v); } else { assert(v != o[k]); } assert(opn(o[k]) != opn(v));
    }
}
pub open spec fn sig_list(h: Hs, s: Seq<PV>, i: int) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == PV::Ref(Id::Sig(rid(s[j])->Sig_0)) && 0 <= rid(s[j])->Sig_0 < nsig(h) && sigsub(h, rid(s[j])->Sig_0) == i }
pub proof fn lem_wfs_new(h0: Hs, h1: Hs)
    requires wfs(h0), newonly(h0, h1),
    ensures wfs(h1), nsig(h1) == nsig(h0), forall|k: int| #[trigger] sigsub(h1, k) == sigsub(h0, k),
{ assert forall|k: int| 0 <= k < nsig(h1) implies #[trigger] wfsig(h1, k) by { assert(wfsig(h0, k)); assert forall|b: bool, j: int| 0 <= j < sigl(h1, k, b).len() implies (#[trigger] tmi(h1, k, b, j)) is Int by { assert(tmi(h0, k, b, j) is Int); } } }
pub proof fn lem_sig_up_same(h: Hs, h0: Hs, f: Map<(Id, Fld), PV>, s: Seq<PV>, d: Map<PV, PV>)
    requires sig_up(h, f, s, s.len() as int, d), h.f == h0.f, forall|x: Id| !made(x) ==> #[trigger] h.l[x] == h0.l[x],
    ensures sig_up(h0, f, s, s.len() as int, d), nsig(h) == nsig(h0), forall|k: int| sigsub(h, k) == #[trigger] sigsub(h0, k),
{ reveal(sig_up); assert forall|x: (Id, Fld)| tm_up(h, s, s.len() as int, x) == #[trigger] tm_up(h0, s, s.len() as int, x) by { } }
pub proof fn lem_popped(t: Seq<PV>, r: Set<PV>, l: Seq<PV>)
    requires distinct(t), forall|m: int| 0 <= m < l.len() ==> (#[trigger] l[m]) is Int && 0 <= ival(l[m]) < t.len(), forall|x: PV| #[trigger] l.contains(x) <==> r.contains(x),
    ensures ks(t, pops(t, l, l.len() as int), t.len() as int) == ks(t, at(t, r), t.len() as int),
{
    let m5 = l.len() as int;
    lem_pops(t, l, m5); lem_at(t, r);
    assert forall|q: int| 0 <= q < t.len() implies (pops(t, l, m5).contains(#[trigger] t[q]) <==> at(t, r).contains(t[q])) by {
        assert(l.contains(PV::Int(q)) <==> r.contains(PV::Int(q)));
        if l.contains(PV::Int(q)) { let m = choose|m: int| 0 <= m < l.len() && l[m] == PV::Int(q); assert(0 <= m < m5 && l[m] == PV::Int(q)); }
    }
    lem_ks_same(t, pops(t, l, m5), at(t, r), t.len() as int);
}
// ---- operators at the boundary of a subgraph
// what is read of a loaded model besides wf: operator codes, types of the tensors, the operands of the operators that quantize or dequantize
pub open spec fn cq(h: Hs, k: int) -> bool { h.f[(Id::Code(k), Fld::builtinCode)] == PV::Int(114) }
pub open spec fn clce(h: Hs, k: int) -> bool { h.f[(Id::Code(k), Fld::customCode)] == lit_LceDequantize() }
pub open spec fn cd(h: Hs, k: int) -> bool { h.f[(Id::Code(k), Fld::builtinCode)] == PV::Int(6) }
pub open spec fn ncode(h: Hs) -> int { h.l[Id::Codes].len() as int }
pub open spec fn opc(h: Hs, v: PV) -> int { ival(h.f[(rid(v), Fld::opcodeIndex)]) }
pub open spec fn coded(h: Hs, v: PV) -> bool { 0 <= opc(h, v) < ncode(h) }
pub open spec fn typ(h: Hs, i: int, v: PV) -> PV { h.f[(rid(den(tns(h, i), v)), Fld::type_)] }
pub open spec fn wfcode(h: Hs, k: int) -> bool { h.l[Id::Codes][k] == PV::Ref(Id::Code(k)) && h.f[(Id::Code(k), Fld::builtinCode)] is Int && simple(h.f[(Id::Code(k), Fld::customCode)]) && !(h.f[(Id::Code(k), Fld::customCode)] is Ref) }
pub open spec fn wfunary(h: Hs, i: int, v: PV) -> bool { opin(h, i, v).len() > 0 && opout(h, i, v).len() > 0 && ival(opin(h, i, v)[0]) >= 0 && ival(opout(h, i, v)[0]) >= 0 }
pub open spec fn unaryop(h: Hs, v: PV) -> bool { coded(h, v) && (cq(h, opc(h, v)) || cd(h, opc(h, v)) || clce(h, opc(h, v))) }
pub open spec fn wfcodes(h: Hs) -> bool { h.f[(Id::Model, Fld::operatorCodes)] == PV::Ref(Id::Codes) && (forall|k: int| 0 <= k < ncode(h) ==> #[trigger] wfcode(h, k)) }
pub open spec fn wfq(h: Hs, i: int) -> bool {
    wfcodes(h)
    && (forall|k: int| 0 <= k < tns(h, i).len() ==> h.f[(rid(#[trigger] tns(h, i)[k]), Fld::type_)] is Int)
    && (forall|k: int| 0 <= k < ops(h, i).len() && unaryop(h, #[trigger] ops(h, i)[k]) ==> wfunary(h, i, ops(h, i)[k]))
}
pub open spec fn io(i: int, b: bool) -> Id { if b { Id::Outs(i) } else { Id::Ins(i) } }
// the tensor at the boundary (b: an output), and the one inside
pub open spec fn keyb(h: Hs, i: int, b: bool, v: PV) -> PV { if b { opout(h, i, v)[0] } else { opin(h, i, v)[0] } }
pub open spec fn valb(h: Hs, i: int, b: bool, v: PV) -> PV { keyb(h, i, !b, v) }
// 0 quantizes an input, 1 dequantizes an output and does not quantize an input, 2 dequantizes an output, 3 is an LceDequantize that gives an output
pub open spec fn which(h: Hs, i: int, w: int, v: PV) -> bool {
    coded(h, v) && (
    if w == 0 { cq(h, opc(h, v)) && h.a[Id::Ins(i)].contains(keyb(h, i, false, v)) }
    else if w == 1 { cd(h, opc(h, v)) && h.a[Id::Outs(i)].contains(keyb(h, i, true, v)) && !(cq(h, opc(h, v)) && h.a[Id::Ins(i)].contains(keyb(h, i, false, v))) }
    else if w == 2 { cd(h, opc(h, v)) && !clce(h, opc(h, v)) && h.a[Id::Outs(i)].contains(keyb(h, i, true, v)) }
    else { clce(h, opc(h, v)) && h.a[Id::Outs(i)].contains(keyb(h, i, true, v)) })
}
pub open spec fn typed(h: Hs, i: int, w: int, v: PV) -> bool {
    if w == 0 { typ(h, i, keyb(h, i, false, v)) == PV::Int(0) && typ(h, i, valb(h, i, false, v)) == PV::Int(9) }
    else if w == 3 { (typ(h, i, keyb(h, i, true, v)) == PV::Int(0) || typ(h, i, keyb(h, i, true, v)) == PV::Int(9)) && typ(h, i, valb(h, i, true, v)) == PV::Int(2) }
    else { typ(h, i, keyb(h, i, true, v)) == PV::Int(0) && typ(h, i, valb(h, i, true, v)) == PV::Int(9) }
}
// those among the first n operators
pub open spec fn sel(h: Hs, i: int, w: int, n: int) -> Seq<PV> decreases n { if n <= 0 { Seq::empty() } else if which(h, i, w, ops(h, i)[n - 1]) { sel(h, i, w, n - 1).push(ops(h, i)[n - 1]) } else { sel(h, i, w, n - 1) } }
pub open spec fn selall(h: Hs, i: int, w: int) -> Seq<PV> { sel(h, i, w, ops(h, i).len() as int) }
pub open spec fn alltyped(h: Hs, i: int, w: int, n: int) -> bool { forall|k: int| 0 <= k < n && which(h, i, w, #[trigger] ops(h, i)[k]) ==> typed(h, i, w, ops(h, i)[k]) }
// the indices of the operator codes of a kind
pub open spec fn codeset(h: Hs, s: Set<PV>, c: int, n: int) -> bool { forall|x: PV| #[trigger] s.contains(x) <==> (x is Int && 0 <= ival(x) < n && (if c == 0 { cq(h, ival(x)) } else if c == 1 { cd(h, ival(x)) } else if c == 2 { cd(h, ival(x)) && !clce(h, ival(x)) } else { clce(h, ival(x)) })) }
pub open spec fn nocode(h: Hs, c: int, e: int) -> bool { forall|k: int| 0 <= k < ncode(h) ==> #[trigger] wfcode(h, k) && (if e == 1 { !cq(h, k) && !cd(h, k) } else { !clce(h, k) && !cd(h, k) }) }
pub open spec fn badtype(h: Hs, i: int, w: int) -> bool { exists|k: int| 0 <= k < ops(h, i).len() && which(h, i, w, #[trigger] ops(h, i)[k]) && !typed(h, i, w, ops(h, i)[k]) }
// only objects made in between differ
pub open spec fn newsets(h0: Hs, h1: Hs) -> bool { h1.f == h0.f && h1.a == h0.a && h1.next >= h0.next && (forall|x: Id| !made(x) ==> #[trigger] h1.l[x] == h0.l[x]) }
pub open spec fn fresh_list(h0: Hs, h1: Hs, v: V) -> bool { v@ is Ref && rid(v@) is L && h0.next <= rid(v@)->L_0 < h1.next }
// ---- redirecting inputs (b false) or outputs (b true) past the first n operators of a list
pub open spec fn rtv(h: Hs, i: int, b: bool, q: Seq<PV>, n: int, v: PV) -> PV decreases n { if n <= 0 { v } else { rep(rtv(h, i, b, q, n - 1, v), keyb(h, i, b, q[n - 1]), valb(h, i, b, q[n - 1])) } }
pub open spec fn rep(v: PV, k: PV, w: PV) -> PV { if v == k { w } else { v } }
pub open spec fn rts(h: Hs, i: int, b: bool, q: Seq<PV>, n: int, s: Seq<PV>) -> Seq<PV> { Seq::new(s.len(), |j: int| rtv(h, i, b, q, n, s[j])) }
// the operators, and the tensors, that go
pub open spec fn cup(q: Seq<PV>, n: int, d: Seq<PV>, m: int) -> Set<PV> decreases (if m > 0 { m } else { 0int }), n { if m > 0 { cup(q, n, d, m - 1).insert(d[m - 1]) } else if n > 0 { cup(q, n - 1, d, 0).insert(q[n - 1]) } else { Set::empty() } }
pub open spec fn rset(h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int) -> Set<PV> decreases (if m > 0 { m } else { 0int }), n { if m > 0 { rset(h, i, q, n, d, m - 1).insert(keyb(h, i, true, d[m - 1])) } else if n > 0 { rset(h, i, q, n - 1, d, 0).insert(keyb(h, i, false, q[n - 1])) } else { Set::empty() } }
pub open spec fn tm_at(h: Hs, x: (Id, Fld), i: int, b: bool) -> bool { sub_tm(h, x, i) && x.0->Tm_1 == b && 0 <= x.0->Tm_2 < sigl(h, x.0->Tm_0, b).len() }
#[verifier::opaque] pub open spec fn stg(h0: Hs, h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int) -> bool {
    h.a[Id::Ins(i)] == rts(h0, i, false, q, n, h0.a[Id::Ins(i)]) && h.a[Id::Outs(i)] == rts(h0, i, true, d, m, h0.a[Id::Outs(i)])
    && (forall|x: Id| x != Id::Ins(i) && x != Id::Outs(i) ==> #[trigger] h.a[x] == h0.a[x])
    && ops(h, i) == ks(ops(h0, i), cup(q, n, d, m), ops(h0, i).len() as int)
    && (forall|x: Id| !made(x) && x != Id::Ops(i) ==> #[trigger] h.l[x] == h0.l[x])
    && (forall|x: (Id, Fld)| #[trigger] h.f[x] == (if tm_at(h0, x, i, false) { rtv(h0, i, false, q, n, h0.f[x]) } else if tm_at(h0, x, i, true) { rtv(h0, i, true, d, m, h0.f[x]) } else { h0.f[x] }))
    && h.next >= h0.next
}
// the operators of a list: distinct operators of the subgraph that have their operands
pub open spec fn qlist(h: Hs, i: int, q: Seq<PV>) -> bool { distinct(q) && (forall|m: int| 0 <= m < q.len() ==> ops(h, i).contains(#[trigger] q[m]) && wfop(h, i, q[m]) && wfunary(h, i, q[m])) }
pub open spec fn apart(q: Seq<PV>, d: Seq<PV>) -> bool { forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < d.len() ==> #[trigger] q[a] != #[trigger] d[b] }
pub proof fn lem_stg_none(h0: Hs, h: Hs, i: int, q: Seq<PV>, d: Seq<PV>)
    requires newsets(h0, h),
    ensures stg(h0, h, i, q, 0, d, 0)
{
    reveal(stg); lem_ks_low(ops(h0, i), cup(q, 0, d, 0), ops(h0, i).len() as int); assert(ops(h0, i).take(ops(h0, i).len() as int) =~= ops(h0, i));
    assert(rts(h0, i, false, q, 0, h0.a[Id::Ins(i)]) =~= h0.a[Id::Ins(i)]); assert(rts(h0, i, true, d, 0, h0.a[Id::Outs(i)]) =~= h0.a[Id::Outs(i)]);
}
pub proof fn lem_cup(q: Seq<PV>, n: int, d: Seq<PV>, m: int)
    requires 0 <= n <= q.len(), 0 <= m <= d.len(),
    ensures forall|x: PV| #[trigger] cup(q, n, d, m).contains(x) <==> ((exists|a: int| 0 <= a < n && q[a] == x) || (exists|a: int| 0 <= a < m && d[a] == x)),
    decreases n + m
{
    if m > 0 {
        lem_cup(q, n, d, m - 1);
        assert forall|x: PV| #[trigger] cup(q, n, d, m).contains(x) <==> ((exists|a: int| 0 <= a < n && q[a] == x) || (exists|a: int| 0 <= a < m && d[a] == x)) by {
            assert(cup(q, n, d, m).contains(x) == (cup(q, n, d, m - 1).contains(x) || x == d[m - 1]));
            if x == d[m - 1] { assert(0 <= m - 1 < m && d[m - 1] == x); }
            if exists|a: int| 0 <= a < m - 1 && d[a] == x { let a = choose|a: int| 0 <= a < m - 1 && d[a] == x; assert(0 <= a < m && d[a] == x); }
            if exists|a: int| 0 <= a < m && d[a] == x { let a = choose|a: int| 0 <= a < m && d[a] == x; if a < m - 1 { assert(0 <= a < m - 1 && d[a] == x); } }
        }
    } else if n > 0 {
        lem_cup(q, n - 1, d, 0);
        assert forall|x: PV| #[trigger] cup(q, n, d, m).contains(x) <==> ((exists|a: int| 0 <= a < n && q[a] == x) || (exists|a: int| 0 <= a < m && d[a] == x)) by {
            assert(cup(q, n, d, m).contains(x) == (cup(q, n - 1, d, 0).contains(x) || x == q[n - 1]));
            if x == q[n - 1] { assert(0 <= n - 1 < n && q[n - 1] == x); }
            if exists|a: int| 0 <= a < n - 1 && q[a] == x { let a = choose|a: int| 0 <= a < n - 1 && q[a] == x; assert(0 <= a < n && q[a] == x); }
            if exists|a: int| 0 <= a < n && q[a] == x { let a = choose|a: int| 0 <= a < n && q[a] == x; if a < n - 1 { assert(0 <= a < n - 1 && q[a] == x); } }
        }
    }
}
// what the loop finds at an operator that is still to go
pub proof fn lem_stg_at(h0: Hs, h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int, v: PV)
    requires wf(h0, i), stg(h0, h, i, q, n, d, m), 0 <= n <= q.len(), 0 <= m <= d.len(), qlist(h0, i, q), qlist(h0, i, d), apart(q, d),
        (n < q.len() && m == 0 && v == q[n]) || (n == q.len() && m < d.len() && v == d[m]),
    ensures wfop(h0, i, v), wfunary(h0, i, v), v is Ref, is_obj(v), op_at(h0, h, i, v),
        h.f[(rid(v), Fld::inputs)] == PV::Ref(Id::OpIn(i, opn(v))), h.f[(rid(v), Fld::outputs)] == PV::Ref(Id::OpOut(i, opn(v))),
        h.a[Id::OpIn(i, opn(v))] == opin(h0, i, v), h.a[Id::OpOut(i, opn(v))] == opout(h0, i, v),
        h.f[(Id::Sub(i), Fld::inputs)] == PV::Ref(Id::Ins(i)), h.f[(Id::Sub(i), Fld::outputs)] == PV::Ref(Id::Outs(i)), h.l[Id::Ops(i)].contains(v),
        wfs(h), 0 <= i < h.l[Id::Subs].len(), nsig(h) == nsig(h0), forall|k: int| #[trigger] sigsub(h, k) == sigsub(h0, k), forall|k: int, b: bool| #[trigger] sigl(h, k, b) == sigl(h0, k, b),
{
    reveal(stg); lem_cup(q, n, d, m); lem_ks_in(ops(h0, i), cup(q, n, d, m), ops(h0, i).len() as int);
    assert(!cup(q, n, d, m).contains(v)) by {
        if exists|a: int| 0 <= a < n && q[a] == v { let a = choose|a: int| 0 <= a < n && q[a] == v; if n < q.len() && m == 0 && v == q[n] { assert(q[a] != q[n]); } else { assert(q[a] != d[m]); } }
        if exists|a: int| 0 <= a < m && d[a] == v { let a = choose|a: int| 0 <= a < m && d[a] == v; assert(d[a] != d[m]); }
    }
    let k = choose|k: int| 0 <= k < ops(h0, i).len() && ops(h0, i)[k] == v;
    assert(ops(h, i).contains(ops(h0, i)[k]));
    lem_stg_wfs(h0, h, i, q, n, d, m);
}
pub proof fn lem_rtv_int(h: Hs, i: int, b: bool, q: Seq<PV>, n: int, v: PV, top: int)
    requires 0 <= n <= q.len(), qlist(h, i, q), v is Int, -1 <= ival(v) < top, top >= tns(h, i).len(),
    ensures rtv(h, i, b, q, n, v) is Int, -1 <= ival(rtv(h, i, b, q, n, v)) < top
    decreases n
{ if n > 0 { lem_rtv_int(h, i, b, q, n - 1, v, top); assert(wfop(h, i, q[n - 1])); let x = opin(h, i, q[n - 1])[0]; let y = opout(h, i, q[n - 1])[0]; assert(x is Int && y is Int); } }
pub proof fn lem_rtv_isint(h: Hs, i: int, b: bool, q: Seq<PV>, n: int, v: PV)
    requires 0 <= n <= q.len(), qlist(h, i, q), v is Int,
    ensures rtv(h, i, b, q, n, v) is Int
    decreases n
{ if n > 0 { lem_rtv_isint(h, i, b, q, n - 1, v); assert(wfop(h, i, q[n - 1])); let x = opin(h, i, q[n - 1])[0]; let y = opout(h, i, q[n - 1])[0]; assert(x is Int && y is Int); } }
pub proof fn lem_stg_wfs(h0: Hs, h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int)
    requires wfs(h0), stg(h0, h, i, q, n, d, m), 0 <= n <= q.len(), 0 <= m <= d.len(), qlist(h0, i, q), qlist(h0, i, d),
    ensures wfs(h), nsig(h) == nsig(h0), forall|k: int| #[trigger] sigsub(h, k) == sigsub(h0, k), forall|k: int, b: bool| #[trigger] sigl(h, k, b) == sigl(h0, k, b),
{
    reveal(stg);
    assert forall|k: int| 0 <= k < nsig(h) implies #[trigger] wfsig(h, k) by {
        assert(wfsig(h0, k));
        assert forall|b: bool, j: int| 0 <= j < sigl(h, k, b).len() implies (#[trigger] tmi(h, k, b, j)) is Int by { assert(tmi(h0, k, b, j) is Int); lem_rtv_isint(h0, i, false, q, n, tmi(h0, k, b, j)); lem_rtv_isint(h0, i, true, d, m, tmi(h0, k, b, j)); }
    }
}
pub proof fn lem_stg_step(h0: Hs, ha: Hs, hb: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int, v: PV, p: int)
    requires wf(h0, i), stg(h0, ha, i, q, n, d, m), 0 <= n <= q.len(), 0 <= m <= d.len(), qlist(h0, i, q), qlist(h0, i, d), apart(q, d),
        (n < q.len() && m == 0 && v == q[n]) || (n == q.len() && m < d.len() && v == d[m]),
        redirected(h0, ha, hb, i, m < d.len() && v == d[m] && n == q.len(), v), first_at(ops(ha, i), v, p), ops(hb, i) == ops(ha, i).remove(p),
    ensures n < q.len() ==> stg(h0, hb, i, q, n + 1, d, 0), n == q.len() ==> stg(h0, hb, i, q, n, d, m + 1),
{
    reveal(stg); let b = n == q.len();
    let o = ops(h0, i); let x = cup(q, n, d, m);
    lem_ks_remove(o, x, o.len() as int, p);
    let n2 = if b { n } else { n + 1 }; let m2 = if b { m + 1 } else { 0 };
    assert(cup(q, n2, d, m2) == x.insert(v));
    assert(hb.a[Id::Ins(i)] =~= rts(h0, i, false, q, n2, h0.a[Id::Ins(i)]));
    assert(hb.a[Id::Outs(i)] =~= rts(h0, i, true, d, m2, h0.a[Id::Outs(i)]));
}
// one input (output) redirected past operator v, in the list and in the signatures
pub open spec fn redirected(h0: Hs, ha: Hs, hb: Hs, i: int, b: bool, v: PV) -> bool {
    let k = keyb(h0, i, b, v); let w = valb(h0, i, b, v);
    hb.a[io(i, b)].len() == ha.a[io(i, b)].len() && (forall|j: int| 0 <= j < ha.a[io(i, b)].len() ==> #[trigger] hb.a[io(i, b)][j] == rep(ha.a[io(i, b)][j], k, w))
    && (forall|x: Id| x != io(i, b) ==> #[trigger] hb.a[x] == ha.a[x])
    && (forall|x: Id| !made(x) && x != Id::Ops(i) ==> #[trigger] hb.l[x] == ha.l[x])
    && (forall|x: (Id, Fld)| #[trigger] hb.f[x] == (if tm_at(h0, x, i, b) { rep(ha.f[x], k, w) } else { ha.f[x] }))
    && hb.next >= ha.next
}
// ... in the signatures of a list so far
#[verifier::opaque] pub open spec fn sig_rep(h: Hs, f: Map<(Id, Fld), PV>, s: Seq<PV>, n: int, b: bool, k: PV, w: PV) -> bool {
    forall|x: (Id, Fld)| #[trigger] f[x] == (if x.1 == Fld::tensorIndex && x.0 is Tm && x.0->Tm_1 == b && upto(s, n, x.0->Tm_0) && 0 <= x.0->Tm_2 < sigl(h, x.0->Tm_0, b).len() { rep(h.f[x], k, w) } else { h.f[x] })
}
pub open spec fn one_rep(f0: Map<(Id, Fld), PV>, f: Map<(Id, Fld), PV>, q: int, b: bool, n: int, k: PV, w: PV) -> bool { forall|x: (Id, Fld)| #[trigger] f[x] == (if tmx(x, q, b, n) { rep(f0[x], k, w) } else { f0[x] }) }
pub proof fn lem_sig_rep_none(h: Hs, s: Seq<PV>, b: bool, k: PV, w: PV) ensures sig_rep(h, h.f, s, 0, b, k, w) { reveal(sig_rep); }
pub proof fn lem_sig_rep_at(h0: Hs, h: Hs, s: Seq<PV>, n: int, b: bool, k: PV, w: PV, q: int)
    requires wfs(h0), h.l == h0.l, sig_rep(h0, h.f, s, n, b, k, w), 0 <= n < s.len(), s[n] == PV::Ref(Id::Sig(q)), distinct(s), 0 <= q < nsig(h0), w is Int,
    ensures h.f[(Id::Sig(q), Fld::inputs)] == PV::Ref(Id::SigIn(q)), h.f[(Id::Sig(q), Fld::outputs)] == PV::Ref(Id::SigOut(q)),
        forall|j: int| 0 <= j < sigl(h0, q, b).len() ==> (#[trigger] h.f[(Id::Tm(q, b, j), Fld::tensorIndex)]) is Int,
        tmlist(h0.l[Id::SigIn(q)], q, false), tmlist(h0.l[Id::SigOut(q)], q, true), forall|x: PV, y: PV| #[trigger] rep(x, k, y) is Int <== x is Int && y is Int, op_fields(h0, h.f),
{
    reveal(sig_rep); assert(wfsig(h0, q));
    assert forall|j: int| 0 <= j < sigl(h0, q, b).len() implies (#[trigger] h.f[(Id::Tm(q, b, j), Fld::tensorIndex)]) is Int by { assert(tmi(h0, q, b, j) is Int); }
}
pub proof fn lem_sig_rep_step(h: Hs, f: Map<(Id, Fld), PV>, fb: Map<(Id, Fld), PV>, s: Seq<PV>, n: int, b: bool, k: PV, w: PV, q: int)
    requires sig_rep(h, f, s, n, b, k, w), 0 <= n < s.len(), s[n] == PV::Ref(Id::Sig(q)), distinct(s), one_rep(f, fb, q, b, sigl(h, q, b).len() as int, k, w),
    ensures sig_rep(h, fb, s, n + 1, b, k, w)
{
    reveal(sig_rep);
    assert forall|j: int| #[trigger] upto(s, n + 1, j) == (upto(s, n, j) || j == q) by {
        if upto(s, n + 1, j) { let m = choose|m: int| 0 <= m < n + 1 && #[trigger] s[m] == PV::Ref(Id::Sig(j)); if m < n { assert(upto(s, n, j)); } }
        if j == q { assert(s[n] == PV::Ref(Id::Sig(j))); }
        if upto(s, n, j) { let m = choose|m: int| 0 <= m < n && #[trigger] s[m] == PV::Ref(Id::Sig(j)); assert(upto(s, n + 1, j)); }
    }
    assert(!upto(s, n, q)) by { if upto(s, n, q) { let m = choose|m: int| 0 <= m < n && #[trigger] s[m] == PV::Ref(Id::Sig(q)); assert(s[m] != s[n]); } }
    assert forall|x: (Id, Fld)| #[trigger] fb[x] == (if x.1 == Fld::tensorIndex && x.0 is Tm && x.0->Tm_1 == b && upto(s, n + 1, x.0->Tm_0) && 0 <= x.0->Tm_2 < sigl(h, x.0->Tm_0, b).len() { rep(h.f[x], k, w) } else { h.f[x] }) by {
        assert(fb[x] == (if tmx(x, q, b, sigl(h, q, b).len() as int) { rep(f[x], k, w) } else { f[x] }));
    }
}
pub proof fn lem_sig_rep_done(h0: Hs, h: Hs, f: Map<(Id, Fld), PV>, s: Seq<PV>, i: int, b: bool, k: PV, w: PV)
    requires sig_rep(h, f, s, s.len() as int, b, k, w), sig_list(h, s, i), sig_all(h, s, i),
        nsig(h) == nsig(h0), forall|j: int| #[trigger] sigsub(h, j) == sigsub(h0, j), forall|j: int, b: bool| #[trigger] sigl(h, j, b) == sigl(h0, j, b),
    ensures forall|x: (Id, Fld)| #[trigger] f[x] == (if tm_at(h0, x, i, b) { rep(h.f[x], k, w) } else { h.f[x] }),
{
    reveal(sig_rep); lem_sigs(h, s, i);
    assert forall|x: (Id, Fld)| #[trigger] f[x] == (if tm_at(h0, x, i, b) { rep(h.f[x], k, w) } else { h.f[x] }) by {
        if x.0 is Tm { let j = x.0->Tm_0; assert(sigsub(h, j) == sigsub(h0, j)); assert(sigl(h, j, b) == sigl(h0, j, b));
            if upto(s, s.len() as int, j) { let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m] == PV::Ref(Id::Sig(j)); assert(0 <= j < nsig(h)); } }
    }
}
pub open spec fn redir(h: Hs, i: int, b: bool, q: Seq<PV>, n: int, v: PV, u: PV) -> bool {
    (exists|m: int| 0 <= m < n && keyb(h, i, b, #[trigger] q[m]) == v && u == valb(h, i, b, q[m]) && (forall|l: int| 0 <= l < m ==> keyb(h, i, b, #[trigger] q[l]) != v))
    || ((forall|m: int| 0 <= m < n ==> keyb(h, i, b, #[trigger] q[m]) != v) && u == v)
}
pub open spec fn wb(w: int) -> bool { w != 0 }
// an index goes to the tensor on the other side of the first operator that has it at the boundary, and stays if there is none
pub proof fn lem_redir(h: Hs, i: int, w: int, q: Seq<PV>, n: int, v: PV)
    requires 0 <= n <= q.len(), forall|m: int| 0 <= m < q.len() ==> typed(h, i, w, #[trigger] q[m]),
    ensures redir(h, i, wb(w), q, n, v, rtv(h, i, wb(w), q, n, v)),
    decreases n
{
    if n > 0 {
        let b = wb(w);
        lem_redir(h, i, w, q, n - 1, v); let u = rtv(h, i, b, q, n - 1, v);
        assert(typed(h, i, w, q[n - 1]));
        if exists|m: int| 0 <= m < n - 1 && keyb(h, i, b, #[trigger] q[m]) == v && u == valb(h, i, b, q[m]) && (forall|l: int| 0 <= l < m ==> keyb(h, i, b, #[trigger] q[l]) != v) {
            let m = choose|m: int| 0 <= m < n - 1 && keyb(h, i, b, #[trigger] q[m]) == v && u == valb(h, i, b, q[m]) && (forall|l: int| 0 <= l < m ==> keyb(h, i, b, #[trigger] q[l]) != v);
            assert(typed(h, i, w, q[m]));
            assert(u != keyb(h, i, b, q[n - 1]));
            assert(rtv(h, i, b, q, n, v) == u);
        } else {
            assert(u == v);
            if keyb(h, i, b, q[n - 1]) == v { assert(rtv(h, i, b, q, n, v) == valb(h, i, b, q[n - 1])); }
        }
    }
}
pub proof fn lem_sel(h: Hs, i: int, w: int, n: int)
    requires wf(h, i), wfq(h, i), 0 <= n <= ops(h, i).len(),
    ensures distinct(sel(h, i, w, n)),
        forall|m: int| 0 <= m < sel(h, i, w, n).len() ==> which(h, i, w, #[trigger] sel(h, i, w, n)[m]) && (exists|k: int| 0 <= k < n && ops(h, i)[k] == sel(h, i, w, n)[m]),
        forall|k: int| 0 <= k < n && which(h, i, w, #[trigger] ops(h, i)[k]) ==> sel(h, i, w, n).contains(ops(h, i)[k]),
    decreases n
{
    if n > 0 {
        lem_sel(h, i, w, n - 1); let a = sel(h, i, w, n - 1); let b = sel(h, i, w, n); let o = ops(h, i);
        assert forall|m: int| 0 <= m < b.len() implies which(h, i, w, #[trigger] b[m]) && (exists|k: int| 0 <= k < n && o[k] == b[m]) by {
            if m < a.len() { assert(b[m] == a[m]); let k = choose|k: int| 0 <= k < n - 1 && o[k] == a[m]; assert(o[k] == b[m]); } else { assert(o[n - 1] == b[m]); }
        }
        assert forall|k: int| 0 <= k < n && which(h, i, w, #[trigger] o[k]) implies b.contains(o[k]) by {
            if k < n - 1 { assert(a.contains(o[k])); let m = choose|m: int| 0 <= m < a.len() && a[m] == o[k]; assert(b[m] == o[k]); } else { assert(b[b.len() - 1] == o[k]); }
        }
        assert forall|j: int, k: int| 0 <= j < k < b.len() implies #[trigger] b[j] != #[trigger] b[k] by {
            if k < a.len() { assert(b[j] == a[j] && b[k] == a[k]); } else { assert(b[j] == a[j]); let q = choose|q: int| 0 <= q < n - 1 && o[q] == a[j]; assert(b[k] == o[n - 1]); assert(o[q] != o[n - 1]); }
        }
    }
}
pub proof fn lem_selall(h: Hs, i: int, w: int)
    requires wf(h, i), wfq(h, i), 0 <= w <= 3,
    ensures qlist(h, i, selall(h, i, w)), alltyped(h, i, w, ops(h, i).len() as int) ==> (forall|m: int| 0 <= m < selall(h, i, w).len() ==> typed(h, i, w, #[trigger] selall(h, i, w)[m])),
{
    let q = selall(h, i, w); let o = ops(h, i); lem_sel(h, i, w, o.len() as int);
    assert forall|m: int| 0 <= m < q.len() implies o.contains(#[trigger] q[m]) && wfop(h, i, q[m]) && wfunary(h, i, q[m]) by { let k = choose|k: int| 0 <= k < o.len() && o[k] == q[m]; assert(wfop(h, i, o[k])); assert(which(h, i, w, q[m])); assert(unaryop(h, o[k])); }
    if alltyped(h, i, w, o.len() as int) { assert forall|m: int| 0 <= m < q.len() implies typed(h, i, w, #[trigger] q[m]) by { let k = choose|k: int| 0 <= k < o.len() && o[k] == q[m]; assert(which(h, i, w, o[k])); } }
}
pub proof fn lem_apart(h: Hs, i: int)
    requires wf(h, i), wfq(h, i),
    ensures apart(selall(h, i, 0), selall(h, i, 1)),
{
    let o = ops(h, i); lem_sel(h, i, 0, o.len() as int); lem_sel(h, i, 1, o.len() as int);
    let q = selall(h, i, 0); let d = selall(h, i, 1);
    assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < d.len() implies #[trigger] q[a] != #[trigger] d[b] by { assert(which(h, i, 0, q[a])); assert(which(h, i, 1, d[b])); }
}
pub proof fn lem_rset(h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int)
    requires wf(h, i), qlist(h, i, q), qlist(h, i, d), 0 <= n <= q.len(), 0 <= m <= d.len(),
    ensures forall|x: PV| #[trigger] rset(h, i, q, n, d, m).contains(x) ==> x is Int && 0 <= ival(x) < tns(h, i).len(),
    decreases (if m > 0 { m } else { 0 }), n
{
    let all = rset(h, i, q, n, d, m);
    if m > 0 {
        lem_rset(h, i, q, n, d, m - 1); assert(wfop(h, i, d[m - 1])); assert(wfunary(h, i, d[m - 1])); let y = opout(h, i, d[m - 1])[0]; assert(y is Int);
        assert forall|x: PV| #[trigger] all.contains(x) implies x is Int && 0 <= ival(x) < tns(h, i).len() by { assert(rset(h, i, q, n, d, m - 1).contains(x) || x == y); }
    } else if n > 0 {
        lem_rset(h, i, q, n - 1, d, 0); assert(wfop(h, i, q[n - 1])); assert(wfunary(h, i, q[n - 1])); let y = opin(h, i, q[n - 1])[0]; assert(y is Int);
        assert forall|x: PV| #[trigger] all.contains(x) implies x is Int && 0 <= ival(x) < tns(h, i).len() by { assert(rset(h, i, q, n - 1, d, 0).contains(x) || x == y); }
    }
}
pub proof fn lem_rset_keys(h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>)
    requires 0 <= n <= q.len(),
    ensures forall|x: PV| #[trigger] rset(h, i, q, n, d, 0).contains(x) <==> (exists|a: int| 0 <= a < n && keyb(h, i, false, #[trigger] q[a]) == x),
    decreases n
{ if n > 0 { lem_rset_keys(h, i, q, n - 1, d);
    assert forall|x: PV| #[trigger] rset(h, i, q, n, d, 0).contains(x) <==> (exists|a: int| 0 <= a < n && keyb(h, i, false, #[trigger] q[a]) == x) by {
        assert(rset(h, i, q, n, d, 0).contains(x) == (rset(h, i, q, n - 1, d, 0).contains(x) || x == keyb(h, i, false, q[n - 1])));
    } } }
pub open spec fn nodup(h: Hs, i: int, q: Seq<PV>, n: int) -> bool { forall|a: int, b: int| 0 <= a < b < n ==> keyb(h, i, false, #[trigger] q[a]) != keyb(h, i, false, #[trigger] q[b]) }
pub proof fn lem_stg_wf(h0: Hs, h: Hs, i: int, q: Seq<PV>, d: Seq<PV>)
    requires wf(h0, i), sigin(h0, i), stg(h0, h, i, q, q.len() as int, d, d.len() as int), qlist(h0, i, q), qlist(h0, i, d),
    ensures wf(h, i), sigin(h, i), tns(h, i) == tns(h0, i),
{
    lem_stg_wfs(h0, h, i, q, q.len() as int, d, d.len() as int); reveal(stg);
    let o = ops(h0, i); let x = cup(q, q.len() as int, d, d.len() as int); let n = tns(h0, i).len() as int;
    lem_ks_in(o, x, o.len() as int);
    assert forall|k: int| 0 <= k < ops(h, i).len() implies wfop(h, i, #[trigger] ops(h, i)[k]) by { let j = choose|j: int| 0 <= j < o.len() && o[j] == ops(h, i)[k]; assert(wfop(h0, i, o[j])); }
    let s0 = h0.a[Id::Ins(i)]; let s1 = h0.a[Id::Outs(i)];
    assert forall|k: int| 0 <= k < s0.len() implies (#[trigger] h.a[Id::Ins(i)][k]) is Int && -1 <= ival(h.a[Id::Ins(i)][k]) < n by { lem_rtv_int(h0, i, false, q, q.len() as int, s0[k], n); }
    assert forall|k: int| 0 <= k < s1.len() implies (#[trigger] h.a[Id::Outs(i)][k]) is Int && -1 <= ival(h.a[Id::Outs(i)][k]) < n by { lem_rtv_int(h0, i, true, d, d.len() as int, s1[k], n); }
    assert forall|k: int, b: bool, j: int| 0 <= k < nsig(h) && sigsub(h, k) == i && 0 <= j < sigl(h, k, b).len() implies h.a[if b { Id::Outs(i) } else { Id::Ins(i) }].contains(#[trigger] tmi(h, k, b, j)) by {
        let s = h0.a[if b { Id::Outs(i) } else { Id::Ins(i) }]; assert(sigsub(h0, k) == i); assert(sigl(h, k, b) == sigl(h0, k, b)); assert(s.contains(tmi(h0, k, b, j))); let m = choose|m: int| 0 <= m < s.len() && s[m] == tmi(h0, k, b, j);
        assert(tm_at(h0, (Id::Tm(k, b, j), Fld::tensorIndex), i, b)); assert(!tm_at(h0, (Id::Tm(k, b, j), Fld::tensorIndex), i, !b));
        assert(h.a[if b { Id::Outs(i) } else { Id::Ins(i) }][m] == tmi(h, k, b, j));
    }
}
// ---- a rewritten subgraph: the operators of q (at inputs) and d (at outputs) are gone, inputs and outputs go past them
pub open spec fn iodone(h0: Hs, h1: Hs, i: int, b: bool, q: Seq<PV>) -> bool {
    let s0 = h0.a[io(i, b)]; let s1 = h1.a[io(i, b)];
    s1.len() == s0.len() && (forall|j: int| 0 <= j < s0.len() ==> den(tns(h1, i), #[trigger] s1[j]) == den(tns(h0, i), rtv(h0, i, b, q, q.len() as int, s0[j])))
    && (forall|k: int, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() ==> den(tns(h1, i), #[trigger] tmi(h1, k, b, j)) == den(tns(h0, i), rtv(h0, i, b, q, q.len() as int, tmi(h0, k, b, j))))
    && (forall|v: PV| #[trigger] redir(h0, i, b, q, q.len() as int, v, rtv(h0, i, b, q, q.len() as int, v)))
}
pub open spec fn rewritten(h0: Hs, h1: Hs, i: int, q: Seq<PV>, d: Seq<PV>) -> bool {
    let t0 = tns(h0, i); let o0 = ops(h0, i);
    tns(h1, i) == ks(t0, at(t0, rset(h0, i, q, q.len() as int, d, d.len() as int)), t0.len() as int)
    && ops(h1, i) == ks(o0, cup(q, q.len() as int, d, d.len() as int), o0.len() as int)
    && (forall|k: int| 0 <= k < ops(h1, i).len() ==> opsame(h0, h1, i, #[trigger] ops(h1, i)[k]))
    && iodone(h0, h1, i, false, q) && iodone(h0, h1, i, true, d)
    && sub_frame(h0, h1, i)
}
// nothing else of the model changes
pub open spec fn sub_frame(h0: Hs, h1: Hs, i: int) -> bool {
    (forall|x: Id| !sub_arr(x, i) ==> #[trigger] h1.a[x] == h0.a[x]) && (forall|x: Id| !made(x) && x != Id::Tensors(i) && x != Id::Ops(i) ==> #[trigger] h1.l[x] == h0.l[x]) && (forall|x: (Id, Fld)| !sub_tm(h0, x, i) ==> #[trigger] h1.f[x] == h0.f[x])
}
pub proof fn lem_iodone(h0: Hs, h2: Hs, h1: Hs, i: int, b: bool, s: Seq<PV>, w: int)
    requires rem_post_io(h2, h1, i, b), wb(w) == b, 0 <= w <= 3, h2.a[io(i, b)] == rts(h0, i, b, s, s.len() as int, h0.a[io(i, b)]), tns(h2, i) == tns(h0, i),
        forall|x: (Id, Fld)| tm_at(h0, x, i, b) ==> #[trigger] h2.f[x] == rtv(h0, i, b, s, s.len() as int, h0.f[x]),
        nsig(h2) == nsig(h0), forall|k: int| #[trigger] sigsub(h2, k) == sigsub(h0, k), forall|k: int, b: bool| #[trigger] sigl(h2, k, b) == sigl(h0, k, b),
        forall|m: int| 0 <= m < s.len() ==> typed(h0, i, w, #[trigger] s[m]),
    ensures iodone(h0, h1, i, b, s)
{
    let l = s.len() as int; let s2 = h2.a[io(i, b)]; let s1 = h1.a[io(i, b)]; let s0 = h0.a[io(i, b)];
    assert forall|j: int| 0 <= j < s0.len() implies den(tns(h1, i), #[trigger] s1[j]) == den(tns(h0, i), rtv(h0, i, b, s, l, s0[j])) by { assert(s2[j] == rtv(h0, i, b, s, l, s0[j])); assert(den(tns(h1, i), s1[j]) == den(tns(h2, i), s2[j])); }
    assert forall|k: int, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() implies den(tns(h1, i), #[trigger] tmi(h1, k, b, j)) == den(tns(h0, i), rtv(h0, i, b, s, l, tmi(h0, k, b, j))) by {
        assert(sigsub(h2, k) == sigsub(h0, k)); assert(sigl(h2, k, b) == sigl(h0, k, b)); assert(den(tns(h1, i), tmi(h1, k, b, j)) == den(tns(h2, i), tmi(h2, k, b, j)));
        assert(tm_at(h0, (Id::Tm(k, b, j), Fld::tensorIndex), i, b)); assert(h2.f[(Id::Tm(k, b, j), Fld::tensorIndex)] == rtv(h0, i, b, s, l, h0.f[(Id::Tm(k, b, j), Fld::tensorIndex)]));
    }
    assert forall|v: PV| #[trigger] redir(h0, i, b, s, l, v, rtv(h0, i, b, s, l, v)) by { lem_redir(h0, i, w, s, l, v); }
}
pub open spec fn rem_post_io(h0: Hs, h1: Hs, i: int, b: bool) -> bool {
    same(tns(h0, i), h0.a[io(i, b)], tns(h1, i), h1.a[io(i, b)])
    && (forall|k: int, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() ==> den(tns(h1, i), #[trigger] tmi(h1, k, b, j)) == den(tns(h0, i), tmi(h0, k, b, j)))
}
pub proof fn lem_final(h0: Hs, h2: Hs, h1: Hs, i: int, q: Seq<PV>, d: Seq<PV>, w: int)
    requires wf(h0, i), stg(h0, h2, i, q, q.len() as int, d, d.len() as int), qlist(h0, i, q), qlist(h0, i, d), rem_post(h2, h1, i, rset(h0, i, q, q.len() as int, d, d.len() as int)), 1 <= w <= 3,
        forall|m: int| 0 <= m < q.len() ==> typed(h0, i, 0, #[trigger] q[m]), forall|m: int| 0 <= m < d.len() ==> typed(h0, i, w, #[trigger] d[m]),
    ensures rewritten(h0, h1, i, q, d)
{
    let n = q.len() as int; let m = d.len() as int;
    lem_stg_wfs(h0, h2, i, q, n, d, m); reveal(stg);
    let o = ops(h0, i); let x = cup(q, n, d, m); lem_ks_in(o, x, o.len() as int);
    assert forall|k: int| 0 <= k < ops(h1, i).len() implies opsame(h0, h1, i, #[trigger] ops(h1, i)[k]) by { let v = ops(h2, i)[k]; assert(opsame(h2, h1, i, v)); let j = choose|j: int| 0 <= j < o.len() && o[j] == v; assert(wfop(h0, i, o[j])); }
    lem_iodone(h0, h2, h1, i, false, q, 0); lem_iodone(h0, h2, h1, i, true, d, w);
    assert forall|y: (Id, Fld)| !sub_tm(h0, y, i) implies #[trigger] h1.f[y] == h0.f[y] by { if sub_tm(h2, y, i) { assert(sigsub(h2, y.0->Tm_0) == sigsub(h0, y.0->Tm_0)); } }
}
// ---- loading and storing: a well-formed model file gives a well-formed tree of objects, and the tree determines what is stored
pub uninterp spec fn model_of(b: PV) -> Hs;
pub uninterp spec fn bytes_of(h: Hs) -> PV;
pub open spec fn wfm(h: Hs) -> bool { h.l[Id::Subs].len() > 0 && (forall|i: int| 0 <= i < h.l[Id::Subs].len() ==> #[trigger] wf(h, i) && sigin(h, i) && wfq(h, i)) && h.f[(Id::Model, Fld::subgraphs)] == PV::Ref(Id::Subs) }
#[verifier::external_body] pub fn load_model(h: &mut Heap, b: V) -> (r: V) requires !(b@ is Unset) ensures r@ == PV::Ref(Id::Model), final(h)@ == model_of(b@), wfm(final(h)@) { unimplemented!() }
#[verifier::external_body] pub fn store_model(h: &mut Heap, m: V) -> (r: V) requires m@ == PV::Ref(Id::Model) ensures final(h)@ == old(h)@, r@ == bytes_of(old(h)@) { unimplemented!() }
pub open spec fn wanted(h: Hs, w: int, t: PV) -> Seq<PV> { if t == PV::Str(-2) { selall(h, 0, w) } else { Seq::empty() } }
pub open spec fn blocked(h0: Hs, i: int, q: Seq<PV>, d: Seq<PV>) -> bool { exists|h2: Hs| #[trigger] stg(h0, h2, i, q, q.len() as int, d, d.len() as int) && inuse(h2, i, rset(h0, i, q, q.len() as int, d, d.len() as int)) }
pub proof fn lem_empty(h: Hs, i: int) ensures qlist(h, i, Seq::empty()), forall|q: Seq<PV>| #[trigger] apart(q, Seq::empty()) && apart(Seq::empty(), q), { }
pub open spec fn is_l(h: Hs, v: V) -> bool { v@ is Ref && rid(v@) is L && rid(v@)->L_0 < h.next }
pub open spec fn is_s(h: Hs, v: V) -> bool { v@ is Ref && rid(v@) is S && rid(v@)->S_0 < h.next }
pub proof fn lem_stg_nones(h0: Hs, i: int, q: Seq<PV>, d: Seq<PV>)
    ensures forall|h: Hs| newsets(h0, h) ==> #[trigger] stg(h0, h, i, q, 0, d, 0)
{ assert forall|h: Hs| newsets(h0, h) implies #[trigger] stg(h0, h, i, q, 0, d, 0) by { lem_stg_none(h0, h, i, q, d); } }
// the operands of an operator as the loops see them
pub open spec fn op_at(h0: Hs, h: Hs, i: int, v: PV) -> bool {
    v is Ref && is_obj(v) && wfunary(h0, i, v) && h.f[(rid(v), Fld::inputs)] == PV::Ref(Id::OpIn(i, opn(v))) && h.f[(rid(v), Fld::outputs)] == PV::Ref(Id::OpOut(i, opn(v)))
    && h.a[Id::OpIn(i, opn(v))] == opin(h0, i, v) && h.a[Id::OpOut(i, opn(v))] == opout(h0, i, v)
}
pub open spec fn op_fields(h: Hs, f: Map<(Id, Fld), PV>) -> bool { forall|x: (Id, Fld)| x.1 != Fld::tensorIndex ==> #[trigger] f[x] == h.f[x] }
pub proof fn lem_op_at(h0: Hs, ha: Hs, hc: Hs, i: int, v: PV)
    requires op_at(h0, ha, i, v), hc.f == ha.f, forall|x: Id| x != Id::Ins(i) && x != Id::Outs(i) ==> #[trigger] hc.a[x] == ha.a[x],
    ensures op_at(h0, hc, i, v)
{ }
pub proof fn lem_stg_ints(h0: Hs, h: Hs, i: int, q: Seq<PV>, n: int, d: Seq<PV>, m: int)
    requires wf(h0, i), stg(h0, h, i, q, n, d, m), 0 <= n <= q.len(), 0 <= m <= d.len(), qlist(h0, i, q), qlist(h0, i, d),
    ensures forall|k: int| 0 <= k < h.a[Id::Ins(i)].len() ==> (#[trigger] h.a[Id::Ins(i)][k]) is Int, forall|k: int| 0 <= k < h.a[Id::Outs(i)].len() ==> (#[trigger] h.a[Id::Outs(i)][k]) is Int,
{
    reveal(stg);
    assert forall|k: int| 0 <= k < h.a[Id::Ins(i)].len() implies (#[trigger] h.a[Id::Ins(i)][k]) is Int by { lem_rtv_isint(h0, i, false, q, n, h0.a[Id::Ins(i)][k]); }
    assert forall|k: int| 0 <= k < h.a[Id::Outs(i)].len() implies (#[trigger] h.a[Id::Outs(i)][k]) is Int by { lem_rtv_isint(h0, i, true, d, m, h0.a[Id::Outs(i)][k]); }
}
pub proof fn lem_sig_all(hb: Hs, hc: Hs, s: Seq<PV>, i: int)
    requires hc.f == hb.f, nsig(hc) == nsig(hb), forall|k: int| 0 <= k < nsig(hb) && #[trigger] sigsub(hb, k) == i ==> s.contains(PV::Ref(Id::Sig(k))),
    ensures sig_all(hc, s, i)
{ assert forall|k: int| 0 <= k < nsig(hc) && #[trigger] sigsub(hc, k) == i implies s.contains(PV::Ref(Id::Sig(k))) by { assert(sigsub(hb, k) == sigsub(hc, k)); } }
pub open spec fn sig_all(h: Hs, s: Seq<PV>, i: int) -> bool { forall|k: int| 0 <= k < nsig(h) && #[trigger] sigsub(h, k) == i ==> s.contains(PV::Ref(Id::Sig(k))) }
pub proof fn lem_wfs_new2(h0: Hs, ha: Hs, hc: Hs)
    requires wfs(ha), nsig(ha) == nsig(h0), forall|k: int| #[trigger] sigsub(ha, k) == sigsub(h0, k), forall|k: int, b: bool| #[trigger] sigl(ha, k, b) == sigl(h0, k, b), hc.f == ha.f, forall|x: Id| !made(x) ==> #[trigger] hc.l[x] == ha.l[x],
    ensures wfs(hc), nsig(hc) == nsig(h0), forall|k: int| #[trigger] sigsub(hc, k) == sigsub(h0, k), forall|k: int, b: bool| #[trigger] sigl(hc, k, b) == sigl(h0, k, b),
{
    assert forall|k: int| 0 <= k < nsig(hc) implies #[trigger] wfsig(hc, k) by { assert(wfsig(ha, k)); assert forall|b: bool, j: int| 0 <= j < sigl(hc, k, b).len() implies (#[trigger] tmi(hc, k, b, j)) is Int by { assert(tmi(ha, k, b, j) is Int); } }
    assert forall|k: int| #[trigger] sigsub(hc, k) == sigsub(h0, k) by { assert(sigsub(ha, k) == sigsub(h0, k)); }
    assert forall|k: int, b: bool| #[trigger] sigl(hc, k, b) == sigl(h0, k, b) by { assert(sigl(ha, k, b) == sigl(h0, k, b)); }
}
// ---- stripping the operators that dequantize outputs: first Dequantize (2), then LceDequantize (3)
pub open spec fn none() -> Seq<PV> { Seq::empty() }
pub open spec fn mid(h0: Hs, h: Hs, i: int) -> bool { rewritten(h0, h, i, none(), selall(h0, i, 2)) && wfm(h) && sok(h0, i) && ncode(h) == ncode(h0) && h.l[Id::Subs].len() == h0.l[Id::Subs].len() && h.next >= h0.next }
pub open spec fn sok(h0: Hs, i: int) -> bool { alltyped(h0, i, 2, ops(h0, i).len() as int) }
pub open spec fn stripped(h0: Hs, h1: Hs, i: int) -> bool { exists|hm: Hs| #[trigger] mid(h0, hm, i) && last(hm, h1, i) }
pub open spec fn last(hm: Hs, h1: Hs, i: int) -> bool { rewritten(hm, h1, i, none(), selall(hm, i, 3)) && alltyped(hm, i, 3, ops(hm, i).len() as int) }
pub open spec fn refused(h0: Hs, i: int) -> bool {
    nocode(h0, 0, 2) || badtype(h0, i, 2) || blocked(h0, i, none(), selall(h0, i, 2)) || (exists|hm: Hs| #[trigger] mid(h0, hm, i) && (badtype(hm, i, 3) || blocked(hm, i, none(), selall(hm, i, 3))))
}
pub proof fn lem_wfm(h0: Hs, h1: Hs, i: int, q: Seq<PV>, d: Seq<PV>)
    requires wfm(h0), 0 <= i < h0.l[Id::Subs].len(), rewritten(h0, h1, i, q, d), wf(h1, i), sigin(h1, i),
    ensures wfm(h1), ncode(h1) == ncode(h0), h1.l[Id::Subs].len() == h0.l[Id::Subs].len(),
{
    assert forall|j: int| 0 <= j < h1.l[Id::Subs].len() implies #[trigger] wf(h1, j) && sigin(h1, j) && wfq(h1, j) by {
        assert(wf(h0, j)); assert(wf(h0, i)); assert(wfcodes(h1)) by { assert forall|k: int| 0 <= k < ncode(h1) implies #[trigger] wfcode(h1, k) by { assert(wfcode(h0, k)); } }
        if j != i {
            assert forall|k: int| 0 <= k < ops(h1, j).len() implies wfop(h1, j, #[trigger] ops(h1, j)[k]) by { assert(wfop(h0, j, ops(h0, j)[k])); }
            assert forall|k: int, b: bool, m: int| 0 <= k < nsig(h1) && sigsub(h1, k) == j && 0 <= m < sigl(h1, k, b).len() implies h1.a[if b { Id::Outs(j) } else { Id::Ins(j) }].contains(#[trigger] tmi(h1, k, b, m)) by {
                assert(sigsub(h0, k) == j); assert(tmi(h1, k, b, m) == tmi(h0, k, b, m)); assert(h0.a[if b { Id::Outs(j) } else { Id::Ins(j) }].contains(tmi(h0, k, b, m)));
            }
            assert forall|k: int| 0 <= k < ops(h1, j).len() && unaryop(h1, #[trigger] ops(h1, j)[k]) implies wfunary(h1, j, ops(h1, j)[k]) by { assert(unaryop(h0, ops(h0, j)[k])); assert(wfop(h0, j, ops(h0, j)[k])); }
        } else { lem_wfq(h0, h1, i, q, d); }
    }
}
pub proof fn lem_wfq(h0: Hs, h1: Hs, i: int, q: Seq<PV>, d: Seq<PV>)
    requires wf(h0, i), wfq(h0, i), rewritten(h0, h1, i, q, d), wf(h1, i), wfcodes(h1),
    ensures wfq(h1, i)
{
    let t0 = tns(h0, i); let o0 = ops(h0, i);
    lem_ks_in(t0, at(t0, rset(h0, i, q, q.len() as int, d, d.len() as int)), t0.len() as int);
    lem_ks_in(o0, cup(q, q.len() as int, d, d.len() as int), o0.len() as int);
    assert forall|k: int| 0 <= k < tns(h1, i).len() implies h1.f[(rid(#[trigger] tns(h1, i)[k]), Fld::type_)] is Int by { let j = choose|j: int| 0 <= j < t0.len() && t0[j] == tns(h1, i)[k]; assert(h0.f[(rid(t0[j]), Fld::type_)] is Int); }
    assert forall|k: int| 0 <= k < ops(h1, i).len() && unaryop(h1, #[trigger] ops(h1, i)[k]) implies wfunary(h1, i, ops(h1, i)[k]) by {
        let v = ops(h1, i)[k]; let j = choose|j: int| 0 <= j < o0.len() && o0[j] == v; assert(unaryop(h0, o0[j])); assert(wfop(h0, i, o0[j])); assert(wfop(h1, i, v)); assert(opsame(h0, h1, i, v)); assert(wfunary(h0, i, o0[j]));
        assert(den(tns(h1, i), opin(h1, i, v)[0]) == den(t0, opin(h0, i, v)[0])); assert(den(tns(h1, i), opout(h1, i, v)[0]) == den(t0, opout(h0, i, v)[0]));
        assert(is_tensor(t0[ival(opin(h0, i, v)[0])], i)); assert(is_tensor(t0[ival(opout(h0, i, v)[0])], i));
    }
}
pub proof fn lem_new(h0: Hs, h1: Hs, i: int)
    requires wf(h0, i), wfq(h0, i), sigin(h0, i), newsets(h0, h1),
    ensures wf(h1, i), wfq(h1, i), sigin(h1, i),
{
    lem_wfs_new2(h0, h0, h1);
    assert forall|k: int| 0 <= k < ops(h1, i).len() implies wfop(h1, i, #[trigger] ops(h1, i)[k]) by { assert(wfop(h0, i, ops(h0, i)[k])); }
    assert forall|k: int| 0 <= k < ncode(h1) implies #[trigger] wfcode(h1, k) by { assert(wfcode(h0, k)); }
    assert forall|k: int, b: bool, m: int| 0 <= k < nsig(h1) && sigsub(h1, k) == i && 0 <= m < sigl(h1, k, b).len() implies h1.a[if b { Id::Outs(i) } else { Id::Ins(i) }].contains(#[trigger] tmi(h1, k, b, m)) by {
        assert(sigsub(h0, k) == i); assert(tmi(h1, k, b, m) == tmi(h0, k, b, m)); assert(sigl(h0, k, b) == sigl(h1, k, b));
    }
    assert forall|k: int| 0 <= k < ops(h1, i).len() && unaryop(h1, #[trigger] ops(h1, i)[k]) implies wfunary(h1, i, ops(h1, i)[k]) by { assert(unaryop(h0, ops(h0, i)[k])); }
}
pub proof fn lem_wfm_new(h0: Hs, h1: Hs)
    requires wfm(h0), newsets(h0, h1),
    ensures wfm(h1)
{ assert forall|j: int| 0 <= j < h1.l[Id::Subs].len() implies #[trigger] wf(h1, j) && sigin(h1, j) && wfq(h1, j) by { assert(wf(h0, j)); lem_new(h0, h1, j); } }
pub proof fn lem_rewritten_new(h0: Hs, ha: Hs, h: Hs, i: int, q: Seq<PV>, d: Seq<PV>)
    requires rewritten(h0, ha, i, q, d), newsets(ha, h),
    ensures rewritten(h0, h, i, q, d)
{
    assert forall|k: int| 0 <= k < ops(h, i).len() implies opsame(h0, h, i, #[trigger] ops(h, i)[k]) by { assert(opsame(h0, ha, i, ops(ha, i)[k])); }
    assert forall|b: bool, s: Seq<PV>| iodone(h0, ha, i, b, s) implies #[trigger] iodone(h0, h, i, b, s) by {
        assert forall|k: int, j: int| 0 <= k < nsig(h0) && sigsub(h0, k) == i && 0 <= j < sigl(h0, k, b).len() implies den(tns(h, i), #[trigger] tmi(h, k, b, j)) == den(tns(h0, i), rtv(h0, i, b, s, s.len() as int, tmi(h0, k, b, j))) by { assert(tmi(ha, k, b, j) == tmi(h, k, b, j)); }
    }
}
// after the first stage
pub proof fn lem_mid(h0: Hs, ha: Hs, i: int)
    requires wfm(h0), 0 <= i < h0.l[Id::Subs].len(), rewritten(h0, ha, i, none(), selall(h0, i, 2)), wf(ha, i), sigin(ha, i), sok(h0, i), ha.next >= h0.next,
    ensures forall|h: Hs| newsets(ha, h) ==> #[trigger] mid(h0, h, i),
{
    lem_wfm(h0, ha, i, none(), selall(h0, i, 2));
    assert forall|h: Hs| newsets(ha, h) implies #[trigger] mid(h0, h, i) by { lem_rewritten_new(h0, ha, h, i, none(), selall(h0, i, 2)); lem_wfm_new(ha, h); }
}
// no Dequantize operators at all
pub proof fn lem_mid_none(h0: Hs, i: int, s: Set<PV>)
    requires wfm(h0), 0 <= i < h0.l[Id::Subs].len(), codeset(h0, s, 2, ncode(h0)), s =~= Set::empty(),
    ensures forall|h: Hs| newsets(h0, h) ==> #[trigger] mid(h0, h, i),
{
    assert(wf(h0, i));
    let o = ops(h0, i); let t = tns(h0, i); let d = selall(h0, i, 2);
    assert forall|k: int| 0 <= k < o.len() implies !which(h0, i, 2, #[trigger] o[k]) by { assert(wfop(h0, i, o[k])); assert(!s.contains(PV::Int(opc(h0, o[k])))); }
    lem_sel_none(h0, i, 2, o.len() as int); assert(d =~= none());
    lem_ks_low(o, cup(none(), 0, d, 0), o.len() as int); assert(o.take(o.len() as int) =~= o);
    lem_at(t, Set::empty()); lem_ks_low(t, at(t, Set::empty()), t.len() as int); assert(t.take(t.len() as int) =~= t);
    assert forall|h: Hs| newsets(h0, h) implies #[trigger] mid(h0, h, i) by {
        assert forall|k: int| 0 <= k < ops(h, i).len() implies opsame(h0, h, i, #[trigger] ops(h, i)[k]) by { }
        assert(iodone(h0, h, i, false, none())); assert(iodone(h0, h, i, true, none()));
        assert(rset(h0, i, none(), 0, d, 0) =~= Set::empty());
        assert(rewritten(h0, h, i, none(), d)); lem_wfm_new(h0, h);
    }
}
pub proof fn lem_sel_none(h: Hs, i: int, w: int, n: int)
    requires 0 <= n <= ops(h, i).len(), forall|k: int| 0 <= k < n ==> !which(h, i, w, #[trigger] ops(h, i)[k]),
    ensures sel(h, i, w, n) == Seq::<PV>::empty(),
    decreases n
{ if n > 0 { lem_sel_none(h, i, w, n - 1); } }
pub proof fn lem_codeset(h0: Hs, hm: Hs, i: int, s: Set<PV>, c: int)
    requires mid(h0, hm, i), codeset(h0, s, c, ncode(h0)),
    ensures codeset(hm, s, c, ncode(hm))
{ }
// the subgraphs one after another
pub open spec fn chain(h0: Hs, h: Hs, n: int) -> bool decreases n { if n <= 0 { newsets(h0, h) } else { exists|g: Hs| chain(h0, g, n - 1) && #[trigger] stripped(g, h, n - 1) } }
pub proof fn lem_chain(h0: Hs, ha: Hs, h: Hs, n: int)
    requires chain(h0, ha, n), stripped(ha, h, n), n >= 0,
    ensures chain(h0, h, n + 1)
{ assert(chain(h0, ha, (n + 1) - 1)); assert(stripped(ha, h, (n + 1) - 1)); }
pub open spec fn refused_at(h0: Hs, g: Hs, n: int) -> bool { 0 <= n < h0.l[Id::Subs].len() && chain(h0, g, n) && refused(g, n) }
pub open spec fn strip_refused(h0: Hs) -> bool { exists|g: Hs, n: int| #[trigger] refused_at(h0, g, n) }
@@fn _get_signature_defs as get_signature_defs
@ghost Ghost(i): Ghost<int>
@requires
        model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(i)), 0 <= i < old(h)@.l[Id::Subs].len(), wfs(old(h)@),
@ensures
        newonly(old(h)@, final(h)@), is_list(r@), r@ is Ref, rid(r@) is L, rid(r@)->L_0 >= old(h)@.next, rid(r@)->L_0 < final(h)@.next,
        forall|j: int| 0 <= j < elts(final(h)@, r).len() ==> #[trigger] elts(final(h)@, r)[j] == PV::Ref(Id::Sig(rid(elts(final(h)@, r)[j])->Sig_0)) && 0 <= rid(elts(final(h)@, r)[j])->Sig_0 < nsig(old(h)@) && sigsub(old(h)@, rid(elts(final(h)@, r)[j])->Sig_0) == i,
        forall|k: int| 0 <= k < nsig(old(h)@) && #[trigger] sigsub(old(h)@, k) == i ==> elts(final(h)@, r).contains(PV::Ref(Id::Sig(k))),
        distinct(elts(final(h)@, r)),
@loop 1 inv
        wfs(old(h)@), is_list(it1@), is_list(signature_defs@), signature_defs@ is Ref, rid(signature_defs@) is L, rid(signature_defs@)->L_0 == old(h)@.next, h@.next > old(h)@.next,
        newonly(old(h)@, h@), k1 <= elts(h@, it1).len(), it1@ != signature_defs@, rid(it1@) == Id::Sigs || (nsig(old(h)@) == 0 && elts(h@, it1).len() == 0),
        rid(it1@) == Id::Sigs ==> it1@ == PV::Ref(Id::Sigs) && nsig(old(h)@) == h@.l[Id::Sigs].len(),
        forall|j: int| 0 <= j < elts(h@, signature_defs).len() ==> #[trigger] elts(h@, signature_defs)[j] == PV::Ref(Id::Sig(rid(elts(h@, signature_defs)[j])->Sig_0)) && 0 <= rid(elts(h@, signature_defs)[j])->Sig_0 < k1 && sigsub(old(h)@, rid(elts(h@, signature_defs)[j])->Sig_0) == i,
        forall|k: int| 0 <= k < k1 && #[trigger] sigsub(old(h)@, k) == i ==> elts(h@, signature_defs).contains(PV::Ref(Id::Sig(k))),
        distinct(elts(h@, signature_defs)),
@loop 1 begin
            let ghost s0 = elts(h@, signature_defs); proof { assert(wfsig(old(h)@, k1 as int)); }
@loop 1 end
            proof {
                let s1 = elts(h@, signature_defs);
                if sigsub(old(h)@, k1 as int) == i { assert(s1 == s0.push(PV::Ref(Id::Sig(k1 as int)))); assert(s1[s0.len() as int] == PV::Ref(Id::Sig(k1 as int))); }
                assert forall|k: int| 0 <= k < k1 + 1 && #[trigger] sigsub(old(h)@, k) == i implies s1.contains(PV::Ref(Id::Sig(k))) by {
                    if k < k1 { assert(s0.contains(PV::Ref(Id::Sig(k)))); let j = choose|j: int| 0 <= j < s0.len() && s0[j] == PV::Ref(Id::Sig(k)); assert(s1[j] == s0[j]); }
                }
            }
@@fn _update_signature_def_tensors as update_signature_def_tensors
@requires
        is_list(tensor_maps@), rid(tensor_maps@) is SigIn || rid(tensor_maps@) is SigOut, tmlist(elts(old(h)@, tensor_maps), sigq(tensor_maps), sigb(tensor_maps)), is_dict(map_old_to_new_tensors@),
        forall|j: int| 0 <= j < elts(old(h)@, tensor_maps).len() ==> (#[trigger] tmi(old(h)@, sigq(tensor_maps), sigb(tensor_maps), j)) is Int,
@ensures
        final(h)@ == (Hs { f: final(h)@.f, ..old(h)@ }),
        forall|x: (Id, Fld)| #[trigger] final(h)@.f[x] == (if tm_of(x, tensor_maps, elts(old(h)@, tensor_maps).len() as int) { getx(old(h)@.d[rid(map_old_to_new_tensors@)], old(h)@.f[x]) } else { old(h)@.f[x] }),
@loop 1 inv
        k1 <= py_cnt(it1), py_cnt(it1) == elts(old(h)@, tensor_maps).len(), it1@ is Int,
        h@ == (Hs { f: h@.f, ..old(h)@ }),
        forall|x: (Id, Fld)| #[trigger] h@.f[x] == (if tm_of(x, tensor_maps, k1 as int) { getx(old(h)@.d[rid(map_old_to_new_tensors@)], old(h)@.f[x]) } else { old(h)@.f[x] }),
@loop 1 begin
            let ghost h0 = h@; proof { assert(elts(h0, tensor_maps) == elts(old(h)@, tensor_maps)); assert(tmi(h0, sigq(tensor_maps), sigb(tensor_maps), k1 as int) == tmi(old(h)@, sigq(tensor_maps), sigb(tensor_maps), k1 as int)); }
@@fn _check_tensors_unused as check_tensors_unused
@requires
        is_arr(tensor_idxs@), is_set(remove_tensors_idxs@), forall|k: int| 0 <= k < elts(old(h)@, tensor_idxs).len() ==> (#[trigger] elts(old(h)@, tensor_idxs)[k]) is Int,
@throw !unused(elts(old(h)@, tensor_idxs), old(h)@.s[rid(remove_tensors_idxs@)])
@ensures
        final(h)@ == old(h)@, unused(elts(old(h)@, tensor_idxs), old(h)@.s[rid(remove_tensors_idxs@)]),
@loop 1 inv
        h@ == old(h)@, is_arr(it1@), it1 == tensor_idxs, k1 <= elts(h@, it1).len(), forall|k: int| 0 <= k < k1 ==> !old(h)@.s[rid(remove_tensors_idxs@)].contains(#[trigger] elts(old(h)@, tensor_idxs)[k]),
@@fn _remove_tensors_from_model.update_tensors as update_tensors
@requires
        is_arr(tensor_idxs@), is_dict(d_old_to_new_tensors@), forall|k: int| 0 <= k < elts(old(h)@, tensor_idxs).len() ==> (#[trigger] elts(old(h)@, tensor_idxs)[k]) is Int,
        dict_ints(old(h)@.d[rid(d_old_to_new_tensors@)]),
@ensures
        final(h)@ == (Hs { a: final(h)@.a, ..old(h)@ }), forall|x: Id| x != rid(tensor_idxs@) ==> #[trigger] final(h)@.a[x] == old(h)@.a[x],
        final(h)@.a[rid(tensor_idxs@)] == mapd(elts(old(h)@, tensor_idxs), old(h)@.d[rid(d_old_to_new_tensors@)]),
@start
    let ghost s0 = elts(old(h)@, tensor_idxs); let ghost d0 = old(h)@.d[rid(d_old_to_new_tensors@)];
@loop 1 inv
        it1 == tensor_idxs, k1 <= s0.len(), elts(h@, tensor_idxs).len() == s0.len(),
        h@ == (Hs { a: h@.a, ..old(h)@ }), forall|x: Id| x != rid(tensor_idxs@) ==> #[trigger] h@.a[x] == old(h)@.a[x],
        forall|k: int| 0 <= k < s0.len() ==> #[trigger] elts(h@, tensor_idxs)[k] == (if k < k1 { getd(d0, s0[k]) } else { s0[k] }),
@loop 1 after
    proof { assert(elts(h@, tensor_idxs) =~= mapd(s0, d0)); }
@@fn _remove_tensors_from_model as remove_tensors_from_model
@isolate
@ghost Ghost(i): Ghost<int>
@requires
        model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(i)), wf(old(h)@, i), sigin(old(h)@, i), is_set(remove_tensors_idxs@),
        forall|x: PV| #[trigger] old(h)@.s[rid(remove_tensors_idxs@)].contains(x) ==> x is Int && 0 <= ival(x) < tns(old(h)@, i).len(),
@throw inuse(old(h)@, i, old(h)@.s[rid(remove_tensors_idxs@)])
@ensures
        rem_post(old(h)@, final(h)@, i, old(h)@.s[rid(remove_tensors_idxs@)]), wf(final(h)@, i), sigin(final(h)@, i),
        !inuse(old(h)@, i, old(h)@.s[rid(remove_tensors_idxs@)]), final(h)@.s == old(h)@.s, final(h)@.next >= old(h)@.next, final(h)@.k == old(h)@.k,
@start
    let ghost r0 = old(h)@.s[rid(remove_tensors_idxs@)]; let ghost t0 = tns(old(h)@, i); let ghost n0 = t0.len() as int; let ghost o0 = ops(old(h)@, i);
    proof { lem_at(t0, r0); if r0 =~= Set::empty() { lem_ks_low(t0, at(t0, r0), n0); assert(t0.take(n0) =~= t0); } }
@loop 1 inv
        wf(old(h)@, i), is_set(remove_tensors_idxs@), remove_tensors_idxs__0 == remove_tensors_idxs, r0 == old(h)@.s[rid(remove_tensors_idxs@)], o0 == ops(old(h)@, i), t0 == tns(old(h)@, i),
        it1 == operators, operators@ == PV::Ref(Id::Ops(i)), tensors@ == PV::Ref(Id::Tensors(i)), k1 <= o0.len(), h@ == old(h)@,
        forall|k: int| 0 <= k < k1 ==> opfree(old(h)@, i, #[trigger] o0[k], r0),
@loop 1 begin
            proof { assert(wfop(old(h)@, i, o0[k1 as int])); if !opfree(old(h)@, i, o0[k1 as int], r0) { assert(inuse(old(h)@, i, r0)); } }
@loop 2 inv
        is_set(remove_tensors_idxs@), r0 == old(h)@.s[rid(remove_tensors_idxs@)], n0 == t0.len(), distinct(t0),
        k2 <= n0, it2@ == PV::Int(n0),
        is_dict(d_old_to_new_tensors@), h@ == (Hs { d: h@.d, next: h@.next, ..old(h)@ }), h@.next >= old(h)@.next,
        renum(t0, r0, h@.d[rid(d_old_to_new_tensors@)], k2 as int), left_shift_by@ == PV::Int(k2 - ks(t0, at(t0, r0), k2 as int).len()),
@loop 2 begin
            proof { lem_renum_step(t0, r0, h@.d[rid(d_old_to_new_tensors@)], k2 as int); }
@loop 2 after
        let ghost d0 = h@.d[rid(d_old_to_new_tensors@)]; let ghost h2 = h@;
        proof { lem_renum_int(t0, r0, d0, n0); }
@loop 3 before
        proof { lem_ops_none(old(h)@, h@, i, d0); }
@loop 3 inv
        wf(old(h)@, i), o0 == ops(old(h)@, i), h2 == (Hs { d: h2.d, next: h2.next, ..old(h)@ }), operators@ == PV::Ref(Id::Ops(i)), dict_ints(d0), h2.d[rid(d_old_to_new_tensors@)] == d0,
        it3 == operators, k3 <= o0.len(), h@ == (Hs { a: h@.a, ..h2 }), h@.a[Id::Ins(i)] == mapd(old(h)@.a[Id::Ins(i)], d0), h@.a[Id::Outs(i)] == mapd(old(h)@.a[Id::Outs(i)], d0), is_dict(d_old_to_new_tensors@),
        a_frame(old(h)@, h@, i), ops_map(old(h)@, h@, i, k3 as int, d0),
@loop 3 begin
            let ghost a3 = h@;
            proof { lem_ops_at(old(h)@, h@, i, k3 as int, d0); }
@loop 3 end
            proof { lem_ops_step(old(h)@, a3, h@, i, k3 as int, d0); }
@loop 3 after
        let ghost h3 = h@;
        proof { lem_wfs(old(h)@, h3); }
@loop 4 inv
        k4 <= elts(h@, it4).len(), is_list(it4@), elts(h@, it4) == s4, h@ == (Hs { f: h@.f, ..h4 }), wfs(h4), sig_up(h4, h@.f, s4, k4 as int, d0), distinct(s4), is_dict(d_old_to_new_tensors@), h4.d[rid(d_old_to_new_tensors@)] == d0,
        sig_list(h4, s4, i),
@loop 4 before
        let ghost h4 = h@; let ghost s4 = elts(h4, it4);
        proof { lem_wfs_new(h3, h4); lem_sigs(h4, s4, i); lem_sig_none(h4, h4.f, s4, d0); }
@loop 4 begin
            let ghost f4 = h@.f; let ghost kk = rid(s4[k4 as int])->Sig_0;
            proof { lem_sig_at(h4, h@, s4, k4 as int, d0, kk); }
@loop 4 end
            proof { lem_sig_step(h4, f4, h@.f, s4, k4 as int, d0, kk); }
@loop 4 after
        let ghost h5 = h@;
@loop 5 inv
        distinct(t0), n0 == t0.len(), is_list(it5@), tensors@ == PV::Ref(Id::Tensors(i)), rid(it5@) != Id::Tensors(i),
        k5 <= elts(h@, it5).len(), elts(h@, it5) == l5, h@ == (Hs { l: h@.l, ..h6 }), forall|x: Id| x != Id::Tensors(i) ==> #[trigger] h@.l[x] == h6.l[x],
        tns(h@, i) == ks(t0, pops(t0, l5, k5 as int), n0),
        down(l5), forall|m: int| 0 <= m < l5.len() ==> (#[trigger] l5[m]) is Int && 0 <= ival(l5[m]) < n0,
@loop 5 before
        let ghost h6 = h@; let ghost l5 = elts(h6, it5);
        proof {
            lem_ks_low(t0, Set::empty(), n0); assert(t0.take(n0) =~= t0);
            assert forall|m: int| 0 <= m < l5.len() implies (#[trigger] l5[m]) is Int && 0 <= ival(l5[m]) < n0 by { assert(l5.contains(l5[m])); }
        }
@loop 5 begin
            proof { lem_pop_step(t0, l5, k5 as int); }
@loop 5 after
        proof {
            lem_popped(t0, r0, l5);
            lem_sig_up_same(h4, old(h)@, h@.f, s4, d0);
            lem_ops_same(old(h)@, h3, h@, i, o0.len() as int, d0);
            lem_removed(old(h)@, h@, i, r0, d0, s4);
        }
@end
    proof {
        let c = n0 - r0.len() as int;
        if h@ == (Hs { l: h@.l, ..old(h)@ }) && 0 <= c <= n0 && h@.l == old(h)@.l.insert(Id::Tensors(i), t0.take(c)) && (forall|x: PV| #[trigger] r0.contains(x) ==> c <= ival(x)) { lem_tail(old(h)@, h@, i, r0, c); }
    }
@@fn _find_int8_quantized_inputs_outputs as find_int8_quantized
@requires
        model@ == PV::Ref(Id::Model), wf(old(h)@, 0), wfq(old(h)@, 0),
@throw nocode(old(h)@, 0, 1) || badtype(old(h)@, 0, 0) || badtype(old(h)@, 0, 1)
@ensures
        newsets(old(h)@, final(h)@), is_list(r@), elts(final(h)@, r).len() == 2,
        forall|j: int| 0 <= j < 2 ==> is_list(#[trigger] elts(final(h)@, r)[j]) && rid(elts(final(h)@, r)[j]) is L && rid(elts(final(h)@, r)[j])->L_0 < final(h)@.next && final(h)@.l[rid(elts(final(h)@, r)[j])] == selall(old(h)@, 0, j),
        alltyped(old(h)@, 0, 0, ops(old(h)@, 0).len() as int), alltyped(old(h)@, 0, 1, ops(old(h)@, 0).len() as int),
        !nocode(old(h)@, 0, 1),
@start
    let ghost h0 = old(h)@; let ghost o0 = ops(old(h)@, 0);
@loop 1 inv
        newsets(h0, h@), is_list(it1@), it1@ == PV::Ref(Id::Codes), k1 <= ncode(h0), elts(h@, it1) == h0.l[Id::Codes],
        is_set(quant_opcode_idxs@), is_set(dequant_opcode_idxs@), quant_opcode_idxs@ != dequant_opcode_idxs@,
        codeset(h0, h@.s[rid(quant_opcode_idxs@)], 0, k1 as int), codeset(h0, h@.s[rid(dequant_opcode_idxs@)], 1, k1 as int),
@loop 1 begin
            proof { assert(wfcode(h0, k1 as int)); }
@loop 1 after
        proof { if nocode(h0, 0, 1) {
            assert forall|x: PV| !(#[trigger] h@.s[rid(quant_opcode_idxs@)].contains(x)) by { if h@.s[rid(quant_opcode_idxs@)].contains(x) { assert(wfcode(h0, ival(x))); } }
            assert forall|x: PV| !(#[trigger] h@.s[rid(dequant_opcode_idxs@)].contains(x)) by { if h@.s[rid(dequant_opcode_idxs@)].contains(x) { assert(wfcode(h0, ival(x))); } }
            assert(h@.s[rid(quant_opcode_idxs@)] =~= Set::empty()); assert(h@.s[rid(dequant_opcode_idxs@)] =~= Set::empty());
        } }
        proof { if h@.s[rid(quant_opcode_idxs@)] =~= Set::empty() && h@.s[rid(dequant_opcode_idxs@)] =~= Set::empty() {
            assert forall|k: int| 0 <= k < ncode(h0) implies #[trigger] wfcode(h0, k) && !cq(h0, k) && !cd(h0, k) by { assert(!h@.s[rid(quant_opcode_idxs@)].contains(PV::Int(k))); assert(!h@.s[rid(dequant_opcode_idxs@)].contains(PV::Int(k))); }
        } }
@loop 2 inv
        newsets(h0, h@), it2@ == PV::Ref(Id::Ops(0)), k2 <= o0.len(),
        codeset(h0, h@.s[rid(quant_opcode_idxs@)], 0, ncode(h0)), codeset(h0, h@.s[rid(dequant_opcode_idxs@)], 1, ncode(h0)),
        is_list(input_quant_ops@), rid(input_quant_ops@) is L, is_list(output_dequant_ops@), rid(output_dequant_ops@) is L, input_quant_ops@ != output_dequant_ops@, rid(input_quant_ops@)->L_0 < h@.next, rid(output_dequant_ops@)->L_0 < h@.next,
        elts(h@, input_quant_ops) == sel(h0, 0, 0, k2 as int), elts(h@, output_dequant_ops) == sel(h0, 0, 1, k2 as int),
        alltyped(h0, 0, 0, k2 as int), alltyped(h0, 0, 1, k2 as int),
@loop 2 begin
            proof { assert(wfop(h0, 0, o0[k2 as int])); assert(o0[k2 as int] == ops(h0, 0)[k2 as int]); }
@@fn modify_integer_quantized_model_io_type as modify_io_type
@isolate
@requires
        !(model@ is Unset), simple(inference_input_type@), simple(inference_output_type@),
@throw nocode(model_of(model@), 0, 1) || badtype(model_of(model@), 0, 0) || badtype(model_of(model@), 0, 1) || !nodup(model_of(model@), 0, wanted(model_of(model@), 0, inference_input_type@), wanted(model_of(model@), 0, inference_input_type@).len() as int) || blocked(model_of(model@), 0, wanted(model_of(model@), 0, inference_input_type@), wanted(model_of(model@), 1, inference_output_type@))
@ensures
        r@ == bytes_of(final(h)@),
        rewritten(model_of(model@), final(h)@, 0, wanted(model_of(model@), 0, inference_input_type@), wanted(model_of(model@), 1, inference_output_type@)),
        alltyped(model_of(model@), 0, 0, ops(model_of(model@), 0).len() as int), alltyped(model_of(model@), 0, 1, ops(model_of(model@), 0).len() as int), !nocode(model_of(model@), 0, 1),
        nodup(model_of(model@), 0, wanted(model_of(model@), 0, inference_input_type@), wanted(model_of(model@), 0, inference_input_type@).len() as int),
@start
    let ghost h0 = model_of(model@); let ghost qs = wanted(h0, 0, inference_input_type@); let ghost ds = wanted(h0, 1, inference_output_type@);
@call find_int8_quantized after
    proof {
        lem_selall(h0, 0, 0); lem_selall(h0, 0, 1); lem_apart(h0, 0); lem_empty(h0, 0);
        assert(is_list(elts(h@, @RET)[0])); assert(is_list(elts(h@, @RET)[1]));
        lem_stg_nones(h0, 0, qs, ds); assert(h@.l[Id::Subs] == h0.l[Id::Subs]); assert(wf(h0, 0)); assert(wfs(h0)); assert(h0.l[Id::Subs][0] == PV::Ref(Id::Sub(0))); assert(h@.f[(Id::Sub(0), Fld::operators)] == PV::Ref(Id::Ops(0)));
    }
@loop 1 inv
        h0 == model_of(model__0@), wf(h0, 0), wfq(h0, 0), qlist(h0, 0, qs), qlist(h0, 0, ds), apart(qs, ds), model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(0)), operators@ == PV::Ref(Id::Ops(0)),
        forall|m: int| 0 <= m < qs.len() ==> typed(h0, 0, 0, #[trigger] qs[m]), forall|m: int| 0 <= m < ds.len() ==> typed(h0, 0, 1, #[trigger] ds[m]), qs == wanted(h0, 0, inference_input_type@), ds == wanted(h0, 1, inference_output_type@), inference_input_type == inference_input_type__0, inference_output_type == inference_output_type__0,
        it1 == input_quant_ops, is_l(h@, input_quant_ops), elts(h@, input_quant_ops) == qs, is_s(h@, remove_tensors_idxs),
        k1 <= qs.len(), stg(h0, h@, 0, qs, k1 as int, ds, 0), h@.s[rid(remove_tensors_idxs@)] == rset(h0, 0, qs, k1 as int, ds, 0), nodup(h0, 0, qs, k1 as int),
        is_l(h@, output_dequant_ops), inference_output_type@ == PV::Str(-2) ==> elts(h@, output_dequant_ops) == ds, 
@loop 1 begin
            let ghost ha = h@; let ghost v0 = qs[k1 as int]; let ghost key0 = keyb(h0, 0, false, v0); let ghost val0 = valb(h0, 0, false, v0);
            proof { lem_stg_at(h0, ha, 0, qs, k1 as int, ds, 0, v0); lem_stg_ints(h0, ha, 0, qs, k1 as int, ds, 0); lem_rset_keys(h0, 0, qs, k1 as int, ds); if exists|a: int| 0 <= a < k1 && keyb(h0, 0, false, #[trigger] qs[a]) == key0 { assert(!nodup(h0, 0, qs, qs.len() as int)); } }
@loop 1.1 before
            let ghost hc = h@; let ghost sl = elts(hc, it1_1);
            proof { lem_wfs_new2(h0, ha, hc); lem_sig_all(hb, hc, sl, 0); lem_sig_rep_none(hc, sl, false, key0, val0); lem_op_at(h0, ha, hc, 0, v0); }
@loop 1.1 inv
        h0 == model_of(model__0@), wf(h0, 0), wfq(h0, 0), qlist(h0, 0, qs), qlist(h0, 0, ds), apart(qs, ds), model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(0)), operators@ == PV::Ref(Id::Ops(0)),
        forall|m: int| 0 <= m < qs.len() ==> typed(h0, 0, 0, #[trigger] qs[m]), forall|m: int| 0 <= m < ds.len() ==> typed(h0, 0, 1, #[trigger] ds[m]), qs == wanted(h0, 0, inference_input_type@), ds == wanted(h0, 1, inference_output_type@), inference_input_type == inference_input_type__0, inference_output_type == inference_output_type__0,
        v0 == qs[k1 as int], op@ == v0, k1 < qs.len(), op_at(h0, hc, 0, v0), key0 == keyb(h0, 0, false, v0), val0 == valb(h0, 0, false, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
        k1_1 <= sl.len(), is_list(it1_1@), elts(h@, it1_1) == sl, is_l(hc, it1_1), sig_rep(hc, h@.f, sl, k1_1 as int, false, key0, val0), sig_list(hc, sl, 0), sig_all(hc, sl, 0), distinct(sl),
@loop 1.1 begin
                let ghost f1 = h@.f; let ghost kk = rid(sl[k1_1 as int])->Sig_0;
                proof { lem_sig_rep_at(hc, h@, sl, k1_1 as int, false, key0, val0, kk); }
@loop 1.1 end
                proof { lem_sig_rep_step(hc, f1, h@.f, sl, k1_1 as int, false, key0, val0, kk); }
@loop 1.1.1 inv
        h0 == model_of(model__0@), wf(h0, 0), wfq(h0, 0), qlist(h0, 0, qs), qlist(h0, 0, ds), apart(qs, ds), model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(0)), operators@ == PV::Ref(Id::Ops(0)),
        forall|m: int| 0 <= m < qs.len() ==> typed(h0, 0, 0, #[trigger] qs[m]), forall|m: int| 0 <= m < ds.len() ==> typed(h0, 0, 1, #[trigger] ds[m]), qs == wanted(h0, 0, inference_input_type@), ds == wanted(h0, 1, inference_output_type@), inference_input_type == inference_input_type__0, inference_output_type == inference_output_type__0,
        v0 == qs[k1 as int], op@ == v0, k1 < qs.len(), op_at(h0, hc, 0, v0), key0 == keyb(h0, 0, false, v0), val0 == valb(h0, 0, false, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
                one_rep(f1, h@.f, kk, false, k1_1_1 as int, key0, val0), k1_1_1 <= py_cnt(it1_1_1), it1_1_1@ is Int, py_cnt(it1_1_1) == sigl(hc, kk, false).len(), signature_def@ == PV::Ref(Id::Sig(kk)),
                op_fields(hc, f1), f1[(Id::Sig(kk), Fld::inputs)] == PV::Ref(Id::SigIn(kk)), tmlist(hc.l[Id::SigIn(kk)], kk, false),
                forall|j: int| 0 <= j < sigl(hc, kk, false).len() ==> (#[trigger] f1[(Id::Tm(kk, false, j), Fld::tensorIndex)]) is Int,
@loop 1.1 after
            proof { lem_sig_rep_done(h0, hc, h@.f, sl, 0, false, key0, val0); }
@loop 1 end
            proof {
                let p = choose|p: int| #[trigger] first_at(ops(ha, 0), v0, p) && ops(h@, 0) == ops(ha, 0).remove(p);
                assert(redirected(h0, ha, h@, 0, false, v0));
                lem_stg_step(h0, ha, h@, 0, qs, k1 as int, ds, 0, v0, p);
            }
@loop 2 inv
        h0 == model_of(model__0@), wf(h0, 0), wfq(h0, 0), qlist(h0, 0, qs), qlist(h0, 0, ds), apart(qs, ds), model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(0)), operators@ == PV::Ref(Id::Ops(0)),
        forall|m: int| 0 <= m < qs.len() ==> typed(h0, 0, 0, #[trigger] qs[m]), forall|m: int| 0 <= m < ds.len() ==> typed(h0, 0, 1, #[trigger] ds[m]), qs == wanted(h0, 0, inference_input_type@), ds == wanted(h0, 1, inference_output_type@), inference_input_type == inference_input_type__0, inference_output_type == inference_output_type__0,
        it2 == output_dequant_ops, is_l(h@, output_dequant_ops), elts(h@, output_dequant_ops) == ds, is_s(h@, remove_tensors_idxs),
        k2 <= ds.len(), stg(h0, h@, 0, qs, qs.len() as int, ds, k2 as int), h@.s[rid(remove_tensors_idxs@)] == rset(h0, 0, qs, qs.len() as int, ds, k2 as int),
@loop 2 begin
            let ghost ha = h@; let ghost v0 = ds[k2 as int]; let ghost key0 = keyb(h0, 0, true, v0); let ghost val0 = valb(h0, 0, true, v0);
            proof { lem_stg_at(h0, ha, 0, qs, qs.len() as int, ds, k2 as int, v0); lem_stg_ints(h0, ha, 0, qs, qs.len() as int, ds, k2 as int);  }
@loop 2.1 before
            let ghost hc = h@; let ghost sl = elts(hc, it2_1);
            proof { lem_wfs_new2(h0, ha, hc); lem_sig_all(hb, hc, sl, 0); lem_sig_rep_none(hc, sl, true, key0, val0); lem_op_at(h0, ha, hc, 0, v0); }
@loop 2.1 inv
        h0 == model_of(model__0@), wf(h0, 0), wfq(h0, 0), qlist(h0, 0, qs), qlist(h0, 0, ds), apart(qs, ds), model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(0)), operators@ == PV::Ref(Id::Ops(0)),
        forall|m: int| 0 <= m < qs.len() ==> typed(h0, 0, 0, #[trigger] qs[m]), forall|m: int| 0 <= m < ds.len() ==> typed(h0, 0, 1, #[trigger] ds[m]), qs == wanted(h0, 0, inference_input_type@), ds == wanted(h0, 1, inference_output_type@), inference_input_type == inference_input_type__0, inference_output_type == inference_output_type__0,
        v0 == ds[k2 as int], op@ == v0, k2 < ds.len(), op_at(h0, hc, 0, v0), key0 == keyb(h0, 0, true, v0), val0 == valb(h0, 0, true, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
        k2_1 <= sl.len(), is_list(it2_1@), elts(h@, it2_1) == sl, is_l(hc, it2_1), sig_rep(hc, h@.f, sl, k2_1 as int, true, key0, val0), sig_list(hc, sl, 0), sig_all(hc, sl, 0), distinct(sl),
@loop 2.1 begin
                let ghost f1 = h@.f; let ghost kk = rid(sl[k2_1 as int])->Sig_0;
                proof { lem_sig_rep_at(hc, h@, sl, k2_1 as int, true, key0, val0, kk); }
@loop 2.1 end
                proof { lem_sig_rep_step(hc, f1, h@.f, sl, k2_1 as int, true, key0, val0, kk); }
@loop 2.1.1 inv
        h0 == model_of(model__0@), wf(h0, 0), wfq(h0, 0), qlist(h0, 0, qs), qlist(h0, 0, ds), apart(qs, ds), model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(0)), operators@ == PV::Ref(Id::Ops(0)),
        forall|m: int| 0 <= m < qs.len() ==> typed(h0, 0, 0, #[trigger] qs[m]), forall|m: int| 0 <= m < ds.len() ==> typed(h0, 0, 1, #[trigger] ds[m]), qs == wanted(h0, 0, inference_input_type@), ds == wanted(h0, 1, inference_output_type@), inference_input_type == inference_input_type__0, inference_output_type == inference_output_type__0,
        v0 == ds[k2 as int], op@ == v0, k2 < ds.len(), op_at(h0, hc, 0, v0), key0 == keyb(h0, 0, true, v0), val0 == valb(h0, 0, true, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
                one_rep(f1, h@.f, kk, true, k2_1_1 as int, key0, val0), k2_1_1 <= py_cnt(it2_1_1), it2_1_1@ is Int, py_cnt(it2_1_1) == sigl(hc, kk, true).len(), signature_def@ == PV::Ref(Id::Sig(kk)),
                op_fields(hc, f1), f1[(Id::Sig(kk), Fld::outputs)] == PV::Ref(Id::SigOut(kk)), tmlist(hc.l[Id::SigOut(kk)], kk, true),
                forall|j: int| 0 <= j < sigl(hc, kk, true).len() ==> (#[trigger] f1[(Id::Tm(kk, true, j), Fld::tensorIndex)]) is Int,
@loop 2.1 after
            proof { lem_sig_rep_done(h0, hc, h@.f, sl, 0, true, key0, val0); }
@loop 2 end
            proof {
                let p = choose|p: int| #[trigger] first_at(ops(ha, 0), v0, p) && ops(h@, 0) == ops(ha, 0).remove(p);
                assert(redirected(h0, ha, h@, 0, true, v0));
                lem_stg_step(h0, ha, h@, 0, qs, qs.len() as int, ds, k2 as int, v0, p);
            }
@call get_signature_defs before
            let ghost hb = h@; proof { lem_wfs(ha, hb); }
@call remove_tensors_from_model before
    let ghost hr = h@;
    proof { lem_stg_wf(h0, hr, 0, qs, ds); lem_rset(h0, 0, qs, qs.len() as int, ds, ds.len() as int); if inuse(hr, 0, rset(h0, 0, qs, qs.len() as int, ds, ds.len() as int)) { assert(blocked(h0, 0, qs, ds)); } }
@call remove_tensors_from_model after
    proof { lem_final(h0, hr, h@, 0, qs, ds, 1); }
@ghostarg get_signature_defs.i = 0
@ghostarg remove_tensors_from_model.i = 0
@@fn _strip_lcedequantize_ops_subgraph as strip_subgraph
@isolate
@ghost Ghost(g): Ghost<int>
@requires
        model@ == PV::Ref(Id::Model), subgraph@ == PV::Ref(Id::Sub(g)), wfm(old(h)@), 0 <= g < old(h)@.l[Id::Subs].len(),
@throw refused(old(h)@, g)
@ensures
        stripped(old(h)@, final(h)@, g), wfm(final(h)@), final(h)@.l[Id::Subs].len() == old(h)@.l[Id::Subs].len(), !nocode(old(h)@, 0, 2),
@start
    let ghost h0 = old(h)@; proof { assert(wf(h0, g)); }
@loop 1 inv
        wfm(h0), wfcodes(h0), newsets(h0, h@), it1@ == PV::Ref(Id::Codes), k1 <= ncode(h0), elts(h@, it1) == h0.l[Id::Codes],
        is_set(lce_dequant_opcode_idxs@), is_set(dequant_opcode_idxs@), lce_dequant_opcode_idxs@ != dequant_opcode_idxs@, is_s(h@, lce_dequant_opcode_idxs), is_s(h@, dequant_opcode_idxs),
        codeset(h0, h@.s[rid(lce_dequant_opcode_idxs@)], 3, k1 as int), codeset(h0, h@.s[rid(dequant_opcode_idxs@)], 2, k1 as int),
@loop 1 begin
            proof { assert(wfcode(h0, k1 as int)); }
@loop 1 after
        let ghost s_l = h@.s[rid(lce_dequant_opcode_idxs@)]; let ghost s_d = h@.s[rid(dequant_opcode_idxs@)];
        proof {
            if nocode(h0, 0, 2) {
                assert forall|x: PV| !(#[trigger] s_l.contains(x)) by { if s_l.contains(x) { assert(wfcode(h0, ival(x))); } }
                assert forall|x: PV| !(#[trigger] s_d.contains(x)) by { if s_d.contains(x) { assert(wfcode(h0, ival(x))); } }
                assert(s_l =~= Set::empty()); assert(s_d =~= Set::empty());
            }
            if s_l =~= Set::empty() && s_d =~= Set::empty() {
                assert forall|k: int| 0 <= k < ncode(h0) implies #[trigger] wfcode(h0, k) && !clce(h0, k) && !cd(h0, k) by { assert(!s_l.contains(PV::Int(k))); assert(!s_d.contains(PV::Int(k))); }
            }
            if s_d =~= Set::empty() { lem_mid_none(h0, g, s_d); }
        }
@loop 2 before
        
@loop 2 inv
        wfm(h0), wf(h0, g), wfq(h0, g), newsets(h0, h@), it2@ == PV::Ref(Id::Ops(g)), tensors@ == PV::Ref(Id::Tensors(g)), subgraph@ == PV::Ref(Id::Sub(g)), k2 <= ops(h0, g).len(), throw_strip_subgraph(old(h)@, model__0, subgraph__0, g) <== badtype(h0, g, 2),
        is_set(dequant_opcode_idxs@), codeset(h0, h@.s[rid(dequant_opcode_idxs@)], 2, ncode(h0)), is_s(h@, remove_tensors_idxs), h@.s[rid(remove_tensors_idxs@)] == Set::<PV>::empty(),
        is_l(h@, output_dequant_ops), elts(h@, output_dequant_ops) == sel(h0, g, 2, k2 as int), alltyped(h0, g, 2, k2 as int),
        is_s(h@, lce_dequant_opcode_idxs), h@.s[rid(lce_dequant_opcode_idxs@)] == s_l, lce_dequant_opcode_idxs@ != remove_tensors_idxs@,
@loop 2 begin
            proof { assert(wfop(h0, g, ops(h0, g)[k2 as int])); }
@loop 3 before
        let ghost ds = selall(h0, g, 2);
        proof { lem_selall(h0, g, 2); lem_empty(h0, g); lem_stg_nones(h0, g, none(), ds); }
@loop 3 inv
        wfm(h0), wf(h0, g), sigin(h0, g), wfq(h0, g), qlist(h0, g, none()), qlist(h0, g, ds), apart(none(), ds), ds == selall(h0, g, 2), model@ == PV::Ref(Id::Model), model__0 == model, subgraph__0 == subgraph, subgraph@ == PV::Ref(Id::Sub(g)), operators@ == PV::Ref(Id::Ops(g)), h0.l[Id::Subs].len() > 0, 0 <= g < h0.l[Id::Subs].len(),
        forall|m: int| 0 <= m < ds.len() ==> typed(h0, g, 2, #[trigger] ds[m]),
        it3 == output_dequant_ops, is_l(h@, output_dequant_ops), elts(h@, output_dequant_ops) == ds, is_s(h@, remove_tensors_idxs),
        k3 <= ds.len(), stg(h0, h@, g, none(), 0, ds, k3 as int), h@.s[rid(remove_tensors_idxs@)] == rset(h0, g, none(), 0, ds, k3 as int), is_s(h@, lce_dequant_opcode_idxs), h@.s[rid(lce_dequant_opcode_idxs@)] == s_l, lce_dequant_opcode_idxs@ != remove_tensors_idxs@,
@loop 3 begin
            let ghost ha = h@; let ghost v0 = ds[k3 as int]; let ghost key0 = keyb(h0, g, true, v0); let ghost val0 = valb(h0, g, true, v0);
            proof { lem_stg_at(h0, ha, g, none(), 0, ds, k3 as int, v0); lem_stg_ints(h0, ha, g, none(), 0, ds, k3 as int);  }
@loop 3.1 before
            let ghost hc = h@; let ghost sl = elts(hc, it3_1);
            proof { lem_wfs_new2(h0, ha, hc); lem_sig_all(hb, hc, sl, g); lem_sig_rep_none(hc, sl, true, key0, val0); lem_op_at(h0, ha, hc, g, v0); }
@loop 3.1 inv
        wfm(h0), wf(h0, g), sigin(h0, g), wfq(h0, g), qlist(h0, g, none()), qlist(h0, g, ds), apart(none(), ds), ds == selall(h0, g, 2), model@ == PV::Ref(Id::Model), model__0 == model, subgraph__0 == subgraph, subgraph@ == PV::Ref(Id::Sub(g)), operators@ == PV::Ref(Id::Ops(g)), h0.l[Id::Subs].len() > 0, 0 <= g < h0.l[Id::Subs].len(),
        forall|m: int| 0 <= m < ds.len() ==> typed(h0, g, 2, #[trigger] ds[m]),
        v0 == ds[k3 as int], op@ == v0, k3 < ds.len(), op_at(h0, hc, g, v0), key0 == keyb(h0, g, true, v0), val0 == valb(h0, g, true, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
        k3_1 <= sl.len(), is_list(it3_1@), elts(h@, it3_1) == sl, is_l(hc, it3_1), sig_rep(hc, h@.f, sl, k3_1 as int, true, key0, val0), sig_list(hc, sl, g), sig_all(hc, sl, g), distinct(sl),
@loop 3.1 begin
                let ghost f1 = h@.f; let ghost kk = rid(sl[k3_1 as int])->Sig_0;
                proof { lem_sig_rep_at(hc, h@, sl, k3_1 as int, true, key0, val0, kk); }
@loop 3.1 end
                proof { lem_sig_rep_step(hc, f1, h@.f, sl, k3_1 as int, true, key0, val0, kk); }
@loop 3.1.1 inv
        wfm(h0), wf(h0, g), sigin(h0, g), wfq(h0, g), qlist(h0, g, none()), qlist(h0, g, ds), apart(none(), ds), ds == selall(h0, g, 2), model@ == PV::Ref(Id::Model), model__0 == model, subgraph__0 == subgraph, subgraph@ == PV::Ref(Id::Sub(g)), operators@ == PV::Ref(Id::Ops(g)), h0.l[Id::Subs].len() > 0, 0 <= g < h0.l[Id::Subs].len(),
        forall|m: int| 0 <= m < ds.len() ==> typed(h0, g, 2, #[trigger] ds[m]),
        v0 == ds[k3 as int], op@ == v0, k3 < ds.len(), op_at(h0, hc, g, v0), key0 == keyb(h0, g, true, v0), val0 == valb(h0, g, true, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
                one_rep(f1, h@.f, kk, true, k3_1_1 as int, key0, val0), k3_1_1 <= py_cnt(it3_1_1), it3_1_1@ is Int, py_cnt(it3_1_1) == sigl(hc, kk, true).len(), signature_def@ == PV::Ref(Id::Sig(kk)),
                op_fields(hc, f1), f1[(Id::Sig(kk), Fld::outputs)] == PV::Ref(Id::SigOut(kk)), tmlist(hc.l[Id::SigOut(kk)], kk, true),
                forall|j: int| 0 <= j < sigl(hc, kk, true).len() ==> (#[trigger] f1[(Id::Tm(kk, true, j), Fld::tensorIndex)]) is Int,
@loop 3.1 after
            proof { lem_sig_rep_done(h0, hc, h@.f, sl, g, true, key0, val0); }
@loop 3 end
            proof {
                let p = choose|p: int| #[trigger] first_at(ops(ha, g), v0, p) && ops(h@, g) == ops(ha, g).remove(p);
                assert(redirected(h0, ha, h@, g, true, v0));
                lem_stg_step(h0, ha, h@, g, none(), 0, ds, k3 as int, v0, p);
            }
@loop 4 before
        let ghost hm = h@; proof { assert(mid(h0, hm, g)); assert(wf(hm, g)); lem_codeset(h0, hm, g, s_l, 3); }
@loop 4 inv
        wfm(hm), wf(hm, g), wfq(hm, g), newsets(hm, h@), it4@ == PV::Ref(Id::Ops(g)), tensors@ == PV::Ref(Id::Tensors(g)), subgraph@ == PV::Ref(Id::Sub(g)), k4 <= ops(hm, g).len(), throw_strip_subgraph(old(h)@, model__0, subgraph__0, g) <== badtype(hm, g, 3),
        is_set(lce_dequant_opcode_idxs@), codeset(hm, h@.s[rid(lce_dequant_opcode_idxs@)], 3, ncode(hm)), is_s(h@, remove_tensors_idxs), h@.s[rid(remove_tensors_idxs@)] == Set::<PV>::empty(),
        is_l(h@, lce_output_dequant_ops), elts(h@, lce_output_dequant_ops) == sel(hm, g, 3, k4 as int), alltyped(hm, g, 3, k4 as int),
@loop 4 begin
            proof { assert(wfop(hm, g, ops(hm, g)[k4 as int])); }
@loop 5 before
        let ghost es = selall(hm, g, 3);
        proof { lem_selall(hm, g, 3); lem_empty(hm, g); lem_stg_nones(hm, g, none(), es); }
@loop 5 inv
        wfm(hm), wf(hm, g), sigin(hm, g), wfq(hm, g), qlist(hm, g, none()), qlist(hm, g, es), apart(none(), es), es == selall(hm, g, 3), model@ == PV::Ref(Id::Model), model__0 == model, subgraph__0 == subgraph, subgraph@ == PV::Ref(Id::Sub(g)), operators@ == PV::Ref(Id::Ops(g)), hm.l[Id::Subs].len() > 0, 0 <= g < hm.l[Id::Subs].len(),
        forall|m: int| 0 <= m < es.len() ==> typed(hm, g, 3, #[trigger] es[m]),
        it5 == lce_output_dequant_ops, is_l(h@, lce_output_dequant_ops), elts(h@, lce_output_dequant_ops) == es, is_s(h@, remove_tensors_idxs),
        k5 <= es.len(), stg(hm, h@, g, none(), 0, es, k5 as int), h@.s[rid(remove_tensors_idxs@)] == rset(hm, g, none(), 0, es, k5 as int),
@loop 5 begin
            let ghost ha = h@; let ghost v0 = es[k5 as int]; let ghost key0 = keyb(hm, g, true, v0); let ghost val0 = valb(hm, g, true, v0);
            proof { lem_stg_at(hm, ha, g, none(), 0, es, k5 as int, v0); lem_stg_ints(hm, ha, g, none(), 0, es, k5 as int);  }
@loop 5.1 before
            let ghost hc = h@; let ghost sl = elts(hc, it5_1);
            proof { lem_wfs_new2(hm, ha, hc); lem_sig_all(hb, hc, sl, g); lem_sig_rep_none(hc, sl, true, key0, val0); lem_op_at(hm, ha, hc, g, v0); }
@loop 5.1 inv
        wfm(hm), wf(hm, g), sigin(hm, g), wfq(hm, g), qlist(hm, g, none()), qlist(hm, g, es), apart(none(), es), es == selall(hm, g, 3), model@ == PV::Ref(Id::Model), model__0 == model, subgraph__0 == subgraph, subgraph@ == PV::Ref(Id::Sub(g)), operators@ == PV::Ref(Id::Ops(g)), hm.l[Id::Subs].len() > 0, 0 <= g < hm.l[Id::Subs].len(),
        forall|m: int| 0 <= m < es.len() ==> typed(hm, g, 3, #[trigger] es[m]),
        v0 == es[k5 as int], op@ == v0, k5 < es.len(), op_at(hm, hc, g, v0), key0 == keyb(hm, g, true, v0), val0 == valb(hm, g, true, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
        k5_1 <= sl.len(), is_list(it5_1@), elts(h@, it5_1) == sl, is_l(hc, it5_1), sig_rep(hc, h@.f, sl, k5_1 as int, true, key0, val0), sig_list(hc, sl, g), sig_all(hc, sl, g), distinct(sl),
@loop 5.1 begin
                let ghost f1 = h@.f; let ghost kk = rid(sl[k5_1 as int])->Sig_0;
                proof { lem_sig_rep_at(hc, h@, sl, k5_1 as int, true, key0, val0, kk); }
@loop 5.1 end
                proof { lem_sig_rep_step(hc, f1, h@.f, sl, k5_1 as int, true, key0, val0, kk); }
@loop 5.1.1 inv
        wfm(hm), wf(hm, g), sigin(hm, g), wfq(hm, g), qlist(hm, g, none()), qlist(hm, g, es), apart(none(), es), es == selall(hm, g, 3), model@ == PV::Ref(Id::Model), model__0 == model, subgraph__0 == subgraph, subgraph@ == PV::Ref(Id::Sub(g)), operators@ == PV::Ref(Id::Ops(g)), hm.l[Id::Subs].len() > 0, 0 <= g < hm.l[Id::Subs].len(),
        forall|m: int| 0 <= m < es.len() ==> typed(hm, g, 3, #[trigger] es[m]),
        v0 == es[k5 as int], op@ == v0, k5 < es.len(), op_at(hm, hc, g, v0), key0 == keyb(hm, g, true, v0), val0 == valb(hm, g, true, v0), key0 is Int, val0 is Int,
        h@ == (Hs { f: h@.f, ..hc }), wfs(hc),
                one_rep(f1, h@.f, kk, true, k5_1_1 as int, key0, val0), k5_1_1 <= py_cnt(it5_1_1), it5_1_1@ is Int, py_cnt(it5_1_1) == sigl(hc, kk, true).len(), signature_def@ == PV::Ref(Id::Sig(kk)),
                op_fields(hc, f1), f1[(Id::Sig(kk), Fld::outputs)] == PV::Ref(Id::SigOut(kk)), tmlist(hc.l[Id::SigOut(kk)], kk, true),
                forall|j: int| 0 <= j < sigl(hc, kk, true).len() ==> (#[trigger] f1[(Id::Tm(kk, true, j), Fld::tensorIndex)]) is Int,
@loop 5.1 after
            proof { lem_sig_rep_done(hm, hc, h@.f, sl, g, true, key0, val0); }
@loop 5 end
            proof {
                let p = choose|p: int| #[trigger] first_at(ops(ha, g), v0, p) && ops(h@, g) == ops(ha, g).remove(p);
                assert(redirected(hm, ha, h@, g, true, v0));
                lem_stg_step(hm, ha, h@, g, none(), 0, es, k5 as int, v0, p);
            }
@call get_signature_defs before
            let ghost hb = h@; proof { lem_wfs(ha, hb); }
@call remove_tensors_from_model#1 before
    let ghost hr = h@;
    proof { lem_stg_wf(h0, hr, g, none(), ds); lem_rset(h0, g, none(), 0, ds, ds.len() as int); if inuse(hr, g, rset(h0, g, none(), 0, ds, ds.len() as int)) { assert(blocked(h0, g, none(), ds)); } }
@call remove_tensors_from_model#1 after
    proof { lem_final(h0, hr, h@, g, none(), ds, 2); lem_mid(h0, h@, g); }
@call remove_tensors_from_model#2 before
    let ghost hs = h@;
    proof { lem_stg_wf(hm, hs, g, none(), es); lem_rset(hm, g, none(), 0, es, es.len() as int); if inuse(hs, g, rset(hm, g, none(), 0, es, es.len() as int)) { assert(blocked(hm, g, none(), es)); assert(mid(h0, hm, g)); } }
@call remove_tensors_from_model#2 after
    proof { lem_final(hm, hs, h@, g, none(), es, 3); lem_wfm(hm, h@, g, none(), es); assert(last(hm, h@, g)); assert(stripped(h0, h@, g)); }
@ghostarg get_signature_defs.i = g
@ghostarg remove_tensors_from_model.i = g
@@fn strip_lcedequantize_ops as strip_ops
@isolate
@requires
        !(model@ is Unset),
@throw strip_refused(model_of(model@))
@ensures
        r@ == bytes_of(final(h)@), chain(model_of(model@), final(h)@, model_of(model@).l[Id::Subs].len() as int),
@start
    let ghost h0 = model_of(model@);
@loop 1 inv
        h0 == model_of(model__0@), it1@ == PV::Ref(Id::Subs), wfm(h@), chain(h0, h@, k1 as int), h@.l[Id::Subs].len() == h0.l[Id::Subs].len(), k1 <= h0.l[Id::Subs].len(), model@ == PV::Ref(Id::Model),
@loop 1 begin
            let ghost ha = h@; proof { assert(wf(ha, k1 as int)); if refused(ha, k1 as int) { assert(refused_at(h0, ha, k1 as int)); } }
@loop 1 end
            proof { lem_chain(h0, ha, h@, k1 as int); }
@ghostarg strip_subgraph.g = k1 as int
