@@include mlirty.vs
@@prelude
// what fixing the batch size makes of a type
pub open spec fn dyn_batch(t: TyV) -> bool { is_ranked(t) && t->Ranked_0.len() > 0 && t->Ranked_0[0] == i64::MIN }
pub open spec fn fixed(t: TyV) -> TyV { if dyn_batch(t) { TyV::Ranked(t->Ranked_0.update(0, 1), t->Ranked_1, t->Ranked_2) } else { t } }
pub open spec fn all_fixed(a: Seq<TyV>, b: Seq<TyV>) -> bool { b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == fixed(a[k]) }
pub open spec fn no_null(a: Seq<TyV>) -> bool { forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] != TyV::Null }
@@fn mlir::SetBatchSize/1 as set_batch_size
@requires
    type_v@ != TyV::Null,
@ensures
    r@ == (if dyn_batch(type_v@) { fixed(type_v@) } else { TyV::Null }),
@@fn mlir::SetBatchSizePass::runOnOperation/0 as run_pass
@nothis
@ghost ir: &mut Ir
@requires
    old(ir).ty@ is Fun, no_null(old(ir).ty@->Fun_0), no_null(old(ir).args@),
@ensures
    final(ir).ty@ is Fun, all_fixed(old(ir).ty@->Fun_0, final(ir).ty@->Fun_0), final(ir).ty@->Fun_1 == old(ir).ty@->Fun_1,
    all_fixed(old(ir).args@, final(ir).args@), final(ir).rest == old(ir).rest,
@start
    let ghost t0 = ir.ty@; let ghost a0 = ir.args@; let ghost rest0 = ir.rest;
@loop 0 inv
    t0->Fun_0.len() == signature_inputs@.len(), forall|k: int| 0 <= k < signature_inputs@.len() ==> #[trigger] signature_inputs@[k]@ == (if k < ri_0 { fixed(t0->Fun_0[k]) } else { t0->Fun_0[k] }),
    *ir == *old(ir), signature@ == t0,
@loop 0 begin
    proof { assert(signature_inputs@[ri_0 as int]@ == t0->Fun_0[ri_0 as int]); }
@loop 1 inv
    ir.args@.len() == a0.len(), forall|k: int| 0 <= k < a0.len() ==> #[trigger] ir.args@[k] == (if k < ri_1 { fixed(a0[k]) } else { a0[k] }),
    ir.rest == rest0, ir.ty@ is Fun, all_fixed(t0->Fun_0, ir.ty@->Fun_0), ir.ty@->Fun_1 == t0->Fun_1,
@loop 1 begin
    proof { assert(ir.args@[ri_1 as int] == a0[ri_1 as int]); }
