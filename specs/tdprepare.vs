@@include tdrewrite.inc
@@pick !LQ_Bconv2dOp
@@prelude
// the condition c, broadcast to the shape of s, packed and unpacked
pub open spec fn unpacked_as(s: V, c: V) -> V {
    LQ_DequantizeOp(LQ_QuantizeOp(n_CreateTFBroadcastToOp_0c993f(s, c, n_CreateTFShapeOp_430e90(s, s, k_BoolAttr_false()))))
}
#[verifier::external_body] pub broadcast proof fn ax_CheckNumerics(x: V, m: V)
    ensures #[trigger] TF_CheckNumericsOp(x, m)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_Snapshot(x: V)
    ensures #[trigger] TF_SnapshotOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_StopGradient(x: V)
    ensures #[trigger] TF_StopGradientOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_PlaceholderWithDefault(x: V)
    ensures #[trigger] TF_PlaceholderWithDefaultOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_Identity(x: V)
    ensures #[trigger] TF_IdentityOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_IdentityN(x: V)
    ensures #[trigger] TF_IdentityNOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_const(v: V)
    ensures #[trigger] TF_ConstOp(v)
        == Arith_ConstantOp(v) { }
#[verifier::external_body] pub broadcast proof fn ax_select_pos(c: V, p: V, n: V)
    requires p_SelectsElementwise(TF_SelectOp(c, Arith_ConstantOp(p), Arith_ConstantOp(n)), c), p_IsConstantValue(p, k_num_1_0()), p_IsConstantValue(n, k_num_m1_0())
    ensures #[trigger] TF_SelectOp(c, Arith_ConstantOp(p), Arith_ConstantOp(n))
        == unpacked_as(TF_SelectOp(c, Arith_ConstantOp(p), Arith_ConstantOp(n)), c) { }
#[verifier::external_body] pub broadcast proof fn ax_select_neg(c: V, p: V, n: V)
    requires p_SelectsElementwise(TF_SelectOp(c, Arith_ConstantOp(n), Arith_ConstantOp(p)), c), p_IsConstantValue(p, k_num_1_0()), p_IsConstantValue(n, k_num_m1_0())
    ensures #[trigger] TF_SelectOp(c, Arith_ConstantOp(n), Arith_ConstantOp(p))
        == unpacked_as(TF_SelectOp(c, Arith_ConstantOp(n), Arith_ConstantOp(p)), TF_LogicalNotOp(c)) { }
#[verifier::external_body] pub broadcast proof fn ax_selectv2_pos(c: V, p: V, n: V)
    requires p_IsConstantValue(p, k_num_1_0()), p_IsConstantValue(n, k_num_m1_0())
    ensures #[trigger] TF_SelectV2Op(c, Arith_ConstantOp(p), Arith_ConstantOp(n))
        == unpacked_as(TF_SelectV2Op(c, Arith_ConstantOp(p), Arith_ConstantOp(n)), c) { }
#[verifier::external_body] pub broadcast proof fn ax_selectv2_neg(c: V, p: V, n: V)
    requires p_IsConstantValue(p, k_num_1_0()), p_IsConstantValue(n, k_num_m1_0())
    ensures #[trigger] TF_SelectV2Op(c, Arith_ConstantOp(n), Arith_ConstantOp(p))
        == unpacked_as(TF_SelectV2Op(c, Arith_ConstantOp(n), Arith_ConstantOp(p)), TF_LogicalNotOp(c)) { }
#[verifier::external_body] pub broadcast proof fn ax_sign(x: V, c: V)
    requires p_IsConstantBetween(c, k_num_0_0(), k_num_1_0())
    ensures #[trigger] TF_SignOp(TF_AddV2Op(TF_SignOp(x), Arith_ConstantOp(c)))
        == LQ_DequantizeOp(LQ_QuantizeOp(x)) { }
#[verifier::external_body] pub broadcast proof fn ax_sign2(x: V, c: V)
    requires p_IsConstantBetween(c, k_num_0_0(), k_num_1_0())
    ensures #[trigger] TF_SignOp(TF_AddV2Op(Arith_ConstantOp(c), TF_SignOp(x)))
        == LQ_DequantizeOp(LQ_QuantizeOp(x)) { }
