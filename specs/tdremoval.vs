@@include tdrewrite.inc
@@pick !TF_PadOp
@@prelude
#[verifier::external_body] pub broadcast proof fn ax_CheckNumerics(x: V, m: V)
    ensures #[trigger] TF_CheckNumericsOp(x, m)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_Snapshot(x: V)
    ensures #[trigger] TF_SnapshotOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_StopGradient(x: V)
    ensures #[trigger] TF_StopGradientOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_PlaceholderWithDefault(x: V)
    ensures #[trigger] TF_PlaceholderWithDefaultOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_Identity(x: V)
    ensures #[trigger] TF_IdentityOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_IdentityN(x: V)
    ensures #[trigger] TF_IdentityNOp(x)
        == x { }
#[verifier::external_body] pub broadcast proof fn ax_const(v: V)
    ensures #[trigger] TF_ConstOp(v)
        == Arith_ConstantOp(v) { }
