@@include tflop.vs
@@include flex.vs
@@include tfpad.vs
@@include convop_data.vs
@@record compute_engine::core::indirect_bgemm::Kernel => Kern
@@prelude
pub struct Kern { pub g: Ghost<int> }
// which evaluation ran: kind (0 reference, 1 ruy BGEMM, 2 indirect BGEMM), accumulator bits, output type
pub enum Ran { No, Yes { kind: int, bits: int, ty: int } }
pub struct Tr { pub r: Ghost<Ran> }
pub open spec fn ran(t: &Tr, kind: int, ty: int) -> bool { t.r@ is Yes && t.r@->kind == kind && t.r@->ty == ty }
// most bits in which a patch of the input and a filter can differ
pub open spec fn conv_bits(ud: &OpData) -> int { ud.params.filter_height * ud.params.filter_width * ud.params.channels_in }
pub open spec fn sane(ud: &OpData) -> bool { 0 <= ud.params.filter_height && 0 <= ud.params.filter_width && 0 <= ud.params.channels_in && 0 <= ud.params.filter_height * ud.params.filter_width <= 0x7fff_ffff && 0 <= conv_bits(ud) <= 0x7fff_0000 }
@@foreach S C N in f:float:1 i:signed_char:9 b:int:2
@@fn compute_engine::tflite::bconv2d::EvalOptBGEMM<int,$C>/3 as eval_bg32_$S
@assumed conveval_bg.vs
@ghost tr: &mut Tr
@requires
    conv_bits(old(op_data)) <= 0x7fff_ffff,
@ensures
    final(tr).r@ == (Ran::Yes { kind: 1, bits: 32, ty: $N }), *final(context) == *old(context), *final(node) == *old(node),
@@fn compute_engine::tflite::bconv2d::EvalOptIndirectBGEMM<$C>/3 as eval_ind_$S
@assumed conveval_ind.vs
@ghost tr: &mut Tr
@ensures
    final(tr).r@ == (Ran::Yes { kind: 2, bits: 32, ty: $N }), *final(context) == *old(context), *final(node) == *old(node),
@@fn compute_engine::tflite::bconv2d::EvalRef<$C>/3 as eval_ref_$S
@assumed conveval_ref.vs
@ghost tr: &mut Tr
@ensures
    final(tr).r@ == (Ran::Yes { kind: 0, bits: 32, ty: $N }), *final(context) == *old(context), *final(node) == *old(node),
@@end
