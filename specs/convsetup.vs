@@include tflop.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs contracts of zpad.vs
@@include flex.vs
@@include tfpad.vs
@@include convop_data.vs
@@record compute_engine::core::indirect_bgemm::Kernel => Kern
@@prelude
pub struct Kern { pub g: Ghost<int> }
@@include convsetup_core.vs
