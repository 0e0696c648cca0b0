@@include common.vs
@@include shape.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs contracts of zpad.vs
@@include zpad_link.vs contracts of zpad.vs
@@include indirect_pack.vs
@@include indirect_fill.vs
@@include indirect_run.vs
@@include indirect_bits.vs
@@include indirect_conv.vs
@@include indirect_top.vs
