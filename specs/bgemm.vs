@@include common.vs
@@include shape.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs contracts of zpad.vs
@@include zpad_link.vs contracts of zpad.vs
@@include bgemm_kern.vs
@@include bgemm_conv.vs
@@include bgemm_link.vs
