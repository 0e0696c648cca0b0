@@include common.vs
@@include shape.vs
@@include otrans.vs
@@include conv.vs
@@include zpad_core.vs
@@include zpad_link.vs
