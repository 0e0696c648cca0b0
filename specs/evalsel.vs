@@include evalsel_core.vs
@@include evalsel_top.vs
