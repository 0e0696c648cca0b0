@@include otrans.vs
@@fn compute_engine::core::saturate/1 as core_saturate
@ensures
    r == sat8(x as int)
@@fn compute_engine::core::round/1 as core_round
@ensures
    r == nearest(x)
