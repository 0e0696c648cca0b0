P = 'C18'
EDITS = [('larq_compute_engine/mlir/transforms/optimize.cc', '''      effective_clamp_min = -1 * clamp_max;
      effective_clamp_max = -1 * clamp_min;''', '''      // the range of the flipped dot product
      effective_clamp_min = -1 * clamp_max;
      effective_clamp_max = std::max(-1 * clamp_min, clamp_max);''')]
NEEDS = 'a negative multiplier together with the RELU6 or RELU activation, and a bias that crosses zero only beyond the clamped range'
BREAKS = 'the clamping range of a channel with a negative multiplier is taken too wide, so a constant output gets a threshold'
NATIVE = ('thresh.cc', ['5', '20000'])
