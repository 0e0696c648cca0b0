P = 'C18'
EDITS = [('larq_compute_engine/mlir/transforms/optimize.cc', '''    const auto sign = vector.getValues<float>()[i] >= 0.0f ? 1.0f : -1.0f;
    signs[i] = FloatAttr::get(element_type, sign);''', '''    const auto value = vector.getValues<float>()[i];
    if (i > 0 && value == vector.getValues<float>()[0]) {
      signs[i] = signs[i - 1];
      continue;
    }
    const auto sign = value >= 0.0f ? 1.0f : -1.0f;
    signs[i] = FloatAttr::get(element_type, sign);''')]
NEEDS = 'a channel that repeats the first channel\'s multiplier after a channel with a multiplier of the other sign'
BREAKS = 'the filter of that channel is flipped (or not) against the sign of its multiplier'
NATIVE = ('thresh.cc', ['5', '20000'])
