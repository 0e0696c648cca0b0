P = 'C25'
EDITS = [('larq_compute_engine/mlir/tf_tfl_passes.cc', '''  if (quant_specs.default_ranges.first.has_value() ||
      quant_specs.default_ranges.second.has_value()) {''', '''  if (quant_specs.default_ranges.first.value_or(0.0) != 0.0 ||
      quant_specs.default_ranges.second.value_or(0.0) < 0.0) {''')]
NEEDS = 'a default range that starts at zero'
BREAKS = 'the requested default range is ignored'
NATIVE = ('passes.cc', ['3', '8000'])
