P = 'C25'
EDITS = [('larq_compute_engine/mlir/python/graphdef_tfl_flatbuffer.cc', '''    if (x.size() > 0) {
      translated_input_shapes.push_back(x);
    } else {''', '''    if (x.size() > 0 || !translated_input_shapes.empty()) {
      translated_input_shapes.push_back(x);
    } else {''')]
NEEDS = 'a graph whose second or later input has an unknown shape'
BREAKS = 'that input is imported as a scalar'
NATIVE = ('passes.cc', ['3', '8000'])
