P = 'C23'
EDITS = [('larq_compute_engine/mlir/transforms/prepare_tf.cc', '''  for (std::size_t h = 0; h < shape[0]; ++h) {
    for (std::size_t w = 0; w < shape[1]; ++w) {''', '''  for (std::size_t h = 0; h < shape[0]; ++h) {
    for (std::size_t w = h; w < shape[1]; ++w) {''')]
NEEDS = 'a filter of height 2 or more with a non-binary weight below the diagonal'
BREAKS = 'filters with non-binary weights are converted'
NATIVE = ('binfilter.cc', ['3', '20000'])
