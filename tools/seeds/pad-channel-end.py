P = 'C15'
EDITS = [('larq_compute_engine/mlir/transforms/padding.h', '''  return paddings.getValues<int>()[{dimension, 0}] == 0 &&
         paddings.getValues<int>()[{dimension, 1}] == 0;''', '''  // A negative amount never occurs, so the total tells whether there is padding
  const auto values = paddings.getValues<int>();
  return values[{dimension, 0}] + values[{dimension / 2, 1}] == 0;''')]
NEEDS = 'padding only after the last channel'
BREAKS = 'a convolution behind a padding of the channels at the end is fused'
NATIVE = ('padding.cc', ['5', '20000'])
