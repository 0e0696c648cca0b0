P = 'C04'
EDITS = [('larq_compute_engine/tflite/kernels/bmaxpool.cc', '''  poolparams->padding = ComputePaddingHeightWidth(
      poolparams->stride_height, poolparams->stride_width, 1, 1, height, width,
      poolparams->filter_height, poolparams->filter_width,
      poolparams->padding_type, &out_height, &out_width);
''', '''  const TfLitePaddingValues padding = ComputePaddingHeightWidth(
      poolparams->stride_height, poolparams->stride_width, 1, 1, height, width,
      poolparams->filter_height, poolparams->filter_width,
      poolparams->padding_type, &out_height, &out_width);
  if (poolparams->padding.height == 0 && poolparams->padding.width == 0) {
    poolparams->padding = padding;
  }
''')]
NEEDS = 'the same operator prepared again for another image size whose SAME padding differs from the first nonzero one'
BREAKS = 'windows are placed with the padding of an earlier image size after the input is resized'
NATIVE = ('bmaxpool.cc', ['5', '4000'])
