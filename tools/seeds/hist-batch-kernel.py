P = 'C13'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''  TfLiteIntArray* output_shape = TfLiteIntArrayCreate(4);
  output_shape->data[0]''', '''  const bool output_extent_changed =
      NumDimensions(output) != 4 || SizeOfDimension(output, 1) != out_height ||
      SizeOfDimension(output, 2) != out_width;
  TfLiteIntArray* output_shape = TfLiteIntArrayCreate(4);
  output_shape->data[0]'''), ('larq_compute_engine/tflite/kernels/bconv2d.cc', '''  op_data->indirect_bgemm_kernel.reset();
''', '''  if (output_extent_changed) op_data->indirect_bgemm_kernel.reset();
''')]
NEEDS = 'prepare, evaluate, resize only the batch dimension (or the input so that the output extent stays the same), prepare, evaluate'
BREAKS = 'the indirection buffer of the old input shape is used'
NATIVE = ('bconv.cc', ['5', '6000', 'history'])
