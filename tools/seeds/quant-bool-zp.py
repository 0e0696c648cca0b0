P = 'C03'
EDITS = [('larq_compute_engine/tflite/kernels/quantization.cc', '  if (input->type == kTfLiteFloat32) {\n    bitpack_tensor', '  const std::int32_t zp_bool = 1 + input->params.zero_point;\n  if (input->type == kTfLiteFloat32) {\n    bitpack_tensor'), ('larq_compute_engine/tflite/kernels/quantization.cc', 'BOOL_UINT(1), GetTensorData', 'zp_bool, GetTensorData')]
NEEDS = 'a bool input tensor that carries a nonzero quantization zero point'
BREAKS = 'bool inputs are compared with the wrong threshold, so every element packs to the same bit'
NATIVE = ('quant.cc', ['2', '1500'])
