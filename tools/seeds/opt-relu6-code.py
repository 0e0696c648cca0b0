P = 'C19'
EDITS = [('larq_compute_engine/mlir/transforms/translate_tflite.cc', '''  if (af_type == tflite::ActivationFunctionType_RELU_N1_TO_1)
    return "RELU_N1_TO_1";
  if (af_type == tflite::ActivationFunctionType_RELU6) return "RELU6";''', '''  if (af_type >= tflite::ActivationFunctionType_RELU_N1_TO_1)
    return "RELU_N1_TO_1";
  return "RELU6";''')]
NEEDS = 'a converted model with a fused RELU6, read back into the converter'
BREAKS = 'RELU6 reads back as RELU_N1_TO_1'
NATIVE = ('options.cc', ['3', '3000'])
