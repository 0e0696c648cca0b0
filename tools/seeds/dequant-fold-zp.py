P = 'C03'
EDITS = [('larq_compute_engine/tflite/kernels/quantization.cc', 'std::min(127, output->params.zero_point + offset);', 'std::min<std::int32_t>(127 - std::max(0, output->params.zero_point - 127 + 1), output->params.zero_point + offset);')]
NEEDS = 'an int8 output whose zero point is exactly 127'
BREAKS = '+1 is dequantized to 126 instead of the saturated 127 when the zero point is 127'
NATIVE = ('quant.cc', ['3', '4000'])
