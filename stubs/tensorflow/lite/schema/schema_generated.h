// The two enums of the TFLite schema the operators read (values as in schema.fbs).
#ifndef STUB_TFL_SCHEMA_H_
#define STUB_TFL_SCHEMA_H_
#include <cstdint>
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
enum Padding : std::int8_t { Padding_SAME = 0, Padding_VALID = 1, Padding_MIN = Padding_SAME, Padding_MAX = Padding_VALID };
enum ActivationFunctionType : std::int8_t { ActivationFunctionType_NONE = 0, ActivationFunctionType_RELU = 1, ActivationFunctionType_RELU_N1_TO_1 = 2,
  ActivationFunctionType_RELU6 = 3, ActivationFunctionType_TANH = 4, ActivationFunctionType_SIGN_BIT = 5 };
}
#endif
