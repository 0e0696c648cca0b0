#pragma once
#include "tensorflow/lite/c/common.h"
namespace tflite {
template <TfLiteType t> struct TfLiteTypeToType {};
template <> struct TfLiteTypeToType<kTfLiteBool> { using Type = bool; };
template <> struct TfLiteTypeToType<kTfLiteInt8> { using Type = std::int8_t; };
template <> struct TfLiteTypeToType<kTfLiteFloat32> { using Type = float; };
}
