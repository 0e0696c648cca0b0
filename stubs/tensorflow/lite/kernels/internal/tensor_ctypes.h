// Stand-in for TFLite's kernels/internal/tensor_ctypes.h
#ifndef STUB_TFL_TENSOR_CTYPES_H_
#define STUB_TFL_TENSOR_CTYPES_H_
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace tflite {
template <typename T> inline T* GetTensorData(TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<T*>(t->data) : nullptr; }
template <typename T> inline const T* GetTensorData(const TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<const T*>(t->data) : nullptr; }
inline RuntimeShape GetTensorShape(const TfLiteTensor* t) {
  if (t == nullptr) return RuntimeShape();
  return RuntimeShape(t->dims->size, t->dims->data);
}
}  // namespace tflite
#endif
